// Stand-in for the (empty) git submodule libexactreal/exact-real/external/spimpl.
// Implements the documented interface of oliora's spimpl that exact-real uses.
#ifndef VERIF_SPIMPL_H
#define VERIF_SPIMPL_H
#include <memory>
#include <type_traits>
#include <utility>
namespace spimpl {
namespace details {
template <class T> T* default_copy(T* src) { return new T(*src); }
template <class T> void default_delete(T* p) noexcept { delete p; }
}  // namespace details

template <class T>
class unique_impl_ptr {
 public:
  using pointer = T*;
  unique_impl_ptr() noexcept : p(nullptr, nullptr) {}
  unique_impl_ptr(std::nullptr_t) noexcept : unique_impl_ptr() {}
  unique_impl_ptr(T* p, void (*d)(T*)) noexcept : p(p, d) {}
  unique_impl_ptr(unique_impl_ptr&&) noexcept = default;
  unique_impl_ptr& operator=(unique_impl_ptr&&) noexcept = default;
  T& operator*() { return *p; }
  const T& operator*() const { return *p; }
  T* operator->() noexcept { return p.get(); }
  const T* operator->() const noexcept { return p.get(); }
  T* get() noexcept { return p.get(); }
  const T* get() const noexcept { return p.get(); }
  explicit operator bool() const noexcept { return static_cast<bool>(p); }
  void swap(unique_impl_ptr& o) noexcept { p.swap(o.p); }

 private:
  std::unique_ptr<T, void (*)(T*)> p;
};

template <class T, class... Args>
unique_impl_ptr<T> make_unique_impl(Args&&... args) {
  return unique_impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>);
}

template <class T>
class impl_ptr {
 public:
  using pointer = T*;
  impl_ptr() noexcept : p(nullptr), c(nullptr), d(nullptr) {}
  impl_ptr(std::nullptr_t) noexcept : impl_ptr() {}
  impl_ptr(T* p, void (*d)(T*), T* (*c)(T*)) noexcept : p(p), c(c), d(d) {}
  impl_ptr(const impl_ptr& o) : p(o.p ? o.c(o.p) : nullptr), c(o.c), d(o.d) {}
  impl_ptr(impl_ptr&& o) noexcept : p(o.p), c(o.c), d(o.d) { o.p = nullptr; }
  impl_ptr& operator=(const impl_ptr& o) {
    if (this != &o) { impl_ptr t(o); swap(t); }
    return *this;
  }
  impl_ptr& operator=(impl_ptr&& o) noexcept {
    if (this != &o) { impl_ptr t(std::move(o)); swap(t); }
    return *this;
  }
  ~impl_ptr() { if (p) d(p); }
  void swap(impl_ptr& o) noexcept { std::swap(p, o.p); std::swap(c, o.c); std::swap(d, o.d); }
  T& operator*() { return *p; }
  const T& operator*() const { return *p; }
  T* operator->() noexcept { return p; }
  const T* operator->() const noexcept { return p; }
  T* get() noexcept { return p; }
  const T* get() const noexcept { return p; }
  explicit operator bool() const noexcept { return p != nullptr; }

 private:
  T* p;
  T* (*c)(T*);
  void (*d)(T*);
};

template <class T> void swap(impl_ptr<T>& a, impl_ptr<T>& b) noexcept { a.swap(b); }
template <class T> void swap(unique_impl_ptr<T>& a, unique_impl_ptr<T>& b) noexcept { a.swap(b); }

template <class T, class... Args>
impl_ptr<T> make_impl(Args&&... args) {
  return impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>, &details::default_copy<T>);
}
}  // namespace spimpl
#endif
