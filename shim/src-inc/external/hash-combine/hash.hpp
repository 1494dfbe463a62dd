// Stand-in for the (empty) git submodule libexactreal/src/external/hash-combine.
#ifndef VERIF_HASH_COMBINE
#define VERIF_HASH_COMBINE
#include <cstddef>
#include <functional>
namespace flatsurf {
template <typename T>
size_t hash(const T& x) { return std::hash<T>{}(x); }
inline size_t hash_combine(size_t h) { return h; }
template <typename... T>
size_t hash_combine(size_t a, size_t b, T... rest) {
  return hash_combine(static_cast<size_t>(a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2))), static_cast<size_t>(rest)...);
}
}  // namespace flatsurf
#endif
