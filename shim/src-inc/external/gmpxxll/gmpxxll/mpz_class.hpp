// Stand-in for the (empty) git submodule libexactreal/src/external/gmpxxll.
#ifndef VERIF_GMPXXLL
#define VERIF_GMPXXLL
#include <gmpxx.h>
#include <type_traits>
namespace gmpxxll {
class mpz_class : public ::mpz_class {
  template <typename T>
  static ::mpz_class make(T v) {
    ::mpz_class r;
    bool neg = false;
    using U = std::make_unsigned_t<T>;
    U u = static_cast<U>(v);
    if constexpr (std::is_signed_v<T>)
      if (v < 0) { neg = true; u = static_cast<U>(0) - u; }
    mpz_import(r.get_mpz_t(), 1, -1, sizeof(u), 0, 0, &u);
    if (neg) mpz_neg(r.get_mpz_t(), r.get_mpz_t());
    return r;
  }

 public:
  mpz_class() = default;
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
  mpz_class(T v) : ::mpz_class(make(v)) {}
  mpz_class(const ::mpz_class& v) : ::mpz_class(v) {}
};
}  // namespace gmpxxll
#endif
