// Stand-in for the gmpxxll submodule, which is absent from this checkout.
// Models an mpz_class that can be built from (unsigned) long long exactly.
#ifndef VERIF_STUB_GMPXXLL
#define VERIF_STUB_GMPXXLL
#include <gmpxx.h>
extern "C" {
void verif_mpz_init_set_sll(mpz_ptr, long long);
void verif_mpz_init_set_ull(mpz_ptr, unsigned long long);
}
namespace gmpxxll {
class mpz_class : public ::mpz_class {
 public:
  using ::mpz_class::mpz_class;
  mpz_class(long long x) { mpz_clear(get_mpz_t()); verif_mpz_init_set_sll(get_mpz_t(), x); }
  mpz_class(unsigned long long x) { mpz_clear(get_mpz_t()); verif_mpz_init_set_ull(get_mpz_t(), x); }
};
}  // namespace gmpxxll
#endif
