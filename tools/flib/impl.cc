#include <gmpxx.h>
#include <string>
extern "C" void verif_mpz_init_set_sll(mpz_t x, long long v) { mpz_init_set_str(x, std::to_string(v).c_str(), 10); }
extern "C" void verif_mpz_init_set_ull(mpz_t x, unsigned long long v) { mpz_init_set_str(x, std::to_string(v).c_str(), 10); }
extern "C" size_t verif_hash_combine(size_t a, size_t b) { return a * 31 + b; }
