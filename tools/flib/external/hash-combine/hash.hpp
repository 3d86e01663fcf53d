// Stand-in for the hash-combine submodule, which is absent from this checkout.
#ifndef VERIF_STUB_HASH_COMBINE
#define VERIF_STUB_HASH_COMBINE
#include <cstddef>
#include <functional>
#include <utility>
extern "C" size_t verif_hash_combine(size_t, size_t);
namespace flatsurf {
template <typename T>
size_t hash(const T& value) { return std::hash<T>{}(value); }
template <typename T, typename S>
size_t hash_combine(const T& a, const S& b) { return verif_hash_combine(static_cast<size_t>(a), static_cast<size_t>(b)); }
template <typename T, typename S, typename... R>
size_t hash_combine(const T& a, const S& b, const R&... r) { return hash_combine(hash_combine(a, b), r...); }
}  // namespace flatsurf
#endif
