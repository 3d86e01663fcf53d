// Stand-in for the unique-factory submodule, which is absent from this checkout.
// Interface only: get(key, create) returns the living value registered for
// key, or registers the one that create() makes.
#ifndef VERIF_STUB_UNIQUE_FACTORY
#define VERIF_STUB_UNIQUE_FACTORY
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
extern "C" {
bool verif_factory_lookup(void* factory, const void* key, void* result);
void verif_factory_keys(void* factory, const void* hash, const void* equal);
void verif_factory_register(void* factory, const void* key, const void* result);
}
namespace unique_factory {
struct KeepNothingAlive {};
template <typename V, std::size_t N>
struct KeepSetAlive {};
template <typename Key, typename Value, typename Keep = KeepNothingAlive, typename Hash = std::hash<Key>>
class UniqueFactory {
 public:
  template <typename Create>
  std::shared_ptr<const Value> get(const Key& key, Create create) {
    std::shared_ptr<const Value> ret;
#ifdef VERIF_KEYS
    verif_factory_keys(this, reinterpret_cast<const void*>(&UniqueFactory::hash), reinterpret_cast<const void*>(&UniqueFactory::equal));
#endif
    if (verif_factory_lookup(this, &key, &ret)) return ret;
    if constexpr (std::is_invocable_v<Create, const Key&>)
      ret = std::shared_ptr<const Value>(create(key));
    else
      ret = std::shared_ptr<const Value>(create());
    verif_factory_register(this, &key, &ret);
    return ret;
  }
  // How keys are hashed and compared.
  static size_t hash(const Key& key) { return Hash{}(key); }
  static bool equal(const Key& a, const Key& b) { return a == b; }
  ~UniqueFactory() {}
  char state[64];
};
}  // namespace unique_factory
#endif
