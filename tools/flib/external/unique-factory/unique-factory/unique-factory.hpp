#pragma once
#include <functional>
#include <unordered_map>
#include <memory>
#include <mutex>
#include <type_traits>
#include <utility>
namespace unique_factory {
struct KeepNothingAlive {};
template <typename V, std::size_t N>
struct KeepSetAlive {};
template <typename Key, typename Value, typename Keep = KeepNothingAlive, typename Hash = std::hash<Key>>
class UniqueFactory {
 public:
  template <typename Create>
  std::shared_ptr<const Value> get(const Key& key, Create create) {
    std::lock_guard<std::recursive_mutex> guard(lock);
    auto found = entries.find(key);
    if (found != entries.end()) {
      if (auto p = found->second.lock()) return p;
      entries.erase(found);
    }
    std::shared_ptr<const Value> ret;
    if constexpr (std::is_invocable_v<Create, const Key&>) ret = std::shared_ptr<const Value>(create(key));
    else ret = std::shared_ptr<const Value>(create());
    entries.emplace(key, ret);
    return ret;
  }
  std::recursive_mutex lock;
  std::unordered_map<Key, std::weak_ptr<const Value>, Hash> entries;
};
}
