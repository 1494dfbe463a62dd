// Stand-in for the (empty) git submodule libexactreal/src/external/unique-factory.
// A factory that creates at most one live value per key.  Values are held
// weakly (plus whatever the KeepAlive policy keeps); an entry is dropped when
// its value dies.
#ifndef VERIF_UNIQUE_FACTORY
#define VERIF_UNIQUE_FACTORY
#include <cstddef>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <type_traits>
#include <unordered_map>
#include <utility>
namespace unique_factory {
struct KeepNothingAlive {
  template <typename P> void operator()(const P&) {}
};

template <typename V, size_t N>
class KeepSetAlive {
  std::unordered_map<const void*, std::shared_ptr<const V>> set;
  std::deque<const void*> order;

 public:
  void operator()(const std::shared_ptr<const V>& v) {
    if (!set.emplace(v.get(), v).second) return;
    order.push_back(v.get());
    if (order.size() > N) {
      auto it = set.find(order.front());
      order.pop_front();
      auto drop = std::move(it->second);
      set.erase(it);
    }
  }
};

template <typename Key, typename Value, typename KeepAlive = KeepNothingAlive, typename Hash = std::hash<Key>>
class UniqueFactory {
  struct Entry {
    std::weak_ptr<const Value> value;
    size_t generation;
  };
  using Map = std::unordered_map<Key, Entry, Hash>;
  struct State {
    std::recursive_mutex mutex;
    Map map;
    size_t generation = 0;
  };
  std::shared_ptr<State> state = std::make_shared<State>();
  KeepAlive keep;

 public:
  template <typename Create>
  std::shared_ptr<const Value> get(const Key& key, Create&& create) {
    std::lock_guard<std::recursive_mutex> lock(state->mutex);
    {
      auto it = state->map.find(key);
      if (it != state->map.end()) {
        auto value = it->second.value.lock();
        if (value) {
          keep(value);
          return value;
        }
        auto node = state->map.extract(it);
      }
    }
    Value* raw;
    if constexpr (std::is_invocable_v<Create, const Key&>)
      raw = create(key);
    else
      raw = create();
    std::unique_ptr<Value> guard(raw);
    const size_t generation = ++state->generation;
    // The key might have been modified by create() so we need to store it now.
    auto stored = std::make_shared<Key>(key);
    std::weak_ptr<State> weak = state;
    std::shared_ptr<const Value> value(guard.release(), [weak, stored, generation](const Value* p) {
      if (auto s = weak.lock()) {
        typename Map::node_type node;
        std::lock_guard<std::recursive_mutex> lock(s->mutex);
        auto it = s->map.find(*stored);
        if (it != s->map.end() && it->second.generation == generation) node = s->map.extract(it);
        delete p;
      } else {
        delete p;
      }
    });
    state->map.insert_or_assign(key, Entry{value, generation});
    keep(value);
    return value;
  }
};
}  // namespace unique_factory
#endif
