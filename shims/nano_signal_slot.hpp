// Stand-in for the nano-signal-slot dependency (not in the sandbox): synchronous signals, observers
// that disconnect when destroyed.
#pragma once
#include <functional>
#include <vector>
#include <algorithm>
namespace Nano
{
class Observer
{
public:
  Observer() = default;
  virtual ~Observer() = default;
};
template <typename T>
class Signal;
template <typename R, typename... A>
class Signal<R(A...)>
{
  struct slot
  {
    void* self;
    R (*fn)(void*, A...);
    void* key;
  };
  std::vector<slot> m_slots;

public:
  template <auto F, typename T>
  void connect(T* t)
  {
    m_slots.push_back({(void*)t, [](void* s, A... a) -> R { return (static_cast<T*>(s)->*F)(static_cast<A>(a)...); }, nullptr});
  }
  template <auto F, typename T>
  void connect(T& t) { connect<F>(&t); }
  template <auto F>
  void connect()
  {
    m_slots.push_back({nullptr, [](void*, A... a) -> R { return F(static_cast<A>(a)...); }, nullptr});
  }
  template <typename L>
  void connect(L* f)
  {
    m_slots.push_back({(void*)f, [](void* s, A... a) -> R { return (*static_cast<L*>(s))(static_cast<A>(a)...); }, nullptr});
  }
  template <typename L>
  void connect(L& f) { connect(&f); }
  template <auto F, typename T>
  void disconnect(T* t)
  {
    for(auto it = m_slots.begin(); it != m_slots.end(); ++it)
      if(it->self == (void*)t) { m_slots.erase(it); return; }
  }
  template <auto F, typename T>
  void disconnect(T& t) { disconnect<F>(&t); }
  template <typename... X>
  void operator()(X&&... a) const
  {
    for(auto& s : m_slots)
      s.fn(s.self, a...);
  }
  template <typename... X>
  void fire(X&&... a) const { (*this)(a...); }
  bool is_empty() const { return m_slots.empty(); }
  void removeAll() { m_slots.clear(); }
  void disconnect_all() { m_slots.clear(); }
};
}
