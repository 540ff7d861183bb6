#define TSL_HOPSCOTCH_MAP_H
// Stand-in for the hash map dependency: a map over a vector, in order of insertion.
#pragma once
#include <functional>
#include <stdexcept>
#include <utility>
#include <vector>
namespace tsl
{
template <typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>, typename A = void, unsigned N = 62, bool S = false, typename G = void>
struct hopscotch_map
{
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<K, V>;
  struct iterator
  {
    value_type* p{};
    value_type& operator*() const { return *p; }
    value_type* operator->() const { return p; }
    V& value() const { return p->second; }
    const K& key() const { return p->first; }
    iterator& operator++() { ++p; return *this; }
    bool operator==(const iterator& o) const { return p == o.p; }
    bool operator!=(const iterator& o) const { return p != o.p; }
  };
  using const_iterator = iterator;
  std::vector<value_type> c;
  hopscotch_map() = default;
  explicit hopscotch_map(std::size_t) { }
  iterator begin() const { return {const_cast<value_type*>(c.data())}; }
  iterator end() const { return {const_cast<value_type*>(c.data()) + c.size()}; }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  std::size_t size() const { return c.size(); }
  bool empty() const { return c.empty(); }
  void clear() { c.clear(); }
  void reserve(std::size_t n) { c.reserve(n); }
  template <typename Q>
  iterator find(const Q& k) const
  {
    auto it = begin();
    while(it != end() && !E{}(it->first, k))
      ++it;
    return it;
  }
  template <typename Q>
  std::size_t count(const Q& k) const { return find(k) != end(); }
  template <typename P>
  std::pair<iterator, bool> insert(P&& p)
  {
    auto it = find(p.first);
    if(it != end())
      return {it, false};
    c.emplace_back(p.first, p.second);
    return {iterator{c.data() + c.size() - 1}, true};
  }
  std::pair<iterator, bool> insert(value_type p)
  {
    auto it = find(p.first);
    if(it != end())
      return {it, false};
    c.push_back(std::move(p));
    return {iterator{c.data() + c.size() - 1}, true};
  }
  V& operator[](const K& k)
  {
    auto it = find(k);
    if(it == end())
    {
      c.emplace_back(k, V{});
      return c.back().second;
    }
    return it->second;
  }
  const V& at(const K& k) const
  {
    auto it = find(k);
    if(it == end())
      throw std::out_of_range("no such key");
    return it->second;
  }
  V& at(const K& k) { return const_cast<V&>(static_cast<const hopscotch_map*>(this)->at(k)); }
  iterator erase(iterator it)
  {
    const auto i = it.p - c.data();
    c.erase(c.begin() + i);
    return {c.data() + i};
  }
  template <typename Q>
  std::size_t erase(const Q& k)
  {
    auto it = find(k);
    if(it == end())
      return 0;
    erase(it);
    return 1;
  }
};
}
