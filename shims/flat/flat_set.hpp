// Stand-in for the flat container dependency: an ordered set over a sorted vector.
#pragma once
#include <algorithm>
#include <functional>
#include <vector>
namespace fc
{
template <typename Cont, typename C = std::less<>>
struct flat_set
{
  using key_type = typename Cont::value_type;
  using value_type = key_type;
  using const_iterator = typename Cont::const_iterator;
  using iterator = const_iterator;
  Cont container;

  iterator begin() const { return container.begin(); }
  iterator end() const { return container.end(); }
  iterator cbegin() const { return container.begin(); }
  iterator cend() const { return container.end(); }
  auto rbegin() const { return container.rbegin(); }
  auto rend() const { return container.rend(); }
  bool empty() const { return container.empty(); }
  std::size_t size() const { return container.size(); }
  void clear() { container.clear(); }
  void reserve(std::size_t n) { container.reserve(n); }
  template <typename K>
  iterator lower_bound(const K& k) const
  {
    auto it = begin();
    while(it != end() && C{}(*it, k))
      ++it;
    return it;
  }
  template <typename K>
  iterator upper_bound(const K& k) const
  {
    auto it = begin();
    while(it != end() && !C{}(k, *it))
      ++it;
    return it;
  }
  template <typename K>
  iterator find(const K& k) const
  {
    auto it = lower_bound(k);
    return it != end() && !C{}(k, *it) ? it : end();
  }
  template <typename K>
  std::size_t count(const K& k) const { return find(k) != end(); }
  std::pair<iterator, bool> insert(const key_type& k)
  {
    auto it = lower_bound(k);
    if(it != end() && !C{}(k, *it))
      return {it, false};
    return {container.insert(it, k), true};
  }
  template <typename I>
  void insert(I a, I b)
  {
    for(; a != b; ++a)
      insert(*a);
  }
  iterator erase(iterator it) { return container.erase(it); }
  std::size_t erase(const key_type& k)
  {
    auto it = find(k);
    if(it == end())
      return 0;
    container.erase(it);
    return 1;
  }
  friend bool operator==(const flat_set& a, const flat_set& b) { return a.container == b.container; }
  friend bool operator!=(const flat_set& a, const flat_set& b) { return !(a.container == b.container); }
};
template <typename K, typename C = std::less<>>
using vector_set = flat_set<std::vector<K>, C>;
}
