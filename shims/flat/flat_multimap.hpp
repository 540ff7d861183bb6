// Stand-in for the flat container dependency: a multimap over a sorted vector of pairs.
#pragma once
#include <algorithm>
#include <functional>
#include <utility>
#include <vector>
namespace fc
{
template <typename K, typename V, typename C = std::less<>>
struct vector_multimap
{
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<K, V>;
  using container_type = std::vector<value_type>;
  using iterator = typename container_type::iterator;
  using const_iterator = typename container_type::const_iterator;
  container_type container;
  iterator begin() { return container.begin(); }
  iterator end() { return container.end(); }
  const_iterator begin() const { return container.begin(); }
  const_iterator end() const { return container.end(); }
  const_iterator cbegin() const { return container.begin(); }
  const_iterator cend() const { return container.end(); }
  auto rbegin() { return container.rbegin(); }
  auto rend() { return container.rend(); }
  auto rbegin() const { return container.rbegin(); }
  auto rend() const { return container.rend(); }
  std::size_t size() const { return container.size(); }
  bool empty() const { return container.empty(); }
  void clear() { container.clear(); }
  void reserve(std::size_t n) { container.reserve(n); }
  template <typename Q>
  iterator lower_bound(const Q& k)
  {
    auto it = container.begin();
    while(it != container.end() && C{}(it->first, k))
      ++it;
    return it;
  }
  template <typename Q>
  iterator upper_bound(const Q& k)
  {
    auto it = container.begin();
    while(it != container.end() && !C{}(k, it->first))
      ++it;
    return it;
  }
  template <typename Q>
  const_iterator lower_bound(const Q& k) const { return const_cast<vector_multimap&>(*this).lower_bound(k); }
  template <typename Q>
  const_iterator upper_bound(const Q& k) const { return const_cast<vector_multimap&>(*this).upper_bound(k); }
  template <typename Q>
  iterator find(const Q& k)
  {
    auto it = lower_bound(k);
    return it != end() && !C{}(k, it->first) ? it : end();
  }
  template <typename Q>
  const_iterator find(const Q& k) const { return const_cast<vector_multimap&>(*this).find(k); }
  template <typename Q>
  bool has(const Q& k) const { return find(k) != end(); }
  template <typename Q>
  std::size_t count(const Q& k) const { return upper_bound(k) - lower_bound(k); }
  template <typename A, typename B>
  iterator emplace(A&& k, B&& v)
  {
    auto it = upper_bound(k);
    return container.insert(it, value_type(K(std::forward<A>(k)), V(std::forward<B>(v))));
  }
  iterator insert(value_type v) { return emplace(std::move(v.first), std::move(v.second)); }
  iterator erase(const_iterator it) { return container.erase(it); }
  std::size_t erase(const K& k)
  {
    auto a = lower_bound(k), b = upper_bound(k);
    const std::size_t n = b - a;
    container.erase(a, b);
    return n;
  }
  friend bool operator==(const vector_multimap& a, const vector_multimap& b) { return a.container == b.container; }
  friend bool operator!=(const vector_multimap& a, const vector_multimap& b) { return !(a.container == b.container); }
};
}
