// Stand-in for the Eggs.Variant dependency (not in the sandbox), over std::variant.
#pragma once
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
namespace eggs::variants
{
struct bad_variant_access {};
struct nullvariant_t {};
constexpr nullvariant_t nullvariant{};
template <typename T>
struct in_place_t {};
template <typename T>
constexpr in_place_t<T> in_place{};
template <typename... Ts>
class variant
{
  template <typename T>
  static constexpr bool has = (std::is_same_v<T, Ts> || ...);
  template <typename T, typename D>
  using accepts = std::disjunction<std::is_same<D, nullvariant_t>, std::is_same<D, Ts>..., std::is_constructible<std::variant<std::monostate, Ts...>, T>>;

public:
  std::variant<std::monostate, Ts...> v;
  static constexpr std::size_t npos = std::size_t(-1);
  variant() = default;
  variant(const variant&) = default;
  variant(variant&&) = default;
  variant& operator=(const variant&) = default;
  variant& operator=(variant&&) = default;
  template <typename T, typename... A>
  variant(in_place_t<T>, A&&... a) : v(std::in_place_type<T>, std::forward<A>(a)...) {}
  template <typename T, typename D = std::decay_t<T>, typename = std::enable_if_t<!std::is_same_v<D, variant> && accepts<T, D>::value>>
  variant(T&& t) : v(conv(std::forward<T>(t))) {}
  template <typename T, typename D = std::decay_t<T>, typename = std::enable_if_t<!std::is_same_v<D, variant> && accepts<T, D>::value>>
  variant& operator=(T&& t)
  {
    v = conv(std::forward<T>(t));
    return *this;
  }
  template <typename T, typename... A>
  T& emplace(A&&... a) { return v.template emplace<T>(std::forward<A>(a)...); }
  explicit operator bool() const noexcept { return v.index() != 0; }
  std::size_t which() const noexcept { return v.index() - 1; }
  template <typename T>
  T* target() noexcept { return std::get_if<T>(&v); }
  template <typename T>
  const T* target() const noexcept { return std::get_if<T>(&v); }
  void* target() noexcept { return const_cast<void*>(std::as_const(*this).target()); }
  const void* target() const noexcept
  {
    return std::visit([](const auto& e) -> const void* {
      if constexpr(std::is_same_v<std::decay_t<decltype(e)>, std::monostate>) return nullptr;
      else return &e;
    }, v);
  }

private:
  template <typename T>
  static std::variant<std::monostate, Ts...> conv(T&& t)
  {
    if constexpr(std::is_same_v<std::decay_t<T>, nullvariant_t>)
      return {};
    else if constexpr(has<std::decay_t<T>>)
      return std::variant<std::monostate, Ts...>(std::in_place_type<std::decay_t<T>>, std::forward<T>(t));
    else
      return std::variant<std::monostate, Ts...>(std::forward<T>(t));
  }
};
template <typename... Ts>
bool operator==(const variant<Ts...>& a, const variant<Ts...>& b) { return a.v == b.v; }
template <typename... Ts>
bool operator!=(const variant<Ts...>& a, const variant<Ts...>& b) { return !(a.v == b.v); }
template <typename T, typename... Ts, typename = std::enable_if_t<(std::is_same_v<T, Ts> || ...)>>
bool operator==(const variant<Ts...>& a, const T& b) { auto p = a.template target<T>(); return p && *p == b; }
template <typename T, typename... Ts, typename = std::enable_if_t<(std::is_same_v<T, Ts> || ...)>>
bool operator!=(const variant<Ts...>& a, const T& b) { return !(a == b); }
template <std::size_t N, typename V>
struct variant_element;
template <std::size_t N, typename... Ts>
struct variant_element<N, variant<Ts...>> { using type = std::tuple_element_t<N, std::tuple<Ts...>>; };
template <typename T, typename... Ts>
T& get(variant<Ts...>& x)
{
  if(auto p = x.template target<T>()) return *p;
  throw bad_variant_access{};
}
template <typename T, typename... Ts>
const T& get(const variant<Ts...>& x)
{
  if(auto p = x.template target<T>()) return *p;
  throw bad_variant_access{};
}
namespace detail
{
template <typename T>
struct is_variant : std::false_type {};
template <typename... Ts>
struct is_variant<variant<Ts...>> : std::true_type { using first = std::tuple_element_t<0, std::tuple<Ts...>>; };
template <typename F, typename V>
decltype(auto) apply1(F&& f, V&& x)
{
  return std::visit([&](auto&& e) -> decltype(auto) {
    using E = std::decay_t<decltype(e)>;
    if constexpr(std::is_same_v<E, std::monostate>)
    {
      using First = typename is_variant<std::decay_t<V>>::first;
      using Ref = std::conditional_t<std::is_const_v<std::remove_reference_t<V>>, const First, First>;
      throw bad_variant_access{};
      if constexpr(std::is_lvalue_reference_v<V>) return f(*(Ref*)nullptr);
      else return f(std::move(*(Ref*)nullptr));
    }
    else return f(std::forward<decltype(e)>(e));
  }, std::forward<V>(x).v);
}
}
template <typename R = void, typename F, typename V, typename = std::enable_if_t<detail::is_variant<std::decay_t<V>>::value>>
decltype(auto) apply(F&& f, V&& x) { return detail::apply1(f, std::forward<V>(x)); }
template <typename R = void, typename F, typename V, typename W,
          typename = std::enable_if_t<detail::is_variant<std::decay_t<V>>::value && detail::is_variant<std::decay_t<W>>::value>>
decltype(auto) apply(F&& f, V&& x, W&& y)
{
  return detail::apply1([&](auto&& a) -> decltype(auto) {
    return detail::apply1([&](auto&& b) -> decltype(auto) { return f(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); },
                          std::forward<W>(y));
  }, std::forward<V>(x));
}
}
namespace eggs
{
using variants::variant;
using variants::get;
using variants::nullvariant;
}
