// Stand-in for the Brigand dependency (not in the sandbox): unpacking a type list.
#pragma once
#include <brigand/sequences/list.hpp>
namespace brigand
{
namespace detail
{
template <typename L, template <typename...> class W>
struct wrap_impl;
template <template <typename...> class L, typename... Ts, template <typename...> class W>
struct wrap_impl<L<Ts...>, W> { using type = W<Ts...>; };
}
template <typename L, template <typename...> class W>
using wrap = typename detail::wrap_impl<L, W>::type;
}
