// Stand-in for the SmallFunction dependency: a small-buffer function wrapper.
#pragma once
#include <functional>
namespace smallfun
{
template <typename S, std::size_t N = 64, std::size_t Align = 8, typename... M>
struct function;
template <typename R, typename... A, std::size_t N, std::size_t Align, typename... M>
struct function<R(A...), N, Align, M...> : std::function<R(A...)>
{
  using std::function<R(A...)>::function;
  bool allocated() const { return bool(*this); }
};
}
