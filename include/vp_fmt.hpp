// the fmt overload that the pinned sources use and that later fmt versions dropped
#pragma once
#ifndef FMT_HEADER_ONLY
#define FMT_HEADER_ONLY 1
#endif
#include <fmt/format.h>
namespace fmt
{
template <typename S, typename... A>
void format_to(memory_buffer& b, const S& s, const A&... a)
{
  fmt::format_to(std::back_inserter(b), fmt::runtime(s), a...);
}
}
