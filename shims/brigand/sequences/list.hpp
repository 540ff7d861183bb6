// Stand-in for the Brigand dependency (not in the sandbox): the type list.
#pragma once
namespace brigand
{
template <typename...>
struct list {};
}
