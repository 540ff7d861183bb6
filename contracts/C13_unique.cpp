// Unique names among brethren, and brace expansions (bounded).
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=64
// VP-FN: ossia::net::sanitize_name(name, brethren) [network/base/name_validation.cpp]
// VP-FN: ossia::net::is_brace_expansion [network/base/name_validation.cpp]
// VP-ASSUME: bounded: names among 8 shapes with up to 3 brethren; brace texts of up to 5 characters
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/network/base/name_validation.cpp>
ossia::value::~value() noexcept { }
namespace std { bad_cast::~bad_cast() noexcept { } }
using namespace ossia::net;

static const char* const shapes[] = {"a", "a.0", "a.1", "a.2", "a.7", "a.b", "b", "aa"};
static int pick(const char* n)
{
  const int i = vp_i32(n);
  vp_assume(i >= 0 && i < 8);
  return (int)vp_concretize(i);
}
VP_CONTRACT(unique)
{
  const std::string name = shapes[pick("name")];
  std::vector<std::string> bros;
  const int n = (int)vp_concretize(vp_i32("n") & 3);
  for(int i = 0; i < n; i++)
    bros.push_back(shapes[pick("bro")]);
  const std::string res = sanitize_name(name, bros);
  bool taken = false, had = false;
  for(auto& b : bros)
  {
    taken |= b == res;
    had |= b == name;
  }
  vp_assert(!taken, "the name given is not taken");
  vp_assert(had || res == name, "a free name is kept");
  vp_assert(res[0] == name[0], "the root of the name is kept");
  vp_cover("end");
}
// the same among the children of a node; only the children's names are looked at
struct Named : node_base
{
  static std::string& name(node_base& n) { return n.*(&Named::m_name); }
};
VP_CONTRACT(unique_child)
{
  const std::string name = shapes[pick("name")];
  static char mem[3][sizeof(node_base)];
  alignas(node_base::children_t) static char vec[sizeof(node_base::children_t)];
  auto& bros = *new(vec) node_base::children_t;
  const int n = (int)vp_concretize(vp_i32("n") & 3);
  bros.reserve(3);
  for(int i = 0; i < n; i++)
  {
    auto& b = *reinterpret_cast<node_base*>(mem[i]);
    new(&Named::name(b)) std::string(shapes[pick("bro")]);
    bros.emplace_back(&b);
  }
  std::string res = name;
  sanitize_name(res, bros);
  bool taken = false, had = false;
  for(auto& b : bros)
  {
    taken |= Named::name(*b) == res;
    had |= Named::name(*b) == name;
  }
  vp_assert(!taken, "the name given to a child is not taken");
  vp_assert(had || res == name, "a free name is kept for a child");
  vp_assert(res[0] == name[0], "the root of the child's name is kept");
  vp_cover("end");
}
VP_CONTRACT(braces)
{
  const int n = vp_i32("n");
  vp_assume(n >= 0 && n <= 5);
  const int k = (int)vp_concretize(n);
  char* t = vp::buffer<char>("text", k);
  const bool r = is_brace_expansion(ossia::string_view(t, k));
  int b = 0, a = 0;
  bool open = false, bad = false;
  for(int i = 0; i < k; i++)
  {
    open |= t[i] == '{' || t[i] == '[';
    b += (t[i] == '{') - (t[i] == '}');
    a += (t[i] == '[') - (t[i] == ']');
    bad |= a < 0 || b < 0;
  }
  vp_assert(r == (open && !bad && a == 0 && b == 0), "a brace expansion has braces, and they are balanced");
  vp_cover("end");
}
