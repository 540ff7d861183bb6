// Name sanitisation.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=1 auto=1
// VP-FN: ossia::net::is_valid_character_for_device / is_valid_character_for_name [network/base/name_validation.hpp]
// VP-FN: ossia::net::sanitize_device_name / sanitize_name [network/base/name_validation.cpp]
// VP-ASSUME: names are shorter than 2^30 characters; allocation does not fail
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/network/base/name_validation.cpp>
ossia::value::~value() noexcept { }
using namespace ossia::net;

static bool device_char(unsigned char c)
{
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '~' || c == '(' || c == ')' || c == ' ' || c == '.' || c == '-' || c == '=';
}
static bool name_char(unsigned char c)
{
  return device_char(c) || c == ':';
}
VP_CONTRACT(characters)
{
  const char c = vp_i8("c");
  vp_assert(is_valid_character_for_device(c) == device_char(c), "the characters allowed in device names");
  vp_assert(is_valid_character_for_name(c) == name_char(c), "the characters allowed in node names");
  const int w = vp_i32("w");
  vp_assert(is_valid_character_for_device(w) == (w >= 0 && w < 128 && device_char((char)w)), "the wide characters allowed in device names");
  vp_assert(is_valid_character_for_name(w) == (w >= 0 && w < 128 && name_char((char)w)), "the wide characters allowed in node names");
  vp_cover("end");
}
struct Str { char* p; size_t n; union { char loc[16]; size_t cap; }; };
static_assert(sizeof(Str) == sizeof(std::string));
static const char* g_buf;
static size_t g_n, g_k;
static char g_old, g_new;
// the position looked at is rewritten once the loop passed it
static bool t_up(int64_t i) { return (size_t)i <= g_n && g_buf[g_k] == (g_k < (size_t)i ? g_new : g_old); }
static bool t_down(int64_t i) { return (size_t)i <= g_n && g_buf[g_k] == (g_k >= (size_t)i ? g_new : g_old); }
static bool t_left(int64_t left) { return (size_t)left <= g_n && g_buf[g_k] == (g_k < g_n - (size_t)left ? g_new : g_old); }
static bool t_either() { return g_buf[g_k] == g_new || g_buf[g_k] == g_old; }
template <bool Dev>
static void sanitize()
{
  const size_t n = vp_i64("n");
  vp_assume(n < (1u << 30));
  char* buf = vp::buffer<char>("name", n + 1);
  const size_t k = vp_i64("k");
  vp_assume(k < n);
  const char old = buf[k];
  const bool ok = Dev ? device_char(old) : name_char(old);
  g_buf = buf;
  g_n = n;
  g_k = k;
  g_old = old;
  g_new = ok ? old : '_';
  vp_template("p", (void*)&t_up);
  vp_template("i", (void*)&t_up);
  vp_template("p", (void*)&t_down);
  vp_template("i", (void*)&t_down);
  vp_template("i", (void*)&t_left);
  vp_template("", (void*)&t_either);
  Str r;
  r.p = buf;
  r.n = n;
  r.cap = n;
  alignas(8) char mem[sizeof(r)];
  memcpy(mem, &r, sizeof(r));
  auto& s = *reinterpret_cast<std::string*>(mem);
  auto& res = Dev ? sanitize_device_name(s) : sanitize_name(s);
  vp_assert(&res == &s && s.size() == n && s.data() == buf, "the name is sanitised in place, with the same length");
  vp_assert(!ok || buf[k] == old, "valid characters are kept");
  vp_assert(ok || buf[k] == '_', "other characters become underscores");
  vp_cover("end");
}
VP_CONTRACT(sanitize_device) { sanitize<true>(); }
VP_CONTRACT(sanitize_node) { sanitize<false>(); }
