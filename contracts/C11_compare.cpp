// Comparisons and hashes of values.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=32 ctors=0
// VP-FN: ossia::operator== / != / < / > / <= / >= (value, value) [network/value/value.cpp]
// VP-FN: ossia::value_comparison_visitor2 [network/value/value.cpp]
// VP-FN: std::hash<ossia::value> and of its types [network/value/value_hash.hpp]
// VP-ASSUME: strings of 2 and 18 characters and lists of 0, 1 and 2 elements stand for the two representations of the standard containers; std::_Hash_bytes is a function of the bytes
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/network/value/value.cpp>
#include <ossia/network/value/value_hash.hpp>
using namespace ossia;
using list = std::vector<value>;

// one element for the comparison with a single value
static value one(const char* n)
{
  const int t = vp_i8(n);
  vp_assume(t >= 0 && t <= 12);
  const int k = (int)vp_concretize(t);
  if(k == 11)
    return value{list{value{(int)vp_i32("e")}}};
  if(k == 12)
    return value{list{}};
  return vp::any_of(k);
}
static bool is_num(const value& v)
{
  const auto t = v.get_type();
  return t == val_type::INT || t == val_type::FLOAT || t == val_type::BOOL || t == val_type::CHAR;
}
static bool is_vec(const value& v)
{
  const auto t = v.get_type();
  return t == val_type::VEC2F || t == val_type::VEC3F || t == val_type::VEC4F;
}
template <typename F>
static bool num_cmp(const value& a, const value& b, F f)
{
  // the usual arithmetic conversions: a float on either side compares floats
  if(a.get_type() == val_type::FLOAT || b.get_type() == val_type::FLOAT)
  {
    auto fl = [](const value& v) -> float {
      switch(v.get_type())
      {
        case val_type::FLOAT: return v.get<float>();
        case val_type::INT: return (float)v.get<int>();
        case val_type::BOOL: return v.get<bool>() ? 1.f : 0.f;
        default: return (float)v.get<char>();
      }
    };
    return f(fl(a), fl(b));
  }
  auto in = [](const value& v) -> int {
    switch(v.get_type())
    {
      case val_type::INT: return v.get<int>();
      case val_type::BOOL: return v.get<bool>() ? 1 : 0;
      default: return v.get<char>();
    }
  };
  return f(in(a), in(b));
}
template <typename V, typename F>
static bool vec_cmp(const value& a, const value& b, F f)
{
  const auto &x = a.get<V>(), &y = b.get<V>();
  bool r = true;
  for(size_t i = 0; i < x.size(); i++)
    r = r && f(x[i], y[i]);
  return r;
}
static int text_cmp(const std::string& a, const std::string& b)
{
  const size_t n = a.size() < b.size() ? a.size() : b.size();
  for(size_t i = 0; i < n; i++)
    if(a[i] != b[i])
      return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
// what comparing means, when it is defined for the two types
template <typename F>
static bool spec(const value& a, const value& b, F f, bool reflexive)
{
  if(!a.valid() || !b.valid())
    return !a.valid() && !b.valid() && reflexive;
  if(is_num(a) && is_num(b))
    return num_cmp(a, b, f);
  const auto t = a.get_type(), u = b.get_type();
  if(t == val_type::STRING && u == t)
    return f(text_cmp(a.get<std::string>(), b.get<std::string>()), 0);
  if(t == val_type::LIST && u == t)
  {
    const auto &x = a.get<list>(), &y = b.get<list>();
    if(x.size() != y.size())
      return false;
    for(size_t i = 0; i < x.size(); i++)
      if(!x[i].valid() || !y[i].valid() || !spec(x[i], y[i], f, reflexive))
        return false;
    return true;
  }
  if(t == val_type::IMPULSE || u == val_type::IMPULSE)
    return reflexive;
  if(is_vec(a) && t == u)
    return t == val_type::VEC2F ? vec_cmp<vec2f>(a, b, f) : t == val_type::VEC3F ? vec_cmp<vec3f>(a, b, f) : vec_cmp<vec4f>(a, b, f);
  if(is_vec(a) || is_vec(b))
    return false;
  if(t == val_type::LIST)
    return a.get<list>().size() == 1 && spec(a.get<list>()[0], b, f, reflexive);
  if(u == val_type::LIST)
    return b.get<list>().size() == 1 && spec(a, b.get<list>()[0], f, reflexive);
  return false; // a text and something else
}
static bool defined(const value& a, const value& b)
{
  // an impulse and a vector: only coherence is required
  return !((is_vec(a) && b.get_type() == val_type::IMPULSE) || (is_vec(b) && a.get_type() == val_type::IMPULSE));
}
VP_CONTRACT(equality)
{
  const value a = one("a"), b = one("b");
  const bool eq = a == b;
  vp_assert(eq == (b == a), "equality is symmetric");
  vp_assert((a != b) == !eq, "different means not equal");
  if(defined(a, b))
    vp_assert(eq == spec(a, b, std::equal_to<>{}, true), "equality compares the contents");
  vp_cover("end");
}
VP_CONTRACT(reflexive)
{
  const value a = one("a");
  if(a.get_type() == val_type::LIST && a.get<list>().size() == 2)
    vp_assume(a.get<list>()[1].get<float>() == a.get<list>()[1].get<float>());
  if(a.get_type() == val_type::FLOAT)
    vp_assume(a.get<float>() == a.get<float>());
  if(is_vec(a))
    return;
  const value b = a;
  vp_assert(a == a && a == b && !(a != b) && a <= b && a >= b, "a value equals itself and its copies");
  vp_assert(!(a < b) && !(a > b) || (a.get_type() == val_type::LIST && a.get<list>().empty()), "a value is not below itself");
  vp_cover("end");
}
VP_CONTRACT(order)
{
  const value a = one("a"), b = one("b");
  const bool lt = a < b, gt = a > b;
  vp_assert(lt == (b > a) && gt == (b < a), "below and above are converse");
  if(defined(a, b))
  {
    vp_assert(lt == spec(a, b, std::less<>{}, false), "below compares the contents");
    vp_assert(gt == spec(a, b, std::greater<>{}, false), "above compares the contents");
  }
  vp_cover("end");
}
VP_CONTRACT(order_eq)
{
  const value a = one("a"), b = one("b");
  const bool le = a <= b, ge = a >= b;
  vp_assert(le == (b >= a) && ge == (b <= a), "at most and at least are converse");
  if(defined(a, b))
  {
    vp_assert(le == spec(a, b, std::less_equal<>{}, true), "at most compares the contents");
    vp_assert(ge == spec(a, b, std::greater_equal<>{}, true), "at least compares the contents");
  }
  vp_cover("end");
}
// std::_Hash_bytes: any function of the bytes
struct Hashed { unsigned char bytes[32]; size_t n, seed, h; };
static Hashed hashed[8];
static int nhashed;
static size_t hash_bytes(const void* p, size_t n, size_t seed)
{
  for(int i = 0; i < nhashed; i++)
    if(hashed[i].n == n && vp_fork(hashed[i].seed == seed && memcmp(hashed[i].bytes, p, n) == 0))
      return hashed[i].h;
  auto& e = hashed[nhashed++];
  memcpy(e.bytes, p, n);
  e.n = n;
  e.seed = seed;
  return e.h = vp_i64("hash");
}
VP_CONTRACT(hashes)
{
  vp_replace_name("_Hash_bytes", (void*)&hash_bytes);
  const int t = vp::any_type("type");
  const value a = vp::any_of(t), b = vp::any_of(t);
  if(t == 7)
    vp_assume(a.get<std::string>().size() == b.get<std::string>().size());
  vp_assume(spec(a, b, std::equal_to<>{}, true));
  std::hash<value> h;
  vp_assert(h(a) == h(b), "equal values of the same type have the same hash");
  vp_cover("end");
}
