// ossia::value is a sound tagged union.
// VP-FLAGS: -std=c++17
// VP-OPT: ctors=0
// VP-FN: ossia::value_variant_type constructors, copy, move, assignment, destructor [network/value/value_variant_impl.hpp]
// VP-FN: ossia::value_variant_type::target / get [network/value/value_variant_impl.hpp]
// VP-FN: ossia::value constructors, assignment, get, target, get_type, valid, reset, apply; init_value [network/value/value.hpp]
// VP-FN: ossia::value::~value [network/value/value.cpp]
// VP-ASSUME: strings of 2 and 18 characters and lists of 0 and 2 elements stand for the two representations of the standard containers
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <ossia/network/value/value.cpp>
using namespace ossia;
using vp::any_of;
using vp::any_type;
using vp::same_value;

VP_CONTRACT(copy)
{
  const int t = any_type("type");
  const int64_t h0 = vp_live_heap();
  {
    const value a = any_of(t);
    const int64_t h1 = vp_live_heap();
    vp_assert((int)a.get_type() == (t == 10 ? 127 : t) && a.valid() == (t != 10), "the type is the one it was made with");
    {
      value b{a};
      vp_assert(same_value(a, b), "a copy has the same type and content");
      value c{std::move(b)};
      vp_assert(same_value(a, c), "a moved value has the type and content of its source");
    }
    vp_assert(vp_live_heap() == h1, "copies release what they own");
  }
  vp_assert(vp_live_heap() == h0, "a value releases what it owns");
}
VP_CONTRACT(assign)
{
  const int t = any_type("from"), u = any_type("to");
  const int64_t h0 = vp_live_heap();
  {
    const value a = any_of(t);
    value b = any_of(u), c = any_of(u);
    b = a;
    vp_assert(same_value(a, b), "after assignment both have the same type and content");
    value d{a};
    c = std::move(d);
    vp_assert(same_value(a, c), "after move assignment the target has the source's type and content");
    value& self = b;
    b = self;
    vp_assert(same_value(a, b), "self assignment changes nothing");
    b.reset();
    vp_assert(!b.valid() && b.get_type() == val_type::NONE, "a reset value is unset");
  }
  vp_assert(vp_live_heap() == h0, "assignment leaks nothing");
}
template <typename T>
static void access(const value& a, int t, int mine)
{
  value b{a};
  const value& cb = b;
  vp_assert((cb.target<T>() != nullptr) == (t == mine), "target is non-null exactly for the held type");
  vp_assert((b.target<T>() == nullptr) == (t != mine) && (t != mine || b.target<T>() == cb.target<T>()), "mutable target agrees");
  bool thrown = false;
  try
  {
    const T& r = cb.get<T>();
    vp_assert(&r == cb.target<T>(), "get refers to the held content");
  }
  catch(...)
  {
    thrown = true;
  }
  vp_assert(thrown == (t != mine), "get throws exactly for another type");
  thrown = false;
  try
  {
    T& r = b.get<T>();
    vp_assert(&r == cb.target<T>(), "mutable get refers to the held content");
  }
  catch(...)
  {
    thrown = true;
  }
  vp_assert(thrown == (t != mine), "mutable get throws exactly for another type");
}
VP_CONTRACT(access_)
{
  const int t = any_type("type");
  const value a = any_of(t);
  access<float>(a, t, 0);
  access<int>(a, t, 1);
  access<vec2f>(a, t, 2);
  access<vec3f>(a, t, 3);
  access<vec4f>(a, t, 4);
  access<impulse>(a, t, 5);
  access<bool>(a, t, 6);
  access<std::string>(a, t, 7);
  access<std::vector<value>>(a, t, 8);
  access<char>(a, t, 9);
}
static int seen;
static const void* where;
struct Visit
{
  void operator()(const float& v) const { seen = 0; where = &v; }
  void operator()(const int& v) const { seen = 1; where = &v; }
  void operator()(const vec2f& v) const { seen = 2; where = &v; }
  void operator()(const vec3f& v) const { seen = 3; where = &v; }
  void operator()(const vec4f& v) const { seen = 4; where = &v; }
  void operator()(const impulse& v) const { seen = 5; where = &v; }
  void operator()(const bool& v) const { seen = 6; where = &v; }
  void operator()(const std::string& v) const { seen = 7; where = &v; }
  void operator()(const std::vector<value>& v) const { seen = 8; where = &v; }
  void operator()(const char& v) const { seen = 9; where = &v; }
  void operator()() const { seen = 10; where = nullptr; }
};
VP_CONTRACT(visit)
{
  const int t = any_type("type");
  value a = any_of(t);
  const value& ca = a;
  seen = -1;
  ca.apply(Visit{});
  vp_assert(seen == t, "a visitor is called with the held type");
  vp_assert(t == 10 || where == &a.v.m_impl, "a visitor is given the held content");
  seen = -1;
  a.apply(Visit{});
  vp_assert(seen == t && (t == 10 || where == &a.v.m_impl), "a visitor of a mutable value is given the held content");
  if(t != 10)
  {
    seen = -1;
    ossia::apply_nonnull(Visit{}, ca.v);
    vp_assert(seen == t && where == &a.v.m_impl, "apply_nonnull is given the held content");
    seen = -1;
    ossia::apply_nonnull(Visit{}, a.v);
    vp_assert(seen == t && where == &a.v.m_impl, "mutable apply_nonnull is given the held content");
  }
  else
  {
    bool thrown = false;
    try { ossia::apply_nonnull(Visit{}, ca.v); } catch(...) { thrown = true; }
    vp_assert(thrown, "apply_nonnull of an unset value throws");
  }
}
VP_CONTRACT(scalars)
{
  value v;
  int32_t i = vp_i32("i");
  v = i;
  vp_assert(v.get_type() == val_type::INT && v.get<int>() == i, "an int is stored as it is");
  float f = vp_f32("f");
  v = f;
  vp_assert(v.get_type() == val_type::FLOAT && vp::same(v.get<float>(), f), "a float is stored as it is");
  bool b = vp_bool("b");
  v = b;
  vp_assert(v.get_type() == val_type::BOOL && v.get<bool>() == b, "a bool is stored as it is");
  char c = vp_i8("c");
  v = c;
  vp_assert(v.get_type() == val_type::CHAR && v.get<char>() == c, "a char is stored as it is");
  vec2f p{vp_f32("x"), vp_f32("y")};
  v = p;
  vp_assert(v.get_type() == val_type::VEC2F && vp::same(v.get<vec2f>()[0], p[0]) && vp::same(v.get<vec2f>()[1], p[1]), "a vec2f is stored as it is");
  vec3f q{p[0], p[1], vp_f32("z")};
  v = q;
  vp_assert(v.get_type() == val_type::VEC3F && vp::same_vec(v.get<vec3f>().data(), q.data(), 3), "a vec3f is stored as it is");
  vec4f r{p[0], p[1], q[2], vp_f32("w")};
  v = r;
  vp_assert(v.get_type() == val_type::VEC4F && vp::same_vec(v.get<vec4f>().data(), r.data(), 4), "a vec4f is stored as it is");
  v = ossia::impulse{};
  vp_assert(v.get_type() == val_type::IMPULSE, "an impulse is stored as it is");
  v = std::string("abc");
  vp_assert(v.get_type() == val_type::STRING && v.get<std::string>() == "abc", "a string is stored as it is");
  double d = vp_f64("d");
  vp_assert(value{d}.get_type() == val_type::FLOAT && vp::same(value{d}.get<float>(), (float)d), "a double is stored as the nearest float");
  long l = vp_i64("l");
  vp_assert(value{l}.get_type() == val_type::INT && value{l}.get<int>() == (int)l, "a long is stored as an int");
}
VP_CONTRACT(init)
{
  const int t = any_type("type");
  if(t == 10)
  {
    bool thrown = false;
    try { init_value(val_type::NONE); } catch(...) { thrown = true; }
    vp_assert(thrown, "there is no initial value of type none");
    return;
  }
  value v = init_value((val_type)t);
  vp_assert((int)v.get_type() == t, "the initial value has the type asked for");
  vp_assert(t != 0 || v.get<float>() == 0.f, "the initial float is 0");
  vp_assert(t != 1 || v.get<int>() == 0, "the initial int is 0");
  vp_assert(t != 2 || v.get<vec2f>() == vec2f{}, "the initial vec2f is 0");
  vp_assert(t != 3 || v.get<vec3f>() == vec3f{}, "the initial vec3f is 0");
  vp_assert(t != 4 || v.get<vec4f>() == vec4f{}, "the initial vec4f is 0");
  vp_assert(t != 6 || v.get<bool>() == false, "the initial bool is false");
  vp_assert(t != 7 || v.get<std::string>().empty(), "the initial string is empty");
  vp_assert(t != 8 || v.get<std::vector<value>>().empty(), "the initial list is empty");
  vp_assert(t != 9 || v.get<char>() == 0, "the initial char is 0");
}
