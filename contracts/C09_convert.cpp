// Conversions of values.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=32 ctors=0
// VP-FN: ossia::convert<T>(value) / convert<T>(cur, value) / convert<T>(list) [network/value/detail/value_conversion_impl.hpp]
// VP-FN: ossia::detail::value_converter / numeric_value_converter / lift [network/value/detail/value_conversion_impl.hpp]
// VP-FN: ossia::convert(value, type) / convert(value, value) / is_numeric / is_array [network/value/value.cpp]
// VP-ASSUME: strings of 2 and 18 characters and lists of 0 and 2 elements stand for the two representations of the standard containers; texts of numbers (fmt, boost.spirit) are not decided
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/network/value/value.cpp>
using namespace ossia;
using list = std::vector<value>;

static bool finite_in(double d, double lim) { return d == d && d > -lim && d < lim; }
// the number that a value other than a text gives, by its definition
static double number(const value& v)
{
  switch(v.get_type())
  {
    case val_type::FLOAT: return v.get<float>();
    case val_type::INT: return v.get<int>();
    case val_type::BOOL: return v.get<bool>();
    case val_type::CHAR: return v.get<char>();
    case val_type::VEC2F: return v.get<vec2f>()[0];
    case val_type::VEC3F: return v.get<vec3f>()[0];
    case val_type::VEC4F: return v.get<vec4f>()[0];
    case val_type::LIST: return v.get<list>().empty() ? 0. : (double)v.get<list>()[0].get<int>();
    default: return 0.;
  }
}
template <typename T>
static void to_number(double lim)
{
  const int t = vp::any_type("type");
  vp_assume(t != 7);
  const int depth = t == 8 ? (int)vp_concretize(vp_i8("depth") & 1) : 1;
  const value v = vp::any_of(t, depth);
  const double e = number(v);
  vp_assume(finite_in(e, lim));
  const T expected = t == 6 ? (T)v.get<bool>() : t == 0 && std::is_same_v<T, float> ? (T)v.get<float>() : (T)e;
  vp_assert(convert<T>(v) == expected, "a value converts to the number that it holds, or to its first element's");
  vp_assert(convert<T>(T(1), v) == expected, "what a number converts to does not depend on the current value");
  vp_assert(vp::same_value(ossia::convert(v, value_trait<T>::ossia_enum), value{expected}), "converting to a type gives that type");
  vp_assert(vp::same_value(ossia::convert(v, value{T(1)}), value{expected}), "converting to the type of a value gives that type");
  vp_cover("end");
}
VP_CONTRACT(to_int) { to_number<int>(2147483000.); }
VP_CONTRACT(to_float) { to_number<float>(1e30); }
VP_CONTRACT(to_bool) { to_number<bool>(1e30); }
VP_CONTRACT(to_char) { to_number<char>(127.); }
VP_CONTRACT(to_double)
{
  const int t = vp::any_type("type");
  vp_assume(t != 7);
  const value v = vp::any_of(t, 1);
  const double e = number(v);
  vp_assume(e == e);
  vp_assert(convert<double>(v) == e, "a value converts to a double exactly");
  vp_cover("end");
}
VP_CONTRACT(to_impulse)
{
  const value v = vp::any_of(vp::any_type("type"));
  vp_assert(ossia::convert(v, val_type::IMPULSE).get_type() == val_type::IMPULSE, "anything converts to an impulse");
  vp_assert(ossia::convert(v, value{impulse{}}).get_type() == val_type::IMPULSE, "an impulse stays one");
  vp_assert(!ossia::convert(v, val_type::NONE).valid() && !ossia::convert(v, value{}).valid(), "without a type the result is unset");
  vp_cover("end");
}
template <size_t N, size_t M>
static std::array<float, N> resized(const std::array<float, M>& v, const std::array<float, N>& cur)
{
  auto r = cur;
  for(size_t i = 0; i < N && i < M; i++)
    r[i] = v[i];
  return r;
}
template <size_t N>
static void to_vec()
{
  using vec = std::array<float, N>;
  const int t = vp::any_type("type");
  const int depth = t == 8 ? (int)vp_concretize(vp_i8("depth") & 1) : 1;
  const value v = vp::any_of(t, depth);
  vec cur;
  for(auto& f : cur)
    f = vp_f32("cur");
  vec e{}, c{};
  switch(v.get_type())
  {
    case val_type::FLOAT: e.fill(v.get<float>()); c = e; break;
    case val_type::INT: e.fill((float)v.get<int>()); c = e; break;
    case val_type::BOOL: e.fill(v.get<bool>() ? 1.f : 0.f); c = e; break;
    case val_type::CHAR: e.fill((float)v.get<char>()); c = e; break;
    case val_type::VEC2F: e = resized(v.get<vec2f>(), vec{}); c = resized(v.get<vec2f>(), cur); break;
    case val_type::VEC3F: e = resized(v.get<vec3f>(), vec{}); c = resized(v.get<vec3f>(), cur); break;
    case val_type::VEC4F: e = resized(v.get<vec4f>(), vec{}); c = resized(v.get<vec4f>(), cur); break;
    case val_type::LIST:
      if(depth)
      {
        e[0] = (float)v.get<list>()[0].get<int>();
        e[1] = v.get<list>()[1].get<float>();
      }
      c = e;
      break;
    default: break;
  }
  const vec r = convert<vec>(v), rc = convert<vec>(cur, v);
  vp_assert(vp::same_vec(r.data(), e.data(), N), "a number fills the vector, a vector or list gives its components, anything else zeros");
  vp_assert(vp::same_vec(rc.data(), c.data(), N), "components that a shorter vector does not have keep their current value");
  vp_assert(vp::same_value(ossia::convert(v, value_trait<vec>::ossia_enum), value{e}), "converting to a vector type gives that type");
  vp_assert(vp::same_value(ossia::convert(v, value{cur}), value{c}), "converting to the type of a vector gives that type");
  vp_cover("end");
}
VP_CONTRACT(to_vec2) { to_vec<2>(); }
VP_CONTRACT(to_vec3) { to_vec<3>(); }
VP_CONTRACT(to_vec4) { to_vec<4>(); }
template <size_t N>
static bool floats(const list& l, const std::array<float, N>& a)
{
  if(l.size() != N)
    return false;
  for(size_t i = 0; i < N; i++)
    if(l[i].get_type() != val_type::FLOAT || !vp::same(l[i].get<float>(), a[i]))
      return false;
  return true;
}
VP_CONTRACT(to_list)
{
  const int t = vp::any_type("type");
  const int depth = t == 8 ? (int)vp_concretize(vp_i8("depth") & 1) : 1;
  const value v = vp::any_of(t, depth);
  const bool cur = vp_fork(vp_bool("with a current value"));
  const list l = cur ? convert<list>(list{value{1}, value{2}, value{3}}, v) : convert<list>(v);
  bool ok;
  switch(v.get_type())
  {
    case val_type::NONE: ok = l.empty(); break;
    case val_type::LIST: ok = vp::same_value(value{l}, v); break;
    case val_type::VEC2F: ok = floats(l, v.get<vec2f>()); break;
    case val_type::VEC3F: ok = floats(l, v.get<vec3f>()); break;
    case val_type::VEC4F: ok = floats(l, v.get<vec4f>()); break;
    default: ok = l.size() == 1 && vp::same_value(l[0], v); break;
  }
  vp_assert(ok, "a list keeps its elements, a vector gives a list of its components, anything else a list of one element");
  const value w = cur ? ossia::convert(v, value{list{}}) : ossia::convert(v, val_type::LIST);
  vp_assert(vp::same_value(w, value{l}), "converting to a list type gives the list");
  vp_cover("end");
}
VP_CONTRACT(to_own_type)
{
  const int t = vp::any_type("type");
  const value v = vp::any_of(t);
  vp_assert(vp::same_value(ossia::convert(v, v.get_type()), v), "a value converted to its own type is unchanged");
  const value w = vp::any_of(t);
  vp_assert(vp::same_value(ossia::convert(v, w), v), "a value converted to the type of another one of its type is unchanged");
  vp_cover("end");
}
VP_CONTRACT(to_text)
{
  const int t = vp::any_type("type");
  vp_assume(t >= 5 && t != 8);
  const value v = vp::any_of(t);
  const std::string s = convert<std::string>(v);
  switch(v.get_type())
  {
    case val_type::IMPULSE: vp_assert(s == "impulse", "the text of an impulse"); break;
    case val_type::BOOL: vp_assert(s == (v.get<bool>() ? "true" : "false"), "the text of a boolean"); break;
    case val_type::CHAR: vp_assert(s.size() == 1 && s[0] == v.get<char>(), "the text of a character"); break;
    case val_type::STRING: vp_assert(vp::same_value(value{s}, v), "a text is itself"); break;
    default: vp_assert(s.empty(), "an unset value has no text"); break;
  }
  vp_cover("end");
}
VP_CONTRACT(kinds)
{
  const int t = vp::any_type("type");
  const value v = vp::any_of(t);
  vp_assert(is_numeric(v) == (t == 0 || t == 1 || t == 6 || t == 9), "numbers, booleans and characters are numeric");
  vp_assert(is_array(v) == (t == 2 || t == 3 || t == 4 || t == 8), "lists and vectors are arrays");
  vp_cover("end");
}
// bounded: texts of up to 4 characters
VP_CONTRACT(text_to_int)
{
  const int n = vp_i32("digits");
  vp_assume(n >= 1 && n <= 3);
  const int N = (int)vp_concretize(n);
  const bool neg = vp_fork(vp_bool("negative"));
  char t[5];
  int p = 0, e = 0;
  if(neg)
    t[p++] = '-';
  for(int i = 0; i < N; i++)
  {
    const int d = vp_i8("digit");
    vp_assume(d >= 0 && d <= 9);
    t[p++] = '0' + d;
    e = e * 10 + d;
  }
  t[p] = 0;
  vp_assert(convert<int>(value{std::string(t, p)}) == (neg ? -e : e), "the text of a whole number converts to it");
  vp_cover("end");
}
VP_CONTRACT(text_without_number)
{
  const int n = vp_i32("characters");
  vp_assume(n >= 0 && n <= 3);
  const int N = (int)vp_concretize(n);
  char t[5] = "";
  for(int i = 0; i < N; i++)
  {
    t[i] = vp_i8("c");
    vp_assume(i > 0 || (t[i] != '+' && t[i] != '-' && (t[i] < '0' || t[i] > '9')));
  }
  vp_assert(convert<int>(value{std::string(t, N)}) == 0, "a text that is not a number converts to 0");
  vp_cover("end");
}
