// Bounding values by a domain.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=40 ctors=0
// VP-NOINLINE: ossia4wrapI ossia4foldI
// VP-FN: ossia::apply_domain / domain::apply [network/domain/domain_base.cpp, network/domain/detail/domain_impl.cpp]
// VP-FN: ossia::numeric_clamp / vec_clamp / list_clamp / generic_clamp / value_set_clamp / apply_domain_visitor [network/domain/detail/*.hpp, domain_impl.cpp]
// VP-FN: ossia::clamp / wrap / fold / clamp_min / clamp_max on values [network/domain/*.cpp, network/domain/detail/clamp_visitors.hpp]
// VP-ASSUME: numbers between -2^20 and 2^20, min < max (the numeric operations themselves are decided by C07)
// VP-ASSUME: bounded: the vectors of 3 and 4 components in an integer domain use its bounds -3 and 70000
// VP-ASSUME: bounded: value sets of up to 2 elements, lists of up to 2 elements
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/domain/detail/domain_impl.cpp>
#include <ossia/network/domain/domain_base.cpp>
#include <ossia/network/domain/clamp.cpp>
#include <ossia/network/domain/clamp_min.cpp>
#include <ossia/network/domain/clamp_max.cpp>
#include <ossia/network/domain/wrap.cpp>
#include <ossia/network/domain/fold.cpp>
#include <ossia/network/value/value.cpp>
using namespace ossia;
using list = std::vector<value>;

static const int M = 1 << 20;
template <typename T>
static T number(const char* n);
template <>
int number<int>(const char* n) { int v = vp_i32(n); vp_assume(v > -M && v < M); return v; }
template <>
float number<float>(const char* n) { float v = vp_f32(n); vp_assume(v > -M && v < M); return v; }
template <>
char number<char>(const char* n) { return (char)vp_i8(n); }
template <>
bool number<bool>(const char* n) { return vp_bool(n); }

// wrapping and folding: callee contracts (their results are decided by C07; here only that they are functions
// of the value and the bounds, called with min < max)
template <typename T>
static T uf(const char* name, T v, T l, T h)
{
  vp_requires(l < h, "min < max");
  if constexpr(std::is_same_v<T, float>)
  {
    const float r = vp_uf_f32(name, v, l, h);
    vp_assume(r >= l && r <= h);
    return r;
  }
  else
    return (T)vp_uf_i64(name, v, l, h);
}
template <typename T>
static T wrap_of(T v, T l, T h) noexcept { return uf<T>("wrap", v, l, h); }
template <typename T>
static T fold_of(T v, T l, T h) noexcept { return uf<T>("fold", v, l, h); }
static void callees()
{
  vp_replace_name("ossia4wrapIfE", (void*)&wrap_of<float>);
  vp_replace_name("ossia4wrapIiE", (void*)&wrap_of<int>);
  vp_replace_name("ossia4wrapIcE", (void*)&wrap_of<char>);
  vp_replace_name("ossia4foldIfE", (void*)&fold_of<float>);
  vp_replace_name("ossia4foldIiE", (void*)&fold_of<int>);
  vp_replace_name("ossia4foldIcE", (void*)&fold_of<char>);
}
static bounding_mode any_mode()
{
  callees();
  int m = vp_i8("mode");
  vp_assume(m >= 0 && m <= 5);
  return (bounding_mode)vp_concretize(m);
}
template <typename T>
static void any_bounds(std::optional<T>& lo, std::optional<T>& hi)
{
  if(vp_fork(vp_bool("has_min"))) lo = number<T>("min");
  if(vp_fork(vp_bool("has_max"))) hi = number<T>("max");
  if(lo && hi)
    vp_assume(*lo < *hi);
}
// the bounding of a number, by its definition
template <typename T>
static T bounded(bounding_mode b, T v, const std::optional<T>& lo, const std::optional<T>& hi)
{
  switch(b)
  {
    case bounding_mode::CLIP:
      if(lo && v < *lo) return *lo;
      if(hi && v > *hi) return *hi;
      return v;
    case bounding_mode::LOW: return lo && v < *lo ? *lo : v;
    case bounding_mode::HIGH: return hi && v > *hi ? *hi : v;
    case bounding_mode::WRAP: return lo && hi ? T(ossia::wrap(v, *lo, *hi)) : v;
    case bounding_mode::FOLD: return lo && hi ? T(ossia::fold(v, *lo, *hi)) : v;
    default: return v;
  }
}
static value bounded_by(const domain& d, bounding_mode b, const value& v)
{
  if(vp_fork(vp_bool("moved")))
    return d.apply(b, value{v});
  return d.apply(b, v);
}
template <typename T>
static bool holds(const value& v, T x)
{
  return vp::same_value(v, value{x});
}

// --- numbers
template <typename T>
static void numeric()
{
  domain_base<T> d;
  any_bounds(d.min, d.max);
  const T v = number<T>("value");
  const auto b = any_mode();
  vp_assert(holds(bounded_by(d, b, value{v}), bounded<T>(b, v, d.min, d.max)), "a number is bounded by the bounds the domain has");
  vp_cover("end");
}
VP_CONTRACT(numeric_int) { numeric<int>(); }
VP_CONTRACT(numeric_float) { numeric<float>(); }
VP_CONTRACT(numeric_char) { numeric<char>(); }
VP_CONTRACT(numeric_bool)
{
  domain_base<bool> d;
  const bool v = vp_bool("value");
  const auto b = any_mode();
  vp_assume(b != bounding_mode::WRAP); // wrapping excludes the maximum, which is true
  vp_assert(holds(bounded_by(d, b, value{v}), v), "a boolean is always in its domain");
}
VP_CONTRACT(int_in_float_domain)
{
  domain_base<float> d;
  any_bounds(d.min, d.max);
  const int v = number<int>("value");
  const auto b = any_mode();
  const float r = bounded<float>(b, (float)v, d.min, d.max);
  vp_assert(holds(bounded_by(d, b, value{v}), (int)r), "an integer is bounded by a float domain as a float");
}
VP_CONTRACT(float_in_int_domain)
{
  domain_base<int> d;
  any_bounds(d.min, d.max);
  const float v = number<float>("value");
  const auto b = any_mode();
  if(b == bounding_mode::FREE)
    vp_assert(holds(bounded_by(d, b, value{v}), v), "bounds are ignored in the free mode");
  else
    vp_assert(holds(bounded_by(d, b, value{v}), (float)bounded<int>(b, (int)v, d.min, d.max)), "a float is bounded by an integer domain as an integer");
}
template <typename T>
static void in_set()
{
  domain_base<T> d;
  any_bounds(d.min, d.max);
  d.values = {number<T>("x0"), number<T>("x1")};
  const T v = number<T>("value");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{v});
  if(b == bounding_mode::FREE || v == d.values[0] || v == d.values[1])
    vp_assert(r.get_type() == value{v}.get_type() && r.get<T>() == v, "a value of the set is kept");
  else
    vp_assert(!r.valid(), "a value that is not in the set gives an unset value");
  vp_cover("end");
}
VP_CONTRACT(set_int) { in_set<int>(); }
VP_CONTRACT(set_float) { in_set<float>(); }
VP_CONTRACT(set_char) { in_set<char>(); }
VP_CONTRACT(set_string)
{
  domain_base<std::string> d;
  const bool empty = vp_fork(vp_bool("empty"));
  if(!empty)
    d.values = {vp::any_string("x0"), vp::any_string("x1")};
  const std::string v = vp::any_string("value");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{v});
  if(b == bounding_mode::FREE || empty || vp::same_value(value{v}, value{d.values[0]}) || vp::same_value(value{v}, value{d.values[1]}))
    vp_assert(vp::same_value(r, value{v}), "a text of the set is kept");
  else
    vp_assert(!r.valid(), "a text that is not in the set gives an unset value");
}

// --- no domain, free mode, other types
static domain any_domain()
{
  switch((int)vp_concretize(vp_i8("domain") & 15))
  {
    case 0: return domain_base<int>{1, 3};
    case 1: return domain_base<float>{1, 3};
    case 2: return domain_base<char>{1, 3};
    case 3: return domain_base<bool>{};
    case 4: return domain_base<impulse>{};
    case 5: { domain_base<std::string> d; d.values = {"a"}; return d; }
    case 6: return vector_domain{list{1, 2}, list{3, 4}};
    case 7: return vecf_domain<2>{vec2f{0, 0}, vec2f{1, 1}};
    case 8: return vecf_domain<3>{vec3f{0, 0, 0}, vec3f{1, 1, 1}};
    case 9: return vecf_domain<4>{vec4f{0, 0, 0, 0}, vec4f{1, 1, 1, 1}};
    case 10: { domain_base<value> d; d.min = value{1}; return d; }
    default: return domain{};
  }
}
VP_CONTRACT(free_mode)
{
  const value v = vp::any_of(vp::any_type("type"));
  const domain d = any_domain();
  vp_assert(vp::same_value(bounded_by(d, bounding_mode::FREE, v), v), "bounds are ignored in the free mode");
  vp_cover("end");
}
VP_CONTRACT(no_domain)
{
  const value v = vp::any_of(vp::any_type("type"));
  vp_assert(vp::same_value(bounded_by(domain{}, any_mode(), v), v), "a value without a domain is kept");
}
VP_CONTRACT(unset)
{
  vp_assert(!bounded_by(any_domain(), any_mode(), value{}).valid(), "an unset value stays unset");
}
// types that a domain of numbers cannot bound
template <typename T>
static void other_type()
{
  domain_base<T> d;
  any_bounds(d.min, d.max);
  const auto b = any_mode();
  vp_assume(b != bounding_mode::FREE);
  const int t = vp::any_type("type");
  const bool n = t == 0 || t == 1;
  vp_assume(t == 5 || t == 6 || t == 7 || t == 9);
  if(t == 9 && std::is_same<T, char>::value)
    return;
  vp_assert(!bounded_by(d, b, vp::any_of(t)).valid(), "a value that the domain cannot bound gives an unset value");
}
VP_CONTRACT(other_int) { other_type<int>(); }
VP_CONTRACT(other_float) { other_type<float>(); }
VP_CONTRACT(other_char) { other_type<char>(); }

// --- vectors
template <std::size_t N>
static std::array<float, N> any_vec(const char* n)
{
  std::array<float, N> a;
  for(auto& f : a)
    f = number<float>(n);
  return a;
}
template <std::size_t N>
static const std::array<float, N>* vec_of(const value& v)
{
  return v.target<std::array<float, N>>();
}
template <std::size_t N>
static void vec_in_float()
{
  domain_base<float> d;
  any_bounds(d.min, d.max);
  const auto v = any_vec<N>("v");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{v});
  const auto* a = vec_of<N>(r);
  vp_assert(a != nullptr, "a vector stays a vector");
  for(std::size_t i = 0; i < N; i++)
    vp_assert(vp::same((*a)[i], bounded<float>(b, v[i], d.min, d.max)), "each component is bounded");
  vp_cover("end");
}
VP_CONTRACT(vec2_in_float) { vec_in_float<2>(); }
VP_CONTRACT(vec3_in_float) { vec_in_float<3>(); }
VP_CONTRACT(vec4_in_float) { vec_in_float<4>(); }
template <std::size_t N>
static void vec_in_int()
{
  domain_base<int> d;
  if(N == 2)
    any_bounds(d.min, d.max);
  else
  {
    d.min = -3;
    d.max = 70000;
  }
  std::optional<float> lo, hi;
  if(d.min) lo = (float)*d.min;
  if(d.max) hi = (float)*d.max;
  const auto v = any_vec<N>("v");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{v});
  const auto* a = vec_of<N>(r);
  vp_assert(a != nullptr, "a vector stays a vector");
  for(std::size_t i = 0; i < N; i++)
    vp_assert(vp::same((*a)[i], bounded<float>(b, v[i], lo, hi)), "each component is bounded by the integer bounds");
}
VP_CONTRACT(vec2_in_int) { vec_in_int<2>(); }
VP_CONTRACT(vec3_in_int) { vec_in_int<3>(); }
VP_CONTRACT(vec4_in_int) { vec_in_int<4>(); }
template <std::size_t N>
static void vec_in_set()
{
  domain_base<float> d;
  d.values = {number<float>("x0"), number<float>("x1")};
  const auto v = any_vec<N>("v");
  const auto b = any_mode();
  bool all = true;
  for(auto f : v)
    all &= f == d.values[0] || f == d.values[1];
  const value r = bounded_by(d, b, value{v});
  if(b == bounding_mode::FREE || all)
    vp_assert(vp::same_value(r, value{v}), "a vector whose components are all in the set is kept");
  else
    vp_assert(!r.valid(), "a vector with a component outside of the set gives an unset value");
}
VP_CONTRACT(vec2_in_set) { vec_in_set<2>(); }
VP_CONTRACT(vec3_in_set) { vec_in_set<3>(); }
template <std::size_t N>
static void vec_in_vec(bool sets)
{
  vecf_domain<N> d;
  for(std::size_t i = 0; i < N; i++)
    if(i == 0 || !sets)
      any_bounds(d.min[i], d.max[i]);
  float x0 = 0, x1 = 0;
  if(sets)
  {
    x0 = number<float>("x0");
    x1 = number<float>("x1");
    vp_assume(x0 < x1);
    d.values[N - 1].insert(x0);
    d.values[N - 1].insert(x1);
  }
  const auto v = any_vec<N>("v");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{v});
  const auto* a = vec_of<N>(r);
  vp_assert(a != nullptr, "a vector stays a vector");
  for(std::size_t i = 0; i < N; i++)
  {
    if(sets && i == N - 1 && b != bounding_mode::FREE)
      vp_assert(v[i] == x0 || v[i] == x1 ? (*a)[i] == v[i] : (*a)[i] == 0, "a component that is not in its set is zeroed");
    else
      vp_assert(vp::same((*a)[i], bounded<float>(b, v[i], d.min[i], d.max[i])), "each component is bounded by its own bounds");
  }
  vp_cover("end");
}
VP_CONTRACT(vec2_in_vec) { vec_in_vec<2>(false); }
VP_CONTRACT(vec2_in_sets) { vec_in_vec<2>(true); }
VP_CONTRACT(vec3_in_sets) { vec_in_vec<3>(true); }
template <int N>
static void vec_in_bounds()
{
  vecf_domain<N> d;
  const auto lo = any_vec<N>("min"), hi = any_vec<N>("max"), v = any_vec<N>("v");
  for(int i = 0; i < N; i++)
  {
    vp_assume(lo[i] < hi[i]);
    d.min[i] = lo[i];
    d.max[i] = hi[i];
  }
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{v});
  const auto* a = vec_of<N>(r);
  vp_assert(a != nullptr, "a vector stays a vector");
  for(int i = 0; i < N; i++)
    vp_assert(vp::same((*a)[i], bounded<float>(b, v[i], lo[i], hi[i])), "each component is bounded by its own bounds");
}
VP_CONTRACT(vec3_in_vec) { vec_in_bounds<3>(); }
VP_CONTRACT(vec4_in_vec) { vec_in_bounds<4>(); }
VP_CONTRACT(vec_size_mismatch)
{
  const auto b = any_mode();
  vp_assume(b != bounding_mode::FREE);
  vp_assert(!bounded_by(vecf_domain<3>{vec3f{0, 0, 0}, vec3f{1, 1, 1}}, b, value{any_vec<2>("v")}).valid(), "a vector of another size gives an unset value");
}

// --- lists
VP_CONTRACT(list_in_float)
{
  domain_base<float> d;
  any_bounds(d.min, d.max);
  const float f = number<float>("f");
  const int k = number<int>("k");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{list{value{f}, value{k}}});
  const auto* l = r.target<list>();
  vp_assert(l && l->size() == 2, "a list keeps its size");
  vp_assert(holds((*l)[0], bounded<float>(b, f, d.min, d.max)) && holds((*l)[1], k), "the elements of the domain's type are bounded and the others are kept");
}
VP_CONTRACT(list_in_int)
{
  domain_base<int> d;
  any_bounds(d.min, d.max);
  const float f = number<float>("f");
  const int k = number<int>("k");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{list{value{f}, value{k}}});
  const auto* l = r.target<list>();
  vp_assert(l && l->size() == 2, "a list keeps its size");
  vp_assert(holds((*l)[1], bounded<int>(b, k, d.min, d.max)) && holds((*l)[0], f), "the elements of the domain's type are bounded and the others are kept");
}
VP_CONTRACT(list_in_list)
{
  vector_domain d;
  std::optional<float> flo, fhi;
  std::optional<int> ilo, ihi;
  const bool has_min = vp_fork(vp_bool("min")), has_max = vp_fork(vp_bool("max"));
  if(has_min)
  {
    if(vp_fork(vp_bool("fmin"))) { flo = number<float>("fmin"); }
    ilo = number<int>("imin");
    d.min = {flo ? value{*flo} : value{}, value{*ilo}};
  }
  if(has_max)
  {
    if(vp_fork(vp_bool("fmax"))) { fhi = number<float>("fmax"); }
    d.max = {fhi ? value{*fhi} : value{}};
    if(vp_fork(vp_bool("imax"))) { ihi = number<int>("imax"); d.max.push_back(value{*ihi}); }
  }
  if(flo && fhi) vp_assume(*flo < *fhi);
  if(ilo && ihi) vp_assume(*ilo < *ihi);
  const float f = number<float>("f");
  const int k = number<int>("k");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{list{value{f}, value{k}, value{f}}});
  const auto* l = r.target<list>();
  vp_assert(l && l->size() == 3, "a list keeps its size");
  vp_assert(holds((*l)[0], bounded<float>(b, f, flo, fhi)), "each element is bounded by its own bounds");
  vp_assert(holds((*l)[1], bounded<int>(b, k, ilo, ihi)), "each element is bounded by its own bounds");
  vp_assert(holds((*l)[2], f), "elements without bounds are kept");
  vp_cover("end");
}
VP_CONTRACT(list_in_sets)
{
  vector_domain d;
  const int x0 = number<int>("x0"), x1 = number<int>("x1"), k = number<int>("k"), m = number<int>("m");
  vp_assume(x0 < x1);
  d.values.resize(1);
  d.values[0].insert(value{x0});
  d.values[0].insert(value{x1});
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{list{value{k}, value{m}}});
  const auto* l = r.target<list>();
  vp_assert(l && l->size() == 2, "a list keeps its size");
  vp_assert(b == bounding_mode::FREE || k == x0 || k == x1 ? holds((*l)[0], k) : !(*l)[0].valid(), "an element that is not in its set is unset");
  vp_assert(holds((*l)[1], m), "elements without a set are kept");
}
VP_CONTRACT(vec_in_list)
{
  vector_domain d;
  const float lo = number<float>("lo"), hi = number<float>("hi");
  vp_assume(lo < hi);
  d.min = {value{lo}};
  d.max = {value{hi}};
  const auto v = any_vec<2>("v");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{v});
  const auto* a = vec_of<2>(r);
  vp_assert(a != nullptr, "a vector stays a vector");
  vp_assert(vp::same((*a)[0], bounded<float>(b, v[0], lo, hi)) && vp::same((*a)[1], v[1]), "the components that a list domain bounds are bounded");
}

// --- any value
template <typename T>
static void generic()
{
  domain_base<value> d;
  std::optional<T> lo, hi;
  any_bounds(lo, hi);
  if(lo) d.min = value{*lo};
  if(hi) d.max = value{*hi};
  const T v = number<T>("value");
  const auto b = any_mode();
  vp_assert(holds(bounded_by(d, b, value{v}), bounded<T>(b, v, lo, hi)), "a value is bounded by bounds of its type");
  vp_cover("end");
}
VP_CONTRACT(generic_int) { generic<int>(); }
VP_CONTRACT(generic_float) { generic<float>(); }
VP_CONTRACT(generic_char) { generic<char>(); }
VP_CONTRACT(generic_vec)
{
  domain_base<value> d;
  const auto lo = any_vec<2>("min"), hi = any_vec<2>("max"), v = any_vec<2>("v");
  const bool one = vp_fork(vp_bool("one"));
  const bool has_min = vp_fork(vp_bool("has_min")), has_max = vp_fork(vp_bool("has_max"));
  if(has_min) d.min = one ? value{lo[0]} : value{lo};
  if(has_max) d.max = one ? value{hi[0]} : value{hi};
  const auto b = any_mode();
  std::optional<float> l[2], h[2];
  for(int i = 0; i < 2; i++)
  {
    if(has_min) l[i] = one ? lo[0] : lo[i];
    if(has_max) h[i] = one ? hi[0] : hi[i];
    if(has_min && has_max) vp_assume(*l[i] < *h[i]);
  }
  const value r = bounded_by(d, b, value{v});
  const auto* a = vec_of<2>(r);
  vp_assert(a != nullptr, "a vector stays a vector");
  for(int i = 0; i < 2; i++)
    vp_assert(vp::same((*a)[i], bounded<float>(b, v[i], l[i], h[i])), "each component is bounded");
}
VP_CONTRACT(generic_list)
{
  domain_base<value> d;
  std::optional<int> lo, hi;
  any_bounds(lo, hi);
  if(lo) d.min = value{*lo};
  if(hi) d.max = value{*hi};
  const int k = number<int>("k");
  const float f = number<float>("f");
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{list{value{k}, value{f}}});
  const auto* l = r.target<list>();
  vp_assert(l && l->size() == 2, "a list keeps its size");
  vp_assert(holds((*l)[0], bounded<int>(b, k, lo, hi)) && holds((*l)[1], f), "elements of the bounds' type are bounded and the others are kept");
}
VP_CONTRACT(generic_set)
{
  domain_base<value> d;
  const int x = number<int>("x"), k = number<int>("k");
  d.values = {value{x}, value{std::string("a")}};
  const auto b = any_mode();
  const value r = bounded_by(d, b, value{k});
  if(b == bounding_mode::FREE || k == x)
    vp_assert(holds(r, k), "a value of the set is kept");
  else
    vp_assert(!r.valid(), "a value that is not in the set gives an unset value");
}

// --- the operations on values
template <int Op>
static value op(const value& v, const value& lo, const value& hi)
{
  callees();
  const bool moved = vp_fork(vp_bool("moved"));
  switch(Op)
  {
    case 0: return moved ? clamp(value{v}, lo, hi) : clamp(v, lo, hi);
    case 1: return moved ? wrap(value{v}, lo, hi) : wrap(v, lo, hi);
    case 2: return moved ? fold(value{v}, lo, hi) : fold(v, lo, hi);
    case 3: return moved ? clamp_min(value{v}, lo) : clamp_min(v, lo);
    default: return moved ? clamp_max(value{v}, hi) : clamp_max(v, hi);
  }
}
template <int Op>
static void op_unset()
{
  const value v = vp::any_of(vp::any_type("type")), b = vp::any_of(vp::any_type("bound"));
  if(Op <= 2 && vp_fork(vp_bool("which")))
    vp_assert(vp::same_value(op<Op>(v, value{}, b), v), "a value is kept when a bound is unset");
  else if(Op <= 2)
    vp_assert(vp::same_value(op<Op>(v, b, value{}), v), "a value is kept when a bound is unset");
  else
    vp_assert(vp::same_value(op<Op>(v, value{}, value{}), v), "a value is kept when a bound is unset");
  vp_assert(!op<Op>(value{}, b, b).valid(), "an unset value stays unset");
}
VP_CONTRACT(clamp_unset) { op_unset<0>(); }
VP_CONTRACT(wrap_unset) { op_unset<1>(); }
VP_CONTRACT(fold_unset) { op_unset<2>(); }
VP_CONTRACT(clamp_min_unset) { op_unset<3>(); }
VP_CONTRACT(clamp_max_unset) { op_unset<4>(); }
template <int Op>
static void op_other()
{
  const int t = vp::any_type("type"), l = vp::any_type("bound");
  vp_assume(t != l && t != 8 && l != 10 && !(l == 0 && t >= 2 && t <= 4));
  const value v = vp::any_of(t), b = vp::any_of(l);
  vp_assert(vp::same_value(op<Op>(v, b, b), v), "a value is kept by bounds of another type");
}
VP_CONTRACT(clamp_other) { op_other<0>(); }
VP_CONTRACT(wrap_other) { op_other<1>(); }
VP_CONTRACT(fold_other) { op_other<2>(); }
VP_CONTRACT(clamp_min_other) { op_other<3>(); }
VP_CONTRACT(clamp_max_other) { op_other<4>(); }
template <int Op>
static void op_list()
{
  const int k = number<int>("k"), kl = number<int>("kl"), kh = number<int>("kh");
  const float f = number<float>("f"), fl = number<float>("fl"), fh = number<float>("fh");
  vp_assume(kl < kh && fl < fh);
  const std::optional<int> kmin{kl}, kmax{kh};
  const std::optional<float> fmin{fl}, fmax{fh};
  const bounding_mode modes[] = {bounding_mode::CLIP, bounding_mode::WRAP, bounding_mode::FOLD, bounding_mode::LOW, bounding_mode::HIGH};
  const value r = op<Op>(value{list{value{k}, value{f}}}, value{list{value{kl}, value{fl}}}, value{list{value{kh}, value{fh}}});
  const auto* l = r.target<list>();
  vp_assert(l && l->size() == 2 && holds((*l)[0], bounded<int>(modes[Op], k, kmin, kmax)) && holds((*l)[1], bounded<float>(modes[Op], f, fmin, fmax)),
            "a list is bounded element by element by lists of its size");
}
VP_CONTRACT(clamp_list) { op_list<0>(); }
VP_CONTRACT(wrap_list) { op_list<1>(); }
VP_CONTRACT(fold_list) { op_list<2>(); }
VP_CONTRACT(clamp_min_list) { op_list<3>(); }
VP_CONTRACT(clamp_max_list) { op_list<4>(); }

// --- reading and changing the bounds
static bool bounded_type(int t) { return t == 0 || t == 1 || (t >= 2 && t <= 4) || t == 8 || t == 9; }
static bool is_unset(const value& v, int type)
{
  return type == 8 ? v.target<list>() && v.target<list>()->empty() : !v.valid();
}
VP_CONTRACT(bounds_back)
{
  const int t = vp::any_type("type");
  vp_assume(bounded_type(t));
  const value lo = vp::any_of(t), hi = vp::any_of(t), x = vp::any_of(t);
  domain d = make_domain(lo, hi);
  vp_assert(vp::same_value(d.get_min(), lo) && vp::same_value(d.get_max(), hi), "a domain has the bounds it is made of");
  switch((int)vp_concretize(vp_i8("case") & 7))
  {
    case 0:
      set_min(d, x);
      vp_assert(vp::same_value(d.get_min(), x) && vp::same_value(d.get_max(), hi), "changing the minimum changes nothing else");
      break;
    case 1:
      set_max(d, x);
      vp_assert(vp::same_value(d.get_min(), lo) && vp::same_value(d.get_max(), x), "changing the maximum changes nothing else");
      break;
    case 2:
      set_min(d, value{});
      vp_assert(is_unset(d.get_min(), t) && vp::same_value(d.get_max(), hi), "the minimum can be removed");
      break;
    case 3:
      set_max(d, value{});
      vp_assert(is_unset(d.get_max(), t) && vp::same_value(d.get_min(), lo), "the maximum can be removed");
      break;
    case 4:
      d = make_domain(lo, value{});
      vp_assert(vp::same_value(d.get_min(), lo) && is_unset(d.get_max(), t), "a domain can have a minimum only");
      break;
    case 5:
      d = make_domain(value{}, hi);
      vp_assert(is_unset(d.get_min(), t) && vp::same_value(d.get_max(), hi), "a domain can have a maximum only");
      break;
    case 6:
      d = domain{};
      set_min(d, lo);
      vp_assert(vp::same_value(d.get_min(), lo) && is_unset(d.get_max(), t), "a first minimum makes a domain");
      break;
    default:
      d = domain{};
      set_max(d, hi);
      vp_assert(is_unset(d.get_min(), t) && vp::same_value(d.get_max(), hi), "a first maximum makes a domain");
      break;
  }
  vp_cover("end");
}
VP_CONTRACT(bounds_none)
{
  vp_assert(!make_domain(value{}, value{}) && !domain{}.get_min().valid() && !domain{}.get_max().valid(), "no bounds make no domain");
  domain d;
  set_min(d, value{});
  set_max(d, value{});
  vp_assert(!d, "no bounds make no domain");
}
VP_CONTRACT(values_back)
{
  const int t = vp::any_type("type");
  vp_assume(t == 0 || t == 1 || t == 7 || t == 9);
  const list vals{vp::any_of(t), vp::any_of(t)};
  const auto d = make_domain(vals);
  const auto back = get_values(d);
  vp_assert(back.size() == 2 && vp::same_value(back[0], vals[0]) && vp::same_value(back[1], vals[1]), "a domain has the values it is made of");
  vp_assert(!d.get_min().valid() && !d.get_max().valid(), "a set of values has no bounds");
  vp_assert(get_values(domain{}).empty() && !make_domain(list{}), "no values make no domain");
}
VP_CONTRACT(values_and_bounds)
{
  const int t = vp::any_type("type");
  vp_assume(t == 0 || t == 1 || t == 9);
  const value lo = vp::any_of(t), hi = vp::any_of(t), x = vp::any_of(t);
  const auto d = make_domain(lo, hi, list{x, value{std::string("other")}});
  const auto back = get_values(d);
  vp_assert(vp::same_value(d.get_min(), lo) && vp::same_value(d.get_max(), hi), "a domain has the bounds it is made of");
  vp_assert(back.size() == 1 && vp::same_value(back[0], x), "a domain has the values of its type");
}
