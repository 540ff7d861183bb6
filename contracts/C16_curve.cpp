// A curve is the succession of its segments.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=16
// VP-FN: ossia::curve::value_at / add_point / remove_point / get_y0 [editor/curve/curve.hpp]
// VP-FN: ossia::curve::convert_to_template_type_value [editor/curve/curve.hpp]
// VP-ASSUME: bounded: curves of up to 3 points; the flat map and the small function of the dependencies are sorted maps and function wrappers
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/editor/curve/curve.hpp>
#include <cmath>
ossia::value::~value() noexcept { }
ossia::curve_abstract::~curve_abstract() { }
using namespace ossia;

// a segment of which only the arguments and the result are known
struct Call
{
  int id;
  double ratio;
  double start, end;
};
static Call calls[8];
static int ncalls;
static double result;
template <int Id, typename Y>
static Y seg(double r, Y a, Y b)
{
  calls[ncalls++ & 7] = Call{Id, r, (double)a, (double)b};
  return (Y)result;
}
template <typename X, typename Y, int Max>
static void value_at()
{
  X x0 = vp::any<X>("x0"), xs[3];
  Y y0 = vp::any<Y>("y0"), ys[3];
  const X x = vp::any<X>("x");
  result = vp_i32("result");
  const int n = vp_i32("points");
  vp_assume(n >= 0 && n <= Max);
  const int N = (int)vp_concretize(n);
  X prev = x0;
  auto fin = [](auto v) {
    if constexpr(std::is_floating_point_v<decltype(v)>)
      vp_assume(std::isfinite(v));
    else
      (void)v;
  };
  fin(x0);
  fin(y0);
  fin(x);
  for(int i = 0; i < N; i++)
  {
    xs[i] = vp::any<X>("xi");
    ys[i] = vp::any<Y>("yi");
    fin(xs[i]);
    fin(ys[i]);
    vp_assume(xs[i] > prev);
    prev = xs[i];
  }
  curve<X, Y> c;
  c.set_x0(x0);
  c.set_y0(y0);
  // in any order
  const bool rev = vp_fork(vp_bool("reversed"));
  for(int i = 0; i < N; i++)
  {
    const int k = rev ? N - 1 - i : i;
    curve_segment<Y> s = k == 0 ? &seg<0, Y> : k == 1 ? &seg<1, Y> : &seg<2, Y>;
    vp_assert(c.add_point(std::move(s), xs[k], ys[k]), "points are added");
  }
  ncalls = 0;
  const Y v = c.value_at(x);
  if(!(x > x0) || N == 0)
    vp_assert(ncalls == 0 && v == y0, "up to its start, a curve has its first value");
  else if(x > xs[N - 1])
    vp_assert(ncalls == 0 && v == ys[N - 1], "after its end, a curve has its last value");
  else
  {
    int k = 0;
    while(x > xs[k])
      k++;
    k = (int)vp_concretize(k);
    vp_assert(ncalls == 1 && calls[0].id == k, "one segment is evaluated: the one that the abscissa is in");
    vp_assert(calls[0].start == (double)(k ? ys[k - 1] : y0) && calls[0].end == (double)ys[k], "the segment goes from the previous point to its own");
    const double from = (double)(k ? xs[k - 1] : x0);
    const double ratio = ((double)x - from) / ((double)xs[k] - from);
    vp_assert(calls[0].ratio == ratio || (ratio != ratio && calls[0].ratio != calls[0].ratio), "the segment is given the position of the abscissa in it");
    vp_assert(v == (Y)result, "the value of the curve is the segment's");
  }
  if constexpr(Max == 3)
  if(N > 0)
  {
    vp_assert(c.remove_point(xs[0]) && c.get_points().size() == (size_t)N - 1, "a point can be removed");
    ncalls = 0;
    if(N == 1)
      vp_assert(c.value_at(x) == y0, "a removed point does not count");
  }
  if constexpr(Max == 3)
    vp_assert(!c.remove_point(x0), "no other point is removed");
  vp_cover("end");
}
// the abscissae only matter through comparisons and the ratio
VP_CONTRACT(value_at_int) { value_at<int, int, 3>(); }
VP_CONTRACT(value_at_double) { value_at<double, float, 2>(); }
VP_CONTRACT(value_at_int64) { value_at<int64_t, double, 2>(); }

template <typename Y>
static void from_value()
{
  const int t = vp::any_type("type");
  const value v = vp::any_of(t);
  const int i = vp_i32("index") & 1;
  const int k = (int)vp_concretize(i);
  destination_index idx;
  idx.push_back(k);
  idx.push_back(0);
  Y r{};
  bool thrown = false;
  try { r = curve<double, Y>::convert_to_template_type_value(v, idx.begin()); } catch(...) { thrown = true; }
  double e = 0;
  switch(t)
  {
    case 0: e = v.get<float>(); break;
    case 1: e = v.get<int>(); break;
    case 2: e = v.get<vec2f>()[k]; break;
    case 3: e = v.get<vec3f>()[k]; break;
    case 4: e = v.get<vec4f>()[k]; break;
    case 6: e = v.get<bool>(); break;
    case 8: e = k == 0 ? (double)v.get<std::vector<value>>()[0].get<int>() : (double)v.get<std::vector<value>>()[1].get<float>(); break;
    case 9: e = v.get<char>(); break;
    default:
      vp_assert(thrown, "an impulse, a text or an unset value cannot start a curve");
      return;
  }
  vp_assert(!thrown, "numbers can start a curve");
  vp_assume(e == e && e > -1e9 && e < 1e9);
  vp_assert(r == (Y)e, "the initial value is the number, or the element that the index designates");
  vp_cover("end");
}
VP_CONTRACT(from_value_int) { from_value<int>(); }
VP_CONTRACT(from_value_float) { from_value<float>(); }
VP_CONTRACT(from_value_double) { from_value<double>(); }
