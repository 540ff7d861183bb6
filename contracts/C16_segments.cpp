// Curve segments and easings.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=64
// VP-FN: ossia::curve_segment_empty / linear / power / ease [editor/curve/curve_segment/*.hpp]
// VP-FN: ossia::easing::ease [editor/curve/curve_segment/easing.hpp]
// VP-ASSUME: std::pow follows ISO C annex F at the end points
#include <vp.hpp>
#include <cmath>
#include <ossia/editor/curve/curve_segment/easing.hpp>
#include <ossia/editor/curve/curve_segment/empty.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>
#include <ossia/editor/curve/curve_segment/power.hpp>
using namespace ossia;

// an easing of which only what it gives is known
static double probe_in, probe_out;
static int probed;
struct probe
{
  double operator()(double t) const
  {
    probed++;
    probe_in = t;
    return probe_out;
  }
};
template <typename Y>
static Y any_y(const char* n)
{
  const Y y = vp::any<Y>(n);
  if constexpr(std::is_floating_point_v<Y>)
    vp_assume(std::isfinite(y));
  return y;
}
template <typename Y>
static void empty()
{
  const double r = vp_f64("ratio");
  const Y a = any_y<Y>("start"), b = any_y<Y>("end");
  vp_assert(curve_segment_empty<Y>{}(r, a, b) == a, "an empty segment stays at its start");
  vp_cover("end");
}
VP_CONTRACT(empty_int) { empty<int>(); }
VP_CONTRACT(empty_int64) { empty<int64_t>(); }
VP_CONTRACT(empty_float) { empty<float>(); }
VP_CONTRACT(empty_double) { empty<double>(); }
VP_CONTRACT(empty_bool) { empty<bool>(); }

template <typename Y>
static void ends()
{
  const Y a = any_y<Y>("start"), b = any_y<Y>("end");
  vp_assert(curve_segment_linear<Y>{}(0., a, b) == a, "a linear segment starts at its start");
  vp_assert(curve_segment_linear<Y>{}(1., a, b) == b, "a linear segment ends at its end");
  const double r = vp_f64("ratio");
  probed = 0;
  probe_out = 0.;
  vp_assert((curve_segment_ease<Y, probe>{}(r, a, b)) == a, "an eased segment starts at its start");
  vp_assert(probed == 1 && vp::same(probe_in, r), "the easing is given the ratio");
  probe_out = 1.;
  vp_assert((curve_segment_ease<Y, probe>{}(r, a, b)) == b, "an eased segment ends at its end");
  vp_cover("end");
}
VP_CONTRACT(ends_int) { ends<int>(); }
VP_CONTRACT(ends_float) { ends<float>(); }
VP_CONTRACT(ends_double) { ends<double>(); }
VP_CONTRACT(ends_bool) { ends<bool>(); }

// in between: the exact interpolation, at ratios k / 2^8 of whole numbers
template <typename Y>
static void between()
{
  const int a = vp_i32("start"), b = vp_i32("end"), k = vp_i32("k");
  vp_assume(a > -(1 << 12) && a < (1 << 12) && b > -(1 << 12) && b < (1 << 12) && k >= 0 && k <= 8);
  const int c = (int)vp_concretize(k);
  const int num = (8 - c) * a + c * b;
  const double r = c / 8.;
  if constexpr(std::is_same_v<Y, int>)
  {
    vp_assert(curve_segment_linear<int>{}(r, a, b) == num / 8, "a linear segment interpolates whole numbers");
    probe_out = r;
    vp_assert((curve_segment_ease<int, probe>{}(0.3, a, b)) == num / 8, "an eased segment interpolates whole numbers by what the easing gives");
  }
  else
  {
    vp_assert(curve_segment_linear<Y>{}(r, Y(a), Y(b)) == Y(num / 8.), "a linear segment interpolates");
    probe_out = r;
    vp_assert((curve_segment_ease<Y, probe>{}(0.3, Y(a), Y(b))) == Y(num / 8.), "an eased segment interpolates by what the easing gives");
  }
  vp_cover("end");
}
VP_CONTRACT(between_int) { between<int>(); }
VP_CONTRACT(between_float) { between<float>(); }
VP_CONTRACT(between_double) { between<double>(); }

template <typename Y>
static void power_ends()
{
  const int a = vp_i32("start"), b = vp_i32("end");
  vp_assume(a > -(1 << 23) && a < (1 << 23) && b > -(1 << 23) && b < (1 << 23));
  const double p = vp_f64("power");
  vp_assume(p > 0. && p < 1000.);
  const auto f = curve_segment_power<Y>{}(p);
  vp_assert(f(0., Y(a), Y(b)) == Y(a), "a power segment starts at its start");
  vp_assert(f(1., Y(a), Y(b)) == Y(b), "a power segment ends at its end");
  vp_cover("end");
}
VP_CONTRACT(power_ends_int) { power_ends<int>(); }
VP_CONTRACT(power_ends_float) { power_ends<float>(); }
VP_CONTRACT(power_ends_double) { power_ends<double>(); }
template <typename Y>
static void power_between()
{
  const int a = vp_i32("start"), b = vp_i32("end"), k = vp_i32("k"), q = vp_i32("power");
  const int lim = std::is_same_v<Y, int> ? 1 << 6 : 1 << 12;
  vp_assume(a > -lim && a < lim && b > -lim && b < lim && k >= 0 && k <= 4 && q >= 1 && q <= 3);
  const int c = (int)vp_concretize(k), e = (int)vp_concretize(q);
  int num = 1, den = 1;
  for(int i = 0; i < e; i++)
  {
    num *= c;
    den *= 4;
  }
  const auto f = curve_segment_power<Y>{}(e);
  const int exact = a * den + num * (b - a);
  if constexpr(std::is_same_v<Y, int>)
    vp_assert(f(c / 4., a, b) == exact / den, "a power segment raises the ratio (whole numbers)");
  else
    vp_assert(f(c / 4., Y(a), Y(b)) == Y(exact / (double)den), "a power segment raises the ratio");
  vp_cover("end");
}
VP_CONTRACT(power_between_int) { power_between<int>(); }
VP_CONTRACT(power_between_float) { power_between<float>(); }
VP_CONTRACT(power_between_double) { power_between<double>(); }

// the easings, at the ratios k / 64
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }
static double at(const char* n)
{
  const int k = vp_i32(n);
  vp_assume(k >= 0 && k <= 64);
  return (int)vp_concretize(k) / 64.;
}
template <typename In, typename Out, typename InOut>
static void family(double t)
{
  if(t == 0.)
    vp_assert(near(In{}(t), 0.), "easing in starts at 0");
  if(t == 1.)
    vp_assert(near(In{}(t), 1.), "easing in ends at 1");
  vp_assert(near(Out{}(t), 1. - In{}(1. - t)), "easing out mirrors easing in");
  vp_assert(near(InOut{}(t), t < 0.5 ? In{}(2. * t) / 2. : 1. - In{}(2. - 2. * t) / 2.), "easing in and out is both, at half the scale");
}
VP_CONTRACT(easings_power)
{
  using namespace easing;
  const double t = at("k");
  vp_assert(linear{}(t) == t, "the linear easing is the ratio");
  vp_assert(near(quadraticIn{}(t), t * t), "the quadratic easing is the square");
  vp_assert(near(cubicIn{}(t), t * t * t), "the cubic easing is the cube");
  vp_assert(near(quarticIn{}(t), t * t * t * t), "the quartic easing is the fourth power");
  vp_assert(near(quinticIn{}(t), t * t * t * t * t), "the quintic easing is the fifth power");
  family<quadraticIn, quadraticOut, quadraticInOut>(t);
  family<cubicIn, cubicOut, cubicInOut>(t);
  family<quarticIn, quarticOut, quarticInOut>(t);
  family<quinticIn, quinticOut, quinticInOut>(t);
  vp_assert(near(perlinInOut{}(t), t * t * t * (t * (6. * t - 15.) + 10.)), "the perlin easing is Perlin's smooth step");
  vp_cover("end");
}
VP_CONTRACT(easings_other)
{
  using namespace easing;
  const double t = at("k");
  family<sineIn, sineOut, sineInOut>(t);
  family<circularIn, circularOut, circularInOut>(t);
  family<exponentialIn, exponentialOut, exponentialInOut>(t);
  family<elasticIn, elasticOut, elasticInOut>(t);
  family<backIn, backOut, backInOut>(t);
  family<bounceIn, bounceOut, bounceInOut>(t);
  vp_assert(circularIn{}(t) <= 1. && near((1. - circularIn{}(t)) * (1. - circularIn{}(t)) + t * t, 1.), "the circular easing is on the circle");
  vp_assert(near(sineIn{}(t), 1. - std::cos(t * 1.5707963267948966)), "the sine easing is a quarter of a sine");
  vp_assert(t == 0. || near(exponentialIn{}(t), std::exp2(10. * t - 10.)), "the exponential easing is exponential");
  vp_assert(bounceOut{}(t) >= 0. && bounceOut{}(t) < 1. + 1e-9, "the bounce easing stays between 0 and 1");
  vp_cover("end");
}
