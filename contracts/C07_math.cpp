// Clamping, wrapping and folding.
// VP-FN: ossia::clamp / clamp_min / clamp_max / wrap / fold / ipow / div / constexpr_log2 / constexpr_abs / constexpr_floor [detail/math.hpp]
// VP-ASSUME: wrap and fold of floating-point values are decided on integral values below 2^20 and, for ranges that start at 0, on all finite values
#include <vp.hpp>
#include <ossia/detail/math.hpp>
using namespace ossia;

template <typename T>
static void clamping()
{
  const T d = vp::any<T>("value"), lo = vp::any<T>("min"), hi = vp::any<T>("max");
  vp_assume(lo <= hi && d == d);
  const T a = clamp_min(d, lo), b = clamp_max(d, hi), c = clamp(d, lo, hi);
  vp_assert(a >= lo && (a == d || a == lo) && (d < lo || a == d), "clamp_min is the larger of both");
  vp_assert(b <= hi && (b == d || b == hi) && (d > hi || b == d), "clamp_max is the smaller of both");
  vp_assert(c >= lo && c <= hi, "a clamped value is in the range");
  vp_assert(!(d >= lo && d <= hi) || c == d, "a value of the range is left alone by clamp");
  vp_assert(!(d < lo) || c == lo, "below the range clamp gives its minimum");
  vp_assert(!(d > hi) || c == hi, "above the range clamp gives its maximum");
}
VP_CONTRACT(clamp_int) { clamping<int32_t>(); }
VP_CONTRACT(clamp_int64) { clamping<int64_t>(); }
VP_CONTRACT(clamp_float) { clamping<float>(); }
VP_CONTRACT(clamp_double) { clamping<double>(); }
VP_CONTRACT(clamp_char) { clamping<char>(); }

template <typename T>
static void wrapping()
{
  const int v = vp_i32("value"), l = vp_i32("low"), h = vp_i32("high");
  const int M = 1 << 20;
  vp_assume(l < h && v > -M && v < M && l > -M && h < M);
  const T r = wrap<T>(v, l, h);
  vp_assert(r >= T(l) && r <= T(h), "a wrapped value is in the range");
  const int i = (int)r;
  vp_assert(T(i) == r, "an integer wraps to an integer");
  const bool in = v >= l && v < h;
  vp_assert(!in || i == v, "a value of the range is left alone by wrap");
  const int64_t R = int64_t(h) - l;
  vp_assert(!(v >= h && v < h + R) || i == v - R, "just above the range wrap starts again at its start");
  vp_assert(!(v < l && v > l - R) || i == v + R, "just below the range wrap starts again at its end");
  vp_assert(v != l - R || i == l || i == h, "the start of the previous range wraps to one of the ends");
}
template <typename T, bool Above>
static void wrap_again()
{
  const int v = vp_i32("value"), l = vp_i32("low"), h = vp_i32("high");
  const int M = 1 << 20;
  vp_assume(l < h && v > -M && v < M && l > -M && h < M);
  const int R = h - l;
  if(Above)
  {
    vp_assume(v >= l && v < M - R);
    vp_assert(wrap<T>(v + R, l, h) == wrap<T>(v, l, h), "wrap repeats the range above");
  }
  else
  {
    vp_assume(v < l && v > R - M);
    vp_assert(wrap<T>(v - R, l, h) == wrap<T>(v, l, h), "wrap repeats the range below");
  }
}
VP_CONTRACT(wrap_int_above) { wrap_again<int, true>(); }
VP_CONTRACT(wrap_int_below) { wrap_again<int, false>(); }
VP_CONTRACT(wrap_float_above) { wrap_again<float, true>(); }
VP_CONTRACT(wrap_float_below) { wrap_again<float, false>(); }
VP_CONTRACT(wrap_int) { wrapping<int>(); }
VP_CONTRACT(wrap_float) { wrapping<float>(); }
VP_CONTRACT(wrap_double) { wrapping<double>(); }

template <typename T>
static void wrapping0()
{
  const T v = vp::any<T>("value"), h = vp::any<T>("high");
  vp_assume(v - v == 0 && h > 0 && h - h == 0);
  const T r = wrap<T>(v, T(0), h);
  vp_assert(r >= 0 && r <= h, "a value wrapped from 0 is in the range");
  vp_assert(!(v >= 0 && v < h) || r == v, "a value of the range from 0 is left alone by wrap");
}
VP_CONTRACT(wrap0_float) { wrapping0<float>(); }
VP_CONTRACT(wrap0_double) { wrapping0<double>(); }

template <typename T>
static void folding()
{
  const int v = vp_i32("value"), l = vp_i32("low"), h = vp_i32("high");
  const int M = 1 << 20;
  vp_assume(l < h && v > -M && v < M && l > -M && h < M);
  const T r = fold<T>(v, l, h);
  vp_assert(r >= T(l) && r <= T(h), "a folded value is in the range");
  const int i = (int)r;
  vp_assert(T(i) == r, "an integer folds to an integer");
  vp_assert(!(v >= l && v <= h) || i == v, "a value of the range is left alone by fold");
  vp_assert(!(v > h && v - h <= h - l) || i == h - (v - h), "just above the range the value is mirrored at its end");
  vp_assert(!(v < l && l - v <= h - l) || i == l + (l - v), "just below the range the value is mirrored at its start");
}
template <typename T, bool Above>
static void fold_again()
{
  const int v = vp_i32("value"), l = vp_i32("low"), h = vp_i32("high");
  const int M = 1 << 20;
  vp_assume(l < h && v > -M && v < M && l > -M && h < M);
  const int P = 2 * (h - l);
  if(Above)
  {
    vp_assume(v >= l && v < M - P);
    vp_assert(fold<T>(v + P, l, h) == fold<T>(v, l, h), "fold repeats the mirrored range above");
  }
  else
  {
    vp_assume(v < l && v > P - M);
    vp_assert(fold<T>(v - P, l, h) == fold<T>(v, l, h), "fold repeats the mirrored range below");
  }
}
VP_CONTRACT(fold_int_above) { fold_again<int, true>(); }
VP_CONTRACT(fold_int_below) { fold_again<int, false>(); }
VP_CONTRACT(fold_float_above) { fold_again<float, true>(); }
VP_CONTRACT(fold_float_below) { fold_again<float, false>(); }
VP_CONTRACT(fold_int) { folding<int>(); }
VP_CONTRACT(fold_float) { folding<float>(); }
VP_CONTRACT(fold_double) { folding<double>(); }
template <typename T>
static void folding0()
{
  const T v = vp::any<T>("value"), h = vp::any<T>("high");
  vp_assume(v - v == 0 && h > 0 && h <= std::numeric_limits<T>::max() / 2);
  const T r = fold<T>(v, T(0), h);
  vp_assert(r >= 0 && r <= h, "a value folded from 0 is in the range");
  vp_assert(!(v >= 0 && v <= h) || r == v, "a value of the range from 0 is left alone by fold");
}
VP_CONTRACT(fold0_float) { folding0<float>(); }
VP_CONTRACT(fold0_double) { folding0<double>(); }

VP_CONTRACT(integers)
{
  const int64_t n = vp_i64("n");
  vp_assume(n > INT64_MIN);
  vp_assert((int64_t)constexpr_abs(n) == (n < 0 ? -n : n), "absolute value");
  const int a = vp_i32("a"), b = vp_i32("b");
  vp_assume(b != 0 && !(a == INT32_MIN && b == -1));
  const auto d = ossia::div(a, b);
  vp_assert(d.first == a / b && d.second == a % b, "quotient and remainder");
  const int x = vp_i32("x");
  vp_assume(x > -256 && x < 256);
  vp_assert(ipow(x, 1) == x && ipow(x, 2) == x * x && ipow(x, 3) == x * x * x, "integer powers");
}
