// Time values: total order with a single greatest Infinite, exact finite arithmetic.
// VP-FN: ossia::time_value::operator+(time_value) [editor/scenario/time_value.hpp]
#include <vp.hpp>
#include <ossia/editor/scenario/time_value.hpp>
using ossia::time_value;
static const int64_t INF_MIN = std::numeric_limits<int64_t>::max() / 8;
// spec: a time is infinite from INF_MIN on
static bool inf(int64_t x) { return x >= INF_MIN; }
// finite times within the documented range
static bool fin(int64_t x) { return x < INF_MIN && x > -INF_MIN; }
typedef __int128 Z;

VP_CONTRACT(order)
{
  time_value a{vp_i64("a")}, b{vp_i64("b")};
  const bool ia = inf(a.impl), ib = inf(b.impl);
  const bool eq = (ia && ib) || (a.impl == b.impl);
  const bool lt = !ia && (ib || a.impl < b.impl);
  const bool gt = !ib && (ia || b.impl < a.impl);
  vp_assert(a.infinite() == ia, "infinite() recognises exactly the infinite range");
  vp_assert((a == b) == eq, "== is equality with all infinite times equal");
  vp_assert((a != b) == !eq, "!= is the negation of ==");
  vp_assert((a < b) == lt, "< is the order with Infinite greatest");
  vp_assert((a > b) == gt, "> is the order with Infinite greatest");
  vp_assert((a <= b) == (lt || eq), "<= is < or ==");
  vp_assert((a >= b) == (gt || eq), ">= is > or ==");
  vp_cover("order");
}

VP_CONTRACT(add)
{
  time_value a{vp_i64("a")}, b{vp_i64("b")};
  vp_assume(a.impl > -INF_MIN && b.impl > -INF_MIN);
  time_value r = a + b;
  if(inf(a.impl) || inf(b.impl))
    vp_assert(inf(r.impl), "a + b: infinite operand gives Infinite");
  else
  {
    Z s = (Z)a.impl + b.impl;
    if(s >= INF_MIN)
      vp_assert(inf(r.impl), "a + b: sum beyond the finite range is Infinite");
    else if(s > -INF_MIN)
    {
      vp_cover("finite sum");
      vp_assert(r.impl == (int64_t)s, "a + b: finite sum is exact");
    }
  }
}

VP_CONTRACT(sub)
{
  time_value a{vp_i64("a")}, b{vp_i64("b")};
  vp_assume(a.impl > -INF_MIN && b.impl > -INF_MIN);
  time_value r = a - b;
  if(inf(a.impl) || inf(b.impl))
    vp_assert(inf(r.impl), "a - b: infinite operand gives Infinite");
  else
  {
    Z s = (Z)a.impl - b.impl;
    if(a.impl >= 0 && b.impl < 0 && s >= INF_MIN)
      vp_assert(inf(r.impl), "a - b: difference beyond the finite range is Infinite");
    else if(s > -INF_MIN && s < INF_MIN)
    {
      vp_cover("finite difference");
      vp_assert(r.impl == (int64_t)s, "a - b: finite difference is exact");
    }
  }
}

VP_CONTRACT(compound)
{
  time_value a{vp_i64("a")}, b{vp_i64("b")};
  vp_assume(a.impl > -INF_MIN && b.impl > -INF_MIN);
  Z s = (Z)a.impl + b.impl, d = (Z)a.impl - b.impl;
  const bool anyinf = inf(a.impl) || inf(b.impl);
  {
    time_value t = a;
    time_value& ret = (t += b);
    vp_assert(&ret == &t, "+= returns its object");
    if(anyinf || s >= INF_MIN)
      vp_assert(inf(t.impl), "+= time is Infinite with an infinite operand or beyond the finite range");
    else if(s > -INF_MIN)
      vp_assert(t.impl == (int64_t)s, "+= time is exact");
  }
  {
    time_value t = a;
    t -= b;
    if(anyinf)
      vp_assert(inf(t.impl), "-= time is Infinite with an infinite operand");
    else if(d > -INF_MIN && d < INF_MIN)
      vp_assert(t.impl == (int64_t)d, "-= time is exact");
    else if(d >= INF_MIN)
      vp_assert(inf(t.impl), "-= time beyond the finite range is Infinite");
  }
  {
    time_value t = a;
    t = b.impl;
    vp_assert(t.impl == b.impl, "assignment from an integer stores it");
  }
  {
    time_value t = a;
    -t;
    if(fin(a.impl))
      vp_assert(t.impl == -a.impl, "negation of a finite time is exact");
    else
      vp_assert(inf(t.impl), "negation keeps Infinite");
  }
}

VP_CONTRACT(integers)
{
  time_value a{vp_i64("a")};
  int64_t d = vp_i64("d");
  vp_assume(a.impl > -INF_MIN && fin(d));
  Z s = (Z)a.impl + d, m = (Z)a.impl - d;
  const bool ia = inf(a.impl);
  auto sum_ok = [&](time_value r, Z v) {
    return (ia || v >= INF_MIN) ? inf(r.impl) : v > -INF_MIN ? r.impl == (int64_t)v : true;
  };
  vp_assert(sum_ok(a + d, s), "time + integer");
  vp_assert(sum_ok(a - d, m), "time - integer");
  if(d >= 0)
  {
    vp_assert(sum_ok(a + (uint64_t)d, s), "time + unsigned");
    vp_assert(sum_ok(a - (uint64_t)d, m), "time - unsigned");
  }
  {
    time_value t = a;
    t += d;
    vp_assert(sum_ok(t, s), "time += integer");
  }
  {
    time_value t = a;
    t -= d;
    vp_assert(sum_ok(t, m), "time -= integer");
  }
  if(!ia && s > -INF_MIN && s < INF_MIN && m > -INF_MIN && m < INF_MIN)
  {
    vp_cover("round trip");
    vp_assert(((a + d) - d).impl == a.impl, "adding then subtracting a finite duration is the identity");
    vp_assert(((a - d) + d).impl == a.impl, "subtracting then adding a finite duration is the identity");
  }
}

VP_CONTRACT(absnorm)
{
  time_value a{vp_i64("a")}, b{vp_i64("b")};
  vp_assume(a.impl > -INF_MIN && b.impl > -INF_MIN);
  const time_value n = norm(a, b), m = norm(b, a);
  if(inf(a.impl) || inf(b.impl))
    vp_assert(inf(n.impl), "norm with an infinite operand is Infinite");
  else
  {
    Z d = (Z)a.impl - b.impl;
    if(d < 0)
      d = -d;
    vp_assert(n.impl == (int64_t)d, "norm is the distance");
  }
  vp_assert(n == m, "norm is symmetric");
  const time_value t = abs(a);
  vp_assert(inf(a.impl) ? inf(t.impl) : t.impl == (a.impl < 0 ? -a.impl : a.impl), "abs is the absolute value");
}

VP_CONTRACT(scale)
{
  time_value a{vp_i64("a")};
  int32_t k = vp_i32("k");
  vp_assume(fin(a.impl) && a.impl < (1ll << 29) && a.impl > -(1ll << 29));
  vp_assert((a * k).impl == a.impl * (int64_t)k, "time * int32");
  vp_assert((a * (int64_t)k).impl == a.impl * (int64_t)k, "time * int64");
  if(k > 0)
  {
    vp_assert((a * (uint32_t)k).impl == a.impl * (int64_t)k, "time * uint32");
    vp_assert((a * (uint64_t)k).impl == a.impl * (int64_t)k, "time * uint64");
  }
  time_value b{vp_i64("b")};
  vp_assume(b.impl > 0);
  const int64_t q = a.impl / b.impl;
  vp_assert((a % b).impl == a.impl - q * b.impl, "time % time is the remainder");
}

VP_CONTRACT(samples)
{
  time_value a{vp_i64("a")};
  double rate = vp_f64("rate");
  vp_assume(inf(a.impl) || !(rate > 0));
  vp_assert(ossia::to_sample(a, rate) == 0, "an infinite time or no rate is sample 0");
}
