// Integer logarithm.
// VP-OPT: unroll=66
// VP-FN: ossia::constexpr_log2 [detail/math.hpp]
#include <vp.hpp>
#include <ossia/detail/math.hpp>
using namespace ossia;
VP_CONTRACT(log2_)
{
  const size_t n = vp_i64("n");
  vp_assume(n >= 1);
  const size_t r = constexpr_log2(n);
  vp_assert(r < 64 && (size_t(1) << r) <= n && (r == 63 || (size_t(1) << (r + 1)) > n), "2^log2(n) <= n < 2^(log2(n)+1)");
}
