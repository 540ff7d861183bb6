// A tick: direction, range, position and the mapping between model time and samples.
// VP-OPT: split=1
// VP-FN: ossia::token_request::token_request [dataflow/token_request.hpp]
// VP-FN: ossia::token_request::add_offset [dataflow/token_request.hpp]
// VP-FN: ossia::token_request::forward / paused / backward / in_range / position [dataflow/token_request.hpp]
// VP-FN: ossia::token_request::model_read_duration / physical_* / safe_physical_write_duration [dataflow/token_request.hpp]
// VP-FN: ossia::token_request::to_physical_time_in_tick / from_physical_time_in_tick [dataflow/token_request.hpp]
// VP-FN: ossia::operator==(token_request, token_request), simple_token_request conversions [dataflow/token_request.hpp]
// VP-FN: ossia::constexpr_floor [detail/math.hpp]
#include <vp.hpp>
#include <ossia/dataflow/token_request.hpp>
using namespace ossia;
static const int64_t MAX = 1ll << 59;
static const int64_t M52 = 1ll << 51; // exactly representable sums

static token_request any_token()
{
  token_request t;
  t.prev_date.impl = vp_i64("prev_date");
  t.date.impl = vp_i64("date");
  t.parent_duration.impl = vp_i64("parent_duration");
  t.offset.impl = vp_i64("offset");
  t.speed = vp_f64("speed");
  t.tempo = vp_f64("tempo");
  t.signature.upper = vp_i16("upper");
  t.signature.lower = vp_i16("lower");
  t.musical_start_last_signature = vp_f64("msls");
  t.musical_start_last_bar = vp_f64("mslb");
  t.musical_start_position = vp_f64("msp");
  t.musical_end_last_bar = vp_f64("melb");
  t.musical_end_position = vp_f64("mep");
  t.start_discontinuous = vp_bool("sd");
  t.end_discontinuous = vp_bool("ed");
  return t;
}
static bool fin(int64_t x) { return x > -MAX && x < MAX; }

VP_CONTRACT(construct)
{
  int64_t p = vp_i64("p"), d = vp_i64("d"), pd = vp_i64("pd"), o = vp_i64("o");
  double s = vp_f64("s"), tp = vp_f64("tp");
  time_signature sig{(uint16_t)vp_i16("u"), (uint16_t)vp_i16("l")};
  token_request t{time_value{p}, time_value{d}, time_value{pd}, time_value{o}, s, sig, tp};
  vp_assert(t.prev_date.impl == p && t.date.impl == d && t.parent_duration.impl == pd, "dates are stored as given");
  vp_assert(t.offset.impl == (o < 0 ? 0 : o), "a negative offset becomes 0, any other is kept");
  vp_assert(vp::same(t.speed, s) && vp::same(t.tempo, tp), "speed and tempo are stored as given");
  vp_assert(t.signature.upper == sig.upper && t.signature.lower == sig.lower, "signature is stored as given");
  vp_assert(!t.start_discontinuous && !t.end_discontinuous, "a new tick is not discontinuous");
  simple_token_request st{time_value{p}, time_value{d}, time_value{pd}, time_value{o}};
  token_request c = st;
  vp_assert(c.prev_date.impl == p && c.date.impl == d && c.parent_duration.impl == pd && c.offset.impl == (o < 0 ? 0 : o), "a simple tick converts with its dates");
  vp_assert(c.speed == 1. && c.signature.upper == 4 && c.signature.lower == 4 && c.tempo == 120., "a simple tick has speed 1, 4/4 and tempo 120");
}

VP_CONTRACT(direction)
{
  token_request t = any_token();
  vp_assume(fin(t.prev_date.impl) && fin(t.date.impl));
  bool f = t.forward(), p = t.paused(), b = t.backward();
  vp_assert(f == (t.date.impl > t.prev_date.impl), "forward exactly when the end is after the start");
  vp_assert(b == (t.date.impl < t.prev_date.impl), "backward exactly when the end is before the start");
  vp_assert(p == (t.date.impl == t.prev_date.impl), "paused exactly when both dates are equal");
  vp_assert((int)f + (int)p + (int)b == 1, "exactly one direction holds");
  int64_t x = vp_i64("x");
  vp_assert(t.in_range(time_value{x}) == (x >= t.prev_date.impl && x < t.date.impl), "a date is in the tick from its start included to its end excluded");
  vp_assert(t.model_read_duration().impl == t.date.impl - t.prev_date.impl, "the model duration is end minus start");
}

VP_CONTRACT(shift)
{
  const token_request t = any_token();
  int64_t x = vp_i64("x");
  vp_assume(fin(t.prev_date.impl / 2 * 2) && fin(t.date.impl) && fin(x));
  vp_assume(fin(t.prev_date.impl + x) && fin(t.date.impl + x));
  token_request r = t.add_offset(time_value{x});
  vp_assert(r.prev_date.impl == t.prev_date.impl + x && r.date.impl == t.date.impl + x, "both dates move by the offset");
  token_request back = r;
  back.prev_date = t.prev_date;
  back.date = t.date;
  vp_assert(back.parent_duration.impl == t.parent_duration.impl && back.offset.impl == t.offset.impl && vp::same(back.speed, t.speed)
                && vp::same(back.tempo, t.tempo) && back.signature == t.signature, "nothing else of the tick changes");
  vp_assert(vp::same(back.musical_start_last_signature, t.musical_start_last_signature) && vp::same(back.musical_start_last_bar, t.musical_start_last_bar)
                && vp::same(back.musical_start_position, t.musical_start_position) && vp::same(back.musical_end_last_bar, t.musical_end_last_bar)
                && vp::same(back.musical_end_position, t.musical_end_position) && back.start_discontinuous == t.start_discontinuous
                && back.end_discontinuous == t.end_discontinuous, "no musical information of the tick changes");
}

VP_CONTRACT(position)
{
  const token_request t = any_token();
  double p = t.position();
  if(t.parent_duration.impl <= 0)
    vp_assert(p == 0., "a parent without duration gives position 0");
  else
  {
    vp_assert(vp::same(p, (double)t.date.impl / (double)t.parent_duration.impl), "the position is end date over parent duration");
    if(t.date.impl == t.parent_duration.impl)
      vp_assert(p == 1., "the end of the parent is position 1");
    if(t.date.impl == 0)
      vp_assert(p == 0., "the start of the parent is position 0");
  }
}

VP_CONTRACT(mapping_identity)
{
  // at speed 1 and ratio 1, samples and model time coincide (up to the start and the offset of the tick)
  token_request t = any_token();
  t.speed = 1.;
  auto small = [](int64_t x) { return x > -M52 / 4 && x < M52 / 4; };
  vp_assume(small(t.prev_date.impl) && small(t.date.impl) && small(t.offset.impl));
  int64_t g = vp_i64("g");
  vp_assume(small(g));
  vp_assert(t.to_physical_time_in_tick(time_value{g}, 1.) == g - t.prev_date.impl + t.offset.impl, "model to samples at speed 1");
  vp_assert(t.to_physical_time_in_tick(g, 1.) == g - t.prev_date.impl + t.offset.impl, "model to samples at speed 1 (raw date)");
  vp_assert(t.from_physical_time_in_tick(g, 1.).impl == g + t.prev_date.impl - t.offset.impl, "samples to model at speed 1");
  vp_assert(t.start_date_to_physical(1.) == t.prev_date.impl, "start date in samples at speed 1");
  vp_assert(t.physical_start(1.) == t.offset.impl, "start offset in samples at speed 1");
  int64_t d = t.date.impl - t.prev_date.impl;
  vp_assert(t.physical_read_duration(1.) == (d < 0 ? -d : d), "read duration at speed 1 is the length of the tick");
  vp_assert(t.physical_write_duration(1.) == (d < 0 ? -d : d), "write duration at speed 1 is the length of the tick");
  int32_t bs = vp_i32("bufferSize");
  vp_assert(t.safe_physical_write_duration(1., bs) == bs - t.offset.impl, "room left in the buffer after the offset");
}

VP_CONTRACT(mapping_inverse)
{
  // at speed 1 and ratio 1 the two mappings are inverse of each other
  token_request t = any_token();
  t.speed = 1.;
  auto small = [](int64_t x) { return x > -M52 / 8 && x < M52 / 8; };
  vp_assume(small(t.prev_date.impl) && small(t.offset.impl));
  int64_t g = vp_i64("g");
  vp_assume(small(g));
  vp_assert(t.from_physical_time_in_tick(t.to_physical_time_in_tick(time_value{g}, 1.), 1.).impl == g, "samples and model time round-trip");
}

VP_CONTRACT(mapping_scaled)
{
  // power-of-two speeds and ratios are exact: samples = model time * ratio / speed
  token_request t = any_token();
  const int64_t k = vp_concretize(vp_i64("k") & 3), m = vp_concretize(vp_i64("m") & 3);
  t.speed = (double)(1 << k);
  const double ratio = 1. / (double)(1 << m);
  auto small = [](int64_t x) { return x >= 0 && x < M52 / 64; };
  vp_assume(small(t.prev_date.impl) && small(t.date.impl) && small(t.offset.impl));
  vp_assume(t.date.impl >= t.prev_date.impl);
  int64_t g = vp_i64("g");
  vp_assume(small(g) && g >= t.prev_date.impl);
  vp_assert(t.to_physical_time_in_tick(time_value{g}, ratio) == (g - t.prev_date.impl + t.offset.impl) >> (k + m), "a model date maps to its sample, speed and ratio applied");
  vp_assert(t.start_date_to_physical(ratio) == t.prev_date.impl >> (k + m), "the start date maps to its sample");
  vp_assert(t.physical_start(ratio) == t.offset.impl >> (k + m), "the offset maps to its sample");
  vp_assert(t.physical_read_duration(ratio) == (t.date.impl - t.prev_date.impl) >> m, "read duration does not depend on the speed");
  vp_assert(t.physical_write_duration(ratio) == (t.date.impl - t.prev_date.impl) >> (k + m), "write duration is divided by the speed");
}

VP_CONTRACT(floor)
{
  double x = vp_f64("x");
  vp_assume(x > -4e18 && x < 4e18);
  int64_t f = constexpr_floor(x);
  vp_assert((double)f <= x, "the floor is not above the value");
  if(x > -4e15 && x < 4e15)
  {
    vp_cover("floor");
    vp_assert(x < (double)f + 1., "the floor is the greatest integer not above the value");
  }
  float y = vp_f32("y");
  vp_assume(y > -8e6f && y < 8e6f);
  int64_t g = constexpr_floor(y);
  vp_assert((float)g <= y && y < (float)g + 1.f, "floor of a float");
}

VP_CONTRACT(equality)
{
  token_request a = any_token();
  token_request b = a;
  auto nn = [](double d) { return d == d; };
  vp_assume(nn(a.speed) && nn(a.tempo) && nn(a.musical_start_last_signature) && nn(a.musical_start_last_bar) && nn(a.musical_start_position)
            && nn(a.musical_end_last_bar) && nn(a.musical_end_position));
  vp_assume(fin(a.prev_date.impl) && fin(a.date.impl) && fin(a.parent_duration.impl) && fin(a.offset.impl));
  vp_assert(a == b && !(a != b), "a tick equals its copy");
  int64_t which = vp_concretize(vp_i64("field") & 15);
  int64_t v = vp_i64("v");
  double w = vp_f64("w");
  bool changed = true;
  vp_assume(fin(v));
  switch(which)
  {
    case 0: changed = v != b.prev_date.impl; b.prev_date.impl = v; break;
    case 1: changed = v != b.date.impl; b.date.impl = v; break;
    case 2: changed = v != b.parent_duration.impl; b.parent_duration.impl = v; break;
    case 3: changed = v != b.offset.impl; b.offset.impl = v; break;
    case 4: changed = w != b.speed; b.speed = w; break;
    case 5: changed = w != b.tempo; b.tempo = w; break;
    case 6: changed = (uint16_t)v != b.signature.upper; b.signature.upper = v; break;
    case 7: changed = (uint16_t)v != b.signature.lower; b.signature.lower = v; break;
    case 8: changed = w != b.musical_start_last_signature; b.musical_start_last_signature = w; break;
    case 9: changed = w != b.musical_start_last_bar; b.musical_start_last_bar = w; break;
    case 10: changed = w != b.musical_start_position; b.musical_start_position = w; break;
    case 11: changed = w != b.musical_end_last_bar; b.musical_end_last_bar = w; break;
    case 12: changed = w != b.musical_end_position; b.musical_end_position = w; break;
    case 13: b.start_discontinuous = !b.start_discontinuous; break;
    case 14: b.end_discontinuous = !b.end_discontinuous; break;
    default: changed = false;
  }
  vp_assert((a == b) == !changed, "ticks are equal exactly when every field is equal");
  vp_assert((a != b) == changed, "!= is the negation of ==");
  vp_assert((b == a) == (a == b), "equality is symmetric");
}

VP_CONTRACT(simple_equality)
{
  token_request a = any_token();
  simple_token_request s{time_value{vp_i64("p")}, time_value{vp_i64("d")}, time_value{vp_i64("pd")}, time_value{vp_i64("o")}};
  vp_assume(fin(a.prev_date.impl) && fin(a.date.impl) && fin(a.offset.impl));
  vp_assume(fin(s.prev_date.impl) && fin(s.date.impl) && fin(s.offset.impl));
  bool e = a.prev_date.impl == s.prev_date.impl && a.date.impl == s.date.impl && a.offset.impl == s.offset.impl;
  vp_assert((a == s) == e && (a != s) == !e, "a simple tick stands for its dates and offset");
}

VP_CONTRACT(trim)
{
  token_request t = any_token();
  const token_request o = t;
  int64_t x = vp_i64("x");
  vp_assume(o.date.impl != 0 && o.prev_date.impl != 0);
  t.reduce_end_time(time_value{x});
  vp_assert(t.date.impl == x && t.prev_date.impl == o.prev_date.impl, "reducing the end moves only the end date");
  vp_assert(vp::same(t.musical_start_position, o.musical_start_position), "reducing the end keeps the musical start");
  if(x == o.date.impl && o.musical_end_position == o.musical_end_position)
    vp_assert(vp::same(t.musical_end_position, o.musical_end_position), "reducing to the same end changes nothing");
  if(x == 0 && o.musical_end_position > 0. && o.musical_end_position < 1e300)
    vp_assert(t.musical_end_position == 0., "the musical end scales with the end date");
  t = o;
  t.increase_start_time(time_value{x});
  vp_assert(t.prev_date.impl == x && t.date.impl == o.date.impl, "increasing the start moves only the start date");
  vp_assert(vp::same(t.musical_end_position, o.musical_end_position), "increasing the start keeps the musical end");
  if(x == o.prev_date.impl && o.musical_start_position == o.musical_start_position)
    vp_assert(vp::same(t.musical_start_position, o.musical_start_position), "increasing to the same start changes nothing");
}
