// Splitting a tick across loop boundaries.
// VP-OPT: split=1
// VP-OPT: unroll=1
// VP-FN: ossia::token_request::loop [dataflow/token_request.hpp]
#include <vp.hpp>
#include <ossia/dataflow/token_request.hpp>
using namespace ossia;
static const int64_t MAX = 1ll << 56;

struct G
{
  int64_t prev0, date0, L, S, off0, first;
  int64_t consumed;   // model time handed out so far
  int64_t calls, transports;
  bool pending;       // a chunk reached the loop end, transport must follow
  bool done;          // a chunk ended before the loop end
  double speed, tempo;
};
static G g;
static bool t_rem(int64_t from) { return from % g.L == (g.consumed == 0 ? g.first : 0); }
static bool t_pos(int64_t from) { return from == g.prev0 + g.consumed; }
static bool t_left(int64_t amount) { return amount == g.date0 - g.prev0 - g.consumed; }
static bool t_off(int64_t o) { return o == g.off0 + g.consumed; }
static bool t_flags() { return !g.pending && !g.done && g.consumed >= 0 && g.consumed <= g.date0 - g.prev0; }
static int64_t m_left() { return g.date0 - g.prev0 - g.consumed; }

VP_CONTRACT(split)
{
  vp_template("measure", (void*)&m_left);
  vp_template("i", (void*)&t_rem);
  vp_template("i", (void*)&t_pos);
  vp_template("i", (void*)&t_left);
  vp_template("i", (void*)&t_off);
  vp_template("", (void*)&t_flags);
  vp_config("terminates", 1);
  token_request t;
  t.prev_date.impl = g.prev0 = vp_i64("prev_date");
  t.date.impl = g.date0 = vp_i64("date");
  t.offset.impl = g.off0 = vp_i64("offset");
  g.L = vp_i64("loop_duration");
  g.S = vp_i64("start_offset");
  t.speed = g.speed = vp_f64("speed");
  t.tempo = g.tempo = vp_f64("tempo");
  t.signature.upper = vp_i16("upper");
  g.consumed = g.calls = g.transports = 0;
  g.pending = g.done = false;
  vp_assume(g.prev0 >= 0 && g.prev0 < MAX);
  vp_assume(g.date0 >= g.prev0 && g.date0 < MAX);
  vp_assume(g.off0 >= 0 && g.off0 < MAX);
  vp_assume(g.L > 0 && g.L < MAX);
  vp_assume(g.S >= 0 && g.S < MAX);
  g.first = g.prev0 % g.L;
  const auto sig = t.signature;
  t.loop(
      time_value{g.S}, time_value{g.L},
      [sig](const token_request& o) {
        const int64_t len = o.date.impl - o.prev_date.impl;
        vp_assert(!g.pending && !g.done, "a chunk is only delivered after the transport of the previous one");
        vp_assert(len > 0, "chunks are not empty");
        vp_assert(o.prev_date.impl == g.S + (g.consumed == 0 ? g.first : 0), "chunk starts at the current loop position");
        vp_assert(o.date.impl <= g.S + g.L, "chunk does not cross the loop end");
        vp_assert(o.offset.impl == g.off0 + g.consumed, "chunk is placed right after the previous one in the tick");
        vp_assert(vp::same(o.speed, g.speed) && vp::same(o.tempo, g.tempo) && o.signature == sig, "speed, tempo and signature are passed on");
        g.consumed += len;
        vp_assert(g.consumed <= g.date0 - g.prev0, "no more than the tick is delivered");
        g.calls++;
        if(o.date.impl == g.S + g.L)
          g.pending = true;
        else
          g.done = true;
      },
      [](time_value to) {
        vp_assert(g.pending, "transport only happens at the loop end");
        vp_assert(to.impl == g.S, "transport goes to the loop start");
        g.pending = false;
        g.transports++;
      });
  vp_assert(g.consumed == g.date0 - g.prev0, "the chunks add up to the tick");
  vp_assert(!g.pending, "every loop end is followed by a transport");
  vp_cover("end");
}
