// Time intervals: durations, ticks, what their processes get.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=12 ctors=0
// VP-FN: time_interval::* [editor/scenario/time_interval.cpp, time_interval.hpp]
// VP-FN: time_process::*, looping_process::state [editor/scenario/time_process.cpp, time_process.hpp]
// VP-FN: graph_node::request [dataflow/graph_node.hpp]
// VP-ASSUME: dates and durations of ticks are whole numbers below 2^40, tick speeds are powers of two (as in C03)
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/editor/scenario/time_interval.cpp>
#include <ossia/editor/scenario/time_process.cpp>
#include <ossia/editor/scenario/time_event.cpp>
#include <ossia/editor/scenario/time_sync.cpp>
#include <ossia/editor/curve/curve.cpp>
#include <ossia/editor/expression/expression.cpp>
#include <ossia/editor/expression/expression_atom.cpp>
#include <ossia/editor/expression/expression_bool.cpp>
#include <ossia/editor/expression/expression_composition.cpp>
#include <ossia/editor/expression/expression_generic.cpp>
#include <ossia/editor/expression/expression_not.cpp>
#include <ossia/editor/expression/expression_pulse.cpp>
#include <ossia/dataflow/graph_node.cpp>
#include <ossia/dataflow/port.cpp>
#include <ossia/dataflow/data.cpp>
#include <ossia/network/value/value.cpp>
using namespace ossia;

struct process final : time_process
{
  int states{}, starts{}, stops{}, pauses{}, resumes{}, offsets{}, transports{}, mutes{};
  bool muted{};
  token_request last{};
  time_value date{};
  void state(const token_request& t) override { states++; last = t; }
  void start() override { starts++; }
  void stop() override { stops++; }
  void pause() override { pauses++; }
  void resume() override { resumes++; }
  void mute_impl(bool b) override { mutes++; muted = b; }
  void offset_impl(time_value d) override { offsets++; date = d; }
  void transport_impl(time_value d) override { transports++; date = d; }
};
struct world
{
  std::shared_ptr<time_sync> s1 = std::make_shared<time_sync>(), s2 = std::make_shared<time_sync>();
  std::shared_ptr<time_event> e1, e2;
  std::shared_ptr<time_interval> itv;
  std::shared_ptr<process> p = std::make_shared<process>();
  int calls{};
  bool running{};
  time_value told{};
  explicit world(time_value nominal = Infinite, time_value min = Zero, time_value max = Infinite)
  {
    e1 = *s1->emplace(s1->get_time_events().begin(), {});
    e2 = *s2->emplace(s2->get_time_events().begin(), {});
    itv = time_interval::create([this](bool r, time_value d) { calls++; running = r; told = d; }, *e1, *e2, nominal, min, max);
    itv->add_time_process(p);
  }
};
VP_CONTRACT(create)
{
  world w;
  vp_assert(&w.itv->get_start_event() == w.e1.get() && &w.itv->get_end_event() == w.e2.get(), "an interval is between its events");
  vp_assert(w.e1->next_time_intervals().size() == 1 && w.e2->previous_time_intervals().size() == 1 && w.e1->previous_time_intervals().empty(), "which know it");
}

static time_value any_time(const char* n)
{
  const int64_t t = vp_i64(n);
  vp_assume(t >= 0 && t < (int64_t(1) << 62));
  return t > (int64_t(1) << 61) ? Infinite : time_value{t};
}
static const int64_t M = int64_t(1) << 40;
static int64_t date(const char* n)
{
  const int64_t t = vp_i64(n);
  vp_assume(t >= 0 && t < M);
  return t;
}
VP_CONTRACT(durations)
{
  const time_value nom = any_time("nom"), min = any_time("min"), max = any_time("max");
  vp_assume(min <= nom && nom <= max);
  world w{nom, min, max};
  auto& i = *w.itv;
  vp_assert(i.get_nominal_duration() == nom && i.get_min_duration() == min && i.get_max_duration() == max, "an interval has the given durations");
  const time_value d = any_time("d");
  switch(vp_concretize(vp_i8("which") & 3))
  {
    case 0: i.set_nominal_duration(d); vp_assert(i.get_nominal_duration() == d, "the nominal duration is set"); vp_assert(i.get_min_duration() == (d < min ? d : min) && i.get_max_duration() == (d > max ? d : max), "the other ones only make room for it"); break;
    case 1: i.set_min_duration(d); vp_assert(i.get_min_duration() == d, "the minimal duration is set"); vp_assert(i.get_nominal_duration() == (d > nom ? d : nom) && i.get_max_duration() == (d > max ? d : max), "the other ones only make room for it"); break;
    case 2: i.set_max_duration(d); vp_assert(i.get_max_duration() == d, "the maximal duration is set"); vp_assert(i.get_nominal_duration() == (d < nom ? d : nom) && i.get_min_duration() == (d < min ? d : min), "the other ones only make room for it"); break;
  }
  vp_assert(i.get_min_duration() <= i.get_nominal_duration() && i.get_nominal_duration() <= i.get_max_duration(), "the durations stay in order");
}
static token_request parent()
{
  token_request t;
  t.speed = 1.;
  t.tempo = vp_f64("tempo");
  vp_assume(t.tempo > 1. && t.tempo < 1000.);
  t.signature = {(uint16_t)vp_i16("up"), (uint16_t)vp_i16("low")};
  t.musical_start_last_signature = vp_f64("m0");
  t.musical_start_last_bar = vp_f64("m1");
  t.musical_start_position = vp_f64("m2");
  t.musical_end_last_bar = vp_f64("m3");
  t.musical_end_position = vp_f64("m4");
  auto number = [](double x) { return x == x; };
  vp_assume(number(t.musical_start_last_signature) && number(t.musical_start_last_bar) && number(t.musical_start_position) && number(t.musical_end_last_bar) && number(t.musical_end_position));
  return t;
}
static bool same_music(const token_request& a, const token_request& b)
{
  return vp::same(a.musical_start_last_signature, b.musical_start_last_signature) && vp::same(a.musical_start_last_bar, b.musical_start_last_bar) && vp::same(a.musical_start_position, b.musical_start_position)
         && vp::same(a.musical_end_last_bar, b.musical_end_last_bar) && vp::same(a.musical_end_position, b.musical_end_position);
}
// a tick of an interval: kind 0 tick, 1 tick_offset, 2 precomputed, 3 current
static void tick_contract(int kind)
{
  world w{time_value{M}};
  auto& i = *w.itv;
  auto q = std::make_shared<process>();
  i.add_time_process(q);
  const bool enabled = vp_fork(vp_bool("enabled"));
  q->enable(enabled);
  const int64_t start = date("start"), d = date("d"), off = date("off");
  vp_assume(start < M);
  i.set_offset(time_value{start});
  i.start();
  vp_assert(i.running() && i.get_date() == time_value{start} && w.p->starts == 1 && q->starts == enabled, "starting starts the enabled processes, at the offset");
  static const double speeds[] = {1., 2., 0.5, 0.25}, parents[] = {2., 0.25, 1., 0.5}, ratios[] = {4., 1., 0.5, 2.};
  const int which = vp_concretize(vp_i8("which") & 3);
  const double speed = speeds[which], ps = parents[which], ratio = kind == 0 ? ratios[which] : 1.;
  i.set_speed(speed);
  i.set_parent_speed(ps);
  const token_request par = parent();
  const int n = w.calls;
  switch(kind)
  {
    case 0: i.tick(time_value{d}, par, ratio); break;
    case 1: i.tick_offset(time_value{d}, time_value{off}, par); break;
    case 2: i.tick_offset_speed_precomputed(time_value{d}, time_value{off}, par); break;
    default: i.tick_current(time_value{off}, par); break;
  }
  const int64_t moved = kind == 3 ? 0 : kind == 2 ? d : kind == 1 ? (int64_t)std::ceil(d * speed) : (int64_t)std::ceil(d * speed / ratio);
  vp_assert(i.get_date() == time_value{start + moved}, "a tick moves the interval by its duration, at its speed");
  vp_assert(w.p->states == 1 && q->states == enabled, "each enabled process gets one tick, others none");
  vp_assert(w.calls == n + 1 && w.running && w.told == i.get_date(), "the listener is told the new date");
  auto& t = w.p->last;
  vp_assert(t.prev_date == time_value{start} && t.date == i.get_date(), "the tick goes from the old date to the new one");
  vp_assert(t.parent_duration == time_value{M} && t.offset == time_value{kind == 0 ? 0 : off}, "with the duration of the interval and the offset in the parent's tick");
  vp_assert(t.speed == ps * speed && t.tempo == par.tempo * speed && t.signature == par.signature, "with the speed, tempo and signature of the parent");
  vp_assert(same_music(t, par), "with the musical position of the parent");
  vp_assert(!enabled || q->last == t, "every process gets the same tick");
  vp_assert(i.node->requested_tokens.size() == 1 && i.node->requested_tokens[0] == t, "the node of the interval gets it too");
  i.tick_current(time_value{off}, par);
  vp_assert(w.p->states == 2 && w.p->last.prev_date == t.date && w.p->last.date == t.date, "the next tick starts where this one stopped");
}
VP_CONTRACT(tick) { tick_contract(0); }
VP_CONTRACT(tick_offset) { tick_contract(1); }
VP_CONTRACT(tick_precomputed) { tick_contract(2); }
VP_CONTRACT(tick_current) { tick_contract(3); }
VP_CONTRACT(rounding)
{
  // ceil(d * speed / ratio), in whole numbers
  world w{time_value{M}};
  auto& i = *w.itv;
  const int which = vp_concretize(vp_i8("which") & 3);
  const int64_t d = date("d");
  i.set_speed(which == 0 ? 2. : which == 1 ? 0.5 : 0.25);
  const bool offset = vp_fork(vp_bool("offset"));
  if(offset) i.tick_offset(time_value{d}, 0_tv, parent());
  else i.tick(time_value{d}, parent(), which == 3 ? 2. : 1.);
  const int64_t den = which == 1 ? 2 : which == 3 && !offset ? 8 : 4;
  vp_assert(i.get_date() == time_value{which == 0 ? 2 * d : (d + den - 1) / den}, "a tick moves the interval by its duration, at its speed, rounded up");
}
VP_CONTRACT(before_start)
{
  world w{time_value{M}};
  const int64_t start = date("start"), d = date("d");
  vp_assume(start > 0 && d < start);
  w.itv->offset(time_value{-start});
  const int n = w.calls;
  w.itv->tick_offset(time_value{d}, 0_tv, parent());
  vp_assert(w.itv->get_date() == time_value{d - start}, "time passes before the start of the interval");
  vp_assert(w.p->states == 0 && w.itv->node->requested_tokens.empty() && w.calls == n, "and nothing is executed");
}
VP_CONTRACT(lifecycle)
{
  world w{time_value{M}};
  auto& i = *w.itv;
  const int64_t off = date("off"), to = date("to");
  i.set_offset(time_value{off});
  vp_assert(!i.running(), "an interval does not run at first");
  i.start();
  vp_assert(i.running() && i.get_date() == time_value{off} && w.p->starts == 1 && w.running && w.told == time_value{off}, "starting");
  auto q = std::make_shared<process>();
  i.add_time_process(q);
  vp_assert(q->starts == 1 && i.get_time_processes().size() == 2, "a process added to a running interval starts");
  i.pause();
  vp_assert(w.p->pauses == 1 && q->pauses == 1, "pausing pauses every process");
  i.resume();
  vp_assert(w.p->resumes == 1 && q->resumes == 1, "resuming resumes every process");
  i.transport(time_value{to});
  vp_assert(i.get_date() == time_value{to} && i.get_offset() == time_value{to} && w.p->transports == 1 && q->transports == 1 && q->date == time_value{to}, "transporting moves every process");
  vp_assert(w.running && w.told == time_value{to}, "and is told");
  i.stop();
  vp_assert(!i.running() && i.get_date() == 0_tv && w.p->stops == 1 && q->stops == 1 && !w.running && w.told == 0_tv, "stopping stops every process");
  i.offset(time_value{off});
  vp_assert(i.get_date() == time_value{off} && i.get_offset() == time_value{off} && w.p->offsets == 1 && w.p->date == time_value{off} && !w.running, "offsetting moves every process");
  i.remove_time_process(q.get());
  vp_assert(i.get_time_processes().size() == 1 && i.get_time_processes()[0] == w.p, "a removed process is not in the interval any more");
  i.start();
  vp_assert(i.running() && w.p->starts == 2 && q->starts == 1, "nor started");
}
VP_CONTRACT(start_after_end)
{
  const int64_t nom = date("nom"), off = date("off");
  world w{time_value{nom}};
  w.itv->set_offset(time_value{off});
  w.itv->start();
  vp_assert(w.itv->running() == (off < nom) && w.p->starts == (off < nom), "an interval starts exactly if its offset is before its end");
}
VP_CONTRACT(processes)
{
  world w{time_value{M}};
  auto& i = *w.itv;
  i.add_time_process(w.p);
  i.add_time_process(nullptr);
  vp_assert(i.get_time_processes().size() == 1, "a process is in an interval once");
  const bool m = vp_fork(vp_bool("m"));
  i.mute(m);
  vp_assert(w.p->mutes == 1 && w.p->muted == m && w.p->unmuted() == !m && i.node->muted() == m, "muting mutes every process");
  auto q = std::make_shared<process>();
  i.add_time_process(q);
  vp_assert(q->unmuted() == !m, "a process added to a muted interval is muted");
  i.tick_current(0_tv, parent());
  vp_assert(w.p->states == 1 && q->states == 1, "a muted process is executed");
  i.cleanup();
  vp_assert(i.get_time_processes().empty(), "cleaned up");
}
VP_CONTRACT(signatures)
{
  // the signature is the last one set at or before the date
  world w{time_value{M}};
  auto& i = *w.itv;
  const int64_t b = date("b"), d = date("d");
  vp_assume(b > 0);
  time_signature_map m;
  m[0_tv] = {3, 4};
  m[time_value{b}] = {7, 8};
  if(vp_fork(vp_bool("signature")))
  {
    i.set_time_signature_map(m);
    i.set_quarter_duration(1024.);
    vp_config("fpabs", 1);
    i.offset(time_value{d});
    i.tick_current(0_tv, parent());
    vp_assert(w.p->last.signature == (d < b ? time_signature{3, 4} : time_signature{7, 8}), "the signature is the one of the date");
    vp_assert(i.current_transport_info().signature == w.p->last.signature && i.current_transport_info().date == time_value{d}, "the transport has it too");
  }
  else
  {
    const token_request par = parent();
    i.tick_current(0_tv, par);
    vp_assert(w.p->last.signature == par.signature && same_music(w.p->last, par), "without signatures, it is the parent's");
  }
}
VP_CONTRACT(music)
{
  // bars: a quarter is 1024 units
  world w{time_value{M}};
  auto& i = *w.itv;
  time_signature_map m;
  const int64_t b = 4096 * (int64_t)(vp_i16("b") & 1023);
  const time_signature s0 = vp_fork(vp_bool("s0")) ? time_signature{4, 4} : time_signature{2, 4}, s1 = vp_fork(vp_bool("s1")) ? time_signature{4, 8} : time_signature{1, 4};
  m[0_tv] = s0;
  if(b > 0)
    m[time_value{b}] = s1;
  i.set_time_signature_map(m);
  i.set_quarter_duration(1024.);
  const int64_t d = date("d") & 0xffffff, n = date("n") & 0xffffff;
  i.offset(time_value{d});
  i.tick_offset(time_value{n}, 0_tv, parent());
  auto& t = w.p->last;
  auto bar = [&](int64_t x) {
    const time_signature s = b > 0 && x >= b ? s1 : s0;
    const int64_t len = 1024 * 4 * s.upper / s.lower, from = b > 0 && x >= b ? b : 0;
    return from + (x - from) / len * len;
  };
  vp_assert(t.musical_start_position * 1024. == (double)d && t.musical_end_position * 1024. == (double)(d + n), "the musical position is the date in quarters");
  vp_assert(t.musical_start_last_signature * 1024. == (double)(b > 0 && d >= b ? b : 0), "the last change of signature");
  vp_assert(t.musical_start_last_bar * 1024. == (double)bar(d), "the start of the bar at the start of the tick");
  vp_assert(t.musical_end_last_bar * 1024. == (double)bar(d + n), "the start of the bar at the end of the tick");
}
struct looped final : looping_process<looped>
{
  int states{}, transports{};
  token_request last{};
  time_value to{};
  void state_impl(const token_request& t) { states++; last = t; }
  void offset_impl(time_value) override { }
  void transport_impl(time_value t) override { transports++; to = t; }
};
VP_CONTRACT(looping)
{
  looped p;
  const int64_t start = date("start"), d = date("d"), n = date("n"), len = date("len");
  vp_assume(len > 0 && n > 0);
  token_request t;
  t.prev_date = time_value{d};
  t.date = time_value{d + n};
  p.set_start_offset(time_value{start});
  p.set_loop_duration(time_value{len});
  const bool loops = vp_fork(vp_bool("loops"));
  p.set_loops(loops);
  if(!loops)
  {
    p.state(t);
    vp_assert(p.states == 1 && p.transports == 0 && p.last.prev_date == time_value{d + start} && p.last.date == time_value{d + n + start}, "a process that does not loop is shifted");
  }
  else
  {
    vp_assume(d + n < 2 * len && d < len && n < len);
    p.state(t);
    const bool turn = d + n >= len;
    vp_assert(p.transports == turn && (!turn || p.to == time_value{start}), "a process that loops goes back to its start");
    vp_assert(p.states == (turn && d + n > len ? 2 : 1) && p.last.date == time_value{start + (!turn || d + n == len ? d + n : d + n - len)}, "and plays the rest from there");
  }
}
VP_CONTRACT(sync_date)
{
  // date of a sync: durations on the way to it
  const int64_t a = date("a"), b = date("b");
  world w{time_value{a}};
  auto s3 = std::make_shared<time_sync>();
  auto e3 = *s3->emplace(s3->get_time_events().begin(), {});
  auto i2 = time_interval::create({}, *w.e2, *e3, time_value{b});
  vp_assert(w.s1->get_date() == 0_tv && w.s2->get_date() == time_value{a}, "the date of a sync is the duration before it");
  vp_assert(s3->get_date() == time_value{b > 0 ? a + b : 0}, "and adds up");
}
