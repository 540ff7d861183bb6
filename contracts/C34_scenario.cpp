// Scenarios: what happens when, what runs, what is disposed.
// VP-FLAGS: -std=c++17
// VP-FN: scenario::start, stop, pause, resume, state_impl, run_interval, make_happen, make_dispose, add_*, remove_*, get_roots [editor/scenario/scenario.cpp, detail/scenario_execution.cpp]
// VP-FN: scenario::process_this, trigger_sync, is_timesync_ready [detail/scenario_sync_execution.cpp, detail/scenario_sync_musical_execution.cpp]
// VP-FN: time_sync::*, time_event::*, time_interval::* as used by a scenario [editor/scenario/*.cpp]
// VP-ASSUME: the hash map dependency (tsl::hopscotch_map) is replaced by a stand-in with the same contract
// VP-ASSUME: bounded: graphs of up to 4 syncs, 6 events and 5 intervals; one to three ticks
// VP-OPT: unroll=24 ctors=0
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <vp_hopscotch.hpp>
#include <ossia/editor/scenario/scenario.cpp>
#include <ossia/editor/scenario/detail/scenario_execution.cpp>
#include <ossia/editor/scenario/detail/scenario_sync_execution.cpp>
#include <ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp>
#include <ossia/editor/scenario/time_interval.cpp>
#include <ossia/editor/scenario/time_process.cpp>
#include <ossia/editor/scenario/time_event.cpp>
#include <ossia/editor/scenario/time_sync.cpp>
#include <ossia/editor/curve/curve.cpp>
#include <ossia/editor/expression/expression.cpp>
#include <ossia/editor/expression/expression_atom.cpp>
#include <ossia/editor/expression/expression_bool.cpp>
#include <ossia/editor/expression/expression_composition.cpp>
#include <ossia/editor/expression/expression_generic.cpp>
#include <ossia/editor/expression/expression_not.cpp>
#include <ossia/editor/expression/expression_pulse.cpp>
#include <ossia/dataflow/graph_node.cpp>
#include <ossia/dataflow/port.cpp>
#include <ossia/dataflow/data.cpp>
#include <ossia/network/value/value.cpp>
using namespace ossia;
void scenario::offset_impl(time_value) { }
void scenario::transport_impl(time_value) { }


struct process final : time_process
{
  int states{}, starts{}, stops{}, pauses{}, resumes{};
  int64_t total{}, first_offset{-1};
  void state(const token_request& t) override
  {
    states++;
    if(t.date != t.prev_date && first_offset < 0)
      first_offset = t.offset.impl;
    total += t.date.impl - t.prev_date.impl;
  }
  void start() override { starts++; }
  void stop() override { stops++; }
  void pause() override { pauses++; }
  void resume() override { resumes++; }
  void offset_impl(time_value d) override { }
  void transport_impl(time_value d) override { }
};
struct event_log
{
  int pending{}, happened{}, disposed{}, reset{};
};
using sync_ptr = std::shared_ptr<time_sync>;
struct event
{
  std::shared_ptr<time_event> e;
  event_log* l;
};
struct interval
{
  std::shared_ptr<time_interval> i;
  process* p;
};
static bool state_is(const std::shared_ptr<time_event>& e, time_event::status s) { return ((int)e->get_status() & 3) == (int)s; }
static bool happened(const event& e) { return state_is(e.e, time_event::status::HAPPENED); }
static bool disposed(const event& e) { return state_is(e.e, time_event::status::DISPOSED); }
static bool waits(const event& e) { return !happened(e) && !disposed(e); }
struct world
{
  event_log logs[8];
  int n{};
  int64_t date{};
  std::shared_ptr<scenario> s = std::make_shared<scenario>();
  sync_ptr start = s->get_start_time_sync();
  sync_ptr sync()
  {
    auto x = std::make_shared<time_sync>();
    s->add_time_sync(x);
    return x;
  }
  event ev(const sync_ptr& x, bool condition = true)
  {
    auto l = &logs[n++];
    auto e = *x->emplace(x->get_time_events().end(), [l](time_event::status st) {
      switch(st)
      {
        case time_event::status::NONE: l->reset++; break;
        case time_event::status::PENDING: l->pending++; break;
        case time_event::status::HAPPENED: l->happened++; break;
        case time_event::status::DISPOSED: l->disposed++; break;
        default: break;
      }
    }, condition ? expressions::make_expression_true() : expressions::make_expression_false());
    return {e, l};
  }
  interval itv(const event& a, const event& b, int64_t min, int64_t max)
  {
    auto i = time_interval::create({}, *a.e, *b.e, time_value{min}, time_value{min}, time_value{max});
    auto p = std::make_shared<process>();
    i->add_time_process(p);
    s->add_time_interval(i);
    return {i, p.get()};
  }
  interval itv(const event& a, const event& b, int64_t d) { return itv(a, b, d, d); }
  void tick(int64_t d)
  {
    const auto prev = date;
    date = date + d;
    ((time_process&)*s).state(token_request{time_value{prev}, time_value{date}, time_value{}, time_value{}, 1., {}, 120.});
  }
};
static const int64_t M = int64_t(1) << 40;
static int64_t any_date(const char* n)
{
  const int64_t t = vp_i64(n);
  vp_assume(t > 0 && t < M);
  return t;
}
static int64_t between(int64_t x, int64_t lo, int64_t hi) { return x < lo ? lo : x > hi ? hi : x; }
static void told(const event& e)
{
  vp_assert(e.l->happened == (happened(e) ? 1 : 0) && e.l->disposed == (disposed(e) ? 1 : 0), "an event tells that it happened, or that it is disposed, once");
}
// the process of an interval runs from its start to its end, and gets all the time between
static void ran(const interval& x, int64_t total, bool started, bool stopped)
{
  vp_assert(x.p->total == total, "the processes of an interval get exactly the time that it lasts");
  vp_assert(x.p->starts == (started ? 1 : 0), "they start once, when its start event happens");
  if(started)
    vp_assert((x.p->stops > 0) == stopped, "and stop when its end event happens");
  if(!started)
    vp_assert(x.p->states == 0, "they get nothing before");
}

VP_CONTRACT(chain)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync();
  auto e0 = w.ev(w.start), e1 = w.ev(s1), e2 = w.ev(s2);
  const int64_t A = any_date("A"), B = any_date("B");
  auto a = w.itv(e0, e1, A), b = w.itv(e1, e2, B);
  w.s->start();
  vp_assert(a.p->starts == 0 && e0.l->happened == 0, "nothing happens before the first tick");
  int64_t T = 0;
  for(int k = 0; k < 2; k++)
  {
    const int64_t t = any_date("t");
    const int64_t before = T;
    w.tick(t);
    T += t;
    vp_assert(happened(e0), "the start happens at the first tick");
    vp_assert(happened(e1) == (T >= A) && waits(e1) == (T < A), "an interval of a fixed duration ends exactly after it");
    vp_assert(happened(e2) == (T >= A + B) && waits(e2) == (T < A + B), "the next one follows");
    told(e0); told(e1); told(e2);
    ran(a, between(T, 0, A), true, T >= A);
    ran(b, between(T - A, 0, B), T >= A, T >= A + B);
    if(T > A && before <= A && b.p->total > 0)
      vp_assert(before == A || b.p->first_offset == A - before, "and starts at its place in the tick");
  }
  w.s->stop();
  vp_assert(!a.i->running() && !b.i->running(), "stopping stops all");
  vp_assert(waits(e0) && waits(e1) && waits(e2), "and resets the events");
}
// everything happens again after a stop
VP_CONTRACT(again)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync();
  auto e0 = w.ev(w.start), e1 = w.ev(s1), e2 = w.ev(s2);
  const int64_t A = any_date("A"), B = any_date("B"), t = any_date("t"), u = any_date("u");
  auto a = w.itv(e0, e1, A), b = w.itv(e1, e2, B);
  w.s->start();
  w.tick(t);
  w.s->stop();
  w.date = 0;
  a.p->total = b.p->total = 0;
  a.p->starts = b.p->starts = a.p->stops = b.p->stops = 0;
  for(auto& l : w.logs)
    l = {};
  b.p->states = 0;
  w.s->start();
  w.tick(u);
  vp_assert(happened(e0) && happened(e1) == (u >= A) && happened(e2) == (u >= A + B), "a scenario that restarts begins at its start");
  ran(a, between(u, 0, A), true, u >= A);
  ran(b, between(u - A, 0, B), u >= A, u >= A + B);
}
// a false condition disposes what follows
static void condition(bool c)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync(), s3 = w.sync();
  auto e0 = w.ev(w.start), e1 = w.ev(s1, c), e2 = w.ev(s2), e3 = w.ev(s3);
  const int64_t A = any_date("A"), B = any_date("B"), C = any_date("C");
  auto a = w.itv(e0, e1, A), b = w.itv(e1, e2, B), d = w.itv(e2, e3, C);
  w.s->start();
  int64_t T = 0;
  for(int k = 0; k < (c ? 1 : 2); k++)
  {
    const int64_t t = any_date("t");
    w.tick(t);
    T += t;
    told(e0); told(e1); told(e2); told(e3);
    ran(a, between(T, 0, A), true, T >= A);
    if(c)
    {
      vp_assert(happened(e1) == (T >= A) && !disposed(e1) && !disposed(e2) && !disposed(e3), "an event with a true condition happens");
      ran(b, between(T - A, 0, B), T >= A, T >= A + B);
    }
    else
    {
      vp_assert(disposed(e1) == (T >= A) && !happened(e1) && !happened(e2) && !happened(e3), "an event with a false condition never happens");
      vp_assert(disposed(e2) == (T >= A) && disposed(e3) == (T >= A), "what only follows from it is disposed with it");
      vp_assert(b.p->starts == 0 && d.p->starts == 0 && b.p->total == 0 && d.p->total == 0, "and never runs");
    }
  }
}
VP_CONTRACT(condition_true) { condition(true); }
VP_CONTRACT(condition_false) { condition(false); }
// two branches with conditions, which join
static void branches(bool ca, bool cb)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync();
  auto e0 = w.ev(w.start), ea = w.ev(s1, ca), eb = w.ev(s1, cb), e2 = w.ev(s2);
  const int64_t A = any_date("A"), B = any_date("B");
  auto a0 = w.itv(e0, ea, A), b0 = w.itv(e0, eb, A);
  auto a = w.itv(ea, e2, B), b = w.itv(eb, e2, B);
  w.s->start();
  const int64_t T = any_date("t");
  w.tick(T);
  told(ea); told(eb); told(e2);
  vp_assert(happened(ea) == (ca && T >= A) && disposed(ea) == (!ca && T >= A), "each event follows its own condition");
  vp_assert(happened(eb) == (cb && T >= A) && disposed(eb) == (!cb && T >= A), "each event follows its own condition");
  ran(a, ca ? between(T - A, 0, B) : 0, ca && T >= A, T >= A + B);
  ran(b, cb ? between(T - A, 0, B) : 0, cb && T >= A, T >= A + B);
  vp_assert(happened(e2) == ((ca || cb) && T >= A + B), "a join waits only for the branches that are not disposed");
  vp_assert(disposed(e2) == (!ca && !cb && T >= A), "and is disposed exactly when all are");
}
VP_CONTRACT(branches_both) { branches(true, true); }
VP_CONTRACT(branches_first) { branches(true, false); }
VP_CONTRACT(branches_second) { branches(false, true); }
// all branches are disposed
VP_CONTRACT(branches_none)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync(), s3 = w.sync();
  auto e0 = w.ev(w.start), ea = w.ev(s1, false), eb = w.ev(s1, false), e2 = w.ev(s2), e3 = w.ev(s3);
  const int64_t A = any_date("A"), B = any_date("B");
  auto a0 = w.itv(e0, ea, A), b0 = w.itv(e0, eb, A);
  auto a = w.itv(ea, e2, B), b = w.itv(eb, e2, B), c = w.itv(e2, e3, B);
  w.s->start();
  int64_t T = 0;
  for(int k = 0; k < 2; k++)
  {
    const int64_t t = any_date("t");
    w.tick(t);
    T += t;
    told(ea); told(eb); told(e2); told(e3);
    vp_assert(disposed(ea) == (T >= A) && disposed(eb) == (T >= A), "each event follows its own condition");
    vp_assert(!happened(ea) && !happened(eb) && !happened(e2) && !happened(e3), "what is disposed never happens");
    vp_assert(disposed(e2) == (T >= A) && disposed(e3) == (T >= A), "a join is disposed exactly when all its branches are");
    vp_assert(a.p->starts == 0 && b.p->starts == 0 && c.p->starts == 0, "and nothing runs");
  }
}
// a disposed branch, and two others of different durations
static void three(bool first)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync();
  auto e0 = w.ev(w.start), e1 = w.ev(s1, false), e2 = w.ev(s2);
  const int64_t A = 10, t = 20, B = any_date("B"), C = any_date("C"), u = any_date("u");
  vp_assume(t < B && B < C && t + u >= B);
  auto a = w.itv(e0, e1, A);
  interval b, c, d;
  if(first)
    d = w.itv(e1, e2, A);
  b = w.itv(e0, e2, B);
  c = w.itv(e0, e2, C);
  if(!first)
    d = w.itv(e1, e2, A);
  w.s->start();
  w.tick(t);
  vp_assert(disposed(e1) && waits(e2), "a join waits for all the branches that are not disposed");
  w.tick(u);
  const bool end = t + u >= C;
  vp_assert(disposed(e1) && happened(e2) == end && !disposed(e2), "a join waits for all the branches that are not disposed");
  vp_assert(b.p->total == B && c.p->total == (end ? C : t + u) && d.p->starts == 0, "which go on until then");
}
VP_CONTRACT(three_first) { three(true); }
VP_CONTRACT(three_last) { three(false); }
// events of one sync, one of which is already disposed
VP_CONTRACT(disposed_stays)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync(), s3 = w.sync();
  auto e0 = w.ev(w.start), e1 = w.ev(s1, false), x = w.ev(s2), y = w.ev(s2), e3 = w.ev(s3);
  const int64_t A = any_date("A"), B = any_date("B");
  vp_assume(A < B);
  auto a = w.itv(e0, e1, A), b = w.itv(e0, y, B), c = w.itv(e1, x, A), d = w.itv(x, e3, A);
  w.s->start();
  int64_t T = 0;
  for(int k = 0; k < 2; k++)
  {
    const int64_t t = any_date("t");
    if(k == 0)
      vp_assume(A <= t && t < B);
    w.tick(t);
    T += t;
    told(e1); told(x); told(y);
    vp_assert(disposed(e1) == (T >= A) && disposed(x) == (T >= A), "what follows from a disposed event is disposed");
    vp_assert(happened(y) == (T >= B), "the others happen");
    vp_assert(d.p->starts == 0 && c.p->starts == 0 && d.p->total == 0, "a disposed event never happens");
  }
}
// branches of different durations
static void join(bool same, bool order, bool split)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync();
  auto e0 = w.ev(w.start), e1 = w.ev(s1), f = same ? e1 : w.ev(s1), e2 = w.ev(s2);
  const int64_t A = any_date("A"), B = any_date("B"), C = any_date("C");
  auto a = w.itv(e0, e1, A), b = w.itv(e0, f, B), c = w.itv(e1, e2, C);
  vp_assume(order ? A <= B : A > B);
  const int64_t J = order ? B : A, I = order ? A : B;
  w.s->start();
  int64_t T = 0;
  for(int k = 0; k < 1 + split; k++)
  {
    const int64_t t = any_date("t");
    if(split && k == 0)
      vp_assume(I <= t && t < J); // only one of the branches is over
    w.tick(t);
    T += t;
    told(e1); told(f);
    vp_assert(happened(e1) == (T >= J) && happened(f) == (T >= J), "a synchronisation waits for all that leads to it");
    ran(a, between(T, 0, A), true, T >= J);
    ran(b, between(T, 0, B), true, T >= J);
    vp_assert(c.p->starts == (T >= J ? 1 : 0), "what follows starts then");
    vp_assert(c.p->total >= 0 && c.p->total <= C, "and never lasts longer than its maximum");
    if(T < J)
      vp_assert(c.p->total == 0 && c.p->states == 0, "and not before");
  }
}
VP_CONTRACT(join_same_first) { join(true, true, false); }
VP_CONTRACT(join_same_first_split) { join(true, true, true); }
VP_CONTRACT(join_same_second) { join(true, false, false); }
VP_CONTRACT(join_other_first) { join(false, true, false); }
VP_CONTRACT(join_other_second) { join(false, false, false); }
VP_CONTRACT(join_other_second_split) { join(false, false, true); }
// flexible intervals: triggers between the minimum and the maximum
static void trigger(int asked)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync();
  s1->set_expression(expressions::make_expression_false());
  auto e0 = w.ev(w.start), e1 = w.ev(s1), e2 = w.ev(s2);
  const int64_t min = any_date("min"), max = any_date("max"), B = 8 * M;
  vp_assume(min <= max);
  auto a = w.itv(e0, e1, min, max), b = w.itv(e1, e2, B);
  w.s->start();
  int64_t T = 0, end = -1, start = -1;
  bool evaluating = false;
  for(int k = 0; k < 3; k++)
  {
    const int64_t t = any_date("t");
    if(k == 0)
      vp_assume(t < max);
    const bool request = k == asked;
    if(request)
      s1->start_trigger_request();
    const bool open = evaluating;
    w.tick(t);
    T += t;
    if(end < 0)
    {
      if(T >= max)
      {
        end = max;
        start = max;
      }
      else if(T >= min && request && open)
      {
        end = T;
        start = T;
      }
      evaluating = T >= min && end < 0;
    }
    told(e1); told(e2);
    vp_assert(happened(e1) == (end >= 0), "a trigger happens when it is asked for after the minimum, or at the maximum");
    vp_assert(s1->is_evaluating() == evaluating, "and waits for it in between");
    ran(a, end >= 0 ? end : T, true, end >= 0);
    ran(b, end >= 0 ? between(T - start, 0, B) : 0, end >= 0, end >= 0 && T - start >= B);
  }
}
// asked for at once, and later
VP_CONTRACT(trigger_early) { trigger(1); }
VP_CONTRACT(trigger_late) { trigger(2); }
VP_CONTRACT(trigger_expression)
{
  world w;
  auto s1 = w.sync(), s2 = w.sync();
  // an expression whose result is known
  const bool r = vp_fork(vp_bool("r"));
  s1->set_expression(expressions::make_expression_atom(value{1}, expressions::comparator::EQUAL, value{r ? 1 : 2}));
  auto e0 = w.ev(w.start), e1 = w.ev(s1), e2 = w.ev(s2);
  const int64_t min = any_date("min"), max = any_date("max"), B = any_date("B");
  vp_assume(min <= max);
  auto a = w.itv(e0, e1, min, max), b = w.itv(e1, e2, B);
  w.s->start();
  int64_t T = 0, end = -1;
  for(int k = 0; k < 2; k++)
  {
    const int64_t t = any_date("t");
    w.tick(t);
    T += t;
    if(end < 0)
    {
      if(T >= max)
        end = max;
      else if(r && T >= min)
        end = T;
    }
    told(e1);
    vp_assert(happened(e1) == (end >= 0), "a trigger happens when its expression is true after the minimum, or at the maximum");
    ran(a, end >= 0 ? end : T, true, end >= 0);
    ran(b, end >= 0 ? between(T - end, 0, B) : 0, end >= 0, end >= 0 && T - end >= B);
    vp_assert(s1->is_observing_expression() == (end < 0 && T >= min), "the expression is observed exactly while the trigger waits");
  }
}
VP_CONTRACT(infinite)
{
  world w;
  auto s1 = w.sync();
  auto e0 = w.ev(w.start), e1 = w.ev(s1);
  s1->set_expression(expressions::make_expression_false());
  const int64_t min = any_date("min"), t = any_date("t"), u = any_date("u");
  auto i = time_interval::create({}, *e0.e, *e1.e, time_value{min}, time_value{min}, Infinite);
  auto p = std::make_shared<process>();
  i->add_time_process(p);
  w.s->add_time_interval(i);
  w.s->start();
  w.tick(t);
  w.tick(u);
  vp_assert(waits(e1) && p->total == t + u, "an interval without a maximum goes on until its trigger");
}
VP_CONTRACT(pausing)
{
  world w;
  auto s1 = w.sync();
  auto e0 = w.ev(w.start), e1 = w.ev(s1);
  const int64_t A = any_date("A");
  auto a = w.itv(e0, e1, A);
  w.s->start();
  w.tick(any_date("t"));
  w.s->pause();
  w.s->resume();
  vp_assert(a.p->pauses == 1 && a.p->resumes == 1, "pausing and resuming are told to the processes");
}
// the contents of a scenario
VP_CONTRACT(contents)
{
  world w;
  vp_assert(w.s->get_time_syncs().size() == 1 && w.start->is_start() && w.s->get_start_time_sync() == w.start, "a scenario has its start");
  auto s1 = w.sync();
  auto e0 = w.ev(w.start), e1 = w.ev(s1);
  auto a = w.itv(e0, e1, 12), b = w.itv(e0, e1, 13);
  w.s->add_time_sync(s1);
  w.s->add_time_interval(a.i);
  vp_assert(w.s->get_time_syncs().size() == 2 && w.s->get_time_intervals().size() == 2, "adding twice is adding once");
  w.s->remove_time_interval(a.i);
  vp_assert(w.s->get_time_intervals().size() == 1 && w.s->get_time_intervals()[0] == b.i, "removing an interval keeps the others");
  w.s->remove_time_interval(a.i);
  vp_assert(w.s->get_time_intervals().size() == 1, "once");
  auto r = w.s->get_roots();
  vp_assert(r.size() == 1 && r[0] == w.start.get(), "the roots are the starts");
  w.s->remove_time_interval(b.i);
  w.s->remove_time_sync(s1);
  vp_assert(w.s->get_time_syncs().size() == 1 && w.s->get_time_syncs()[0] == w.start, "removing a sync keeps the others");
}
