// Expressions: truth value, update, listeners, comparison.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=8 ctors=0
// VP-FN: expressions::evaluate / update / add_callback / remove_callback / callback_count / operator== / operator!= [editor/expression/expression.cpp]
// VP-FN: expression_atom::* [editor/expression/expression_atom.cpp]
// VP-FN: expression_composition::* [editor/expression/expression_composition.cpp]
// VP-FN: expression_not::* [editor/expression/expression_not.cpp]
// VP-FN: expression_pulse::* [editor/expression/expression_pulse.cpp]
// VP-FN: expression_bool::* [editor/expression/expression_bool.cpp, expression_bool.hpp]
// VP-FN: callback_container::add_callback / remove_callback / send / callbacks_clear [detail/callback_container.hpp]
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/editor/expression/expression.cpp>
#include <ossia/editor/expression/expression_atom.cpp>
#include <ossia/editor/expression/expression_bool.cpp>
#include <ossia/editor/expression/expression_composition.cpp>
#include <ossia/editor/expression/expression_generic.cpp>
#include <ossia/editor/expression/expression_not.cpp>
#include <ossia/editor/expression/expression_pulse.cpp>
#include <future>
#include <ossia/network/base/parameter.cpp>
#include <ossia/network/value/value.cpp>
using namespace ossia;
using namespace ossia::expressions;

// a parameter that keeps its value, as a protocol would
struct param final : net::parameter_base
{
  param() : parameter_base{*(net::node_base*)this} { }
  ossia::value val;
  domain* dom{};
  int pulled = 0;
  void pull_value() override { pulled++; }
  ossia::value value() const override { return val; }
  parameter_base& push_value(const ossia::value& v) override { set_value(v); return *this; }
  parameter_base& push_value(ossia::value&& v) override { set_value(v); return *this; }
  parameter_base& push_value() override { return *this; }
  ossia::value set_value(const ossia::value& v) override { val = v; send(v); return v; }
  ossia::value set_value(ossia::value&& v) override { val = v; send(v); return v; }
  val_type get_value_type() const override { return val.get_type(); }
  parameter_base& set_value_type(val_type) override { return *this; }
  access_mode get_access() const override { return access_mode::BI; }
  parameter_base& set_access(access_mode) override { return *this; }
  const domain& get_domain() const override { return *dom; }
  parameter_base& set_domain(const domain&) override { return *this; }
  bounding_mode get_bounding() const override { return bounding_mode::FREE; }
  parameter_base& set_bounding(bounding_mode) override { return *this; }
};

static bool compare(const value& a, comparator c, const value& b)
{
  switch(c)
  {
    case comparator::EQUAL: return a == b;
    case comparator::DIFFERENT: return a != b;
    case comparator::GREATER: return a > b;
    case comparator::LOWER: return a < b;
    case comparator::GREATER_EQUAL: return a >= b;
    default: return a <= b;
  }
}
static comparator any_comparator()
{
  int c = vp_i8("cmp");
  vp_assume(c >= 0 && c <= 5);
  return (comparator)vp_concretize(c);
}
static binary_operator any_operator()
{
  int c = vp_i8("op");
  vp_assume(c >= 0 && c <= 2);
  return (binary_operator)vp_concretize(c);
}
static bool compose(bool a, binary_operator o, bool b)
{
  return o == binary_operator::AND ? (a && b) : o == binary_operator::OR ? (a || b) : (a != b);
}

VP_CONTRACT(atom_values)
{
  const value a = vp::any_of(vp::any_type("ta")), b = vp::any_of(vp::any_type("tb"));
  const comparator c = any_comparator();
  const bool valid = a.valid() && b.valid();
  bool threw = false;
  try
  {
    auto e = make_expression_atom(a, c, b);
    vp_assert(evaluate(*e) == compare(a, c, b), "an atom holds exactly when its comparison does");
    update(*e);
    vp_assert(evaluate(*e) == compare(a, c, b), "updating an atom of values changes nothing");
    vp_assert(callback_count(*e) == 0, "nobody listens at first");
  }
  catch(const std::runtime_error&)
  {
    threw = true;
  }
  vp_assert(threw == !valid, "an atom is refused exactly when one of its values is unset");
}
VP_CONTRACT(bool)
{
  const bool b = vp_bool("b");
  auto e = make_expression_bool(b);
  vp_assert(evaluate(*e) == b, "a constant is what it is");
  update(*e);
  vp_assert(evaluate(*e) == b, "and stays it");
  vp_assert(evaluate(expression_true()) && !evaluate(expression_false()), "constants");
  vp_assert(evaluate(*make_expression_true()) && !evaluate(*make_expression_false()), "made constants");
}
VP_CONTRACT(composition)
{
  const bool a = vp_bool("a"), b = vp_bool("b");
  const binary_operator o = any_operator();
  auto e = make_expression_composition(make_expression_bool(a), o, make_expression_bool(b));
  vp_assert(evaluate(*e) == compose(a, o, b), "a composition is the conjunction, disjunction or exclusive disjunction of its operands");
  update(*e);
  vp_assert(evaluate(*e) == compose(a, o, b), "updating it changes nothing");
}
VP_CONTRACT(negation)
{
  const bool a = vp_bool("a");
  auto e = make_expression_not(make_expression_bool(a));
  vp_assert(evaluate(*e) == !a, "a negation is the opposite of its operand");
  update(*e);
  vp_assert(evaluate(*e) == !a, "and stays it");
}
template <typename F>
static bool refused(F f)
{
  try
  {
    f();
  }
  catch(const std::runtime_error&)
  {
    return true;
  }
  return false;
}
VP_CONTRACT(null_operands)
{
  const binary_operator o = any_operator();
  vp_assert(refused([] { make_expression_not(expression_ptr{}); }), "a negation of nothing is refused");
  vp_assert(refused([&] { make_expression_composition(expression_ptr{}, o, make_expression_true()); }), "a composition without a first operand is refused");
  vp_assert(refused([&] { make_expression_composition(make_expression_true(), o, expression_ptr{}); }), "a composition without a second operand is refused");
}
// an expression that counts what it is asked, with a result that can change
struct counted : expression_generic_base
{
  struct data
  {
    bool result{};
    mutable int evaluated{};
    int updated{}, first{}, last{};
    expression_generic* self{};
  };
  data& d;
  explicit counted(data& x) : d{x} { }
  void update() override { d.updated++; }
  bool evaluate() const override { d.evaluated++; return d.result; }
  void on_first_callback_added(expression_generic& g) override { d.first++; d.self = &g; }
  void on_removing_last_callback(expression_generic&) override { d.last++; }
};
VP_CONTRACT(composition_listeners)
{
  counted::data a, b;
  a.result = vp_bool("a");
  b.result = vp_bool("b");
  const binary_operator o = any_operator();
  {
    auto e = make_expression_composition(make_expression_generic<counted>(a), o, make_expression_generic<counted>(b));
    update(*e);
    vp_assert(a.updated == 1 && b.updated == 1, "updating a composition updates both operands");
    vp_assert(a.first == 0 && b.first == 0, "the operands are not listened to while nobody listens");
    int calls = 0, calls2 = 0;
    bool last = false;
    auto it = add_callback(*e, [&](bool r) { calls++; last = r; });
    vp_assert(a.first == 1 && b.first == 1 && a.last == 0 && b.last == 0, "the operands are listened to from the first listener");
    auto it2 = add_callback(*e, [&](bool r) { calls2++; });
    vp_assert(a.first == 1 && b.first == 1 && callback_count(*e) == 2, "and only once");
    a.result = vp_bool("a2");
    a.self->send((bool)a.result);
    vp_assert(calls == 1 && calls2 == 1 && last == compose(a.result, o, b.result), "a change of the first operand tells the result to each listener");
    b.result = vp_bool("b2");
    b.self->send((bool)b.result);
    vp_assert(calls == 2 && calls2 == 2 && last == compose(a.result, o, b.result), "a change of the second operand tells the result to each listener");
    remove_callback(*e, it2);
    vp_assert(a.last == 0 && b.last == 0 && callback_count(*e) == 1, "the operands are listened to as long as there is a listener");
    a.self->send((bool)a.result);
    vp_assert(calls == 3 && calls2 == 2, "a removed listener is not told any more");
    if(vp_fork(vp_bool("remove")))
    {
      remove_callback(*e, it);
      vp_assert(a.last == 1 && b.last == 1 && callback_count(*e) == 0, "without listeners the operands are not listened to any more");
      a.self->send(true);
      vp_assert(calls == 3, "nobody is told");
      auto it3 = add_callback(*e, [&](bool) { calls2++; });
      vp_assert(a.first == 2 && b.first == 2, "a new listener listens again");
      b.self->send(true);
      vp_assert(calls2 == 3, "and is told");
      remove_callback(*e, it3);
      vp_assert(a.last == 2 && b.last == 2, "until it is removed");
    }
  }
  vp_assert(a.first == a.last && b.first == b.last, "a destroyed composition does not listen to its operands");
}
VP_CONTRACT(negation_listeners)
{
  counted::data a;
  a.result = vp_bool("a");
  auto e = make_expression_not(make_expression_generic<counted>(a));
  update(*e);
  vp_assert(a.updated == 1, "updating a negation updates its operand");
  int calls = 0;
  bool last = false;
  auto it = add_callback(*e, [&](bool r) { calls++; last = r; });
  vp_assert(a.first == 1, "the operand is listened to from the first listener");
  const bool r = vp_bool("r");
  a.self->send(bool(r));
  vp_assert(calls == 1 && last == !r, "a negation tells the opposite");
  remove_callback(*e, it);
  vp_assert(a.last == 1 && callback_count(*e) == 0, "without listeners the operand is not listened to any more");
  add_callback(*e, [&](bool) { calls++; });
  vp_assert(a.first == 2, "a new listener listens again");
  e.reset();
  vp_assert(a.last == 2, "a destroyed negation does not listen to its operand");
}
VP_CONTRACT(callback_refused)
{
  auto e = make_expression_true();
  bool thrown = false;
  try
  {
    add_callback(*e, expression_result_callback{});
  }
  catch(const invalid_callback_error&)
  {
    thrown = true;
  }
  vp_assert(thrown && callback_count(*e) == 0, "an empty listener is refused");
}
VP_CONTRACT(atom_destinations)
{
  param p, q;
  p.val = value{(int)vp_i32("p")};
  q.val = value{vp_f32("q")};
  const comparator c = any_comparator();
  const value v{(int)vp_i32("v")};
  auto l = make_expression_atom(destination{p}, c, v);
  auto r = make_expression_atom(v, c, destination{p});
  auto b = make_expression_atom(destination{p}, c, destination{q});
  vp_assert(evaluate(*l) == compare(p.val, c, v), "an atom with a parameter first compares its value");
  vp_assert(evaluate(*r) == compare(v, c, p.val), "an atom with a parameter second compares its value");
  vp_assert(evaluate(*b) == compare(p.val, c, q.val), "an atom of two parameters compares their values");
  p.val = value{(int)vp_i32("p2")};
  vp_assert(evaluate(*l) == compare(p.val, c, v) && evaluate(*r) == compare(v, c, p.val) && evaluate(*b) == compare(p.val, c, q.val), "with the values of the moment");
  p.pulled = q.pulled = 0;
  update(*l);
  vp_assert(p.pulled == 1 && q.pulled == 0, "updating pulls the first parameter");
  update(*r);
  vp_assert(p.pulled == 2 && q.pulled == 0, "updating pulls the second parameter");
  update(*b);
  vp_assert(p.pulled == 3 && q.pulled == 1, "updating pulls both parameters");
}
VP_CONTRACT(atom_refused)
{
  param p;
  p.val = value{1};
  const comparator c = any_comparator();
  vp_assert(refused([&] { make_expression_atom(destination{p}, c, value{}); }), "an unset second value is refused");
  vp_assert(refused([&] { make_expression_atom(value{}, c, destination{p}); }), "an unset first value is refused");
}
VP_CONTRACT(atom_listeners)
{
  param p, q;
  p.val = value{(int)vp_i32("p")};
  q.val = value{(int)vp_i32("q")};
  const comparator c = any_comparator();
  const bool two = vp_fork(vp_bool("two"));
  const bool second = vp_fork(vp_bool("second"));
  const value v{(int)vp_i32("v")};
  {
    expression_ptr e = two ? make_expression_atom(destination{p}, c, destination{q}) : second ? make_expression_atom(v, c, destination{q}) : make_expression_atom(destination{p}, c, v);
    auto truth = [&] { return two ? compare(p.val, c, q.val) : second ? compare(v, c, q.val) : compare(p.val, c, v); };
    int calls = 0;
    bool last = false;
    vp_assert(p.callback_count() == 0 && q.callback_count() == 0, "parameters are not listened to while nobody listens");
    auto it = add_callback(*e, [&](bool r) { calls++; last = r; });
    const bool hasp = two || !second, hasq = two || second;
    vp_assert(p.callback_count() == hasp && q.callback_count() == hasq, "the parameters of an atom are listened to");
    if(hasp)
    {
      const int n = calls;
      p.push_value(value{(int)vp_i32("p2")});
      vp_assert(calls == n + 1 && last == truth(), "a new first value tells the result");
    }
    if(hasq)
    {
      const int n = calls;
      q.push_value(value{(int)vp_i32("q2")});
      vp_assert(calls == n + 1 && last == truth(), "a new second value tells the result");
    }
    if(vp_fork(vp_bool("remove")))
    {
      remove_callback(*e, it);
      vp_assert(p.callback_count() == 0 && q.callback_count() == 0, "without listeners the parameters are not listened to");
    }
  }
  vp_assert(p.callback_count() == 0 && q.callback_count() == 0, "a destroyed atom does not listen");
}
VP_CONTRACT(pulse)
{
  param p;
  p.val = value{1};
  {
    auto e = make_expression_pulse(destination{p});
    int calls = 0;
    bool last = false;
    vp_assert(!evaluate(*e), "a pulse is false at first");
    update(*e);
    vp_assert(!evaluate(*e), "updating keeps it false");
    auto it = add_callback(*e, [&](bool r) { calls++; last = r; });
    p.push_value(vp::any_of(vp::any_type("t")));
    vp_assert(evaluate(*e) && evaluate(*e) && calls == 1 && last, "a pulse is true once a message happened, and says so");
    p.push_value(value{2});
    vp_assert(evaluate(*e) && calls == 2, "several messages are one pulse");
    update(*e);
    vp_assert(!evaluate(*e), "a pulse is false after the update");
    remove_callback(*e, it);
    p.push_value(value{2});
    vp_assert(evaluate(*e) && calls == 2, "it needs no listener");
  }
  vp_assert(p.callback_count() == 0, "a destroyed pulse does not listen");
}
VP_CONTRACT(pulse_composition)
{
  param p, q;
  const binary_operator o = any_operator();
  auto e = make_expression_composition(make_expression_pulse(destination{p}), o, make_expression_not(make_expression_pulse(destination{q})));
  const bool mp = vp_fork(vp_bool("mp")), mq = vp_fork(vp_bool("mq"));
  if(mp)
    p.push_value(impulse{});
  if(mq)
    q.push_value(impulse{});
  vp_assert(evaluate(*e) == compose(mp, o, !mq), "a composition of pulses sees the messages");
  update(*e);
  vp_assert(evaluate(*e) == compose(false, o, true), "and its update forgets them");
}
// one expression of each kind
static expression_ptr any_expression(const char* n, param& p, param& q, int depth)
{
  int k = vp_i8(n);
  vp_assume(k >= 0 && k <= (depth ? 5 : 3));
  k = vp_concretize(k);
  switch(k)
  {
    case 0: return make_expression_bool(vp_bool("x"));
    case 1: return make_expression_atom(value{(int)vp_i32("x")}, vp_bool("xc") ? comparator::LOWER : comparator::EQUAL, value{2});
    case 2: return make_expression_atom(destination{vp_fork(vp_bool("x")) ? p : q}, comparator::LOWER, value{(int)vp_i32("y")});
    case 3: return make_expression_pulse(destination{vp_fork(vp_bool("x")) ? p : q});
    case 4: return make_expression_not(any_expression("k4", p, q, depth - 1));
    default: return make_expression_composition(any_expression("k5", p, q, depth - 1), vp_bool("xo") ? binary_operator::AND : binary_operator::OR, make_expression_bool(vp_bool("xb")));
  }
}
VP_CONTRACT(comparison)
{
  param p, q;
  auto a = any_expression("ka", p, q, 1), b = any_expression("kb", p, q, 1);
  vp_assert((*a == *b) == !(*a != *b), "'different' is the negation of 'equal'");
  vp_assert((*a == *b) == (*b == *a), "equality of expressions is symmetric");
  vp_assert(*a == *a, "an expression equals itself");
}
VP_CONTRACT(comparison_terms)
{
  param p, q;
  const int x = vp_i32("x"), y = vp_i32("y");
  const comparator c = any_comparator(), d = any_comparator();
  vp_assert((*make_expression_atom(value{x}, c, value{1}) == *make_expression_atom(value{y}, d, value{1})) == (x == y && c == d), "atoms are equal when their terms are: first");
  vp_assert((*make_expression_atom(value{1}, c, value{x}) == *make_expression_atom(value{1}, d, value{y})) == (x == y && c == d), "atoms are equal when their terms are: second");
  vp_assert(*make_expression_atom(destination{p}, c, value{x}) != *make_expression_atom(destination{q}, c, value{x}), "atoms on different parameters differ");
  vp_assert(*make_expression_atom(destination{p}, c, value{x}) != *make_expression_atom(value{x}, c, destination{p}), "the order of the terms matters");
  vp_assert(*make_expression_pulse(destination{p}) == *make_expression_pulse(destination{p}) && *make_expression_pulse(destination{p}) != *make_expression_pulse(destination{q}), "pulses are equal when their parameter is");
}
VP_CONTRACT(comparison_operators)
{
  const bool a = vp_bool("a"), b = vp_bool("b"), a2 = vp_bool("a2"), b2 = vp_bool("b2");
  const binary_operator o = any_operator(), o2 = any_operator();
  auto e = make_expression_composition(make_expression_bool(a), o, make_expression_bool(b));
  auto f = make_expression_composition(make_expression_bool(a2), o2, make_expression_bool(b2));
  vp_assert((*e == *f) == (a == a2 && b == b2 && o == o2), "compositions are equal when their terms and operator are");
  vp_assert((*make_expression_not(make_expression_bool(a)) == *make_expression_not(make_expression_bool(b))) == (a == b), "negations are equal when their terms are");
  vp_assert(*make_expression_not(make_expression_bool(a)) != *make_expression_bool(!a), "different kinds of expressions differ");
}
