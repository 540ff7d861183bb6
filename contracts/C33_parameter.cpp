// Parameters: values, types, listeners, what is sent to the protocol, attributes.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=40 ctors=0
// VP-NOINLINE: ossia7convertERKNS_5valueES2_
// VP-FN: generic_parameter::* [network/generic/generic_parameter.cpp]
// VP-FN: parameter_base::* [network/base/parameter.cpp, parameter.hpp]
// VP-FN: device_base::apply_incoming_message(_quiet) [network/base/device.cpp]
// VP-FN: generic_node::create_parameter / set_parameter / remove_parameter [network/generic/generic_node.cpp]
// VP-FN: callback_container::* [detail/callback_container.hpp]
// VP-ASSUME: one thread
// VP-ASSUME: ossia::convert(value, value) is used through its contract (decided by C09): a value of the type of the second one, determined by both
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <future>
#include <ossia/network/base/device.cpp>
#include <ossia/network/base/name_validation.cpp>
#include <ossia/network/base/node.cpp>
#include <ossia/network/base/node_attributes.cpp>
#include <ossia/network/base/osc_address.cpp>
#include <ossia/network/base/parameter.cpp>
#include <ossia/network/base/protocol.cpp>
#include <ossia/network/generic/generic_device.cpp>
#include <ossia/network/generic/generic_node.cpp>
#include <ossia/network/generic/generic_parameter.cpp>
#include <ossia/network/value/value.cpp>
using namespace ossia;

struct proto final : net::protocol_base
{
  struct log
  {
    int pulls{}, pushes{}, observes{}, unobserves{}, echos{}, requests{};
    value pushed, echoed;
    const net::parameter_base* last{};
  };
  log& l;
  explicit proto(log& x) : l{x} { }
  bool pull(net::parameter_base& p) override { l.pulls++; l.last = &p; return true; }
  void request(net::parameter_base& p) override { l.requests++; l.last = &p; }
  bool push(const net::parameter_base& p, const value& v) override { l.pushes++; l.pushed = v; l.last = &p; return true; }
  bool push(const net::parameter_base& p, value&& v) override { l.pushes++; l.pushed = v; l.last = &p; return true; }
  bool echo_incoming_message(const net::message_origin_identifier&, const net::parameter_base& p, const value& v) override { l.echos++; l.echoed = v; l.last = &p; return true; }
  bool push_raw(const net::full_parameter_data&) override { return false; }
  bool observe(net::parameter_base& p, bool b) override { (b ? l.observes : l.unobserves)++; l.last = &p; return true; }
  bool update(net::node_base&) override { return false; }
};
struct observer
{
  int attributes{}, created{}, removing{}, messages{};
  std::string attribute;
  void on_attribute(net::node_base&, const std::string& s) { attributes++; attribute = s; }
  void on_created(const net::parameter_base&) { created++; }
  void on_removing(const net::parameter_base&) { removing++; }
  void on_message(const net::parameter_base&) { messages++; }
};
struct world
{
  proto::log l;
  observer o;
  net::generic_device dev;
  world() : dev{std::make_unique<proto>(l), "d"}
  {
    dev.on_attribute_modified.connect<&observer::on_attribute>(o);
    dev.on_parameter_created.connect<&observer::on_created>(o);
    dev.on_parameter_removing.connect<&observer::on_removing>(o);
    dev.on_message.connect<&observer::on_message>(o);
  }
};
VP_CONTRACT(create)
{
  world w;
  const int t = vp::any_type("t");
  if(t == 10)
    return;
  auto p = w.dev.create_parameter((val_type)t);
  vp_assert(p && p == w.dev.get_parameter() && &p->get_node() == &w.dev, "the node has the parameter");
  vp_assert(w.o.created == 1 && w.o.removing == 0, "its creation is told once");
  vp_assert(p->get_value_type() == (val_type)t && (int)p->value().v.m_type == t, "it has the wanted type, and a value of that type");
}
// contract of ossia::convert(value, current value)
static const value *conv_v, *conv_cur, *conv_out;
static value convert_contract(const value& v, const value& cur)
{
  vp_requires(vp::same_value(v, *conv_v) && vp::same_value(cur, *conv_cur), "the new value is converted with the current one");
  return *conv_out;
}
static value converted(const value& v, const value& cur)
{
  if(!vp_symbolic())
    return v.valid() && v.v.m_type != cur.v.m_type ? convert(v, cur) : v.valid() ? v : cur;
  return v.valid() && v.v.m_type != cur.v.m_type ? vp::any_of((int)cur.v.m_type) : v.valid() ? v : cur;
}
static void use_convert_contract(const value& v, const value& cur, const value& out)
{
  conv_v = &v;
  conv_cur = &cur;
  conv_out = &out;
  vp_replace_name("ossia7convertERKNS_5valueES2_", (void*)&convert_contract);
}
static void set_contract(bool quiet, bool push)
{
  world w;
  const int t = vp::any_type("t");
  if(t == 10)
    return;
  auto p = w.dev.create_parameter((val_type)t);
  p->set_value(vp::any_of(t));
  const value before = p->value();
  int calls = 0;
  value told;
  p->add_callback([&](const value& v) { calls++; told = v; });
  const int u = vp::any_type("u");
  const value v = vp::any_of(u);
  const value expected = converted(v, before);
  use_convert_contract(v, before, expected);
  const bool moved = vp_fork(vp_bool("moved"));
  value res, copy = v;
  if(push)
    moved ? p->push_value(std::move(copy)) : p->push_value(v);
  else if(quiet)
    res = moved ? p->set_value_quiet(std::move(copy)) : p->set_value_quiet(v);
  else
    res = moved ? p->set_value(std::move(copy)) : p->set_value(v);
  vp_assert(vp::same_value(p->value(), expected), "the value is kept, in the type of the parameter; an unset value changes nothing");
  vp_assert((int)p->value().v.m_type == t, "the type of the value is kept");
  if(push)
  {
    vp_assert(w.l.pushes == (u == 10 ? 0 : 1), "the protocol gets it once; an unset value is not sent");
    if(u != 10)
      vp_assert(vp::same_value(w.l.pushed, expected) && w.l.last == p, "the protocol gets the stored value");
  }
  else
  {
    vp_assert(w.l.pushes == 0, "setting a value sends nothing");
    vp_assert(vp::same_value(res, u == 10 ? value{} : expected), "the stored value is returned");
  }
  if(quiet)
    vp_assert(calls == 0, "listeners are not told of a quiet change");
  else
  {
    if(u != 10)
      vp_assert(calls == 1 && vp::same_value(told, expected), "each listener is told the stored value once");
  }
}
VP_CONTRACT(set_value) { set_contract(false, false); }
VP_CONTRACT(set_value_quiet) { set_contract(true, false); }
VP_CONTRACT(push_value) { set_contract(false, true); }
VP_CONTRACT(push_current)
{
  world w;
  const int t = vp::any_type("t");
  if(t == 10)
    return;
  auto p = w.dev.create_parameter((val_type)t);
  const value v = vp::any_of(t);
  p->set_value(v);
  int calls = 0;
  p->add_callback([&](const value&) { calls++; });
  p->push_value();
  vp_assert(w.l.pushes == 1 && vp::same_value(w.l.pushed, v) && w.l.last == p && calls == 0, "the current value is sent");
  const value x = vp::any_of(t);
  if(vp_fork(vp_bool("moved")))
    p->push_value_quiet(value{x});
  else
    p->push_value_quiet(x);
  vp_assert(w.l.pushes == 2 && vp::same_value(w.l.pushed, x) && vp::same_value(p->value(), x) && calls == 0, "a quiet push stores and sends without telling");
  p->pull_value();
  vp_assert(w.l.pulls == 1 && w.l.last == p, "pulling asks the protocol");
  p->request_value();
  vp_assert(w.l.requests == 1, "requesting asks the protocol");
  vp_assert(vp::same_value(p->fetch_value(), x) && w.l.pulls == 2, "fetching pulls and gives the value");
}
VP_CONTRACT(two_listeners)
{
  world w;
  auto p = w.dev.create_parameter(val_type::INT);
  w.l.observes = w.l.unobserves = 0;
  int a = 0, b = 0;
  const value x{(int)vp_i32("x")};
  value ta, tb;
  auto ia = p->add_callback([&](const value& v) { a++; ta = v; });
  vp_assert(w.l.observes == 1 && w.l.unobserves == 0 && w.l.last == p, "the protocol observes from the first listener");
  auto ib = p->add_callback([&](const value& v) { b++; tb = v; });
  vp_assert(w.l.observes == 1 && w.l.unobserves == 0 && p->callback_count() == 2, "and is told once");
  p->push_value(x);
  vp_assert(a == 1 && b == 1 && vp::same_value(ta, x) && vp::same_value(tb, x), "every listener gets the value");
  const bool first = vp_fork(vp_bool("first"));
  p->remove_callback(first ? ia : ib);
  vp_assert(w.l.unobserves == 0, "the protocol observes as long as there is a listener");
  p->push_value(value{1});
  vp_assert(a == (first ? 1 : 2) && b == (first ? 2 : 1), "only the remaining listener is told");
  if(vp_fork(vp_bool("clear")))
    p->callbacks_clear();
  else
    p->remove_callback(first ? ib : ia);
  vp_assert(w.l.observes == 1 && w.l.unobserves == 1 && p->callbacks_empty(), "the protocol stops observing after the last one");
  p->push_value(value{2});
  vp_assert(a + b == 3, "nobody is told");
}
VP_CONTRACT(replaced_listeners)
{
  world w;
  auto p = w.dev.create_parameter(val_type::INT);
  int a = 0, b = 0, c = 0;
  auto ia = p->add_callback([&](const value& v) { a++; });
  auto ib = p->add_callback([&](const value& v) { b++; });
  p->replace_callback(vp_fork(vp_bool("which")) ? ia : ib, [&](const value&) { c++; });
  p->push_value(value{1});
  vp_assert(a + b == 1 && c == 1 && p->callback_count() == 2, "a replaced listener is not told, its replacement is");
  {
    auto d = p->disable_callback(ib);
    const int n = a + b + c;
    p->push_value(value{1});
    vp_assert(a + b + c == n + 1 && p->callback_count() == 1, "a disabled listener is not told");
  }
}
VP_CONTRACT(type)
{
  world w;
  const int t = vp::any_type("t"), u = vp::any_type("u");
  if(t == 10 || u == 10)
    return;
  auto p = w.dev.create_parameter((val_type)t);
  p->set_value(vp::any_of(t));
  w.o.attributes = 0;
  p->set_value_type((val_type)u);
  vp_assert(p->get_value_type() == (val_type)u && vp::same_value(p->value(), init_value((val_type)u)), "a new type gives its initial value");
  vp_assert(w.o.attributes == 1 && w.o.attribute == "type", "the change of type is told");
  vp_assert(w.dev.create_parameter((val_type)t) == p && p->get_value_type() == (val_type)t && w.o.created == 1, "creating it again changes the type");
}
VP_CONTRACT(filter)
{
  world w;
  const int t = vp::any_type("t");
  if(t == 10)
    return;
  auto p = w.dev.create_parameter((val_type)t);
  const bool dis = vp_bool("disabled"), mute = vp_bool("muted"), rep = vp_bool("rep");
  p->set_disabled(dis);
  p->set_muted(mute);
  p->set_repetition_filter(rep ? repetition_filter::ON : repetition_filter::OFF);
  const value x = vp::any_of(t), y = vp::any_of(t);
  p->set_value(x);
  const value r = p->set_value(y);
  vp_assert(p->filter_value(r) == (dis || mute || (rep && y == x)), "a value is filtered out exactly if the parameter is disabled or muted, or repetitions are and it is one");
}
template <typename T, typename G, typename S>
static void attribute(T from, T to, const char* name, G get, S set)
{
  world w;
  auto p = w.dev.create_parameter(val_type::INT);
  set(*p, from);
  vp_assert(get(*p) == from, "the attribute is kept");
  w.o.attributes = 0;
  const value before = p->value();
  set(*p, to);
  vp_assert(get(*p) == to, "the attribute is changed");
  vp_assert(w.o.attributes == (from != to), "a change is told, and only a change");
  if(from != to)
    vp_assert(w.o.attribute == name, "with the name of the attribute");
  vp_assert(vp::same_value(p->value(), before) && p->get_value_type() == val_type::INT, "the value is unchanged");
}
VP_CONTRACT(attributes)
{
  using P = net::parameter_base;
  switch(vp_concretize((vp_i8("which") & 3)))
  {
    case 0: attribute(vp_bool("a"), vp_bool("b"), "disabled", [](P& p) { return p.get_disabled(); }, [](P& p, bool b) { p.set_disabled(b); }); break;
    case 1: attribute(vp_bool("a"), vp_bool("b"), "muted", [](P& p) { return p.get_muted(); }, [](P& p, bool b) { p.set_muted(b); }); break;
    case 2: attribute(vp_bool("a"), vp_bool("b"), "critical", [](P& p) { return p.get_critical(); }, [](P& p, bool b) { p.set_critical(b); }); break;
    default: attribute(vp_bool("a"), vp_bool("b"), "repetition_filter", [](P& p) { return p.get_repetition_filter() == repetition_filter::ON; }, [](P& p, bool b) { p.set_repetition_filter(b ? repetition_filter::ON : repetition_filter::OFF); }); break;
  }
}
VP_CONTRACT(modes)
{
  using P = net::parameter_base;
  int a = vp_i8("a"), b = vp_i8("b");
  if(vp_fork(vp_bool("access")))
  {
    vp_assume(a >= 0 && a <= 2 && b >= 0 && b <= 2);
    attribute((access_mode)a, (access_mode)b, "access", [](P& p) { return p.get_access(); }, [](P& p, access_mode m) { p.set_access(m); });
  }
  else
  {
    vp_assume(a >= 0 && a <= 5 && b >= 0 && b <= 5);
    attribute((bounding_mode)a, (bounding_mode)b, "bounding", [](P& p) { return p.get_bounding(); }, [](P& p, bounding_mode m) { p.set_bounding(m); });
  }
}
VP_CONTRACT(incoming)
{
  world w;
  const int t = vp::any_type("t"), u = vp::any_type("u");
  if(t == 10 || u == 10)
    return;
  auto p = w.dev.create_parameter((val_type)t);
  const value before = p->value();
  int calls = 0;
  value told;
  p->add_callback([&](const value& v) { calls++; told = v; });
  const bool echo = vp_fork(vp_bool("echo")), quiet = vp_fork(vp_bool("quiet"));
  w.dev.set_echo(echo);
  const value v = vp::any_of(u);
  const value expected = converted(v, before);
  use_convert_contract(v, before, expected);
  const auto& id = *(const net::message_origin_identifier*)&w;
  if(quiet)
    w.dev.apply_incoming_message_quiet(id, *p, value{v});
  else
    w.dev.apply_incoming_message(id, *p, value{v});
  vp_assert(vp::same_value(p->value(), expected), "a received value is stored");
  vp_assert(calls == !quiet && (quiet || vp::same_value(told, expected)), "listeners are told unless it is quiet");
  vp_assert(w.o.messages == 1 && w.l.pushes == 0, "the device tells the message and sends nothing");
  vp_assert(w.l.echos == echo && (!echo || (vp::same_value(w.l.echoed, expected) && w.l.last == p)), "the message is echoed exactly when the device echoes");
}
VP_CONTRACT(removal)
{
  world w;
  auto p = w.dev.create_parameter(val_type::INT);
  vp_assert(w.dev.remove_parameter() && !w.dev.get_parameter(), "the parameter is removed");
  vp_assert(w.o.removing == 1 && w.l.unobserves == 1, "its removal is told once and it is not observed any more");
  vp_assert(!w.dev.remove_parameter() && w.o.removing == 1, "there is nothing to remove then");
  w.dev.set_parameter(std::make_unique<net::generic_parameter>(w.dev));
  vp_assert(w.dev.get_parameter() && w.o.created == 2 && w.o.removing == 1, "a parameter can be set");
  w.dev.set_parameter(std::make_unique<net::generic_parameter>(w.dev));
  vp_assert(w.dev.get_parameter() && w.o.created == 3 && w.o.removing == 2, "and replaced");
}
VP_CONTRACT(node_attributes)
{
  world w;
  const int a = vp_i32("a"), b = vp_i32("b");
  vp_assert(!net::get_priority(w.dev), "no attribute at first");
  net::set_priority(w.dev, (float)a);
  vp_assert(net::get_priority(w.dev) == (float)a && w.o.attributes == 1 && w.o.attribute == "priority", "an attribute is kept and told");
  net::set_priority(w.dev, (float)b);
  vp_assert(net::get_priority(w.dev) == (float)b && w.o.attributes == ((float)a == (float)b ? 1 : 2), "a change is told, and only a change");
  net::set_priority(w.dev, std::nullopt);
  vp_assert(!net::get_priority(w.dev), "an attribute can be removed");
  const bool h = vp_fork(vp_bool("h"));
  w.o.attributes = 0;
  net::set_hidden(w.dev, h);
  vp_assert(net::get_hidden(w.dev) == h && w.o.attributes == h && !net::get_zombie(w.dev), "a flag is kept and told");
  net::set_hidden(w.dev, false);
  vp_assert(!net::get_hidden(w.dev) && w.o.attributes == 2 * h, "a flag is removed");
  net::set_default_value(w.dev, value{a});
  vp_assert(net::get_default_value(w.dev) == value{a}, "the default value is kept");
}
