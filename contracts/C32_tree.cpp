// The node tree: children, names, addresses, removal.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=40 ctors=0
// VP-FN: node_base::create_child / add_child / find_child / remove_child / clear_children / children_names / is_root_instance / has_child / children_copy [network/base/node.cpp]
// VP-FN: generic_node_base::set_name / on_address_change / get_parent, generic_node::* [network/generic/generic_node.cpp]
// VP-FN: net::find_node / create_node / find_or_create_node [network/base/node_functions.cpp]
// VP-FN: net::osc_parameter_string(_with_device) / address_string_from_node / relative_address_string_from_nodes [network/base/osc_address.cpp]
// VP-ASSUME: one thread
// VP-ASSUME: bounded: trees of up to 4 nodes and 3 levels, names of up to 2 arbitrary bytes
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <future>
#include <ossia/network/base/device.cpp>
#include <ossia/network/base/name_validation.cpp>
#include <ossia/network/base/node.cpp>
#include <ossia/network/base/node_attributes.cpp>
#include <ossia/network/base/node_functions.cpp>
#include <ossia/network/base/osc_address.cpp>
#include <ossia/network/base/parameter.cpp>
#include <ossia/network/base/protocol.cpp>
#include <ossia/network/generic/generic_device.cpp>
#include <ossia/network/generic/generic_node.cpp>
#include <ossia/network/generic/generic_parameter.cpp>
#include <ossia/network/value/value.cpp>
namespace std { bad_cast::~bad_cast() noexcept { } }
using namespace ossia;
using net::node_base;
struct proto final : net::protocol_base
{
  int& unobserved;
  explicit proto(int& x) : unobserved{x} { }
  bool pull(net::parameter_base& p) override { return true; }
  bool push(const net::parameter_base& p, const value& v) override { return true; }
  bool push_raw(const net::full_parameter_data&) override { return false; }
  bool observe(net::parameter_base& p, bool b) override { unobserved += !b; return true; }
  bool update(net::node_base&) override { return false; }
};
struct observer
{
  int created{}, removing{}, renamed{}, params_removing{}, deleted{};
  node_base* last{};
  std::string old_name;
  void on_created(node_base& n) { created++; last = &n; }
  void on_removing(node_base& n) { removing++; last = &n; }
  void on_renamed(node_base& n, std::string s) { renamed++; last = &n; old_name = s; }
  void on_param_removing(const net::parameter_base&) { params_removing++; }
  void on_deleted(const node_base&) { deleted++; }
};
struct world
{
  int unobserved{};
  observer o;
  net::generic_device dev;
  world() : dev{std::make_unique<proto>(unobserved), "dev"}
  {
    dev.on_node_created.connect<&observer::on_created>(o);
    dev.on_node_removing.connect<&observer::on_removing>(o);
    dev.on_node_renamed.connect<&observer::on_renamed>(o);
    dev.on_parameter_removing.connect<&observer::on_param_removing>(o);
  }
};

// names for a child, some of which clash
static std::string any_name(const char* n)
{
  static const char* const names[] = {"a", "b", "a.1", "ab", "a.x", "A"};
  int k = vp_i8(n);
  vp_assume(k >= 0 && k < 6);
  return names[vp_concretize(k)];
}
VP_CONTRACT(create_child)
{
  world w;
  const std::string n1 = any_name("n1"), n2 = any_name("n2");
  auto a = w.dev.create_child(n1);
  vp_assert(a && a->get_name() == n1 && a->get_parent() == &w.dev && &a->get_device() == &w.dev, "a child with the wanted name");
  vp_assert(w.o.created == 1 && w.o.last == a, "its creation is told");
  auto b = w.dev.create_child(n2);
  vp_assert(b && b != a && b->get_name() != a->get_name() && b->get_parent() == &w.dev, "a second child has another name");
  vp_assert((b->get_name() == n2) == (n1 != n2), "which is the wanted one if it is free");
  vp_assert(w.o.created == 2 && w.o.last == b, "its creation is told too");
  vp_assert(w.dev.find_child(a->get_name()) == a && w.dev.find_child(b->get_name()) == b && !w.dev.find_child("zz"), "children are found by name");
  vp_assert(w.dev.has_child(*a) && w.dev.has_child(*b) && !w.dev.has_child(w.dev) && !a->has_child(*b), "parents know their children");
  auto names = w.dev.children_names();
  vp_assert(names.size() == 2 && names[0] == a->get_name() && names[1] == b->get_name(), "the names of the children are listed in order");
  auto copy = w.dev.children_copy();
  vp_assert(copy.size() == 2 && copy[0] == a && copy[1] == b && w.dev.children().size() == 2, "the children are listed in order");
}
VP_CONTRACT(create_child_bytes)
{
  // any name of two bytes: the child is found by the name that it got
  world w;
  char* b = (char*)vp_buffer("name", 2, 1);
  std::string n(b, 2);
  auto a = w.dev.create_child(n);
  vp_assert(a && a->get_name().size() == 2, "a child");
  vp_assert(w.dev.find_child(a->get_name()) == a, "is found by its name");
  std::string addr = "/";
  addr += a->get_name();
  vp_assert(a->osc_address() == addr, "has the address of its name");
  vp_assert(net::find_node(w.dev, addr) == a, "and is found by it");
  if(!vp_symbolic())
    free(b);
}
VP_CONTRACT(root_instances)
{
  world w;
  const std::string n1 = any_name("n1"), n2 = any_name("n2");
  auto a = w.dev.create_child(n1);
  auto b = w.dev.create_child(n2);
  auto instance = [](const std::string& x, const std::string& y) { return y.size() > x.size() + 1 && y.compare(0, x.size(), x) == 0 && y[x.size()] == '.'; };
  vp_assert(w.dev.is_root_instance(*a) == instance(a->get_name(), b->get_name()), "a node is the root of the instances called after it");
  vp_assert(w.dev.is_root_instance(*b) == instance(b->get_name(), a->get_name()), "and only of them");
}
VP_CONTRACT(add_child)
{
  world w;
  const std::string n1 = any_name("n1"), n2 = any_name("n2");
  w.dev.create_child(n1);
  auto n = std::make_unique<net::generic_node>(n2, w.dev, w.dev);
  auto p = n.get();
  auto r = w.dev.add_child(std::move(n));
  vp_assert(r == (n1 == n2 ? nullptr : p), "a node can be added exactly if its name is free");
  vp_assert(w.dev.children().size() == (n1 == n2 ? 1 : 2) && w.o.created == (n1 == n2 ? 1 : 2), "and is told then");
  vp_assert(!w.dev.add_child({}), "nothing cannot be added");
}
VP_CONTRACT(addresses)
{
  world w;
  const std::string n1 = any_name("n1"), n2 = any_name("n2");
  auto a = w.dev.create_child(n1);
  auto b = a->create_child(n2);
  auto c = b->create_child("c");
  vp_assume(n1 != "zzz" && n2 != "zzz");
  auto osc = "/" + n1 + "/" + n2 + "/c";
  vp_assert(net::osc_parameter_string(*c) == osc && c->osc_address() == osc, "the address is the path of names");
  vp_assert(net::osc_parameter_string(w.dev) == "/", "the address of the root");
  vp_assert(net::address_string_from_node(*c) == "dev:" + osc && net::address_string_from_node(w.dev) == "dev:/", "with the device in front");
  vp_assert(net::osc_parameter_string_with_device(*c) == "/dev" + osc && net::osc_parameter_string_with_device(*a) == "/dev/" + n1, "with the device as first name");
  vp_assert(net::relative_address_string_from_nodes(*c, *a) == n2 + "/c" && net::relative_address_string_from_nodes(*c, w.dev) == n1 + "/" + n2 + "/c", "relative to an ancestor");
  vp_assert(net::find_node(*a, net::relative_address_string_from_nodes(*c, *a)) == c, "a relative address is found from there");
  vp_assert(net::find_node(w.dev, net::osc_parameter_string(*c)) == c && net::find_node(w.dev, net::osc_parameter_string(*b)) == b && net::find_node(w.dev, net::osc_parameter_string(*a)) == a && net::find_node(w.dev, "/") == &w.dev, "a node is found at its address");
  vp_assert(!net::find_node(w.dev, "/" + n1 + "/c") && !net::find_node(w.dev, osc + "/d") && !net::find_node(w.dev, "/d" + osc), "nothing is found elsewhere");
  vp_assert(!net::find_node(w.dev, "/" + n1 + "/zzz/" + n2) && !net::find_node(w.dev, "/zzz/" + n1) && !net::find_node(w.dev, osc + "/zzz/c") && !net::find_node(w.dev, "/" + n1 + "/" + n2 + "/zzz/c"), "every name on the way has to match");
  vp_assert(net::find_node(w.dev, osc + "/") == c && net::find_node(w.dev, osc.substr(1)) == c, "slashes around the address do not matter");
  auto p = c->create_parameter(val_type::INT);
  vp_assert(net::osc_parameter_string(*p) == osc && net::osc_address(*p) == osc && net::address_string_from_node(*p) == "dev:" + osc && net::osc_parameter_string_with_device(*p) == "/dev" + osc, "a parameter has the address of its node");
}
VP_CONTRACT(relative_prefix)
{
  // names can contain colons
  world w;
  auto x = w.dev.create_child("dev:");
  auto y = x->create_child("a");
  auto z = y->create_child("b");
  auto a = w.dev.create_child("a");
  vp_assert(net::relative_address_string_from_nodes(*z, *x) == "a/b", "relative to an ancestor");
  vp_assert(net::relative_address_string_from_nodes(*z, *a) == "b", "a node that is not below another one keeps its name");
}
VP_CONTRACT(find_or_create)
{
  world w;
  const std::string n1 = any_name("n1"), n2 = any_name("n2");
  auto a = w.dev.create_child(n1);
  const std::string addr = "/" + n2 + "/c";
  auto& r = net::find_or_create_node(w.dev, addr);
  vp_assert(r.osc_address() == addr && net::find_node(w.dev, addr) == &r, "the node is at the address");
  vp_assert(w.o.created == (n1 == n2 ? 2 : 3) && w.dev.children().size() == (n1 == n2 ? 1 : 2), "only what is missing is created");
  vp_assert(&net::find_or_create_node(w.dev, addr) == &r && w.o.created == (n1 == n2 ? 2 : 3), "it is found the second time");
  vp_assert(&net::find_or_create_node(w.dev, "/") == &w.dev, "the root exists");
  auto& s = net::create_node(w.dev, addr);
  vp_assert(&s != &r && s.get_parent() == r.get_parent() && s.get_name() != r.get_name(), "creating it again makes a new instance beside it");
  vp_assert(net::find_node(w.dev, s.osc_address()) == &s && net::find_node(w.dev, addr) == &r, "and both are found");
  auto& t = net::create_node(r, "d/e");
  vp_assert(t.osc_address() == addr + "/d/e", "nodes are created relatively");
}
VP_CONTRACT(rename)
{
  world w;
  const std::string n1 = any_name("n1"), n2 = any_name("n2"), n3 = any_name("n3");
  auto a = w.dev.create_child(n1);
  auto b = w.dev.create_child(n2);
  auto c = b->create_child("c");
  auto d = c->create_child("d");
  const std::string old = b->get_name();
  w.o.last = nullptr;
  b->set_name(n3);
  vp_assert(b->get_name() != a->get_name(), "a new name is unique");
  vp_assert((b->get_name() == n3) == (n3 != a->get_name()), "it is the wanted one if it is free");
  vp_assert(w.o.renamed == 1 && w.o.last == b && w.o.old_name == old, "the change of name is told with the old one");
  const std::string osc = "/" + b->get_name();
  vp_assert(b->osc_address() == osc && c->osc_address() == osc + "/c" && d->osc_address() == osc + "/c/d", "the addresses below follow");
  vp_assert(net::find_node(w.dev, d->osc_address()) == d, "and are found");
  vp_assert(a->get_name() == n1 && a->osc_address() == "/" + n1, "other nodes keep their name");
}
VP_CONTRACT(remove)
{
  world w;
  auto a = w.dev.create_child("a");
  auto b = w.dev.create_child("b");
  auto c = a->create_child("c");
  auto d = c->create_child("d");
  a->create_parameter(val_type::INT);
  d->create_parameter(val_type::INT);
  const int n = w.unobserved;
  a->about_to_be_deleted.connect<&observer::on_deleted>(w.o);
  c->about_to_be_deleted.connect<&observer::on_deleted>(w.o);
  d->about_to_be_deleted.connect<&observer::on_deleted>(w.o);
  const int how = vp_concretize(vp_i8("how") & 3);
  bool r = true;
  if(how == 0)
    r = w.dev.remove_child("a");
  else if(how == 1)
    r = w.dev.remove_child(*a);
  else
    w.dev.clear_children();
  vp_assert(r, "a child is removed");
  vp_assert(w.o.removing == (how >= 2 ? 4 : 3) && w.o.deleted == 3, "the removal of each node below is told, and each is deleted");
  vp_assert(w.o.params_removing == 2 && w.unobserved == n + 2, "the removal of each parameter is told, and it is not observed any more");
  vp_assert(!net::find_node(w.dev, "/a") && !net::find_node(w.dev, "/a/c/d"), "nothing is found there");
  vp_assert(net::find_node(w.dev, "/b") == (how >= 2 ? nullptr : b), "only what has to be removed is");
  if(how < 2)
  {
    vp_assert(!w.dev.remove_child("a") && !w.dev.remove_child("zz") && w.o.removing == 3, "what is not there cannot be removed");
    vp_assert(!w.dev.remove_child(w.dev), "nor what is not a child");
    auto e = w.dev.create_child("a");
    vp_assert(e && e->get_name() == "a", "the name is free again");
  }
}
// a device whose tree cannot be changed
struct frozen : net::generic_device
{
  using net::generic_device::generic_device;
  void freeze() { m_capabilities.change_tree = false; }
};
VP_CONTRACT(frozen_tree)
{
  int x{};
  frozen dev{std::make_unique<proto>(x), "dev"};
  auto a = dev.create_child("a");
  dev.freeze();
  vp_assert(!dev.create_child("b") && !a->create_child("b") && !dev.add_child(std::make_unique<net::generic_node>("c", dev, dev)), "no node is added to a tree that cannot change");
  vp_assert(!dev.remove_child("a") && !dev.remove_child(*a), "and none is removed");
  dev.clear_children();
  vp_assert(net::find_node(dev, "/a") == a && dev.children().size() == 1, "the nodes are still there");
  vp_assert(&net::find_or_create_node(dev, "/a") == a, "and found");
  bool refused = false;
  static const char* const missing[] = {"/b", "/a/b", "/b/c"};
  try { net::find_or_create_node(dev, missing[vp_concretize((uint8_t)vp_i8("missing") % 3)]); } catch(const std::exception&) { refused = true; }
  vp_assert(refused, "finding or creating a missing node is refused");
  refused = false;
  try { net::create_node(dev, missing[2]); } catch(const std::exception&) { refused = true; }
  vp_assert(refused && dev.children().size() == 1 && a->children().empty(), "as creating one");
}
