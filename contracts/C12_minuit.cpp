// Minuit: the texts of the protocol and back.
// VP-FLAGS: -std=c++17
// VP-FN: ossia::minuit::to_minuit_type_text / value_from_minuit_type_text / type_from_minuit_type_text [network/minuit/detail/minuit_common.hpp]
// VP-FN: ossia::minuit::to_minuit_service_text / from_minuit_service_text / to_minuit_bounding_text / from_minuit_bounding_text [network/minuit/detail/minuit_common.hpp]
// VP-FN: ossia::minuit::get_command / get_type / get_operation [network/minuit/detail/minuit_common.hpp]
// VP-FN: ossia::minuit::name_table::set_device_name / get_action [network/minuit/detail/minuit_name_table.hpp]
// VP-ASSUME: device names of 2 and 18 characters stand for the two representations of strings
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <ossia/network/minuit/detail/minuit_common.hpp>
#include <ossia/network/minuit/detail/minuit_name_table.hpp>
ossia::value::~value() noexcept { }
using namespace ossia;
using namespace ossia::minuit;

static bool is(ossia::string_view s, const char* t)
{
  return s.size() == strlen(t) && memcmp(s.data(), t, s.size()) == 0;
}
VP_CONTRACT(type_text)
{
  const int t = vp::any_type("type");
  if(t == 10)
  {
    bool thrown = false;
    try { to_minuit_type_text(val_type::NONE); } catch(...) { thrown = true; }
    vp_assert(thrown, "an unset value has no type text");
    return;
  }
  const auto s = to_minuit_type_text((val_type)t);
  vp_assert(is(s, t == 0 ? "decimal" : t == 1 ? "integer" : t <= 4 ? "array" : t == 5 ? "none" : t == 6 ? "boolean" : t == 7 ? "string" : t == 8 ? "array" : "string"),
            "the type's text is the protocol's");
  const int back = t >= 2 && t <= 4 ? 8 : t == 9 ? 7 : t;
  vp_assert((int)type_from_minuit_type_text(s) == back, "the text gives the type back (vectors as lists, characters as strings)");
  vp_assert((int)value_from_minuit_type_text(s).get_type() == back, "the text gives a value of the type back");
}
VP_CONTRACT(type_any)
{
  const size_t n = vp_i64("n");
  vp_assume(n < (1u << 20));
  const char* b = vp::buffer<char>("text", n);
  const ossia::string_view s{b, n};
  const value v = value_from_minuit_type_text(s);
  const char c = n ? b[0] : 0;
  const int want = c == 'i' ? 1 : c == 'd' ? 0 : c == 's' ? 7 : c == 'b' ? 6 : c == 'n' ? 5 : c == 'a' || c == 'g' ? 8 : 127;
  vp_assert((int)v.get_type() == want, "a text gives a value of the type it names, any other an unset one");
  if(want != 127)
    vp_assert((int)type_from_minuit_type_text(s) == want, "type and value agree on a text");
  else
    type_from_minuit_type_text(s);
}
VP_CONTRACT(service)
{
  const int a = vp_i8("access");
  bool thrown = false;
  ossia::string_view s;
  try { s = to_minuit_service_text((access_mode)a); } catch(const parse_error&) { thrown = true; }
  vp_assert(thrown == !(a == (int)access_mode::BI || a == (int)access_mode::GET || a == (int)access_mode::SET), "only the three access modes have a text");
  if(thrown)
    return;
  vp_assert(is(s, a == (int)access_mode::BI ? "parameter" : a == (int)access_mode::GET ? "return" : "message"), "the service's text is the protocol's");
  vp_assert((int)from_minuit_service_text(s) == a, "the text gives the access mode back");
}
VP_CONTRACT(service_any)
{
  const size_t n = vp_i64("n");
  vp_assume(n < (1u << 20));
  const char* b = vp::buffer<char>("text", n);
  bool thrown = false;
  access_mode m{};
  try { m = from_minuit_service_text(ossia::string_view{b, n}); } catch(const parse_error&) { thrown = true; }
  const char c = n ? b[0] : 0;
  vp_assert(thrown == !(c == 'p' || c == 'r' || c == 'm'), "a text that is no service is refused");
  vp_assert(thrown || m == (c == 'p' ? access_mode::BI : c == 'r' ? access_mode::GET : access_mode::SET), "a text gives the service it names");
}
VP_CONTRACT(bounding)
{
  const int a = vp_i8("mode");
  bool thrown = false;
  ossia::string_view s;
  try { s = to_minuit_bounding_text((bounding_mode)a); } catch(const parse_error&) { thrown = true; }
  vp_assert(thrown == !(a >= (int)bounding_mode::FREE && a <= (int)bounding_mode::HIGH), "only the six bounding modes have a text");
  if(thrown)
    return;
  const auto m = (bounding_mode)a;
  vp_assert(is(s, m == bounding_mode::FREE ? "none" : m == bounding_mode::CLIP ? "both" : m == bounding_mode::WRAP ? "wrap" : m == bounding_mode::FOLD ? "fold" : m == bounding_mode::LOW ? "low" : "high"),
            "the bounding mode's text is the protocol's");
  vp_assert(from_minuit_bounding_text(s) == m, "the text gives the bounding mode back");
}
VP_CONTRACT(bounding_any)
{
  const size_t n = vp_i64("n");
  vp_assume(n < (1u << 20));
  const char* b = vp::buffer<char>("text", n);
  bool thrown = false;
  bounding_mode m{};
  try { m = from_minuit_bounding_text(ossia::string_view{b, n}); } catch(const parse_error&) { thrown = true; }
  const char c = n ? b[0] : 0;
  vp_assert(thrown == !(c == 'n' || c == 'b' || c == 'w' || c == 'f' || c == 'l' || c == 'h'), "a text that is no bounding mode is refused");
  if(!thrown)
    vp_assert(to_minuit_bounding_text(m)[0] == c, "a text gives the bounding mode it names");
}
VP_CONTRACT(codes)
{
  const char c = vp_i8("char");
  bool thrown = false;
  minuit_command k{};
  try { k = get_command(c); } catch(const parse_error&) { thrown = true; }
  vp_assert(thrown == !(c == '?' || c == ':' || c == '!'), "only ? : ! are commands");
  vp_assert(thrown || k == (c == '?' ? minuit_command::Request : c == ':' ? minuit_command::Answer : minuit_command::Error), "each command has its code");
  const auto t = get_type(c);
  const bool known = c == 'A' || c == 'C' || c == 'D' || c == 'n' || c == 'M' || c == 'U' || c == 'P';
  vp_assert((char)t == (known ? c : 'n'), "a node type has its code, any other is none");
}
VP_CONTRACT(operations)
{
  const size_t n = vp_i64("n");
  vp_assume(n < (1u << 20));
  const char* b = vp::buffer<char>("text", n);
  const char c = n ? b[0] : 0;
  bool thrown = false;
  minuit_operation o{};
  try { o = get_operation(ossia::string_view{b, n}); } catch(const parse_error&) { thrown = true; }
  vp_assert(thrown == !(c == 'l' || c == 'n' || c == 'g'), "only listen, namespace and get are operations");
  vp_assert(thrown || o == (c == 'l' ? minuit_operation::Listen : c == 'n' ? minuit_operation::Namespace : minuit_operation::Get), "an operation is known by its first letter");
}
VP_CONTRACT(names)
{
  const std::string dev = vp::any_string("device");
  name_table t;
  t.set_device_name("earlier"); 
  t.set_device_name(dev);
  const int a = vp_i32("action");
  vp_assume(a >= 0 && a <= 8);
  const int k = (int)vp_concretize(a);
  const auto s = t.get_action((minuit_action)k);
  const char* verb[3] = {"namespace", "get", "listen"};
  const size_t n = dev.size(), m = strlen(verb[k / 3]);
  vp_assert(s.size() == n + 1 + m, "an action's address is device, command and operation");
  vp_assert(memcmp(s.data(), dev.data(), n) == 0, "an action's address starts with the device's name");
  const char sep = s[n];
  vp_assert(sep == (k % 3 == 0 ? '?' : k % 3 == 1 ? ':' : '!'), "the command is ? for a request, : for a reply, ! for an error");
  vp_assert(memcmp(s.data() + n + 1, verb[k / 3], m) == 0, "an action's address ends with the operation");
}
