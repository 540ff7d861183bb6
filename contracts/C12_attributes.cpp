// Minuit: the attributes' texts and back.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=64
// VP-FN: ossia::minuit::get_attribute / to_minuit_attribute_text / to_minuit_type_text(value) [network/minuit/detail/minuit_impl.cpp]
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/network/minuit/detail/minuit_impl.cpp>
ossia::value::~value() noexcept { }
using namespace ossia;
using namespace ossia::minuit;
VP_CONTRACT(attributes)
{
  const int a = vp_i32("attribute");
  vp_assume(a >= 0 && a <= (int)minuit_attribute::RampFunctionParameters);
  const int k = (int)vp_concretize(a);
  const auto s = to_minuit_attribute_text((minuit_attribute)k);
  vp_assert(s.size() > 0, "each attribute has a text");
  minuit_attribute b{};
  bool thrown = false;
  try { b = get_attribute(s); } catch(...) { thrown = true; }
  vp_assert(!thrown && (int)b == k, "the text gives the attribute back");
}
VP_CONTRACT(value_type_text)
{
  const int t = vp::any_type("type");
  const value v = vp::any_of(t);
  bool thrown = false;
  ossia::string_view s;
  try { s = to_minuit_type_text(v); } catch(...) { thrown = true; }
  vp_assert(thrown == (t == 10), "only an unset value has no type text");
  if(!thrown)
    vp_assert(s == to_minuit_type_text((val_type)t), "a value has the text of its type");
}
