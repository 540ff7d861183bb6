// Merging values, and reading or writing them at an index.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=32 ctors=0
// VP-FN: ossia::value_merger::merge_value / merge_list / set_first_value / write_float / insert_in_list [network/value/value_algorithms.hpp]
// VP-FN: ossia::detail::destination_index_retriever [network/value/value_algorithms.hpp]
// VP-ASSUME: bounded: lists of up to 3 elements, indices of up to 3 levels; indices written to are between 0 and 3
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/detail/destination_index.hpp>
#include <ossia/network/value/value_algorithms.hpp>
ossia::value::~value() noexcept { }
using namespace ossia;
using list = std::vector<value>;

static bool is_list(const value& v) { return v.get_type() == val_type::LIST; }
static bool is_vec(const value& v)
{
  const auto t = v.get_type();
  return t == val_type::VEC2F || t == val_type::VEC3F || t == val_type::VEC4F;
}
static int vec_size(const value& v) { return v.get_type() == val_type::VEC2F ? 2 : v.get_type() == val_type::VEC3F ? 3 : 4; }
static float comp(const value& v, int i)
{
  switch(v.get_type())
  {
    case val_type::VEC2F: return v.get<vec2f>()[i];
    case val_type::VEC3F: return v.get<vec3f>()[i];
    default: return v.get<vec4f>()[i];
  }
}
// the component after a value is written to it
static float written(const value& v, float old)
{
  switch(v.get_type())
  {
    case val_type::INT: return (float)v.get<int>();
    case val_type::FLOAT: return v.get<float>();
    case val_type::CHAR: return (float)v.get<char>();
    case val_type::BOOL: return v.get<bool>() ? 1.f : 0.f;
    default: return old;
  }
}
static value one(const char* n)
{
  const int t = vp_i8(n);
  vp_assume(t >= 0 && t <= 12);
  const int k = (int)vp_concretize(t);
  if(k == 11)
    return value{list{value{}, value{vp_f32("e")}, value{(int)vp_i32("e")}}};
  if(k == 12)
    return value{list{}};
  return vp::any_of(k);
}
// the merge, by its definition (lists hold no lists here)
template <bool Source>
static bool merged_scalar(const value& r, const value& d, const value& s)
{
  if(!d.valid())
    return vp::same_value(r, s);
  if(!s.valid() || !Source)
    return vp::same_value(r, d);
  return vp::same_value(r, s);
}
template <bool Source>
static void merge()
{
  const value d = one("dest"), s = one("src");
  value r = d;
  const value src = s;
  if(vp_fork(vp_bool("moved")))
    value_merger<Source>::merge_value(r, value{s});
  else
    value_merger<Source>::merge_value(r, src);
  vp_assert(vp::same_value(src, s), "the source is unchanged");
  if(!d.valid())
  {
    vp_assert(vp::same_value(r, s), "an unset destination takes the source");
  }
  else if(is_list(d))
  {
    const auto& l = d.get<list>();
    vp_assert(is_list(r), "a list stays a list");
    const auto& m = r.get<list>();
    const size_t n = is_list(s) ? s.get<list>().size() : is_vec(s) ? vec_size(s) : 1;
    vp_assert(m.size() == (l.size() > n ? l.size() : n), "a list takes the size of the longer one");
    for(size_t i = 0; i < m.size(); i++)
    {
      const value di = i < l.size() ? l[i] : value{};
      if(i >= n)
        vp_assert(vp::same_value(m[i], di), "elements that the source does not have are kept");
      else if(is_vec(s))
        vp_assert(m[i].get_type() == val_type::FLOAT && vp::same(m[i].get<float>(), comp(s, i)), "the components of a vector are written in the list");
      else
        vp_assert(merged_scalar<Source>(m[i], di, is_list(s) ? s.get<list>()[i] : s), "lists merge element by element, single values with the first element");
    }
  }
  else if(is_vec(d))
  {
    vp_assert(r.get_type() == d.get_type(), "a vector stays a vector of its size");
    const int n = vec_size(d);
    for(int i = 0; i < n; i++)
    {
      float e = comp(d, i);
      if(is_list(s))
      {
        // an unset destination is the only one that an unset source leaves as it is
        if(i < (int)s.get<list>().size())
          e = written(s.get<list>()[i], e);
      }
      else if(is_vec(s))
      {
        if(i < vec_size(s))
          e = comp(s, i);
      }
      else if(i == 0 && s.valid())
        e = written(s, e);
      vp_assert(vp::same(comp(r, i), e), "the components of a vector take the numbers of the source and the others are kept");
    }
  }
  else if(is_list(s) || is_vec(s))
    vp_assert(vp::same_value(r, d), "a list or vector does not replace a single value");
  else
    vp_assert(merged_scalar<Source>(r, d, s), "a single value is replaced only if the source has precedence");
  vp_cover("end");
}
VP_CONTRACT(merge_source) { merge<true>(); }
VP_CONTRACT(merge_destination) { merge<false>(); }

static destination_index any_index(int max, int lo, int hi)
{
  const int n = vp_i32("levels");
  vp_assume(n >= 0 && n <= max);
  const int N = (int)vp_concretize(n);
  destination_index idx;
  for(int i = 0; i < N; i++)
  {
    const int k = vp_i32("index");
    vp_assume(k >= lo && k <= hi);
    idx.push_back(k);
  }
  return idx;
}
// the element designated by an index
static value element(const value& v, const destination_index& idx, size_t from)
{
  if(from == idx.size())
    return v;
  const int k = idx[from];
  if(is_list(v) && k >= 0 && k < (int)v.get<list>().size())
    return element(v.get<list>()[vp_concretize(k)], idx, from + 1);
  if(is_vec(v) && k >= 0 && k < vec_size(v) && from + 1 == idx.size())
    return value{comp(v, (int)vp_concretize(k))};
  return value{};
}
VP_CONTRACT(retrieve)
{
  const int t = vp_i8("type");
  vp_assume(t >= 0 && t <= 12);
  const int k = (int)vp_concretize(t);
  const value v = k == 11   ? value{list{value{(int)vp_i32("e")}, value{list{value{vp_f32("e0")}, value{vec2f{vp_f32("v0"), vp_f32("v1")}}}}}}
                  : k == 12 ? value{list{}}
                            : vp::any_of(k);
  const auto idx = any_index(3, -2147483647 - 1, 2147483647);
  const value r = v.apply(detail::destination_index_retriever{idx, idx.cbegin()});
  vp_assert(vp::same_value(r, element(v, idx, 0)), "an index gives the element that it designates, or nothing");
  vp_cover("end");
}
VP_CONTRACT(insert)
{
  const int i = vp_i32("i") & 3, j = vp_i32("j") & 3;
  const int levels = vp_fork(vp_bool("deep")) ? 2 : 1;
  const int I = (int)vp_concretize(i), J = levels == 2 ? (int)vp_concretize(j) : 0;
  list before{value{(int)vp_i32("a")}, value{}, value{list{value{vp_f32("b")}}}};
  list t = before;
  const value v{vp_f32("v")};
  destination_index idx;
  idx.push_back(I);
  if(levels == 2)
    idx.push_back(J);
  value_merger<true>::insert_in_list(t, v, idx);
  vp_assert(t.size() == (size_t)(I < 3 ? 3 : 4), "a list grows to hold the index, and no further");
  for(int k = 0; k < (int)t.size(); k++)
  {
    const value old = k < 3 ? before[k] : value{};
    if(k != I)
    {
      vp_assert(vp::same_value(t[k], old), "the other elements are kept");
      continue;
    }
    if(levels == 1 && k != 2)
      vp_assert(vp::same_value(t[k], v), "the value is written at the index");
    else
    {
      // in a sub-list: the element that was there is its first one
      vp_assert(is_list(t[k]), "a deeper index writes in a sub-list");
      const auto& sub = t[k].get<list>();
      const int at = levels == 2 ? J : 0;
      vp_assert(sub.size() == (size_t)(at + 1), "a sub-list grows to hold the index, and no further");
      for(int m = 0; m < (int)sub.size(); m++)
      {
        const value o = m == 0 ? (k == 2 ? before[2].get<list>()[0] : old) : value{};
        vp_assert(vp::same_value(sub[m], m == at ? v : o), "the value is written in the sub-list, and the element that was there is its first one");
      }
    }
  }
  vp_cover("end");
}
