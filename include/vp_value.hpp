// arbitrary ossia::value's, and a comparison that does not use the code under test
#pragma once
#include <vp.hpp>
#include <ossia/network/value/value.hpp>
namespace vp
{
inline std::string any_string(const char* name)
{
  // both representations of std::string: in place and on the heap
  const size_t n = vp_fork(vp_bool("long")) ? 18 : 2;
  char* b = (char*)vp_buffer(name, n, 1);
  std::string s(b, n);
  if(!vp_symbolic())
    free(b);
  return s;
}
// types: 0 float 1 int 2 vec2 3 vec3 4 vec4 5 impulse 6 bool 7 string 8 list 9 char 10 none
inline ossia::value any_of(int type, int depth = 1)
{
  switch(type)
  {
    case 0: return ossia::value{vp_f32("f")};
    case 1: return ossia::value{(int)vp_i32("i")};
    case 2: return ossia::value{ossia::vec2f{vp_f32("v0"), vp_f32("v1")}};
    case 3: return ossia::value{ossia::vec3f{vp_f32("v0"), vp_f32("v1"), vp_f32("v2")}};
    case 4: return ossia::value{ossia::vec4f{vp_f32("v0"), vp_f32("v1"), vp_f32("v2"), vp_f32("v3")}};
    case 5: return ossia::value{ossia::impulse{}};
    case 6: return ossia::value{vp_bool("b")};
    case 7: return ossia::value{any_string("s")};
    case 8:
    {
      std::vector<ossia::value> l;
      if(depth > 0)
      {
        l.push_back(ossia::value{(int)vp_i32("l0")});
        l.push_back(ossia::value{vp_f32("l1")});
      }
      return ossia::value{l};
    }
    case 9: return ossia::value{(char)vp_i8("c")};
    default: return ossia::value{};
  }
}
inline int any_type(const char* name)
{
  int t = vp_i8(name);
  vp_assume(t >= 0 && t <= 10);
  return (int)vp_concretize(t);
}
inline bool same_vec(const float* a, const float* b, int n)
{
  for(int i = 0; i < n; i++)
    if(!same(a[i], b[i]))
      return false;
  return true;
}
inline bool same_value(const ossia::value& a, const ossia::value& b)
{
  if(a.v.m_type != b.v.m_type)
    return false;
  switch((int)a.v.m_type)
  {
    case 0: return same(a.v.m_impl.m_value0, b.v.m_impl.m_value0);
    case 1: return a.v.m_impl.m_value1 == b.v.m_impl.m_value1;
    case 2: return same_vec(a.v.m_impl.m_value2.data(), b.v.m_impl.m_value2.data(), 2);
    case 3: return same_vec(a.v.m_impl.m_value3.data(), b.v.m_impl.m_value3.data(), 3);
    case 4: return same_vec(a.v.m_impl.m_value4.data(), b.v.m_impl.m_value4.data(), 4);
    case 6: return a.v.m_impl.m_value6 == b.v.m_impl.m_value6;
    case 7: return a.v.m_impl.m_value7.size() == b.v.m_impl.m_value7.size()
          && memcmp(a.v.m_impl.m_value7.data(), b.v.m_impl.m_value7.data(), b.v.m_impl.m_value7.size()) == 0;
    case 8:
    {
      auto& x = a.v.m_impl.m_value8;
      auto& y = b.v.m_impl.m_value8;
      if(x.size() != y.size())
        return false;
      for(size_t i = 0; i < x.size(); i++)
        if(!same_value(x[i], y[i]))
          return false;
      return true;
    }
    case 9: return a.v.m_impl.m_value9 == b.v.m_impl.m_value9;
    default: return true;
  }
}
}
