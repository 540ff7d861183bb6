// Specification primitives of the contract files.  Under the verifier (vcgen) each vp_* call is
// interpreted symbolically; natively (replay / search) vp_native.cpp implements it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>

extern "C" {
int64_t vp_i64(const char* name);
int32_t vp_i32(const char* name);
int16_t vp_i16(const char* name);
int8_t vp_i8(const char* name);
bool vp_bool(const char* name);
float vp_f32(const char* name);
double vp_f64(const char* name);
// n elements of w bytes with arbitrary content
void* vp_buffer(const char* name, size_t n, size_t w);
// n bytes of uninitialised heap memory
void* vp_alloc(const char* name, size_t n);
void vp_assume(bool);                    // requires
void vp_assert(bool, const char* label); // ensures
void vp_requires(bool, const char* label); // precondition of a callee contract, checked at the call
void vp_abstract(bool, const char* label); // the stub's abstraction applies here
bool vp_exact();                           // bounded exploration or native run
// an uninterpreted function of three arguments (for contract stubs)
float vp_uf_f32(const char* name, float, float, float);
double vp_uf_f64(const char* name, double, double, double);
int64_t vp_uf_i64(const char* name, int64_t, int64_t, int64_t);
void vp_cover(const char* label);        // must be reachable (vacuity guard)
void vp_template(const char* kinds, void* fn); // loop invariant template
void vp_templates_clear();
void vp_config(const char* key, int64_t v);
int64_t vp_concretize(int64_t v);  // case split on the value
bool vp_fork(bool);                // case split on a condition
bool vp_symbolic();
void vp_replace(void* real, void* contract); // calls to `real` use the contract stub
int vp_replace_name(const char* substr, void* contract);
bool vp_same_object(const void*, const void*);
bool vp_is_live(const void*);
int64_t vp_live_heap();
}

namespace vp
{
template <typename T>
inline T any(const char* name)
{
  if constexpr(std::is_same_v<T, bool>)
    return vp_bool(name);
  else if constexpr(std::is_same_v<T, float>)
    return vp_f32(name);
  else if constexpr(std::is_same_v<T, double>)
    return vp_f64(name);
  else if constexpr(std::is_enum_v<T>)
    return static_cast<T>(any<std::underlying_type_t<T>>(name));
  else if constexpr(sizeof(T) == 8)
    return (T)vp_i64(name);
  else if constexpr(sizeof(T) == 4)
    return (T)vp_i32(name);
  else if constexpr(sizeof(T) == 2)
    return (T)vp_i16(name);
  else
    return (T)vp_i8(name);
}
template <typename T>
inline T* buffer(const char* name, size_t n)
{
  return static_cast<T*>(vp_buffer(name, n, sizeof(T)));
}
// same bits (distinguishes -0/0, equates identical NaNs)
inline bool same(double a, double b)
{
  uint64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  return x == y;
}
inline bool same(float a, float b)
{
  uint32_t x, y;
  memcpy(&x, &a, 4);
  memcpy(&y, &b, 4);
  return x == y;
}
template <typename F>
inline void replace(F* real, F* stub)
{
  vp_replace((void*)real, (void*)stub);
}
}
#define VP_CONTRACT(name) extern "C" void contract_##name()
