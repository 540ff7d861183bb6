// Native implementation of the vp_* primitives: replays the verifier's counterexample, or
// searches for a failing input, against the real compiled code.
#include "vp.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <chrono>
#include <unistd.h>

extern "C" __attribute__((weak)) void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace
{
struct In
{
  std::string name, t;
  std::vector<uint64_t> v;
  uint64_t w{};
};
std::vector<In> g_given; // replay list
size_t g_pos;
std::vector<In> g_used;
bool g_random;
uint64_t g_s = 88172645463325252ull;
jmp_buf g_jmp;
bool g_injmp;
const char* g_out;
std::string g_fail;

uint64_t rnd()
{
  g_s ^= g_s << 13;
  g_s ^= g_s >> 7;
  g_s ^= g_s << 17;
  return g_s * 2685821657736338717ull;
}
std::vector<uint64_t> g_dict; // values that matter to the contract
uint64_t rint_(int w)
{
  uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
  if(!g_dict.empty() && rnd() % 2) return g_dict[rnd() % g_dict.size()] & m;
  switch(rnd() % 12)
  {
    case 0: return 0;
    case 1: return 1;
    case 2: return m;
    case 3: return (1ull << (w - 1)) + (rnd() % 5) - 2 & m;
    case 4: return (1ull << (rnd() % w)) + (rnd() % 3) - 1 & m;
    case 5: return rnd() & m;
    case 6: return (rnd() % 17) & m;
    case 7: return (0 - (rnd() % 17)) & m;
    case 8: return (m >> (1 + rnd() % w)) + (rnd() % 3) - 1 & m;
    case 9: return (rnd() % 1000) & m;
    case 10: return (rnd() >> (rnd() % 64)) & m;
    default: return (rnd() % 4) & m;
  }
}
double rdbl()
{
  switch(rnd() % 12)
  {
    case 0: return 0.;
    case 1: return 1.;
    case 2: return -1.;
    case 3: return (double)(int64_t)(rnd() % 2001 - 1000) / 16.;
    case 4: return (double)(rnd() % 1000) / 1000.;
    case 5: return __builtin_inf();
    case 6: return -__builtin_inf();
    case 7: return __builtin_nan("");
    case 8: { uint64_t x = rnd(); double d; memcpy(&d, &x, 8); return d; }
    case 9: return (double)(int64_t)(rnd() % 21 - 10);
    case 10: return -0.;
    default: return (double)(int64_t)rint_(64);
  }
}
uint64_t dbits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
uint64_t fbits(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

void save(const char* status)
{
  if(!g_out) return;
  FILE* f = fopen(g_out, "w");
  if(!f) return;
  fprintf(f, "%s\n", status);
  for(auto& i : g_used)
  {
    fprintf(f, "%s %s %llu %zu", i.name.c_str(), i.t.c_str(), (unsigned long long)i.w, i.v.size());
    for(auto v : i.v) fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\n");
  }
  fclose(f);
}
void death() { save(("crash " + g_fail).c_str()); }
void onsig(int s) { save("crash signal"); _exit(1); }

const In* given(const char* name)
{
  if(g_pos < g_given.size() && g_given[g_pos].name == name) return &g_given[g_pos++];
  return nullptr;
}
uint64_t scalar(const char* name, const char* t, int w)
{
  uint64_t v = 0;
  const In* g = given(name);
  bool mutate = g_random && (!g || rnd() % 3 == 0);
  if(mutate)
  {
    if(t[0] == 'f') v = w == 64 ? dbits(rdbl()) : fbits((float)rdbl());
    else v = w == 1 ? rnd() & 1 : rint_(w);
    // correlate with earlier values
    if(!g_used.empty() && rnd() % 4 == 0)
    {
      auto& o = g_used[rnd() % g_used.size()];
      if(o.t == t && !o.v.empty()) v = o.v[0] + (t[0] == 'f' ? 0 : rnd() % 3 - 1);
      if(w < 64) v &= (1ull << w) - 1;
    }
  }
  else if(g && !g->v.empty())
    v = g->v[0];
  g_used.push_back({name, t, {v}, (uint64_t)w});
  return v;
}
[[noreturn]] void leave(int code, const char* what)
{
  if(g_injmp) { longjmp(g_jmp, code); }
  exit(code);
}
}
extern "C" {
int64_t vp_i64(const char* n) { return (int64_t)scalar(n, "i64", 64); }
int32_t vp_i32(const char* n) { return (int32_t)scalar(n, "i32", 32); }
int16_t vp_i16(const char* n) { return (int16_t)scalar(n, "i16", 16); }
int8_t vp_i8(const char* n) { return (int8_t)scalar(n, "i8", 8); }
bool vp_bool(const char* n) { return scalar(n, "bool", 1) & 1; }
float vp_f32(const char* n) { uint32_t x = scalar(n, "f32", 32); float f; memcpy(&f, &x, 4); return f; }
double vp_f64(const char* n) { uint64_t x = scalar(n, "f64", 64); double f; memcpy(&f, &x, 8); return f; }
void* vp_buffer(const char* name, size_t n, size_t w)
{
  if(n > (1u << 22)) leave(77, "buffer");
  unsigned char* p = (unsigned char*)malloc(n * w ? n * w : 1);
  if(n * w == 0 && __asan_poison_memory_region) __asan_poison_memory_region(p, 1);
  In in{name, "buf", {}, w};
  const In* g = given(name);
  for(size_t i = 0; i < n; i++)
  {
    uint64_t v = 0;
    if(g && i < g->v.size()) v = g->v[i];
    else if(g_random)
      v = w == 8 ? (rnd() % 2 ? dbits(rdbl()) : rint_(64)) : w == 4 ? (rnd() % 2 ? fbits(rdbl()) : rint_(32)) : rint_(8 * w);
    if(g_random && rnd() % 8 == 0)
      v = w == 8 ? dbits(rdbl()) : w == 4 ? fbits(rdbl()) : rint_(8 * w);
    if(w < 8) v &= (1ull << (8 * w)) - 1;
    memcpy(p + i * w, &v, w < 8 ? w : 8);
    in.v.push_back(v);
  }
  g_used.push_back(in);
  return p;
}
void* vp_alloc(const char*, size_t n) { return malloc(n); }
void vp_assume(bool c) { if(!c) leave(77, "assume"); }
void vp_assert(bool c, const char* label)
{
  if(!c) { g_fail = label; leave(1, label); }
}
void vp_requires(bool c, const char* label) { }
void vp_undefined() { leave(77, "undefined"); }
void vp_abstract(bool, const char*) {}
bool vp_exact() { return true; }
void vp_cover(const char*) {}
float vp_uf_f32(const char*, float, float, float) { return 0; }
double vp_uf_f64(const char*, double, double, double) { return 0; }
int64_t vp_uf_i64(const char*, int64_t, int64_t, int64_t) { return 0; }
void vp_template(const char*, void*) {}
void vp_templates_clear() {}
void vp_config(const char* k, int64_t v)
{
  if(!strcmp(k, "dict") && g_dict.size() < 64)
  {
    for(auto d : g_dict) if(d == (uint64_t)v) return;
    g_dict.push_back(v);
  }
}
int64_t vp_concretize(int64_t v) { return v; }
bool vp_fork(bool c) { return c; }
bool vp_symbolic() { return false; }
void vp_replace(void*, void*) {}
int vp_replace_name(const char*, void*) { return 0; }
bool vp_same_object(const void*, const void*) { return true; }
bool vp_is_live(const void*) { return true; }
int64_t vp_live_heap() { return 0; }
void VP_ENTRY();
}
static void load(const char* file)
{
  FILE* f = fopen(file, "r");
  if(!f) return;
  char line[64];
  char name[256], t[16];
  unsigned long long w, v;
  size_t n;
  while(fscanf(f, "%255s %15s %llu %zu", name, t, &w, &n) == 4)
  {
    In i{name, t, {}, w};
    for(size_t k = 0; k < n && fscanf(f, "%llu", &v) == 1; k++) i.v.push_back(v);
    g_given.push_back(i);
  }
  fclose(f);
}
// usage: prog replay FILE OUT | prog search FILE OUT SECONDS SEED
int main(int argc, char** argv)
{
  if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
  signal(SIGILL, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGTRAP, onsig);
  std::string mode = argv[1];
  load(argv[2]);
  g_out = argv[3];
  if(mode == "replay")
  {
    int r = 0;
    try {
      g_injmp = true;
      if((r = setjmp(g_jmp)) == 0) VP_ENTRY();
    } catch(...) { r = 1; g_fail = "exception"; }
    if(r == 1) { save(("fail " + g_fail).c_str()); printf("VPFAIL %s\n", g_fail.c_str()); return 1; }
    if(r == 77) { printf("VPASSUME\n"); return 77; }
    printf("VPOK\n");
    return 0;
  }
  double secs = atof(argv[4]);
  g_s ^= strtoull(argv[5], 0, 10) * 0x9E3779B97F4A7C15ull;
  for(int i = 0; i < 8; i++) rnd();
  g_random = true;
  auto t0 = std::chrono::steady_clock::now();
  long runs = 0, ok = 0;
  while(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs)
  {
    for(int k = 0; k < 64; k++)
    {
      g_pos = 0;
      g_used.clear();
      int r = 0;
      try {
        g_injmp = true;
        if((r = setjmp(g_jmp)) == 0) VP_ENTRY();
      } catch(...) { r = 1; g_fail = "exception"; }
      runs++;
      if(r == 0) ok++;
      if(r == 1)
      {
        save(("fail " + g_fail).c_str());
        printf("VPFAIL %s after %ld runs\n", g_fail.c_str(), runs);
        return 1;
      }
    }
  }
  printf("VPOK runs=%ld ok=%ld\n", runs, ok);
  return 0;
}
