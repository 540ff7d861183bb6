// Ports: what is written to them is kept with its date, mixed, scaled, delayed.
// VP-FLAGS: -std=c++17
// VP-OPT: unroll=24 ctors=0 fpabs=2
// VP-FN: value_port::*, process_control_value, ensure_vector_sizes [dataflow/data.cpp]
// VP-FN: mix, copy_data, copy_data_pos, clear_data, data_size [dataflow/data_copy.hpp]
// VP-FN: audio_outlet::post_process, process_audio_out_mono / general, inlet / outlet connect / disconnect [dataflow/port.cpp, port.hpp]
// VP-FN: midi_port::* [dataflow/midi_port.hpp]
// VP-ASSUME: floating-point operations are uninterpreted functions: results are compared as the same operations on the same operands
// VP-ASSUME: bounded: ports with up to 3 values or messages, audio of up to 3 channels of up to 3 samples
#include <vp_fmt.hpp>
#include <vp_value.hpp>
#include <vp_list.hpp>
#include <ossia/dataflow/graph_node.cpp>
#include <ossia/dataflow/port.cpp>
#include <ossia/dataflow/data.cpp>
#include <ossia/dataflow/data_copy.hpp>
#include <ossia/network/domain/domain_base.cpp>
#include <ossia/network/value/value.cpp>
using namespace ossia;
using list = std::vector<value>;

// callee contract: a conversion between types is some function of the value and the types
static int conversions;
static int conv_from, conv_to;
static bool conv_fails;
namespace ossia
{
value convert(const value& v, const complex_type& s, const complex_type& t)
{
  conversions++;
  auto a = s.target<val_type>(), b = t.target<val_type>();
  conv_from = a ? (int)*a : -1;
  conv_to = b ? (int)*b : -1;
  if(conv_fails)
    return {};
  return value{vec3f{7.f, 8.f, v.target<float>() ? *v.target<float>() : 9.f}};
}
}
static complex_type no_type() { return {}; }

template <typename V>
static bool is_at(const V& d, size_t i, const value& v, int64_t t)
{
  return i < d.size() && d[i].timestamp == t && vp::same_value(d[i].value, v);
}
static void write(value_port& p, const value& v, int64_t t, bool move)
{
  if(move)
  {
    value c = v;
    p.write_value(std::move(c), t);
  }
  else
    p.write_value(v, t);
}

VP_CONTRACT(write_append)
{
  value_port p;
  const bool m = vp_fork(vp_bool("move"));
  const value a = vp::any_of(vp::any_type("a")), b{(int)vp_i32("b")};
  const int64_t t = vp_i64("t"), u = vp_i64("u");
  vp_assert(p.mix_method == mix_append && p.get_data().empty(), "a port starts empty, and adds what is written to it");
  write(p, a, t, m);
  write(p, b, u, m);
  vp_assert(p.get_data().size() == 2, "each value written is there once");
  vp_assert(is_at(p.get_data(), 0, a, t) && is_at(p.get_data(), 1, b, u), "with its date, in order");
  p.clear();
  vp_assert(p.get_data().empty(), "clearing removes all");
}
VP_CONTRACT(write_replace)
{
  value_port p;
  p.mix_method = mix_replace;
  const bool m = vp_fork(vp_bool("move"));
  const value a = vp::any_of(vp::any_type("a")), b = vp::any_of(7), c{(int)vp_i32("c")};
  const int64_t t = vp_i64("t"), u = vp_i64("u"), w = vp_i64("w");
  write(p, a, t, m);
  write(p, b, u, m);
  write(p, c, w, m);
  auto& d = p.get_data();
  const size_t n = t == u ? (t == w ? 1 : 2) : (w == t || w == u ? 2 : 3);
  vp_assert(d.size() == n, "a port which replaces has one value for each date");
  bool fa = false, fb = false, fc = false;
  for(auto& x : d)
  {
    if(x.timestamp == w)
      fc = vp::same_value(x.value, c);
    else if(x.timestamp == u)
      fb = vp::same_value(x.value, b);
    else if(x.timestamp == t)
      fa = vp::same_value(x.value, a);
  }
  vp_assert(fc, "the last value written at its date");
  vp_assert(fb || u == w, "the last value written at its date");
  vp_assert(fa || t == w || t == u, "the last value written at its date");
}
VP_CONTRACT(set_data)
{
  value_port p;
  p.write_value(value{1}, 2);
  const value a = vp::any_of(vp::any_type("a"));
  const int64_t t = vp_i64("t");
  value_vector<timed_value> v;
  v.emplace_back(a, t);
  p.set_data(v);
  vp_assert(p.get_data().size() == 1 && is_at(p.get_data(), 0, a, t), "a port has exactly the data that it is given");
}

// from a port to another, without bounds: values and dates are kept as they are
VP_CONTRACT(port_to_port)
{
  value_port o, p;
  const bool replace = vp_fork(vp_bool("replace"));
  p.mix_method = replace ? mix_replace : mix_append;
  switch(vp_concretize(vp_i8("how") & 3))
  {
    case 0: break;
    case 1: o.domain = domain_base<float>{0.f, 1.f}; break;
    case 2: p.domain = domain_base<float>{0.f, 1.f}; break;
    case 3: o.tween_date = time_value{12}; break;
  }
  const value a = vp::any_of(vp::any_type("a")), b{(int)vp_i32("b")}, c{vp_bool("c")};
  const int64_t t = vp_i64("t"), u = vp_i64("u"), w = vp_i64("w");
  vp_assume(u != w);
  p.write_value(c, t);
  o.write_value(a, u);
  o.write_value(b, w);
  copy_data{}(o, p);
  auto& d = p.get_data();
  if(!replace)
  {
    vp_assert(d.size() == 3, "the values of the source are added");
    vp_assert(is_at(d, 0, c, t) && is_at(d, 1, a, u) && is_at(d, 2, b, w), "with their dates, in order, after those that are there");
  }
  else if(t == u)
    vp_assert(d.size() == 2 && is_at(d, 0, a, u) && is_at(d, 1, b, w), "values at the same date are replaced");
  else if(t == w)
    vp_assert(d.size() == 2 && is_at(d, 0, b, w) && is_at(d, 1, a, u), "values at the same date are replaced");
  else
    vp_assert(d.size() == 3 && is_at(d, 0, c, t) && is_at(d, 1, a, u) && is_at(d, 2, b, w), "the values of the source are added");
  vp_assert(o.get_data().size() == 2 && is_at(o.get_data(), 0, a, u) && is_at(o.get_data(), 1, b, w), "the source keeps its data");
}

// with bounds on both ports, values are scaled from the ones to the others
static float scaled(float x, float s0, float s1, float d0, float d1)
{
  const float ratio = (d1 - d0) / (s1 - s0);
  return d0 + ratio * (x - s0);
}
static void scale_contract(bool replace)
{
  value_port o, p;
  p.mix_method = replace ? mix_replace : mix_append;
  const float s0 = vp_f32("s0"), s1 = vp_f32("s1"), d0 = vp_f32("d0"), d1 = vp_f32("d1");
  vp_assume(s1 - s0 != 0.f && s0 == s0 && s1 == s1 && d0 == d0 && d1 == d1);
  o.domain = domain_base<float>{s0, s1};
  p.domain = domain_base<float>{d0, d1};
  const int k = vp::any_type("a");
  if(k == 6 || k == 9 || k == 7)
    return;
  value a = vp::any_of(k);
  if(k == 8)
    a = value{list{value{vp_f32("l0")}, value{list{value{vp_f32("l1")}}}}};
  if(k == 1)
  {
    const int x = a.get<int>();
    const float r = scaled((float)x, s0, s1, d0, d1);
    vp_assume(r > -2e9f && r < 2e9f);
  }
  const int64_t t = vp_i64("t"), u = vp_i64("u");
  const value c{vp_f32("c")};
  p.write_value(c, t);
  o.write_value(a, u);
  copy_data{}(o, p);
  auto& d = p.get_data();
  const bool same_date = replace && t == u;
  vp_assert(d.size() == (same_date ? 1 : 2), "the value is added, or replaces the one of its date");
  if(!same_date)
    vp_assert(is_at(d, 0, c, t), "the others stay as they are");
  const auto& r = d.back();
  vp_assert(r.timestamp == u, "a scaled value keeps its date");
  vp_assert(r.value.v.m_type == a.v.m_type, "and its type");
  auto s = [&](float x) { return scaled(x, s0, s1, d0, d1); };
  switch(k)
  {
    case 0: vp_assert(vp::same(r.value.get<float>(), s(a.get<float>())), "scaled from the bounds of the source to its own"); break;
    case 1: vp_assert(r.value.get<int>() == (int)s((float)a.get<int>()), "scaled from the bounds of the source to its own"); break;
    case 2: for(int i = 0; i < 2; i++) vp_assert(vp::same(r.value.get<vec2f>()[i], s(a.get<vec2f>()[i])), "each component is scaled"); break;
    case 3: for(int i = 0; i < 3; i++) vp_assert(vp::same(r.value.get<vec3f>()[i], s(a.get<vec3f>()[i])), "each component is scaled"); break;
    case 4: for(int i = 0; i < 4; i++) vp_assert(vp::same(r.value.get<vec4f>()[i], s(a.get<vec4f>()[i])), "each component is scaled"); break;
    case 8:
    {
      auto& l = r.value.get<list>();
      auto& m = a.get<list>();
      vp_assert(l.size() == 2 && vp::same(l[0].get<float>(), s(m[0].get<float>())), "each element is scaled");
      vp_assert(l[1].get<list>().size() == 1 && vp::same(l[1].get<list>()[0].get<float>(), s(m[1].get<list>()[0].get<float>())), "each nested element is scaled");
      break;
    }
    default: break;
  }
}
VP_CONTRACT(scale_append) { scale_contract(false); }
VP_CONTRACT(scale_replace) { scale_contract(true); }
VP_CONTRACT(scale_undefined)
{
  // a bound that is missing, or an empty range
  value_port o, p;
  const float s0 = vp_f32("s0");
  vp_assume(s0 > -1000.f && s0 < 1000.f);
  domain_base<float> s{0.f, 1.f}, d{2.f, 3.f};
  switch(vp_concretize(vp_i8("which") & 7))
  {
    case 0: s.min.reset(); break;
    case 1: s.max.reset(); break;
    case 2: d.min.reset(); break;
    case 3: d.max.reset(); break;
    case 4: s.min = s0; s.max = s0; break;
    default: return;
  }
  o.domain = s;
  p.domain = d;
  const value a{vp_f32("a")};
  o.write_value(a, 1);
  copy_data{}(o, p);
  vp_assert(p.get_data().size() == 1 && is_at(p.get_data(), 0, a, 1), "without a range to scale from or to, values are kept as they are");
}

// from the environment: the index of the port, and its type, decide what it takes
VP_CONTRACT(local_value)
{
  value_port p;
  const value a{list{value{(int)vp_i32("i")}, value{vp_f32("f")}, value{vp_bool("b")}}};
  const int64_t t = vp_i64("t");
  const int idx = (int)vp_concretize(vp_i8("idx") & 3);
  const int how = (int)vp_concretize(vp_i8("how") & 3);
  typed_value tv{timed_value{a, t}, destination_index{}, how ? complex_type{val_type::LIST} : no_type()};
  if(how == 2)
    p.type = val_type::LIST;
  else if(how == 3)
    p.type = val_type::VEC3F;
  conversions = 0;
  conv_fails = how == 3 && vp_fork(vp_bool("fails"));
  if(idx < 3)
    p.index.push_back(idx);
  copy_data{}(value_vector<typed_value>{tv}, p);
  vp_assert(p.get_data().size() == 1 && p.get_data()[0].timestamp == t, "the value comes with its date");
  const value& r = p.get_data()[0].value;
  if(how == 0 || how == 2)
  {
    vp_assert(conversions == 0, "no conversion when the types are the same");
    vp_assert(vp::same_value(r, idx < 3 ? a.get<list>()[idx] : a), "a port takes what is at its index");
  }
  else if(how == 3)
  {
    vp_assert(conversions == 1 && conv_from == (int)val_type::LIST && conv_to == (int)val_type::VEC3F, "a value of another type is converted to the type of the port");
    if(conv_fails)
      vp_assert(vp::same_value(r, a), "what cannot be converted is kept");
    else
      vp_assert(vp::same_value(r, idx < 3 ? value{idx == 0 ? 7.f : idx == 1 ? 8.f : 9.f} : value{vec3f{7.f, 8.f, 9.f}}), "a port takes what is at its index, after the conversion");
  }
}

// delay lines give back, at each position, what was written there
VP_CONTRACT(delay_values)
{
  value_delay_line l;
  value_port o, o2, p;
  const value a = vp::any_of(vp::any_type("a")), b{(int)vp_i32("b")}, c{vp_f32("c")};
  const int64_t t = vp_i64("t"), u = vp_i64("u"), w = vp_i64("w");
  o.write_value(a, t);
  o.write_value(b, u);
  o2.write_value(c, w);
  vp_assert(data_size{}(l) == 0, "a delay line starts empty");
  copy_data{}(o, l);
  copy_data{}(o2, l);
  vp_assert(data_size{}(l) == 2, "each tick takes a position");
  const int pos = vp_i8("pos");
  vp_assume(pos >= 0 && pos <= 4);
  copy_data_pos{(size_t)vp_concretize(pos)}(l, p);
  auto& d = p.get_data();
  if(pos == 0)
    vp_assert(d.size() == 2 && is_at(d, 0, a, t) && is_at(d, 1, b, u), "the values of that position, with their dates");
  else if(pos == 1)
    vp_assert(d.size() == 1 && is_at(d, 0, c, w), "the values of that position, with their dates");
  else
    vp_assert(d.empty(), "nothing after the end");
  vp_assert(data_size{}(l) == 2, "reading keeps the line");
}
VP_CONTRACT(delay_midi)
{
  midi_delay_line l;
  midi_port o, p;
  const uint8_t c = vp_i8("c"), n = vp_i8("n"), v = vp_i8("v");
  vp_assume(c >= 1 && c <= 16);
  o.note_on(c, n, v);
  copy_data{}(o, l);
  o.control_change(c, v, n);
  copy_data{}(o, l);
  vp_assert(data_size{}(l) == 2, "each tick takes a position");
  const int pos = vp_i8("pos");
  vp_assume(pos >= 0 && pos <= 4);
  p.program_change(c, n);
  copy_data_pos{(size_t)vp_concretize(pos)}(l, p);
  const size_t k = pos == 0 ? 1 : pos == 1 ? 2 : 0;
  vp_assert(p.messages.size() == 1 + k, "the messages of that position are added");
  vp_assert(p.messages[0].bytes.size() == 2 && p.messages[0].bytes[1] == n, "after those that are there");
  for(size_t i = 0; i < k; i++)
    vp_assert(p.messages[1 + i].bytes == o.messages[i].bytes, "in order");
  clear_data{}(p);
  vp_assert(p.messages.empty(), "clearing removes all");
}

static double number(const char* n)
{
  const double x = vp_f64(n);
  vp_assume(x == x);
  return x;
}
static void fill(audio_vector& v, int chans, int samples, const char* n)
{
  v.resize(chans);
  for(int c = 0; c < chans; c++)
  {
    v[c].resize(samples);
    for(int i = 0; i < samples; i++)
    {
      v[c][i] = number(n);
    }
  }
}
static bool same_audio(const audio_vector& a, const audio_vector& b)
{
  if(a.size() != b.size())
    return false;
  for(size_t c = 0; c < a.size(); c++)
  {
    if(a[c].size() != b[c].size())
      return false;
    for(size_t i = 0; i < a[c].size(); i++)
      if(!vp::same(a[c][i], b[c][i]))
        return false;
  }
  return true;
}
// channels and samples that are not there count as 0
static void mixed(const audio_vector& src, const audio_vector& old, const audio_vector& r)
{
  vp_assert(r.size() == std::max(src.size(), old.size()), "the sink has the channels of both");
  for(size_t c = 0; c < r.size(); c++)
  {
    const size_t ns = c < src.size() ? src[c].size() : 0, no = c < old.size() ? old[c].size() : 0;
    vp_assert(r[c].size() == std::max(ns, no), "and their samples");
    for(size_t i = 0; i < r[c].size(); i++)
    {
      const double s = i < ns ? src[c][i] : 0., o = i < no ? old[c][i] : 0.;
      if(vp_fork(i < ns))
        vp_assert(vp::same(r[c][i], o + s), "which are the sums");
      else
        vp_assert(vp::same(r[c][i], o), "what has nothing to add is kept");
    }
  }
}
static int small(const char* n, int max)
{
  const int k = vp_i8(n);
  vp_assume(k >= 0 && k <= max);
  return (int)vp_concretize(k);
}
VP_CONTRACT(mix)
{
  audio_port o, p;
  fill(o.samples, small("oc", 3), small("os", 2), "o");
  fill(p.samples, small("pc", 3), small("ps", 2), "p");
  const audio_vector src = o.samples, old = p.samples;
  copy_data{}(o, p);
  mixed(src, old, p.samples);
  vp_assert(same_audio(o.samples, src), "the source is kept");
}
VP_CONTRACT(delay_audio)
{
  audio_delay_line l;
  audio_port o, o2, p;
  fill(o.samples, 2, 2, "o");
  fill(o2.samples, 1, 3, "o2");
  fill(p.samples, small("pc", 2), 2, "p");
  const audio_vector old = p.samples;
  copy_data{}(o, l);
  copy_data{}(o2, l);
  vp_assert(data_size{}(l) == 2, "each tick takes a position");
  const int pos = small("pos", 3);
  copy_data_pos{(size_t)pos}(l, p);
  if(pos < 2)
    mixed(pos ? o2.samples : o.samples, old, p.samples);
  else
    vp_assert(same_audio(p.samples, old), "nothing after the end");
  clear_data{}(p);
  for(auto& c : p.samples)
    vp_assert(c.empty(), "clearing removes all samples");
}

static bool times(double out, double in, double g)
{
  if(vp_fork(g == 1.))
    return vp::same(out, in) || vp::same(out, in * 1.);
  return vp::same(out, in * g);
}
// gain and panning are applied once
VP_CONTRACT(post_process)
{
  audio_outlet o;
  const int C = small("c", 3), N = small("n", 2), P = small("p", 3), G = small("g", 2);
  fill(o.data.samples, C, N, "s");
  const audio_vector old = o.data.samples;
  o.gain = number("gain");
  o.pan.clear();
  for(int i = 0; i < P; i++)
    o.pan.push_back(number("pan"));
  const pan_weight pan = o.pan;
  double g = o.gain;
  for(int i = 0; i < G; i++)
  {
    const float f = vp_f32("msg");
    vp_assume(f == f);
    o.gain_inlet.data.write_value(value{f}, i);
    g = f;
  }
  ((outlet&)o).post_process();
  vp_assert(o.data.samples.size() == (size_t)C, "an outlet keeps its channels");
  for(int c = 0; c < C; c++)
  {
    vp_assert(o.data.samples[c].size() == (size_t)N, "and their samples");
    for(int i = 0; i < N; i++)
    {
      const double in = old[c][i], out = o.data.samples[c][i];
      if(C == 1)
        vp_assert(times(out, in, g), "one channel is multiplied by the gain");
      else
      {
        const double vol = (c < P ? pan[c] : 1.) * g;
        vp_assert(times(out, in, vol), "each channel is multiplied by its pan and by the last gain");
      }
    }
  }
}
VP_CONTRACT(process_from)
{
  audio_outlet o;
  audio_port i;
  const int C = small("c", 3), N = small("n", 2), P = small("p", 3);
  vp_assume(C > 0);
  const bool mono = C == 1 && vp_fork(vp_bool("mono"));
  fill(i.samples, C, N, "s");
  o.gain = number("gain");
  o.pan.clear();
  for(int k = 0; k < P; k++)
    o.pan.push_back(number("pan"));
  const pan_weight pan = o.pan;
  const audio_vector old = i.samples;
  if(mono)
    process_audio_out_mono(i, o);
  else
    process_audio_out_general(i, o);
  vp_assert(same_audio(i.samples, old), "the input is kept");
  vp_assert(o.data.samples.size() == (size_t)C, "the outlet has the channels of the input");
  for(int c = 0; c < C; c++)
  {
    vp_assert(o.data.samples[c].size() == (size_t)N, "and their samples");
    for(int k = 0; k < N; k++)
    {
      const double in = old[c][k], out = o.data.samples[c][k];
      if(mono)
        vp_assert(times(out, in, o.gain), "one channel is multiplied by the gain");
      else
      {
        const double vol = (c < P ? pan[c] : 1.) * o.gain;
        vp_assert(times(out, in, vol), "each channel is multiplied by its pan and by the gain");
      }
    }
  }
}

// MIDI messages: status byte with the type and the channel, then the data
VP_CONTRACT(midi)
{
  midi_port p;
  const uint8_t c = vp_i8("c"), a = vp_i8("a"), b = vp_i8("b");
  const int32_t wide = vp_i32("wide");
  const int k = small("k", 7);
  p.note_on(1, 2, 3);
  uint8_t type{}, d0 = a, d1 = b;
  size_t n = 3;
  const libremidi::message* m{};
  switch(k)
  {
    case 0: type = 0x90; m = &p.note_on(c, a, b); break;
    case 1: type = 0x80; m = &p.note_off(c, a, b); break;
    case 2: type = 0xB0; m = &p.control_change(c, a, b); break;
    case 3: type = 0xC0; m = &p.program_change(c, a); n = 2; break;
    case 4: type = 0xE0; m = &p.pitch_bend(c, (int)wide); d0 = wide & 127; d1 = (wide >> 7) & 127; break;
    case 5: type = 0xE0; m = &p.pitch_bend(c, a, b); break;
    case 6: type = 0xA0; m = &p.poly_pressure(c, a, b); break;
    case 7: type = 0xD0; m = &p.aftertouch(c, a); n = 2; break;
  }
  vp_assert(p.messages.size() == 2 && m == &p.messages[1], "a message is added to the port, and given");
  vp_assert(m->bytes.size() == n, "a message has the bytes of its type");
  vp_assert((m->bytes[0] & 0xF0) == type, "a message has its type, whatever the channel");
  if(c >= 1 && c <= 16)
    vp_assert((m->bytes[0] & 15) == c - 1, "and its channel");
  vp_assert(m->bytes[1] == d0 && (n == 2 || m->bytes[2] == d1), "and its data");
  vp_assert(p.messages[0].bytes == libremidi::midi_bytes({0x90, 2, 3}), "the other messages are kept");
}

// cables
VP_CONTRACT(cables)
{
  value_inlet i;
  value_outlet o;
  char mem[3];
  graph_edge* e[3] = {(graph_edge*)(mem + 0), (graph_edge*)(mem + 1), (graph_edge*)(mem + 2)};
  bool in[3] = {};
  for(int s = 0; s < 4; s++)
  {
    const int k = small("k", 2);
    const bool add = vp_fork(vp_bool("add"));
    if(add)
      i.connect(e[k]), o.connect(e[k]);
    else
      i.disconnect(e[k]), o.disconnect(e[k]);
    in[k] = add;
    for(auto* v : {&i.cables(), &o.cables()})
    {
      vp_assert(v->size() == size_t(in[0] + in[1] + in[2]), "a cable is there once");
      for(int j = 0; j < 3; j++)
        vp_assert((std::find(v->begin(), v->end(), e[j]) != v->end()) == in[j], "exactly when it is connected");
    }
  }
}
VP_CONTRACT(ports)
{
  value_inlet vi; value_outlet vo; audio_inlet ai; audio_outlet ao; midi_inlet mi; midi_outlet mo;
  inlet* ins[3] = {&ai, &mi, &vi};
  outlet* outs[3] = {&ao, &mo, &vo};
  const int k = small("k", 2);
  inlet& i = *ins[k];
  outlet& o = *outs[k];
  vp_assert(i.which() == o.which() && i.which() == (size_t)k, "a port is of its kind");
  vp_assert((void*)i.target<audio_port>() == (k == 0 ? &ai.data : nullptr) && (void*)i.target<midi_port>() == (k == 1 ? &mi.data : nullptr) && (void*)i.target<value_port>() == (k == 2 ? &vi.data : nullptr), "and gives its data for that kind only");
  vp_assert((void*)o.target<audio_port>() == (k == 0 ? &ao.data : nullptr) && (void*)o.target<midi_port>() == (k == 1 ? &mo.data : nullptr) && (void*)o.target<value_port>() == (k == 2 ? &vo.data : nullptr), "and gives its data for that kind only");
}
