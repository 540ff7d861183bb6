// SLIP framing: encoder and decoder.
// VP-OPT: unroll=1
// VP-FN: ossia::net::slip_decoder::process_byte / process_bytes / receive [network/sockets/slip_framing.hpp]
// VP-FN: ossia::net::slip_encoder::write [network/sockets/slip_framing.hpp]
// VP-NOINLINE: 12process_byteI5Count
// VP-ASSUME: frames are shorter than 2^30 bytes; allocation does not fail; boost::asio::write sends the whole buffer in order
#include <vp.hpp>
#include <new>
// boost::asio::write by its contract: the whole buffer is sent, in order
#include <boost/asio/buffer.hpp>
struct OutSocket {};
static void on_write(const void* data, size_t n);
namespace boost::asio
{
inline size_t write(OutSocket&, const const_buffer& b)
{
  on_write(b.data(), b.size());
  return b.size();
}
}
#include <ossia/network/sockets/slip_framing.hpp>
using namespace ossia::net;
static const uint8_t END = 192, ESC = 219, ESC_END = 220, ESC_ESC = 221;

struct NoSocket {};
using Dec = slip_decoder<NoSocket>;

struct Vec { char *b, *e, *c; };
static void set_vec(ossia::pod_vector<char>& v, char* b, size_t n, size_t cap)
{
  static_assert(sizeof(v) == sizeof(Vec));
  Vec r{b, b + n, b + cap};
  memcpy((void*)&v, &r, sizeof(r));
}
alignas(16) static char storage[sizeof(Dec)];

static int delivered;
static const char* d_data;
static size_t d_size;
struct Rec
{
  void operator()(const char* d, size_t s) const
  {
    delivered++;
    d_data = d;
    d_size = s;
  }
};

// one received byte, in any state of the decoder
static void dict()
{
  vp_config("dict", END);
  vp_config("dict", ESC);
  vp_config("dict", ESC_END);
  vp_config("dict", ESC_ESC);
}
VP_CONTRACT(step)
{
  dict();
  NoSocket so;
  Dec& d = reinterpret_cast<Dec&>(storage);
  const size_t n = vp_i64("n"), cap = vp_i64("cap");
  vp_assume(n <= cap && cap < (1u << 30) && cap >= 1);
  char* buf = vp::buffer<char>("pending", cap);
  new(&d.m_decoded) ossia::pod_vector<char>;
  set_vec(d.m_decoded, buf, n, cap);
  const int st = vp_i32("state");
  vp_assume(st >= 0 && st <= 2);
  d.m_status = decltype(d.m_status)(st);
  const bool outside = d.m_status == Dec::waiting, esc = d.m_status == Dec::reading_esc;
  const size_t k = vp_i64("k"); // any position of the pending frame
  vp_assume(k < n || n == 0);
  const char old = n ? buf[k] : 0;
  const uint8_t c = vp_i8("byte");
  delivered = 0;
  if(outside)
    vp_assume(n == 0);
  d.process_byte(Rec{}, c);

  const size_t m = d.m_decoded.size();
  if(outside)
  {
    vp_assert(delivered == 0 && m == 0, "outside of a frame nothing is delivered nor kept");
    vp_assert((d.m_status == Dec::reading_char) == (c == END) && d.m_status != Dec::reading_esc, "only END opens a frame");
  }
  else if(esc)
  {
    vp_assert(delivered == 0, "an escape sequence delivers nothing");
    if(c == ESC_END || c == ESC_ESC)
    {
      vp_assert(d.m_status == Dec::reading_char && m == n + 1, "an escape sequence adds one byte to the frame");
      vp_assert((uint8_t)d.m_decoded[n] == (c == ESC_END ? END : ESC), "the escaped byte is END or ESC");
      vp_assert(n == 0 || d.m_decoded[k] == old, "the frame received so far is kept by an escape sequence");
    }
    else
      vp_assert(m == 0 && d.m_status != Dec::reading_esc, "a malformed escape drops the frame");
  }
  else if(c == END)
  {
    if(n > 0)
    {
      vp_assert(delivered == 1, "END delivers the frame once");
      vp_assert(d_size == n && d_data == buf && buf[k] == old, "the whole frame is delivered unchanged");
      vp_assert(d.m_status == Dec::waiting && m == 0, "after a frame the decoder waits for the next one");
    }
    else
    {
      vp_assert(delivered == 0 && m == 0, "an empty frame is not delivered");
      vp_assert(d.m_status == Dec::reading_char, "END after END opens a frame");
    }
  }
  else if(c == ESC)
  {
    vp_assert(delivered == 0 && m == n && d.m_status == Dec::reading_esc, "ESC starts an escape sequence");
    vp_assert(n == 0 || d.m_decoded[k] == old, "the frame received so far is kept by ESC");
  }
  else
  {
    vp_assert(delivered == 0 && d.m_status == Dec::reading_char && m == n + 1, "a plain byte extends the frame");
    vp_assert((uint8_t)d.m_decoded[n] == c, "a plain byte is kept as it is");
    vp_assert(n == 0 || d.m_decoded[k] == old, "the frame received so far is kept by a plain byte");
  }
  vp_cover("end");
}

// encoder: the bytes it writes, read as SLIP, are the message
struct Sink
{
  int state; // 0 before the frame, 1 in it, 2 after ESC, 3 after the frame
  size_t count;
};
static Sink s;
static const uint8_t* msg;
static size_t len;
static bool written_ok;
static void on_byte(uint8_t c)
{
  switch(s.state)
  {
    case 0:
      vp_assert(c == END, "the frame starts with END");
      s.state = 1;
      break;
    case 1:
      if(c == END)
      {
        vp_assert(s.count == len, "END is only written after the whole message");
        s.state = 3;
      }
      else if(c == ESC)
        s.state = 2;
      else
      {
        vp_assert(s.count < len && msg[s.count] == c, "plain bytes are the message's");
        s.count++;
      }
      break;
    case 2:
      vp_assert(c == ESC_END || c == ESC_ESC, "ESC is followed by a valid code");
      vp_assert(s.count < len && msg[s.count] == (c == ESC_END ? END : ESC), "escaped bytes are the message's");
      s.count++;
      s.state = 1;
      break;
    default:
      vp_assert(false, "nothing is written after the frame");
  }
}
static size_t kk; // any position of the message
static bool plain(uint8_t c) { return c != END && c != ESC; }
static void on_write(const void* data, size_t n)
{
  const uint8_t* p = (const uint8_t*)data;
  if(n == 1 && (s.state != 1 || !plain(p[0])))
    on_byte(p[0]);
  else if(n == 2 && p[0] == ESC)
  {
    on_byte(p[0]);
    on_byte(p[1]);
  }
  else if(vp_exact())
  {
    for(size_t i = 0; i < n; i++)
      on_byte(p[i]);
  }
  else
  {
    // a run of plain bytes
    vp_abstract(s.state == 1 && s.count <= len && n <= len - s.count, "a run lies inside of the message");
    vp_abstract(vp_same_object(p, msg), "a run is written from the message");
    if(kk >= s.count && kk - s.count < n)
      vp_assert(p[kk - s.count] == msg[kk] && plain(msg[kk]), "runs contain the message's bytes, none of them special");
    s.count += n;
  }
}
static bool t_outer(int64_t off) { return s.state == 1 && (size_t)off == s.count && s.count <= len; }
static bool t_scan(int64_t off)
{
  return s.state == 1 && s.count < len && (size_t)off > s.count && (size_t)off <= len && (!(kk >= s.count && kk < (size_t)off) || plain(msg[kk]));
}
static bool t_in(int64_t off) { return s.state == 1 && s.count < len && (size_t)off >= s.count && (size_t)off < len; }
static int64_t m_outer() { return len - s.count; }

VP_CONTRACT(encode)
{
  dict();
  vp_template("i", (void*)&t_outer);
  vp_template("p", (void*)&t_scan);
  vp_template("p", (void*)&t_in);
  vp_config("terminates", 1);
  len = vp_i64("len");
  vp_assume(len < (1u << 30));
  kk = vp_i64("k");
  vp_assume(kk < len || len == 0);
  msg = vp::buffer<uint8_t>("message", len);
  s = Sink{};
  OutSocket so;
  slip_encoder<OutSocket> e{so};
  e.write((const char*)msg, len);
  vp_assert(s.state == 3, "the frame is closed");
  vp_assert(s.count == len, "the whole message is written");
  vp_cover("end");
}

// the bytes of one read, in order, through the decoder; then the next read is armed
struct InSocket
{
  char* dest{};
  size_t room{};
  int armed{};
  bool (*pump)(){};
  template <typename B, typename H>
  void async_read_some(const B& b, H h)
  {
    armed++;
    dest = (char*)b.data();
    room = b.size();
    if(armed == 1)
      run(std::move(h));
  }
  template <typename H>
  void run(H h);
};
static int r_kind;
static size_t r_n;
static uint8_t r_bytes[3];
static size_t r_valid_calls;
struct Proc
{
  void operator()(const char* d, size_t n) const
  {
    vp_assert(n == 1 && (uint8_t)d[0] == r_bytes[1], "the frame in the read is delivered");
    delivered++;
  }
  bool validate_stream(boost::system::error_code ec) const
  {
    r_valid_calls++;
    return !(ec == boost::asio::error::eof || ec == boost::asio::error::operation_aborted);
  }
};
template <typename H>
void InSocket::run(H h)
{
  vp_assert(room >= 3, "the read buffer has room");
  for(size_t i = 0; i < r_n; i++)
    dest[i] = r_bytes[i];
  boost::system::error_code ec;
  if(r_kind == 1)
    ec = boost::asio::error::make_error_code(boost::asio::error::eof);
  h(ec, r_n);
}
VP_CONTRACT(receive)
{
  InSocket so;
  slip_decoder<InSocket> d{so};
  r_kind = vp_bool("eof");
  r_n = r_kind ? 0 : 3;
  r_bytes[0] = END;
  r_bytes[1] = vp_i8("payload");
  r_bytes[2] = END;
  vp_assume(plain(r_bytes[1]));
  delivered = 0;
  d.receive(Proc{});
  vp_assert(r_valid_calls == 1, "the stream status is checked for every read");
  if(r_kind)
    vp_assert(delivered == 0 && so.armed == 1, "a closed stream is not read again");
  else
    vp_assert(delivered == 1 && so.armed == 2, "after a read the next one is armed");
}

// a read of any size: every byte goes through the decoder once, in order
struct BulkSocket
{
  int armed{};
  template <typename B, typename H>
  void async_read_some(const B& b, H h);
};
static const uint8_t* b_src;
static size_t b_n, b_i;
static void one_byte(void*, const void*, uint8_t c)
{
  vp_assert(b_i < b_n, "no byte that was not received is decoded");
  vp_assert(c == b_src[b_i], "bytes are decoded in the order of their arrival");
  b_i++;
}
struct Count
{
  void operator()(const char* d, size_t n) const;
  bool validate_stream(boost::system::error_code) const { return true; }
};
template <typename B, typename H>
void BulkSocket::async_read_some(const B& b, H h)
{
  armed++;
  if(armed > 1)
    return;
  vp_assume(b_n <= b.size());
  memcpy(b.data(), b_src, b_n);
  h(boost::system::error_code{}, b_n);
}
// reference decoder, for the native runs
struct Ref
{
  int state{};
  size_t n{}, frames{};
  uint8_t buf[1024], last[1024];
  size_t lastn{};
  void operator()(uint8_t c)
  {
    if(state == 0)
      state = c == END;
    else if(state == 2)
    {
      state = c == ESC_END || c == ESC_ESC;
      if(state)
        buf[n++] = c == ESC_END ? END : ESC;
      else
        n = 0;
    }
    else if(c == ESC)
      state = 2;
    else if(c != END)
      buf[n++] = c;
    else if(n > 0)
    {
      memcpy(last, buf, lastn = n);
      frames++;
      n = state = 0;
    }
  }
};
static size_t c_frames, c_n;
static uint8_t c_last[1024];
void Count::operator()(const char* d, size_t n) const
{
  c_frames++;
  memcpy(c_last, d, c_n = n);
}
VP_CONTRACT(read_all)
{
  dict();
  if(vp_symbolic())
    vp_replace_name("12process_byteI5Count", (void*)&one_byte);
  b_n = vp_i64("n");
  vp_assume(b_n <= 1024);
  b_src = vp::buffer<uint8_t>("bytes", b_n);
  b_i = c_frames = c_n = 0;
  BulkSocket so;
  slip_decoder<BulkSocket> d{so};
  d.receive(Count{});
  if(!vp_symbolic())
  {
    static Ref r;
    r = Ref{};
    for(size_t i = 0; i < b_n; i++)
      r(b_src[i]);
    vp_assert(r.frames == c_frames && r.lastn == c_n && memcmp(r.last, c_last, c_n) == 0, "frames of the read");
    return;
  }
  vp_assert(b_i == b_n, "every received byte is decoded");
  vp_assert(so.armed == 2, "the next read is armed after a read of any size");
}
