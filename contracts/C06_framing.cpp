// Size-prefixed framing, and the writers that carry frames to the sockets.
// VP-FN: ossia::net::size_prefix_encoder::write [network/sockets/size_prefix_framing.hpp]
// VP-FN: ossia::net::size_prefix_decoder::receive / read_size / read_data [network/sockets/size_prefix_framing.hpp]
// VP-FN: ossia::net::multi_socket_writer::write / write_some, socket_writer, stream_processor [network/sockets/writers.hpp]
// VP-ASSUME: boost::asio::write sends the whole buffer in order; boost::asio::async_read completes with the whole buffer or an error; async_read_some completes with at least one byte or an error
// VP-ASSUME: messages are shorter than 2^31 bytes (the format's limit)
#include <vp.hpp>
#include <boost/asio/buffer.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/completion_condition.hpp>
struct OutSocket {};
static void on_write(const void* data, size_t n);
struct InSocket;
template <typename H>
static void on_read(InSocket&, char* to, size_t n, H h, bool exact);
namespace boost::asio
{
inline size_t write(OutSocket&, const const_buffer& b)
{
  on_write(b.data(), b.size());
  return b.size();
}
template <typename B, typename C, typename H>
void async_read(InSocket& s, const B& b, C, H h)
{
  on_read(s, (char*)b.data(), b.size(), std::move(h), true);
}
template <typename B, typename H>
void async_read(InSocket& s, const B& b, H h)
{
  on_read(s, (char*)b.data(), b.size(), std::move(h), true);
}
}
#include <ossia/network/sockets/size_prefix_framing.hpp>
using namespace ossia::net;

// ---------------------------------------------------------------- encoder
static const uint8_t* msg;
static size_t len, kk;
static size_t sent;
static void on_write(const void* data, size_t n)
{
  const uint8_t* p = (const uint8_t*)data;
  vp_assert(n <= 4 + len - sent, "no more than the prefix and the message is sent");
  // position kk of the stream
  if(kk >= sent && kk - sent < n)
  {
    const uint8_t c = p[kk - sent];
    if(kk < 4)
      vp_assert(c == (uint8_t)(len >> (8 * (3 - kk))), "the prefix is the size, most significant byte first");
    else
      vp_assert(c == msg[kk - 4], "the message follows, unchanged");
  }
  sent += n;
}
VP_CONTRACT(encode)
{
  len = vp_i64("len");
  vp_assume(len < (1ull << 31));
  kk = vp_i64("k");
  vp_assume(kk < 4 + len);
  msg = vp::buffer<uint8_t>("message", len);
  sent = 0;
  OutSocket so;
  size_prefix_encoder<OutSocket> e{so};
  e.write((const char*)msg, len);
  vp_assert(sent == 4 + len, "the prefix and the message are sent");
}

// ---------------------------------------------------------------- decoder
struct InSocket
{
  template <typename B, typename H>
  void async_read_some(const B& b, H h)
  {
    on_read(*this, (char*)b.data(), b.size(), std::move(h), false);
  }
};
static int reads;       // read requests made so far
static uint8_t prefix[4];
static size_t got_prefix;
static uint32_t size;
static char* body;
static int err_at;      // 1: the prefix read fails, 2: the body read fails
static int err_kind;    // 0 eof, 1 aborted, 2 another error
static int delivered, validated;
static bool throws;
static boost::system::error_code error()
{
  if(err_kind == 0)
    return boost::asio::error::make_error_code(boost::asio::error::eof);
  if(err_kind == 1)
    return boost::asio::error::make_error_code(boost::asio::error::operation_aborted);
  return boost::asio::error::make_error_code(boost::asio::error::connection_reset);
}
struct Proc
{
  void operator()(const char* d, size_t n) const
  {
    delivered++;
    vp_assert(got_prefix == 4 && n == size && err_at == 0, "a frame is delivered once it was received entirely");
    if(kk < size)
      vp_assert(d[kk] == body[kk], "the frame is delivered unchanged");
    if(throws)
      throw 1;
  }
  bool validate_stream(boost::system::error_code ec) const
  {
    validated++;
    return !(ec == boost::asio::error::eof || ec == boost::asio::error::operation_aborted);
  }
};
static bool got_body;
template <typename H>
static void on_read(InSocket&, char* to, size_t n, H h, bool exact)
{
  reads++;
  if(got_prefix < 4)
  {
    vp_assert(n <= 4 - got_prefix, "the prefix is read before anything else");
    size_t k = n;
    if(err_at == 1)
      return h(error(), 0);
    if(!exact)
    {
      k = 1 + (vp_i8("part") & 3);
      vp_assume(k <= n);
    }
    memcpy(to, prefix + got_prefix, k);
    got_prefix += k;
    return h(boost::system::error_code{}, k);
  }
  if(got_body)
    return;
  vp_assert(n == size && exact, "exactly the announced size is read");
  got_body = true;
  if(err_at == 2)
    return h(error(), 0);
  memcpy(to, body, n);
  h(boost::system::error_code{}, n);
}
static void setup()
{
  size = vp_i32("size");
  for(int i = 0; i < 4; i++)
    prefix[i] = size >> (8 * (3 - i));
  got_prefix = 0;
  reads = delivered = validated = 0;
  got_body = throws = false;
  err_at = 0;
  kk = vp_i64("k");
}
struct CVec { char *b, *e, *c; };
// a decoder left in any state by the frames before
static size_prefix_decoder<InSocket>& decoder(InSocket& so)
{
  alignas(16) static char storage[sizeof(size_prefix_decoder<InSocket>)];
  auto& d = *new(storage) size_prefix_decoder<InSocket>{so};
  const size_t n = vp_i64("old_size"), cap = vp_i64("old_cap");
  vp_assume(n <= cap && cap >= 1 && cap < (1u << 30));
  char* b = vp::buffer<char>("old_frame", cap);
  static_assert(sizeof(d.m_data) == sizeof(CVec));
  CVec r{b, b + n, b + cap};
  memcpy((void*)&d.m_data, &r, sizeof(r));
  d.m_next_packet_size = vp_i32("old_prefix");
  return d;
}
VP_CONTRACT(decode)
{
  setup();
  vp_assume(size > 0 && size < (1u << 30));
  throws = vp_bool("throws");
  body = vp::buffer<char>("body", size);
  InSocket so;
  auto& d = decoder(so);
  d.receive(Proc{});
  vp_assert(delivered == 1, "each frame is delivered once");
  vp_assert(reads >= 3 && got_body, "the next frame is read afterwards, even when the handler throws");
}
VP_CONTRACT(bad_size)
{
  setup();
  vp_assume((int32_t)size <= 0);
  InSocket so;
  auto& d = decoder(so);
  d.receive(Proc{});
  vp_assert(delivered == 0 && !got_body, "a size that is not positive delivers nothing");
}
VP_CONTRACT(fail)
{
  setup();
  vp_assume(size > 0 && size < (1u << 20));
  err_at = 1 + vp_bool("body_fails");
  err_kind = vp_bool("aborted");
  body = vp::buffer<char>("body", 0);
  InSocket so;
  auto& d = decoder(so);
  d.receive(Proc{});
  vp_assert(delivered == 0, "a failed read delivers nothing");
  vp_assert(reads == err_at && validated == err_at, "a closed stream is not read again");
}

// ---------------------------------------------------------------- writers
struct W
{
  uint32_t id;
  W* operator->() { return this; }
  void write(const boost::asio::const_buffer& b);
};
struct Vec { W *b, *e, *c; };
static W* ws;
static size_t wi, wn;
static const char* wd;
static size_t wl;
void W::write(const boost::asio::const_buffer& b)
{
  vp_assert(wi < wn && this == ws + wi, "the sockets are written in order, each once");
  vp_assert(b.data() == wd && b.size() == wl, "each socket is given the whole buffer");
  wi++;
}
static void multi(bool some)
{
  wn = vp_i64("sockets");
  vp_assume(wn < (1u << 20));
  ws = (W*)vp::buffer<uint32_t>("ids", wn);
  wi = 0;
  wl = vp_i64("size");
  vp_assume(wl < 64);
  wd = vp::buffer<char>("data", 64);
  std::vector<W> v;
  Vec r{ws, ws + wn, ws + wn};
  Vec keep;
  memcpy(&keep, (void*)&v, sizeof(v));
  memcpy((void*)&v, &r, sizeof(r));
  multi_socket_writer<W> m{v};
  if(some)
    m.write_some(boost::asio::const_buffer(wd, wl));
  else
    m.write(boost::asio::const_buffer(wd, wl));
  memcpy((void*)&v, &keep, sizeof(v));
  vp_assert(wi == wn, "every socket is written");
}
VP_CONTRACT(multi_write) { multi(false); }
VP_CONTRACT(multi_write_some) { multi(true); }

struct Self
{
  int fails{}, closes{};
  void on_fail() { fails++; }
  void on_close() { closes++; }
};
struct Got
{
  const char** p;
  size_t* n;
  void operator()(const char* d, size_t s) const { *p = d; *n = s; }
};
VP_CONTRACT(stream)
{
  Self s;
  const char* gp{};
  size_t gn{};
  stream_processor<Self, Got> p{s, Got{&gp, &gn}};
  const int v = vp_i32("code");
  boost::system::error_code ec;
  const bool system = vp_bool("system");
  if(system)
    ec = boost::system::error_code(v, boost::system::system_category());
  else
    ec = boost::system::error_code(v, boost::asio::error::get_misc_category());
  const bool ok = p.validate_stream(ec);
  const bool aborted = system && v == ECANCELED, eof = !system && v == 2;
  vp_assert(s.fails == (aborted ? 1 : 0), "an aborted operation is reported once as a failure");
  vp_assert(s.closes == (eof ? 1 : 0), "the end of the stream is reported once as a close");
  vp_assert(ok == !(aborted || eof), "reading only goes on when the stream is neither aborted nor closed");
  const char data[2]{};
  const size_t n = vp_i64("n");
  p(data, n);
  vp_assert(gp == data && gn == n, "messages are passed on as they are");
}
struct Out
{
  const char* d{};
  size_t n{};
  int k{};
  void write(const char* a, size_t b) { d = a; n = b; k++; }
};
VP_CONTRACT(writer)
{
  Out o;
  socket_writer<Out> w{o};
  const char data[2]{};
  const size_t n = vp_i64("n");
  w(data, n);
  vp_assert(o.k == 1 && o.d == data && o.n == n, "a message is written once, entirely");
}
