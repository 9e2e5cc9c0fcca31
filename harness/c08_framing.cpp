// C08: stream framing (SLIP, size prefix), writers, replies, configurations.
#include "vp.hpp"
#include <ossia/network/sockets/configuration.hpp>
#include <ossia/network/sockets/framing.hpp>
#include <ossia/network/sockets/null_socket.hpp>
#include <ossia/network/sockets/websocket_reply.hpp>
#include <ossia/network/sockets/writers.hpp>
#include <boost/asio/post.hpp>
#include <deque>
using vp::M;
namespace asio = boost::asio;
using ec_t = boost::system::error_code;

static std::string hex(const std::string& s)
{
  std::string o;
  char b[4];
  for (unsigned char c : s.substr(0, 60)) { snprintf(b, 4, "%02x ", c); o += b; }
  if (s.size() > 60) o += vp::str("...(", s.size(), ")");
  return o;
}
static std::string hex(const std::vector<std::string>& v)
{
  std::string o = vp::str(v.size(), " messages: ");
  for (size_t k = 0; k < v.size() && k < 8; k++) o += "[" + hex(v[k]) + "] ";
  return o;
}

// A stream that reads scripted chunks, then fails; writes are short.
struct script_stream
{
  using executor_type = asio::io_context::executor_type;
  asio::io_context& ctx;
  std::deque<std::string> chunks;
  ec_t last = asio::error::eof;
  std::string written;
  size_t reads_after_end = 0;
  bool short_writes = true;

  executor_type get_executor() { return ctx.get_executor(); }
  template <typename B, typename H>
  void async_read_some(const B& bufs, H&& h)
  {
    size_t n = 0;
    ec_t ec;
    if (chunks.empty())
    {
      // a caller which ignores the error would read forever
      ec = reads_after_end++ < 50 ? last : ec_t(asio::error::operation_aborted);
    }
    else
    {
      n = asio::buffer_copy(bufs, asio::buffer(chunks.front()));
      chunks.front().erase(0, n);
      if (chunks.front().empty()) chunks.pop_front();
    }
    asio::post(ctx, [h = std::move(h), ec, n]() mutable { h(ec, n); });
  }
  template <typename B>
  size_t write_some(const B& bufs, ec_t& ec)
  {
    ec = {};
    std::string all(asio::buffer_size(bufs), 0);
    asio::buffer_copy(asio::buffer(all), bufs);
    if (short_writes && all.size() > 1) all.resize(M.r.i(1, all.size()));
    written += all;
    return all.size();
  }
  template <typename B>
  size_t write_some(const B& bufs)
  {
    ec_t ec;
    return write_some(bufs, ec);
  }
};

struct endpoint
{
  int closed = 0, failed = 0;
  void on_close() { closed++; }
  void on_fail() { failed++; }
};

static std::string message(size_t max)
{
  static const char special[] = "\xc0\xdb\xdc\xdd\xc0\xdb\x00";
  size_t n = M.r.b(1, 3) ? M.r.i(1, 6) : max > 999 && M.r.b(1, 12) ? M.r.i(std::min<size_t>(1000, max), max) : M.r.i(1, 80);
  std::string s(n, 0);
  int mode = M.r.i(0, 2);
  for (auto& c : s)
    c = mode == 0 ? char(M.r.next()) : mode == 1 ? special[M.r.i(0, 6)] : (M.r.b(1, 10) ? special[M.r.i(0, 6)] : char('a' + M.r.i(0, 25)));
  return s;
}
static std::vector<std::string> messages(size_t lo, size_t hi, size_t max)
{
  std::vector<std::string> v(M.r.i(lo, hi));
  for (auto& m : v) m = message(max);
  return v;
}
static std::deque<std::string> cut(const std::string& s)
{
  std::deque<std::string> d;
  int mode = M.r.i(0, 3);
  for (size_t p = 0; p < s.size();)
  {
    size_t n = mode == 0 ? s.size() : mode == 1 ? (s.size() < 4000 ? 1 : M.r.i(1, 999)) : mode == 2 ? M.r.i(1, 7) + (s.size() > 4000 ? 500 : 0) : M.r.i(1, 3000);
    n = std::min(n, s.size() - p);
    d.push_back(s.substr(p, n));
    p += n;
  }
  return d;
}
static std::string slip_of(const std::string& m)
{
  std::string o = "\xc0";
  for (char c : m)
    if (c == '\xc0') o += "\xdb\xdc";
    else if (c == '\xdb') o += "\xdb\xdd";
    else o += c;
  return o + "\xc0";
}
static std::string size_of(uint32_t n)
{
  return {char(n >> 24), char(n >> 16), char(n >> 8), char(n)};
}

struct result
{
  std::vector<std::string> got;
  int closed, failed;
  size_t reads_after_end;
};
// Receives a whole stream through the decoder of a framing
template <typename Framing>
static result receive(std::deque<std::string> chunks, ec_t last, bool thrower = false)
{
  asio::io_context ctx;
  script_stream s{ctx, std::move(chunks), last};
  endpoint self;
  std::vector<std::string> got;
  auto f = [&](const char* d, size_t n) {
    got.emplace_back(d, n);
    if (thrower && got.size() % 2) throw std::runtime_error("message handler");
  };
  typename Framing::template decoder<script_stream> dec{s};
  dec.receive(ossia::net::stream_processor<endpoint, decltype(f)>{self, f});
  ctx.run();
  return {got, self.closed, self.failed, s.reads_after_end};
}
template <typename Framing>
static std::string encode(const std::vector<std::string>& msgs)
{
  asio::io_context ctx;
  script_stream s{ctx};
  typename Framing::template encoder<script_stream> enc{s};
  for (auto& m : msgs)
  {
    // exact-size allocation: reading past the message is an ASan report
    std::vector<char> v(m.begin(), m.end());
    enc.write(v.data(), v.size());
  }
  return s.written;
}
static void ended(const result& r, ec_t last, const char* fw)
{
  bool eof = last == asio::error::eof;
  VCHECKC(r.closed == (eof ? 1 : 0) && r.failed == (eof ? 0 : 1), "stream_end_notified_once", vp::str(fw, last.message()), "end ", last.message(), " closed ", r.closed, " failed ", r.failed);
  VCHECKC(r.reads_after_end <= 1, "no_read_after_end", vp::str(fw, last.message()), r.reads_after_end, " reads after the stream ended with ", last.message());
}
static ec_t any_end()
{
  switch (M.r.i(0, 4))
  {
    case 0: return asio::error::connection_reset;
    case 1: return asio::error::operation_aborted;
    case 2: return asio::error::broken_pipe;
    default: return asio::error::eof;
  }
}

VP_SECTION(slip)
{
  using F = ossia::net::slip_framing;
  for (size_t k = 0; k < M.n(2500); k++)
  {
    auto msgs = messages(0, 6, k % 40 == 0 ? 70000 : 3000);
    M.at("slip_encode", hex(msgs));
    std::string want;
    for (auto& m : msgs) want += slip_of(m);
    auto enc = encode<F>(msgs);
    VCHECK(enc == want, "slip_encode", hex(msgs), " -> ", hex(enc), " want ", hex(want));
    M.seen(want);
    M.sample(hex(want));

    M.at("slip_decode", hex(want));
    auto last = any_end();
    auto r = receive<F>(cut(want), last);
    VCHECK(r.got == msgs, "slip_decode", hex(want), " -> ", hex(r.got), " want ", hex(msgs));
    ended(r, last, "slip ");

    // the last message is not delivered before its end
    if (!msgs.empty())
    {
      auto last_len = slip_of(msgs.back()).size();
      auto trunc = want.substr(0, want.size() - M.r.i(1, last_len));
      M.at("slip_truncated", hex(trunc));
      r = receive<F>(cut(trunc), last);
      auto w = msgs;
      w.pop_back();
      VCHECK(r.got == w, "slip_truncated", hex(trunc), " -> ", hex(r.got), " want ", hex(w));
      ended(r, last, "slip ");
    }
    // noise between the packets: it delays at most the packet that follows
    auto msgs2 = messages(2, 5, 200);
    std::string noise = message(300), s = noise;
    if (M.r.b()) { msgs.clear(); s = noise; }
    else s = want + noise;
    for (auto& m : msgs2) s += slip_of(m);
    M.at("slip_resync", hex(s));
    r = receive<F>(cut(s), last);
    std::vector<std::string> tail(msgs2.begin() + 1, msgs2.end());
    VCHECK(r.got.size() >= tail.size() && std::equal(tail.rbegin(), tail.rend(), r.got.rbegin()), "slip_resync", hex(s), " -> ", hex(r.got), " want ... ", hex(tail));
    // empty packets and stray delimiters lose nothing
    s.clear();
    for (auto& m : msgs2) s += std::string(M.r.i(0, 1) * 2, '\xc0') + slip_of(m);
    M.at("slip_empty", hex(s));
    r = receive<F>(cut(s), last);
    VCHECK(r.got == msgs2, "slip_empty", hex(s), " -> ", hex(r.got));
    // an invalid escape discards its packet only
    s.clear();
    std::vector<std::string> w;
    for (auto& m : msgs2)
    {
      if (M.r.b(1, 3))
      {
        std::string bad = "\xc0" + std::string("abcdef").substr(0, M.r.i(0, 6)) + "\xdb";
        int inv;
        do inv = M.r.i(0, 255);
        while (inv == 0xdc || inv == 0xdd || inv == 0xc0);
        bad += char(inv);
        bad += std::string("ghijkl").substr(0, M.r.i(0, 6)) + "\xc0";
        s += bad;
      }
      s += slip_of(m);
      w.push_back(m);
    }
    M.at("slip_bad_escape", hex(s));
    r = receive<F>(cut(s), last);
    VCHECK(r.got == w, "slip_bad_escape", hex(s), " -> ", hex(r.got), " want ", hex(w));
  }
}

VP_SECTION(size_prefix)
{
  using F = ossia::net::size_prefix_framing;
  for (size_t k = 0; k < M.n(2500); k++)
  {
    auto msgs = messages(0, 6, k % 40 == 0 ? 140000 : 3000);
    M.at("size_encode", hex(msgs));
    std::string want;
    for (auto& m : msgs) want += size_of(m.size()) + m;
    auto enc = encode<F>(msgs);
    VCHECK(enc == want, "size_encode", hex(msgs), " -> ", hex(enc), " want ", hex(want));
    M.seen(want);
    M.sample(hex(want));

    M.at("size_decode", hex(want));
    auto last = any_end();
    bool thrower = M.r.b(1, 4);
    auto r = receive<F>(cut(want), last, thrower);
    VCHECK(r.got == msgs, "size_decode", hex(want), " -> ", hex(r.got), " want ", hex(msgs));
    ended(r, last, "size ");
    if (!msgs.empty())
    {
      auto trunc = want.substr(0, want.size() - M.r.i(1, msgs.back().size() + 4));
      M.at("size_truncated", hex(trunc));
      r = receive<F>(cut(trunc), last);
      auto w = msgs;
      w.pop_back();
      VCHECK(r.got == w, "size_truncated", hex(trunc), " -> ", hex(r.got), " want ", hex(w));
      ended(r, last, "size ");
    }
    // empty packets are skipped
    std::string s;
    for (auto& m : msgs) s += std::string(M.r.i(0, 1) * 4, 0) + size_of(m.size()) + m;
    M.at("size_empty", hex(s));
    r = receive<F>(cut(s), last);
    VCHECK(r.got == msgs, "size_empty", hex(s), " -> ", hex(r.got));
    // a negative size never delivers anything after it
    s = want + size_of(0x80000000u | uint32_t(M.r.next())) + message(100);
    M.at("size_negative", hex(s));
    r = receive<F>(cut(s), last);
    VCHECK(r.got == msgs, "size_negative", hex(s), " -> ", hex(r.got));
  }
}

struct record_socket
{
  std::vector<std::string> w;
  size_t write(const asio::const_buffer& b) { w.emplace_back((const char*)b.data(), b.size()); return b.size(); }
  size_t write(const char* d, size_t n) { w.emplace_back(d, n); return n; }
  // as any socket's: accepts a part of what it is given
  size_t write_some(const asio::const_buffer& b) { return write((const char*)b.data(), b.size() - b.size() / 3); }
  size_t write_some(const char* d, size_t n) { return write(d, n - n / 3); }
};
VP_SECTION(writers)
{
  for (size_t k = 0; k < M.n(1500); k++)
  {
    std::vector<std::unique_ptr<record_socket>> socks(M.r.i(0, 5));
    for (auto& s : socks) s = std::make_unique<record_socket>();
    using W = ossia::net::multi_socket_writer<std::unique_ptr<record_socket>>;
    W w{socks};
    auto msgs = messages(1, 4, 2000);
    M.at("multi_writer", hex(msgs));
    for (auto& m : msgs)
      if (M.r.b()) w.write(asio::buffer(m));
      else w.write_some(asio::buffer(m));
    for (auto& s : socks) VCHECK(s->w == msgs, "multi_writer", "of ", socks.size(), " sockets one got ", hex(s->w), " want ", hex(msgs));
    for (auto& s : socks) s->w.clear();
    ossia::net::slip_encoder<W> se{w};
    ossia::net::size_prefix_encoder<W> ze{w};
    std::string want;
    for (auto& m : msgs)
      if (M.r.b()) { se.write(m.data(), m.size()); want += slip_of(m); }
      else { ze.write(m.data(), m.size()); want += size_of(m.size()) + m; }
    for (auto& s : socks)
    {
      std::string got;
      for (auto& x : s->w) got += x;
      VCHECK(got == want, "multi_framed", hex(got), " want ", hex(want));
    }
    record_socket rs;
    ossia::net::socket_writer<record_socket> sw{rs};
    for (auto& m : msgs) sw(m.data(), m.size());
    VCHECK(rs.w == msgs, "socket_writer", hex(rs.w));
    M.seen(vp::mix(socks.size(), vp::hash_str(want)));

    // the verdict of a stream processor on each error
    endpoint self;
    int calls = 0;
    auto f = [&](int a, std::string b) { calls += a + int(b.size()); };
    ossia::net::stream_processor<endpoint, decltype(f)> sp{self, f};
    sp(3, std::string("ab"));
    VCHECK(calls == 5, "stream_processor_call", calls);
    VCHECK(sp.validate_stream(ec_t{}) && self.closed == 0 && self.failed == 0, "validate_ok", "");
    VCHECK(!sp.validate_stream(asio::error::eof) && self.closed == 1 && self.failed == 0, "validate_eof", self.closed, self.failed);
    VCHECK(!sp.validate_stream(asio::error::operation_aborted) && self.closed == 1 && self.failed == 1, "validate_aborted", self.closed, self.failed);
    VCHECK(!sp.validate_stream(asio::error::connection_reset) && self.closed == 1 && self.failed == 2, "validate_reset", self.closed, self.failed);
  }
  M.at("reply");
  for (size_t k = 0; k < M.n(1500); k++)
  {
    auto m = message(500);
    rapidjson::StringBuffer sb;
    for (char c : m) sb.Put(c);
    using R = ossia::net::server_reply;
    R a{sb};
    VCHECK(a.type == R::data_type::json && a.data == m, "reply_json", hex(m), " -> ", hex(a.data));
    R b{std::string(m)};
    VCHECK(b.type == R::data_type::html && b.data == m, "reply_html", hex(m), " -> ", hex(b.data));
    R c;
    c.type = R::data_type::binary;
    c.data = m;
    R d = c;
    R e = std::move(c);
    VCHECK(d.type == R::data_type::binary && d.data == m && e.type == d.type && e.data == m, "reply_copy", hex(m));
    M.seen(vp::hash_str(m, 3));
  }
  M.at("config_defaults");
  ossia::net::serial_configuration sc;
  VCHECK(sc.baud_rate == 19200 && sc.character_size == 8 && sc.flow_control == ossia::net::serial_configuration::no_flow_control && sc.parity == ossia::net::serial_configuration::no_parity && sc.stop_bits == ossia::net::serial_configuration::one && sc.port.empty(), "serial_defaults", sc.baud_rate);
  ossia::net::udp_configuration uc;
  ossia::net::unix_dgram_configuration xc;
  VCHECK(!uc.local && !uc.remote && !xc.local && !xc.remote, "optional_ends", "");
  VCHECK(ossia::net::ws_server_configuration{}.port == 0, "ws_port", "");
  VCHECK(std::is_empty_v<ossia::net::null_socket>, "null_socket", "");
}

// The sockets of the framed protocols, one server and several clients.
template <typename Server, typename Client>
static void sockets(const char* name)
{
  if (!M.scratch.empty() && chdir(M.scratch.c_str()) != 0) return;
  for (size_t k = 0; k < M.n(80); k++)
  {
    M.at("stream_sockets", name);
    asio::io_context ctx;
    ossia::net::fd_configuration conf{vp::str("s", k, name)};
    std::vector<std::string> at_server;
    auto srv = std::make_unique<Server>(conf, ctx);
    srv->listen([&](const char* d, size_t n) { at_server.emplace_back(d, n); });
    struct cl
    {
      std::unique_ptr<Client> c;
      std::vector<std::string> got;
      int closed = 0, failed = 0;
      void on_closed() { closed++; }
    };
    std::vector<std::unique_ptr<cl>> cs(M.r.i(1, 3));
    for (auto& c : cs)
    {
      c = std::make_unique<cl>();
      c->c = std::make_unique<Client>(conf, ctx);
      c->c->on_close.template connect<&cl::on_closed>(*c);
      c->c->connect();
      ctx.poll();
      c->c->receive([p = c.get()](const char* d, size_t n) { p->got.emplace_back(d, n); });
    }
    auto wait = [&](auto cond) {
      for (int t = 0; t < 3000 && !cond(); t++)
      {
        ctx.restart();
        ctx.poll();
        if (!cond()) usleep(t < 50 ? 20 : 1000);
      }
    };
    wait([&] { return srv->m_sockets.size() == cs.size(); });
    VCHECK(srv->m_sockets.size() == cs.size(), "accepted", srv->m_sockets.size(), " of ", cs.size());
    std::vector<std::string> sent;
    for (int j = M.r.i(1, 10); j-- > 0;)
    {
      auto m = message(120);
      sent.push_back(m);
      cs[M.r.i(0, cs.size() - 1)]->c->write(m.data(), m.size());
      wait([&] { return at_server.size() == sent.size(); });
    }
    VCHECK(at_server == sent, "server_receives", hex(at_server), " want ", hex(sent));
    auto bc = messages(1, 3, 120);
    for (auto& m : bc) srv->write(m.data(), m.size());
    for (auto& c : cs)
    {
      wait([&] { return c->got.size() >= bc.size(); });
      VCHECK(c->got == bc, "every_client_receives", hex(c->got), " want ", hex(bc));
    }
    M.seen(vp::mix(cs.size(), vp::hash_str(sent[0])));
    srv.reset();
    for (auto& c : cs)
    {
      wait([&] { return c->closed > 0; });
      VCHECK(c->closed == 1, "client_sees_close", c->closed);
    }
    ctx.restart();
    ctx.poll();
  }
}
VP_SECTION(unix_slip) { sockets<ossia::net::unix_stream_slip_server, ossia::net::unix_stream_slip_client>("slip"); }
VP_SECTION(unix_size) { sockets<ossia::net::unix_stream_size_prefix_server, ossia::net::unix_stream_size_prefix_client>("size"); }

VP_MAIN
