// C20: OSC: what a parameter sends is a well-formed message which says its value,
// what it receives becomes its value, whatever else arrives is harmless.
#include "values.hpp"
#include "osc_codec.hpp"
#include <ossia/network/base/message_origin_identifier.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/common/extended_types.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/detail/dataspace_parse.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/context.hpp>
#include <ossia/network/context_functions.hpp>
#include <ossia/network/osc/osc.hpp>
#include <ossia/network/osc/detail/osc.hpp>
#include <ossia/network/osc/detail/osc_receive.hpp>
#include <ossia/network/osc/detail/osc_value_write_visitor.hpp>
#include <ossia/network/osc/detail/message_generator.hpp>
#include <ossia/protocols/osc/osc_factory.hpp>
#include <ossia/protocols/osc/osc_generic_protocol.hpp>
#include <functional>
#include <future>
#include <map>
#include <thread>
using vp::M;
using namespace std::literals;
namespace net = ossia::net;
using T = ossia::val_type;

// ------------------------------------------------------------------ the real protocol, on sockets in memory
struct mem_send
{
  std::vector<std::string> out;
  mem_send() = default;
  template <typename Cf>
  mem_send(const Cf&, boost::asio::io_context&) { }
  void connect() { }
  void write(const char* d, std::size_t n) { out.emplace_back(d, n); }
};
struct mem_recv
{
  std::function<void(const char*, std::size_t)> f;
  mem_recv() = default;
  template <typename Cf>
  mem_recv(const Cf&, boost::asio::io_context&) { }
  void open() { }
  template <typename Fn>
  void receive(Fn fn) { f = fn; }
  void feed(const std::string& p)
  {
    std::unique_ptr<char[]> b{new char[p.size()]}; // exact size: over-reads are seen
    std::memcpy(b.get(), p.data(), p.size());
    f(b.get(), p.size());
  }
};
struct iface
{
  std::unique_ptr<net::generic_device> dev;
  std::function<void(const std::string&)> feed;
  std::vector<std::string>* out{};
  net::protocol_base* proto{};
  ossia::net::can_learn<net::protocol_base>* learn{};
  std::vector<const net::parameter_base*> messages;
  std::vector<std::pair<std::string, mv::val>> unhandled;
  void msg(const net::parameter_base& p) { messages.push_back(&p); }
  void unh(ossia::string_view s, const ossia::value& v) { unhandled.emplace_back(std::string(s), mv::from(v)); }
};
template <typename Mode>
static std::unique_ptr<iface> make_impl()
{
  using P = net::osc_generic_bidir_protocol<Mode, mem_send, mem_recv>;
  auto ctx = std::make_shared<net::network_context>();
  net::send_socket_configuration sc;
  net::receive_socket_configuration rc;
  auto p = std::make_unique<P>(ctx, sc, rc);
  auto r = std::make_unique<iface>();
  r->out = &p->to_client.out;
  auto* rv = &p->from_client;
  r->feed = [rv](const std::string& s) { rv->feed(s); };
  r->proto = p.get();
  r->learn = p.get();
  r->dev = std::make_unique<net::generic_device>(std::move(p), "dev");
  r->dev->on_message.connect<&iface::msg>(r.get());
  r->dev->on_unhandled_message.connect<&iface::unh>(r.get());
  return r;
}
static std::unique_ptr<iface> make(ver v, bool client)
{
  using namespace net;
  if (client)
    switch (v)
    {
      case v10: return make_impl<osc_protocol_client<osc_1_0_policy>>();
      case v11: return make_impl<osc_protocol_client<osc_1_1_policy>>();
      default: return make_impl<osc_protocol_client<osc_extended_policy>>();
    }
  switch (v)
  {
    case v10: return make_impl<osc_protocol_server<osc_1_0_policy>>();
    case v11: return make_impl<osc_protocol_server<osc_1_1_policy>>();
    default: return make_impl<osc_protocol_server<osc_extended_policy>>();
  }
}
static size_t idx(size_t n) { return size_t(M.r.next() % n); }
static const T types[]{T::FLOAT, T::INT, T::VEC2F, T::VEC3F, T::VEC4F, T::IMPULSE, T::BOOL, T::STRING, T::LIST, T::CHAR};

static mv::val gen_for(T t, bool rgba)
{
  auto& r = M.r;
  auto f = [&] { return mv::gen_float(r, true); };
  switch (t)
  {
    case T::FLOAT: return {f()};
    case T::INT: return {mv::gen_int(r)};
    case T::BOOL: return {r.b()};
    case T::CHAR: return {char(r.i(0, 255))};
    case T::STRING: return {mv::gen_string(r, false)};
    case T::VEC2F: return {mv::v2{f(), f()}};
    case T::VEC3F: return {mv::v3{f(), f(), f()}};
    case T::VEC4F:
    {
      auto c = [&] { return rgba ? float(r.i(0, 255)) : f(); };
      return {mv::v4{c(), c(), c(), c()}};
    }
    case T::LIST:
    {
      mv::list l;
      mv::opts o;
      o.none_ = false;
      o.special_floats = true;
      for (int n = r.i(0, 5); n > 0; n--)
        l.push_back(mv::gen(r, o, 1));
      return {l};
    }
    default: return {mv::imp{}};
  }
}
static std::string gen_name()
{
  static const char* const n[] = {"a", "b", "foo", "foo.1", "x-y", "long_name_of_a_node", "1", "c3", "abcd", "abc"};
  return M.r.pick(n);
}
// the packets sent since the last call, decoded
static std::vector<packet> sent(iface& d, const char* rule)
{
  std::vector<packet> r;
  for (auto& s : *d.out)
    try
    {
      r.push_back(dec(s));
    }
    catch (const bad& b)
    {
      VCHECK(false, rule, "malformed packet: ", b.what(), " in ", vp::jesc(s.substr(0, 100)));
    }
  d.out->clear();
  return r;
}

VP_SECTION(encode)
{
  for (int it = 0; it < M.n(3000, 20000); it++)
  {
    const ver k = ver(M.r.i(0, 2));
    const bool client = M.r.b();
    auto d = make(k, client);
    const T t = M.r.pick(types);
    const bool rgba = t == T::VEC4F && M.r.b();
    const bool blob = t == T::STRING && M.r.b(1, 3);
    std::string path;
    for (int n = M.r.i(1, 4); n > 0; n--)
      path += "/" + gen_name();
    auto& node = net::create_node(d->dev->get_root_node(), path);
    auto p = node.create_parameter(t);
    if (rgba)
      p->set_unit(ossia::rgba8_u{});
    if (blob)
      node.set(net::extended_type_attribute{}, ossia::extended_type{"buffer"});
    const int acc = M.r.i(0, 3); // 3: default
    if (acc < 3)
      p->set_access(acc == 0 ? ossia::access_mode::GET : acc == 1 ? ossia::access_mode::SET : ossia::access_mode::BI);
    auto v = gen_for(t, rgba);
    if (t == T::STRING)
    {
      auto& s = std::get<std::string>(v.v);
      if (M.r.b(1, 15))
        s = std::string(M.r.i(15000, 20000), 'q'); // around the stack buffer limit
      if (blob && !s.empty())
        s[idx(s.size())] = char(M.r.i(0, 255)); // any byte may be in a blob
    }
    M.seen(vp::mix(vp::mix(vp::hash_str(mv::S(v)), k), vp::hash_str(path)));
    const std::string addr = node.osc_address();
    args want;
    if (blob)
      want.push_back(Blob(std::get<std::string>(v.v)));
    else
      say(want, v, k, 0, rgba, false);
    const bool refused = client && acc == 0;
    const auto desc = [&] { return vp::str("version ", k, client ? " client " : " server ", addr, " ", mv::S(v).substr(0, 200)); };
    auto check = [&](const char* rule, size_t count) {
      auto ps = sent(*d, rule);
      VCHECK(ps.size() == count, rule, desc(), ": ", ps.size(), " packets for ", count);
      for (auto& q : ps)
      {
        VCHECK(!q.bundle && q.addr == addr, rule, desc(), ": sent to ", q.addr);
        VCHECK(q.a == want, rule, desc(), ": sent ", S(q.a), " for ", S(want));
      }
    };
    // 1. pushed by its owner
    p->push_value(mv::mk(v));
    check("push", refused ? 0 : 1);
    // 2. its current value, again
    p->push_value();
    check("push-again", refused ? 0 : 1);
    // 3. as raw data
    net::full_parameter_data fd;
    fd.address = addr;
    fd.set_value(mv::mk(v));
    fd.unit = p->get_unit();
    fd.access = p->get_access();
    fd.extended = node.get_extended_attributes();
    d->proto->push_raw(fd);
    check("push-raw", refused ? 0 : 1);
    // 4. echoed
    net::message_origin_identifier other{*d->proto, 0};
    struct dummy_proto final : net::protocol_base
    {
      bool pull(net::parameter_base&) override { return false; }
      bool push(const net::parameter_base&, const ossia::value&) override { return false; }
      bool push_raw(const net::full_parameter_data&) override { return false; }
      bool observe(net::parameter_base&, bool) override { return false; }
      bool update(net::node_base&) override { return false; }
    } dp;
    net::message_origin_identifier from{dp, 1};
    d->dev->apply_incoming_message(from, *p, mv::mk(v));
    check("no-echo", 0);
    d->dev->set_echo(true);
    d->dev->apply_incoming_message(from, *p, mv::mk(v));
    check("echo", 1);
    d->dev->apply_incoming_message(other, *p, mv::mk(v));
    check("echo-to-sender", 0);
    // 5. written to a buffer
    {
      ossia::buffer_pool::buffer buf;
      if (M.r.b())
        buf.resize(1024);
      auto val = mv::mk(v);
      auto w = [&](auto pol) {
        using Pl = decltype(pol);
        if (M.r.b())
          val.apply(net::osc_value_write_visitor<net::parameter_base, Pl>{*p, addr, buf});
        else
          val.apply(net::osc_value_write_visitor<net::full_parameter_data, Pl>{fd, addr, buf});
      };
      if (k == v10)
        w(net::osc_1_0_policy{});
      else if (k == v11)
        w(net::osc_1_1_policy{});
      else
        w(net::osc_extended_policy{});
      d->out->emplace_back(buf.data(), buf.size());
      check("write", 1);
    }
    // 6. in a bundle, with others
    {
      std::vector<const net::parameter_base*> ps{p};
      std::vector<net::full_parameter_data> fds{fd};
      struct exp { std::string a; args w; };
      std::vector<exp> ex;
      if (!refused && !blob)
      {
        ex.push_back({addr, {}});
        say(ex.back().w, v, k, 0, rgba, true);
      }
      for (int n = blob ? 0 : M.r.i(0, 4); n > 0; n--)
      {
        const T t2 = M.r.pick(types);
        auto& n2 = net::create_node(d->dev->get_root_node(), "/o/" + gen_name());
        auto p2 = n2.create_parameter(t2);
        auto v2 = gen_for(t2, false);
        const bool get = M.r.b(1, 4);
        if (get)
          p2->set_access(ossia::access_mode::GET);
        p2->set_value(mv::mk(v2));
        ps.push_back(p2);
        net::full_parameter_data f2;
        f2.address = n2.osc_address();
        f2.set_value(mv::mk(v2));
        f2.access = p2->get_access();
        fds.push_back(f2);
        if (!(get && client))
        {
          ex.push_back({n2.osc_address(), {}});
          say(ex.back().w, v2, k, 0, false, true);
        }
      }
      if (!blob)
        for (int raw = 0; raw < 2; raw++)
        {
          const bool ok = raw ? d->proto->push_raw_bundle(fds) : d->proto->push_bundle(ps);
          const char* rule = raw ? "push-raw-bundle" : "push-bundle";
          auto q = sent(*d, rule);
          VCHECK(ok && q.size() == 1 && q[0].bundle, rule, desc(), ": ", q.size(), " packets");
          if (q.size() != 1)
            continue;
          VCHECK(q[0].time == 1, rule, "not an immediate bundle: ", q[0].time);
          VCHECK(q[0].elems.size() == ex.size(), rule, desc(), ": ", q[0].elems.size(), " elements for ", ex.size());
          for (size_t i = 0; i < ex.size() && i < q[0].elems.size(); i++)
            VCHECK(q[0].elems[i].addr == ex[i].a && q[0].elems[i].a == ex[i].w, rule, desc(), ": element ", i, ": ", q[0].elems[i].addr, " ", S(q[0].elems[i].a), " for ", ex[i].a, " ", S(ex[i].w));
        }
    }
  }
}

// A message as large as a datagram may be gets out whole, a larger one not at all.
VP_SECTION(large)
{
  for (int it = 0; it < M.n(150, 1500); it++)
  {
    const ver k = ver(M.r.i(0, 2));
    auto d = make(k, M.r.b());
    auto& node = net::create_node(d->dev->get_root_node(), "/large");
    auto p = node.create_parameter(T::LIST);
    mv::list l;
    static const int sizes[] = {900, 1010, 1024, 2049, 4099, 8199, 16399, 32700, 32799, 33000, 40000, 50000, 60000, 65000, 65480, 65507, 66000, 80000, 140000};
    const int bytes = M.r.pick(sizes) + M.r.i(-30, 30);
    int kind = M.r.i(0, 2), cur = 0;
    while (cur < bytes)
    {
      if (kind == 0)
      {
        l.push_back({mv::gen_int(M.r)});
        cur += 5;
      }
      else if (kind == 1)
      {
        std::string s(M.r.i(0, 2000), 'z');
        cur += int(padz(s).size()) + 1;
        l.push_back({s});
      }
      else
      {
        l.push_back({mv::v3{1.f, 2.f, float(cur)}});
        cur += k == vext ? 17 : 15;
      }
    }
    mv::val v{l};
    args want;
    say(want, v, k, 0, false, true);
    const auto whole = enc("/large", want);
    M.seen(whole.size() * 8 + k);
    const bool fits = whole.size() <= 65507;
    auto check = [&](const char* rule) {
      auto ps = sent(*d, rule);
      VCHECK(ps.size() == (fits ? 1u : 0u), rule, whole.size(), " bytes: ", ps.size(), " packets");
      for (auto& q : ps)
        VCHECK(q.addr == "/large" && q.a == want, rule, whole.size(), " bytes: other contents");
    };
    p->push_value(mv::mk(v));
    check("large-push");
    ossia::buffer_pool::buffer buf;
    buf.resize(M.r.b() ? 1024 : 0);
    auto val = mv::mk(v);
    if (k == v10)
      val.apply(net::osc_value_write_visitor<net::parameter_base, net::osc_1_0_policy>{*p, "/large", buf});
    else if (k == v11)
      val.apply(net::osc_value_write_visitor<net::parameter_base, net::osc_1_1_policy>{*p, "/large", buf});
    else
      val.apply(net::osc_value_write_visitor<net::parameter_base, net::osc_extended_policy>{*p, "/large", buf});
    if (!buf.empty())
      d->out->emplace_back(buf.data(), buf.size());
    check("large-write");
    std::vector<const net::parameter_base*> ps{p};
    const bool ok = d->proto->push_bundle(ps);
    auto q = sent(*d, "large-bundle");
    const bool bfits = whole.size() + 20 <= 65507;
    VCHECK(ok == bfits && q.size() == (bfits ? 1u : 0u), "large-bundle", whole.size(), " bytes: ", q.size(), " packets");
    if (q.size() == 1)
      VCHECK(q[0].elems.size() == 1 && q[0].elems[0].a == want, "large-bundle", whole.size(), " bytes: other contents");
  }
}

// ------------------------------------------------------------------ receiving
static float fl(const arg& a) { auto u = rd32(a.data); float f; std::memcpy(&f, &u, 4); return f; }
static double db(const arg& a) { auto u = rd64(a.data); double f; std::memcpy(&f, &u, 8); return f; }
// a text which is a number, entirely
static std::optional<double> num(const std::string& s, bool integer)
{
  if (s.empty() || std::isspace((unsigned char)s[0]))
    return {};
  char* e{};
  if (integer)
  {
    for (size_t i = 0; i < s.size(); i++)
      if (!std::isdigit((unsigned char)s[i]) && !(i == 0 && s.size() > 1 && s[0] == '-'))
        return {};
    errno = 0;
    long long v = strtoll(s.c_str(), &e, 10);
    if (v < INT32_MIN || v > INT32_MAX)
      return {};
    return double(v);
  }
  for (char c : s)
    if (!std::isdigit((unsigned char)c) && !strchr("+-.eE", c))
      return {};
  double v = strtof(s.c_str(), &e);
  if (*e)
    return {};
  return v;
}
static mv::val any_of(const arg& a)
{
  switch (a.tag)
  {
    case 'i': return {int(rd32(a.data))};
    case 'h': return {int(int64_t(rd64(a.data)))};
    case 't': return {int(rd64(a.data))};
    case 'f': return {fl(a)};
    case 'd': return {float(db(a))};
    case 'c': return {char(rd32(a.data))};
    case 'T': return {true};
    case 'F': return {false};
    case 's': case 'S': case 'b': return {a.data};
    case 'r':
    {
      auto u = rd32(a.data);
      return {mv::v4{float(u >> 24), float((u >> 16) & 255), float((u >> 8) & 255), float(u & 255)}};
    }
    default: return {mv::imp{}};
  }
}
static mv::list any_list(const args& a, size_t& i)
{
  mv::list l;
  for (; i < a.size(); i++)
  {
    if (a[i].tag == '[')
    {
      i++;
      l.push_back({any_list(a, i)});
    }
    else if (a[i].tag == ']')
      return l;
    else
      l.push_back(any_of(a[i]));
  }
  return l;
}
static std::optional<double> number(const arg& a, bool integer)
{
  switch (a.tag)
  {
    case 'i': return double(int(rd32(a.data)));
    case 'h': return double(int64_t(rd64(a.data)));
    case 't': return double(rd64(a.data));
    case 'f': return fl(a);
    case 'd': return db(a);
    case 'c': return double(char(rd32(a.data)));
    case 'T': return 1;
    case 'F': return 0;
    case 's': case 'S': return num(a.data, integer);
    default: return {};
  }
}
// what a parameter holding cur holds once it received a
static mv::val received(const mv::val& cur, const args& a)
{
  if (a.empty())
    return cur;
  auto& x = a[0];
  const auto t = mv::type_of(cur);
  switch (t)
  {
    case T::INT:
      if (x.tag == 'h' || x.tag == 't')
        return {int(rd64(x.data))};
      if (auto n = number(x, true))
        return {int(*n)};
      return cur;
    case T::FLOAT:
      if (auto n = number(x, false))
        return {float(*n)};
      return cur;
    case T::BOOL:
      if (x.tag == 's' || x.tag == 'S')
      {
        if (x.data == "1" || x.data == "0")
          return {x.data == "1"};
        return cur;
      }
      if (auto n = number(x, true))
        return {*n != 0};
      return cur;
    case T::CHAR:
      switch (x.tag)
      {
        case 'T': case 'F': return {x.tag};
        case 's': case 'S': return {x.data.empty() ? '\0' : x.data[0]};
        case 'h': case 't': return {char(rd64(x.data))};
        case 'f': return {char(fl(x))};
        case 'd': return {char(db(x))};
        case 'i': case 'c': return {char(rd32(x.data))};
        default: return cur;
      }
    case T::STRING:
      switch (x.tag)
      {
        case 'i': return {std::to_string(int(rd32(x.data)))};
        case 'h': return {std::to_string(int64_t(rd64(x.data)))};
        case 'c': return {std::string(1, char(rd32(x.data)))};
        case 'T': return {"true"s};
        case 'F': return {"false"s};
        case 's': case 'S': case 'b': return {x.data};
        default: return cur; // f, d: see below
      }
    case T::VEC2F: case T::VEC3F: case T::VEC4F:
    {
      const size_t n = t == T::VEC2F ? 2 : t == T::VEC3F ? 3 : 4;
      if (a.size() == n)
      {
        auto go = [&](auto arr) {
          for (size_t i = 0; i < n; i++)
            if (auto z = number(a[i], false))
              arr[i] = float(*z);
          return mv::val{arr};
        };
        if (n == 2)
          return go(std::get<mv::v2>(cur.v));
        if (n == 3)
          return go(std::get<mv::v3>(cur.v));
        return go(std::get<mv::v4>(cur.v));
      }
      if (n == 4 && a.size() == 1 && x.tag == 'r')
        return any_of(x);
      return cur;
    }
    case T::LIST:
    {
      size_t i = 0;
      return {any_list(a, i)};
    }
    default: return {mv::imp{}};
  }
}
static arg gen_arg(bool arrays = false)
{
  auto& r = M.r;
  static const std::string texts[] = {"12", "-7", "0", "1", "1.5", "-2.25", "1e3", "abc", "", "12x", "x12", "2147483648", "-2147483648", "true", "héé", "/a/b"};
  switch (r.i(0, arrays ? 14 : 13))
  {
    case 0: case 1: return I(mv::gen_int(r));
    case 2: return F(mv::gen_float(r, false));
    case 3: return F(float(r.i(-100000, 100000)) / 4);
    case 4: return D(double(r.i(-1000000, 1000000)) / 8);
    case 5: return H(r.b() ? int64_t(r.next()) : r.i(-1000, 1000));
    case 6: return Tt(r.b() ? r.next() : uint64_t(r.i(0, 100000)));
    case 7: return C(char(r.i(0, 255)));
    case 8: return Tag(r.b() ? 'T' : 'F');
    case 9: return Str(r.pick(texts), r.b(4, 5) ? 's' : 'S');
    case 10: return Str(mv::gen_string(r, true));
    case 11:
    {
      std::string b;
      for (int n = r.i(0, 13); n > 0; n--)
        b += char(r.i(0, 255));
      return Blob(b);
    }
    case 12: return R(uint32_t(r.next()));
    case 13: return Tag(r.b() ? 'N' : 'I');
    default: return Tag('[');
  }
}
static void gen_args(args& a, int depth)
{
  for (int n = M.r.i(0, 4); n > 0; n--)
  {
    auto x = gen_arg(depth < 4);
    a.push_back(x);
    if (x.tag == '[')
    {
      gen_args(a, depth + 1);
      a.push_back(Tag(']'));
    }
  }
}
static bool same_text(const std::string& s, double v)
{
  char* e{};
  const double g = std::strtod(s.c_str(), &e);
  return !s.empty() && !*e && (float(g) == float(v));
}

VP_SECTION(decode)
{
  for (int it = 0; it < M.n(4000, 30000); it++)
  {
    auto d = make(ver(M.r.i(0, 2)), M.r.b());
    const T t = M.r.pick(types);
    std::string path = "/" + gen_name() + "/" + gen_name();
    auto& node = net::create_node(d->dev->get_root_node(), path);
    auto p = node.create_parameter(t);
    const std::string addr = node.osc_address();
    auto cur = gen_for(t, false);
    p->set_value(mv::mk(cur));
    int calls = 0;
    mv::val last{};
    const bool listened = M.r.b();
    if (listened)
      p->add_callback([&](const ossia::value& v) { calls++; last = mv::from(v); });
    for (int m = M.r.i(1, 4); m > 0; m--)
    {
      args a;
      if (t == T::LIST && M.r.b(2, 3))
        gen_args(a, 0);
      else
      {
        const int n = M.r.b(1, 3) ? M.r.i(0, 5) : t == T::VEC2F ? 2 : t == T::VEC3F ? 3 : t == T::VEC4F ? (M.r.b(1, 4) ? 1 : 4) : 1;
        for (int i = 0; i < n; i++)
          a.push_back(gen_arg());
        if (t == T::VEC4F && n > 1 && n != 4 && a[0].tag == 'r')
          a[0] = I(0); // a color and something else: not specified
        if (t == T::VEC4F && n == 1 && M.r.b())
          a[0] = R(uint32_t(M.r.next()));
      }
      const bool numtext = t == T::STRING && !a.empty() && (a[0].tag == 'f' || a[0].tag == 'd');
      // conversions of numbers out of the range of the target are not specified
      if (!a.empty() && (t == T::INT || t == T::CHAR) && (a[0].tag == 'f' || a[0].tag == 'd'))
      {
        const double lim = t == T::INT ? 2e9 : 120;
        if (std::abs(*number(a[0], true)) > lim)
          continue;
      }
      const auto want = received(cur, a);
      M.seen(vp::mix(vp::hash_str(S(a)), int(t)));
      calls = 0;
      d->messages.clear();
      d->feed(enc(addr, a));
      const auto now = mv::from(p->value());
      if (numtext)
      {
        auto s = std::get_if<std::string>(&now.v);
        VCHECK(s && same_text(*s, *number(a[0], true)), "receive", "string parameter given ", S(a), ": ", mv::S(now));
      }
      else
        VCHECKC(mv::same(want, p->value()), "receive", vp::str(int(t), a.empty() ? '0' : a[0].tag), "parameter of type ", int(t), " holding ", mv::S(cur), " given ", S(a), ": ", mv::S(now), " for ", mv::S(want));
      VCHECK(d->messages.size() == 1 && d->messages[0] == p, "on-message", "messages: ", d->messages.size());
      VCHECK(d->unhandled.empty(), "on-unhandled", "handled message reported as unhandled");
      if (listened)
      {
        VCHECK(calls == 1, "callback", calls, " calls for one message");
        VCHECK(mv::same(last, p->value()), "callback", "callback given ", mv::S(last), ", value ", mv::S(now));
      }
      VCHECK(d->out->empty(), "no-reply", "a received message made the device send");
      cur = now;
    }
  }
}

// What one device sends, its twin holds: nothing is lost between two libossia
// devices speaking the extended version.
VP_SECTION(twins)
{
  for (int it = 0; it < M.n(2500, 20000); it++)
  {
    const ver k = ver(M.r.i(0, 2));
    auto a = make(k, M.r.b()), b = make(k, M.r.b());
    const T t = M.r.pick(types);
    const bool rgba = t == T::VEC4F && M.r.b();
    const bool blob = t == T::STRING && M.r.b(1, 3);
    std::string path = "/" + gen_name() + "/" + gen_name();
    net::parameter_base* ps[2];
    int i = 0;
    for (auto d : {a.get(), b.get()})
    {
      auto& n = net::create_node(d->dev->get_root_node(), path);
      ps[i] = n.create_parameter(t);
      if (rgba)
        ps[i]->set_unit(ossia::rgba8_u{});
      if (blob)
        n.set(net::extended_type_attribute{}, ossia::extended_type{"buffer"});
      i++;
    }
    auto v = gen_for(t, rgba);
    if (blob)
      for (auto& c : std::get<std::string>(v.v))
        c = char(M.r.i(0, 255));
    if (k != vext && t == T::LIST)
    {
      // lists of scalars only: 1.0 and 1.1 have no nested lists
      mv::list l;
      for (int n = M.r.i(0, 5); n > 0; n--)
        switch (M.r.i(0, 2))
        {
          case 0: l.push_back({mv::gen_int(M.r)}); break;
          case 1: l.push_back({mv::gen_float(M.r, true)}); break;
          default: l.push_back({mv::gen_string(M.r, true)});
        }
      v = {l};
    }
    if (t == T::LIST && k == vext)
    {
      // a vector in a list comes back as a list of floats
      std::function<void(mv::val&)> fix = [&](mv::val& x) {
        mv::list l;
        if (auto q = std::get_if<mv::v2>(&x.v))
          for (float f : *q)
            l.push_back({f});
        else if (auto q = std::get_if<mv::v3>(&x.v))
          for (float f : *q)
            l.push_back({f});
        else if (auto q = std::get_if<mv::v4>(&x.v))
          for (float f : *q)
            l.push_back({f});
        else if (auto q = std::get_if<mv::list>(&x.v))
        {
          for (auto& e : *q)
            fix(e);
          return;
        }
        else
          return;
        x = {l};
      };
      fix(v);
    }
    M.seen(vp::mix(vp::hash_str(mv::S(v)), k * 100 + int(t)));
    ps[0]->push_value(mv::mk(v));
    for (auto& s : *a->out)
      b->feed(s);
    if (t == T::LIST && std::get<mv::list>(v.v).empty())
      continue; // no argument: nothing to say
    const bool exact = !(k == v10 && t == T::BOOL) || true;
    VCHECKC(a->out->size() == 1 && exact && mv::same(v, ps[1]->value()), "twin", vp::str(k, "-", int(t), blob ? "b" : ""), "version ", k, " type ", int(t), ": ", mv::S(v).substr(0, 300), " arrives as ", mv::S(ps[1]->value()).substr(0, 300));
  }
}

// ------------------------------------------------------------------ dispatch
VP_SECTION(dispatch)
{
  for (int it = 0; it < M.n(700, 6000); it++)
  {
    auto d = make(ver(M.r.i(0, 2)), M.r.b());
    struct leaf
    {
      std::vector<std::string> path;
      std::string addr;
      net::parameter_base* p;
      bool listened;
      int calls = 0;
      int value = 0;
    };
    std::list<leaf> ls;
    std::set<std::string> nodes;
    static const char* const seg[] = {"a", "b", "ab", "abc", "c1", "c2", "foo"};
    for (int n = M.r.i(1, 9); n > 0; n--)
    {
      std::vector<std::string> path;
      std::string s;
      for (int q = M.r.i(1, 3); q > 0; q--)
      {
        path.push_back(M.r.pick(seg));
        s += "/" + path.back();
        nodes.insert(s);
      }
      if (std::any_of(ls.begin(), ls.end(), [&](auto& l) { return l.path == path; }))
        continue;
      auto& node = net::find_or_create_node(d->dev->get_root_node(), s);
      ls.push_back({path, s, node.create_parameter(T::INT), M.r.b()});
      auto& l = ls.back();
      if (l.listened)
        l.p->add_callback([&l](const ossia::value&) { l.calls++; });
    }
    int next = 1;
    for (int m = M.r.i(2, 8); m > 0; m--)
    {
      // an address: of a leaf, of some node, of nothing, or a pattern
      std::vector<std::string> path;
      auto& l = *std::next(ls.begin(), idx(ls.size()));
      path = l.path;
      const int kind = M.r.i(0, 4);
      if (kind == 1)
        path.pop_back();
      else if (kind == 2)
        path.push_back("zzz");
      else if (kind >= 3)
        for (auto& s : path)
          if (M.r.b(2, 3))
            switch (M.r.i(0, 3))
            {
              case 0: s = "*"; break;
              case 1: s = "{" + s + ",b}"; break;
              case 2: s.back() = '?'; break;
              default: s = s.substr(0, 1) + "*"; break;
            }
      if (path.empty())
        continue;
      std::string addr;
      bool pattern = false;
      for (auto& s : path)
      {
        addr += "/" + s;
        pattern |= s.find_first_of("*?{") != s.npos;
      }
      auto match = [](const std::string& pt, const std::string& s) {
        if (pt == "*")
          return true;
        if (pt[0] == '{')
          return s == "b" || pt.substr(1, pt.find(',') - 1) == s;
        if (pt.back() == '*')
          return s.substr(0, pt.size() - 1) == pt.substr(0, pt.size() - 1);
        if (pt.back() == '?') // at most one character
        {
          const auto head = pt.substr(0, pt.size() - 1);
          return s == head || (s.size() == pt.size() && s.substr(0, s.size() - 1) == head);
        }
        return s == pt;
      };
      auto full = [&](const std::vector<std::string>& s) {
        if (s.size() != path.size())
          return false;
        for (size_t i = 0; i < s.size(); i++)
          if (!match(path[i], s[i]))
            return false;
        return true;
      };
      // does the address designate at least one node ?
      bool exists = !pattern && nodes.count(addr);
      if (pattern)
        for (auto& n : nodes)
        {
          std::vector<std::string> s;
          std::istringstream is{n.substr(1)};
          for (std::string x; std::getline(is, x, '/');)
            s.push_back(x);
          exists |= full(s);
        }
      const int v = next++;
      M.seen(vp::mix(vp::hash_str(addr), ls.size()));
      d->messages.clear();
      d->unhandled.clear();
      for (auto& x : ls)
        x.calls = 0;
      d->feed(enc(addr, {I(v)}));
      size_t hits = 0;
      for (auto& x : ls)
      {
        const bool hit = full(x.path);
        hits += hit;
        if (hit)
          x.value = v;
        VCHECK(x.p->value() == ossia::value{x.value}, "dispatch", addr, hit ? " does not reach " : " reaches ", x.addr, x.listened ? " (listened)" : "", ": ", mv::S(x.p->value()), " for ", x.value);
        if (x.listened)
          VCHECK(x.calls == (hit ? 1 : 0), "dispatch-callback", addr, ": ", x.calls, " calls on ", x.addr);
        const auto cnt = std::count(d->messages.begin(), d->messages.end(), x.p);
        VCHECK(cnt == (hit ? 1 : 0), "dispatch-message", addr, ": ", cnt, " messages for ", x.addr);
      }
      VCHECK(d->messages.size() == hits, "dispatch-message", addr, ": ", d->messages.size(), " messages for ", hits);
      VCHECK(d->unhandled.size() == (exists ? 0u : 1u), "unhandled", addr, exists ? " exists" : " does not exist", ", reported ", d->unhandled.size(), " times");
      if (d->unhandled.size() == 1)
        VCHECK(d->unhandled[0].first == addr && mv::same(d->unhandled[0].second, ossia::value{v}), "unhandled", addr, ": reported as ", d->unhandled[0].first, " ", mv::S(d->unhandled[0].second));
    }
    // the tree changes: messages follow the new addresses, and only them
    for (int m = M.r.i(0, 3); m > 0; m--)
    {
      auto& l = *std::next(ls.begin(), idx(ls.size()));
      net::node_base* n = &l.p->get_node();
      while (n->get_parent()->get_parent() && M.r.b())
        n = n->get_parent();
      const auto before = n->osc_address();
      std::vector<std::pair<std::string, leaf*>> gone;
      const bool removed = ls.size() > 1 && n == &l.p->get_node() && n->children().empty() && M.r.b(1, 3);
      for (auto& x : ls)
        if (removed ? &x == &l : x.addr == before || x.addr.compare(0, before.size() + 1, before + "/") == 0)
          gone.emplace_back(x.addr, removed ? nullptr : &x);
      if (removed)
      {
        n->get_parent()->remove_child(*n);
        ls.remove_if([&](auto& x) { return &x == &l; });
      }
      else
      {
        n->set_name("renamed" + std::to_string(next));
        for (auto& [a, x] : gone)
          x->addr = n->osc_address() + a.substr(before.size());
      }
      const int v = next++;
      for (auto& x : ls)
        x.calls = 0;
      d->unhandled.clear();
      for (auto& [a, x] : gone)
        d->feed(enc(a, {I(-v)}));
      for (auto& x : ls)
        VCHECK(x.calls == 0 && x.p->value() != ossia::value{-v}, "dispatch-old-address", before, removed ? " (removed)" : " (renamed)", " still reaches ", x.addr);
      VCHECK(d->unhandled.size() == gone.size(), "dispatch-old-address", before, ": reported ", d->unhandled.size(), " times for ", gone.size());
      for (auto& x : ls)
      {
        d->feed(enc(x.addr, {I(v)}));
        VCHECK(x.p->value() == ossia::value{v}, "dispatch-new-address", x.addr, " (was under ", before, ") is not reached");
        if (x.listened)
          VCHECK(x.calls == 1, "dispatch-new-address", x.addr, " (was under ", before, ") calls ", x.calls, " times");
      }
    }
    // once nobody listens any more, messages still get there
    for (auto& x : ls)
      if (x.listened)
        x.p->callbacks_clear();
    for (auto& x : ls)
    {
      const int v = next++;
      d->feed(enc(x.addr, {I(v)}));
      VCHECK(x.p->value() == ossia::value{v}, "dispatch", x.addr, " no longer received after its callbacks went away");
    }
    // unhandled messages of every shape
    for (int m = 0; m < 3; m++)
    {
      args a;
      gen_args(a, 0);
      d->unhandled.clear();
      d->feed(enc("/nowhere/at/all", a));
      size_t i = 0;
      mv::val want = a.empty() ? mv::val{mv::imp{}} : a.size() == 1 ? any_of(a[0]) : mv::val{any_list(a, i)};
      VCHECK(d->unhandled.size() == 1, "unhandled", "reported ", d->unhandled.size(), " times");
      if (d->unhandled.size() == 1)
        VCHECK(mv::S(d->unhandled[0].second) == mv::S(want), "unhandled-value", S(a), ": ", mv::S(d->unhandled[0].second), " for ", mv::S(want));
    }
    // the domain of the parameter applies to what arrives and to what leaves
    {
      auto& x = ls.front();
      const int lo = M.r.i(-50, 0), hi = M.r.i(1, 50), v = M.r.i(-120, 120);
      x.p->set_domain(ossia::make_domain(lo, hi));
      x.p->set_bounding(ossia::bounding_mode::CLIP);
      const int want = std::clamp(v, lo, hi);
      d->feed(enc(x.addr, {I(v)}));
      VCHECK(x.p->value() == ossia::value{want}, "domain-in", v, " in [", lo, ",", hi, "]: ", mv::S(x.p->value()));
      d->out->clear();
      x.p->push_value(ossia::value{v});
      auto q = sent(*d, "domain-out");
      VCHECK(q.size() == 1 && q[0].a == args{I(want)}, "domain-out", v, " in [", lo, ",", hi, "]: ", q.size() ? S(q[0].a) : "nothing");
      // a muted or disabled parameter does not send, one which filters repetitions sends changes only
      x.p->set_domain({});
      x.p->set_muted(true);
      x.p->push_value(ossia::value{v});
      x.p->set_muted(false);
      VCHECK(sent(*d, "muted").empty(), "muted", "a muted parameter sends");
      x.p->set_disabled(true);
      x.p->push_value(ossia::value{v});
      x.p->set_disabled(false);
      VCHECK(sent(*d, "disabled").empty(), "disabled", "a disabled parameter sends");
    }
  }
}

VP_SECTION(learn)
{
  for (int it = 0; it < M.n(1500, 10000); it++)
  {
    auto d = make(ver(M.r.i(0, 2)), M.r.b());
    auto& old = net::create_node(d->dev->get_root_node(), "/old");
    auto op = old.create_parameter(T::INT);
    op->set_value(ossia::value{3});
    VCHECK(!d->learn->learning(), "learn-off", "learning from the start");
    d->learn->set_learning(true);
    struct known { net::parameter_base* p; mv::val v; T t; };
    std::map<std::string, known> all;
    for (int m = M.r.i(1, 5); m > 0; m--)
    {
      std::string path;
      for (int q = M.r.i(1, 3); q > 0; q--)
        path += "/" + gen_name();
      args a;
      const int n = M.r.i(0, 5);
      const bool floats = M.r.b();
      for (int i = 0; i < n; i++)
        a.push_back(floats ? F(mv::gen_float(M.r, false)) : gen_arg());
      const bool isnew = !net::find_node(d->dev->get_root_node(), path);
      d->feed(enc(path, a));
      auto node = net::find_node(d->dev->get_root_node(), path);
      VCHECK(node, "learn", path, " not created");
      if (!node)
        break;
      M.seen(vp::mix(vp::hash_str(path), vp::hash_str(S(a))));
      if (!isnew)
        continue;
      auto p = node->get_parameter();
      VCHECK(p, "learn", path, " has no parameter");
      if (!p)
        break;
      size_t i = 0;
      mv::val want{mv::imp{}};
      if (n == 1)
        want = any_of(a[0]);
      else if (n > 1)
      {
        want = {any_list(a, i)};
        // conversions between n floats and vectors
        auto fz = [&](int j) { return std::get<float>(any_of(a[j]).v); };
        const bool allf = std::all_of(a.begin(), a.end(), [](auto& x) { return x.tag == 'f' || x.tag == 'd'; });
        if (allf && n == 2)
          want = {mv::v2{fz(0), fz(1)}};
        if (allf && n == 3)
          want = {mv::v3{fz(0), fz(1), fz(2)}};
        if (allf && n == 4)
          want = {mv::v4{fz(0), fz(1), fz(2), fz(3)}};
      }
      VCHECK(mv::same(want, p->value()), "learn-value", S(a), ": ", mv::S(p->value()), " for ", mv::S(want));
      VCHECK(p->get_value_type() == mv::type_of(want), "learn-type", S(a), ": type ", int(p->get_value_type()));
      all[path] = {p, want, mv::type_of(want)};
    }
    // once learnt, nothing changes without learning being on
    d->learn->set_learning(false);
    d->feed(enc("/old", {I(5)}));
    VCHECK(op->value() == ossia::value{5}, "learn-off", "/old not received");
    d->feed(enc("/new/thing", {I(5)}));
    VCHECK(!net::find_node(d->dev->get_root_node(), "/new/thing"), "learn-off", "created without learning");
    for (auto& [path, k] : all)
    {
      auto node = net::find_node(d->dev->get_root_node(), path);
      VCHECK(node && node->get_parameter() == k.p, "learn-kept", path, " replaced");
    }
  }
}

// ------------------------------------------------------------------ bundles and hostile input
static std::string gen_bundle(const std::vector<std::string>& addrs, std::vector<std::pair<std::string, int>>& order, int depth)
{
  std::vector<std::string> e;
  for (int n = M.r.i(0, 4); n > 0; n--)
    if (depth < 4 && M.r.b(1, 3))
      e.push_back(gen_bundle(addrs, order, depth + 1));
    else
    {
      order.emplace_back(M.r.pick(addrs), int(order.size()));
      e.push_back(enc(order.back().first, {I(order.back().second)}));
    }
  return enc_bundle(M.r.b() ? 1 : M.r.next(), e);
}
VP_SECTION(bundles)
{
  for (int it = 0; it < M.n(1500, 15000); it++)
  {
    auto d = make(ver(M.r.i(0, 2)), M.r.b());
    std::vector<std::string> addrs{"/a", "/b/c", "/d/e/f"};
    std::vector<std::pair<std::string, int>> got, want;
    for (auto& a : addrs)
    {
      auto p = net::create_node(d->dev->get_root_node(), a).create_parameter(T::INT);
      p->add_callback([&got, a](const ossia::value& v) { got.emplace_back(a, v.get<int>()); });
    }
    auto b = gen_bundle(addrs, want, 0);
    d->feed(b);
    M.seen(vp::hash_str(b));
    VCHECK(got == want, "bundle", got.size(), " messages applied for ", want.size(), ", or in another order");
    VCHECK(d->messages.size() == want.size(), "bundle", d->messages.size(), " messages");
  }
}
VP_SECTION(hostile)
{
  for (int it = 0; it < M.n(600, 6000); it++)
  {
    auto d = make(ver(M.r.i(0, 2)), M.r.b());
    std::vector<net::parameter_base*> ps;
    std::vector<T> ts;
    for (T t : types)
    {
      auto p = net::create_node(d->dev->get_root_node(), vp::str("/t", int(t))).create_parameter(t);
      ps.push_back(p);
      ts.push_back(p->get_value_type());
      if (M.r.b())
        p->add_callback([](const ossia::value&) {});
    }
    d->learn->set_learning(M.r.b(1, 6));
    for (int m = 0; m < 25; m++)
    {
      std::string s;
      auto msg = [&] {
        args a;
        gen_args(a, 0);
        return enc(M.r.b(1, 8) ? "/*" : M.r.b(1, 8) ? "/{t1,t[0-9],t?}" : vp::str("/t", M.r.i(0, 11)), a);
      };
      switch (M.r.i(0, 3))
      {
        case 0: s = msg(); break;
        case 1: s = enc_bundle(1, {msg(), msg(), enc_bundle(2, {msg()})}); break;
        case 2:
          for (int n = 4 * M.r.i(0, 30); n > 0; n--)
            s += char(M.r.b() ? 0 : M.r.i(0, 255));
          break;
        default:
        {
          std::string tags = ",";
          static const char tg[] = "ifsbTFNIhtdcrSm[]xyz";
          for (int n = M.r.i(0, 12); n > 0; n--)
            tags += tg[idx(sizeof(tg) - 1)];
          s = padz(vp::str("/t", M.r.i(0, 11))) + padz(tags);
          for (int n = 4 * M.r.i(0, 12); n > 0; n--)
            s += char(M.r.b(2, 3) ? 0 : M.r.i(0, 255));
        }
      }
      for (int n = M.r.b() ? M.r.i(0, 4) : 0; n > 0 && !s.empty(); n--)
        switch (M.r.i(0, 4))
        {
          case 0: s[idx(s.size())] = char(M.r.i(0, 255)); break;
          case 1: s.resize(idx(s.size() + 1)); break;
          case 2: s.insert(idx(s.size() + 1), std::string(4, char(M.r.i(0, 255)))); break;
          case 3: s.erase(idx(s.size()), 4); break;
          default: s[idx(s.size())] ^= char(1 << M.r.i(0, 7)); break;
        }
      M.seen(vp::hash_str(s));
      vp::no_throw("hostile", [&] { d->feed(s); });
      for (size_t i = 0; i < ps.size(); i++)
        VCHECK(ps[i]->get_value_type() == ts[i] && ps[i]->value().get_type() == ts[i], "hostile", "a packet changes the type of a parameter");
    }
    // still alive
    d->learn->set_learning(false);
    d->feed(enc(vp::str("/t", int(T::INT)), {I(77)}));
    VCHECK(ps[1]->value() == ossia::value{77}, "alive", "no longer received after hostile packets");
  }
}

// ------------------------------------------------------------------ message generator and its stream
VP_SECTION(generator)
{
  for (int it = 0; it < M.n(1500, 10000); it++)
  {
    std::vector<char> buf(4096);
    oscpack::OutboundPacketStream p{buf.data(), buf.size()};
    oscpack::osc_message_generator<net::osc_1_0_outbound_stream_visitor> g{p};
    const int i = mv::gen_int(M.r);
    const float f = mv::gen_float(M.r, true);
    const auto s = mv::gen_string(M.r, true);
    mv::val v = gen_for(M.r.pick(types), false);
    args want{I(i), F(f), Str(s), Str("lit")};
    std::vector<std::string> strs{"x", s, ""};
    for (auto& q : strs)
      want.push_back(Str(q));
    // on its own, an impulse says nothing
    if (!std::get_if<mv::imp>(&v.v))
      say(want, v, v10, 0, false, true);
    const auto val = mv::mk(v);
    g("/gen/x", i, f, std::string_view(s), "lit", strs, val);
    try
    {
      auto q = dec({p.Data(), p.Size()});
      VCHECK(q.addr == "/gen/x" && q.a == want, "generate", S(q.a), " for ", S(want));
    }
    catch (const bad& b)
    {
      VCHECK(false, "generate", "malformed: ", b.what());
    }
    M.seen(vp::hash_str(mv::S(v)) + i);
  }
}

// ------------------------------------------------------------------ on the network
static void converse(net::device_base& a, net::device_base& b, const char* rule, ver k, bool both, const std::function<void()>& poll)
{
  // a and b have the same tree; each receives what the other pushes
  struct pair_ { net::parameter_base *x, *y; T t; };
  std::vector<pair_> ps;
  for (T t : types)
  {
    auto path = vp::str("/p/", int(t));
    ps.push_back({net::create_node(a.get_root_node(), path).create_parameter(t), net::create_node(b.get_root_node(), path).create_parameter(t), t});
  }
  // one wake-up message until the link is there
  auto& wa = *net::create_node(a.get_root_node(), "/wake").create_parameter(T::INT);
  auto& wb = *net::create_node(b.get_root_node(), "/wake").create_parameter(T::INT);
  const bool up = eventually([&] {
    wa.push_value(ossia::value{42});
    poll();
    if (wb.value() != ossia::value{42})
      return false;
    if (!both)
      return true;
    wb.push_value(ossia::value{43});
    poll();
    return wa.value() == ossia::value{43};
  });
  VCHECK(up, rule, "no message arrives");
  if (!up)
    return;
  for (int i = 0; i < M.n(40, 150); i++)
  {
    auto& p = M.r.pick(ps);
    const bool back = both && M.r.b();
    auto v = gen_for(p.t, false);
    if (p.t == T::LIST)
      v = {mv::list{{1}, {2.5f}, {"xyz"s}, {mv::gen_int(M.r)}}};
    if (p.t == T::STRING && M.r.b(1, 4))
      v = {std::string(M.r.i(100, 4000), 'w')};
    auto& from = back ? *p.y : *p.x;
    auto& to = back ? *p.x : *p.y;
    from.push_value(mv::mk(v));
    const bool ok = eventually([&] { poll(); return mv::same(v, to.value()); });
    VCHECK(ok, rule, "version ", k, ": ", mv::S(v).substr(0, 200), " pushed, the other end holds ", mv::S(to.value()).substr(0, 200));
    M.seen(vp::hash_str(mv::S(v)));
  }
}
VP_SECTION(live_factory)
{
  using cf = net::osc_protocol_configuration;
  for (int it = 0; it < M.n(8, 40); it++)
  {
    auto ctx = std::make_shared<net::network_context>();
    const ver k = ver(it % 3);
    auto cfg = [&](bool host) {
      cf c;
      c.mode = host ? cf::HOST : cf::MIRROR;
      c.version = k == v10 ? cf::OSC1_0 : k == v11 ? cf::OSC1_1 : cf::EXTENDED;
      return c;
    };
    auto poll = [&] {
      for (int i = 0; i < 4; i++)
        net::poll_network_context(*ctx);
    };
    const int tr = it % 4;
    cf h = cfg(true), m = cfg(false);
    const char* rule = "live-udp";
    if (tr == 0)
    {
      auto p1 = free_port(SOCK_DGRAM), p2 = free_port(SOCK_DGRAM);
      h.transport = net::udp_configuration{{net::receive_socket_configuration{{"127.0.0.1", p1}}, net::send_socket_configuration{{"127.0.0.1", p2}}}};
      m.transport = net::udp_configuration{{net::receive_socket_configuration{{"127.0.0.1", p2}}, net::send_socket_configuration{{"127.0.0.1", p1}}}};
    }
    else if (tr == 1)
    {
      auto p = free_port(SOCK_STREAM);
      h.framing = m.framing = M.r.b() ? cf::SLIP : cf::SIZE_PREFIX;
      h.transport = net::tcp_configuration{{"127.0.0.1", p}};
      m.transport = net::tcp_configuration{{"127.0.0.1", p}};
      rule = "live-tcp";
    }
    else if (tr == 2)
    {
      auto s1 = vp::str(M.scratch, "/h", it), s2 = vp::str(M.scratch, "/m", it);
      ::unlink(s1.c_str());
      ::unlink(s2.c_str());
      h.transport = net::unix_dgram_configuration{{net::receive_fd_configuration{{s1}}, net::send_fd_configuration{{s2}}}};
      m.transport = net::unix_dgram_configuration{{net::receive_fd_configuration{{s2}}, net::send_fd_configuration{{s1}}}};
      rule = "live-unix-dgram";
    }
    else
    {
      auto s = vp::str(M.scratch, "/s", it);
      ::unlink(s.c_str());
      h.framing = m.framing = M.r.b() ? cf::SLIP : cf::SIZE_PREFIX;
      h.transport = net::unix_stream_configuration{{s}};
      m.transport = net::unix_stream_configuration{{s}};
      rule = "live-unix-stream";
    }
    auto hp = net::make_osc_protocol(ctx, h);
    VCHECK(bool(hp), rule, "no protocol");
    if (!hp)
      continue;
    net::generic_device hd{std::move(hp), "h"};
    auto mp = net::make_osc_protocol(ctx, m);
    VCHECK(bool(mp), rule, "no protocol");
    if (!mp)
      continue;
    net::generic_device md{std::move(mp), "m"};
    // a mirror only sends what it may write, the host everything
    poll();
    converse(md, hd, rule, k, true, poll);
    auto& g1 = *net::create_node(md.get_root_node(), "/ro").create_parameter(T::INT);
    auto& g2 = *net::create_node(hd.get_root_node(), "/ro").create_parameter(T::INT);
    g1.set_access(ossia::access_mode::GET);
    g2.set_access(ossia::access_mode::GET);
    g1.push_value(ossia::value{5});
    auto& w1 = *net::find_node(md.get_root_node(), "/wake")->get_parameter();
    auto& w2 = *net::find_node(hd.get_root_node(), "/wake")->get_parameter();
    w1.push_value(ossia::value{1000 + it});
    VCHECK(eventually([&] { poll(); return w2.value() == ossia::value{1000 + it}; }), rule, "marker lost");
    VCHECK(g2.value() != ossia::value{5}, "mirror-get", "a mirror changes a read-only parameter of its host");
    g2.push_value(ossia::value{6});
    VCHECK(eventually([&] { poll(); return g1.value() == ossia::value{6}; }), "host-get", "the host cannot send a read-only parameter");
  }
}
VP_SECTION(live_protocol)
{
  for (int it = 0; it < M.n(3, 15); it++)
  {
    auto p1 = free_port(SOCK_DGRAM), p2 = free_port(SOCK_DGRAM);
    std::unique_ptr<net::generic_device> a, b;
    try
    {
      a = std::make_unique<net::generic_device>(std::make_unique<net::osc_protocol>("127.0.0.1", p2, p1), "a");
      b = std::make_unique<net::generic_device>(std::make_unique<net::osc_protocol>("127.0.0.1", p1, p2), "b");
    }
    catch (const std::exception&)
    {
      continue; // somebody else took the port
    }
    converse(*a, *b, "live-osc", v10, true, [] { std::this_thread::sleep_for(1ms); });
    // hostile datagrams do not stop it
    int fd = ::socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in ad{};
    ad.sin_family = AF_INET;
    ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    ad.sin_port = htons(p2);
    for (int i = 0; i < 60; i++)
    {
      std::string s = enc("/p/1", {I(3)});
      for (int n = M.r.i(1, 4); n > 0; n--)
        s[idx(s.size())] = char(M.r.i(0, 255));
      s.resize(idx(s.size() + 1));
      ::sendto(fd, s.data(), s.size(), 0, (sockaddr*)&ad, sizeof ad);
    }
    ::close(fd);
    auto& w1 = *net::find_node(a->get_root_node(), "/wake")->get_parameter();
    auto& w2 = *net::find_node(b->get_root_node(), "/wake")->get_parameter();
    VCHECK(eventually([&] { w1.push_value(ossia::value{77}); std::this_thread::sleep_for(1ms); return w2.value() == ossia::value{77}; }), "live-alive", "no longer received after hostile datagrams");
    // changing the ports of a running device
    auto& pa = static_cast<net::osc_protocol&>(a->get_protocol());
    auto& pb = static_cast<net::osc_protocol&>(b->get_protocol());
    const auto p3 = free_port(SOCK_DGRAM);
    try
    {
      pb.set_local_port(p3);
    }
    catch (const std::exception&)
    {
      continue;
    }
    pa.set_remote_port(p3);
    VCHECK(pa.get_remote_port() == p3 && pb.get_local_port() == p3 && pa.get_ip() == "127.0.0.1", "live-port", "other port reported");
    VCHECK(eventually([&] { w1.push_value(ossia::value{78}); std::this_thread::sleep_for(1ms); return w2.value() == ossia::value{78}; }), "live-port", "no message after the port was changed");
  }
}
VP_MAIN
