// C21: Minuit: the words of the protocol, a device which answers questions about its
// tree, and one which mirrors the tree of another from the answers it gets.
#include "values.hpp"
#include "osc_codec.hpp"
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/detail/dataspace_parse.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/minuit/detail/minuit_common.hpp>
#include <ossia/network/minuit/detail/minuit_name_table.hpp>
#include <ossia/network/minuit/minuit.hpp>
#include <oscpack/osc/OscTypes.h>
#include <atomic>
#include <functional>
#include <future>
#include <map>
#include <mutex>
#include <optional>
#include <set>
using vp::M;
namespace net = ossia::net;
namespace mn = ossia::minuit;
using T = ossia::val_type;
static size_t idx(size_t n) { return size_t(M.r.next() % n); }

// ------------------------------------------------------------------ words
VP_SECTION(words)
{
  using A = mn::minuit_attribute;
  static const std::pair<A, const char*> attrs[]{{A::Value, "value"}, {A::Type, "type"}, {A::Service, "service"}, {A::RangeBounds, "rangeBounds"}, {A::RangeClipMode, "rangeClipmode"}, {A::Description, "description"}, {A::RepetitionFilter, "repetitionsFilter"}, {A::Tags, "tags"}, {A::Active, "active"}, {A::ValueDefault, "valueDefault"}, {A::Priority, "priority"}, {A::Dataspace, "dataspace"}, {A::DataspaceUnit, "dataspaceUnit"}, {A::RampFunction, "rampFunction"}, {A::RampDrive, "rampDrive"}, {A::ValueStepSize, "valueStepsize"}, {A::RampFunctionParameters, "rampFunctionParameters"}};
  for (auto& [a, t] : attrs)
  {
    VCHECK(mn::to_minuit_attribute_text(a) == t, "attribute-text", t, ": ", std::string(mn::to_minuit_attribute_text(a)));
    A got{};
    if (vp::no_throw("attribute-parse", [&] { got = mn::get_attribute(t); }))
      VCHECK(got == a, "attribute-parse", t, ": ", int(got));
    M.seen(t);
  }
  for (auto t : {"", "Value", "values", "valu", "rangebounds", "rangeClipMode", "xyz", "range", "dataspaceunit"})
    VCHECK(vp::throws([&] { mn::get_attribute(t); }), "attribute-unknown", t, " accepted");

  static const std::pair<T, const char*> tt[]{{T::IMPULSE, "none"}, {T::INT, "integer"}, {T::FLOAT, "decimal"}, {T::BOOL, "boolean"}, {T::CHAR, "string"}, {T::STRING, "string"}, {T::VEC2F, "array"}, {T::VEC3F, "array"}, {T::VEC4F, "array"}, {T::LIST, "array"}};
  for (auto& [t, s] : tt)
  {
    VCHECK(mn::to_minuit_type_text(t) == s, "type-text", s, ": ", std::string(mn::to_minuit_type_text(t)));
    auto v = ossia::init_value(t);
    VCHECK(mn::to_minuit_type_text(v) == s, "type-text-value", s, ": ", std::string(mn::to_minuit_type_text(v)));
    const T back = mn::type_from_minuit_type_text(s);
    const T want = t == T::CHAR ? T::STRING : (t == T::VEC2F || t == T::VEC3F || t == T::VEC4F) ? T::LIST : t;
    VCHECK(back == want, "type-parse", s, ": ", int(back));
    VCHECK(mn::value_from_minuit_type_text(s).get_type() == want, "type-parse-value", s);
  }
  VCHECK(mn::type_from_minuit_type_text("generic") == T::LIST, "type-parse", "generic");
  VCHECK(vp::throws([&] { mn::to_minuit_type_text(T::NONE); }), "type-unknown", "no type has a text");
  VCHECK(vp::throws([&] { mn::to_minuit_type_text(ossia::value{}); }), "type-unknown", "no value has a text");

  using Ac = ossia::access_mode;
  static const std::pair<Ac, const char*> ac[]{{Ac::BI, "parameter"}, {Ac::GET, "return"}, {Ac::SET, "message"}};
  for (auto& [a, s] : ac)
  {
    VCHECK(mn::to_minuit_service_text(a) == s, "service-text", s);
    VCHECK(mn::from_minuit_service_text(s) == a, "service-parse", s);
  }
  using B = ossia::bounding_mode;
  static const std::pair<B, const char*> bo[]{{B::FREE, "none"}, {B::CLIP, "both"}, {B::WRAP, "wrap"}, {B::FOLD, "fold"}, {B::LOW, "low"}, {B::HIGH, "high"}};
  for (auto& [b, s] : bo)
  {
    VCHECK(mn::to_minuit_bounding_text(b) == s, "bounding-text", s);
    VCHECK(mn::from_minuit_bounding_text(s) == b, "bounding-parse", s);
  }
  for (auto s : {"xyz", "qqq", "42"})
  {
    VCHECK(vp::throws([&] { mn::from_minuit_service_text(s); }), "service-unknown", s);
    VCHECK(vp::throws([&] { mn::from_minuit_bounding_text(s); }), "bounding-unknown", s);
  }
  for (int c = -128; c < 128; c++)
  {
    const char ch = char(c);
    if (ch == '?' || ch == ':' || ch == '!')
      VCHECK(char(mn::get_command(ch)) == ch, "command", c);
    else
      VCHECK(vp::throws([&] { mn::get_command(ch); }), "command", c, " accepted");
    if (ch == 'l' || ch == 'n' || ch == 'g')
    {
      VCHECK(char(mn::get_operation(ch)) == ch, "operation", c);
      VCHECK(char(mn::get_operation(std::string(1, ch) + "xyz")) == ch, "operation-text", c);
    }
    else
      VCHECK(vp::throws([&] { mn::get_operation(ch); }), "operation", c, " accepted");
    if (ch && strchr("ACDnMUP", ch))
      VCHECK(char(mn::get_type(ch)) == ch, "node-type", c);
    else
      VCHECK(mn::get_type(ch) == mn::minuit_type::None, "node-type", c);
  }
  for (std::string n : {"dev", "", "a b", "x.1"})
  {
    mn::name_table t;
    t.set_device_name("other");
    t.set_device_name(n);
    using Q = mn::minuit_action;
    static const std::pair<Q, const char*> ac[]{{Q::NamespaceRequest, "?namespace"}, {Q::NamespaceReply, ":namespace"}, {Q::NamespaceError, "!namespace"}, {Q::GetRequest, "?get"}, {Q::GetReply, ":get"}, {Q::GetError, "!get"}, {Q::ListenRequest, "?listen"}, {Q::ListenReply, ":listen"}, {Q::ListenError, "!listen"}};
    for (auto& [a, s] : ac)
      VCHECK(t.get_action(a) == n + s, "action", n, s, ": ", std::string(t.get_action(a)));
  }
}

// ------------------------------------------------------------------ a tree
static const T types[]{T::FLOAT, T::INT, T::VEC2F, T::VEC3F, T::VEC4F, T::IMPULSE, T::BOOL, T::STRING, T::LIST, T::CHAR};
static mv::val gen_value(T t)
{
  auto& r = M.r;
  auto f = [&] { return mv::gen_float(r, false); };
  switch (t)
  {
    case T::FLOAT: return {f()};
    case T::INT: return {mv::gen_int(r)};
    case T::BOOL: return {r.b()};
    case T::CHAR: return {char(r.i(33, 126))};
    case T::STRING: return {mv::gen_string(r, true)};
    case T::VEC2F: return {mv::v2{f(), f()}};
    case T::VEC3F: return {mv::v3{f(), f(), f()}};
    case T::VEC4F: return {mv::v4{f(), f(), f(), f()}};
    case T::LIST:
    {
      mv::list l;
      for (int n = r.i(1, 5); n > 0; n--)
        switch (r.i(0, 2))
        {
          case 0: l.push_back({mv::gen_int(r)}); break;
          case 1: l.push_back({f()}); break;
          default: l.push_back({mv::gen_string(r, true)});
        }
      return {l};
    }
    default: return {mv::imp{}};
  }
}

// ------------------------------------------------------------------ a device and somebody who talks to it
struct session
{
  peer pr;
  uint16_t local{};
  std::unique_ptr<net::generic_device> dev;
  net::minuit_protocol* proto{};
  net::parameter_base* marker{};
  session(const std::string& name)
  {
    for (;;)
      try
      {
        local = free_port(SOCK_DGRAM);
        auto p = std::make_unique<net::minuit_protocol>(name, "127.0.0.1", pr.port, local);
        proto = p.get();
        dev = std::make_unique<net::generic_device>(std::move(p), name);
        break;
      }
      catch (const ossia::connection_error&)
      {
      }
    pr.target(local);
    marker = net::create_node(dev->get_root_node(), "/zz_marker").create_parameter(T::INT);
  }
  bool lost = false;
  std::vector<std::string> malformed;
  // everything the device sent until it has dealt with all it was sent
  std::vector<packet> barrier()
  {
    std::vector<packet> r;
    pr.send(enc("peer?get", {Str("/zz_marker:value")}));
    std::string s;
    for (;;)
    {
      if (!pr.recv(s, 8000))
      {
        lost = true;
        return r;
      }
      try
      {
        auto p = dec(s, false);
        if (p.a.size() >= 1 && p.a[0].data == "/zz_marker:value")
          return r;
        r.push_back(p);
      }
      catch (const bad& b)
      {
        malformed.push_back(b.what());
      }
    }
  }
};
struct reply_t
{
  std::string addr, kind;
  std::multiset<std::string> nodes, attrs;
  bool ok = false;
};
static reply_t parse_ns(const packet& p)
{
  reply_t r;
  if (p.a.size() < 2)
    return r;
  for (auto& a : p.a)
    if (a.tag != 's')
      return r;
  r.addr = p.a[0].data;
  r.kind = p.a[1].data;
  size_t i = 2;
  while (i < p.a.size())
  {
    std::multiset<std::string>* to = p.a[i].data == "nodes={" ? &r.nodes : p.a[i].data == "attributes={" ? &r.attrs : nullptr;
    if (!to)
      return r;
    for (i++; i < p.a.size() && p.a[i].data != "}"; i++)
      to->insert(p.a[i].data);
    if (i == p.a.size())
      return r;
    i++;
  }
  r.ok = true;
  return r;
}
static const std::multiset<std::string> data_attrs{"type", "dataspace", "repetitionsFilter", "service", "priority", "value", "rangeBounds", "rangeClipmode", "dataspaceUnit"};

struct item
{
  std::string addr;
  net::node_base* n{};
  net::parameter_base* p{};
  T t{};
  mv::val v;
  bool dom = false;
  int lo{}, hi{};
  ossia::access_mode acc{};
  ossia::bounding_mode bnd{};
  bool rep{};
  std::string unit, dataspace;
  std::optional<int> prio;
  std::optional<std::string> desc;
  std::optional<double> step;
};
static std::vector<item> gen_tree(net::device_base& d, int max, bool containers)
{
  std::vector<item> r;
  std::set<std::string> used;
  static const char* const seg[] = {"a", "b", "foo", "bar.1", "x-y", "longer_name", "c3"};
  for (int n = M.r.i(1, max); n > 0; n--)
  {
    std::string s;
    for (int q = M.r.i(1, 3); q > 0; q--)
      s += "/"s + M.r.pick(seg);
    if (!used.insert(s).second)
      continue;
    item i;
    i.addr = s;
    i.n = &net::find_or_create_node(d.get_root_node(), s);
    if (containers && M.r.b(1, 6))
      continue;
    i.t = M.r.pick(types);
    i.p = i.n->create_parameter(i.t);
    i.v = gen_value(i.t);
    if (M.r.b(1, 3) && (i.t == T::INT || i.t == T::FLOAT))
    {
      i.dom = true;
      i.lo = M.r.i(-100, 0);
      i.hi = M.r.i(1, 100);
      if (i.t == T::INT)
      {
        i.p->set_domain(ossia::make_domain(i.lo, i.hi));
        i.v = {int(M.r.i(i.lo, i.hi))};
      }
      else
      {
        i.p->set_domain(ossia::make_domain(float(i.lo), float(i.hi)));
        i.v = {float(M.r.i(i.lo, i.hi))};
      }
    }
    if (i.t == T::FLOAT && M.r.b(1, 3))
    {
      static const char* const units[][2] = {{"gain", "db"}, {"gain", "linear"}, {"time", "ms"}, {"distance", "cm"}, {"angle", "radian"}};
      auto& u = M.r.pick(units);
      i.p->set_unit(ossia::parse_pretty_unit(u[0] + "."s + u[1]));
      i.dataspace = u[0];
      i.unit = u[1];
    }
    static const ossia::access_mode ac[]{ossia::access_mode::BI, ossia::access_mode::GET, ossia::access_mode::SET};
    static const ossia::bounding_mode bo[]{ossia::bounding_mode::FREE, ossia::bounding_mode::CLIP, ossia::bounding_mode::WRAP, ossia::bounding_mode::FOLD, ossia::bounding_mode::LOW, ossia::bounding_mode::HIGH};
    i.acc = M.r.pick(ac);
    i.bnd = i.t == T::BOOL ? ossia::bounding_mode::FREE : M.r.pick(bo); // there is nothing to clip
    i.rep = M.r.b();
    i.p->set_access(i.acc);
    i.p->set_bounding(i.bnd);
    i.p->set_value(mv::mk(i.v));
    i.p->set_repetition_filter(i.rep ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF);
    if (M.r.b())
    {
      i.prio = int(M.r.i(-5, 100));
      net::set_priority(*i.n, *i.prio);
    }
    if (M.r.b())
    {
      i.desc = "d" + mv::gen_string(M.r, true); // an empty one is none
      net::set_description(*i.n, *i.desc);
    }
    if (M.r.b())
    {
      i.step = double(M.r.i(1, 100)) / 4;
      net::set_value_step_size(*i.n, *i.step);
    }
    r.push_back(std::move(i));
  }
  return r;
}
static std::multiset<std::string> names(net::node_base& n)
{
  std::multiset<std::string> r;
  for (auto& c : n.children_names())
    r.insert(c);
  return r;
}

// ------------------------------------------------------------------ answering
VP_SECTION(server)
{
  for (int it = 0; it < M.n(25, 150); it++)
  {
    session s{"srv"};
    auto items = gen_tree(*s.dev, 8, true);
    auto& root = s.dev->get_root_node();
    auto get = [&](const std::string& what) {
      s.pr.send(enc("anyone?get", {Str(what)}));
      return s.barrier();
    };
    auto expect = [&](const char* rule, const std::string& what, std::optional<args> want) {
      auto r = get(what);
      VCHECK(!s.lost && s.malformed.empty(), rule, what, ": no answer any more, or a malformed one");
      VCHECK(r.size() == (want ? 1u : 0u), rule, what, ": ", r.size(), " answers");
      if (r.size() != 1 || !want)
        return;
      args w{Str(what)};
      w.insert(w.end(), want->begin(), want->end());
      VCHECK(r[0].addr == "srv:get" && r[0].a == w, rule, what, ": answered ", r[0].addr, " ", S(r[0].a), " for ", S(w));
    };
    for (auto& i : items)
    {
      if (s.lost)
        return;
      args v;
      if (!std::get_if<mv::imp>(&i.v.v))
        say(v, i.v, v10, 0, false, true);
      M.seen(vp::hash_str(i.addr + S(v)));
      expect("get-value", i.addr, v);
      expect("get-value", i.addr + ":value", v);
      expect("get-type", i.addr + ":type", args{Str(std::string(mn::to_minuit_type_text(i.t)))});
      args d;
      if (i.dom && i.t == T::INT)
        d = {I(i.lo), I(i.hi)};
      else if (i.dom)
        d = {F(float(i.lo)), F(float(i.hi))};
      expect("get-range", i.addr + ":rangeBounds", d);
      expect("get-clip", i.addr + ":rangeClipmode", args{Str(std::string(mn::to_minuit_bounding_text(i.bnd)))});
      expect("get-service", i.addr + ":service", args{Str(std::string(mn::to_minuit_service_text(i.acc)))});
      expect("get-filter", i.addr + ":repetitionsFilter", args{I(i.rep)});
      {
        auto r = get(i.addr + ":priority");
        VCHECK(r.size() == 1 && r[0].addr == "srv:get" && (r[0].a == args{Str(i.addr + ":priority"), I(i.prio.value_or(0))} || r[0].a == args{Str(i.addr + ":priority"), F(float(i.prio.value_or(0)))}), "get-priority", i.addr, ": ", r.size(), " answers, ", r.empty() ? "" : S(r[0].a));
      }
      expect("get-description", i.addr + ":description", i.desc ? std::optional<args>{args{Str(*i.desc)}} : std::nullopt);
      expect("get-step", i.addr + ":valueStepsize", i.step ? std::optional<args>{args{D(*i.step)}} : std::nullopt);
      if (!i.unit.empty())
      {
        expect("get-dataspace", i.addr + ":dataspace", args{Str(i.dataspace)});
        expect("get-unit", i.addr + ":dataspaceUnit", args{Str(i.unit)});
      }
      expect("get-unknown", i.addr + ":nothing", {});
      expect("get-unknown", i.addr + ":", {});
      expect("get-unknown", i.addr + "/nowhere", {});
    }
    // the tree
    std::function<void(net::node_base&)> rec = [&](net::node_base& n) {
      const std::string addr = n.get_parent() ? n.osc_address() : "/";
      s.pr.send(enc("anyone?namespace", {Str(addr)}));
      auto r = s.barrier();
      VCHECK(r.size() == 1 && s.malformed.empty(), "namespace", addr, ": ", r.size(), " answers");
      if (r.size() == 1)
      {
        auto q = parse_ns(r[0]);
        VCHECK(q.ok && r[0].addr == "srv:namespace" && q.addr == addr, "namespace", addr, ": ", r[0].addr, " ", S(r[0].a));
        const std::string kind = !n.get_parent() ? "Application" : n.get_parameter() ? "Data" : "Container";
        VCHECK(q.kind == kind, "namespace-kind", addr, ": ", q.kind, " for ", kind);
        VCHECK(q.nodes == names(n), "namespace-nodes", addr, " has ", names(n).size(), " children, says ", S(r[0].a));
        VCHECK(q.attrs == (kind == "Data" ? data_attrs : std::multiset<std::string>{}), "namespace-attributes", addr, ": ", S(r[0].a));
      }
      for (auto c : n.children_copy())
        if (!s.lost)
          rec(*c);
    };
    rec(root);
    s.pr.send(enc("anyone?namespace", {Str("/not/there")}));
    VCHECK(s.barrier().empty(), "namespace", "an answer about a node which does not exist");
    // plain messages set parameters
    for (auto& i : items)
      if (i.t == T::INT && !i.dom)
      {
        const int x = mv::gen_int(M.r);
        s.pr.send(enc(i.addr, {I(x)}));
        s.barrier();
        VCHECK(i.p->value() == ossia::value{x}, "plain", i.addr, " given ", x, ": ", mv::S(i.p->value()));
      }
  }
}

// ------------------------------------------------------------------ understanding answers
VP_SECTION(answers)
{
  for (int it = 0; it < M.n(40, 300); it++)
  {
    session s{"cli"};
    auto& root = s.dev->get_root_node();
    auto tell = [&](const std::string& addr, args a, bool listen = false) {
      a.insert(a.begin(), Str(addr));
      s.pr.send(enc(listen ? "srv:listen" : "srv:get", a));
      return s.barrier();
    };
    auto p = net::create_node(root, "/p").create_parameter(M.r.pick(types));
    auto& n = p->get_node();
    for (int m = 0; m < 25; m++)
    {
      const bool li = M.r.b();
      if (s.lost)
      {
        VCHECK(false, "answer-alive", "no answer any more");
        return;
      }
      // what the parameter was, for the answers which change nothing
      const auto type = p->get_value_type();
      const auto before = mv::from(p->value());
      const auto acc = p->get_access();
      const auto bnd = p->get_bounding();
      const auto rep = p->get_repetition_filter();
      const auto unit = p->get_unit();
      switch (M.r.i(0, 12))
      {
        case 0: case 1: // type
        {
          static const std::pair<const char*, T> tt[]{{"integer", T::INT}, {"decimal", T::FLOAT}, {"string", T::STRING}, {"generic", T::LIST}, {"boolean", T::BOOL}, {"none", T::IMPULSE}, {"array", T::LIST}};
          auto& [w, t] = M.r.pick(tt);
          p->set_unit({});
          tell("/p:type", {Str(w)}, li);
          // an array can be a vector, a string a character
          const T want = mn::to_minuit_type_text(type) == mn::to_minuit_type_text(t) ? type : t;
          VCHECK(p->get_value_type() == want && p->value().get_type() == want, "answer-type", w, ": ", int(p->get_value_type()));
          if (want == type) // said again: the same
            VCHECK(mv::same(before, p->value()), "answer-type-again", w, " was ", mv::S(before), ": ", mv::S(p->value()));
          break;
        }
        case 2: case 3: case 4: // value
        {
          if (p->get_domain())
            p->set_domain({});
          auto v = gen_value(p->get_value_type());
          args a;
          say(a, v, v10, 0, false, true);
          if (type == T::IMPULSE)
            a.clear();
          tell(M.r.b() ? "/p:value" : "/p", a, li);
          VCHECK(mv::same(v, p->value()), "answer-value", S(a), " for ", mv::S(v), ": ", mv::S(p->value()));
          M.seen(vp::hash_str(S(a)));
          break;
        }
        case 5:
        {
          if (type != T::INT && type != T::FLOAT)
            break;
          const int lo = M.r.i(-50, 0), hi = M.r.i(1, 50);
          tell("/p:rangeBounds", {type == T::INT ? I(lo) : F(float(lo)), type == T::INT ? I(hi) : F(float(hi))}, li);
          auto d = p->get_domain();
          VCHECK(d && d.get_min() == (type == T::INT ? ossia::value{lo} : ossia::value{float(lo)}) && d.get_max() == (type == T::INT ? ossia::value{hi} : ossia::value{float(hi)}), "answer-range", lo, " ", hi);
          break;
        }
        case 6:
        {
          static const std::pair<const char*, ossia::bounding_mode> bb[]{{"none", ossia::bounding_mode::FREE}, {"both", ossia::bounding_mode::CLIP}, {"wrap", ossia::bounding_mode::WRAP}, {"fold", ossia::bounding_mode::FOLD}, {"low", ossia::bounding_mode::LOW}, {"high", ossia::bounding_mode::HIGH}};
          auto& [w, b] = M.r.pick(bb);
          if (type == T::BOOL)
            break;
          tell("/p:rangeClipmode", {Str(w)}, li);
          VCHECK(p->get_bounding() == b, "answer-clip", w);
          break;
        }
        case 7:
        {
          static const std::pair<const char*, ossia::access_mode> bb[]{{"parameter", ossia::access_mode::BI}, {"return", ossia::access_mode::GET}, {"message", ossia::access_mode::SET}};
          auto& [w, b] = M.r.pick(bb);
          tell("/p:service", {Str(w)}, li);
          VCHECK(p->get_access() == b, "answer-service", w);
          break;
        }
        case 8:
        {
          const bool b = M.r.b();
          tell("/p:repetitionsFilter", {I(b)}, li);
          VCHECK((p->get_repetition_filter() == ossia::repetition_filter::ON) == b, "answer-filter", b);
          p->set_repetition_filter(ossia::repetition_filter::OFF);
          break;
        }
        case 9:
        {
          const int pr = M.r.i(-100, 100);
          tell("/p:priority", {M.r.b() ? I(pr) : F(float(pr))}, li);
          VCHECK(net::get_priority(n) && *net::get_priority(n) == pr, "answer-priority", pr);
          auto d = "d" + mv::gen_string(M.r, true);
          tell("/p:description", {Str(d)}, li);
          VCHECK(net::get_description(n) && *net::get_description(n) == d, "answer-description", d);
          tell("/p:valueStepsize", {M.r.b() ? I(3) : M.r.b() ? F(3.f) : D(3.)}, li);
          VCHECK(net::get_value_step_size(n) && *net::get_value_step_size(n) == 3., "answer-step", "3");
          break;
        }
        case 10:
        {
          p->set_unit({});
          p->set_value_type(T::FLOAT);
          if (p->get_domain())
            p->set_domain({});
          tell("/p:dataspace", {Str("gain")}, li);
          VCHECK(ossia::get_dataspace_text(p->get_unit()) == "gain", "answer-dataspace", std::string(ossia::get_dataspace_text(p->get_unit())));
          tell("/p:dataspaceUnit", {Str("db")}, li);
          VCHECK(p->get_unit() == ossia::decibel_u{}, "answer-unit", ossia::get_pretty_unit_text(p->get_unit()));
          p->set_unit({});
          break;
        }
        default: // an answer which makes no sense changes nothing
        {
          static const char* const attrs[] = {":type", ":rangeClipmode", ":repetitionsFilter", ":dataspace", ":dataspaceUnit", ":service", ":description", ":priority", ":unknown", ":", ":valu"};
          const std::string at = M.r.pick(attrs);
          args a;
          switch (M.r.i(0, 3))
          {
            case 0: break; // nothing
            case 1: a = {at == ":repetitionsFilter" || at == ":priority" ? Str("12") : I(mv::gen_int(M.r))}; break;
            case 2: a = {Blob("xyzxyzxyz")}; break;
            default: a = {Tag('N'), Tag('T')}; break;
          }
          const auto desc = net::get_description(n);
          const auto prio = net::get_priority(n);
          tell("/p" + at, a, li);
          const bool same = p->get_value_type() == type && mv::same(before, p->value()) && p->get_access() == acc && p->get_bounding() == bnd && p->get_repetition_filter() == rep && p->get_unit() == unit && net::get_description(n) == desc && net::get_priority(n) == prio;
          VCHECK(same, "answer-nonsense", at, " ", S(a), " changes the parameter");
          // not even an address
          s.pr.send(enc(li ? "srv:get" : "srv:listen", M.r.b() ? args{} : args{I(5)}));
          s.barrier();
          break;
        }
      }
    }
  }
}
VP_SECTION(discover)
{
  for (int it = 0; it < M.n(40, 300); it++)
  {
    session s{"cli"};
    auto& root = s.dev->get_root_node();
    // answers about the tree: what the device asks next
    static const char* const kinds[] = {"Container", "Application", "Data", "None", "ModelInfo", "PresetManager", ""};
    for (int m = 0; m < 4; m++)
    {
      const std::string kind = M.r.pick(kinds);
      const std::string addr = kind == "Application" ? "/" : vp::str("/n", it, "_", m);
      std::vector<std::string> ch, at;
      for (int n = M.r.i(0, 4); n > 0; n--)
        ch.push_back(vp::str("c", n));
      static const char* const attrs[] = {"value", "rangeBounds", "dataspace", "type", "service", "dataspaceUnit", "priority", "rangeClipmode", "repetitionsFilter", "description", "tags", "rampDrive"};
      for (auto a : attrs)
        if (M.r.b())
          at.insert(at.begin() + idx(at.size() + 1), a);
      args a{Str(addr), Str(kind)};
      auto put = [&](const char* o, auto& l) {
        a.push_back(Str(o));
        for (auto& x : l)
          a.push_back(Str(x));
        a.push_back(Str("}"));
      };
      const bool first = M.r.b();
      if (first)
        put("nodes={", ch);
      put("attributes={", at);
      if (!first)
        put("nodes={", ch);
      s.pr.send(enc("srv:namespace", a));
      M.seen(vp::hash_str(S(a)));
      auto r = s.barrier();
      VCHECK(!s.lost && s.malformed.empty(), "discover", "no answer any more, or malformed");
      if (s.lost)
        return;
      std::vector<std::string> asked_ns, asked_get;
      for (auto& p : r)
      {
        VCHECK(p.a.size() == 1 && p.a[0].tag == 's' && (p.addr == "cli?namespace" || p.addr == "cli?get"), "discover", "asks ", p.addr, " ", S(p.a));
        if (p.a.size() == 1)
          (p.addr == "cli?namespace" ? asked_ns : asked_get).push_back(p.a[0].data);
      }
      std::vector<std::string> want_ns;
      for (auto& c : ch)
        want_ns.push_back((addr == "/" ? "" : addr) + "/" + c);
      if (addr != "/" || m == 0)
        VCHECK(asked_ns == want_ns, "discover-children", kind, " with ", ch.size(), " children: asks about ", asked_ns.size());
      else // already being asked
        VCHECK(asked_ns.size() <= want_ns.size(), "discover-children", "asks about ", asked_ns.size());
      std::multiset<std::string> want_get;
      if (kind == "Data")
        for (auto& x : at)
          if (x != "tags" && x != "rampDrive")
            want_get.insert(addr + ":" + x);
      VCHECK(std::multiset<std::string>(asked_get.begin(), asked_get.end()) == want_get, "discover-attributes", kind, ": asks for ", asked_get.size(), " attributes for ", want_get.size());
      // the type has to be known before what depends on it
      bool late = false;
      for (auto& g : asked_get)
      {
        const bool early = g == addr + ":type" || g == addr + ":dataspace";
        VCHECK(!(early && late), "discover-order", g, " asked after an attribute which depends on it");
        late |= !early;
      }
      if (kind == "Data")
      {
        auto n = net::find_node(root, addr);
        VCHECK(n && n->get_parameter(), "discover-parameter", addr, " not created");
      }
    }
  }
}

// ------------------------------------------------------------------ pulling
VP_SECTION(pull)
{
  for (int it = 0; it < M.n(6, 40); it++)
  {
    session s{"cli"};
    auto p = net::create_node(s.dev->get_root_node(), "/p").create_parameter(T::INT);
    const int v = M.r.i(1, 1000000);
    std::string q;
    auto asked = [&] {
      while (s.pr.recv(q, 3000))
      {
        auto k = dec(q, false);
        if (k.addr == "cli?get" && k.a == args{Str("/p:value")})
          return true;
      }
      return false;
    };
    // nobody answers
    VCHECK(!s.proto->pull(*p), "pull-unanswered", "a pull nobody answered succeeds");
    VCHECK(asked(), "pull-asks", "the value is not asked for");
    // somebody does
    auto f = s.proto->pull_async(*p);
    VCHECK(asked(), "pull-again", "after an unanswered pull, the value is never asked for again");
    VCHECK(f.wait_for(20ms) == std::future_status::timeout, "pull-unanswered", "a pull nobody answered yet is over");
    // a second one meanwhile
    auto g = s.proto->pull_async(*p);
    s.pr.send(enc("srv:get", {Str("/p:value"), I(v)}));
    VCHECK(f.wait_for(5s) == std::future_status::ready, "pull-answered", "still waiting after the answer");
    VCHECK(g.wait_for(5s) == std::future_status::ready, "pull-answered", "the second pull still waits after the answer");
    if (f.wait_for(0s) == std::future_status::ready)
      vp::no_throw("pull-answered", [&] { f.get(); });
    if (g.wait_for(0s) == std::future_status::ready)
      vp::no_throw("pull-answered", [&] { g.get(); });
    VCHECK(p->value() == ossia::value{v}, "pull-value", mv::S(p->value()), " for ", v);
    // an error is an answer too
    auto h = s.proto->pull_async(*p);
    s.pr.send(enc("srv!get", {Str("/p:value"), Str("no")}));
    VCHECK(h.wait_for(5s) == std::future_status::ready, "pull-error", "still waiting after an error");
    s.barrier();
    s.proto->request(*p);
    VCHECK(asked(), "request", "the value is not requested");
    // listening
    auto it2 = p->add_callback([](const ossia::value&) {});
    VCHECK(s.pr.recv(q, 3000) && dec(q, false).addr == "cli?listen" && dec(q, false).a == args({Str("/p"), Str("enable")}), "listen", "not asked to listen");
    p->remove_callback(it2);
    VCHECK(s.pr.recv(q, 3000) && dec(q, false).addr == "cli?listen" && dec(q, false).a == args({Str("/p"), Str("disable")}), "listen", "not asked to stop listening");
    M.seen(v);
  }
}

// ------------------------------------------------------------------ mirrors
static void compare(std::vector<item>& items, net::device_base& srv, net::device_base& cli, const char* rule)
{
  std::function<void(net::node_base&, net::node_base&)> rec = [&](net::node_base& a, net::node_base& b) {
    for (auto c : a.children_copy())
    {
      // a node under which there is no parameter need not be mirrored
      std::function<bool(net::node_base&)> has = [&](net::node_base& n) {
        if (n.get_parameter())
          return true;
        for (auto x : n.children_copy())
          if (has(*x))
            return true;
        return false;
      };
      auto d = b.find_child(c->get_name());
      if (has(*c))
        VCHECK(d, rule, c->osc_address(), " is not mirrored");
      if (d)
      {
        VCHECK(bool(c->get_parameter()) == bool(d->get_parameter()), rule, c->osc_address(), d->get_parameter() ? " has no parameter, its mirror has" : " has a parameter, its mirror has none");
        rec(*c, *d);
      }
    }
    for (auto c : b.children_copy())
      VCHECK(a.find_child(c->get_name()), rule, c->osc_address(), " does not exist on the other side");
  };
  rec(srv.get_root_node(), cli.get_root_node());
}
VP_SECTION(mirror)
{
  for (int it = 0; it < M.n(4, 30); it++)
  {
    uint16_t p1{}, p2{};
    std::unique_ptr<net::generic_device> a, b;
    net::minuit_protocol* pb{};
    try
    {
      p1 = free_port(SOCK_DGRAM);
      p2 = free_port(SOCK_DGRAM);
      a = std::make_unique<net::generic_device>(std::make_unique<net::minuit_protocol>("srv", "127.0.0.1", p2, p1), "srv");
      auto q = std::make_unique<net::minuit_protocol>("cli", "127.0.0.1", p1, p2);
      pb = q.get();
      b = std::make_unique<net::generic_device>(std::move(q), "cli");
    }
    catch (const ossia::connection_error&)
    {
      continue;
    }
    auto items = gen_tree(*a, 8, true);
    // what was there before goes away
    net::create_node(b->get_root_node(), "/stale/node").create_parameter(T::INT);
    const bool ok = pb->update(b->get_root_node());
    VCHECK(ok, "mirror-update", "update of a tree of ", items.size(), " parameters fails");
    compare(items, *a, *b, "mirror-tree");
    for (auto& i : items)
    {
      auto n = net::find_node(b->get_root_node(), i.addr);
      if (!n || !n->get_parameter())
        continue; // reported above
      auto& p = *n->get_parameter();
      const T t = i.t == T::CHAR ? T::STRING : (i.t == T::VEC2F || i.t == T::VEC3F || i.t == T::VEC4F) ? T::LIST : i.t;
      auto fl = [](auto& arr) {
        mv::list l;
        for (float f : arr)
          l.push_back({f});
        return mv::val{l};
      };
      mv::val v = i.v;
      if (auto q = std::get_if<mv::v2>(&i.v.v))
        v = fl(*q);
      if (auto q = std::get_if<mv::v3>(&i.v.v))
        v = fl(*q);
      if (auto q = std::get_if<mv::v4>(&i.v.v))
        v = fl(*q);
      VCHECK(p.get_value_type() == t, "mirror-type", i.addr, " ", int(i.t), ": ", int(p.get_value_type()));
      if (i.t != T::CHAR)
        VCHECK(mv::same(v, p.value()), "mirror-value", i.addr, " ", mv::S(i.v), ": ", mv::S(p.value()));
      VCHECK(p.get_access() == i.acc, "mirror-access", i.addr);
      VCHECK(p.get_bounding() == i.bnd, "mirror-bounding", i.addr);
      VCHECK((p.get_repetition_filter() == ossia::repetition_filter::ON) == i.rep, "mirror-filter", i.addr);
      VCHECK(net::get_priority(*n).value_or(0) == i.prio.value_or(0), "mirror-priority", i.addr);
      if (i.dom)
      {
        auto d = p.get_domain();
        VCHECK(d && d.get_min() == i.p->get_domain().get_min() && d.get_max() == i.p->get_domain().get_max(), "mirror-domain", i.addr);
      }
      if (!i.unit.empty())
        VCHECK(p.get_unit() == i.p->get_unit(), "mirror-unit", i.addr, ": ", ossia::get_pretty_unit_text(p.get_unit()));
      M.seen(vp::hash_str(mv::S(i.v)) + int(i.acc));
    }
    // values, both ways and pulled
    for (auto& i : items)
    {
      auto n = net::find_node(b->get_root_node(), i.addr);
      if (!n || !n->get_parameter() || (i.t != T::INT && i.t != T::STRING) || i.dom)
        continue;
      auto& p = *n->get_parameter();
      // all different: whether one of them arrived can be told
      auto w = [&, k = 0]() mutable { ++k; return i.t == T::INT ? mv::val{int(M.r.i(-1000, 1000) * 8 + k)} : mv::val{vp::str(k, mv::gen_string(M.r, true), it)}; };
      auto w1 = w(), w2 = w(), w3 = w();
      i.p->set_value(mv::mk(w()));
      i.p->set_repetition_filter(ossia::repetition_filter::OFF);
      p.set_repetition_filter(ossia::repetition_filter::OFF);
      if (M.r.b())
        p.add_callback([](const ossia::value&) {});
      i.p->push_value(mv::mk(w1));
      VCHECK(eventually([&] { return mv::same(w1, p.value()); }), "mirror-down", i.addr, " pushed ", mv::S(w1), ", mirror holds ", mv::S(p.value()));
      p.push_value(mv::mk(w2));
      VCHECK(eventually([&] { return mv::same(w2, i.p->value()); }), "mirror-up", i.addr, " pushed ", mv::S(w2), ", server holds ", mv::S(i.p->value()));
      i.p->set_value(mv::mk(w3));
      VCHECK(eventually([&] { return pb->pull(p); }), "mirror-pull", i.addr, " cannot be pulled");
      VCHECK(eventually([&] { return mv::same(w3, p.value()); }), "mirror-pull", i.addr, " is ", mv::S(i.p->value()), " set to ", mv::S(w3), " after ", mv::S(w2), ", pulled ", mv::S(p.value()), " access ", int(i.acc), int(p.get_access()));
    }
    // again, after a change of the tree
    auto more = gen_tree(*a, 3, false);
    VCHECK(pb->update(b->get_root_node()), "mirror-update", "second update fails");
    compare(more, *a, *b, "mirror-again");
  }
}
// some questions and answers are lost on the way: the tree is mirrored all the same
VP_SECTION(lossy)
{
  for (int it = 0; it < M.n(1, 4); it++)
  {
    // the client talks to a relay, which talks to the server
    peer up, down; // up: towards the server; down: towards the client
    std::unique_ptr<net::generic_device> a, b;
    net::minuit_protocol* pb{};
    try
    {
      const auto p1 = free_port(SOCK_DGRAM), p2 = free_port(SOCK_DGRAM);
      a = std::make_unique<net::generic_device>(std::make_unique<net::minuit_protocol>("srv", "127.0.0.1", up.port, p1), "srv");
      auto q = std::make_unique<net::minuit_protocol>("cli", "127.0.0.1", down.port, p2);
      pb = q.get();
      b = std::make_unique<net::generic_device>(std::move(q), "cli");
      up.target(p1);
      down.target(p2);
    }
    catch (const ossia::connection_error&)
    {
      continue;
    }
    std::atomic<bool> stop{};
    std::atomic<int> dropped{};
    vp::rng r{M.r.next()};
    std::thread relay{[&] {
      std::set<std::string> seen; // each packet is lost at most once
      std::string s;
      auto pass = [&](peer& from, peer& to, const char* way) {
        if (from.recv(s, 1))
        {
          if (seen.insert(way + s).second && r.b(1, 4))
            dropped++;
          else
            to.send(s);
        }
      };
      while (!stop)
      {
        pass(down, up, ">");
        pass(up, down, "<");
      }
    }};
    auto items = gen_tree(*a, 6, false);
    pb->update(b->get_root_node());
    stop = true;
    relay.join();
    M.sample(vp::str("lossy: ", int(dropped), " packets lost, ", items.size(), " parameters"));
    M.seen(uint64_t(dropped));
    compare(items, *a, *b, "lossy");
  }
}

// ------------------------------------------------------------------ settings, and what should not arrive
VP_SECTION(ports)
{
  for (int it = 0; it < M.n(3, 15); it++)
  {
    session s{"dev"};
    auto p = net::create_node(s.dev->get_root_node(), "/p").create_parameter(T::INT);
    VCHECK(s.proto->get_ip() == "127.0.0.1" && s.proto->get_local_port() == s.local && s.proto->get_remote_port() == s.pr.port, "ports", "other settings reported");
    peer other;
    s.proto->set_remote_port(other.port);
    VCHECK(s.proto->get_remote_port() == other.port, "ports", "remote port not changed");
    p->push_value(ossia::value{5});
    std::string q;
    VCHECK(other.recv(q, 3000) && dec(q).a == args{I(5)}, "remote-port", "not sent to the new port");
    s.proto->set_ip("127.0.0.1");
    p->push_value(ossia::value{6});
    VCHECK(other.recv(q, 3000) && dec(q).a == args{I(6)}, "remote-ip", "not sent after the address was set");
    const auto l = free_port(SOCK_DGRAM);
    s.proto->set_local_port(l);
    VCHECK(s.proto->get_local_port() == l, "ports", "local port not changed");
    s.pr.target(l);
    VCHECK(eventually([&] {
      s.pr.send(enc("/p", {I(7)}));
      return p->value() == ossia::value{7};
    }, 3000), "local-port", "nothing is received any more after the local port was changed");
    M.seen(l);
  }
}
VP_SECTION(hostile)
{
  for (int it = 0; it < M.n(30, 300); it++)
  {
    session s{"dev"};
    auto& root = s.dev->get_root_node();
    for (T t : types)
      net::create_node(root, vp::str("/t", int(t))).create_parameter(t);
    for (int m = 0; m < 20; m++)
    {
      static const char* const ops[] = {"get", "namespace", "listen", "", "x", "g", "n"};
      static const char* const at[] = {"", ":value", ":type", ":rangeBounds", ":rangeClipmode", ":service", ":dataspace", ":dataspaceUnit", ":priority", ":repetitionsFilter", ":description", ":valueStepsize", ":", "::", ":foo"};
      static const char* const words[] = {"", "nodes={", "attributes={", "}", "Data", "Container", "type", "value", "a", "none", "integer", "db", "gain", "/", "//", "/t1", "é"};
      const std::string addr = vp::str("app", "?:!"[M.r.i(0, 2)], M.r.pick(ops));
      args a;
      if (M.r.b(9, 10))
        a.push_back(Str(M.r.b(1, 6) ? std::string(M.r.pick(words)) : vp::str("/t", M.r.i(0, 11), M.r.pick(at))));
      for (int n = M.r.i(0, 6); n > 0; n--)
        switch (M.r.i(0, 6))
        {
          case 0: a.push_back(I(mv::gen_int(M.r))); break;
          case 1: a.push_back(F(mv::gen_float(M.r, false))); break;
          case 2: a.push_back(Blob("abcde")); break;
          case 3: a.push_back(Tag("TFNI"[M.r.i(0, 3)])); break;
          default: a.push_back(Str(M.r.pick(words)));
        }
      if (M.r.b(1, 10) && !a.empty())
        a[0] = I(1);
      auto p = enc(addr, a);
      M.seen(vp::hash_str(p));
      for (int n = M.r.b(1, 3) ? M.r.i(1, 3) : 0; n > 0 && !p.empty(); n--)
        if (M.r.b())
          p[idx(p.size())] = char(M.r.i(0, 255));
        else
          p.resize(idx(p.size() + 1));
      s.pr.send(p);
    }
    s.barrier();
    VCHECK(!s.lost, "hostile-alive", "no answer any more");
    VCHECK(s.malformed.empty(), "hostile-answer", "malformed: ", s.malformed.empty() ? "" : s.malformed[0]);
    if (s.lost)
      return;
  }
}
VP_MAIN
