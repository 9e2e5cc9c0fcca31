// C15: parameters: one value of one type, converted, stored, notified, sent.
#include "values.hpp"
#include <ossia/network/base/message_origin_identifier.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/common/extended_types.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/value_with_unit.hpp>
#include <ossia/network/dataspace/detail/dataspace_parse.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/domain/domain_conversion.hpp>
#include <ossia/network/exceptions.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/value/destination.hpp>
#include <ossia/network/value/value.hpp>
#include <ossia/network/value/value_conversion.hpp>
#include <oscpack/osc/OscReceivedElements.h>
#include <oscpack/osc/OscOutboundPacketStream.h>
#include <ossia/network/osc/detail/osc.hpp>
#include <future>
#include <list>
#include <thread>
using vp::M;
using namespace std::literals;
namespace net = ossia::net;
using T = ossia::val_type;

static const T all_types[]{T::FLOAT, T::INT, T::VEC2F, T::VEC3F, T::VEC4F, T::IMPULSE, T::BOOL, T::STRING, T::LIST, T::CHAR};
static mv::val some_value()
{
  mv::opts o;
  o.none_ = false;
  return mv::gen(M.r, o);
}

// What a parameter holding cur holds once v is written to it: v in the type of
// the parameter; a shorter vector only replaces the first components.
static ossia::value lifted(const ossia::value& v, const ossia::value& cur)
{
  auto r = ossia::convert(v, cur.get_type());
  auto head = [&](auto zero, const auto& src) {
    auto x = cur.get<decltype(zero)>();
    if (src.size() < x.size())
    {
      std::copy(src.begin(), src.end(), x.begin());
      r = x;
    }
  };
  auto from = [&](const auto& src) {
    if (cur.get_type() == T::VEC2F)
      head(ossia::vec2f{}, src);
    else if (cur.get_type() == T::VEC3F)
      head(ossia::vec3f{}, src);
    else if (cur.get_type() == T::VEC4F)
      head(ossia::vec4f{}, src);
  };
  if (v.get_type() == T::VEC2F)
    from(v.get<ossia::vec2f>());
  else if (v.get_type() == T::VEC3F)
    from(v.get<ossia::vec3f>());
  else if (v.get_type() == T::VEC4F)
    from(v.get<ossia::vec4f>());
  return r;
}

// what the network sees
struct spy final : net::protocol_base
{
  struct ev
  {
    char kind;
    const net::parameter_base* p;
    mv::val v;
    bool b;
  };
  std::mutex m;
  std::vector<ev> log;
  ossia::value on_pull;
  void add(char k, const net::parameter_base* p, mv::val v = {}, bool b = false)
  {
    std::lock_guard l{m};
    log.push_back({k, p, v, b});
  }
  bool pull(net::parameter_base& p) override
  {
    add('<', &p);
    if (on_pull.valid())
      p.set_value(on_pull);
    return true;
  }
  std::future<void> pull_async(net::parameter_base& p) override
  {
    add('a', &p);
    std::promise<void> pr;
    pr.set_value();
    return pr.get_future();
  }
  void request(net::parameter_base& p) override { add('r', &p); }
  bool push(const net::parameter_base& p, const ossia::value& v) override
  {
    add('>', &p, mv::from(v));
    return true;
  }
  bool push_raw(const net::full_parameter_data& d) override
  {
    add('w', nullptr, mv::from(d.value()));
    return true;
  }
  bool observe(net::parameter_base& p, bool b) override
  {
    add('o', &p, {}, b);
    return true;
  }
  bool update(net::node_base&) override { return false; }
  bool echo_incoming_message(const net::message_origin_identifier& i, const net::parameter_base& p, const ossia::value& v) override
  {
    add(i.identifier == 1234 ? 'e' : '?', &p, mv::from(v));
    return true;
  }
};
using protocol_push = bool (net::protocol_base::*)(const net::parameter_base&);

struct world
{
  std::vector<std::string> attrs;
  std::vector<const net::parameter_base*> messages;
  spy* proto{};
  std::unique_ptr<net::generic_device> dev;
  void attr(net::node_base& n, const std::string& a) { attrs.push_back(n.get_name() + ":" + a); }
  void msg(const net::parameter_base& p) { messages.push_back(&p); }
  world()
  {
    auto s = std::make_unique<spy>();
    proto = s.get();
    dev = std::make_unique<net::generic_device>(std::move(s), "dev");
    dev->on_attribute_modified.connect<&world::attr>(*this);
    dev->on_message.connect<&world::msg>(*this);
  }
};

VP_SECTION(histories)
{
  for (int it = 0, N = M.n(150, 4000); it < N; it++)
  {
    world w;
    auto& node = *w.dev->create_child("p");
    auto type = M.r.pick(all_types);
    auto& p = static_cast<net::generic_parameter&>(*node.create_parameter(type));
    ossia::value cur = ossia::init_value(type), prev;
    VCHECK(p.get_value_type() == type && mv::same(mv::from(cur), p.value()), "param.initial", mv::S(p.value()));
    // the defaults of a new parameter
    VCHECK(p.get_access() == ossia::access_mode::BI && p.get_bounding() == ossia::bounding_mode::FREE && !p.get_domain() && !p.get_unit() && !p.get_disabled() && !p.get_muted() && !p.get_critical() && p.get_repetition_filter() == ossia::repetition_filter::OFF && !p.get_default_value(), "param.defaults", "new parameter");
    w.attrs.clear();
    w.proto->log.clear();
    struct cb
    {
      net::parameter_base::callback_index idx;
      std::vector<mv::val> got;
    };
    std::list<cb> cbs;
    bool muted{}, disabled{}, critical{}, rep{};
    ossia::access_mode access{ossia::access_mode::BI};
    ossia::bounding_mode bounding{ossia::bounding_mode::FREE};
    ossia::unit_t unit;
    std::optional<mv::val> deflt;
    std::string hist;
    bool known_prev = false; // the value before the last one is known
    for (int op = 0, K = M.r.i(5, 60); op < K; op++)
    {
      M.at("param.history", vp::str("it ", it, " ", hist.size() > 600 ? hist.substr(hist.size() - 600) : hist));
      std::vector<std::string> want_attrs;
      std::vector<mv::val> want_cb;
      std::vector<spy::ev> want_net;
      std::vector<const net::parameter_base*> want_msg;
      auto assign = [&](const ossia::value& v) {
        prev = cur;
        cur = lifted(v, cur);
        known_prev = true;
      };
      auto mval = some_value();
      // often the same value, or one of the right type
      ossia::value v = M.r.b(1, 3) ? cur : M.r.b() ? ossia::convert(mv::mk(mval), cur.get_type()) : mv::mk(mval);
      switch (M.r.i(0, 21))
      {
        case 0:
        case 1:
        {
          hist += " push " + mv::S(v);
          assign(v);
          want_cb.push_back(mv::from(cur));
          want_net.push_back({'>', &p, mv::from(cur), false});
          net::parameter_base& r = M.r.b() ? p.push_value(v) : p.push_value(ossia::value{v});
          VCHECK(&r == &p, "param.chain", "push_value");
          break;
        }
        case 2:
          hist += " push";
          want_net.push_back({'>', &p, mv::from(cur), false});
          if (M.r.b())
            p.push_value();
          else
            static_cast<net::protocol_base*>(w.proto)->push(p);
          break;
        case 3:
        case 4:
        {
          hist += " set " + mv::S(v);
          assign(v);
          want_cb.push_back(mv::from(cur));
          auto r = M.r.b() ? p.set_value(v) : p.set_value(ossia::value{v});
          VCHECK(mv::same(mv::from(cur), r), "param.set_value_result", hist, " gives ", mv::S(r));
          break;
        }
        case 5:
        {
          hist += " quiet " + mv::S(v);
          assign(v);
          auto r = M.r.b() ? p.set_value_quiet(v) : p.set_value_quiet(ossia::value{v});
          VCHECK(mv::same(mv::from(cur), r), "param.set_value_quiet_result", hist, " gives ", mv::S(r));
          break;
        }
        case 6:
          hist += " push_quiet " + mv::S(v);
          assign(v);
          want_net.push_back({'>', &p, mv::from(cur), false});
          if (M.r.b())
            p.push_value_quiet(v);
          else
            p.push_value_quiet(ossia::value{v});
          break;
        case 7:
        {
          hist += " fetch " + mv::S(v);
          w.proto->on_pull = M.r.b() ? v : ossia::value{};
          want_net.push_back({'<', &p, {}, false});
          if (w.proto->on_pull.valid())
          {
            assign(v);
            want_cb.push_back(mv::from(cur));
          }
          auto r = p.fetch_value();
          VCHECK(mv::same(mv::from(cur), r), "param.fetch_value", hist, " gives ", mv::S(r));
          break;
        }
        case 8:
          hist += " pull";
          w.proto->on_pull = ossia::value{};
          p.pull_value();
          want_net.push_back({'<', &p, {}, false});
          p.pull_value_async().get();
          want_net.push_back({'a', &p, {}, false});
          p.request_value();
          want_net.push_back({'r', &p, {}, false});
          break;
        case 9:
        {
          type = M.r.pick(all_types);
          hist += " type " + vp::str(int(type));
          p.set_value_type(type);
          cur = ossia::init_value(type);
          known_prev = false;
          want_attrs.push_back("p:type");
          VCHECK(p.get_value_type() == type, "param.set_value_type", hist);
          break;
        }
        case 10:
        {
          static const std::vector<std::string> units{"color.rgb", "position.cart3D", "gain.db", "time.second", "angle.degree", "orientation.quaternion", "position.cart2D", "distance.m", "color.argb8", "speed.m/s"};
          unit = M.r.b(1, 4) ? ossia::unit_t{} : ossia::parse_pretty_unit(M.r.pick(units));
          hist += " unit " + std::string(ossia::get_pretty_unit_text(unit));
          p.set_unit(unit);
          want_attrs.push_back("p:unit");
          if (unit)
          {
            auto t = ossia::matching_type(unit);
            cur = ossia::convert(cur, t);
            type = t;
            known_prev = false;
          }
          VCHECK(p.get_unit() == unit && p.get_value_type() == type, "param.set_unit", hist, " type ", int(p.get_value_type()));
          break;
        }
        case 11:
        {
          float lo = M.r.i(-10, 0), hi = M.r.i(1, 10);
          auto before = p.get_domain();
          bool empty = M.r.b(1, 5);
          ossia::domain d = empty ? ossia::domain{} : ossia::make_domain(lo, hi);
          hist += empty ? " nodomain" : vp::str(" domain ", lo, " ", hi);
          p.set_domain(d);
          if (before != d)
            want_attrs.push_back("p:domain");
          if (empty)
            VCHECK(!p.get_domain(), "param.set_domain", hist);
          else if (type == T::FLOAT || type == T::INT || type == T::CHAR)
          {
            auto a = p.get_domain().get_min(), b = p.get_domain().get_max();
            VCHECK(a.get_type() == type && b.get_type() == type && ossia::convert<float>(a) == lo && ossia::convert<float>(b) == hi, "param.set_domain", hist, " gives ", mv::S(a), " ", mv::S(b));
          }
          break;
        }
        case 12:
        {
          auto m = M.r.pick(std::array{ossia::access_mode::BI, ossia::access_mode::GET, ossia::access_mode::SET});
          hist += " access";
          if (m != access)
            want_attrs.push_back("p:access");
          access = m;
          p.set_access(m);
          break;
        }
        case 13:
        {
          auto m = ossia::bounding_mode(M.r.i(0, 5));
          hist += " bounding";
          if (m != bounding && type != T::BOOL)
          {
            want_attrs.push_back("p:bounding");
            bounding = m;
          }
          p.set_bounding(m);
          break;
        }
        case 14:
        {
          bool b = M.r.b();
          switch (M.r.i(0, 3))
          {
            case 0:
              if (b != muted)
                want_attrs.push_back("p:muted");
              p.set_muted(muted = b);
              break;
            case 1:
              if (b != disabled)
                want_attrs.push_back("p:disabled");
              p.set_disabled(disabled = b);
              break;
            case 2:
              if (b != critical)
                want_attrs.push_back("p:critical");
              p.set_critical(critical = b);
              break;
            case 3:
              if (b != rep)
                want_attrs.push_back("p:repetition_filter");
              rep = b;
              p.set_repetition_filter(b ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF);
              break;
          }
          hist += " flags";
          break;
        }
        case 15:
        {
          hist += " callback";
          bool first = cbs.empty();
          cbs.emplace_back();
          auto c = &cbs.back();
          c->idx = p.add_callback([c](const ossia::value& v) { c->got.push_back(mv::from(v)); });
          if (first)
            want_net.push_back({'o', &p, {}, true});
          VCHECK(p.callback_count() == cbs.size() && !p.callbacks_empty(), "param.callback_count", hist);
          break;
        }
        case 16:
          if (!cbs.empty())
          {
            hist += " uncallback";
            auto i = std::next(cbs.begin(), M.r.i(0, cbs.size() - 1));
            if (cbs.size() == 1)
              want_net.push_back({'o', &p, {}, false});
            p.remove_callback(i->idx);
            cbs.erase(i);
          }
          break;
        case 17: // as a protocol delivers it
        {
          bool quiet = M.r.b(), echo = M.r.b();
          w.dev->set_echo(echo);
          VCHECK(w.dev->has_echo() == echo, "param.echo", echo);
          hist += quiet ? " incoming_quiet " : " incoming ";
          hist += mv::S(v);
          assign(v);
          if (!quiet)
            want_cb.push_back(mv::from(cur));
          want_msg.push_back(&p);
          if (echo)
            want_net.push_back({'e', &p, mv::from(cur), false});
          net::message_origin_identifier id{*w.proto, 1234};
          if (quiet)
            w.dev->apply_incoming_message_quiet(id, p, ossia::value{v});
          else
            w.dev->apply_incoming_message(id, p, ossia::value{v});
          break;
        }
        case 18:
        {
          hist += " default " + mv::S(v);
          bool change = !deflt || !(mv::mk(*deflt) == v);
          deflt = mv::from(v);
          p.set_default_value(v);
          if (change)
            want_attrs.push_back("p:valueDefault");
          auto d = p.get_default_value();
          if (change)
            VCHECK(d && mv::same(*deflt, *d), "param.default_value", hist);
          else
            deflt = mv::from(*d);
          break;
        }
        case 19: // the filters
        {
          bool f = p.filter_value(v);
          bool e = muted || disabled || (rep && known_prev && v == prev);
          if (known_prev || muted || disabled || !rep)
            VCHECK(f == e, "param.filter_value", hist, " filter ", mv::S(v), muted ? " muted" : "", disabled ? " disabled" : "", rep ? " repetition" : "", " previous ", mv::S(prev));
          // what is sent is bounded by the domain
          auto dom = p.get_domain();
          ossia::value bounded = dom ? ossia::apply_domain(dom, p.get_bounding(), v) : v;
          for (int k = 0; k < 2; k++)
          {
            auto sent = k ? net::filter_value(p, ossia::value{v}) : net::filter_value(p, (const ossia::value&)v);
            bool fb = p.filter_value(bounded);
            VCHECK(fb || !bounded.valid() ? !sent.valid() : mv::same(mv::from(bounded), sent), "param.filtered_value", hist, " ", mv::S(v), " gives ", mv::S(sent), " bounded ", mv::S(bounded), fb ? " filtered" : "", " k ", k, " bounding ", int(p.get_bounding()), " domain ", p.get_domain().to_pretty_string(), " access ", int(p.get_access()));
          }
          break;
        }
        case 20: // partial views
        {
          auto c = p.value();
          std::vector<ossia::destination_index> idx;
          std::vector<ossia::value> exp;
          for (int k = M.r.i(1, 3); k-- > 0;)
          {
            ossia::destination_index i;
            int n = M.r.i(0, 2);
            for (int j = 0; j < n; j++)
              i.push_back(M.r.i(0, 4));
            idx.push_back(i);
            exp.push_back(ossia::get_value_at_index(c, i));
            auto one = static_cast<net::parameter_base&>(p).value(i);
            VCHECK(mv::same(mv::from(exp.back()), one), "param.value_at", hist);
            auto vu = net::get_value(ossia::destination{p, i});
            VCHECK(vu.which() == ossia::make_value(exp.back(), p.get_unit()).which(), "param.get_value_unit", hist);
          }
          auto r = static_cast<net::parameter_base&>(p).value(idx);
          bool ok = r.size() == exp.size();
          for (size_t k = 0; ok && k < r.size(); k++)
            ok = mv::same(mv::from(exp[k]), r[k]);
          VCHECK(ok, "param.values_at", hist);
          break;
        }
        case 21: // copy another parameter
        {
          auto& q = *w.dev->create_child("q")->create_parameter(M.r.b() ? type : M.r.pick(all_types));
          if (M.r.b())
            q.set_value(v);
          auto qv = q.value();
          w.attrs.clear();
          hist += " from " + mv::S(qv);
          w.proto->on_pull = ossia::value{};
          bool same = q.get_value_type() == type;
          bool threw = vp::throws([&] { p.set_value_quiet(ossia::destination{q}); });
          if (same)
            want_net.push_back({'<', &q, {}, false});
          VCHECK(threw == !same, "param.set_from_destination", hist, " types ", int(type), " and ", int(q.get_value_type()));
          if (same)
          {
            prev = cur;
            known_prev = true;
            cur = qv;
          }
          w.dev->remove_child(q.get_node());
          if (M.r.b())
          { // itself
            want_net.push_back({'o', &q, {}, false});
            p.set_value_quiet(ossia::destination{p});
            want_net.push_back({'<', &p, {}, false});
            prev = cur;
          }
          else
            want_net.push_back({'o', &q, {}, false});
          break;
        }
      }
      // everything observed is what was expected, in order
      VCHECK(mv::same(mv::from(cur), p.value()), "param.value", hist, " gives ", mv::S(p.value()), " expected ", mv::S(cur));
      VCHECK(mv::same(mv::from(cur), p.getValue()), "param.getValue", hist);
      VCHECK(p.get_access() == access && p.get_bounding() == bounding && p.get_muted() == muted && p.get_disabled() == disabled && p.get_critical() == critical && (p.get_repetition_filter() == ossia::repetition_filter::ON) == rep, "param.properties", hist);
      VCHECK(w.attrs == want_attrs, "param.attribute_signals", hist, ": ", w.attrs.size(), " signals ", w.attrs.empty() ? "" : w.attrs[0], ", expected ", want_attrs.size(), " ", want_attrs.empty() ? "" : want_attrs[0]);
      VCHECK(w.messages == want_msg, "param.on_message", hist, " ", w.messages.size());
      for (auto& c : cbs)
      {
        bool ok = c.got.size() == want_cb.size();
        for (size_t k = 0; ok && k < c.got.size(); k++)
          ok = mv::same(want_cb[k], mv::mk(c.got[k]));
        VCHECK(ok, "param.callbacks", hist, ": ", c.got.size(), " calls, expected ", want_cb.size(), c.got.empty() ? "" : " first " + mv::S(c.got[0]));
        c.got.clear();
      }
      auto& l = w.proto->log;
      bool ok = l.size() == want_net.size();
      std::string s;
      for (auto& e : l)
        s += vp::str(" ") + e.kind + " " + mv::S(e.v);
      for (size_t k = 0; ok && k < l.size(); k++)
        ok = l[k].kind == want_net[k].kind && l[k].p == want_net[k].p && l[k].b == want_net[k].b && mv::same(want_net[k].v, mv::mk(l[k].v));
      VCHECK(ok, "param.protocol", hist, ": network saw", s, ", ", want_net.size(), " events expected");
      l.clear();
      w.attrs.clear();
      w.messages.clear();
      M.seen(vp::mix(vp::hash_str(mv::S(cur)), op));
    }
    M.sample(hist.substr(0, 200));
    M.alive();
  }
}

// the same through the attribute functions of nodes
template <typename V, typename Get, typename SetN, typename SetE, typename Gen>
static void attribute(const char* text, ossia::string_view real_text, Get get, SetN setn, SetE sete, Gen gen)
{
  VCHECK(real_text == text, "attr.text", text, " is named ", std::string(real_text));
  world w;
  auto& n = *w.dev->create_child("n");
  auto& other = *w.dev->create_child("o");
  std::optional<V> cur;
  std::optional<V> pcur;
  net::parameter_data pd;
  for (int k = 0; k < M.n(40, 400); k++)
  {
    std::optional<V> v;
    if (M.r.b(4, 5))
      v = M.r.b(1, 3) && cur ? *cur : gen();
    M.at("attr.history", text);
    w.attrs.clear();
    bool change = v != cur;
    setn(n, v);
    cur = v;
    VCHECK(get(n) == cur, "attr.get", text, " differs after set");
    VCHECK(n.get_attribute(real_text).has_value() == cur.has_value() && (ossia::has_attribute(n, real_text) == cur.has_value()), "attr.has", text);
    VCHECK(w.attrs == (change ? std::vector<std::string>{"n:"s + text} : std::vector<std::string>{}), "attr.signal", text, ": ", w.attrs.size(), " signals, expected ", int(change));
    VCHECK(!get(other) && !get(w.dev->get_root_node()), "attr.leak", text, " visible on another node");
    sete((ossia::extended_attributes&)pd, v);
    VCHECK(get(pd) == v, "attr.data", text, " differs in parameter_data");
    // every other attribute is untouched
    VCHECK(n.get_extended_attributes().size() == (cur ? 1u : 0u), "attr.count", text, " ", n.get_extended_attributes().size());
    if (M.r.b(1, 8))
    {
      other.set_extended_attributes(n.get_extended_attributes());
      VCHECK(get(other) == cur, "attr.copy", text);
      other.set_extended_attributes({});
    }
    M.seen(vp::mix(vp::hash_str(text), k));
  }
}
template <typename Get, typename SetN, typename SetE>
static void flag(const char* text, ossia::string_view real_text, Get get, SetN setn, SetE sete)
{
  VCHECK(real_text == text, "attr.text", text, " is named ", std::string(real_text));
  world w;
  auto& n = *w.dev->create_child("n");
  bool cur = false;
  net::parameter_data pd;
  for (int k = 0; k < M.n(20, 200); k++)
  {
    bool v = M.r.b();
    M.at("attr.flag", text);
    w.attrs.clear();
    setn(n, v);
    VCHECK(get(n) == v && ossia::has_attribute(n, real_text) == v, "attr.flag", text, " set to ", v, " reads ", get(n));
    VCHECK(w.attrs == (v != cur ? std::vector<std::string>{"n:"s + text} : std::vector<std::string>{}), "attr.flag_signal", text, " ", w.attrs.size());
    cur = v;
    sete((ossia::extended_attributes&)pd, v);
    VCHECK(get(pd) == v, "attr.flag_data", text);
    M.seen(vp::mix(vp::hash_str(text), k));
  }
}
static std::string word()
{
  std::string s;
  for (int k = M.r.i(1, 8); k-- > 0;)
    s += char(M.r.i(1, 255));
  return s;
}
VP_SECTION(attributes)
{
#define ATTR(V, name, text, ...)                                                                           \
  attribute<V>(                                                                                            \
      text, net::text_##name(), [](const ossia::extended_attributes& n) { return net::get_##name(n); },   \
      [](net::node_base& n, std::optional<V> v) { net::set_##name(n, v); },                               \
      [](ossia::extended_attributes& n, std::optional<V> v) { net::set_##name(n, v); }, [] { return V(__VA_ARGS__); });
#define FLAG(name, text)                                                                                   \
  flag(                                                                                                    \
      text, net::text_##name(), [](const ossia::extended_attributes& n) { return net::get_##name(n); },   \
      [](net::node_base& n, bool v) { net::set_##name(n, v); },                                           \
      [](ossia::extended_attributes& n, bool v) { net::set_##name(n, v); });
  using bounds = net::instance_bounds;
  using tags = std::vector<std::string>;
  ATTR(bounds, instance_bounds, "instanceBounds", int(M.r.i(0, 2)), int(M.r.i(3, 5)))
  ATTR(std::string, description, "description", word())
  ATTR(float, priority, "priority", M.r.i(-3, 3))
  ATTR(int32_t, refresh_rate, "refreshRate", M.r.i(-3, 3))
  ATTR(double, value_step_size, "valueStepsize", M.r.i(-3, 3) * 0.1)
  ATTR(std::string, app_name, "appName", word())
  ATTR(std::string, app_version, "appVersion", word())
  ATTR(std::string, app_creator, "appCreator", word())
  attribute<tags>(
      "tags", net::text_tags(), [](const ossia::extended_attributes& n) { return net::get_tags(n); },
      [](net::node_base& n, std::optional<tags> v) { net::set_tags(n, v); },
      [](ossia::extended_attributes& n, std::optional<tags> v) { net::set_tags(n, v); },
      [] {
        tags t;
        for (int k = M.r.i(1, 3); k-- > 0;)
          t.push_back(word());
        return t;
      });
  FLAG(recall_safe, "recallSafe")
  FLAG(zombie, "zombie")
  FLAG(hidden, "hidden")
  // C strings
  {
    world w;
    auto& n = *w.dev->create_child("n");
    net::parameter_data pd;
    auto cs = [&](auto set, auto sete, auto get, const char* t) {
      M.at("attr.cstring", t);
      set(n, "x");
      sete((ossia::extended_attributes&)pd, "y");
      VCHECK(get(n) == std::optional<std::string>{"x"} && get(pd) == std::optional<std::string>{"y"}, "attr.cstring", t);
      set(n, nullptr);
      sete((ossia::extended_attributes&)pd, nullptr);
      VCHECK(!get(n) && !get(pd), "attr.cstring_null", t);
    };
#define CSTR(name)                                                                                                                                    \
  cs([](net::node_base& n, const char* s) { net::set_##name(n, s); }, [](ossia::extended_attributes& n, const char* s) { net::set_##name(n, s); }, \
     [](const ossia::extended_attributes& n) { return net::get_##name(n); }, #name);
    CSTR(description) CSTR(app_name) CSTR(app_version) CSTR(app_creator)
  }
  // default values
  {
    world w;
    auto& n = *w.dev->create_child("n");
    net::parameter_data pd;
    std::optional<mv::val> cur;
    for (int k = 0; k < M.n(200, 3000); k++)
    {
      M.at("attr.default", vp::str(k));
      w.attrs.clear();
      if (M.r.b(1, 6))
      {
        net::set_default_value(n, std::nullopt);
        net::set_default_value((ossia::extended_attributes&)pd, std::nullopt);
        VCHECK(!net::get_default_value(n) && !net::get_default_value(pd), "attr.default_unset", "still there");
        VCHECK(w.attrs.size() == (cur ? 1u : 0u), "attr.default_signal", "unset: ", w.attrs.size());
        cur.reset();
        continue;
      }
      mv::val m;
      switch (M.r.i(0, 8))
      {
#define DV(T, e)                                                       \
  {                                                                    \
    T x = e;                                                           \
    net::set_default_value(n, x);                                      \
    net::set_default_value((ossia::extended_attributes&)pd, x);        \
    m = mv::from(ossia::value{x});                                     \
    break;                                                             \
  }
        case 0: DV(int, M.r.i(-5, 5))
        case 1: DV(float, M.r.i(-5, 5) * 0.5f)
        case 2: DV(bool, M.r.b())
        case 3: DV(char, M.r.i(0, 127))
        case 4:
        {
          double x = M.r.i(-5, 5) * 0.25;
          net::set_default_value(n, x);
          net::set_default_value((ossia::extended_attributes&)pd, x);
          m = {float(x)};
          break;
        }
        case 5:
        {
          long x = M.r.i(-5, 5);
          net::set_default_value(n, x);
          net::set_default_value((ossia::extended_attributes&)pd, x);
          m = {int(x)};
          break;
        }
        case 6:
        {
          auto s = word();
          net::set_default_value(n, s.c_str());
          net::set_default_value((ossia::extended_attributes&)pd, s.c_str());
          m = {s};
          break;
        }
        default:
        {
          m = some_value();
          auto v = mv::mk(m);
          if (M.r.b())
          {
            net::set_default_value(n, v);
            net::set_default_value((ossia::extended_attributes&)pd, v);
          }
          else
          {
            net::set_default_value(n, ossia::value{v});
            net::set_default_value((ossia::extended_attributes&)pd, ossia::value{v});
          }
        }
      }
      bool change = !cur || !(mv::mk(*cur) == mv::mk(m));
      VCHECK(w.attrs.size() == (change ? 1u : 0u), "attr.default_signal", mv::S(m), " ", w.attrs.size());
      auto g = net::get_default_value(n), h = net::get_default_value(pd);
      VCHECK(g && h && mv::same(m, *h) && (!change || mv::same(m, *g)), "attr.default", mv::S(m), " reads ", g ? mv::S(*g) : "none");
      if (change)
        cur = m;
      M.seen(vp::hash_str(mv::S(m)));
    }
  }
}

// attribute functions which forward to the parameter
VP_SECTION(node_parameter)
{
  for (int it = 0; it < M.n(300, 5000); it++)
  {
    world w;
    auto& n = *w.dev->create_child("n");
    M.at("attr.forward", vp::str(it));
    // without parameter: neutral
    VCHECK(!net::clone_value(n).valid() && !net::get_value_type(n) && !net::get_domain(n) && !net::get_access_mode(n) && !net::get_bounding_mode(n) && !net::get_unit(n) && !net::get_muted(n) && !net::get_disabled(n) && !net::get_critical(n) && net::get_repetition_filter(n) == ossia::repetition_filter::OFF, "attr.no_parameter", "not neutral");
    net::set_value(n, ossia::value{1});
    net::set_domain(n, ossia::make_domain(0, 1));
    net::set_access_mode(n, ossia::access_mode::GET);
    net::set_bounding_mode(n, ossia::bounding_mode::CLIP);
    net::set_muted(n, true);
    net::set_disabled(n, true);
    net::set_critical(n, true);
    net::set_repetition_filter(n, ossia::repetition_filter::ON);
    net::set_unit(n, ossia::parse_pretty_unit("time.ms"));
    VCHECK(!n.get_parameter() && w.attrs.empty(), "attr.no_parameter", "something was created");
    auto t = M.r.pick(all_types);
    net::set_value_type(n, t);
    auto p = n.get_parameter();
    VCHECK(p && p->get_value_type() == t && net::get_value_type(n) == t, "attr.value_type", int(t));
    if (!p)
      continue;
    t = M.r.pick(all_types);
    net::set_value_type(n, t);
    VCHECK(p == n.get_parameter() && p->get_value_type() == t && net::get_value_type(n) == t, "attr.value_type", int(t));
    auto v = some_value();
    net::set_value(n, mv::mk(v));
    auto e = ossia::convert(mv::mk(v), t);
    VCHECK(mv::same(mv::from(e), p->value()) && mv::same(mv::from(e), net::clone_value(n)), "attr.value", mv::S(v));
    auto am = M.r.pick(std::array{ossia::access_mode::BI, ossia::access_mode::GET, ossia::access_mode::SET});
    net::set_access_mode(n, am);
    VCHECK(net::get_access_mode(n) == am && p->get_access() == am, "attr.access", int(am));
    auto bm = ossia::bounding_mode(M.r.i(0, 5));
    net::set_bounding_mode(n, bm);
    VCHECK(net::get_bounding_mode(n) == p->get_bounding() && (t == T::BOOL || p->get_bounding() == bm), "attr.bounding", int(bm));
    bool a = M.r.b(), b = M.r.b(), c = M.r.b(), d = M.r.b();
    net::set_muted(n, a);
    net::set_disabled(n, b);
    net::set_critical(n, c);
    net::set_repetition_filter(n, d ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF);
    VCHECK(net::get_muted(n) == a && p->get_muted() == a && net::get_disabled(n) == b && p->get_disabled() == b && net::get_critical(n) == c && p->get_critical() == c && (net::get_repetition_filter(n) == ossia::repetition_filter::ON) == d && (p->get_repetition_filter() == ossia::repetition_filter::ON) == d, "attr.flags", a, b, c, d);
    net::set_domain(n, ossia::make_domain(2, 3));
    VCHECK(net::get_domain(n) == p->get_domain(), "attr.domain", "");
    auto u = ossia::parse_pretty_unit("gain.db");
    net::set_unit(n, u);
    VCHECK(net::get_unit(n) == u && p->get_unit() == u && p->get_value_type() == T::FLOAT, "attr.unit", "");
    // and on parameter data
    net::parameter_data pd{"name"};
    VCHECK(pd.name == "name" && !pd.access && !pd.bounding && !pd.domain && !pd.muted && !pd.disabled && !pd.critical && !pd.rep_filter, "data.initial", "");
    net::set_value(pd, mv::mk(v));
    net::set_access_mode(pd, am);
    net::set_bounding_mode(pd, bm);
    net::set_muted(pd, a);
    net::set_disabled(pd, b);
    net::set_critical(pd, c);
    net::set_domain(pd, ossia::make_domain(2, 3));
    VCHECK(mv::same(v, pd.value) && pd.access == am && pd.bounding == bm && pd.muted == a && pd.disabled == b && pd.critical == c && pd.domain == ossia::make_domain(2, 3), "data.set", "");
    // full data, as pushed to the network
    net::full_parameter_data f{"/a/b", mv::mk(v)};
    f.muted = a;
    f.disabled = b;
    f.critical = c;
    f.rep_filter = d ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF;
    f.access = am;
    f.bounding = bm;
    f.type = t;
    f.unit = u;
    f.domain = ossia::make_domain(2, 3);
    VCHECK(f.address == "/a/b" && mv::same(v, f.value()) && f.get_muted() == a && f.get_disabled() == b && f.get_critical() == c && f.get_access() == am && f.get_bounding() == bm && f.get_value_type() == t && f.get_unit() == u && f.get_domain() == ossia::make_domain(2, 3) && (f.get_repetition_filter() == ossia::repetition_filter::ON) == d, "data.full", "muted ", a, " disabled ", b);
    auto w2 = some_value();
    if (M.r.b())
      f.set_value(mv::mk(w2));
    else
    {
      auto x = mv::mk(w2);
      f.set_value((const ossia::value&)x);
    }
    VCHECK(mv::same(w2, f.value()), "data.full_value", mv::S(w2));
    for (auto& q : {v, w2})
      VCHECK(f.filter_value(mv::mk(q)) == (a || b || (d && mv::mk(q) == mv::mk(v))), "data.full_filter", mv::S(q));
    M.seen(vp::hash_str(mv::S(v)));
  }
}

// types given by name, unit or extended type
VP_SECTION(types)
{
  // name -> type, as documented
  static const std::map<std::string, T> simple{
      {"int", T::INT}, {"integer", T::INT}, {"int32", T::INT}, {"long", T::INT}, {"float", T::FLOAT}, {"number", T::FLOAT}, {"decimal", T::FLOAT}, {"float32", T::FLOAT}, {"string", T::STRING}, {"symbol", T::STRING}, {"str", T::STRING}, {"url", T::STRING}, {"bool", T::BOOL}, {"boolean", T::BOOL}, {"char", T::CHAR}, {"byte", T::CHAR}, {"vec2", T::VEC2F}, {"vec3", T::VEC3F}, {"vec4", T::VEC4F}, {"vec2f", T::VEC2F}, {"vec3f", T::VEC3F}, {"vec4f", T::VEC4F}, {"vector2", T::VEC2F}, {"vector3", T::VEC3F}, {"vector4", T::VEC4F}, {"rect", T::VEC4F}, {"size", T::VEC2F}, {"impulse", T::IMPULSE}, {"pulse", T::IMPULSE}, {"bang", T::IMPULSE}, {"list", T::LIST}, {"tuple", T::LIST}, {"array", T::LIST}, {"path", T::STRING}, {"file", T::STRING}, {"folder", T::STRING}, {"blob", T::STRING}, {"bytearray", T::STRING}, {"floats", T::LIST}, {"intlist", T::LIST}, {"stringlist", T::LIST}, {"color.rgb", T::VEC3F}, {"rgb", T::VEC3F}, {"db", T::FLOAT}, {"gain.linear", T::FLOAT}, {"quaternion", T::VEC4F}, {"cart2D", T::VEC2F}};
  for (auto& [name, t] : simple)
    for (int up = 0; up < 2; up++)
    {
      world w;
      auto s = name;
      bool mixed = std::any_of(s.begin(), s.end(), [](char c) { return c >= 'A' && c <= 'Z'; });
      if (up)
        for (auto& c : s)
          c = std::toupper((unsigned char)c);
      if (mixed) // lower-cased before the search
        continue;
      M.at("types.name", s);
      auto& n = *w.dev->create_child("n");
      auto p = ossia::try_setup_parameter(s, n);
      VCHECK(p && p == n.get_parameter() && p->get_value_type() == t, "types.name", s, " gives ", p ? int(p->get_value_type()) : -1, " expected ", int(t));
      auto q = ossia::create_parameter(w.dev->get_root_node(), "x/y", s);
      VCHECK(q && net::osc_parameter_string(*q) == "/x/y" && q->get_value_type() == t, "types.create_parameter", s);
      if (!up)
      {
        auto d = ossia::default_parameter_for_type(s);
        VCHECK(d && ossia::underlying_type(d->type) == t, "types.default", s);
      }
      M.seen(vp::hash_str(s));
    }
  {
    world w;
    auto& n = *w.dev->create_child("n");
    VCHECK(!ossia::try_setup_parameter("nonsense", n) && !n.get_parameter(), "types.unknown", "a parameter appeared");
    VCHECK(!ossia::create_parameter(w.dev->get_root_node(), "zz", "nonsense") && !w.dev->find_child("zz"), "types.unknown", "a node appeared");
    VCHECK(!ossia::default_parameter_for_type("nonsense"), "types.unknown", "default");
    VCHECK(!ossia::setup_parameter({}, n) && !n.get_parameter(), "types.empty", "a parameter appeared");
  }
  for (int it = 0; it < M.n(200, 2000); it++)
  {
    world w;
    auto& n = *w.dev->create_child("n");
    if (M.r.b())
      n.create_parameter(M.r.pick(all_types));
    auto had = n.get_parameter();
    auto t = M.r.pick(all_types);
    M.at("types.setup", vp::str(it));
    auto p = ossia::setup_parameter(ossia::complex_type{t}, n);
    VCHECK(p && p == n.get_parameter() && (!had || p == had) && p->get_value_type() == t && ossia::underlying_type(ossia::complex_type{t}) == t, "types.setup", int(t));
    static const std::vector<std::pair<std::string, T>> units{{"color.rgb", T::VEC3F}, {"position.cart3D", T::VEC3F}, {"gain.db", T::FLOAT}, {"orientation.quaternion", T::VEC4F}, {"position.cart2D", T::VEC2F}, {"time.ms", T::FLOAT}};
    auto& [un, ut] = M.r.pick(units);
    auto u = ossia::parse_pretty_unit(un);
    auto p2 = ossia::setup_parameter(ossia::complex_type{u}, n);
    VCHECK(p2 == p && p->get_value_type() == ut && p->get_unit() == u && ossia::underlying_type(ossia::complex_type{u}) == ut, "types.setup_unit", un);
    static const std::vector<std::pair<ossia::extended_type, T>> ext{{ossia::generic_buffer_type(), T::STRING}, {ossia::filesystem_path_type(), T::STRING}, {ossia::list_type(), T::LIST}, {ossia::float_list_type(), T::LIST}, {ossia::integer_list_type(), T::LIST}, {ossia::string_list_type(), T::LIST}};
    auto& [en, et] = M.r.pick(ext);
    auto p3 = ossia::setup_parameter(ossia::complex_type{en}, n);
    VCHECK(p3 == p && p->get_value_type() == et && net::get_extended_type(n) == std::optional<ossia::extended_type>{en}, "types.setup_extended", en);
    // updating keeps the parameter
    ossia::update_parameter_type(ossia::complex_type{t}, *p);
    VCHECK(p->get_value_type() == t, "types.update", int(t));
    ossia::update_parameter_type(ossia::complex_type{u}, *p);
    VCHECK(p->get_value_type() == ut && p->get_unit() == u, "types.update_unit", un);
    ossia::update_parameter_type(ossia::complex_type{en}, *p);
    VCHECK(p->get_value_type() == et && net::get_extended_type(n) == std::optional<ossia::extended_type>{en}, "types.update_extended", en);
    net::set_extended_type(n, std::nullopt);
    auto x = net::get_extended_type(n);
    VCHECK(x == (et == T::LIST ? std::optional<ossia::extended_type>{ossia::list_type()} : std::nullopt), "types.implied_extended", en, " then ", x ? *x : "none");
    p->set_value_type(T::VEC3F);
    VCHECK(net::get_extended_type(n) == std::optional<ossia::extended_type>{ossia::float_array_type()}, "types.implied_extended", "vec3f");
    // built from data
    net::parameter_data pd{"n"};
    pd.type = t;
    pd.access = M.r.pick(std::array{ossia::access_mode::BI, ossia::access_mode::GET, ossia::access_mode::SET});
    pd.bounding = ossia::bounding_mode(M.r.i(0, 5));
    pd.rep_filter = M.r.b() ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF;
    auto gp = std::make_unique<net::generic_parameter>(pd, n);
    VCHECK(gp->get_value_type() == t && gp->get_access() == *pd.access && gp->get_bounding() == *pd.bounding && gp->get_repetition_filter() == *pd.rep_filter && gp->value().get_type() == t, "types.from_data", int(t));
    M.seen(vp::mix(int(t), vp::hash_str(un + en)));
  }
  // conversion between units through complex types
  for (int it = 0; it < M.n(200, 2000); it++)
  {
    float x = M.r.i(-100, 100);
    M.at("types.convert", vp::str(x));
    auto r = ossia::convert(ossia::value{x}, ossia::complex_type{ossia::parse_pretty_unit("time.second")}, ossia::complex_type{ossia::parse_pretty_unit("time.ms")});
    VCHECK(r.get_type() == T::FLOAT && std::abs(r.get<float>() - 1000.f * x) <= 0.01f * std::abs(x), "types.convert", x, " s gives ", mv::S(r));
    auto s = ossia::convert(ossia::value{x}, ossia::complex_type{T::FLOAT}, ossia::complex_type{ossia::parse_pretty_unit("time.ms")});
    VCHECK(s.get_type() == T::FLOAT && s.get<float>() == x, "types.convert_plain", x);
  }
}

// destinations
VP_SECTION(destinations)
{
  for (int it = 0; it < M.n(300, 4000); it++)
  {
    world w;
    auto& n = *w.dev->create_child("n");
    auto& m = *w.dev->create_child("m");
    auto t = M.r.pick(all_types);
    auto& p = *n.create_parameter(t);
    auto& q = *m.create_parameter(t);
    M.at("destination", vp::str(it));
    p.set_value(mv::mk(some_value()));
    auto u = ossia::parse_pretty_unit("color.rgb");
    ossia::destination_index i1{1}, i2{2};
    ossia::destination a{p}, b{p, i1}, c{p, i1, u}, d{p, u}, e{q};
    VCHECK(&a.address() == &p && a.index.empty() && !a.unit && b.index == i1 && c.index == i1 && c.unit == u && d.index.empty() && d.unit == u, "destination.make", "");
    VCHECK(a == a && a == ossia::destination{p} && !(a != ossia::destination{p}), "destination.equal", "itself");
    VCHECK(a != b && b != (ossia::destination{p, i2}) && a != e && !(a == e), "destination.equal", "another");
    VCHECK(a == p && a != q, "destination.equal_parameter", "");
    ossia::destination cp{c}, mv_{ossia::destination{c}};
    VCHECK(cp == c && mv_ == c && cp.unit == u && mv_.unit == u, "destination.copy", "");
    cp = e;
    mv_ = ossia::destination{b};
    VCHECK(cp == e && mv_ == b, "destination.assign", "");
    // comparisons are those of the current value
    ossia::value v = mv::mk(some_value());
    if (v.get_type() == T::IMPULSE) // values and impulses: not ordered
      v = 1;
    auto pv = p.value();
    VCHECK((a == v) == (pv == v) && (a != v) == (pv != v) && (a < v) == (pv < v) && (a <= v) == (pv <= v) && (a > v) == (pv > v) && (a >= v) == (pv >= v), "destination.compare", mv::S(pv), " and ", mv::S(v));
    w.proto->log.clear();
    auto pulled = a.pull();
    VCHECK(mv::same(mv::from(pv), pulled), "destination.pull", mv::S(pv));
    // pushing a value with a unit
    w.proto->log.clear();
    auto ptype = p.get_value_type();
    auto nv = mv::mk(some_value());
    net::push_value(a, ossia::make_value(nv, {}));
    VCHECK(w.proto->log.size() == 1 && w.proto->log[0].kind == '>' && mv::same(mv::from(lifted(nv, pv)), p.value()), "destination.push", mv::S(nv), " gives ", mv::S(p.value()));
    auto vu = net::get_value(a);
    VCHECK(mv::same(mv::from(p.value()), ossia::to_value(vu)) && vu.which() == ossia::make_value(nv, {}).which(), "destination.get", mv::S(nv));
    M.seen(vp::hash_str(mv::S(nv)));
  }
}

// several threads on one parameter
VP_SECTION(mt_values)
{
  for (int it = 0, N = M.n(12, 120); it < N; it++)
  {
    M.at("param.mt", vp::str(it));
    world w;
    w.dev->on_message.disconnect<&world::msg>(w);
    auto& node = *w.dev->create_child("p");
    auto& p = *node.create_parameter(it % 2 ? T::LIST : T::STRING);
    if (M.r.b())
      p.set_repetition_filter();
    std::atomic<int> calls{}, bad{};
    auto good = [&](const ossia::value& v) {
      // every value written has all its characters equal
      std::string s;
      if (auto x = v.target<std::string>())
        s = *x;
      else if (auto l = v.target<std::vector<ossia::value>>())
        for (auto& e : *l)
        {
          auto c = e.target<std::string>();
          if (!c)
            return false;
          s += *c;
        }
      else
        return false;
      return s.empty() || s.find_first_not_of(s[0]) == s.npos;
    };
    p.add_callback([&](const ossia::value& v) {
      calls++;
      if (!good(v))
        bad++;
    });
    const int T_ = 4, K = 80;
    std::vector<std::thread> th;
    for (int t = 0; t < T_; t++)
    {
      uint64_t seed = M.r.next();
      th.emplace_back([&, t, seed] {
        vp::rng g{seed};
        for (int k = 0; k < K; k++)
        {
          std::string s(g.i(20, 60), char('a' + t));
          ossia::value v = it % 2 ? ossia::value{std::vector<ossia::value>{s, s}} : ossia::value{s};
          if (g.b())
            p.push_value(v);
          else
            p.push_value(ossia::value{v});
          if (!good(p.value()))
            bad++;
          p.filter_value(v);
          if (g.b(1, 4))
            net::filter_value(p, v);
          if (g.b(1, 8))
            p.set_value_quiet(v);
        }
      });
    }
    for (auto& t : th)
      t.join();
    int pushes = 0;
    for (auto& e : w.proto->log)
    {
      if (e.kind == '>')
      {
        pushes++;
        if (!good(mv::mk(e.v)))
          bad++;
      }
    }
    VCHECK(calls == T_ * K && pushes == T_ * K, "param.mt_count", calls.load(), " callbacks, ", pushes, " messages, ", T_ * K, " pushes");
    VCHECK(bad == 0, "param.mt_torn", bad.load(), " values nobody wrote");
    M.seen(vp::mix(it, calls));
  }
}
VP_MAIN
