// Ports, what they carry, the execution state and the audio buffers.
#include "values.hpp"
#include <ossia/audio/audio_device.hpp>
#include <ossia/audio/audio_parameter.hpp>
#include <ossia/audio/audio_protocol.hpp>
#include <ossia/dataflow/control_inlets.hpp>
#include <ossia/dataflow/data_copy.hpp>
#include <ossia/dataflow/exec_state_facade.hpp>
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/for_each_port.hpp>
#include <ossia/dataflow/fx_node.hpp>
#include <ossia/dataflow/graph_edge.hpp>
#include <ossia/dataflow/graph_edge_helpers.hpp>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/nodes/forward_node.hpp>
#include <ossia/dataflow/nodes/input.hpp>
#include <ossia/dataflow/nodes/media.hpp>
#include <ossia/dataflow/nodes/spline/spline2d.hpp>
#include <ossia/dataflow/nodes/spline/spline3d.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/dataflow/safe_nodes/port.hpp>
#include <ossia/editor/state/state.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/protocols/midi/midi_device.hpp>
#include <ossia/protocols/midi/midi_protocol.hpp>
#include <libremidi/libremidi.hpp>
#include <cmath>
#include <map>
#include <set>
using T = ossia::val_type;
namespace net = ossia::net;
using vp::M;
using namespace ossia;
using midi_bytes_t = std::vector<unsigned char>;

static ossia::value some_value(int kind = -1)
{
  if (kind < 0)
    kind = M.r.i(0, 7);
  switch (kind)
  {
    case 0: return M.r.i(-100, 100);
    case 1: return float(M.r.i(-400, 400)) / 4.f;
    case 2: return M.r.b();
    case 3: return ossia::make_vec(float(M.r.i(0, 9)), float(M.r.i(0, 9)));
    case 4: return ossia::make_vec(M.r.i(0, 8) / 8.f, M.r.i(0, 8) / 8.f, M.r.i(0, 8) / 8.f);
    case 5: return ossia::make_vec(float(M.r.i(0, 9)), float(M.r.i(0, 9)), 2.f, 3.f);
    case 6: return vp::str("s", M.r.i(0, 9));
    default:
    {
      std::vector<ossia::value> l;
      for (int k = M.r.i(0, 4); k-- > 0;)
        l.push_back(M.r.i(0, 9));
      return l;
    }
  }
}
static ossia::complex_type some_type()
{
  switch (M.r.i(0, 6))
  {
    case 0: return T::INT;
    case 1: return T::FLOAT;
    case 2: return ossia::unit_t{ossia::rgb_u{}};
    case 3: return ossia::unit_t{ossia::hsv_u{}};
    case 4: return ossia::unit_t{ossia::argb_u{}};
    default: return {};
  }
}
static ossia::destination_index some_index()
{
  ossia::destination_index i;
  if (M.r.b(1, 3))
    i.push_back(M.r.i(0, 3));
  return i;
}
struct timed
{
  ossia::value v;
  int64_t t;
};
static std::string show(const std::vector<timed>& v)
{
  std::string s = "[";
  for (auto& x : v)
    s += vp::str(" ", value_to_pretty_string(x.v), "@", x.t);
  return s + "]";
}
static bool same(const ossia::value& a, const ossia::value& b)
{
  return a.get_type() == b.get_type() && value_to_pretty_string(a) == value_to_pretty_string(b);
}
static std::vector<timed> got(const ossia::value_port& p)
{
  std::vector<timed> r;
  for (auto& x : p.get_data())
    r.push_back({x.value, x.timestamp});
  return r;
}
static bool eq(const std::vector<timed>& a, const std::vector<timed>& b)
{
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].t != b[i].t || !same(a[i].v, b[i].v))
      return false;
  return true;
}
static void put(std::vector<timed>& m, bool replace, ossia::value v, int64_t t)
{
  if (replace)
    for (auto& x : m)
      if (x.t == t)
      {
        x.v = v;
        return;
      }
  m.push_back({v, t});
}

struct spy final : net::protocol_base
{
  std::vector<std::pair<const net::parameter_base*, ossia::value>> log;
  spy() : protocol_base{flags{}} {}
  bool pull(net::parameter_base&) override { return true; }
  bool push(const net::parameter_base& p, const ossia::value& v) override
  {
    log.push_back({&p, v});
    return true;
  }
  bool push_raw(const net::full_parameter_data&) override { return true; }
  bool observe(net::parameter_base&, bool) override { return true; }
  bool update(net::node_base&) override { return false; }
};

// what the values of a port become
VP_SECTION(values)
{
  net::generic_device dev{"d"};
  std::vector<net::parameter_base*> ps;
  for (auto ty : {T::INT, T::FLOAT, T::VEC3F, T::VEC4F, T::STRING, T::LIST})
    ps.push_back(dev.create_child("p")->create_parameter(ty));
  ps.push_back(dev.create_child("c")->create_parameter(T::VEC3F));
  ps.back()->set_unit(ossia::rgb_u{});
  for (int it = 0; it < M.n(3000, 60000); it++)
  {
    ossia::value_port p;
    std::vector<timed> m;
    bool rep = M.r.b();
    p.mix_method = rep ? mix_replace : mix_append;
    p.type = some_type();
    p.index = some_index();
    std::string text = vp::str(rep ? "replace" : "append", " type ", p.type.which(), " index ", p.index.size());
    // the value in the type and at the index of this port
    auto filter = [&](const ossia::value& v, const ossia::complex_type& from) -> ossia::value {
      if (from == p.type || !from)
        return get_value_at_index(v, p.index);
      auto r = ossia::convert(v, from, p.type);
      return r.valid() ? get_value_at_index(r, p.index) : v;
    };
    for (int k = M.r.i(1, 8); k-- > 0;)
    {
      M.at("port.values", text);
      int64_t t = M.r.i(0, 4);
      switch (M.r.i(0, 8))
      {
        case 0:
        {
          auto v = some_value();
          p.write_value(v, t);
          put(m, rep, v, t);
          text += vp::str(" w@", t);
          break;
        }
        case 1:
        {
          auto v = some_value();
          auto c = v;
          p.write_value(std::move(c), t);
          put(m, rep, v, t);
          text += vp::str(" m@", t);
          break;
        }
        case 2:
        {
          ossia::typed_value v{some_value(), M.r.b() ? p.index : some_index(), M.r.b() ? p.type : some_type()};
          v.timestamp = t;
          text += vp::str(" local ", value_to_pretty_string(v.value), " type ", v.type.which());
          M.at("port.values", text);
          p.add_local_value(v);
          put(m, rep, v.index == p.index && v.type == p.type ? v.value : filter(v.value, v.type), t);
          break;
        }
        case 3:
        {
          auto a = M.r.pick(ps);
          auto v = M.r.b() ? a->value() : some_value();
          text += vp::str(" global ", value_to_pretty_string(v));
          M.at("port.values", text);
          p.add_global_value(*a, v);
          put(m, rep, p.index.empty() && ossia::complex_type{a->get_unit()} == p.type ? v : filter(v, a->get_unit()), 0);
          break;
        }
        case 4:
        {
          auto a = M.r.pick(ps);
          value_vector<ossia::value> vs;
          for (int n = M.r.i(0, 3); n-- > 0;)
            vs.push_back(some_value());
          text += vp::str(" globals ", vs.size());
          M.at("port.values", text);
          p.add_global_values(*a, vs);
          for (auto& v : vs)
            put(m, rep, p.index.empty() && ossia::complex_type{a->get_unit()} == p.type ? v : filter(v, a->get_unit()), 0);
          break;
        }
        case 5:
        case 6:
        {
          // without domain nor type they are copied
          ossia::value_port o;
          o.index = some_index();
          bool dom = M.r.b(1, 4);
          if (dom)
            (M.r.b() ? o : p).domain = ossia::make_domain(0.f, 10.f);
          if (!p.type && M.r.b(1, 3))
            o.type = some_type();
          text += " port";
          for (int n = M.r.i(0, 4); n-- > 0;)
          {
            auto v = some_value();
            int64_t t = M.r.i(0, 4);
            o.write_value(v, t);
            text += vp::str(" ", value_to_pretty_string(v), "@", t);
          }
          M.at("port.values", text);
          p.add_port_values(o);
          for (auto& v : o.get_data())
            put(m, rep, v.value, v.timestamp);
          p.domain = {};
          break;
        }
        case 7:
        {
          value_vector<ossia::timed_value> vs;
          m.clear();
          for (int n = M.r.i(0, 6); n-- > 0;)
          {
            vs.emplace_back(some_value(), M.r.i(0, 5));
            m.push_back({vs.back().value, vs.back().timestamp});
          }
          p.set_data(vs);
          text += vp::str(" set ", vs.size());
          break;
        }
        default:
          if (M.r.b(1, 3))
          {
            p.clear();
            m.clear();
            text += " clear";
          }
      }
      VCHECK(eq(got(p), m), "port.values", text, " : ", show(got(p)), " expected ", show(m));
      VCHECK(&std::as_const(p).get_data() == &p.get_data(), "port.data", text);
    }
    auto v = some_value();
    auto ty = some_type();
    M.at("port.filter", text);
    VCHECK(same(p.filter_value(v, some_index(), ty), filter(v, ty)), "port.filter", text, " ", value_to_pretty_string(v));
    M.seen(vp::hash_str(text));
    if (it < 3)
      M.sample(text);
  }
}

// values scaled between the domains of two ports, and converted between their types
static ossia::value scale(const ossia::value& v, float a, float b, float c, float d)
{
  auto f = [&](float x) { return c + (d - c) / (b - a) * (x - a); };
  switch (v.get_type())
  {
    case T::INT: return int(f(float(v.get<int>())));
    case T::FLOAT: return f(v.get<float>());
    case T::VEC2F: { auto x = v.get<vec2f>(); return ossia::make_vec(f(x[0]), f(x[1])); }
    case T::VEC3F: { auto x = v.get<vec3f>(); return ossia::make_vec(f(x[0]), f(x[1]), f(x[2])); }
    case T::VEC4F: { auto x = v.get<vec4f>(); return ossia::make_vec(f(x[0]), f(x[1]), f(x[2]), f(x[3])); }
    case T::LIST:
    {
      auto l = v.get<std::vector<ossia::value>>();
      for (auto& x : l)
        x = scale(x, a, b, c, d);
      return l;
    }
    default: return v;
  }
}
static bool near_(const ossia::value& a, const ossia::value& b)
{
  if (a.get_type() != b.get_type())
    return false;
  auto close = [](double x, double y) { return std::abs(x - y) <= 1e-4 * (1 + std::abs(x) + std::abs(y)); };
  switch (a.get_type())
  {
    case T::INT: return std::abs(double(a.get<int>()) - b.get<int>()) <= 1;
    case T::FLOAT: return close(a.get<float>(), b.get<float>());
    case T::VEC2F:
    case T::VEC3F:
    case T::VEC4F:
    {
      auto x = ossia::convert<std::vector<ossia::value>>(a), y = ossia::convert<std::vector<ossia::value>>(b);
      for (size_t i = 0; i < x.size(); i++)
        if (!close(x[i].get<float>(), y[i].get<float>()))
          return false;
      return x.size() == y.size();
    }
    case T::LIST:
    {
      auto &x = a.get<std::vector<ossia::value>>(), &y = b.get<std::vector<ossia::value>>();
      if (x.size() != y.size())
        return false;
      for (size_t i = 0; i < x.size(); i++)
        if (!near_(x[i], y[i]))
          return false;
      return true;
    }
    default: return same(a, b);
  }
}
VP_SECTION(scaling)
{
  for (int it = 0; it < M.n(4000, 80000); it++)
  {
    float a = M.r.i(-20, 20), b = a + M.r.i(0, 40), c = M.r.i(-50, 50), d = c + M.r.i(-100, 100);
    bool ints = M.r.b(), open = M.r.b(1, 8);
    ossia::domain src = ints ? ossia::make_domain(int(a), int(b)) : ossia::make_domain(a, b);
    ossia::domain dst = M.r.b() ? ossia::make_domain(int(c), int(d)) : ossia::make_domain(c, d);
    if (open)
      dst = ossia::domain_base<float>{};
    int kind = M.r.pick(std::array{0, 1, 3, 4, 5, 7});
    auto v = some_value(kind);
    auto want = open || a == b ? v : scale(v, a, b, c, d);
    auto text = vp::str(value_to_pretty_string(v), " from ", a, "..", b, " to ", open ? "open " : "", c, "..", d);
    M.at("port.scale", text);
    auto r = v;
    process_control_value(r, src, dst);
    VCHECK(near_(r, want), "port.scale", text, " gives ", value_to_pretty_string(r), " expected ", value_to_pretty_string(want));
    // through ports
    ossia::value_port x, y;
    x.domain = src;
    y.domain = dst;
    y.mix_method = M.r.b() ? mix_replace : mix_append;
    y.write_value(-7777, 1);
    int64_t ts = M.r.i(0, 2);
    x.write_value(v, ts);
    bool over = ts == 1 && y.mix_method == mix_replace;
    y.add_port_values(x);
    VCHECK(y.get_data().size() == (over ? 1u : 2u), "port.scale_count", text);
    VCHECK(near_(y.get_data().back().value, want) && y.get_data().back().timestamp == ts, "port.scale_port", text, " gives ", value_to_pretty_string(y.get_data().back().value));
    if (!over)
      VCHECK(same(y.get_data()[0].value, -7777), "port.scale_other", text);
    VCHECK(same(x.get_data()[0].value, v), "port.scale_source", text);
    // and types
    ossia::complex_type t1 = some_type(), t2 = some_type();
    auto u = v;
    M.at("port.convert", text);
    process_control_value(u, t1, t2);
    auto cv = ossia::convert(v, t1, t2);
    VCHECK(same(u, cv), "port.convert", text);
    if (t1 && t2)
    {
      ossia::value_port p1, p2;
      p1.type = t1;
      p2.type = t2;
      bool both = M.r.b();
      if (both)
      {
        p1.domain = src;
        p2.domain = dst;
      }
      p1.write_value(v, 3);
      p2.add_port_values(p1);
      auto w = both && !(open || a == b) && (cv.get_type() == T::INT || cv.get_type() == T::FLOAT || cv.get_type() == T::VEC3F || cv.get_type() == T::VEC4F || cv.get_type() == T::VEC2F || cv.get_type() == T::LIST) ? scale(cv, a, b, c, d) : cv;
      if (both && (open || a == b))
        w = cv;
      VCHECK(p2.get_data().size() == 1 && near_(p2.get_data()[0].value, w), "port.convert_port", text, " types ", t1.which(), " ", t2.which(), " gives ", value_to_pretty_string(p2.get_data()[0].value), " expected ", value_to_pretty_string(w));
      auto z = v;
      process_control_value(z, src, dst, t1, t2);
      VCHECK(near_(z, open || a == b ? cv : scale(cv, a, b, c, d)), "port.convert_scale", text);
    }
    M.seen(vp::hash_str(text));
    if (it < 3)
      M.sample(text);
  }
  // a domain which follows its controls
  for (int it = 0; it < 40; it++)
  {
    ossia::minmax_float_inlet in;
    ossia::minmax_float_outlet out;
    M.at("port.minmax", "");
    VCHECK(in.child_inlets.size() == 2 && in.child_inlets[0] == &in.min_inlet && in.child_inlets[1] == &in.max_inlet, "port.minmax", 0);
    VCHECK(out.child_inlets.size() == 2 && out.child_inlets[0] == &out.min_inlet && out.child_inlets[1] == &out.max_inlet, "port.minmax", 1);
    VCHECK(in->domain == ossia::domain{ossia::domain_base<float>(0.f, 1.f)} && out->domain == in->domain, "port.minmax", 2);
  }
}

// ---- audio
static audio_vector some_audio(int maxc = 4, int maxn = 9)
{
  audio_vector a;
  a.resize(M.r.i(0, maxc));
  for (auto& c : a)
  {
    c.resize(M.r.i(0, maxn));
    for (auto& x : c)
      x = M.r.i(-64, 64) / 16.;
  }
  return a;
}
using plain = std::vector<std::vector<double>>;
static plain to_plain(const audio_vector& a)
{
  plain r;
  for (auto& c : a)
    r.emplace_back(c.begin(), c.end());
  return r;
}
static std::string show(const plain& a)
{
  std::string s;
  for (auto& c : a)
  {
    s += "[";
    for (auto x : c)
      s += vp::str(x, ",");
    s += "]";
  }
  return s;
}
static void grow(plain& sink, const plain& src)
{
  if (sink.size() < src.size())
    sink.resize(src.size());
  for (size_t c = 0; c < src.size(); c++)
    if (sink[c].size() < src[c].size())
      sink[c].resize(src[c].size());
}
VP_SECTION(audio)
{
  for (int it = 0; it < M.n(4000, 80000); it++)
  {
    auto a = some_audio(), b = some_audio();
    if (M.r.b(1, 20))
      a = some_audio(3, 600); // more than what is stored in place
    auto pa = to_plain(a), pb = to_plain(b);
    auto text = vp::str(show(pa), " with ", show(pb));
    M.at("audio.sizes", text);
    {
      auto s = b;
      ensure_vector_sizes(a, s);
      auto want = pb;
      grow(want, pa);
      VCHECK(to_plain(s) == want, "audio.sizes", text, " : ", show(to_plain(s)));
    }
    auto mixed = pb;
    grow(mixed, pa);
    for (size_t c = 0; c < pa.size(); c++)
      for (size_t i = 0; i < pa[c].size(); i++)
        mixed[c][i] += pa[c][i];
    {
      auto s = b;
      mix(a, s);
      VCHECK(to_plain(s) == mixed, "audio.mix", text, " : ", show(to_plain(s)));
      audio_port x{a}, y{b};
      copy_data{}(x, y);
      VCHECK(to_plain(y.samples) == mixed && to_plain(x.samples) == pa, "audio.copy", text);
      // delay lines keep each block
      audio_delay_line d;
      audio_port z{b};
      copy_data{}(x, d);
      copy_data{}(z, d);
      VCHECK(data_size{}(d) == 2, "audio.delay_size", text);
      copy_data_pos{0}(d, z);
      VCHECK(to_plain(z.samples) == mixed, "audio.delay", text);
      copy_data_pos{2}(d, z);
      VCHECK(to_plain(z.samples) == mixed, "audio.delay_end", text);
      copy_data_pos{0}(d, (const audio_port&)z);
      clear_data{}(z);
      bool silent = true;
      for (auto& c : z.samples)
        silent &= c.empty();
      VCHECK(silent, "audio.clear", text);
    }
    // gain and pan
    {
      audio_outlet o;
      double g = M.r.pick(std::array{1., 0., 0.5, 2., -1.}), applied = g;
      o.gain = g;
      if (M.r.b(1, 3))
      {
        for (int k = M.r.i(1, 3); k-- > 0;)
          (*o.gain_inlet).write_value(applied = M.r.i(-8, 8) / 4., k);
        if (M.r.b())
        {
          int last = M.r.i(0, 3);
          (*o.gain_inlet).write_value(last, 0);
          applied = last;
        }
      }
      std::vector<double> pan(o.pan.begin(), o.pan.end());
      VCHECK((pan == std::vector<double>{1., 1.}), "audio.default_pan", text);
      if (a.size() > 1)
        for (size_t k = 0, n = M.r.i(0, 4); k < n; k++)
        {
          if (k >= o.pan.size())
            o.pan.push_back(1.);
          o.pan[k] = M.r.pick(std::array{1., 0., 0.5, 2.});
        }
      pan.assign(o.pan.begin(), o.pan.end());
      pan.resize(std::max(pan.size(), a.size()), 1.);
      o.data.samples = a;
      auto want = pa;
      for (size_t c = 0; c < want.size(); c++)
        for (auto& x : want[c])
          x *= applied * (a.size() == 1 ? 1. : pan[c]);
      M.at("audio.gain", text);
      o.post_process();
      VCHECK(to_plain(o.data.samples) == want, "audio.gain", text, " gain ", applied, " : ", show(to_plain(o.data.samples)));
      VCHECK(o.gain == applied, "audio.gain_inlet", text, " : ", o.gain, " expected ", applied);
      // from another port
      audio_outlet q;
      q.gain = g;
      q.pan = o.pan;
      audio_port in{a};
      q.data.samples = b;
      auto w = pb;
      grow(w, pa);
      for (size_t c = 0; c < pa.size(); c++)
        for (size_t i = 0; i < pa[c].size(); i++)
          w[c][i] = pa[c][i] * g * (a.size() == 1 ? 1. : pan[c]);
      if (a.size() == 1)
        process_audio_out_mono(in, q);
      else if (a.size() > 1)
        process_audio_out_general(in, q);
      else
        w = pb;
      VCHECK(to_plain(q.data.samples) == w, "audio.gain_from", text, " gain ", g, " : ", show(to_plain(q.data.samples)), " expected ", show(w));
      VCHECK(to_plain(in.samples) == pa, "audio.gain_source", text);
      // a node which forwards
      ossia::nodes::interval n;
      n.audio_in.data.samples = a;
      n.audio_out.data.samples = b;
      n.audio_out.has_gain = M.r.b();
      n.audio_out.gain = g;
      n.audio_out.pan = o.pan;
      float tempo = ossia::nodes::interval::no_tempo;
      VCHECK(n.tempo == tempo, "audio.no_tempo", n.tempo);
      if (M.r.b())
      {
        n.root_inputs().push_back(new value_inlet);
        for (int k = M.r.i(0, 3); k-- > 0;)
          n.root_inputs()[1]->target<value_port>()->write_value(tempo = M.r.i(20, 300), k);
      }
      n.run(token_request{}, {});
      VCHECK(to_plain(n.audio_out.data.samples) == (n.audio_out.has_gain ? w : pa), "audio.forward", text, " gain ", g, " : ", show(to_plain(n.audio_out.data.samples)));
      if (!(n.audio_out.has_gain && a.empty()))
        VCHECK(n.tempo == tempo, "audio.tempo", n.tempo);
    }
    M.seen(vp::hash_str(text));
    if (it < 3)
      M.sample(text);
  }
  ossia::nodes::loop l;
  ossia::nodes::scenario s;
  ossia::nodes::interval i;
  M.at("audio.labels", "");
  VCHECK(l.label() == "Loop" && s.label() == "Scenario" && i.label() == "Interval", "audio.labels", l.label());
}

// the buffers given by a sound card
VP_SECTION(soundcard)
{
  for (int it = 0; it < M.n(300, 5000); it++)
  {
    auto pr = std::make_unique<audio_protocol>();
    auto& proto = *pr;
    net::generic_device dev{std::move(pr), "audio"};
    std::vector<mapped_audio_parameter*> mapped;
    std::vector<virtual_audio_parameter*> virt;
    std::string text;
    auto mk = [&](auto p) {
      auto n = dev.create_child("m");
      auto r = p(*n);
      n->set_parameter(std::unique_ptr<net::parameter_base>(r));
      return r;
    };
    for (int k = M.r.i(0, 3); k-- > 0;)
    {
      audio_mapping m;
      for (int c = M.r.i(0, 4); c-- > 0;)
        m.push_back(M.r.i(-1, 5));
      bool out = M.r.b();
      text += vp::str(out ? " out" : " in", "{");
      for (auto c : m)
        text += vp::str(c, " ");
      text += "}";
      mapped.push_back(mk([&](net::node_base& n) { return new mapped_audio_parameter{out, m, n}; }));
    }
    for (int k = M.r.i(0, 2); k-- > 0;)
    {
      int c = M.r.i(0, 3);
      virt.push_back(mk([&](net::node_base& n) { return new virtual_audio_parameter{c, n}; }));
      text += vp::str(" virtual", c);
    }
    for (int tick = 0; tick < 4; tick++)
    {
      int ni = M.r.i(0, 4), no = M.r.i(0, 4), fr = M.r.i(0, 20);
      std::vector<std::vector<float>> in(ni, std::vector<float>(fr)), out(no, std::vector<float>(fr, 99.f));
      for (auto& c : in)
        for (auto& x : c)
          x = M.r.i(-99, 99);
      std::vector<float*> ip, op;
      for (auto& c : in)
        ip.push_back(c.data());
      for (auto& c : out)
        op.push_back(c.data());
      audio_tick_state st;
      st.inputs = ip.data();
      st.outputs = op.data();
      st.n_in = ni;
      st.n_out = no;
      st.frames = fr;
      text += vp::str(" | ", ni, " in ", no, " out ", fr);
      M.at("audio.buffers", text);
      proto.setup_buffers(st);
      auto node = [&](std::string a) { return (audio_parameter*)net::find_node(dev.get_root_node(), a)->get_parameter(); };
      for (auto& c : out)
        VCHECK(c == std::vector<float>(fr), "audio.silence", text);
      auto read = [&](audio_parameter& p) {
        audio_vector r;
        p.clone_value(r);
        return to_plain(r);
      };
      auto chan = [&](int c) { return c >= 0 && c < ni ? std::vector<double>(in[c].begin(), in[c].end()) : std::vector<double>{}; };
      if (ni + no > 0)
      {
        plain all;
        for (int c = 0; c < ni; c++)
        {
          VCHECK(read(*node(vp::str("/in/", c))) == plain{chan(c)}, "audio.input", text, " ", c);
          all.push_back(chan(c));
        }
        VCHECK(read(*node("/in/main")) == all, "audio.inputs", text);
      }
      for (auto p : mapped)
        if (!p->is_output)
        {
          plain want;
          for (auto c : p->mapping)
            want.push_back(chan(c));
          VCHECK(read(*p) == want, "audio.mapped_in", text);
        }
      for (auto p : virt)
        for (auto& c : read(*p))
          VCHECK(c == std::vector<double>(fr), "audio.virtual", text);
      // write in several blocks
      plain want(no, std::vector<double>(fr));
      int done = 0;
      double gain = M.r.pick(std::array{1., 0.5, 0.});
      for (auto p : mapped)
        p->push_value(ossia::value{float(gain)});
      while (done < fr)
      {
        int n = M.r.i(1, fr - done);
        auto blk = some_audio(5, n + 2);
        auto add = [&](int c, int k, double g) {
          if (c >= 0 && c < no && k < int(blk.size()))
            for (int i = 0; i < std::min<int>(blk[k].size(), fr - done); i++)
              want[c][done + i] += float(blk[k][i] * g);
        };
        if (M.r.b())
        {
          node("/out/main")->push_value(audio_port{blk});
          for (int c = 0; c < no; c++)
            add(c, c, 1);
        }
        if (no && M.r.b())
        {
          int c = M.r.i(0, no - 1);
          node(vp::str("/out/", c))->push_value(audio_port{blk});
          add(c, 0, 1);
        }
        for (auto p : mapped)
          if (p->is_output)
          {
            p->push_value(audio_port{blk});
            for (size_t k = 0; k < p->mapping.size(); k++)
              add(p->mapping[k], int(k), gain);
          }
        proto.advance_tick(n);
        done += n;
        if (ni > 0)
        {
          int c = M.r.i(0, ni - 1);
          auto r = chan(c);
          r.erase(r.begin(), r.begin() + done);
          VCHECK(read(*node(vp::str("/in/", c))) == plain{r}, "audio.advance", text, " ", done);
        }
      }
      if (fr == 0 || M.r.b(1, 5))
        proto.advance_tick(0);
      for (int c = 0; c < no; c++)
        VCHECK(std::vector<double>(out[c].begin(), out[c].end()) == want[c], "audio.output", text, " ", c);
      if (!mapped.empty() && M.r.b(1, 4))
      {
        auto p = mapped.back();
        mapped.pop_back();
        p->get_node().get_parent()->remove_child(p->get_node());
        text += " removed";
      }
      if (!mapped.empty())
      {
        auto& p = *mapped[0];
        VCHECK(same(p.value(), float(gain)), "audio.gain_value", text);
        VCHECK(p.get_value_type() == T::FLOAT, "audio.type", text);
        float v = M.r.i(-4, 12) / 4.f;
        int calls = 0;
        auto cb = p.add_callback([&](const ossia::value&) { calls++; });
        p.set_value(v);
        float cl = std::clamp(v, 0.f, 1.f);
        VCHECK(ossia::convert<float>(p.value()) == cl && calls == (cl != float(gain)), "audio.gain_clamp", text, " ", v);
        p.remove_callback(cb);
      }
    }
    M.seen(vp::hash_str(text));
    if (it < 3)
      M.sample(text);
  }
}

// ---- MIDI
VP_SECTION(midi)
{
  for (int ch = 1; ch <= 16; ch++)
    for (int it = 0; it < M.n(20, 300); it++)
    {
      midi_port p;
      std::vector<std::vector<int>> want;
      auto a = uint8_t(M.r.i(0, 127)), b = uint8_t(M.r.i(0, 127));
      int bend = M.r.pick(std::array{0, 1, 127, 128, 8192, 16383, int(M.r.i(0, 16383))});
      auto c = uint8_t(ch);
      auto text = vp::str(ch, " ", int(a), " ", int(b), " ", bend);
      M.at("midi.messages", text);
      auto chk = [&](const libremidi::message& m, int st, int x, int y) {
        std::vector<int> w{st | (ch - 1), x};
        if (y >= 0)
          w.push_back(y);
        VCHECK(std::vector<int>(m.bytes.begin(), m.bytes.end()) == w, "midi.message", text, " status ", st);
        want.push_back(w);
        VCHECK(&m == &p.messages.back(), "midi.last", text);
        VCHECK(m.get_channel() == ch, "midi.channel", text, " : ", m.get_channel());
      };
      chk(p.note_on(c, a, b), 0x90, a, b);
      chk(p.note_off(c, a, b), 0x80, a, b);
      chk(p.control_change(c, a, b), 0xB0, a, b);
      chk(p.program_change(c, a), 0xC0, a, -1);
      chk(p.pitch_bend(c, bend), 0xE0, bend & 127, bend >> 7);
      chk(p.pitch_bend(c, a, b), 0xE0, a, b);
      chk(p.poly_pressure(c, a, b), 0xA0, a, b);
      chk(p.aftertouch(c, a), 0xD0, a, -1);
      auto all = [](const midi_port& q) {
        std::vector<std::vector<int>> r;
        for (auto& m : q.messages)
          r.emplace_back(m.bytes.begin(), m.bytes.end());
        return r;
      };
      VCHECK(all(p) == want, "midi.all", text);
      midi_port q;
      q.note_on(1, 2, 3);
      copy_data{}(p, q);
      auto w = want;
      w.insert(w.begin(), {0x90, 2, 3});
      VCHECK(all(q) == w && all(p) == want, "midi.copy", text);
      midi_delay_line d;
      copy_data{}(q, d);
      copy_data{}(p, d);
      midi_port z;
      VCHECK(data_size{}(d) == 2, "midi.delay_size", text);
      copy_data_pos{1}(d, z);
      VCHECK(all(z) == want, "midi.delay", text);
      copy_data_pos{2}(d, z);
      VCHECK(all(z) == want, "midi.delay_end", text);
      clear_data{}(z);
      VCHECK(z.messages.empty(), "midi.clear", text);
      M.seen(vp::hash_str(text));
    }
  // values in delay lines keep their type and index
  for (int it = 0; it < M.n(400, 5000); it++)
  {
    value_port p, q;
    p.type = some_type();
    p.index = some_index();
    value_delay_line d;
    std::vector<std::vector<timed>> blocks;
    for (int k = M.r.i(0, 4); k-- > 0;)
    {
      p.clear();
      for (int n = M.r.i(0, 5); n-- > 0;)
        p.write_value(some_value(), M.r.i(0, 9));
      blocks.push_back(got(p));
      copy_data{}(p, d);
    }
    auto text = vp::str("delay ", blocks.size());
    M.at("port.delay", text);
    VCHECK(data_size{}(d) == blocks.size(), "port.delay_size", text);
    q.type = p.type;
    q.index = p.index;
    std::vector<timed> want;
    for (int k = 0; k < 3; k++)
    {
      size_t pos = M.r.i(0, 4);
      copy_data_pos{pos}(d, q);
      if (pos < blocks.size())
        want.insert(want.end(), blocks[pos].begin(), blocks[pos].end());
      VCHECK(eq(got(q), want), "port.delay", text, " at ", pos, " ", show(got(q)), " expected ", show(want));
    }
    for (auto& b : d.data)
      for (auto& v : b)
        VCHECK(v.type == p.type && v.index == p.index, "port.delay_type", text);
    VCHECK(data_size{}() == 0, "port.no_size", 0);
    clear_data{}(q);
    clear_data{}();
    VCHECK(q.get_data().empty(), "port.clear", text);
    if (!want.empty())
    {
      value_vector<timed_value> v;
      size_t best = 0;
      for (size_t i = 0; i < want.size(); i++)
      {
        v.emplace_back(want[i].v, want[i].t);
        if (want[i].t >= want[best].t)
          best = i;
      }
      VCHECK(same(ossia::last(v), want[best].v), "port.last", show(want), " : ", value_to_pretty_string(ossia::last(v)));
    }
    M.seen(vp::hash_str(show(want)));
  }
}

// ---- ports and nodes
struct tag
{
  int operator()(const audio_port&) const { return 0; }
  int operator()(const midi_port&) const { return 1; }
  int operator()(const value_port&) const { return 2; }
  int operator()() const { return 3; }
};
struct touch
{
  void operator()(audio_port& p) const { p.samples.resize(3); }
  void operator()(midi_port& p) const { p.note_on(1, 2, 3); }
  void operator()(value_port& p) const { p.write_value(3, 4); }
  void operator()() const {}
};
struct bag : graph_node
{
};
struct loose : nonowning_graph_node
{
};
template <typename P>
static void targets(P& p, int w)
{
  const P& c = p;
  M.at("port.kind", vp::str(w));
  VCHECK(int(p.which()) == w, "port.which", w);
  VCHECK((p.template target<audio_port>() != nullptr) == (w == 0) && (c.template target<audio_port>() != nullptr) == (w == 0), "port.target", w, " audio");
  VCHECK((p.template target<midi_port>() != nullptr) == (w == 1) && (c.template target<midi_port>() != nullptr) == (w == 1), "port.target", w, " midi");
  VCHECK((p.template target<value_port>() != nullptr) == (w == 2) && (c.template target<value_port>() != nullptr) == (w == 2), "port.target", w, " value");
  VCHECK(p.visit(tag{}) == w && c.visit(tag{}) == w, "port.visit", w);
  p.visit(touch{});
  if (w == 0)
    VCHECK(&p.template cast<audio_port>() == p.template target<audio_port>() && &c.template cast<audio_port>() == c.template target<audio_port>() && p.template target<audio_port>()->samples.size() == 3, "port.cast", w);
  if (w == 1)
    VCHECK(&p.template cast<midi_port>() == p.template target<midi_port>() && &c.template cast<midi_port>() == c.template target<midi_port>() && p.template target<midi_port>()->messages.size() == 1, "port.cast", w);
  if (w == 2)
    VCHECK(&p.template cast<value_port>() == p.template target<value_port>() && &c.template cast<value_port>() == c.template target<value_port>() && p.template target<value_port>()->get_data().size() == 1, "port.cast", w);
  M.seen(vp::hash_str(vp::str(w, sizeof(P))));
}
VP_SECTION(ports)
{
  {
    audio_inlet a; midi_inlet m; value_inlet v; texture_inlet t;
    targets<inlet>(a, 0); targets<inlet>(m, 1); targets<inlet>(v, 2); targets<inlet>(t, 3);
    VCHECK(((inlet&)t).target<texture_inlet>() == &t && !((inlet&)a).target<texture_inlet>(), "port.texture", 0);
    VCHECK(&*a == &a.data && a.operator->() == &a.data && &*m == &m.data && &*v == &v.data && v.operator->() == &v.data, "port.deref", 0);
    audio_outlet ao; midi_outlet mo; value_outlet vo; texture_outlet to;
    targets<outlet>(ao, 0); targets<outlet>(mo, 1); targets<outlet>(vo, 2); targets<outlet>(to, 3);
    VCHECK(((outlet&)to).target<texture_outlet>() == &to && !((outlet&)ao).target<texture_outlet>(), "port.texture", 1);
    VCHECK(ao.child_inlets.size() == 2 && ao.child_inlets[0] == &ao.gain_inlet && ao.child_inlets[1] == &ao.pan_inlet && !ao.has_gain && ao.gain == 1., "port.audio_children", 0);
    net::generic_device d{"d"};
    auto p = d.create_child("x")->create_parameter(T::INT);
    value_inlet vi{*p};
    audio_outlet aa{*p};
    VCHECK(vi.address.target<net::parameter_base*>() && *vi.address.target<net::parameter_base*>() == p, "port.address", 0);
    VCHECK(aa.address.target<net::parameter_base*>() && *aa.address.target<net::parameter_base*>() == p && aa.child_inlets.size() == 2, "port.address", 1);
    VCHECK(vi.scope == port::both && (port::local & port::global) == 0, "port.scope", 0);
  }
  for (int it = 0; it < M.n(500, 5000); it++)
  {
    auto a = std::make_shared<bag>(), b = std::make_shared<bag>();
    std::vector<inlet*> all;
    std::vector<outlet*> outs;
    for (int k = M.r.i(0, 4); k-- > 0;)
    {
      inlet* i = M.r.b() ? (inlet*)new value_inlet : M.r.b() ? (inlet*)new midi_inlet : (inlet*)new minmax_float_inlet;
      a->root_inputs().push_back(i);
      all.push_back(i);
      for (auto c : i->child_inlets)
        all.push_back(c);
    }
    for (int k = M.r.i(0, 4); k-- > 0;)
    {
      outlet* o = M.r.b() ? (outlet*)new audio_outlet : M.r.b() ? (outlet*)new midi_outlet : (outlet*)new minmax_float_outlet;
      a->root_outputs().push_back(o);
      outs.push_back(o);
      for (auto c : o->child_inlets)
        all.push_back(c);
    }
    auto text = vp::str(a->root_inputs().size(), " ", outs.size(), " ", all.size());
    M.at("port.foreach", text);
    std::vector<inlet*> seen;
    for_each_inlet(*a, [&](inlet& i) { seen.push_back(&i); });
    VCHECK(seen == all, "port.each_inlet", text, " : ", seen.size());
    std::vector<outlet*> so;
    for_each_outlet(*a, [&](outlet& o) { so.push_back(&o); });
    VCHECK(so == outs, "port.each_outlet", text);
    std::set<void*> sel;
    for (auto i : all)
      if (M.r.b(1, 4))
        sel.insert(i);
    for (auto o : outs)
      if (M.r.b(1, 4))
        sel.insert(o);
    bool anyi = false, alli = true, anyo = false, allo = true;
    for (auto i : all)
      anyi |= sel.count(i) > 0, alli &= sel.count(i) == 0;
    for (auto o : outs)
      anyo |= sel.count(o) > 0, allo &= sel.count(o) == 0;
    VCHECK(any_of_inlet(*a, [&](inlet& i) { return sel.count(&i) > 0; }) == anyi, "port.any_inlet", text);
    VCHECK(all_of_inlet(*a, [&](inlet& i) { return sel.count(&i) == 0; }) == alli, "port.all_inlet", text);
    VCHECK(any_of_outlet(*a, [&](outlet& i) { return sel.count(&i) > 0; }) == anyo, "port.any_outlet", text);
    VCHECK(all_of_outlet(*a, [&](outlet& i) { return sel.count(&i) == 0; }) == allo, "port.all_outlet", text);
    VCHECK(!a->has_port_inputs(), "port.has_inputs", text);
    // a cable goes to one of them, a child maybe
    std::vector<edge_ptr> es;
    auto src = std::make_shared<loose>();
    value_outlet vo;
    src->root_outputs().push_back(&vo);
    int on = 0;
    for (auto i : all)
      if (M.r.b())
        for (int k = M.r.i(1, 4); k-- > 0;)
        {
          es.push_back(make_edge(immediate_glutton_connection{}, (outlet*)&vo, i, src, a));
          es.back()->init();
          on++;
        }
    VCHECK(a->has_port_inputs() == (on > 0), "port.has_inputs", text, " : ", on);
    VCHECK(int(vo.cables().size()) == on, "port.cables", text);
    if (on)
    {
      vo.connect(es[0].get());
      VCHECK(int(vo.cables().size()) == on, "port.connect_once", text);
      auto e = M.r.pick(es);
      e->clear();
      VCHECK(int(vo.cables().size()) == on - 1 && !e->in && !e->out && !e->in_node, "port.edge_clear", text);
      // the ports of the other node are not owned by it
      src->clear();
      VCHECK(vo.cables().empty(), "port.node_clear", text, " : ", vo.cables().size());
      VCHECK(!a->has_port_inputs(), "port.node_clear_other", text);
    }
    M.seen(vp::hash_str(text));
  }
  // descriptions
  {
    using namespace ossia::safe_nodes;
    M.at("port.names", "");
    static constexpr address_in a{"addr"};
    static constexpr audio_in b{"in"};
    static constexpr audio_out c{"a"};
    static constexpr value_in d{"value"};
    static constexpr value_in d2{"v", false};
    static constexpr value_out e{"out"};
    static constexpr value_out e2{std::string_view{"out"}, std::string_view{"vec3f"}};
    static constexpr midi_in f{"midi"};
    static constexpr midi_out g{""};
    static constexpr control_in h{"control in"};
    static constexpr control_out i{"control out"};
    VCHECK(a.name == "addr" && b.name == "in" && c.name == "a" && d.name == "value" && e.name == "out" && f.name == "midi" && g.name.empty() && h.name == "control in" && i.name == "control out" && d2.name == "v", "port.names", 0);
    VCHECK(d.is_event && !d2.is_event && e.type.empty() && e2.type == "vec3f" && e2.name == "out", "port.description", 0);
  }
  // splines compare by their points
  for (int it = 0; it < 300; it++)
  {
    spline_data a, b;
    spline3d_data c, d;
    for (int k = M.r.i(0, 4); k-- > 0;)
    {
      a.points.push_back({double(M.r.i(0, 1)), double(M.r.i(0, 1))});
      c.points.push_back({double(M.r.i(0, 1)), double(M.r.i(0, 1)), double(M.r.i(0, 1))});
    }
    b = a;
    d = c;
    M.at("spline.equal", vp::str(a.points.size()));
    VCHECK(a == b && !(a != b) && c == d && !(c != d), "spline.equal", it);
    if (!a.points.empty())
    {
      int k = M.r.i(0, int(a.points.size()) - 1), w = M.r.i(0, 2);
      (w == 0 ? d.points[k].x : w == 1 ? d.points[k].y : d.points[k].z) += 0.5;
      (w == 0 ? b.points[k].x : b.points[k].y) += 0.5;
      VCHECK(!(a == b) && a != b && !(c == d) && c != d, "spline.different", it);
      b = a;
      d = c;
      b.points.pop_back();
      d.points.pop_back();
      VCHECK(!(a == b) && a != b && !(c == d) && c != d && !(b == a), "spline.shorter", it);
    }
    M.seen(vp::mix(it % 50, a.points.size()));
  }
}

// ---- execution state
static ossia::value at_index(const ossia::value& cur, int i, float x)
{
  auto l = ossia::convert<std::vector<ossia::value>>(cur);
  l[i] = x;
  return ossia::convert(ossia::value{l}, cur.get_type());
}
VP_SECTION(commit)
{
  for (int it = 0; it < M.n(1500, 30000); it++)
  {
    auto s = std::make_unique<spy>();
    auto& proto = *s;
    net::generic_device dev{std::move(s), "dev"};
    std::vector<net::parameter_base*> ps;
    std::vector<int> prio;
    for (auto t : {T::FLOAT, T::FLOAT, T::INT, T::VEC3F})
    {
      ps.push_back(dev.create_child("p")->create_parameter(t));
      prio.push_back(M.r.b() ? M.r.i(-2, 3) : 0);
      if (prio.back())
        net::set_priority(ps.back()->get_node(), prio.back());
    }
    ps[3]->set_unit(ossia::rgb_u{});
    execution_state st;
    exec_state_facade f{&st};
    st.register_device(&dev);
    st.apply_device_changes();
    std::string text;
    struct ent { ossia::value v; int64_t t; int id; };
    for (int tick = 0; tick < 2; tick++)
    {
      st.begin_tick();
      std::vector<std::vector<ent>> m(ps.size());
      int id = 0;
      for (int k = M.r.i(0, 10); k-- > 0;)
      {
        int w = M.r.i(0, 3);
        auto p = ps[w];
        int64_t ts = M.r.i(0, 5);
        ossia::value v = w == 2 ? ossia::value{M.r.i(0, 99)} : w == 3 ? some_value(4) : ossia::value{float(M.r.i(0, 99))};
        M.at("exec.insert", text);
        switch (M.r.i(0, 6))
        {
          case 0:
          {
            ossia::typed_value tv{v};
            tv.timestamp = ts;
            M.r.b() ? f.insert(*p, tv) : st.insert(*p, tv);
            m[w].push_back({v, ts, id++});
            text += vp::str(" t", w, "@", ts);
            break;
          }
          case 1:
          {
            ossia::typed_value tv{ossia::timed_value{v, ts}, {}, {}};
            M.r.b() ? f.insert(*p, std::move(tv)) : st.insert(*p, std::move(tv));
            m[w].push_back({v, ts, id++});
            text += vp::str(" m", w, "@", ts);
            break;
          }
          case 2:
          {
            ossia::state q;
            ossia::state inner;
            inner.add(ossia::message{*p, v});
            if (M.r.b())
              q.add(inner);
            else
              q = inner;
            M.r.b() ? f.insert(q) : st.insert(q);
            m[w].push_back({v, 0, id++});
            text += vp::str(" s", w);
            break;
          }
          default:
          {
            ossia::value_port vp_;
            bool rep = M.r.b(1, 3);
            vp_.mix_method = rep ? mix_replace : mix_append;
            int n = M.r.i(0, 3), base = id;
            text += vp::str(rep ? " r" : " a", w, ":", n);
            for (int j = 0; j < n; j++)
            {
              ossia::value x = w == 2 ? ossia::value{M.r.i(0, 99)} : w == 3 ? some_value(4) : ossia::value{float(M.r.i(0, 99))};
              int64_t t = M.r.i(0, 5);
              vp_.write_value(x, t);
            }
            int used = 0;
            for (auto& x : vp_.get_data())
            {
              bool found = false;
              if (rep)
                for (auto& e : m[w])
                  if (e.t == x.timestamp)
                  {
                    e.v = x.value;
                    found = true;
                    break;
                  }
              if (!found)
                m[w].push_back({x.value, x.timestamp, base + used++});
            }
            id += int(vp_.get_data().size());
            if (M.r.b())
              st.insert(*p, vp_);
            else
              st.insert(*p, std::move(vp_));
          }
        }
        VCHECK(st.in_local_scope(*p) == !m[w].empty(), "exec.local_scope", text);
      }
      proto.log.clear();
      int how = M.r.i(0, 3);
      text += vp::str(" commit", how);
      M.at("exec.commit", text);
      switch (how)
      {
        case 0: st.commit(); break;
        case 1: st.commit_ordered(); break;
        case 2: st.commit_priorized(); break;
        default: st.commit_merged(); break;
      }
      std::map<const net::parameter_base*, std::vector<ossia::value>> sent;
      std::vector<int> order;
      for (auto& [p, v] : proto.log)
      {
        sent[p].push_back(v);
        int w = int(std::find(ps.begin(), ps.end(), p) - ps.begin());
        if (order.empty() || order.back() != w)
          order.push_back(w);
      }
      for (size_t w = 0; w < ps.size(); w++)
      {
        auto want = m[w];
        if (how == 3 && want.size() > 1)
          want = {want.back()};
        auto g = sent[ps[w]];
        // a message sent again right after itself may be sent once
        for (size_t i = 1; i < want.size();)
          if (want[i].v == want[i - 1].v)
            want.erase(want.begin() + i);
          else
            i++;
        for (size_t i = 1; i < g.size();)
          if (g[i] == g[i - 1])
            g.erase(g.begin() + i);
          else
            i++;
        bool ok = g.size() == want.size();
        for (size_t i = 0; ok && i < g.size(); i++)
          ok = near_(g[i], want[i].v);
        VCHECK(ok, "exec.sent", text, " : parameter ", w, " ", g.size(), " of ", want.size());
        if (!want.empty())
          VCHECK(near_(ps[w]->value(), want.back().v), "exec.value", text, " : parameter ", w);
        VCHECK(!st.in_local_scope(*ps[w]), "exec.emptied", text);
      }
      if (how == 1 || how == 2)
      {
        std::vector<std::tuple<int, int64_t, int, int>> want;
        for (int w = 0; w < int(ps.size()); w++)
          if (!m[w].empty())
          {
            int64_t t = 0;
            int i = 0;
            for (auto& e : m[w])
              t = std::max(t, e.t), i = std::max(i, e.id);
            want.push_back({how == 2 ? prio[w] : 0, t, i, w});
          }
        std::sort(want.begin(), want.end());
        bool ties = false;
        for (size_t i = 1; i < want.size(); i++)
          ties |= std::get<0>(want[i]) == std::get<0>(want[i - 1]) && std::get<1>(want[i]) == std::get<1>(want[i - 1]) && std::get<2>(want[i]) == std::get<2>(want[i - 1]);
        std::vector<int> wo;
        for (auto& x : want)
          wo.push_back(std::get<3>(x));
        if (!ties)
          VCHECK(order == wo, "exec.order", text, " : first ", order.empty() ? -1 : order[0], " expected ", wo.empty() ? -1 : wo[0]);
      }
    }
    // with an index or a unit
    {
      ps[3]->set_value(ossia::make_vec(0.25f, 0.5f, 0.75f));
      auto cur = ps[3]->value();
      int n = M.r.i(1, 3);
      ossia::value_port vp_;
      vp_.index = {M.r.i(0, 2)};
      for (int k = 0; k < n; k++)
      {
        float x = M.r.i(0, 8) / 8.f;
        vp_.write_value(x, k);
        cur = at_index(cur, vp_.index[0], x);
      }
      st.begin_tick();
      st.insert(*ps[3], vp_);
      M.at("exec.index", text);
      switch (M.r.i(0, 3))
      {
        case 0: st.commit(); break;
        case 1: st.commit_ordered(); break;
        case 2: st.commit_priorized(); break;
        default: st.commit_merged(); break;
      }
      VCHECK(near_(ps[3]->value(), cur), "exec.index", text, " : ", value_to_pretty_string(ps[3]->value()), " expected ", value_to_pretty_string(cur));
      auto hsv = ossia::make_vec(M.r.i(0, 7) / 8.f, M.r.i(0, 8) / 8.f, M.r.i(0, 8) / 8.f);
      ossia::value_port u;
      u.type = ossia::unit_t{ossia::hsv_u{}};
      u.write_value(hsv, 0);
      st.begin_tick();
      st.insert(*ps[3], u);
      M.at("exec.unit", text);
      st.commit();
      auto want = ossia::convert(ossia::value{hsv}, ossia::unit_t{ossia::hsv_u{}}, ossia::unit_t{ossia::rgb_u{}});
      VCHECK(near_(ps[3]->value(), want), "exec.unit", value_to_pretty_string(hsv), " : ", value_to_pretty_string(ps[3]->value()), " expected ", value_to_pretty_string(want));
    }
    M.seen(vp::hash_str(text));
    if (it < 3)
      M.sample(text);
  }
}

// event ports receive each message once, the others the current value
VP_SECTION(events)
{
  for (int it = 0; it < M.n(800, 15000); it++)
  {
    execution_state st;
    auto dev = std::make_unique<net::generic_device>("dev");
    auto dev2 = std::make_unique<net::generic_device>("other");
    std::vector<net::parameter_base*> ps;
    for (int k = 0; k < 3; k++)
      ps.push_back(dev->create_child(vp::str("p", k))->create_parameter(T::INT));
    ps.push_back(dev2->create_child("q")->create_parameter(T::INT));
    st.register_device(dev.get());
    st.register_device(dev2.get());
    st.register_device(nullptr);
    st.unregister_device(nullptr);
    VCHECK(st.edit_devices().size() == 2 && st.exec_devices().empty(), "exec.devices", it);
    VCHECK(!st.find_node("/p0"), "exec.find_before", it);
    st.begin_tick();
    VCHECK(st.exec_devices().size() == 2, "exec.devices", it);
    VCHECK(st.find_node("/p1") == &ps[1]->get_node() && st.find_node("/q") == &ps[3]->get_node() && !st.find_node("/zz"), "exec.find", it);
    exec_state_facade f{&st};
    VCHECK(f.find_node("/q") == &ps[3]->get_node(), "exec.facade_find", it);
    ps[2]->set_value(M.r.i(0, 99));
    VCHECK(st.get_value_or("/p2", -1) == ps[2]->value().get<int>() && st.get_value_or("/nope", -4) == -4, "exec.value_or", it);
    st.sampleRate = M.r.i(1, 96000);
    st.bufferSize = M.r.i(1, 4096);
    st.modelToSamplesRatio = M.r.i(1, 9) / 4.;
    st.samplesToModelRatio = M.r.i(10, 19) / 4.;
    st.samples_since_start = M.r.i(0, 1 << 30);
    st.start_date = M.r.i(0, 99);
    st.cur_date = M.r.i(100, 199);
    VCHECK(f.sampleRate() == st.sampleRate && f.bufferSize() == st.bufferSize && f.modelToSamples() == st.modelToSamplesRatio && f.samplesToModel() == st.samplesToModelRatio && f.samplesSinceStart() == st.samples_since_start && f.startDate() == st.start_date && f.currentDate() == st.cur_date, "exec.facade", it);
    token_request tk{time_value{M.r.i(0, 50)}, time_value{M.r.i(60, 90)}, time_value{1000}, time_value{M.r.i(0, 9)}, 1., {}, 120.};
    VCHECK(f.physical_start(tk) == tk.physical_start(st.modelToSamplesRatio), "exec.physical_start", it);

    struct pt { std::unique_ptr<value_inlet> in; std::vector<int> which; int reg{}; };
    std::vector<pt> pts;
    std::string text;
    for (int k = M.r.i(1, 4); k-- > 0;)
    {
      pt x;
      x.in = std::make_unique<value_inlet>();
      (*x.in)->is_event = M.r.b(3, 4);
      if (M.r.b(1, 4))
      {
        x.in->address = *ossia::traversal::make_path("dev://p?");
        x.which = {0, 1, 2};
        text += " path";
      }
      else
      {
        x.which = {M.r.i(0, 3)};
        x.in->address = ps[x.which[0]];
        text += vp::str(" p", x.which[0]);
      }
      text += (*x.in)->is_event ? "e" : "";
      pts.push_back(std::move(x));
    }
    std::vector<int> refs(4);
    std::vector<std::vector<int>> pending(4), now(4);
    bool gone = false;
    for (int op = 0; op < 25; op++)
    {
      M.at("exec.events", text);
      int k = M.r.i(0, int(pts.size()) - 1);
      auto& x = pts[k];
      switch (M.r.i(0, 5))
      {
        case 0:
          st.register_port(*x.in);
          x.reg++;
          if ((*x.in)->is_event)
            for (int w : x.which)
              if (w < 3 || !gone)
                refs[w]++;
          text += vp::str(" +", k);
          break;
        case 1:
          if (x.reg > 0)
          {
            st.unregister_port(*x.in);
            x.reg--;
            if ((*x.in)->is_event)
              for (int w : x.which)
                if (w < 3 || !gone)
                  refs[w]--;
            text += vp::str(" -", k);
          }
          break;
        case 2:
        case 3:
        {
          int w = M.r.i(0, 3), v = M.r.i(0, 999);
          ps[w]->set_value(v);
          if (refs[w] > 0)
            pending[w].push_back(v);
          text += vp::str(" p", w, "=", v);
          break;
        }
        case 4:
          if (M.r.b(1, 6) && !gone)
          {
            // a device leaves at the next tick
            st.unregister_device(dev2.get());
            VCHECK(st.edit_devices().size() == 1, "exec.unregister", text);
            text += " leave";
            st.begin_tick();
            now = pending;
            pending.assign(4, {});
            gone = true;
            refs[3] = 0;
            VCHECK(st.exec_devices().size() == 1 && !st.find_node("/q"), "exec.unregister", text);
            break;
          }
          [[fallthrough]];
        default:
          st.begin_tick();
          now = pending;
          pending.assign(4, {});
          text += " tick";
          for (auto& y : pts)
            for (int w : y.which)
            {
              y.in->scope = M.r.b(1, 5) ? port::local : port::both;
              (*y.in)->clear();
              st.find_and_copy(*ps[w], *y.in);
              std::vector<timed> want;
              if (y.in->scope == port::both)
              {
                if ((*y.in)->is_event)
                  for (int v : now[w])
                    want.push_back({v, 0});
                else
                  want.push_back({ps[w]->value(), 0});
              }
              VCHECK(eq(got(**y.in), want), "exec.received", text, " : parameter ", w, " ", show(got(**y.in)), " expected ", show(want));
              (*y.in)->clear();
            }
      }
    }
    M.seen(vp::hash_str(text));
    if (it < 3)
      M.sample(text);
    switch (M.r.i(0, 3))
    {
      case 0: st.reset(); VCHECK(st.exec_devices().empty(), "exec.reset", text); break;
      case 1:
        st.unregister_device(dev.get());
        if (!gone)
          st.unregister_device(dev2.get());
        st.begin_tick();
        dev.reset();
        dev2.reset();
        VCHECK(st.exec_devices().empty() && st.edit_devices().empty(), "exec.leave", text);
        break;
      case 2: dev->clear_children(); st.begin_tick(); st.reset(); break;
      default: st.clear_devices(); VCHECK(st.exec_devices().empty() && st.edit_devices().empty(), "exec.clear_devices", text);
    }
  }
}

// audio written then read in the same tick, and what the sound card gives otherwise
VP_SECTION(audio_scope)
{
  for (int it = 0; it < M.n(500, 8000); it++)
  {
    net::generic_device dev{std::make_unique<audio_protocol>(), "audio"};
    auto n = dev.create_child("v");
    auto p = new virtual_audio_parameter{M.r.i(1, 3), *n};
    n->set_parameter(std::unique_ptr<net::parameter_base>(p));
    int fr = M.r.i(1, 12);
    execution_state st;
    st.register_device(&dev);
    std::string text = vp::str(p->audio.size(), "x", fr);
    for (int tick = 0; tick < 4; tick++)
    {
      p->set_buffer_size(fr);
      for (auto& c : p->audio)
        for (auto& x : c)
          x = M.r.i(-9, 9);
      plain card;
      for (auto& c : p->audio)
        card.emplace_back(c.begin(), c.end());
      st.begin_tick();
      plain sum;
      bool wrote = false;
      for (int k = M.r.i(0, 2); k-- > 0;)
      {
        audio_port a{some_audio(3, 12)};
        auto pa = to_plain(a.samples);
        audio_outlet o;
        o.data = a;
        if (M.r.b())
          st.insert(*p, a);
        else
        {
          o.address = (net::parameter_base*)p;
          o.write(st);
        }
        grow(sum, pa);
        for (size_t c = 0; c < pa.size(); c++)
          for (size_t i = 0; i < pa[c].size(); i++)
            sum[c][i] += pa[c][i];
        for (auto& c : pa)
          wrote |= !c.empty();
      }
      text += vp::str(" | ", show(sum));
      M.at("exec.audio", text);
      audio_inlet in;
      in.address = (net::parameter_base*)p;
      st.find_and_copy(*p, in);
      auto strip = [](plain x) {
        for (auto& c : x)
          while (!c.empty() && c.back() == 0)
            c.pop_back();
        while (!x.empty() && x.back().empty())
          x.pop_back();
        return x;
      };
      VCHECK(st.in_local_scope(*p) == wrote, "exec.audio_scope", text);
      VCHECK(strip(to_plain(in.data.samples)) == strip(wrote ? sum : card), "exec.audio_read", text, " : ", show(to_plain(in.data.samples)), " expected ", show(wrote ? sum : card));
      st.commit();
      for (size_t c = 0; c < card.size(); c++)
        for (int i = 0; i < fr; i++)
        {
          double w = card[c][i] + (c < sum.size() && i < int(sum[c].size()) ? sum[c][i] : 0.);
          VCHECK(p->audio[c][i] == float(w), "exec.audio_commit", text, " : ", c, " ", i);
        }
    }
    M.seen(vp::hash_str(text));
    if (it < 2)
      M.sample(text);
  }
}

// messages of a MIDI input, as long as a port wants them
VP_SECTION(midi_ports)
{
  namespace mi = net::midi;
  auto& bus = libremidi::vp_bus::instance();
  for (int it = 0; it < M.n(400, 8000); it++)
  {
    auto ip = std::make_unique<mi::midi_protocol>(nullptr, mi::midi_info{mi::midi_info::Type::Input, "bus", 0});
    mi::midi_device in{std::move(ip)};
    mi::midi_protocol out{nullptr, mi::midi_info{mi::midi_info::Type::Output, "bus", 0}};
    int ch = M.r.i(1, 16);
    auto cn = in.create_child(std::to_string(ch));
    bool ok = cn != nullptr;
    VCHECK(ok, "midi.channel", ch);
    if (!ok)
      continue;
    execution_state st;
    st.register_device(&in);
    st.apply_device_changes();
    struct pt { std::unique_ptr<midi_inlet> in; int kind; int reg{}; };
    std::vector<pt> pts;
    for (int k = M.r.i(1, 4); k-- > 0;)
    {
      pt x{std::make_unique<midi_inlet>(), M.r.i(0, 2)};
      if (x.kind == 0)
        x.in->address = in.get_parameter();
      else if (x.kind == 1)
        x.in->address = (net::node_base*)&in.get_root_node();
      else
        x.in->address = (net::node_base*)cn;
      pts.push_back(std::move(x));
    }
    int refs = 0;
    bool ever = false;
    std::vector<midi_bytes_t> pending;
    std::string text = vp::str("channel ", ch);
    for (int op = 0; op < 20; op++)
    {
      M.at("midi.ports", text);
      auto& x = pts[M.r.i(0, int(pts.size()) - 1)];
      switch (M.r.i(0, 5))
      {
        case 0:
          st.register_port(*x.in);
          x.reg++, refs++;
          ever = true;
          text += " +";
          break;
        case 1:
          if (x.reg)
          {
            st.unregister_port(*x.in);
            x.reg--, refs--;
            text += " -";
            if (refs == 0)
            {
              // nothing is specified for what was waiting
              goto done;
            }
          }
          break;
        case 2:
        case 3:
        {
          auto m = libremidi::message::note_on(M.r.b() ? ch : M.r.i(1, 16), M.r.i(0, 127), M.r.i(0, 127));
          out.push_value(m);
          if (ever)
            pending.push_back(m.bytes);
          text += vp::str(" m", int(m.bytes[0]));
          break;
        }
        default:
        {
          st.begin_tick();
          text += " tick";
          for (auto& y : pts)
          {
            (*y.in)->messages.clear();
            y.in->scope = M.r.b(1, 6) ? port::local : port::both;
            if (y.kind == 0)
              st.find_and_copy(*in.get_parameter(), *y.in);
            else
              st.copy_from_global_node(**y.in->address.target<net::node_base*>(), *y.in);
            std::vector<midi_bytes_t> want, g;
            for (auto& b : pending)
              if (refs > 0 && y.in->scope == port::both && (y.kind != 2 || (b[0] & 15) + 1 == ch))
                want.push_back(b);
            for (auto& m : (*y.in)->messages)
              g.push_back(midi_bytes_t(m.bytes.begin(), m.bytes.end()));
            VCHECK(g == want, "midi.received", text, " : kind ", y.kind, " ", g.size(), " of ", want.size());
          }
          if (refs > 0)
            pending.clear();
        }
      }
    }
    done:
    // written in this tick
    st.begin_tick();
    {
      midi_port w;
      for (int k = M.r.i(1, 4); k-- > 0;)
        w.messages.push_back(libremidi::message::note_off(M.r.i(1, 16), M.r.i(0, 127), M.r.i(0, 127)));
      VCHECK(!st.in_local_scope(*in.get_parameter()), "midi.scope", text);
      st.insert(*in.get_parameter(), w);
      VCHECK(st.in_local_scope(*in.get_parameter()), "midi.scope", text);
      midi_inlet i;
      i.address = in.get_parameter();
      st.find_and_copy(*in.get_parameter(), i);
      bool same = i.data.messages.size() == w.messages.size();
      for (size_t k = 0; same && k < w.messages.size(); k++)
        same = i.data.messages[k].bytes == w.messages[k].bytes;
      VCHECK(same, "midi.local", text);
      bus.sent.clear();
      M.r.b() ? st.commit() : st.commit_ordered();
      same = bus.sent.size() == w.messages.size();
      for (size_t k = 0; same && k < w.messages.size(); k++)
        same = bus.sent[k].bytes == w.messages[k].bytes;
      VCHECK(same, "midi.committed", text, " : ", bus.sent.size(), " of ", w.messages.size());
      VCHECK(!st.in_local_scope(*in.get_parameter()), "midi.scope", text);
    }
    M.seen(vp::hash_str(text));
    if (it < 2)
      M.sample(text);
    bus.sent.clear();
  }
}
VP_MAIN
