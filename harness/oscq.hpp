#pragma once
// The random OSCQuery tree and the comparison of two trees, shared by c24 and c25.
#include "values.hpp"
#include <ossia/network/base/device.hpp>
#include <ossia/network/base/node.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/oscquery/detail/get_query_parser.hpp>
#include <ossia/network/oscquery/detail/html_writer.hpp>
#include <ossia/network/oscquery/detail/json_parser.hpp>
#include <ossia/network/oscquery/detail/json_writer.hpp>
#include <ossia/network/oscquery/detail/query_parser.hpp>
#include <ossia/network/value/format_value.hpp>
#include <ossia/network/oscquery/detail/json_query_parser.hpp>
#include <ossia/network/oscquery/detail/osc_writer.hpp>
#include <ossia/network/osc/detail/osc.hpp>
#include <oscpack/ip/UdpSocket.h>
#include <oscpack/osc/OscReceivedElements.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <set>
using namespace ossia;
using namespace ossia::net;
namespace oq = ossia::oscquery;
using mv::S;

static const char* rl(const std::string& a, const std::string& b)
{
  static std::set<std::string> k;
  return k.insert(a + "-" + b).first->c_str();
}
static std::string js(const rapidjson::StringBuffer& b) { return std::string(b.GetString(), b.GetSize()); }

// ---------------------------------------------------------------- the model of one node
struct mnode
{
  std::string name;
  bool has_param{};
  val_type type{val_type::NONE};
  mv::val value;
  std::optional<mv::val> def;
  std::string unit;
  access_mode access{access_mode::BI};
  bounding_mode bounding{bounding_mode::FREE};
  repetition_filter filter{repetition_filter::OFF};
  ossia::domain range;
  std::optional<std::vector<std::string>> tags;
  std::optional<std::string> descr, ext, app, appv, appc;
  std::optional<float> prio;
  std::optional<int> rate;
  std::optional<double> step;
  std::optional<std::pair<int, int>> inst;
  bool hidden{}, critical{}, disabled{};
  std::vector<mnode> cld;
};

static std::string text(int maxlen)
{
  static const std::vector<std::string> pool{
      "a", "Z", "0", " ", "\"", "\\", "/", "\n", "\t", "é", "日", "<", "&", "{", "}", "[", ":", ",", "\x01", "😀"};
  std::string s;
  for (int i = vp::M.r.i(0, maxlen); i > 0; i--)
    s += vp::M.r.pick(pool);
  return s;
}
static std::string name(int i)
{
  static const std::vector<std::string> c{"foo", "bar.1", "Level", "x", "trk.12", "a b", "r-_", "0", "main~", "CONTENTS", "VALUE", "T"};
  return vp::M.r.pick(c) + std::to_string(i);
}
static float flt()
{
  switch (vp::M.r.i(0, 5))
  {
    case 0:
      return (float)vp::M.r.i(-20, 20);
    case 1:
      return 0.f;
    case 2:
      return (float)vp::M.r.d(-1e30, 1e30);
    case 3:
      return 1e-30f * (float)vp::M.r.d(-1, 1);
    default:
      return (float)vp::M.r.d(-1000., 1000.);
  }
}
static mv::val gen_value(val_type t, int depth = 0)
{
  auto& r = vp::M.r;
  switch (t)
  {
    case val_type::IMPULSE:
      return {mv::imp{}};
    case val_type::INT:
      return {r.b() ? (int)r.i(-100, 100) : (int)r.next()};
    case val_type::FLOAT:
      return {flt()};
    case val_type::BOOL:
      return {r.b()};
    case val_type::CHAR:
      return {(char)r.i(33, 126)};
    case val_type::STRING:
      return {text(8)};
    case val_type::VEC2F:
      return {mv::v2{flt(), flt()}};
    case val_type::VEC3F:
      return {mv::v3{flt(), flt(), flt()}};
    case val_type::VEC4F:
      return {mv::v4{flt(), flt(), flt(), flt()}};
    default:
    {
      static const std::vector<val_type> el{val_type::INT,    val_type::FLOAT, val_type::BOOL,  val_type::CHAR, val_type::STRING,
                                            val_type::IMPULSE, val_type::VEC2F, val_type::VEC3F, val_type::VEC4F};
      mv::list l;
      // A type tag cannot tell a list from the scalar or the float vector with the same tags: the first element
      // of a list here is an integer, and there are at least two.
      int n = r.i(2, 6);
      if (depth == 0 && r.i(0, 5) == 0)
        n = 0;
      for (int i = 0; i < n; i++)
      {
        if (i == 0)
          l.push_back({(int)r.i(-9, 9)});
        else if (depth < 2 && r.i(0, 4) == 0)
        {
          auto sub = gen_value(val_type::LIST, depth + 1);
          l.push_back(sub);
        }
        else
          l.push_back(gen_value(r.pick(el), depth + 1));
      }
      return {l};
    }
  }
}
static std::vector<std::string> unit_names()
{
  return {"angle.degree",    "angle.radian",      "color.argb",    "color.rgba8",     "color.rgba",           "color.rgb",
          "color.bgr",       "color.argb8",       "color.hsv",     "color.cmy8",      "color.cie_xyz",        "distance.m",
          "distance.km",     "distance.dm",       "distance.cm",   "distance.mm",     "distance.um",          "distance.nm",
          "distance.pm",     "distance.inches",   "distance.feet", "distance.miles",  "gain.linear",          "gain.midigain",
          "gain.db",         "gain.db-raw",       "orientation.quaternion", "orientation.euler", "orientation.axis", "position.cart3D",
          "position.cart2D", "position.spherical", "position.polar", "position.openGL", "position.cylindrical", "speed.m/s",
          "speed.mph",       "speed.km/h",        "speed.kn",      "speed.ft/h",      "speed.ft/s",           "time.second",
          "time.bark",       "time.bpm",          "time.cents",    "time.Hz",         "time.mel",             "time.midinote",
          "time.ms",       "time.speed"};
}
static ossia::domain gen_domain(const mnode& n)
{
  auto& r = vp::M.r;
  auto scalar = [&](auto conv) -> ossia::domain {
    using T = decltype(conv());
    ossia::domain_base<T> d;
    if (r.i(0, 2) == 0)
      for (int i = r.i(1, 4); i > 0; i--)
        d.values.insert(d.values.end(), conv());
    else
    {
      auto a = conv(), b = conv();
      int k = r.i(0, 3);
      if (k != 1)
        d.min = std::min(a, b);
      if (k != 2)
        d.max = std::max(a, b);
    }
    return d;
  };
  auto vec = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) -> ossia::domain {
    ossia::vecf_domain<N> d;
    for (size_t i = 0; i < N; i++)
    {
      if (r.i(0, 3) == 0)
        for (int k = r.i(1, 3); k > 0; k--)
          d.values[i].insert(flt());
      else
      {
        if (r.b())
          d.min[i] = flt();
        if (r.b())
          d.max[i] = flt();
      }
    }
    return d;
  };
  switch (n.type)
  {
    case val_type::INT:
      return scalar([&] { return (int)r.i(-100, 100); });
    case val_type::FLOAT:
      return scalar([&] { return flt(); });
    case val_type::BOOL:
      return ossia::domain_base<bool>{};
    case val_type::STRING:
    {
      ossia::domain_base<std::string> d;
      for (int k = r.i(1, 4); k > 0; k--)
        d.values.push_back(text(5));
      return d;
    }
    case val_type::VEC2F:
      return vec(std::integral_constant<std::size_t, 2>{});
    case val_type::VEC3F:
      return vec(std::integral_constant<std::size_t, 3>{});
    case val_type::VEC4F:
      return vec(std::integral_constant<std::size_t, 4>{});
    case val_type::LIST:
    {
      ossia::vector_domain d;
      int sz = r.i(1, 5);
      d.min.resize(sz);
      d.max.resize(sz);
      d.values.resize(sz);
      auto v = [&]() -> ossia::value { return r.b() ? ossia::value{(int)r.i(-9, 9)} : ossia::value{flt() + 0.5f}; };
      for (int i = 0; i < sz; i++)
      {
        if (r.i(0, 3) == 0)
          for (int k = r.i(1, 3); k > 0; k--)
            d.values[i].insert(v());
        else
        {
          if (r.b())
            d.min[i] = v();
          if (r.b())
            d.max[i] = v();
        }
      }
      if (r.b())
      {
        d.min.resize(r.i(1, sz));
        d.max.resize(r.i(1, sz));
        d.values.resize(r.i(1, sz));
      }
      return d;
    }
    default:
      return {};
  }
}
static mnode gen_node(int depth, int& id, bool root)
{
  auto& r = vp::M.r;
  mnode n;
  if (!root)
    n.name = name(id++);
  n.has_param = !root && r.i(0, 4) != 0;
  if (n.has_param)
  {
    static const std::vector<val_type> ts{val_type::IMPULSE, val_type::INT,   val_type::FLOAT, val_type::BOOL,  val_type::CHAR,
                                          val_type::STRING,  val_type::VEC2F, val_type::VEC3F, val_type::VEC4F, val_type::LIST};
    n.type = r.pick(ts);
    if (r.i(0, 3) == 0)
    {
      static const auto un = unit_names();
      n.unit = r.pick(un);
      n.type = ossia::matching_type(ossia::parse_pretty_unit(n.unit));
    }
    n.value = gen_value(n.type);
    if (n.unit == "color.rgba8")
      n.value = {mv::v4{(float)r.i(0, 255), (float)r.i(0, 255), (float)r.i(0, 255), (float)r.i(0, 255)}};
    n.access = r.pick(std::vector<access_mode>{access_mode::BI, access_mode::GET, access_mode::SET});
    n.bounding = r.pick(std::vector<bounding_mode>{bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::LOW, bounding_mode::HIGH, bounding_mode::WRAP,
                                                   bounding_mode::FOLD});
    if (r.i(0, 2) == 0)
      n.range = gen_domain(n);
    if (r.i(0, 2) == 0)
      n.def = n.type == val_type::LIST ? n.value : gen_value(n.type);
    if (n.unit == "color.rgba8" && n.def)
      n.def = mv::val{mv::v4{(float)r.i(0, 255), (float)r.i(0, 255), (float)r.i(0, 255), (float)r.i(0, 255)}};
    if (n.unit.empty() && r.i(0, 3) == 0)
    {
      if (n.type == val_type::STRING)
        n.ext = r.pick(std::vector<std::string>{ossia::generic_buffer_type(), ossia::filesystem_path_type(), ossia::url_type()});
      else if (n.type == val_type::LIST)
        n.ext = ossia::list_type();
    }
    n.filter = r.b() ? repetition_filter::ON : repetition_filter::OFF;
  }
  if (r.i(0, 3) == 0)
  {
    n.tags.emplace();
    for (int i = r.i(1, 3); i > 0; i--)
      n.tags->push_back(text(6));
  }
  if (r.i(0, 3) == 0)
    n.descr = "d" + text(10);
  if (r.i(0, 3) == 0)
    n.prio = flt();
  if (r.i(0, 3) == 0)
    n.rate = r.i(1, 1000);
  if (r.i(0, 3) == 0)
    n.step = r.d(-10, 10);
  if (r.i(0, 3) == 0)
    n.inst = std::pair{r.i(0, 3), r.i(4, 100)};
  if (r.i(0, 5) == 0)
    n.app = "a" + text(4);
  if (r.i(0, 5) == 0)
    n.appv = "v" + text(4);
  if (r.i(0, 5) == 0)
    n.appc = "c" + text(4);
  n.hidden = r.i(0, 3) == 0;
  n.critical = r.i(0, 3) == 0;
  n.disabled = r.i(0, 3) == 0;
  if (depth > 0)
    for (int i = r.i(root ? 1 : 0, root ? 5 : 3); i > 0; i--)
      n.cld.push_back(gen_node(depth - 1, id, false));
  return n;
}
static void apply(const mnode& n, node_base& o)
{
  if (n.has_param)
  {
    auto p = o.create_parameter(n.type);
    if (!n.unit.empty())
      p->set_unit(ossia::parse_pretty_unit(n.unit));
    p->set_access(n.access);
    p->set_repetition_filter(n.filter);
    p->set_value(mv::mk(n.value));
    p->set_bounding(n.bounding);
    if (n.range)
      p->set_domain(n.range);
    if (n.def)
      set_default_value(o, mv::mk(*n.def));
    if (n.ext)
      set_extended_type(o, *n.ext);
  }
  set_tags(o, n.tags);
  set_description(o, n.descr);
  set_priority(o, n.prio);
  set_refresh_rate(o, n.rate);
  set_value_step_size(o, n.step);
  if (n.inst)
    set_instance_bounds(o, instance_bounds{n.inst->first, n.inst->second});
  set_app_name(o, n.app);
  set_app_version(o, n.appv);
  set_app_creator(o, n.appc);
  set_hidden(o, n.hidden);
  set_critical(o, n.critical);
  set_disabled(o, n.disabled);
  for (auto& c : n.cld)
  {
    auto k = o.create_child(c.name);
    VCHECK(k && k->get_name() == c.name, "create", c.name);
    apply(c, *k);
  }
}
// attributes of a node read through the public interface
static std::map<std::string, std::string> attrs(const node_base& o)
{
  std::map<std::string, std::string> m;
  auto os = [](auto& v) { return v ? "some:" + vp::str(*v) : std::string("none"); };
  if (auto p = o.get_parameter())
  {
    m["type"] = std::to_string((int)p->get_value_type());
    m["value"] = S(p->value());
    m["access"] = std::to_string((int)p->get_access());
    m["clip"] = std::to_string((int)p->get_bounding());
    m["filter"] = std::to_string((int)p->get_repetition_filter());
    m["unit"] = std::string(ossia::get_pretty_unit_text(p->get_unit()));
    // (impulses have nothing to bound: with and without a range is the same)
    auto dom = p->get_domain();
    if (auto vd = dom.v.target<ossia::vector_domain>()) // what is not set is the same as what is not there
    {
      auto n = std::max({vd->min.size(), vd->max.size(), vd->values.size()});
      while (n > 0 && !(vd->min.size() >= n && vd->min[n - 1].valid()) && !(vd->max.size() >= n && vd->max[n - 1].valid())
             && !(vd->values.size() >= n && !vd->values[n - 1].empty()))
        n--;
      vd->min.resize(n);
      vd->max.resize(n);
      vd->values.resize(n);
    }
    m["range"] = p->get_value_type() == val_type::IMPULSE ? "" : dom.to_pretty_string();
  }
  if (auto t = get_tags(o))
  {
    std::string s;
    for (auto& e : *t)
      s += "<" + e + ">";
    m["tags"] = s;
  }
  auto d = get_description(o);
  m["descr"] = os(d);
  auto pr = get_priority(o);
  m["prio"] = os(pr);
  auto rr = get_refresh_rate(o);
  m["rate"] = os(rr);
  auto st = get_value_step_size(o);
  if (st) // JSON numbers are read within one unit in the last place
  {
    char buf[64];
    snprintf(buf, sizeof buf, "%.9g", *st);
    m["step"] = buf;
  }
  if (auto ib = get_instance_bounds(o))
    m["inst"] = vp::str(ib->min_instances, "-", ib->max_instances);
  auto et = get_extended_type(o);
  m["ext"] = os(et);
  auto an = get_app_name(o);
  auto av = get_app_version(o);
  auto ac = get_app_creator(o);
  m["app"] = os(an) + os(av) + os(ac);
  m["flags"] = vp::str((bool)get_hidden(o), (bool)get_critical(o), (bool)get_disabled(o));
  if (auto dv = get_default_value(o))
    m["default"] = S(*dv);
  return m;
}
// false as soon as something differs
static bool compare(const node_base& a, const node_base& b, const char* rule, const std::string& what, bool zombies_ok = false)
{
  bool ok = true;
  auto ma = attrs(a), mb = attrs(b);
  for (auto& [k, v] : ma)
  {
    auto it = mb.find(k);
    ok &= VCHECK(it != mb.end() && it->second == v, rl(rule, k), what, a.osc_address(), "published", v, "rebuilt", it == mb.end() ? "(absent)" : it->second,
           "type", ma.count("type") ? ma["type"] : "-", "unit", ma.count("unit") ? ma["unit"] : "-");
  }
  for (auto& [k, v] : mb)
    ok &= VCHECK(ma.count(k), rl(rule, k), what, a.osc_address(), "published (absent) rebuilt", v);
  auto ca = a.children_names(), cb = b.children_names();
  std::sort(ca.begin(), ca.end());
  std::sort(cb.begin(), cb.end());
  ok &= VCHECK(ca == cb, rl(rule, "children"), what, a.osc_address(), ca.size(), cb.size());
  if (ca == cb)
    for (auto& c : ca)
      ok &= compare(*const_cast<node_base&>(a).find_child(c), *const_cast<node_base&>(b).find_child(c), rule, what);
  return ok;
}
static uint64_t shape(const mnode& n)
{
  uint64_t h = vp::mix(n.has_param * 16 + (int)n.type, vp::hash_str(n.unit));
  h = vp::mix(h, (uint64_t)n.access * 64 + (uint64_t)n.bounding);
  for (auto& c : n.cld)
    h = vp::mix(h, shape(c));
  return h;
}
static void all_nodes(node_base& n, std::vector<node_base*>& v)
{
  for (auto& c : n.children_copy())
  {
    v.push_back(c);
    all_nodes(*c, v);
  }
}
// the extended type is only what the type says
static bool implied_ext(const node_base& n)
{
  auto e = get_extended_type(n);
  if (!e)
    return true;
  auto t = n.get_parameter()->get_value_type();
  return *e == ossia::float_array_type() && (t == val_type::VEC2F || t == val_type::VEC3F || t == val_type::VEC4F);
}
static bool pullable(const ossia::value& v)
{
  // values whose JSON text needs no type tag
  if (auto l = v.target<std::vector<ossia::value>>())
  {
    for (auto& e : *l)
    {
      auto t = e.get_type();
      if (t != val_type::INT && t != val_type::FLOAT && t != val_type::STRING)
        return false;
    }
  }
  return true;
}
[[maybe_unused]] static mv::val flat(const mv::val& v, bool top = true)
{
  // a float vector inside of a list arrives as a list of floats
  auto lst = [](auto& a) {
    mv::list l;
    for (auto f : a)
      l.push_back({f});
    return mv::val{l};
  };
  if (auto l = std::get_if<mv::list>(&v.v))
  {
    mv::list r;
    for (auto& e : *l)
      r.push_back(flat(e, false));
    return {r};
  }
  if (!top)
  {
    if (auto a = std::get_if<mv::v2>(&v.v))
      return lst(*a);
    if (auto a = std::get_if<mv::v3>(&v.v))
      return lst(*a);
    if (auto a = std::get_if<mv::v4>(&v.v))
      return lst(*a);
  }
  return v;
}
