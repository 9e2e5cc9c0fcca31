// States and messages: what launching them does, and that flattening and
// merging them does the same.
#include "values.hpp"
#include <ossia/detail/logger.hpp>
#include <ossia/dataflow/value_port.hpp>
#include <ossia/editor/state/control_message.hpp>
#include <ossia/editor/state/flat_state.hpp>
#include <ossia/editor/state/flat_vec_state.hpp>
#include <ossia/editor/state/message.hpp>
#include <ossia/editor/state/state.hpp>
#include <ossia/editor/state/state_element.hpp>
#include <ossia/editor/state/detail/state_execution_visitor.hpp>
#include <ossia/editor/state/detail/state_flatten_visitor.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/value/value_algorithms.hpp>
#include <sstream>
using T = ossia::val_type;
namespace net = ossia::net;
using vp::M;
using vlist = std::vector<ossia::value>;

struct spy final : net::protocol_base
{
  std::vector<std::pair<const net::parameter_base*, ossia::value>> log;
  bool pull(net::parameter_base&) override { return true; }
  bool push(const net::parameter_base& p, const ossia::value& v) override
  {
    log.push_back({&p, v});
    return true;
  }
  bool push_raw(const net::full_parameter_data&) override { return true; }
  bool observe(net::parameter_base&, bool) override { return true; }
  bool update(net::node_base&) override { return false; }
};

enum { LIST0, V2, V3, V4, FL, IN, STR, COLOR, CART, GAIN, NPARAM };
struct world
{
  spy* proto{};
  std::unique_ptr<net::generic_device> dev;
  std::vector<net::parameter_base*> ps;
  world()
  {
    auto s = std::make_unique<spy>();
    proto = s.get();
    dev = std::make_unique<net::generic_device>(std::move(s), "dev");
    for (auto t : {T::LIST, T::VEC2F, T::VEC3F, T::VEC4F, T::FLOAT, T::INT, T::STRING, T::VEC3F, T::VEC3F, T::FLOAT})
      ps.push_back(dev->create_child("p")->create_parameter(t));
    ps[COLOR]->set_unit(ossia::parse_pretty_unit("color.rgb"));
    ps[CART]->set_unit(ossia::parse_pretty_unit("position.cart3D"));
    ps[GAIN]->set_unit(ossia::parse_pretty_unit("gain.linear"));
    start();
  }
  void start()
  {
    ps[LIST0]->set_value(vlist{1, vlist{2, 3.f}, std::string("x"), 5});
    ps[V2]->set_value(ossia::make_vec(0.5f, 1.5f));
    ps[V3]->set_value(ossia::make_vec(1.f, 2.f, 3.f));
    ps[V4]->set_value(ossia::make_vec(1.f, 2.f, 3.f, 4.f));
    ps[FL]->set_value(0.25f);
    ps[IN]->set_value(7);
    ps[STR]->set_value(std::string("start"));
    ps[COLOR]->set_value(ossia::make_vec(0.2f, 0.5f, 0.7f));
    ps[CART]->set_value(ossia::make_vec(1.f, 2.f, 3.f));
    ps[GAIN]->set_value(0.5f);
    proto->log.clear();
  }
};
static ossia::unit_t U(const char* u) { return ossia::parse_pretty_unit(u); }
static float num() { return float(M.r.i(-1, 2)) / 2.f; }
static ossia::value scalar()
{
  switch (M.r.i(0, 3))
  {
    case 0: return M.r.i(-5, 5);
    case 1: return num();
    case 2: return M.r.pick(std::vector<std::string>{"a", "b", ""});
    default: return M.r.b();
  }
}
static ossia::value vec(int n)
{
  if (n == 2)
    return ossia::make_vec(num(), num());
  if (n == 3)
    return ossia::make_vec(num(), num(), num());
  return ossia::make_vec(num(), num(), num(), num());
}
static int arity(int p) { return p == V2 ? 2 : p == V4 ? 4 : p == V3 || p == COLOR || p == CART ? 3 : 0; }
static bool near(const ossia::value& a, const ossia::value& b, float eps = 2e-3f)
{
  if (a.get_type() != b.get_type())
    return false;
  auto n = [&](float x, float y) { return std::abs(x - y) <= eps * (1 + std::abs(x) + std::abs(y)) || (std::isnan(x) && std::isnan(y)); };
  switch (a.get_type())
  {
    case T::FLOAT: return n(a.get<float>(), b.get<float>());
    case T::VEC2F:
      for (int i = 0; i < 2; i++)
        if (!n(a.get<ossia::vec2f>()[i], b.get<ossia::vec2f>()[i]))
          return false;
      return true;
    case T::VEC3F:
      for (int i = 0; i < 3; i++)
        if (!n(a.get<ossia::vec3f>()[i], b.get<ossia::vec3f>()[i]))
          return false;
      return true;
    case T::VEC4F:
      for (int i = 0; i < 4; i++)
        if (!n(a.get<ossia::vec4f>()[i], b.get<ossia::vec4f>()[i]))
          return false;
      return true;
    default: return mv::same(mv::from(a), b);
  }
}
static ossia::value comp(const ossia::value& v, int i)
{
  switch (v.get_type())
  {
    case T::VEC2F: return v.get<ossia::vec2f>()[i];
    case T::VEC3F: return v.get<ossia::vec3f>()[i];
    case T::VEC4F: return v.get<ossia::vec4f>()[i];
    case T::LIST: return i < int(v.get<vlist>().size()) ? v.get<vlist>()[i] : ossia::value{};
    default: return {};
  }
}
static ossia::value with_comp(ossia::value v, int i, float f)
{
  switch (v.get_type())
  {
    case T::VEC2F: v.get<ossia::vec2f>()[i] = f; break;
    case T::VEC3F: v.get<ossia::vec3f>()[i] = f; break;
    case T::VEC4F: v.get<ossia::vec4f>()[i] = f; break;
    default: break;
  }
  return v;
}
// v at a path of a list, which grows as needed; what was not a list becomes the
// first element of one
static void put(vlist& l, const ossia::value& v, const ossia::destination_index& idx, size_t d = 0)
{
  size_t i = idx[d];
  if (l.size() <= i)
    l.resize(i + 1);
  if (d + 1 == idx.size())
  {
    auto& c = l[i];
    if (c.get_type() == T::LIST && v.get_type() != T::LIST)
    {
      // a single value is the first of a list
      auto& cl = c.get<vlist>();
      if (cl.empty())
        cl.push_back(v);
      else
        put(cl, v, ossia::destination_index{0});
    }
    else
      c = v;
    return;
  }
  if (l[i].get_type() != T::LIST)
    l[i] = vlist{l[i]};
  put(l[i].get<vlist>(), v, idx, d + 1);
}

struct msg
{
  int p{};
  ossia::destination_index idx;
  ossia::unit_t unit;
  ossia::value v;
  // 1: a list with holes; 2: a vector with the components in use
  int piecewise{};
  unsigned used{};
  template <int N>
  ossia::state_element vec_element(world& w) const
  {
    ossia::piecewise_vec_message<N> m{*w.ps[p], v.get<std::array<float, N>>(), unit, {}};
    for (int i = 0; i < N; i++)
      if (used & (1 << i))
        m.used_values.set(i);
    return m;
  }
  ossia::state_element element(world& w) const
  {
    if (piecewise == 1)
      return ossia::piecewise_message{*w.ps[p], v.get<vlist>(), unit};
    if (piecewise == 2)
      return v.get_type() == T::VEC2F ? vec_element<2>(w) : v.get_type() == T::VEC3F ? vec_element<3>(w) : vec_element<4>(w);
    return make(w);
  }
  ossia::message make(world& w) const
  {
    if (M.r.b())
      return ossia::message{ossia::destination{*w.ps[p], idx, unit}, v};
    return ossia::message{ossia::destination{*w.ps[p], idx}, v, unit};
  }
};
static std::string show(const msg& m)
{
  std::string s = "p" + vp::str(m.p);
  for (auto i : m.idx)
    s += "." + vp::str(i);
  if (m.unit)
    s += "@" + std::string(ossia::get_pretty_unit_text(m.unit));
  if (m.piecewise)
    s += "%" + vp::str(m.used);
  return s + "=" + mv::S(m.v);
}

// what one message does to the value of its parameter
static ossia::value effect(world& w, const msg& m)
{
  auto& p = *w.ps[m.p];
  auto cur = p.value();
  auto t = p.get_value_type();
  if (m.piecewise == 1)
  {
    auto c = cur.get<vlist>();
    auto& l = m.v.get<vlist>();
    if (c.size() < l.size())
      c.resize(l.size());
    for (size_t i = 0; i < l.size(); i++)
      if (l[i].valid())
        c[i] = l[i];
    return c;
  }
  if (m.piecewise == 2)
  {
    auto c = m.unit ? ossia::convert(cur, p.get_unit(), m.unit) : cur;
    for (int i = 0; i < arity(m.p); i++)
      if (m.used & (1 << i))
        c = with_comp(c, i, comp(m.v, i).get<float>());
    return m.unit ? ossia::convert(ossia::convert(c, m.unit, p.get_unit()), t) : c;
  }
  if (m.unit && p.get_unit() && m.unit != p.get_unit())
  {
    if (m.idx.empty())
      return ossia::convert(ossia::convert(m.v, m.unit, p.get_unit()), t);
    auto c = ossia::convert(cur, p.get_unit(), m.unit);
    auto f = m.v.get_type() == T::FLOAT ? m.v : comp(m.v, m.idx[0]);
    c = with_comp(c, m.idx[0], ossia::convert<float>(f));
    return ossia::convert(ossia::convert(c, m.unit, p.get_unit()), t);
  }
  if (m.idx.empty())
    return ossia::convert(m.v, t);
  switch (t)
  {
    case T::VEC2F:
    case T::VEC3F:
    case T::VEC4F:
    {
      int i = m.idx[0];
      if (i >= arity(m.p))
        return cur;
      auto f = m.v.get_type() == T::FLOAT ? m.v : comp(m.v, i);
      return f.valid() ? with_comp(cur, i, ossia::convert<float>(f)) : cur;
    }
    case T::LIST:
    {
      auto l = cur.get<vlist>();
      put(l, m.v, m.idx);
      return l;
    }
    default:
    {
      vlist l{cur};
      put(l, m.v, m.idx);
      return ossia::convert(ossia::value{l}, t);
    }
  }
}

// any message
static msg some_message()
{
  msg m;
  m.p = M.r.i(0, NPARAM - 1);
  int n = arity(m.p);
  if (n)
  {
    if (M.r.b())
      m.v = vec(n);
    else
    {
      m.idx = {M.r.i(0, M.r.b(1, 8) ? 5 : n - 1)};
      switch (M.r.i(0, 4))
      {
        case 0: m.v = vec(n); break;
        case 1:
        {
          vlist l;
          for (int k = M.r.i(0, 5); k-- > 0;)
            l.push_back(num());
          m.v = l;
          break;
        }
        default: m.v = num();
      }
      if (m.v.get_type() != T::FLOAT && m.idx[0] >= n)
        m.idx = {0};
    }
    if (m.p == COLOR && M.r.b())
    {
      m.unit = U(M.r.pick(std::array{"color.rgb", "color.argb", "color.hsv"}));
      if (m.unit == U("color.argb"))
      {
        m.v = ossia::make_vec(1.f, M.r.u(), M.r.u(), M.r.u());
        m.idx = {};
      }
      else if (m.unit == U("color.hsv"))
      {
        m.v = ossia::make_vec(M.r.u(), M.r.u(), M.r.u());
        m.idx = {};
      }
    }
    if (m.p == CART && M.r.b())
    {
      m.unit = U(M.r.pick(std::array{"position.cart3D", "position.openGL"}));
      if (m.v.get_type() == T::LIST)
        m.v = vec(3);
      if (!m.idx.empty())
        m.idx = {std::min(m.idx[0], 2)};
    }
  }
  else if (m.p == LIST0)
  {
    switch (M.r.i(0, 5))
    {
      case 0: m.v = vlist{scalar(), scalar()}; break;
      case 1:
        m.v = scalar();
        m.idx = {1, M.r.i(0, 3)};
        break;
      case 2:
        m.v = scalar();
        m.idx = {M.r.i(0, 2), M.r.i(0, 2), M.r.i(0, 2)};
        break;
      default:
        m.v = scalar();
        m.idx = {M.r.i(0, 6)};
    }
  }
  else
  {
    m.v = m.p == GAIN ? ossia::value{M.r.u()} : scalar();
    if (m.p == GAIN && M.r.b())
      m.unit = U(M.r.pick(std::array{"gain.db", "gain.linear"}));
    else if (M.r.b(1, 4))
      m.idx = {M.r.i(0, 3)};
  }
  return m;
}

VP_SECTION(messages)
{
  world w;
  for (int it = 0; it < M.n(6000, 150000); it++)
  {
    if (it % 20 == 0)
      w.start();
    auto m = some_message();
    auto cur = w.ps[m.p]->value();
    M.at("message", vp::str(show(m), " on ", mv::S(cur)));
    auto want = effect(w, m);
    auto x = m.make(w);
    VCHECK(x.get_unit() == m.unit && &x.dest.address() == w.ps[m.p] && x.dest.index == m.idx && mv::same(mv::from(m.v), x.message_value), "message.make", show(m));
    w.proto->log.clear();
    std::vector<ossia::value> others;
    for (auto p : w.ps)
      others.push_back(p->value());
    switch (M.r.i(0, 2))
    {
      case 0: x.launch(); break;
      case 1:
      {
        ossia::state_element e{x};
        ossia::launch(e);
        break;
      }
      default:
      {
        ossia::state s;
        s.add(x);
        s.launch();
      }
    }
    auto got = w.ps[m.p]->value();
    VCHECK(near(want, got), "message.launch", show(m), " on ", mv::S(cur), " gives ", mv::S(got), " expected ", mv::S(want));
    VCHECK(w.proto->log.size() == 1 && w.proto->log[0].first == w.ps[m.p] && near(w.proto->log[0].second, got, 0), "message.pushed", show(m), " pushed ", w.proto->log.size());
    for (int p = 0; p < NPARAM; p++)
      if (p != m.p)
        VCHECK(near(others[p], w.ps[p]->value(), 0), "message.others", show(m), " changed p", p);
    M.seen(vp::hash_str(show(m)));
  }
}

VP_SECTION(piecewise)
{
  world w;
  for (int it = 0; it < M.n(3000, 60000); it++)
  {
    w.start();
    if (M.r.b())
    {
      int p = M.r.i(0, NPARAM - 1);
      if (arity(p))
        p = M.r.b() ? int(LIST0) : int(FL);
      vlist l;
      for (int k = M.r.i(1, 6); k-- > 0;)
        l.push_back(M.r.b(1, 4) ? ossia::value{} : scalar());
      if (p == LIST0 && l.size() > 1) // on the sub-list
        l[1] = ossia::value{};
      if (p != LIST0)
        l[0] = scalar();
      auto cur = w.ps[p]->value();
      M.at("piecewise", vp::str(p, " ", mv::S(l)));
      ossia::value want;
      if (p == LIST0)
      {
        auto c = cur.get<vlist>();
        for (size_t i = 0; i < l.size(); i++)
        {
          if (c.size() <= i)
            c.resize(i + 1);
          if (l[i].valid())
            c[i] = l[i];
        }
        want = c;
      }
      else
        want = ossia::convert(ossia::value{l}, w.ps[p]->get_value_type());
      ossia::piecewise_message m{*w.ps[p], l, {}};
      VCHECK(m == (ossia::piecewise_message{*w.ps[p], l, {}}) && m != (ossia::piecewise_message{*w.ps[(p + 1) % NPARAM], l, {}}), "piecewise.equal", mv::S(l));
      ossia::state_element e{m};
      ossia::launch(e);
      VCHECK(near(want, w.ps[p]->value()) && w.proto->log.size() == 1, "piecewise.launch", mv::S(l), " on ", mv::S(cur), " gives ", mv::S(w.ps[p]->value()), " expected ", mv::S(want));
      M.seen(vp::hash_str(mv::S(l)));
    }
    else
    {
      static const int vp_[] = {V2, V3, V4, COLOR, CART};
      int p = vp_[M.r.i(0, 4)];
      auto go = [&](auto n) {
        constexpr int N = decltype(n)::value;
        ossia::piecewise_vec_message<N> m{*w.ps[p], {}, {}, {}};
        auto cur = w.ps[p]->value();
        auto unit = p == CART && M.r.b() ? U("position.openGL") : p == COLOR && M.r.b() ? U("color.rgb") : ossia::unit_t{};
        m.unit = unit;
        auto c = unit ? ossia::convert(cur, w.ps[p]->get_unit(), unit) : cur;
        for (int i = 0; i < N; i++)
        {
          m.message_value[i] = num();
          if (M.r.b(2, 3))
          {
            m.used_values.set(i);
            c = with_comp(c, i, m.message_value[i]);
          }
        }
        auto want = unit ? ossia::convert(c, unit, w.ps[p]->get_unit()) : c;
        M.at("piecewise_vec", vp::str(p, " ", m.used_values.to_string()));
        auto same = m;
        VCHECK(same == m && !(same != m), "piecewise_vec.equal", "copy");
        same.used_values.flip(0);
        VCHECK(same != m, "piecewise_vec.equal", "used");
        ossia::state_element e{m};
        ossia::launch(e);
        VCHECK(near(want, w.ps[p]->value()) && w.proto->log.size() == 1, "piecewise_vec.launch", p, " ", m.used_values.to_string(), " ", mv::S(ossia::value{m.message_value}), " on ", mv::S(cur), " gives ", mv::S(w.ps[p]->value()), " expected ", mv::S(want));
        M.seen(vp::mix(p, m.used_values.to_ulong()));
      };
      if (arity(p) == 2)
        go(std::integral_constant<int, 2>{});
      else if (arity(p) == 3)
        go(std::integral_constant<int, 3>{});
      else
        go(std::integral_constant<int, 4>{});
    }
  }
}

// messages which can be merged: whole values, single components, list elements
static msg mergeable()
{
  msg m;
  static const int ps[] = {LIST0, V2, V3, V4, FL, IN, STR, CART};
  m.p = ps[M.r.i(0, 7)];
  if (int n = arity(m.p))
  {
    if (m.p == CART)
      m.unit = U("position.openGL");
    switch (M.r.i(0, 5))
    {
      case 0: m.v = vec(n); break;
      case 1:
        m.v = vec(n);
        m.idx = {M.r.i(0, n - 1)};
        break;
      case 2:
        m.v = vec(n);
        m.piecewise = 2;
        m.used = M.r.i(0, (1 << n) - 1);
        break;
      default:
        m.v = num();
        m.idx = {M.r.i(0, n - 1)};
    }
  }
  else if (m.p == LIST0)
  {
    if (M.r.b(1, 4))
    {
      vlist l;
      for (int k = M.r.i(0, 6), i = 0; i < k; i++)
        l.push_back(i != 1 && M.r.b() ? scalar() : ossia::value{});
      m.v = l;
      m.piecewise = 1;
      return m;
    }
    m.v = scalar();
    static const std::vector<ossia::destination_index> idx{{0}, {2}, {3}, {4}, {5}, {1, 0}, {1, 1}};
    m.idx = M.r.pick(idx);
  }
  else
    m.v = m.p == FL ? ossia::value{num()} : m.p == IN ? ossia::value{M.r.i(0, 9)} : ossia::value{M.r.pick(std::vector<std::string>{"a", "b", "c"})};
  return m;
}

struct tree
{
  bool leaf{true};
  msg m;
  std::vector<tree> sub;
};
static tree some_tree(int d, int n)
{
  tree t;
  t.leaf = false;
  for (int k = M.r.i(0, n); k-- > 0;)
  {
    if (d > 0 && M.r.b(1, 5))
      t.sub.push_back(some_tree(d - 1, 3));
    else
    {
      tree x;
      x.m = mergeable();
      t.sub.push_back(x);
    }
  }
  return t;
}
static std::string show(const tree& t)
{
  if (t.leaf)
    return show(t.m);
  std::string s = "{";
  for (auto& c : t.sub)
    s += " " + show(c);
  return s + " }";
}
static ossia::state_element make(world& w, const tree& t)
{
  if (t.leaf)
    return t.m.element(w);
  ossia::state s;
  if (M.r.b())
    s.reserve(t.sub.size());
  for (auto& c : t.sub)
    if (M.r.b())
      s.add(make(w, c));
    else
    {
      const auto e = make(w, c);
      s.add(e);
    }
  return s;
}
static void leaves(const tree& t, std::vector<msg>& out)
{
  if (t.leaf)
    out.push_back(t.m);
  for (auto& c : t.sub)
    leaves(c, out);
}
template <typename V>
static void feed(V& vis, ossia::state_element e)
{
  if (auto m = e.target<ossia::message>())
    vis(std::move(*m));
  else if (auto m = e.target<ossia::piecewise_message>())
    vis(std::move(*m));
  else if (auto m = e.target<ossia::piecewise_vec_message<2>>())
    vis(std::move(*m));
  else if (auto m = e.target<ossia::piecewise_vec_message<3>>())
    vis(std::move(*m));
  else if (auto m = e.target<ossia::piecewise_vec_message<4>>())
    vis(std::move(*m));
}
using param_unit = std::pair<const net::parameter_base*, ossia::unit_t>;
static param_unit key(const ossia::state_element& e)
{
  if (auto m = e.target<ossia::message>())
    return {&m->dest.value.get(), m->get_unit()};
  if (auto m = e.target<ossia::piecewise_message>())
    return {&m->address.get(), m->get_unit()};
  if (auto m = e.target<ossia::piecewise_vec_message<2>>())
    return {&m->address.get(), m->get_unit()};
  if (auto m = e.target<ossia::piecewise_vec_message<3>>())
    return {&m->address.get(), m->get_unit()};
  if (auto m = e.target<ossia::piecewise_vec_message<4>>())
    return {&m->address.get(), m->get_unit()};
  return {};
}

// launching the flattened state gives each parameter the value that launching
// every message, in order, gives it
VP_SECTION(flatten)
{
  world seq, flat;
  for (int it = 0; it < M.n(2500, 60000); it++)
  {
    auto t = some_tree(3, M.r.i(1, 12));
    auto text = show(t);
    M.at("flatten", text);
    std::vector<msg> all;
    leaves(t, all);
    seq.start();
    auto e = make(seq, t);
    ossia::launch(e);
    // the tree itself launches every message in order
    VCHECK(seq.proto->log.size() == all.size(), "state.launch", text, " pushed ", seq.proto->log.size());
    for (size_t i = 0; i < all.size() && i < seq.proto->log.size(); i++)
      VCHECK(seq.proto->log[i].first == seq.ps[all[i].p], "state.launch_order", text, " at ", i);
    // and each has its effect
    {
      world m;
      for (auto& x : all)
        m.ps[x.p]->set_value(effect(m, x));
      for (int p = 0; p < NPARAM; p++)
        VCHECK(near(m.ps[p]->value(), seq.ps[p]->value()), "state.launch_effect", text, " p", p, " ", mv::S(seq.ps[p]->value()), " expected ", mv::S(m.ps[p]->value()));
    }
    auto check = [&](const char* how) {
      auto rule = std::string("flatten.") + how;
      for (int p = 0; p < NPARAM; p++)
        VCHECK(near(seq.ps[p]->value(), flat.ps[p]->value()), rule.c_str(), text, " p", p, " ", mv::S(flat.ps[p]->value()), " expected ", mv::S(seq.ps[p]->value()));
    };
    for (int how = 0; how < 6; how++)
    {
      flat.start();
      bool merge = how == 2 || how == 3;
      ossia::state s;
      if (how < 4)
      {
        // in several times
        std::vector<ossia::state_element> parts;
        if (M.r.b())
          for (auto& c : t.sub)
            parts.push_back(make(flat, c));
        else
          parts.push_back(make(flat, t));
        for (auto& part : parts)
          switch (how)
          {
            case 0: ossia::flatten_and_filter(s, (const ossia::state_element&)part); break;
            case 1: ossia::flatten_and_filter(s, std::move(part)); break;
            case 2: ossia::merge_flatten_and_filter(s, (const ossia::state_element&)part); break;
            case 3: ossia::merge_flatten_and_filter(s, std::move(part)); break;
          }
        // nothing nested, and one element for each address and unit
        std::map<const net::parameter_base*, int> count;
        bool nested = false;
        for (auto& x : s)
        {
          nested |= x.target<ossia::state>() != nullptr;
          count[key(x).first]++;
        }
        VCHECK(!nested, "flatten.nested", text);
        for (int p = 0; p < NPARAM; p++)
          if (merge || arity(p) || p == LIST0)
            VCHECK(count[flat.ps[p]] <= 1, "flatten.unique", text, " p", p, " ", count[flat.ps[p]]);
        std::ostringstream out;
        ossia::print(out, ossia::state_element{s});
        const auto printed = out.str();
        VCHECK(printed.rfind("state {\n", 0) == 0 && size_t(std::count(printed.begin(), printed.end(), 10)) == s.size() + 2, "state.print", text, ": ", printed);
        s.launch();
        if (merge)
          VCHECK(flat.proto->log.size() == s.size(), "flatten.pushes", text, " ", flat.proto->log.size());
        static const char* names[] = {"copy", "move", "merge_copy", "merge_move"};
        check(names[how]);
      }
      else if (how == 4)
      {
        ossia::flat_set_state fs;
        ossia::state_flatten_visitor<ossia::flat_set_state, false> vis{fs};
        ossia::apply(vis, make(flat, t));
        std::set<int> touched;
        for (auto& x : all)
          touched.insert(x.p);
        VCHECK(fs.size() == touched.size() && fs.empty() == touched.empty(), "flatten.set_size", text, " ", fs.size());
        fs.launch();
        VCHECK(flat.proto->log.size() == touched.size(), "flatten.set_pushes", text);
        check("set");
      }
      else
      {
        // on one parameter, as at each tick
        for (int p = 0; p < NPARAM; p++)
        {
          ossia::mono_state ms;
          ossia::state_flatten_visitor<ossia::mono_state, false, true> vis{ms};
          for (auto& x : all)
            if (x.p == p)
              feed(vis, x.element(flat));
          ossia::launch(ms.e);
        }
        check("mono");
        flat.start();
        for (int p = 0; p < NPARAM; p++)
        {
          ossia::flat_vec_state fs;
          ossia::state_flatten_visitor<ossia::flat_vec_state, false, true> vis{fs};
          for (auto& x : all)
            if (x.p == p)
              feed(vis, x.element(flat));
          fs.launch();
        }
        check("ordered");
      }
    }
    M.seen(vp::hash_str(text));
    if (it < 3)
      M.sample(text);
  }
}

// states which were flattened each on its own, then together: launching the
// result does what launching them one after the other does
VP_SECTION(flattened_together)
{
  world seq, flat;
  for (int it = 0; it < M.n(2500, 60000); it++)
  {
    std::vector<tree> parts;
    std::string text;
    for (int k = M.r.i(2, 4); k-- > 0;)
    {
      parts.push_back(some_tree(1, M.r.i(1, 6)));
      text += show(parts.back()) + " ";
    }
    M.at("flatten.together", text);
    seq.start();
    flat.start();
    ossia::state all;
    const bool merge = M.r.b();
    for (auto& t : parts)
    {
      auto e = make(seq, t);
      ossia::launch(e);
      ossia::state one;
      if (merge)
        ossia::merge_flatten_and_filter(one, make(flat, t));
      else
        ossia::flatten_and_filter(one, make(flat, t));
      // as the elements of the list are launched
      if (M.r.b(1, 4) && one.size())
      {
        std::vector<ossia::state_element> els(one.begin(), one.end());
        for (auto& e : els)
        {
          const ossia::state_element c = e;
          if (merge)
            ossia::merge_flatten_and_filter(all, c);
          else
            ossia::flatten_and_filter(all, c);
        }
      }
      else if (merge)
        ossia::merge_flatten_and_filter(all, std::move(one));
      else if (M.r.b())
        ossia::flatten_and_filter(all, std::move(one));
      else
      {
        const ossia::state c = one;
        ossia::flatten_and_filter(all, c);
      }
    }
    bool nested = false;
    std::map<const net::parameter_base*, int> count;
    for (auto& x : all)
    {
      nested |= x.target<ossia::state>() != nullptr;
      count[key(x).first]++;
    }
    VCHECK(!nested, "flatten.together.nested", text);
    for (int p = 0; p < NPARAM; p++)
      if (merge || arity(p) || p == LIST0)
        VCHECK(count[flat.ps[p]] <= 1, "flatten.together.unique", text, " p", p, " ", count[flat.ps[p]]);
    all.launch();
    for (int p = 0; p < NPARAM; p++)
      VCHECK(near(seq.ps[p]->value(), flat.ps[p]->value()), "flatten.together.value", text, " p", p, " ", mv::S(flat.ps[p]->value()), " expected ", mv::S(seq.ps[p]->value()));
    M.seen(vp::hash_str(text));
  }
}

// a state as a container
VP_SECTION(container)
{
  world w;
  for (int it = 0; it < M.n(300, 5000); it++)
  {
    ossia::state s;
    std::vector<std::string> model;
    std::vector<ossia::state_element> els;
    for (int op = 0; op < M.r.i(1, 30); op++)
    {
      M.at("state.container", vp::str(it, " ", op));
      switch (M.r.i(0, 6))
      {
        case 0:
        case 1:
        case 2:
        {
          auto t = M.r.b(1, 4) ? some_tree(1, 2) : tree{};
          if (t.leaf)
            t.m = mergeable();
          auto e = make(w, t);
          els.push_back(e);
          model.push_back(show(t));
          if (M.r.b())
            s.add(e);
          else
            s.add(ossia::state_element{e});
          break;
        }
        case 3: // an empty element is not added
        {
          s.add(ossia::state_element{});
          std::optional<ossia::state_element> none, some{w.ps[0] ? make(w, tree{}) : ossia::state_element{}};
          s.add(none);
          s.add(some);
          els.push_back(*some);
          break;
        }
        case 4:
          if (!els.empty())
          {
            auto e = M.r.pick(els);
            s.remove(e);
            std::vector<ossia::state_element> k;
            for (auto& x : els)
              if (!(x == e))
                k.push_back(x);
            els = k;
          }
          break;
        case 5:
          if (!els.empty())
          {
            int i = M.r.i(0, int(els.size()) - 1);
            if (M.r.b())
              s.remove(s.begin() + i);
            else
              s.remove(s.cbegin() + i);
            els.erase(els.begin() + i);
          }
          break;
        case 6:
          if (M.r.b(1, 10))
          {
            s.clear();
            els.clear();
          }
      }
      bool ok = s.size() == els.size() && s.empty() == els.empty() && s.children().size() == els.size();
      for (size_t i = 0; ok && i < els.size(); i++)
        ok = *(s.begin() + i) == els[i];
      VCHECK(ok, "state.container", it, " ", s.size(), " ", els.size());
      ossia::state copy{s};
      VCHECK(copy == s && !(copy != s), "state.copy", it);
      copy.add(make(w, tree{}));
      VCHECK(copy != s, "state.differ", it);
      M.seen(vp::mix(it, op));
    }
  }
  // messages
  for (int it = 0; it < M.n(300, 3000); it++)
  {
    auto a = some_message(), b = M.r.b() ? a : some_message();
    if (M.r.b())
      b.p = a.p;
    auto x = a.make(w), y = b.make(w);
    bool same = a.p == b.p && a.idx == b.idx && a.v == b.v;
    VCHECK((x == y) == same && (x != y) == !same, "message.equal", show(a), " and ", show(b));
  }
}

// a control message reaches its port
VP_SECTION(control)
{
  for (int it = 0; it < M.n(100, 1000); it++)
  {
    ossia::value_port p, q;
    std::vector<ossia::value> vs;
    for (int k = M.r.i(1, 5); k-- > 0;)
    {
      auto v = scalar();
      M.at("control", mv::S(v));
      ossia::control_message m{&p, v}, same{&p, v}, other{&q, v}, third{&p, std::string("!?")};
      VCHECK(m == same && !(m != same) && m != other && !(m == other) && m != third, "control.equal", mv::S(v));
      if (M.r.b())
        m.launch();
      else
        ossia::state_execution_visitor{}(m);
      vs.push_back(v);
      ossia::state_execution_visitor{}();
    }
    bool ok = p.get_data().size() == vs.size() && q.get_data().empty();
    for (size_t i = 0; ok && i < vs.size(); i++)
      ok = mv::same(mv::from(vs[i]), p.get_data()[i].value) && p.get_data()[i].timestamp == 0;
    VCHECK(ok, "control.launch", p.get_data().size());
    M.seen(vp::hash_str(mv::S(vs)));
  }
}
VP_MAIN
