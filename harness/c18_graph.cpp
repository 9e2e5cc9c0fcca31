// The execution graph: which nodes run, in which order, and what they receive.
#include "values.hpp"
#include <ossia/detail/logger.hpp>
#include <ossia/dataflow/bench_map.hpp>
#include <ossia/dataflow/exec_state_facade.hpp>
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/graph/graph.hpp>
#include <ossia/dataflow/graph/graph_static.hpp>
#include <ossia/dataflow/graph/breadth_first_search.hpp>
#include <ossia/dataflow/graph/transitive_closure.hpp>
#include <ossia/dataflow/graph_edge.hpp>
#include <ossia/dataflow/graph_edge_helpers.hpp>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <boost/circular_buffer.hpp>
#include <spdlog/sinks/ostream_sink.h>
#include <deque>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
using T = ossia::val_type;
namespace net = ossia::net;
using vp::M;
using namespace ossia;

using digraph = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS>;
using closure = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, int, int64_t>;

// what is reachable in one step or more
static std::vector<std::vector<char>> reach(int n, const std::vector<std::pair<int, int>>& es)
{
  std::vector<std::vector<char>> r(n, std::vector<char>(n));
  for (auto [a, b] : es)
    r[a][b] = 1;
  for (int k = 0; k < n; k++)
    for (int i = 0; i < n; i++)
      if (r[i][k])
        for (int j = 0; j < n; j++)
          r[i][j] |= r[k][j];
  return r;
}
static std::vector<std::pair<int, int>> some_edges(int n, bool dag)
{
  std::vector<std::pair<int, int>> es;
  if (n == 0)
    return es;
  int m = M.r.pick(std::array{n / 2, n, 2 * n, 4 * n});
  std::vector<int> perm(n);
  for (int i = 0; i < n; i++)
    perm[i] = i;
  for (int i = n - 1; i > 0; i--)
    std::swap(perm[i], perm[M.r.i(0, i)]);
  if (M.r.b(1, 4)) // a long path
    for (int i = 0; i + 1 < n; i++)
      es.push_back({perm[i], perm[i + 1]});
  while (m-- > 0)
  {
    int a = M.r.i(0, n - 1), b = M.r.i(0, n - 1);
    if (dag && a == b)
      continue;
    if (dag && a > b)
      std::swap(a, b);
    es.push_back({perm[a], perm[b]});
  }
  return es;
}
static std::string show(int n, const std::vector<std::pair<int, int>>& es)
{
  std::string s = vp::str(n, ":");
  for (auto [a, b] : es)
    s += vp::str(" ", a, ">", b);
  return s;
}
static digraph make(int n, const std::vector<std::pair<int, int>>& es)
{
  digraph g(n);
  for (auto [a, b] : es)
    boost::add_edge(a, b, g);
  return g;
}

VP_SECTION(closure)
{
  // the buffers are reused from one graph to the next
  TransitiveClosureState<digraph, closure> st;
  for (int it = 0; it < M.n(3000, 60000); it++)
  {
    int n = M.r.b(1, 40) ? M.r.i(40, 90) : M.r.i(0, 14);
    auto es = some_edges(n, M.r.b());
    auto text = show(n, es);
    M.at("graph.closure", text);
    auto g = make(n, es);
    closure tc;
    TransitiveClosureState<digraph, closure> fresh;
    ossia::transitive_closure(g, tc, M.r.b(1, 4) ? fresh : st);
    auto r = reach(n, es);
    VCHECK(int(boost::num_vertices(tc)) == n, "closure.vertices", text);
    std::vector<std::vector<char>> got(n, std::vector<char>(n));
    for (auto [e, end] = boost::edges(tc); e != end; ++e)
      got[boost::source(*e, tc)][boost::target(*e, tc)] = 1;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        VCHECK(got[i][j] == r[i][j], "closure.edge", text, " : ", i, ">", j, r[i][j] ? " is missing" : " is not a path");
    M.seen(vp::hash_str(text));
    if (it < 3)
      M.sample(text);
  }
  // its parts
  for (int it = 0; it < M.n(300, 3000); it++)
  {
    std::size_t n = M.r.i(0, 9);
    std::vector<std::size_t> a(n), b(n), c(n);
    for (std::size_t i = 0; i < n; i++)
      a[i] = M.r.i(0, 9), b[i] = M.r.b(1, 4) ? std::size_t(-1) : std::size_t(M.r.i(0, 9));
    M.at("graph.union", vp::str(n));
    ossia::detail::union_successor_sets(a, b, c);
    for (std::size_t i = 0; i < n; i++)
      VCHECK(c[i] == std::min(a[i], b[i]), "closure.union", i);
    auto sub = ossia::detail::subscript(a);
    for (std::size_t i = 0; i < n; i++)
    {
      VCHECK(&sub(i) == &a[i], "closure.subscript", i);
      sub(i) = 77;
      VCHECK(a[i] == 77, "closure.subscript", i);
    }
    std::vector<int> v(M.r.i(0, 9), 5);
    std::size_t m = M.r.i(0, 12);
    ossia::resize_and_fill(v, m);
    VCHECK(v == std::vector<int>(m), "closure.resize", m);
    std::vector<std::vector<int>> w(M.r.i(0, 9), std::vector<int>(3, 4));
    ossia::resize_and_fill(w, m);
    VCHECK(w == std::vector<std::vector<int>>(m), "closure.resize_nested", m);
    w.assign(M.r.i(0, 9), std::vector<int>(M.r.i(0, 6), 4));
    std::size_t k = M.r.i(0, 7);
    ossia::resize_and_fill(w, m, k, 9);
    VCHECK(w == std::vector<std::vector<int>>(m, std::vector<int>(k, 9)), "closure.resize_init", m, " ", k);
    M.seen(vp::mix(m, k));
  }
}

struct recorder
{
  std::vector<int>& found;
  int stop;
  bool discover_vertex(std::size_t v, const digraph&) const
  {
    found.push_back(int(v));
    return int(v) == stop;
  }
};

VP_SECTION(search)
{
  // buffers reused, as in the graph
  boost::circular_buffer<std::size_t> ring;
  auto color = boost::make_two_bit_color_map_fast(0, boost::identity_property_map{});
  for (int it = 0; it < M.n(3000, 60000); it++)
  {
    int n = M.r.b(1, 40) ? M.r.i(40, 90) : M.r.i(1, 14);
    auto es = some_edges(n, M.r.b());
    auto g = make(n, es);
    auto r = reach(n, es);
    int s = M.r.i(0, n - 1), stop = M.r.b() ? M.r.i(0, n - 1) : -1;
    auto text = vp::str(show(n, es), " from ", s, " to ", stop);
    M.at("graph.bfs", text);
    std::vector<int> found;
    recorder rec{found, stop};
    if (M.r.b())
    {
      ring.clear();
      if (int(ring.capacity()) <= n)
        ring.set_capacity(n);
      color.resize(n);
      ossia::bfs::breadth_first_search_simple(g, s, rec, ring, color);
    }
    else
    {
      std::deque<std::size_t> q;
      auto c = boost::make_two_bit_color_map_fast(n, boost::identity_property_map{});
      if (M.r.b()) // the search forgets the previous marks
        for (int i = 0; i < n; i++)
          put(c, i, M.r.pick(std::array{boost::two_bit_white, boost::two_bit_gray, boost::two_bit_black}));
      ossia::bfs::breadth_first_search_simple(g, s, rec, q, c);
    }
    // distances
    std::vector<int> d(n, -1), q{s};
    d[s] = 0;
    for (size_t i = 0; i < q.size(); i++)
      for (auto [a, b] : es)
        if (a == q[i] && d[b] < 0)
        {
          d[b] = d[a] + 1;
          q.push_back(b);
        }
    std::set<int> once(found.begin(), found.end());
    VCHECK(once.size() == found.size(), "bfs.once", text);
    VCHECK(!found.empty() && found[0] == s, "bfs.source", text);
    for (size_t i = 0; i < found.size(); i++)
    {
      VCHECK(d[found[i]] >= 0, "bfs.reachable", text, " : ", found[i]);
      if (i)
        VCHECK(d[found[i]] >= d[found[i - 1]], "bfs.order", text, " : ", found[i]);
      if (i && found[i] == stop)
        VCHECK(i + 1 == found.size(), "bfs.abort", text);
    }
    if (stop < 0 || stop == s || d[stop] < 0)
      VCHECK(found.size() == q.size(), "bfs.all", text, " : ", found.size(), " of ", q.size());
    else
      VCHECK(found.back() == stop, "bfs.found", text);
    M.seen(vp::hash_str(text));
  }
  for (int it = 0; it < M.n(200, 3000); it++)
  {
    int n = M.r.i(0, 70);
    M.at("graph.color", vp::str(n));
    auto c = boost::make_two_bit_color_map_fast(M.r.b() ? n : 0, boost::identity_property_map{});
    if (c.n != std::size_t(n) || M.r.b())
      c.resize(n);
    std::vector<int> model(n);
    for (int k = 0; k < 4 * n; k++)
    {
      int i = M.r.i(0, n - 1), v = M.r.i(0, 3);
      put(c, i, boost::two_bit_color_type(v));
      model[i] = v;
      if (k % 5 == 0)
        for (int j = 0; j < n; j++)
          VCHECK(int(get(c, j)) == model[j], "bfs.color", n, " ", j);
    }
    c.resize(n);
    for (int j = 0; j < n; j++)
      VCHECK(int(get(c, j)) == 0, "bfs.color_reset", n, " ", j);
  }
}

// ---- execution
struct spy final : net::protocol_base
{
  std::vector<std::pair<const net::parameter_base*, ossia::value>> log;
  bool pull(net::parameter_base&) override { return true; }
  bool push(const net::parameter_base& p, const ossia::value& v) override
  {
    log.push_back({&p, v});
    return true;
  }
  bool push_raw(const net::full_parameter_data&) override { return true; }
  bool observe(net::parameter_base&, bool) override { return true; }
  bool update(net::node_base&) override { return false; }
};

struct pdata
{
  std::vector<std::pair<int, int64_t>> v;
  std::vector<std::vector<double>> a;
  std::vector<std::vector<int>> m;
  bool operator==(const pdata& o) const { return v == o.v && m == o.m && norm() == o.norm(); }
  // the trailing silence does not count
  std::vector<std::vector<double>> norm() const
  {
    auto r = a;
    for (auto& c : r)
      while (!c.empty() && c.back() == 0.)
        c.pop_back();
    while (!r.empty() && r.back().empty())
      r.pop_back();
    return r;
  }
  void add(const pdata& o)
  {
    v.insert(v.end(), o.v.begin(), o.v.end());
    m.insert(m.end(), o.m.begin(), o.m.end());
    if (a.size() < o.a.size())
      a.resize(o.a.size());
    for (size_t c = 0; c < o.a.size(); c++)
    {
      if (a[c].size() < o.a[c].size())
        a[c].resize(o.a[c].size());
      for (size_t i = 0; i < o.a[c].size(); i++)
        a[c][i] += o.a[c][i];
    }
  }
};
static std::string show(const pdata& d)
{
  std::string s = "(";
  for (auto& x : d.v)
    s += vp::str(" ", x.first, "@", x.second);
  for (auto& c : d.a)
  {
    s += " [";
    for (auto x : c)
      s += vp::str(x, ",");
    s += "]";
  }
  for (auto& x : d.m)
    s += vp::str(" m", x.empty() ? -1 : x.back());
  return s + ")";
}
struct to_pdata
{
  pdata& d;
  void operator()(const value_port& p) const
  {
    for (auto& x : p.get_data())
      d.v.push_back({x.value.get_type() == T::INT ? x.value.get<int>() : -12345, x.timestamp});
  }
  void operator()(const audio_port& p) const
  {
    for (auto& c : p.samples)
      d.a.push_back(std::vector<double>(c.begin(), c.end()));
  }
  void operator()(const midi_port& p) const
  {
    for (auto& x : p.messages)
      d.m.push_back(std::vector<int>(x.bytes.begin(), x.bytes.end()));
  }
};

struct run_log
{
  int node;
  token_request tok;
  std::vector<pdata> in;
};
struct recording
{
  std::vector<run_log> runs;
  int next{1};
};
static inlet* make_inlet(int kind)
{
  if (kind == 0)
    return new audio_inlet;
  if (kind == 1)
    return new midi_inlet;
  return new value_inlet;
}
static outlet* make_outlet(int kind)
{
  if (kind == 0)
    return new audio_outlet;
  if (kind == 1)
    return new midi_outlet;
  return new value_outlet;
}
struct tnode final : graph_node
{
  int id;
  recording& rec;
  // what each outlet got in the last execution
  std::map<const outlet*, pdata> wrote;
  tnode(int i, recording& r) : id{i}, rec{r} {}
  std::string label() const noexcept override { return vp::str("n", id); }
  void run(const token_request& t, exec_state_facade) noexcept override
  {
    run_log l{id, t, {}};
    for (auto i : m_inlets)
    {
      pdata d;
      ((const inlet&)*i).visit(to_pdata{d});
      l.in.push_back(d);
    }
    rec.runs.push_back(l);
    for (auto o : m_outlets)
    {
      auto& w = wrote[o];
      switch (o->which())
      {
        case 0:
        {
          auto& p = o->cast<audio_port>();
          int ch = rec.next % 4;
          p.samples.resize(ch);
          w.a.assign(ch, {});
          for (int c = 0; c < ch; c++)
          {
            int n = (rec.next + c) % 3 * 2;
            p.samples[c].resize(n);
            w.a[c].resize(n);
            for (int k = 0; k < n; k++)
              p.samples[c][k] = w.a[c][k] = rec.next * 8 + c * 2 + k;
          }
          rec.next++;
          break;
        }
        case 1:
          for (int k = rec.next % 3; k-- > 0;)
          {
            int x = rec.next++;
            o->cast<midi_port>().note_on(uint8_t(1 + x % 16), uint8_t(x / 100 % 128), uint8_t(x % 100));
            w.m.push_back({0x90 + x % 16, x / 100 % 128, x % 100});
          }
          rec.next++;
          break;
        default:
          for (int k = rec.next % 3; k-- > 0;)
          {
            int x = rec.next++;
            o->cast<value_port>().write_value(x, t.prev_date.impl + k % 2);
            w.v.push_back({x, t.prev_date.impl + k % 2});
          }
          rec.next++;
      }
    }
  }
};

enum kind { glutton, strict, delayed_glutton, delayed_strict, dependency };
struct medge
{
  edge_ptr e;
  kind k;
  int sides{3};
  int a{}, b{}; // from node a to node b
  int o{-1}, i{-1};
  std::deque<pdata> buf;
  std::size_t pos{};
  std::vector<pdata> data;
};
static const char* show(kind k)
{
  static const char* n[] = {"glutton", "strict", "dglutton", "dstrict", "dep"};
  return n[k];
}
struct mnode
{
  std::shared_ptr<tnode> n;
  std::vector<net::parameter_base*> in_addr, out_addr;
  std::vector<int> in_scope, out_scope;
  bool in_graph{};
};

struct rig
{
  spy* proto{};
  std::unique_ptr<net::generic_device> dev;
  std::vector<net::parameter_base*> ps;
  recording rec;
  std::vector<mnode> nodes;
  std::vector<std::unique_ptr<medge>> edges;
  execution_state st;
  std::shared_ptr<graph_interface> g;
  std::shared_ptr<bench_map> bench;
  std::ostringstream logged;
  int sched{};
  std::string text;
  int64_t date{};
  rig()
  {
    auto s = std::make_unique<spy>();
    proto = s.get();
    dev = std::make_unique<net::generic_device>(std::move(s), "dev");
    for (int k = 0; k < 4; k++)
    {
      ps.push_back(dev->create_child("p")->create_parameter(T::INT));
      ps.back()->set_value(-1000 - k);
    }
    st.register_device(dev.get());
    st.apply_device_changes();
    graph_setup_options opt;
    sched = M.r.i(0, 3);
    opt.scheduling = decltype(opt.scheduling)(sched);
    static const char* const names[]{"fixed", "bfs", "tc", "dyn"};
    text = names[sched];
    if (M.r.b(1, 3))
    {
      opt.log = std::make_shared<spdlog::logger>("t", std::make_shared<spdlog::sinks::ostream_sink_mt>(logged));
      opt.log->set_level(spdlog::level::debug);
      text += "+log";
    }
    if (M.r.b(1, 3))
    {
      bench = opt.bench = std::make_shared<bench_map>();
      bench->measure = M.r.b();
      text += "+bench";
    }
    g = make_graph(opt);
  }
  ~rig()
  {
    g->clear();
    g.reset();
    edges.clear();
    nodes.clear();
  }
  void add_node(bool addr)
  {
    mnode m;
    m.n = std::make_shared<tnode>(int(nodes.size()), rec);
    for (int k = M.r.i(0, 3); k-- > 0;)
    {
      int kd = M.r.b(1, 3) ? M.r.i(0, 1) : 2;
      auto in = make_inlet(kd);
      m.n->root_inputs().push_back(in);
      m.in_addr.push_back(nullptr);
      m.in_scope.push_back(port::both);
      if (kd == 2 && addr && M.r.b())
      {
        in->address = m.in_addr.back() = M.r.pick(ps);
        in->scope = M.r.pick(std::array{port::both, port::both, port::local, port::global});
        m.in_scope.back() = in->scope;
      }
    }
    for (int k = M.r.i(0, 3); k-- > 0;)
    {
      int kd = M.r.b(1, 3) ? M.r.i(0, 1) : 2;
      auto out = make_outlet(kd);
      m.n->root_outputs().push_back(out);
      m.out_addr.push_back(nullptr);
      m.out_scope.push_back(port::both);
      if (kd == 2 && addr && M.r.b())
      {
        out->address = m.out_addr.back() = M.r.pick(ps);
        out->scope = M.r.pick(std::array{port::both, port::both, port::local, port::global});
        m.out_scope.back() = out->scope;
      }
    }
    if (M.r.b())
      m.n->set_logging(true);
    m.in_graph = M.r.b(3, 4); // otherwise a connection adds it
    if (m.in_graph)
    {
      g->add_node(m.n);
      if (M.r.b(1, 4))
        g->add_node(m.n); // only once
    }
    nodes.push_back(m);
    text += vp::str(" +n", m.n->id, "(");
    for (auto i : m.n->root_inputs())
      text += vp::str("i", i->which());
    for (auto o : m.n->root_outputs())
      text += vp::str("o", o->which());
    text += ")";
  }
  bool path(int a, int b)
  {
    std::set<int> seen{a};
    std::vector<int> q{a};
    while (!q.empty())
    {
      int x = q.back();
      q.pop_back();
      if (x == b)
        return true;
      for (auto& e : edges)
        if (e->a == x && seen.insert(e->b).second)
          q.push_back(e->b);
    }
    return false;
  }
  medge* connect(int a, int b, int only = -1)
  {
    auto& x = nodes[a];
    auto& y = nodes[b];
    auto e = std::make_unique<medge>();
    e->a = a;
    e->b = b;
    e->k = only >= 0 ? kind(only) : kind(M.r.b() ? M.r.i(0, 1) : M.r.i(0, 4));
    outlet* out{};
    inlet* in{};
    if (e->k != dependency)
    {
      if (x.n->root_outputs().empty() || y.n->root_inputs().empty())
        return nullptr;
      e->o = M.r.i(0, int(x.n->root_outputs().size()) - 1);
      e->i = M.r.i(0, int(y.n->root_inputs().size()) - 1);
      out = x.n->root_outputs()[e->o];
      in = y.n->root_inputs()[e->i];
      if (out->which() != in->which())
      {
        // for most of them
        if (M.r.b(3, 4))
          return nullptr;
      }
    }
    else
    {
      // the nodes without any port come first
      auto ports = [](mnode& m) { return m.n->root_inputs().size() + m.n->root_outputs().size(); };
      if (ports(x) == 0 || ports(y) == 0)
        return nullptr;
    }
    connection c;
    switch (e->k)
    {
      case glutton: c = immediate_glutton_connection{}; break;
      case strict:
        e->sides = M.r.i(1, 3);
        c = immediate_strict_connection{immediate_strict_connection::required_sides_t(e->sides)};
        break;
      case delayed_glutton: c = delayed_glutton_connection{}; break;
      case delayed_strict: c = delayed_strict_connection{}; break;
      default: c = dependency_connection{};
    }
    if (M.r.b(1, 3) && e->k != dependency && (e->k != strict || e->sides == 3))
    {
      switch (e->k)
      {
        case glutton: e->e = make_glutton_edge(e->o, e->i, x.n, y.n); break;
        case strict: e->e = make_strict_edge(e->o, e->i, x.n, y.n); break;
        case delayed_glutton: e->e = make_delayed_glutton_edge(e->o, e->i, x.n, y.n); break;
        default: e->e = make_delayed_strict_edge(e->o, e->i, x.n, y.n); break;
      }
    }
    else
      e->e = make_edge(c, out, in, x.n, y.n);
    g->connect(e->e);
    x.in_graph = y.in_graph = true;
    text += vp::str(" ", a, ".", e->o, show(e->k), e->k == strict ? e->sides : 0, ">", b, ".", e->i);
    edges.push_back(std::move(e));
    return edges.back().get();
  }
  void disconnect(int k)
  {
    if (M.r.b())
      g->disconnect(edges[k]->e);
    else
      g->disconnect(edges[k]->e.get());
    text += vp::str(" -e", edges[k]->a, ">", edges[k]->b);
    edges.erase(edges.begin() + k);
  }
  void remove_node(int k)
  {
    g->remove_node(nodes[k].n);
    nodes[k].in_graph = false;
    std::vector<std::unique_ptr<medge>> keep;
    for (auto& e : edges)
      if (e->a != k && e->b != k)
        keep.push_back(std::move(e));
    edges = std::move(keep);
    text += vp::str(" -n", k);
  }
  // checks the links between ports and edges
  void check_structure()
  {
    std::set<graph_node*> in;
    for (auto& n : nodes)
      if (n.in_graph)
        in.insert(n.n.get());
    auto& list = g->get_nodes();
    VCHECK(list.size() == in.size() && std::set<graph_node*>(list.begin(), list.end()) == in, "graph.nodes", text);
    for (auto& n : nodes)
    {
      for (size_t i = 0; i < n.n->root_inputs().size(); i++)
      {
        std::vector<graph_edge*> want;
        for (auto& e : edges)
          if (&nodes[e->b] == &n && e->i == int(i))
            want.push_back(e->e.get());
        auto& c = n.n->root_inputs()[i]->cables();
        VCHECK(std::vector<graph_edge*>(c.begin(), c.end()) == want, "graph.sources", text);
      }
      for (size_t i = 0; i < n.n->root_outputs().size(); i++)
      {
        std::vector<graph_edge*> want;
        for (auto& e : edges)
          if (&nodes[e->a] == &n && e->o == int(i))
            want.push_back(e->e.get());
        auto& c = n.n->root_outputs()[i]->cables();
        VCHECK(std::vector<graph_edge*>(c.begin(), c.end()) == want, "graph.targets", text);
      }
    }
  }
  static token_request tok(int64_t a, int64_t b)
  {
    return token_request{time_value{a}, time_value{b}, time_value{0}, time_value{0}, 1., {}, 120.};
  }
  void tick()
  {
    std::map<int, std::vector<token_request>> asked;
    std::set<int> enabled;
    std::map<int, std::pair<bool, bool>> disc;
    std::string t = vp::str(" tick", date, ":");
    for (auto& n : nodes)
      if (n.in_graph && M.r.b(3, 4))
      {
        for (int k = M.r.pick(std::array{1, 1, 2, 6}); k-- > 0;)
        {
          auto r = tok(date, date + 5);
          date += 5;
          n.n->request(r);
          asked[n.n->id].push_back(r);
        }
        enabled.insert(n.n->id);
        t += vp::str(" ", n.n->id);
        if (M.r.b(1, 4))
          n.n->set_start_discontinuous(true);
        if (M.r.b(1, 4))
          n.n->set_end_discontinuous(true);
      }
    for (auto& n : nodes)
    {
      if (M.r.b(1, 10))
        n.n->set_mute(!n.n->muted());
      if (n.n->muted())
        t += vp::str(" mute", n.n->id);
      disc[n.n->id] = {n.n->start_discontinuous(), n.n->end_discontinuous()};
      n.n->wrote.clear();
    }
    for (int k = M.r.i(0, 2); k-- > 0;)
      M.r.pick(ps)->set_value(-M.r.i(1, 900));
    std::map<net::parameter_base*, int> global;
    for (auto p : ps)
      global[p] = p->value().get<int>();
    text += t;
    M.at("graph.tick", text);
    // which ones execute
    for (bool again = true; again;)
    {
      again = false;
      auto cur = enabled;
      for (int x : cur)
      {
        bool off = nodes[x].n->muted();
        for (auto& e : edges)
        {
          if (e->b == x && e->k == strict && (e->sides & immediate_strict_connection::outbound) && !cur.count(e->a))
            off = true;
          if (e->b == x && e->k == delayed_strict && e->pos >= e->data.size())
            off = true;
          if (e->a == x && e->k == strict && (e->sides & immediate_strict_connection::inbound) && !cur.count(e->b))
            off = true;
        }
        if (off)
        {
          enabled.erase(x);
          again = true;
        }
      }
    }
    rec.runs.clear();
    proto->log.clear();
    st.begin_tick();
    g->state(st);
    // in which order
    std::vector<int> order;
    std::map<int, std::vector<run_log>> by;
    bool grouped = true;
    for (auto& r : rec.runs)
    {
      if (order.empty() || order.back() != r.node)
      {
        grouped &= !by.count(r.node);
        order.push_back(r.node);
      }
      by[r.node].push_back(r);
    }
    std::set<int> did(order.begin(), order.end());
    VCHECK(grouped, "graph.once", text);
    VCHECK(did == enabled, "graph.executed", text, " : ", did.size(), " of ", enabled.size());
    if (!grouped || did != enabled)
      return;
    std::map<int, int> rank;
    for (size_t i = 0; i < order.size(); i++)
      rank[order[i]] = int(i);
    for (auto& e : edges)
      if (did.count(e->a) && did.count(e->b))
        VCHECK(rank[e->a] < rank[e->b], "graph.order", text, " : ", e->b, " before ", e->a);
    // who writes an address executes before who reads it
    if (sched == graph_setup_options::StaticBFS || sched == graph_setup_options::StaticTC)
    {
      std::vector<std::pair<int, int>> deps, all;
      for (auto& e : edges)
        all.push_back({e->a, e->b});
      for (auto& x : nodes)
        for (auto& y : nodes)
          if (x.in_graph && y.in_graph && x.n->id != y.n->id)
          {
            bool dep = false;
            for (auto o : x.out_addr)
              for (auto i : y.in_addr)
                dep |= o && o == i;
            if (dep)
            {
              deps.push_back({x.n->id, y.n->id});
              all.push_back({x.n->id, y.n->id});
            }
          }
      auto r = reach(int(nodes.size()), all);
      bool cyclic = false;
      for (size_t i = 0; i < nodes.size(); i++)
        cyclic |= r[i][i];
      if (!cyclic)
        for (auto [a, b] : deps)
          if (did.count(a) && did.count(b))
            VCHECK(rank[a] < rank[b], "graph.address_order", text, " : ", b, " before ", a);
    }
    // with which data
    std::map<net::parameter_base*, std::vector<std::pair<int, int64_t>>> env;
    for (int x : order)
    {
      auto& n = nodes[x];
      auto& runs = by[x];
      VCHECK(runs.size() == asked[x].size(), "graph.tokens", text, " : node ", x, " ", runs.size());
      for (size_t k = 0; k < std::min(runs.size(), asked[x].size()); k++)
      {
        auto& tk = runs[k].tok;
        VCHECK(tk.prev_date == asked[x][k].prev_date && tk.date == asked[x][k].date, "graph.token", text, " : node ", x);
        VCHECK(tk.start_discontinuous == (k == 0 && disc[x].first) && tk.end_discontinuous == (k == 0 && disc[x].second), "graph.discontinuous", text, " : node ", x, " ", k);
      }
      for (size_t i = 0; i < n.in_addr.size(); i++)
      {
        pdata want;
        int w = int(n.n->root_inputs()[i]->which());
        bool pull = true, any = false;
        for (auto& e : edges)
          if (e->b == x && e->i == int(i))
          {
            if (!any)
              pull = false;
            any = true;
            pull |= e->k == glutton && !did.count(e->a);
          }
        if (auto p = n.in_addr[i]; pull && p)
        {
          if ((n.in_scope[i] & port::local) && !env[p].empty())
            want.v = env[p];
          else if (n.in_scope[i] & port::global)
            want.v.push_back({global[p], 0});
        }
        for (auto& e : edges)
          if (e->b == x && e->i == int(i))
          {
            auto out = nodes[e->a].n->root_outputs()[e->o];
            bool fits = int(out->which()) == w;
            if (e->k == glutton || e->k == strict)
            {
              if (fits && did.count(e->a))
                want.add(nodes[e->a].n->wrote[out]);
            }
            else if (e->k == delayed_glutton || e->k == delayed_strict)
            {
              if (fits && e->pos < e->data.size())
                want.add(e->data[e->pos]);
              e->pos++;
            }
          }
        for (auto& r : runs)
          VCHECK(r.in[i] == want, "graph.input", text, " : node ", x, " inlet ", i, " ", show(r.in[i]), " expected ", show(want));
      }
      for (size_t o = 0; o < n.out_addr.size(); o++)
      {
        auto& w = n.n->wrote[n.n->root_outputs()[o]];
        bool write = true, any = false;
        for (auto& e : edges)
          if (e->a == x && e->o == int(o))
          {
            if (!any)
              write = false;
            any = true;
            write |= e->k == glutton && !did.count(e->b);
            if (e->k == delayed_glutton || e->k == delayed_strict)
              e->data.push_back(w);
          }
        if (auto p = n.out_addr[o]; p && write)
        {
          if (n.out_scope[o] & port::local)
            env[p].insert(env[p].end(), w.v.begin(), w.v.end());
          else if (n.out_scope[o] & port::global)
            if (!w.v.empty())
              global[p] = w.v.back().first;
        }
      }
    }
    for (auto& n : nodes)
    {
      VCHECK(!n.n->executed() && !n.n->enabled(), "graph.finished", text, " : node ", n.n->id);
      if (did.count(n.n->id))
        VCHECK(!n.n->start_discontinuous() && !n.n->end_discontinuous(), "graph.continuous", text);
      else
        VCHECK(n.n->start_discontinuous() == disc[n.n->id].first && n.n->end_discontinuous() == disc[n.n->id].second, "graph.continuous", text);
      for (auto p : n.n->root_inputs())
      {
        pdata d;
        ((const inlet&)*p).visit(to_pdata{d});
        if (did.count(n.n->id))
          VCHECK(d == pdata{}, "graph.cleared", text, " : node ", n.n->id);
      }
    }
    // what goes out
    proto->log.clear();
    switch (M.r.i(0, 3))
    {
      case 0: st.commit(); break;
      case 1: st.commit_ordered(); break;
      case 2: st.commit_priorized(); break;
      default:
        st.commit_merged();
        for (auto& [p, vs] : env)
          if (!vs.empty())
            vs = {vs.back()};
    }
    for (auto p : ps)
    {
      std::vector<int> got, want;
      for (auto& [q, v] : proto->log)
        if (q == p)
          got.push_back(v.get_type() == T::INT ? v.get<int>() : -1);
      for (auto& [v, ts] : env[p])
        want.push_back(v);
      VCHECK(got == want, "graph.commit", text, " : ", got.size(), " of ", want.size());
      if (!want.empty())
        global[p] = want.back();
      VCHECK(p->value() == ossia::value{global[p]}, "graph.committed", text);
      env[p].clear();
    }
    if (bench && bench->measure && sched != graph_setup_options::Dynamic)
      for (auto& n : nodes)
        if (n.in_graph)
        {
          auto it = bench->find(n.n.get());
          VCHECK(it != bench->end() && it->second && (*it->second > 0 || !did.count(n.n->id)), "graph.bench", text);
        }
    M.seen(vp::mix(vp::hash_str(text), order.size()));
  }
};

struct quiet
{
  std::ostringstream out;
  std::streambuf *a, *b;
  quiet() : a{std::cout.rdbuf(out.rdbuf())}, b{std::cerr.rdbuf(out.rdbuf())} {}
  ~quiet()
  {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};

VP_SECTION(execution)
{
  quiet q;
  for (int it = 0; it < M.n(400, 8000); it++)
  {
    rig r;
    bool addr = M.r.b(3, 4);
    for (int k = M.r.i(1, 6); k-- > 0;)
      r.add_node(addr);
    for (int op = 0; op < M.r.i(5, 30); op++)
    {
      M.at("graph.edit", r.text);
      int n = int(r.nodes.size());
      switch (M.r.i(0, 9))
      {
        case 0:
          if (n < 9)
            r.add_node(addr);
          break;
        case 1:
          if (!r.edges.empty())
            r.disconnect(M.r.i(0, int(r.edges.size()) - 1));
          break;
        case 2:
          if (M.r.b(1, 3))
          {
            int k = M.r.i(0, n - 1);
            if (r.nodes[k].in_graph)
              r.remove_node(k);
          }
          break;
        case 3:
        case 4:
        case 5:
        case 6:
        {
          int a = M.r.i(0, n - 1), b = M.r.i(0, n - 1);
          if (!r.path(b, a))
            r.connect(a, b);
          break;
        }
        default: r.tick();
      }
      r.check_structure();
    }
    std::ostringstream out;
    r.g->print(out);
    for (auto& n : r.nodes)
      VCHECK((out.str().find(vp::str("\"n", n.n->id, "\"")) != std::string::npos) == n.in_graph, "graph.print", r.text);
    if (it < 2)
      M.sample(r.text);
  }
}

// a graph with a cycle executes nothing, and works again without it
VP_SECTION(cycle)
{
  quiet q;
  for (int it = 0; it < M.n(200, 2000); it++)
  {
    rig r;
    for (int k = M.r.i(2, 5); k-- > 0;)
      r.add_node(false);
    int n = int(r.nodes.size());
    for (int k = 0; k < 6; k++)
    {
      int a = M.r.i(0, n - 1), b = M.r.i(0, n - 1);
      if (!r.path(b, a))
        r.connect(a, b);
    }
    r.tick();
    for (int k = 0; k < 20; k++)
    {
      int a = M.r.i(0, n - 1), b = M.r.i(0, n - 1);
      if (r.path(b, a) && r.connect(a, b, M.r.i(0, 1)))
      {
        M.at("graph.cycle", r.text);
        for (int t = M.r.i(1, 3); t-- > 0;)
        {
          for (auto& x : r.nodes)
            if (x.in_graph)
              x.n->request(rig::tok(0, 5));
          r.rec.runs.clear();
          r.st.begin_tick();
          r.g->state(r.st);
          r.st.commit();
          VCHECK(r.rec.runs.empty(), "graph.cycle", r.text, " : ", r.rec.runs.size());
        }
        for (auto& x : r.nodes)
          VCHECK(!x.n->enabled(), "graph.cycle_requests", r.text);
        r.disconnect(int(r.edges.size()) - 1);
        break;
      }
    }
    r.check_structure();
    r.tick();
    r.tick();
  }
}

// what happens to the graph when its parts are destroyed in another order
VP_SECTION(lifetime)
{
  quiet q;
  for (int it = 0; it < M.n(200, 3000); it++)
  {
    rig r;
    for (int k = M.r.i(1, 6); k-- > 0;)
      r.add_node(true);
    int n = int(r.nodes.size());
    for (int k = M.r.pick(std::array{4, 8, 40}); k-- > 0;)
    {
      int a = M.r.i(0, n - 1), b = M.r.i(0, n - 1);
      if (!r.path(b, a))
        r.connect(a, b);
    }
    M.at("graph.lifetime", r.text);
    r.tick();
    std::vector<std::weak_ptr<graph_node>> weak;
    for (auto& x : r.nodes)
      weak.push_back(x.n);
    switch (M.r.i(0, 3))
    {
      case 0: // the nodes only belong to the graph
        r.nodes.clear();
        r.edges.clear();
        r.g->clear();
        break;
      case 1: // a node is cleared while connected
      {
        auto k = M.r.i(0, n - 1);
        r.nodes[k].n->clear();
        for (auto& e : r.edges)
          VCHECK(!e->e->in == (e->a == k || e->b == k || e->k == dependency), "graph.node_clear", r.text);
        VCHECK(r.nodes[k].n->root_inputs().empty() && r.nodes[k].n->root_outputs().empty(), "graph.node_clear", r.text);
        r.g->clear();
        r.edges.clear();
        r.nodes.clear();
        break;
      }
      case 2:
        for (int k = 0; k < n; k++)
          if (r.nodes[k].in_graph)
            r.remove_node(k);
        r.tick();
        VCHECK(r.rec.runs.empty(), "graph.emptied", r.text);
        r.nodes.clear();
        r.edges.clear();
        r.g->mark_dirty();
        r.st.begin_tick();
        r.g->state(r.st);
        break;
      default:
        r.edges.clear();
        r.nodes.clear();
        r.g.reset();
        r.g = make_graph({});
    }
    int left = 0;
    for (auto& w : weak)
      left += !w.expired();
    r.g.reset();
    r.g = make_graph({});
    left = 0;
    for (auto& w : weak)
      left += !w.expired();
    VCHECK(left == 0, "graph.nodes_freed", r.text, " : ", left);
    M.seen(vp::hash_str(r.text));
  }
}
VP_MAIN
