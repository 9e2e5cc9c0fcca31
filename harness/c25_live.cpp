// C25: a live OSCQuery server and its mirrors, over loopback.
#include "oscq.hpp"
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/oscquery/oscquery_mirror.hpp>
#include <ossia/network/oscquery/oscquery_server.hpp>
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
using namespace std::literals;
using server_proto = oq::oscquery_server_protocol;
using mirror_proto = oq::oscquery_mirror_protocol;

// ---------------------------------------------------------------- ports
// Under the ephemeral range; processes that run side by side start from different slots.
static bool can_bind(int type, uint16_t port)
{
  int s = ::socket(AF_INET, type, 0);
  int one = 1;
  if (type == SOCK_STREAM)
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = INADDR_ANY;
  bool ok = ::bind(s, (sockaddr*)&a, sizeof a) == 0;
  ::close(s);
  return ok;
}
static uint16_t next_port()
{
  static int slot = 10000 + (::getpid() % 440) * 50, n = 0;
  for (int i = 0; i < 200; i++)
  {
    uint16_t p = slot + n++ % 50;
    if (can_bind(SOCK_STREAM, p) && can_bind(SOCK_DGRAM, p))
      return p;
  }
  return 0;
}
template <typename F>
static bool wait_for(F f, std::chrono::milliseconds max = 20s)
{
  auto end = std::chrono::steady_clock::now() + max;
  for (int i = 0;; i++)
  {
    if (f())
      return true;
    if (std::chrono::steady_clock::now() > end)
      return false;
    std::this_thread::sleep_for(i < 20 ? 200us : 2ms);
  }
}

// ---------------------------------------------------------------- server and mirrors
struct srv
{
  std::string name;
  uint16_t osc, ws;
  server_proto* p{};
  std::unique_ptr<generic_device> dev;
  std::atomic_int in{}, out{};
  void opened(const std::string&) { in++; }
  void closed(const std::string&) { out++; }
  explicit srv(std::string n = "src", uint16_t o = 0, uint16_t w = 0) : name{n}, osc{o}, ws{w}
  {
    for (int i = 0; !dev && i < 10; i++)
      try
      {
        if (!o)
          osc = next_port();
        if (!w)
          ws = next_port();
        auto pr = std::make_unique<server_proto>(osc, ws);
        p = pr.get();
        p->onClientConnected.connect<&srv::opened>(*this);
        p->onClientDisconnected.connect<&srv::closed>(*this);
        dev = std::make_unique<generic_device>(std::move(pr), name);
      }
      catch (const std::exception& e)
      {
        // (the port was taken in between)
        std::this_thread::sleep_for(20ms);
      }
    VCHECK((bool)dev, "server-start", osc, ws);
  }
  node_base& root() { return dev->get_root_node(); }
};
struct clt
{
  mirror_proto* p{};
  std::unique_ptr<generic_device> dev;
  std::atomic_int opened{}, closed{}, failed{};
  void on_open() { opened++; }
  void on_close() { closed++; }
  void on_fail() { failed++; }
  explicit clt(srv& s, std::string name = "dst")
  {
    auto pr = std::make_unique<mirror_proto>("ws://127.0.0.1:" + std::to_string(s.ws), next_port());
    p = pr.get();
    p->on_connection_open.connect<&clt::on_open>(*this);
    p->on_connection_closed.connect<&clt::on_close>(*this);
    p->on_connection_failure.connect<&clt::on_fail>(*this);
    dev = std::make_unique<generic_device>(std::move(pr), name);
    ready(s);
  }
  // the streaming of OSC messages is negotiated
  void ready(srv& s)
  {
    VCHECK(wait_for([&] { return p->get_host_info().osc_port == s.osc; }), "host-info", s.osc);
    std::this_thread::sleep_for(30ms);
  }
  node_base& root() { return dev->get_root_node(); }
  parameter_base* find(const std::string& a)
  {
    auto n = find_node(root(), a);
    return n ? n->get_parameter() : nullptr;
  }
};
// everything but the values, which do not travel with the edits
static bool same(const node_base& a, const node_base& b)
{
  auto ma = attrs(a), mb = attrs(b);
  ma.erase("value");
  mb.erase("value");
  auto ca = a.children_names(), cb = b.children_names();
  std::sort(ca.begin(), ca.end());
  std::sort(cb.begin(), cb.end());
  if (ma != mb || ca != cb)
    return false;
  for (auto& c : ca)
    if (!same(*const_cast<node_base&>(a).find_child(c), *const_cast<node_base&>(b).find_child(c)))
      return false;
  return true;
}

VP_SECTION(mirrors)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(8, 80); it-- > 0;)
  {
    int id = 0;
    auto m = gen_node(3, id, true);
    vp::M.seen(shape(m));
    srv s{"serv" + std::to_string(r.i(0, 999))};
    if (!s.dev)
      return;
    apply(m, s.root());
    std::vector<std::unique_ptr<clt>> cs;
    for (int n = r.i(1, 2); n > 0; n--)
      cs.push_back(std::make_unique<clt>(s));
    VCHECK(wait_for([&] { return s.in == (int)cs.size(); }), "client-connected", s.in.load(), cs.size());
    for (auto& c : cs)
    {
      VCHECK(c->p->connected() && c->opened == 1 && c->closed == 0 && c->failed == 0, "connected", c->opened.load(), c->closed.load(), c->failed.load());
      auto hi = c->p->get_host_info();
      VCHECK(hi.name == s.name, "host-name", hi.name, s.name);
      VCHECK(hi.osc_transport == oq::host_info::UDP, "host-transport");
      VCHECK(hi.extensions["OSC_STREAMING"] && hi.extensions["LISTEN"], "host-extensions");
      VCHECK(c->p->update(c->root()), "update-answer");
      compare(s.root(), c->root(), "live", "");
    }
    // a part of the tree
    std::vector<node_base*> nodes;
    all_nodes(s.root(), nodes);
    for (int k = 0; k < 3 && !nodes.empty(); k++)
    {
      auto n = r.pick(nodes);
      auto& c = *r.pick(cs);
      auto o = find_node(c.root(), n->osc_address());
      if (!VCHECK(o, "live-node", n->osc_address()))
        continue;
      auto kept = n->get_parameter() ? n->get_parameter()->value() : ossia::value{};
      for (auto q : o->children_copy())
        o->remove_child(*q);
      VCHECK(c.p->update(*o), "update-part", n->osc_address());
      compare(s.root(), c.root(), "part", n->osc_address());
    }
  }
}

VP_SECTION(edits)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(5, 60); it-- > 0;)
  {
    int id = 0;
    auto m = gen_node(2, id, true);
    srv s;
    if (!s.dev)
      return;
    apply(m, s.root());
    std::vector<std::unique_ptr<clt>> cs;
    for (int n = r.i(1, 2); n > 0; n--)
    {
      cs.push_back(std::make_unique<clt>(s));
      cs.back()->p->set_zombie_on_remove(false);
      VCHECK(cs.back()->p->update(cs.back()->root()), "update-answer");
    }
    for (int step = 0; step < 14; step++)
    {
      std::vector<node_base*> nodes;
      all_nodes(s.root(), nodes);
      node_base* n = nodes.empty() ? nullptr : r.pick(nodes);
      parameter_base* p = n ? n->get_parameter() : nullptr;
      std::string what;
      int k = r.i(0, 8);
      vp::M.seen(vp::mix(k, p ? (int)p->get_value_type() : -1));
      if (k == 0)
      {
        auto& parent = n && r.b() ? *n : s.root();
        what = "add under " + parent.osc_address();
        auto g = gen_node(r.i(0, 1), id, false);
        std::function<void(mnode&)> fix = [&](mnode& q) {
          if (q.def && !pullable(mv::mk(*q.def)))
            q.def = {};
          for (auto& e : q.cld)
            fix(e);
        };
        fix(g);
        apply(g, *parent.create_child(g.name));
      }
      else if (!n)
        continue;
      else if (k == 1)
      {
        what = "remove " + n->osc_address();
        n->get_parent()->remove_child(*n);
      }
      else if (k == 2)
      {
        what = "rename " + n->osc_address();
        n->set_name(name(id++));
      }
      else if (k == 3)
      {
        what = "tags " + n->osc_address();
        set_tags(*n, std::vector<std::string>{text(4), "x"});
        set_description(*n, "d" + text(5));
      }
      else if (k == 4)
      {
        what = "numbers " + n->osc_address();
        set_priority(*n, flt());
        set_refresh_rate(*n, (int)r.i(1, 500));
        set_instance_bounds(*n, instance_bounds{(int)r.i(0, 3), (int)r.i(3, 9)});
        set_hidden(*n, r.b());
        set_critical(*n, r.b());
        set_disabled(*n, r.b());
      }
      else if (!p)
        continue;
      else if (k == 5)
      {
        what = "modes " + n->osc_address();
        p->set_access(r.pick(std::vector<access_mode>{access_mode::BI, access_mode::GET, access_mode::SET}));
        p->set_bounding(
            r.pick(std::vector<bounding_mode>{bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::LOW, bounding_mode::HIGH, bounding_mode::WRAP, bounding_mode::FOLD}));
        p->set_repetition_filter(r.b() ? repetition_filter::ON : repetition_filter::OFF);
      }
      else if (k == 6)
      {
        what = "range " + n->osc_address();
        mnode q;
        q.type = p->get_value_type();
        p->set_domain(r.i(0, 4) ? gen_domain(q) : ossia::domain{});
      }
      else if (k == 7 && !p->get_unit() && implied_ext(*n))
      {
        what = "unit " + n->osc_address();
        static const auto un = unit_names();
        p->set_unit(ossia::parse_pretty_unit(r.pick(un)));
      }
      else if (k == 8 && !p->get_unit() && p->get_value_type() != val_type::LIST && implied_ext(*n))
      {
        what = "type " + n->osc_address();
        p->set_value_type(r.pick(std::vector<val_type>{val_type::IMPULSE, val_type::INT, val_type::FLOAT, val_type::BOOL, val_type::CHAR, val_type::STRING,
                                                       val_type::VEC2F, val_type::VEC3F, val_type::VEC4F}));
      }
      else
        continue;
      vp::M.at("live-edit", what);
      bool ok = true;
      for (auto& c : cs)
      {
        wait_for([&] {
          c->p->run_commands();
          return same(s.root(), c->root());
        });
        if (!same(s.root(), c->root()))
          ok = compare(s.root(), c->root(), "live-edit", what);
        else
          VCHECK(true, "live-edit");
      }
      // (let the values that were asked for arrive)
      std::this_thread::sleep_for(5ms);
      if (!ok)
        break;
    }
  }
}

// ---------------------------------------------------------------- values
struct watch
{
  std::mutex m;
  std::vector<ossia::value> got;
  size_t count()
  {
    std::lock_guard l{m};
    return got.size();
  }
  ossia::value last()
  {
    std::lock_guard l{m};
    return got.empty() ? ossia::value{} : got.back();
  }
};
static mv::val live_value(val_type t)
{
  if (t != val_type::LIST)
    return gen_value(t);
  mv::list l;
  l.push_back({(int)vp::M.r.i(-9, 9)});
  for (int i = vp::M.r.i(1, 4); i > 0; i--)
    l.push_back(gen_value(vp::M.r.pick(std::vector<val_type>{val_type::INT, val_type::FLOAT, val_type::STRING})));
  return {l};
}
VP_SECTION(values)
{
  auto& r = vp::M.r;
  static const std::vector<val_type> ts{val_type::IMPULSE, val_type::INT,   val_type::FLOAT, val_type::BOOL,  val_type::CHAR,
                                        val_type::STRING,  val_type::VEC2F, val_type::VEC3F, val_type::VEC4F, val_type::LIST};
  for (int it = vp::M.n(5, 60); it-- > 0;)
  {
    srv s;
    if (!s.dev)
      return;
    bool echo = r.b();
    s.dev->set_echo(echo);
    struct item
    {
      std::string addr;
      val_type type;
      bool critical, watched;
      parameter_base* sp;
    };
    std::vector<item> items;
    for (int i = r.i(3, 6); i > 0; i--)
    {
      auto& n = create_node(s.root(), (r.b() ? "/a/p" : "/p") + std::to_string(i));
      item e{n.osc_address(), r.pick(ts), r.b(), r.i(0, 3) != 0, nullptr};
      e.sp = n.create_parameter(e.type);
      e.sp->set_value(mv::mk(live_value(e.type)));
      set_critical(n, e.critical);
      items.push_back(e);
    }
    std::vector<std::unique_ptr<clt>> cs;
    int nc = r.i(1, 4);
    auto connect = [&] {
      cs.push_back(std::make_unique<clt>(s));
      VCHECK(cs.back()->p->update(cs.back()->root()), "update-answer");
    };
    for (int n = nc; n > 0; n--)
      connect();
    // the first client leaves: the ones that stay are still told apart
    if (nc > 1 && r.b())
    {
      cs.erase(cs.begin() + r.i(0, nc - 1));
      VCHECK(wait_for([&] { return s.out == 1; }), "client-left", s.out.load());
      if (r.b())
        connect();
      nc = cs.size();
    }
    // observers : [client or -1][item]
    std::vector<std::vector<std::unique_ptr<watch>>> w(nc + 1);
    std::vector<std::vector<parameter_base*>> ps(nc + 1);
    bool ok = true;
    int renames = 0;
    for (int a = 0; a <= nc; a++)
      for (auto& e : items)
      {
        auto p = a == nc ? e.sp : cs[a]->find(e.addr);
        ok &= VCHECK(p && p->get_value_type() == e.type, "value-param", e.addr, a);
        ps[a].push_back(p);
        w[a].push_back(std::make_unique<watch>());
        if (p && (a == nc || e.watched))
          p->add_callback([x = w[a].back().get()](const ossia::value& v) {
            std::lock_guard l{x->m};
            x->got.push_back(v);
          });
      }
    if (!ok)
      return;
    std::this_thread::sleep_for(10ms);
    std::vector<std::vector<size_t>> want(nc + 1, std::vector<size_t>(items.size()));
    for (int step = vp::M.n(40, 80); step-- > 0;)
    {
      if (r.i(0, 11) == 0)
      {
        // an observed node, or the one above, gets another name
        auto& x = r.pick(items);
        node_base* n = &x.sp->get_node();
        if (n->get_parent()->get_parent() && r.b())
          n = n->get_parent();
        auto old = n->osc_address();
        n->set_name("r" + std::to_string(renames++));
        vp::M.at("live-rename", old + " " + n->osc_address());
        for (auto& q : items)
          q.addr = q.sp->get_node().osc_address();
        for (auto& c : cs)
          VCHECK(wait_for([&] {
                   c->p->run_commands();
                   return same(s.root(), c->root());
                 }),
                 "live-rename", old, n->osc_address());
        for (int a = 0; a < nc; a++)
          for (size_t k = 0; k < items.size(); k++)
            VCHECK(cs[a]->find(items[k].addr) == ps[a][k], "live-rename-param", items[k].addr);
      }
      int actor = r.i(0, nc), k = r.i(0, (int)items.size() - 1);
      auto& e = items[k];
      auto v = live_value(e.type);
      auto val = mv::mk(v);
      auto before = ps[actor][k]->value();
      bool raw = r.i(0, 3) == 0;
      vp::M.seen(vp::mix((int)e.type, (actor == nc) * 8 + e.critical * 4 + echo * 2 + e.watched + raw * 64) + nc * 1024);
      vp::M.at("live-value", vp::str(actor == nc ? "server" : "client", " ", e.addr, " critical ", e.critical, " clients ", nc, " echo ", echo, " = ", S(val)));
      if (raw)
      {
        full_parameter_data d;
        d.address = e.addr;
        d.access = access_mode::BI;
        d.type = e.type;
        d.set_value(val);
        d.critical = e.critical;
        (actor == nc ? s.dev : cs[actor]->dev)->get_protocol().push_raw(d);
      }
      else
        ps[actor][k]->push_value(val);
      if (!raw && (actor == nc || e.watched))
        want[actor][k]++;
      std::vector<int> to;
      if (actor == nc)
        for (int a = 0; a < nc; a++)
          to.push_back(a);
      else
      {
        to.push_back(nc);
        if (echo)
          for (int a = 0; a < nc; a++)
            if (a != actor)
              to.push_back(a);
      }
      for (int a : to)
      {
        if (a == nc || e.watched)
          want[a][k]++;
        wait_for([&] { return (!(a == nc || e.watched) || w[a][k]->count() >= want[a][k]) && S(ps[a][k]->value()) == S(val); });
        auto where = vp::str(actor == nc ? "server" : "client", " to ", a == nc ? "server" : "client", " ", e.addr, " critical ", e.critical, " of ", nc, " echo ", echo, " raw ", raw);
        VCHECK(S(ps[a][k]->value()) == S(val), "live-value", where, "pushed", S(val), "arrived", S(ps[a][k]->value()));
        if (a == nc || e.watched)
          VCHECK(S(w[a][k]->last()) == S(val), "live-callback", where, "pushed", S(val), "told", S(w[a][k]->last()));
      }
      if (raw)
        VCHECK(S(ps[actor][k]->value()) == S(before), "live-raw-local", e.addr);
    }
    std::this_thread::sleep_for(60ms);
    for (int a = 0; a <= nc; a++)
      for (size_t k = 0; k < items.size(); k++)
        VCHECK(w[a][k]->count() == want[a][k], "live-once", a == nc ? "server" : "client", items[k].addr, "critical", items[k].critical, "clients", nc, "echo", echo, "told",
               w[a][k]->count(), "times for", want[a][k]);
  }
}

VP_SECTION(pulls)
{
  auto& r = vp::M.r;
  static const std::vector<val_type> ts{val_type::INT,   val_type::FLOAT, val_type::BOOL,  val_type::CHAR, val_type::STRING,
                                        val_type::VEC2F, val_type::VEC3F, val_type::VEC4F, val_type::LIST};
  for (int it = vp::M.n(5, 50); it-- > 0;)
  {
    srv s;
    if (!s.dev)
      return;
    std::vector<std::pair<std::string, parameter_base*>> items;
    for (int i = 8; i > 0; i--)
    {
      auto& n = create_node(s.root(), (r.b() ? "/a b/p" : "/p") + std::to_string(i));
      auto p = n.create_parameter(r.pick(ts));
      p->set_value(mv::mk(live_value(p->get_value_type())));
      items.emplace_back(n.osc_address(), p);
    }
    clt c{s};
    VCHECK(c.p->update(c.root()), "update-answer");
    for (int step = 0; step < 25 && !items.empty(); step++)
    {
      int k = r.i(0, (int)items.size() - 1);
      auto& [addr, p] = items[k];
      auto q = c.find(addr);
      if (!VCHECK(q, "pull-param", addr))
        break;
      vp::M.seen((int)p->get_value_type());
      if (r.i(0, 9) == 0)
      {
        // the node is gone, and the mirror does not know yet
        vp::M.at("pull", "gone " + addr);
        auto n = &p->get_node();
        auto before = q->value();
        n->get_parent()->remove_child(*n);
        if (r.b())
          c.p->request(*q);
        else
          c.p->pull_async(*q);
        std::this_thread::sleep_for(40ms);
        VCHECK(S(q->value()) == S(before), "pull-gone", addr);
        items.erase(items.begin() + k);
        continue;
      }
      auto v = mv::mk(live_value(p->get_value_type()));
      p->set_value(v);
      vp::M.at("pull", addr + " " + S(v));
      if (r.i(0, 3) == 0)
      {
        c.p->request(*q);
        wait_for([&] { return S(q->value()) == S(v); }, 5s);
        VCHECK(S(q->value()) == S(v), "request", addr, S(v), S(q->value()));
      }
      else
      {
        VCHECK(c.p->pull(*q), "pull-answer", addr);
        VCHECK(S(q->value()) == S(v), "pull", addr, S(v), S(q->value()));
      }
    }
  }
}

// ---------------------------------------------------------------- requests of the mirror
struct requests
{
  std::vector<std::string> got;
  void add(std::string parent, parameter_data d) { got.push_back("add " + parent + " " + d.name); }
  void rem(std::string parent, std::string n) { got.push_back("remove " + parent + " " + n); }
  void ren(std::string node, std::string n) { got.push_back("rename " + node + " " + n); }
};
VP_SECTION(requests)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(5, 50); it-- > 0;)
  {
    srv s;
    if (!s.dev)
      return;
    int id = 0;
    apply(gen_node(3, id, true), s.root());
    requests q;
    s.dev->on_add_node_requested.connect<&requests::add>(q);
    s.dev->on_remove_node_requested.connect<&requests::rem>(q);
    s.dev->on_rename_node_requested.connect<&requests::ren>(q);
    clt c{s};
    VCHECK(c.p->update(c.root()), "update-answer");
    std::vector<node_base*> nodes;
    all_nodes(c.root(), nodes);
    std::vector<std::string> want;
    for (int step = 0; step < 12 && !nodes.empty(); step++)
    {
      auto n = r.pick(nodes);
      auto nn = name(id++);
      vp::M.at("request", n->osc_address() + " " + nn);
      int k = r.i(0, 2);
      vp::M.seen(vp::mix(k, vp::hash_str(n->osc_address())));
      if (k == 0)
      {
        parameter_data d;
        d.name = nn;
        auto& to = r.i(0, 3) ? *n : c.root();
        c.p->request_add_node(to, d);
        want.push_back("add " + to.osc_address() + " " + nn);
      }
      else if (k == 1)
      {
        c.p->request_remove_node(*n);
        want.push_back("remove " + n->get_parent()->osc_address() + " " + n->get_name());
      }
      else
      {
        c.p->request_rename_node(*n, nn);
        want.push_back("rename " + n->osc_address() + " " + nn);
      }
      wait_for([&] {
        s.p->run_commands();
        return q.got.size() >= want.size();
      });
      VCHECK(q.got.size() == want.size(), "request-once", q.got.size(), want.size(), want.back());
      if (q.got.size() != want.size())
        break;
      VCHECK(q.got.back() == want.back(), "request", q.got.back(), "instead of", want.back());
    }
    s.dev->on_add_node_requested.disconnect<&requests::add>(q);
    s.dev->on_remove_node_requested.disconnect<&requests::rem>(q);
    s.dev->on_rename_node_requested.disconnect<&requests::ren>(q);
  }
}

VP_SECTION(connections)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(5, 50); it-- > 0;)
  {
    auto s = std::make_unique<srv>();
    if (!s->dev)
      return;
    auto fill = [&](srv& x, int v) {
      auto p = create_node(x.root(), "/p").create_parameter(val_type::INT);
      p->set_value(v);
      return p;
    };
    auto sp = fill(*s, 1);
    std::vector<std::unique_ptr<clt>> cs;
    int in = 0, out = 0;
    for (int step = 0; step < 10; step++)
    {
      int k = r.i(0, 3);
      vp::M.seen(vp::mix(k, cs.size()));
      if (k <= 1 && cs.size() < 4)
      {
        vp::M.at("connect", vp::str(cs.size()));
        cs.push_back(std::make_unique<clt>(*s));
        in++;
        VCHECK(cs.back()->p->update(cs.back()->root()), "update-answer");
        VCHECK(wait_for([&] { return s->in == in; }), "client-connected", s->in.load(), in);
      }
      else if (k == 2 && !cs.empty())
      {
        vp::M.at("disconnect", vp::str(cs.size()));
        cs.erase(cs.begin() + r.i(0, (int)cs.size() - 1));
        out++;
        VCHECK(wait_for([&] { return s->out == out; }), "client-disconnected", s->out.load(), out);
      }
      int v = r.i(10, 1000000);
      sp->push_value(v);
      for (auto& c : cs)
      {
        auto p = c->find("/p");
        VCHECK(p && wait_for([&] { return S(p->value()) == S(ossia::value{v}); }), "push-connected", v, p ? S(p->value()) : "-");
      }
    }
    VCHECK(s->in == in && s->out == out, "connection-counts", s->in.load(), in, s->out.load(), out);
    // the server goes away, and comes back
    uint16_t osc = s->osc, ws = s->ws;
    for (auto& c : cs)
      VCHECK(c->opened == 1 && c->closed == 0 && c->failed == 0 && c->p->connected(), "still-connected", c->opened.load(), c->closed.load(), c->failed.load());
    vp::M.at("server-stops", vp::str(cs.size()));
    s.reset();
    for (auto& c : cs)
    {
      VCHECK(wait_for([&] { return !c->p->connected(); }), "server-lost");
      VCHECK(wait_for([&] { return c->closed + c->failed == 1; }), "server-lost-signal", c->closed.load(), c->failed.load());
      auto p = c->find("/p");
      vp::no_throw("push-unconnected", [&] { p->push_value(5); });
    }
    if (r.b())
    {
      s = std::make_unique<srv>("back", osc, ws);
      if (!s->dev)
        return;
      sp = fill(*s, 77);
      for (auto& c : cs)
      {
        vp::M.at("reconnect", "");
        if (r.b())
          c->p->stop();
        if (!vp::no_throw("reconnect", [&] { c->p->connect(); }))
          break;
        c->ready(*s);
        VCHECK(c->p->connected() && c->opened == 2, "reconnected", c->opened.load());
        VCHECK(c->p->update(c->root()), "update-answer");
        VCHECK(S(c->find("/p")->value()) == S(ossia::value{77}), "reconnect-value", S(c->find("/p")->value()));
        VCHECK(c->p->get_host_info().name == "back", "reconnect-name", c->p->get_host_info().name);
        sp->push_value(78);
        VCHECK(wait_for([&] { return S(c->find("/p")->value()) == S(ossia::value{78}); }), "reconnect-push");
        sp->set_value(77);
      }
    }
  }
}

// ---------------------------------------------------------------- other peers
static std::string http(uint16_t port, const std::string& req, int cut = 0)
{
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  timeval tv{10, 0};
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(port);
  std::string out;
  if (::connect(fd, (sockaddr*)&a, sizeof a) == 0)
  {
    ::send(fd, req.data(), req.size(), MSG_NOSIGNAL);
    char buf[4096];
    if (!cut)
      for (ssize_t n; (n = ::recv(fd, buf, sizeof buf, 0)) > 0;)
        out.append(buf, n);
  }
  ::close(fd);
  return out;
}
static std::string url(const std::string& path)
{
  std::string s;
  for (char c : path)
    if (c == ' ')
      s += "%20";
    else
      s += c;
  return s;
}
VP_SECTION(peers)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(6, 60); it-- > 0;)
  {
    srv s;
    if (!s.dev)
      return;
    int id = 0;
    apply(gen_node(3, id, true), s.root());
    auto get = [&](const std::string& p) { return http(s.ws, "GET " + p + " HTTP/1.1\r\nHost: localhost\r\n\r\n"); };
    auto body = [](const std::string& t) {
      auto i = t.find("\r\n\r\n");
      return i == t.npos ? std::string{} : t.substr(i + 4);
    };
    std::vector<node_base*> nodes;
    all_nodes(s.root(), nodes);
    nodes.push_back(&s.root());
    for (int k = 0; k < 12; k++)
    {
      auto n = r.pick(nodes);
      auto addr = n->osc_address();
      vp::M.at("http", addr);
      vp::M.seen(vp::hash_str(addr));
      switch (r.i(0, 4))
      {
        case 0:
        {
          auto t = get(url(addr));
          VCHECK(t.compare(0, 12, "HTTP/1.1 200") == 0, "http-status", t.substr(0, 40));
          VCHECK(t.find("application/json") != t.npos, "http-type", t.substr(0, 300));
          VCHECK(body(t) == js(oq::json_writer::query_namespace(*n)), "http-body", addr, body(t).substr(0, 200));
          break;
        }
        case 1:
        {
          auto t = get(url(addr == "/" ? "" : addr) + "/nowhere/at-all");
          VCHECK(t.compare(0, 12, "HTTP/1.1 404") == 0, "http-404", t.substr(0, 40));
          break;
        }
        case 2:
          if (n->get_parameter())
          {
            auto t = get(url(addr) + "?ACCESS");
            VCHECK(t.compare(0, 12, "HTTP/1.1 200") == 0, "http-attribute", t.substr(0, 40));
            VCHECK(body(t) == js(oq::json_writer::query_attributes(*n, std::vector<std::string>{"ACCESS"})), "http-attribute", body(t));
          }
          break;
        case 3:
        {
          // nothing that makes sense
          std::string junk = "GET " + url(addr) + " HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: "
                             "dGhlIHNhbXBsZSBub25jZQ==\r\nHost: x\r\n\r\n";
          for (int i = r.i(0, 40); i > 0; i--)
            junk += (char)r.i(0, 255);
          for (int i = r.i(0, 3); i > 0; i--)
            junk[r.i(0, (int)junk.size() - 1)] = (char)r.i(0, 255);
          http(s.ws, junk, 1);
          break;
        }
        default:
        {
          int fd = ::socket(AF_INET, SOCK_DGRAM, 0);
          sockaddr_in a{};
          a.sin_family = AF_INET;
          a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
          a.sin_port = htons(s.osc);
          std::string junk(r.i(1, 60), 0);
          for (auto& c : junk)
            c = (char)r.i(0, 255);
          ::sendto(fd, junk.data(), junk.size(), 0, (sockaddr*)&a, sizeof a);
          ::close(fd);
        }
      }
    }
    clt c{s};
    VCHECK(c.p->connected() && c.p->update(c.root()), "alive");
    compare(s.root(), c.root(), "alive", "");
  }
}

// ---------------------------------------------------------------- everybody at once
VP_SECTION(mt_traffic)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(4, 24); it-- > 0;)
  {
    srv s;
    if (!s.dev)
      return;
    bool echo = r.b();
    s.dev->set_echo(echo);
    int nc = r.i(1, 3), len = vp::M.n(150, 400);
    // one critical parameter for each talker; the last one is the server's
    for (int i = 0; i <= nc; i++)
    {
      auto& n = create_node(s.root(), "/t" + std::to_string(i));
      n.create_parameter(val_type::INT)->set_value(0);
      set_critical(n, true);
    }
    std::vector<std::unique_ptr<clt>> cs;
    for (int i = 0; i < nc; i++)
    {
      cs.push_back(std::make_unique<clt>(s));
      VCHECK(cs.back()->p->update(cs.back()->root()), "update-answer");
    }
    std::vector<std::vector<std::unique_ptr<watch>>> w(nc + 1);
    auto param = [&](int who, int i) {
      auto n = find_node(who == nc ? s.root() : cs[who]->root(), "/t" + std::to_string(i));
      return n ? n->get_parameter() : nullptr;
    };
    for (int who = 0; who <= nc; who++)
      for (int i = 0; i <= nc; i++)
      {
        w[who].push_back(std::make_unique<watch>());
        auto p = param(who, i);
        if (!VCHECK(p, "traffic-param"))
          return;
        p->add_callback([x = w[who].back().get()](const ossia::value& v) {
          std::lock_guard l{x->m};
          x->got.push_back(v);
        });
      }
    std::this_thread::sleep_for(10ms);
    vp::M.at("traffic", vp::str("clients ", nc, " echo ", echo));
    std::vector<std::thread> th;
    std::atomic_bool stop{};
    for (int i = 0; i <= nc; i++)
      th.emplace_back([&, i, p = param(i, i)] {
        for (int k = 1; k <= len; k++)
          p->push_value(k);
      });
    // others come and go in the meantime
    int visitors = r.i(0, 3);
    for (int k = 0; k < visitors; k++)
    {
      clt v{s, "visitor"};
      VCHECK(v.p->connected(), "visitor");
    }
    for (auto& t : th)
      t.join();
    for (int who = 0; who <= nc; who++)
      for (int i = 0; i <= nc; i++)
      {
        // its own, the server's to the clients, the clients' to the server, and to the other clients when it echoes
        bool expected = who == i || who == nc || i == nc || echo;
        auto& x = *w[who][i];
        size_t want = expected ? len : 0;
        wait_for([&] { return x.count() >= want; });
        std::lock_guard l{x.m};
        VCHECK(x.got.size() == want, "traffic-once", "of", i, "at", who, "clients", nc, "echo", echo, x.got.size(), want);
        bool order = true;
        for (size_t k = 0; k < x.got.size(); k++)
          order &= x.got[k] == ossia::value{int(k + 1)};
        VCHECK(order, "traffic-order", "of", i, "at", who, "clients", nc, "echo", echo);
      }
    vp::M.seen(nc * 8 + echo * 4 + visitors);
  }
}
VP_MAIN
