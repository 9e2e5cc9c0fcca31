// Expressions: their truth, their observation, and their comparison.
#include "values.hpp"
#include <ossia/detail/logger.hpp>
#include <ossia/editor/expression/expression.hpp>
#include <ossia/editor/expression/expression_atom.hpp>
#include <ossia/editor/expression/expression_bool.hpp>
#include <ossia/editor/expression/expression_composition.hpp>
#include <ossia/editor/expression/expression_generic.hpp>
#include <ossia/editor/expression/expression_not.hpp>
#include <ossia/editor/expression/expression_pulse.hpp>
#include <ossia/editor/expression/operators.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/value/value_algorithms.hpp>
#include <atomic>
#include <list>
#include <thread>
#include <set>
using T = ossia::val_type;
namespace ex = ossia::expressions;
namespace net = ossia::net;
using vp::M;

// counts what is asked to the network
struct spy final : net::protocol_base
{
  std::map<const net::parameter_base*, int> pulls, observed;
  std::map<const net::parameter_base*, ossia::value> pending;
  bool pull(net::parameter_base& p) override
  {
    pulls[&p]++;
    auto it = pending.find(&p);
    if (it != pending.end())
      p.set_value(it->second);
    return true;
  }
  bool push(const net::parameter_base&, const ossia::value&) override { return true; }
  bool push_raw(const net::full_parameter_data&) override { return true; }
  bool observe(net::parameter_base& p, bool b) override
  {
    observed[&p] += b ? 1 : -1;
    return true;
  }
  bool update(net::node_base&) override { return false; }
};

struct user_expr final : ex::expression_generic_base
{
  struct state
  {
    bool result{};
    int updates{}, first{}, last{}, alive{};
    ex::expression_generic* observed{};
  };
  std::shared_ptr<state> s;
  explicit user_expr(std::shared_ptr<state> st) : s{st} { s->alive++; }
  ~user_expr() override { s->alive--; }
  void update() override { s->updates++; }
  bool evaluate() const override { return s->result; }
  void on_first_callback_added(ex::expression_generic& g) override
  {
    s->first++;
    s->observed = &g;
  }
  void on_removing_last_callback(ex::expression_generic&) override
  {
    s->last++;
    s->observed = nullptr;
  }
};

enum class kind { atom, boolean, comp, negation, pulse, generic };
struct operand
{
  bool dest{};
  ossia::value v;
  int p{};
  ossia::destination_index idx;
  ossia::unit_t unit;
};
struct node
{
  kind k;
  bool b{};
  ex::comparator cmp{};
  ex::binary_operator op{};
  operand l, r;
  std::vector<node> sub;
  std::shared_ptr<user_expr::state> user;
  bool fired{}; // pulse
  ex::expression_base* made{};
};

struct world
{
  spy* proto{};
  std::unique_ptr<net::generic_device> dev;
  std::vector<net::parameter_base*> ps;
  world()
  {
    auto s = std::make_unique<spy>();
    proto = s.get();
    dev = std::make_unique<net::generic_device>(std::move(s), "dev");
    for (auto t : {T::INT, T::FLOAT, T::LIST, T::VEC3F, T::STRING, T::BOOL})
      ps.push_back(dev->create_child("p")->create_parameter(t));
    ps[1]->set_unit(ossia::parse_pretty_unit("angle.degree"));
    ps[3]->set_unit(ossia::parse_pretty_unit("position.cart3D"));
    ps[0]->push_value(1);
    ps[2]->push_value(std::vector<ossia::value>{1, 2.f, std::vector<ossia::value>{3, 4}});
  }
  ossia::destination dest(const operand& o) { return {*ps[o.p], o.idx, o.unit}; }
};

static ossia::value small_value()
{
  switch (M.r.i(0, 7))
  {
    case 0: return M.r.i(-1, 2);
    case 1: return float(M.r.i(-2, 4)) / 2.f;
    case 2: return M.r.b();
    case 3: return M.r.pick(std::vector<std::string>{"", "a", "b", "1"});
    case 4: return ossia::make_vec(float(M.r.i(0, 1)), float(M.r.i(0, 1)), 0.f);
    case 5: return std::vector<ossia::value>{M.r.i(0, 2), float(M.r.i(0, 2)), std::vector<ossia::value>{M.r.i(0, 3), 4}};
    case 6: return char('a' + M.r.i(0, 2));
    default: return M.r.i(0, 1);
  }
}
static operand some_operand()
{
  operand o;
  o.dest = M.r.b(3, 4);
  if (!o.dest)
  {
    o.v = small_value();
    return o;
  }
  o.p = M.r.i(0, 5);
  if (o.p == 2 && M.r.b())
    o.idx = M.r.b() ? ossia::destination_index{M.r.i(0, 1)} : ossia::destination_index{2, M.r.i(0, 1)};
  if (o.p == 3 && M.r.b())
    o.idx = ossia::destination_index{M.r.i(0, 2)};
  if (o.p == 1 && M.r.b())
    o.unit = ossia::parse_pretty_unit(M.r.b() ? "angle.radian" : "angle.degree");
  if (o.p == 3 && M.r.b())
    o.unit = ossia::parse_pretty_unit(M.r.b() ? "position.openGL" : "position.cart3D");
  return o;
}
static node some_expr(int depth)
{
  node n;
  int k = depth <= 0 ? M.r.pick(std::vector<int>{0, 0, 0, 1, 4, 5}) : M.r.i(0, 5);
  n.k = kind(k);
  switch (n.k)
  {
    case kind::atom:
      n.cmp = ex::comparator(M.r.i(0, 5));
      n.l = some_operand();
      n.r = some_operand();
      break;
    case kind::boolean: n.b = M.r.b(); break;
    case kind::comp:
      n.op = ex::binary_operator(M.r.i(0, 2));
      n.sub.push_back(some_expr(depth - 1));
      n.sub.push_back(some_expr(depth - 1));
      break;
    case kind::negation: n.sub.push_back(some_expr(depth - 1)); break;
    case kind::pulse:
      n.l = some_operand();
      n.l.dest = true;
      n.l.unit = {};
      n.l.idx = {};
      break;
    case kind::generic:
      n.user = std::make_shared<user_expr::state>();
      n.user->result = M.r.b();
      break;
  }
  return n;
}

static ossia::expression_ptr make(world& w, node& n)
{
  ossia::expression_ptr p;
  switch (n.k)
  {
    case kind::atom:
    {
      using val_t = ex::expression_atom::val_t;
      if (M.r.b())
      {
        val_t l = n.l.dest ? val_t{w.dest(n.l)} : val_t{n.l.v}, r = n.r.dest ? val_t{w.dest(n.r)} : val_t{n.r.v};
        p = M.r.b() ? ex::make_expression_atom((const val_t&)l, n.cmp, (const val_t&)r) : ex::make_expression_atom(std::move(l), n.cmp, std::move(r));
      }
      else if (n.l.dest && n.r.dest)
        p = ex::make_expression_atom(w.dest(n.l), n.cmp, w.dest(n.r));
      else if (n.l.dest)
        p = ex::make_expression_atom(w.dest(n.l), n.cmp, n.r.v);
      else if (n.r.dest)
        p = ex::make_expression_atom(n.l.v, n.cmp, w.dest(n.r));
      else
        p = ex::make_expression_atom(n.l.v, n.cmp, n.r.v);
      break;
    }
    case kind::boolean: p = M.r.b() ? ex::make_expression_bool(n.b) : n.b ? ex::make_expression_true() : ex::make_expression_false(); break;
    case kind::comp:
    {
      auto a = make(w, n.sub[0]);
      auto b = make(w, n.sub[1]);
      p = ex::make_expression_composition(std::move(a), n.op, std::move(b));
      break;
    }
    case kind::negation: p = ex::make_expression_not(make(w, n.sub[0])); break;
    case kind::pulse: p = ex::make_expression_pulse(w.dest(n.l)); break;
    case kind::generic: p = ex::make_expression_generic<user_expr>(n.user); break;
  }
  n.made = p.get();
  return p;
}

static ossia::value at(const ossia::value& v, const ossia::destination_index& idx)
{
  ossia::value c = v;
  for (auto i : idx)
  {
    if (c.get_type() == T::LIST)
    {
      auto l = c.get<std::vector<ossia::value>>();
      if (i >= int(l.size()))
        return {};
      c = l[i];
    }
    else if (c.get_type() == T::VEC3F)
      c = c.get<ossia::vec3f>()[i];
    else
      return {};
  }
  return c;
}
static ossia::value read(world& w, const operand& o)
{
  if (!o.dest)
    return o.v;
  auto v = w.ps[o.p]->value();
  if (o.unit && o.unit != w.ps[o.p]->get_unit())
    v = ossia::convert(v, w.ps[o.p]->get_unit(), o.unit);
  return at(v, o.idx);
}
static bool eval(world& w, const node& n)
{
  switch (n.k)
  {
    case kind::atom:
    {
      auto l = read(w, n.l), r = read(w, n.r);
      using c = ex::comparator;
      switch (n.cmp)
      {
        case c::EQUAL: return l == r;
        case c::DIFFERENT: return l != r;
        case c::GREATER: return l > r;
        case c::LOWER: return l < r;
        case c::GREATER_EQUAL: return l >= r;
        case c::LOWER_EQUAL: return l <= r;
      }
      return false;
    }
    case kind::boolean: return n.b;
    case kind::comp:
    {
      bool a = eval(w, n.sub[0]), b = eval(w, n.sub[1]);
      return n.op == ex::binary_operator::AND ? (a && b) : n.op == ex::binary_operator::OR ? (a || b) : (a != b);
    }
    case kind::negation: return !eval(w, n.sub[0]);
    case kind::pulse: return n.fired;
    case kind::generic: return n.user->result;
  }
  return false;
}
static std::string show(const operand& o)
{
  if (!o.dest)
    return mv::S(o.v);
  std::string s = "p" + vp::str(o.p);
  for (auto i : o.idx)
    s += "." + vp::str(i);
  if (o.unit)
    s += "@" + std::string(ossia::get_pretty_unit_text(o.unit));
  return s;
}
static std::string show(const node& n)
{
  static const char* c[] = {"==", "!=", ">", "<", ">=", "<="};
  static const char* b[] = {"and", "or", "xor"};
  switch (n.k)
  {
    case kind::atom: return "(" + show(n.l) + c[int(n.cmp)] + show(n.r) + ")";
    case kind::boolean: return n.b ? "true" : "false";
    case kind::comp: return "(" + show(n.sub[0]) + " " + b[int(n.op)] + " " + show(n.sub[1]) + ")";
    case kind::negation: return "not " + show(n.sub[0]);
    case kind::pulse: return "pulse p" + vp::str(n.l.p);
    case kind::generic: return "user";
  }
  return {};
}
template <typename F>
static void each(node& n, F&& f)
{
  f(n);
  for (auto& s : n.sub)
    each(s, f);
}
// how many notifications of n a change of parameter p gives
static int leaves(world& w, const node& n, int p)
{
  switch (n.k)
  {
    case kind::atom: return (n.l.dest && n.l.p == p && read(w, n.l).valid()) + (n.r.dest && n.r.p == p && read(w, n.r).valid());
    case kind::pulse: return n.l.p == p;
    default:
    {
      int s = 0;
      for (auto& c : n.sub)
        s += leaves(w, c, p);
      return s;
    }
  }
}
static int holds(const node& n, const user_expr::state* u)
{
  int s = n.user.get() == u;
  for (auto& c : n.sub)
    s += holds(c, u);
  return s;
}

struct watcher
{
  node* n;
  ex::expression_callback_iterator it;
  std::vector<bool> got;
  bool consistent = true;
};

// number of callbacks the library should have put on each parameter and node
static void expected(const node& n, bool parent, const std::map<const node*, int>& own, std::map<int, int>& on_params, std::map<const node*, int>& on_nodes)
{
  auto it = own.find(&n);
  int o = (it == own.end() ? 0 : it->second) + parent;
  on_nodes[&n] = o;
  if (n.k == kind::pulse)
    on_params[n.l.p]++;
  if (n.k == kind::atom && o)
  {
    if (n.l.dest)
      on_params[n.l.p]++;
    if (n.r.dest)
      on_params[n.r.p]++;
  }
  for (auto& c : n.sub)
    expected(c, o > 0, own, on_params, on_nodes);
}

VP_SECTION(histories)
{
  for (int it = 0; it < M.n(400, 12000); it++)
  {
    world w;
    node root = some_expr(M.r.i(0, 4));
    auto text = show(root);
    M.at("expr", text);
    auto e = make(w, root);
    std::vector<node*> all;
    each(root, [&](node& n) { all.push_back(&n); });
    VCHECK(e->which() == size_t(root.k == kind::atom ? 0 : root.k == kind::boolean ? 1 : root.k == kind::comp ? 2 : root.k == kind::negation ? 3 : root.k == kind::pulse ? 4 : 5), "expr.kind", text);
    std::list<watcher> ws;
    std::string hist;
    for (int op = 0, K = M.r.i(3, 40); op < K; op++)
    {
      M.at("expr", vp::str(text, ":", hist));
      for (auto& x : ws)
        x.got.clear();
      std::map<const watcher*, int> want;
      bool counted = true;
      switch (M.r.i(0, 7))
      {
        case 0:
        case 1:
        case 2:
        {
          int p = M.r.i(0, 5);
          auto v = M.r.b(1, 3) ? w.ps[p]->value() : small_value();
          bool quiet = M.r.b(1, 5);
          hist += vp::str(quiet ? " quiet" : " set", " p", p, "=", mv::S(v));
          if (quiet)
            w.ps[p]->set_value_quiet(v);
          else
          {
            if (M.r.b())
              w.ps[p]->set_value(v);
            else
              w.ps[p]->push_value(v);
            for (auto n : all)
              if (n->k == kind::pulse && n->l.p == p)
                n->fired = true;
            for (auto& x : ws)
              want[&x] = leaves(w, *x.n, p);
          }
          break;
        }
        case 3:
        {
          hist += " update";
          std::map<int, int> pulls;
          std::map<const user_expr::state*, int> before;
          node* n = M.r.b() ? &root : M.r.pick(all);
          each(*n, [&](node& m) {
            if (m.k == kind::atom)
            {
              if (m.l.dest)
                pulls[m.l.p]++;
              if (m.r.dest)
                pulls[m.r.p]++;
            }
            if (m.k == kind::pulse)
              m.fired = false;
            if (m.k == kind::generic)
              before[m.user.get()] = m.user->updates;
          });
          w.proto->pulls.clear();
          ex::update(*n->made);
          bool ok = true;
          for (int p = 0; p < 6; p++)
            ok &= w.proto->pulls[w.ps[p]] == pulls[p];
          each(*n, [&](node& m) {
            if (m.k == kind::generic)
              ok &= m.user->updates == before[m.user.get()] + 1;
          });
          VCHECK(ok, "expr.update", text, ":", hist);
          break;
        }
        case 4:
        {
          auto n = M.r.b() ? &root : M.r.pick(all);
          hist += " watch " + show(*n);
          ws.emplace_back();
          ws.back().n = n;
          auto x = &ws.back();
          x->it = ex::add_callback(*n->made, [x](bool r) {
            x->got.push_back(r);
            x->consistent &= r == ex::evaluate(*x->n->made);
          });
          break;
        }
        case 5:
          if (!ws.empty())
          {
            auto x = std::next(ws.begin(), M.r.i(0, int(ws.size()) - 1));
            hist += " unwatch " + show(*x->n);
            ex::remove_callback(*x->n->made, x->it);
            ws.erase(x);
          }
          break;
        case 6:
        {
          std::vector<node*> g;
          for (auto n : all)
            if (n->k == kind::generic)
              g.push_back(n);
          if (!g.empty())
          {
            auto n = M.r.pick(g);
            n->user->result = M.r.b();
            hist += n->user->result ? " user true" : " user false";
            if (n->user->observed)
            {
              n->user->observed->send(n->user->result);
              for (auto& x : ws)
                want[&x] = holds(*x.n, n->user.get());
            }
          }
          break;
        }
        case 7: // the network answers to an update
        {
          int p = M.r.i(0, 5);
          auto v = small_value();
          bool pulses = false;
          each(root, [&](node& m) { pulses |= m.k == kind::pulse; });
          if (pulses)
            break;
          hist += vp::str(" answer p", p, "=", mv::S(v));
          w.proto->pending[w.ps[p]] = v;
          ex::update(*e);
          w.proto->pending.clear();
          counted = false;
          break;
        }
      }
      VCHECK(ex::evaluate(*e) == eval(w, root) && ex::evaluate(e) == eval(w, root), "expr.evaluate", text, ":", hist);
      for (auto& x : ws)
      {
        VCHECK(!counted || int(x.got.size()) == want[&x], "expr.notified", text, ":", hist, " ", show(*x.n), " notified ", x.got.size(), " times, expected ", want[&x]);
        VCHECK(x.consistent, "expr.notified_truth", text, ":", hist, " ", show(*x.n));
        VCHECK(x.got.empty() || x.got.back() == eval(w, *x.n), "expr.notified_last", text, ":", hist, " ", show(*x.n));
      }
      std::map<const node*, int> own;
      for (auto& x : ws)
        own[x.n]++;
      std::map<int, int> on_params;
      std::map<const node*, int> on_nodes;
      expected(root, false, own, on_params, on_nodes);
      bool ok = true;
      for (int p = 0; p < 6; p++)
        ok &= int(w.ps[p]->callback_count()) == on_params[p] && w.proto->observed[w.ps[p]] == (on_params[p] > 0);
      VCHECK(ok, "expr.observation", text, ":", hist);
      for (auto n : all)
      {
        VCHECK(int(ex::callback_count(*n->made)) == on_nodes[n], "expr.callback_count", text, ":", hist, " ", show(*n));
        if (n->user)
          VCHECK(n->user->first - n->user->last == (on_nodes[n] > 0) && (n->user->observed != nullptr) == (on_nodes[n] > 0), "expr.user_observation", text, ":", hist);
        VCHECK(ex::evaluate(*n->made) == eval(w, *n), "expr.evaluate", text, ":", hist, " ", show(*n));
      }
      M.seen(vp::mix(vp::hash_str(text), vp::hash_str(hist)));
    }
    // the end of the expression is the end of its observations
    e.reset();
    for (int p = 0; p < 6; p++)
      VCHECK(w.ps[p]->callback_count() == 0, "expr.death", text, ":", hist, " p", p, " ", w.ps[p]->callback_count());
    for (auto n : all)
      if (n->user)
        VCHECK(n->user->alive == 0, "expr.death_user", text);
    for (auto& x : ws)
      x.got.clear();
    for (auto p : w.ps)
      p->set_value(1);
    for (auto& x : ws)
      VCHECK(x.got.empty(), "expr.after_death", text, ":", hist);
    if (it < 3)
      M.sample(text + ":" + hist);
  }
}

// every accessor gives what was given
VP_SECTION(accessors)
{
  for (int it = 0; it < M.n(300, 5000); it++)
  {
    world w;
    node root = some_expr(3);
    auto e = make(w, root);
    auto text = show(root);
    M.at("expr.accessors", text);
    each(root, [&](node& n) {
      auto& x = *n.made;
      switch (n.k)
      {
        case kind::atom:
        {
          auto a = x.target<ex::expression_atom>();
          VCHECK(a && a->get_operator() == n.cmp, "expr.atom_operator", text);
          auto same = [&](const ex::expression_atom::val_t& v, const operand& o) {
            if (auto d = v.target<ossia::destination>())
              return o.dest && &d->address() == w.ps[o.p] && d->index == o.idx && d->unit == o.unit;
            return !o.dest && mv::same(mv::from(o.v), *v.target<ossia::value>());
          };
          VCHECK(same(a->get_first_operand(), n.l) && same(a->get_second_operand(), n.r), "expr.atom_operands", text);
          // the comparison itself
          auto l = small_value(), r = small_value();
          node c = n;
          c.l = operand{false, l};
          c.r = operand{false, r};
          VCHECK((*a)(l, r) == eval(w, c), "expr.compare", int(n.cmp), " ", mv::S(l), " ", mv::S(r));
          if (n.l.dest)
          {
            c.l = n.l;
            VCHECK((*a)(w.dest(n.l), r) == eval(w, c), "expr.compare_dest", int(n.cmp), show(n.l), " ", mv::S(r));
            std::swap(c.l, c.r);
            VCHECK((*a)(r, w.dest(n.l)) == eval(w, c), "expr.compare_dest", int(n.cmp), mv::S(r), " ", show(n.l));
            c.l = n.l;
            c.r = n.l;
            VCHECK((*a)(w.dest(n.l), w.dest(n.l)) == eval(w, c), "expr.compare_dest", int(n.cmp), show(n.l));
          }
          break;
        }
        case kind::boolean: VCHECK(x.target<ex::expression_bool>() && ex::evaluate(x) == n.b, "expr.bool", text); break;
        case kind::comp:
        {
          auto a = x.target<ex::expression_composition>();
          VCHECK(a && a->get_operator() == n.op && &a->get_first_operand() == n.sub[0].made && &a->get_second_operand() == n.sub[1].made, "expr.composition", text);
          break;
        }
        case kind::negation: VCHECK(x.target<ex::expression_not>() && &x.target<ex::expression_not>()->get_expression() == n.sub[0].made, "expr.not", text); break;
        case kind::pulse: VCHECK(x.target<ex::expression_pulse>() && &x.target<ex::expression_pulse>()->get_destination().address() == w.ps[n.l.p], "expr.pulse", text); break;
        case kind::generic: VCHECK(x.target<ex::expression_generic>() && dynamic_cast<user_expr*>(x.target<ex::expression_generic>()->expr.get()), "expr.generic", text); break;
      }
      M.seen(vp::hash_str(show(n)));
    });
  }
  // the constants
  VCHECK(ex::evaluate(ex::expression_true()) && !ex::evaluate(ex::expression_false()), "expr.constants", "");
  VCHECK(&ex::expression_true() == &ex::expression_true() && ex::expression_true() == *ex::make_expression_true() && ex::expression_false() == *ex::make_expression_false() && ex::expression_true() != ex::expression_false(), "expr.constants", "");
  // what cannot be an expression is refused
  world w;
  ossia::destination d{*w.ps[0]};
  VCHECK(vp::throws([&] { ex::make_expression_composition(ossia::expression_ptr{}, ex::binary_operator::AND, ex::make_expression_true()); }), "expr.refused", "null first");
  VCHECK(vp::throws([&] { ex::make_expression_composition(ex::make_expression_true(), ex::binary_operator::AND, ossia::expression_ptr{}); }), "expr.refused", "null second");
  VCHECK(vp::throws([&] { ex::make_expression_not(ossia::expression_ptr{}); }), "expr.refused", "null not");
  VCHECK(vp::throws([&] { ex::make_expression_atom(ossia::value{}, ex::comparator::EQUAL, ossia::value{1}); }), "expr.refused", "unset first");
  VCHECK(vp::throws([&] { ex::make_expression_atom(ossia::value{1}, ex::comparator::EQUAL, ossia::value{}); }), "expr.refused", "unset second");
  VCHECK(vp::throws([&] { ex::make_expression_atom(d, ex::comparator::EQUAL, ossia::value{}); }), "expr.refused", "unset second");
  VCHECK(vp::throws([&] { ex::make_expression_atom(ossia::value{}, ex::comparator::EQUAL, d); }), "expr.refused", "unset first");
  VCHECK(w.ps[0]->callback_count() == 0, "expr.refused", "still observes");
}

static bool same_operand(world& w, const operand& a, const operand& b)
{
  if (a.dest != b.dest)
    return false;
  return a.dest ? a.p == b.p && a.idx == b.idx : a.v == b.v;
}
static bool same_expr(world& w, const node& a, const node& b)
{
  if (a.k != b.k)
    return false;
  switch (a.k)
  {
    case kind::atom: return a.cmp == b.cmp && same_operand(w, a.l, b.l) && same_operand(w, a.r, b.r);
    case kind::boolean: return a.b == b.b;
    case kind::comp: return a.op == b.op && same_expr(w, a.sub[0], b.sub[0]) && same_expr(w, a.sub[1], b.sub[1]);
    case kind::negation: return same_expr(w, a.sub[0], b.sub[0]);
    case kind::pulse: return a.l.p == b.l.p && a.l.idx == b.l.idx;
    case kind::generic: return false;
  }
  return false;
}
VP_SECTION(comparison)
{
  for (int it = 0; it < M.n(2000, 40000); it++)
  {
    world* wp;
    static world shared;
    wp = &shared;
    world& w = *wp;
    node a = some_expr(M.r.i(0, 3)), b = M.r.b(1, 4) ? some_expr(M.r.i(0, 1)) : a;
    each(b, [&](node& n) {
      if (n.k == kind::generic)
      {
        n.user = std::make_shared<user_expr::state>();
      }
      if (!M.r.b(1, 8))
        return;
      switch (n.k)
      {
        case kind::atom:
          if (M.r.b())
            n.cmp = ex::comparator(M.r.i(0, 5));
          else
            (M.r.b() ? n.l : n.r) = some_operand();
          break;
        case kind::boolean: n.b = !n.b; break;
        case kind::comp: n.op = ex::binary_operator(M.r.i(0, 2)); break;
        case kind::pulse: n.l.p = M.r.i(0, 5); break;
        default: break;
      }
    });
    M.at("expr.equal", vp::str(show(a), " and ", show(b)));
    auto x = make(w, a), y = make(w, b);
    bool s = same_expr(w, a, b);
    VCHECK((*x == *y) == s && (*y == *x) == s && (*x != *y) == !s && (*y != *x) == !s, "expr.equal", show(a), " and ", show(b), s ? " should be equal" : " should differ");
    M.seen(vp::hash_str(show(a) + "/" + show(b)));
  }
}

// a parameter changed by the network while the expression is evaluated
VP_SECTION(mt_evaluate)
{
  for (int it = 0; it < M.n(20, 200); it++)
  {
    world w;
    node root;
    do
      root = some_expr(3);
    while (show(root).find("user") != std::string::npos);
    auto text = show(root);
    M.at("expr.mt", text);
    auto e = make(w, root);
    std::atomic_int got{}, sent{};
    auto idx = ex::add_callback(*e, [&](bool) { got++; });
    std::vector<std::pair<int, ossia::value>> todo[2];
    for (auto& t : todo)
      for (int k = 0; k < 60; k++)
      {
        int p = M.r.i(0, 5);
        // keeps the indices valid
        if (p == 2)
          p = 0;
        todo[&t - todo].push_back({p, small_value()});
      }
    int expected_calls = 0;
    for (auto& t : todo)
      for (auto& [p, v] : t)
        expected_calls += leaves(w, root, p);
    std::atomic_bool go{};
    auto run = [&](int i) {
      while (!go)
        ;
      for (auto& [p, v] : todo[i])
        w.ps[p]->set_value(v);
    };
    std::thread a{run, 0}, b{run, 1};
    go = true;
    int trues = 0;
    for (int k = 0; k < 100; k++)
    {
      trues += ex::evaluate(*e);
      if (k % 10 == 0)
        ex::update(*e);
    }
    a.join();
    b.join();
    VCHECK(got == expected_calls, "expr.mt_notified", text, " ", got.load(), " of ", expected_calls);
    ex::remove_callback(*e, idx);
    each(root, [&](node& n) { n.fired = false; });
    ex::update(*e);
    VCHECK(ex::evaluate(*e) == eval(w, root), "expr.mt_final", text);
    M.seen(vp::mix(vp::hash_str(text), trues));
  }
}

// expression callbacks come and go while other threads set the parameters
VP_SECTION(mt_observe)
{
  for (int it = 0; it < M.n(15, 200); it++)
  {
    world w;
    node root;
    do
      root = some_expr(2);
    while (show(root).find("user") != std::string::npos);
    auto text = show(root);
    M.at("expr.mt_observe", text);
    auto e = make(w, root);
    std::map<net::parameter_base*, std::size_t> before;
    for (auto p : w.ps)
      before[p] = p->callback_count();
    std::vector<std::pair<int, ossia::value>> todo[2];
    for (auto& t : todo)
      for (int k = 0; k < 60; k++)
      {
        int p = M.r.i(0, 5);
        if (p == 2)
          p = 0;
        todo[&t - todo].push_back({p, small_value()});
      }
    std::atomic_bool go{};
    std::atomic_int running{2}, got{}, after{};
    auto run = [&](int i) {
      while (!go)
        ;
      for (auto& [p, v] : todo[i])
        w.ps[p]->set_value(v);
      running--;
    };
    std::thread a{run, 0}, b{run, 1};
    go = true;
    int rounds = 0;
    while (running > 0 || rounds < 5)
    {
      auto removed = std::make_shared<std::atomic_bool>(false);
      auto cb = [&, removed](bool) {
        got++;
        if (*removed)
          after++;
      };
      auto x = ex::add_callback(*e, cb);
      auto y = ex::add_callback(*e, cb);
      std::this_thread::yield();
      ex::remove_callback(*e, x);
      ex::remove_callback(*e, y);
      *removed = true;
      rounds++;
    }
    a.join();
    b.join();
    VCHECK(after == 0, "expr.mt_removed", text, " ", after.load(), " calls of a removed callback");
    for (auto p : w.ps)
      VCHECK(p->callback_count() == before[p], "expr.mt_left", text);
    M.seen(vp::mix(vp::hash_str(text), got));
  }
}
VP_MAIN
