// C22: the execution of scenarios, intervals, events and synchronisations.
// Everything the engine does is recorded through its public callbacks and
// through recording processes; each transition is judged when it happens
// against a shadow state built from that record, each tick when it ends.
#include "vp.hpp"

#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/nodes/forward_node.hpp>
#include <ossia/dataflow/nodes/state.hpp>
#include <ossia/dataflow/token_request.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>
#include <ossia/editor/expression/expression.hpp>
#include <ossia/editor/loop/loop.hpp>
#include <ossia/editor/scenario/clock.hpp>
#include <ossia/editor/scenario/scenario.hpp>
#include <ossia/editor/scenario/time_event.hpp>
#include <ossia/editor/scenario/time_interval.hpp>
#include <ossia/editor/scenario/time_process.hpp>
#include <ossia/editor/scenario/time_sync.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>

#include <thread>

using vp::M;
using namespace ossia;
namespace ex = ossia::expressions;
using st_t = time_event::status;

static st_t base(st_t s) { return st_t(uint8_t(s) & 3); }
static bool happened(st_t s) { return base(s) == st_t::HAPPENED; }
static bool disposed(st_t s) { return base(s) == st_t::DISPOSED; }
static constexpr int64_t INF = -1;

// ---------------------------------------------------------------- processes
struct rec_process final : time_process
{
  struct tick { int64_t prev, date, off; double speed; int64_t par; };
  std::string name;
  bool started{}, strict{true};
  int starts{}, stops{}, pauses{}, resumes{}, tickno{};
  std::vector<tick> ticks; // since the last clear
  std::vector<int64_t> offsets, transports;
  std::vector<bool> mutes;
  std::function<void(const token_request&)> hook;
  void start() override
  {
    started = true;
    starts++;
  }
  void stop() override
  {
    started = false;
    stops++;
  }
  void pause() override { pauses++; }
  void resume() override { resumes++; }
  void mute_impl(bool b) override { mutes.push_back(b); }
  void offset_impl(time_value d) override { offsets.push_back(d.impl); }
  void transport_impl(time_value d) override { transports.push_back(d.impl); }
  void state(const token_request& t) override
  {
    if (strict)
      VCHECK(started, "process.protocol", "state of a process which was not started: ", name, " ", t.prev_date.impl, "->", t.date.impl);
    ticks.push_back({t.prev_date.impl, t.date.impl, t.offset.impl, t.speed, t.parent_duration.impl});
    if (hook)
      hook(t);
  }
};

// ---------------------------------------------------------------- the model
enum Kind { T, F, P, PN }; // true, false, param set, param not set
struct mexpr
{
  Kind k{T};
  int p{};
};
struct mev
{
  int sync{};
  mexpr cond;
  std::vector<int> prev, next;
  std::shared_ptr<time_event> ev;
  st_t st{st_t::NONE};
  int when{-1}, pendings{}, resolved{};
  std::shared_ptr<rec_process> proc;
};
struct mitv
{
  int from{}, to{};
  int64_t nom{}, mn{}, mx{}; // mx INF
  double speed{1.};
  std::shared_ptr<time_interval> itv;
  std::shared_ptr<rec_process> proc;
  // shadow
  bool running{}, ran{};
  int64_t date{}, last{}; // last: the date it had when it was stopped
  int64_t d0{};           // at the start of the tick
  bool run0{};
  int startedTick{-1}, stoppedTick{-1};
  double ot{-1};
};
struct msyn
{
  mexpr trig;
  std::vector<int> evs;
  std::shared_ptr<time_sync> s;
  bool root{}, done{}, max{}, evaluating{}, request{};
  int triggered{}, finished{}, when{-1}, readySince{-1};
};

struct world
{
  net::generic_device dev{"d"};
  std::vector<net::parameter_base*> par;
  std::vector<bool> pv;
  std::vector<mev> evs;
  std::vector<mitv> itvs;
  std::vector<msyn> syncs;
  std::shared_ptr<ossia::scenario> sc = std::make_shared<ossia::scenario>();
  int tickno{};
  int64_t date{}, off{}, d{};
  bool judge{true}, anydisposed{};
  std::string log; // what happened, in order
  uint64_t shape{};

  std::string say() const
  {
    std::string s = "tick " + std::to_string(tickno) + " date " + std::to_string(date) + " d " + std::to_string(d) + " |";
    for (size_t i = 0; i < itvs.size(); i++)
      s += vp::str(" I", i, ":", itvs[i].from, "->", itvs[i].to, " ", itvs[i].mn, "/", itvs[i].nom, "/", itvs[i].mx, "x", itvs[i].speed, "@", itvs[i].date, itvs[i].running ? "r" : "");
    for (size_t i = 0; i < evs.size(); i++)
      s += vp::str(" E", i, ":S", evs[i].sync, " c", int(evs[i].cond.k), "s", int(evs[i].st));
    for (size_t i = 0; i < syncs.size(); i++)
      s += vp::str(" S", i, " t", int(syncs[i].trig.k), syncs[i].done ? "d" : "");
    return s;
  }
  explicit world(int npar = 4)
  {
    for (int i = 0; i < npar; i++)
    {
      auto p = net::create_node(dev.get_root_node(), "/p" + std::to_string(i)).create_parameter(val_type::INT);
      p->push_value(0);
      par.push_back(p);
      pv.push_back(false);
    }
  }
  ~world() { sc.reset(); }
  void setp(int i, bool b)
  {
    pv[i] = b;
    par[i]->push_value(int(b));
  }
  expression_ptr make(const mexpr& e)
  {
    switch (e.k)
    {
      case T: return ex::make_expression_true();
      case F: return ex::make_expression_false();
      case P: return ex::make_expression_atom(ex::expression_atom::val_t{ossia::destination{*par[e.p]}}, ex::comparator::EQUAL, ex::expression_atom::val_t{ossia::value{1}});
      default: return ex::make_expression_atom(ex::expression_atom::val_t{ossia::destination{*par[e.p]}}, ex::comparator::EQUAL, ex::expression_atom::val_t{ossia::value{0}});
    }
  }
  bool eval(const mexpr& e) const { return e.k == T || (e.k == P && pv[e.p]) || (e.k == PN && !pv[e.p]); }

  int add_sync(mexpr t, bool root = false)
  {
    msyn m;
    m.trig = t;
    m.root = root;
    int id = syncs.size();
    if (id == 0)
    {
      m.s = sc->get_start_time_sync();
      m.root = true;
    }
    else
      m.s = std::make_shared<time_sync>();
    if (t.k != T)
      m.s->set_expression(make(t));
    if (root && id)
      m.s->set_start(true);
    syncs.push_back(m);
    return id;
  }
  int add_event(int s, mexpr c)
  {
    int id = evs.size();
    mev e;
    e.sync = s;
    e.cond = c;
    auto& S = *syncs[s].s;
    auto it = S.emplace(S.get_time_events().begin() + M.r.i(0, S.get_time_events().size()), [this, id](st_t st) { on_event(id, st); }, make(c));
    e.ev = *it;
    e.proc = std::make_shared<rec_process>();
    e.proc->name = "event";
    e.ev->add_time_process(e.proc);
    evs.push_back(e);
    syncs[s].evs.push_back(id);
    return id;
  }
  int add_itv(int a, int b, int64_t mn, int64_t nom, int64_t mx, double speed = 1.)
  {
    int id = itvs.size();
    mitv m;
    m.from = a;
    m.to = b;
    m.mn = mn;
    m.nom = nom;
    m.mx = mx;
    m.speed = speed;
    m.itv = time_interval::create({}, *evs[a].ev, *evs[b].ev, time_value{nom}, time_value{mn}, mx == INF ? Infinite : time_value{mx});
    m.itv->set_callback(smallfun::function<void(bool, time_value), 32>{[this, id](bool r, time_value v) { on_itv(id, r, v.impl); }});
    m.itv->set_speed(speed);
    m.proc = std::make_shared<rec_process>();
    m.proc->name = "I" + std::to_string(id);
    m.proc->strict = nom > 0;
    m.itv->add_time_process(m.proc);
    itvs.push_back(m);
    evs[a].next.push_back(id);
    evs[b].prev.push_back(id);
    return id;
  }
  // the syncs and intervals are given to the scenario
  void install(bool shuffle = true)
  {
    std::vector<int> o;
    for (size_t i = 1; i < syncs.size(); i++)
      o.push_back(i);
    if (shuffle)
      for (size_t i = o.size(); i > 1; i--)
        std::swap(o[i - 1], o[M.r.i(0, i - 1)]);
    for (int i : o)
      sc->add_time_sync(syncs[i].s);
    o.clear();
    for (size_t i = 0; i < itvs.size(); i++)
      o.push_back(i);
    if (shuffle)
      for (size_t i = o.size(); i > 1; i--)
        std::swap(o[i - 1], o[M.r.i(0, i - 1)]);
    for (int i : o)
      sc->add_time_interval(itvs[i].itv);
    for (size_t i = 0; i < syncs.size(); i++)
    {
      auto& S = *syncs[i].s;
      S.triggered.add_callback([this, i] { on_triggered(i); });
      S.entered_evaluation.add_callback([this, i] {
        log += vp::str(" en", i);
        if (judge)
          VCHECK(!syncs[i].evaluating, "sync.evaluation", "entered twice S", i, " ", say());
        syncs[i].evaluating = true;
        syncs[i].request = false;
      });
      S.left_evaluation.add_callback([this, i] {
        log += vp::str(" le", i);
        if (judge)
          VCHECK(syncs[i].evaluating, "sync.evaluation", "left without entering S", i, " ", say());
        syncs[i].evaluating = false;
        syncs[i].request = false;
      });
      S.finished_evaluation.add_callback([this, i](bool m) { on_finished(i, m); });
    }
    for (auto& s : syncs)
      shape = vp::mix(shape, s.evs.size() * 8 + s.trig.k);
    for (auto& e : evs)
      shape = vp::mix(shape, e.sync * 4 + e.cond.k);
    for (auto& i : itvs)
      shape = vp::mix(shape, vp::mix(i.from * 64 + i.to, i.nom * 7 + i.mn * 3 + i.mx));
  }
  void request(int s)
  {
    syncs[s].s->start_trigger_request();
    // forgotten when the evaluation starts
    syncs[s].request = syncs[s].evaluating;
  }

  // ------------------------------------------------------------ transitions
  void on_itv(int id, bool r, int64_t v)
  {
    auto& m = itvs[id];
    if (r)
    {
      if (!m.running)
      {
        m.running = true;
        m.ran = true;
        m.startedTick = tickno;
        m.date = v;
        m.last = v;
        log += vp::str(" I", id, "+");
        if (judge)
          VCHECK(m.proc->started || m.nom == 0, "interval.process", "an interval started without its process ", say());
      }
      else
      {
        m.date = v;
        m.last = v;
      }
    }
    else
    {
      if (m.running)
      {
        m.stoppedTick = tickno;
        log += vp::str(" I", id, "-@", m.date);
      }
      m.running = false;
      m.date = 0;
    }
  }
  bool start_resolved(int i) const { return happened(evs[itvs[i].from].st); }
  bool at_max(int i) const { return itvs[i].ran && itvs[i].mx != INF && itvs[i].last >= itvs[i].mx; }
  void on_event(int id, st_t s)
  {
    auto& e = evs[id];
    s = base(s);
    if (s == st_t::NONE)
    {
      e.st = s;
      return;
    }
    log += vp::str(" E", id, s == st_t::PENDING ? "p" : s == st_t::HAPPENED ? "H" : "D");
    if (judge)
    {
      // the callbacks of a cascade come from its end to its beginning
      bool all = !e.prev.empty();
      for (int i : e.prev)
        if (!disposed(base(evs[itvs[i].from].ev->get_status())))
          all = false;
      if (s == st_t::PENDING)
      {
        VCHECK(e.st == st_t::NONE, "event.once", "E", id, " pending from ", int(e.st), " ", say());
        VCHECK(!all, "event.disposal", "E", id, " cannot be reached any more but is pending ", say());
        for (int i : e.prev)
          if (!disposed(evs[itvs[i].from].st))
            VCHECK(happened(evs[itvs[i].from].st) && itvs[i].ran && itvs[i].last >= itvs[i].mn, "event.min", "E", id, " pending before the minimum of I", i, " ", say());
      }
      else if (s == st_t::HAPPENED)
      {
        VCHECK(e.st == st_t::PENDING, "event.once", "E", id, " happened from ", int(e.st), " ", say());
        VCHECK(eval(e.cond), "event.condition", "E", id, " happened with a false condition ", say());
        for (int i : e.prev)
        {
          if (!disposed(evs[itvs[i].from].st))
            VCHECK(itvs[i].last >= itvs[i].mn, "event.min", "E", id, " happened before the minimum of I", i, " ", say());
          VCHECK(!itvs[i].running, "interval.stop", "I", i, " still runs when its end event happens ", say());
        }
        for (int i : e.next)
          VCHECK(itvs[i].ran && (itvs[i].running || itvs[i].nom == 0) && itvs[i].startedTick == tickno, "interval.start", "I", i, " not started with its event ", say());
        VCHECK(e.proc->ticks.size() == 1 && !e.proc->started, "event.process", "E", id, " ran its process ", e.proc->ticks.size(), " times ", say());
      }
      else
      {
        anydisposed = true;
        VCHECK(!happened(e.st) && !disposed(e.st), "event.once", "E", id, " disposed from ", int(e.st), " ", say());
        VCHECK(all || (e.st == st_t::PENDING && !eval(e.cond)), "event.disposal", "E", id, " disposed while it could happen ", say());
        for (int i : e.prev)
          VCHECK(!itvs[i].running, "interval.stop", "I", i, " still runs when its end event is disposed ", say());
        VCHECK(e.proc->ticks.empty(), "event.process", "a disposed event ran its process E", id, " ", say());
      }
    }
    if (s == st_t::PENDING)
      e.pendings++;
    else
    {
      e.resolved++;
      e.when = tickno;
      if (judge)
        VCHECK(e.resolved == 1, "event.once", "E", id, " resolved ", e.resolved, " times ", say());
    }
    e.st = s;
  }
  void on_triggered(int i)
  {
    auto& s = syncs[i];
    log += vp::str(" S", i, "!");
    s.triggered++;
    s.when = tickno;
    s.done = true;
    if (!judge)
      return;
    VCHECK(s.triggered == 1, "sync.once", "S", i, " triggered ", s.triggered, " times ", say());
    VCHECK(s.evaluating, "sync.evaluation", "triggered without entering S", i, " ", say());
    bool max = false;
    for (int e : s.evs)
    {
      VCHECK(happened(evs[e].st) || disposed(evs[e].st), "sync.resolves", "E", e, " is left unresolved by its sync ", say());
      if (happened(evs[e].st) || evs[e].pendings)
        for (int k : evs[e].prev)
          max |= at_max(k);
    }
    VCHECK(max || eval(s.trig) || s.request, "sync.trigger", "S", i, " triggered with a false expression, no request and no maximum ", say());
    s.max = max;
  }
  void on_finished(int i, bool m)
  {
    auto& s = syncs[i];
    log += vp::str(" f", i, m ? "m" : "t");
    s.finished++;
    s.evaluating = false;
    if (!judge)
      return;
    VCHECK(s.finished == s.triggered, "sync.finished", "S", i, " ", say());
    VCHECK(m == s.max, "sync.finished", "S", i, " announces max=", m, " but the intervals say ", s.max, " ", say());
  }

  // ------------------------------------------------------------ running
  void reset_run()
  {
    for (auto& e : evs)
    {
      e.st = st_t::NONE;
      e.resolved = e.pendings = 0;
      e.when = -1;
      e.proc->ticks.clear();
    }
    for (auto& i : itvs)
    {
      i.running = i.ran = false;
      i.date = i.last = 0;
      i.startedTick = i.stoppedTick = -1;
      i.proc->ticks.clear();
    }
    for (auto& s : syncs)
    {
      s.done = s.max = s.evaluating = s.request = false;
      s.triggered = s.finished = 0;
      s.when = s.readySince = -1;
    }
    tickno = 0;
    date = 0;
    log.clear();
  }
  void start()
  {
    reset_run();
    sc->start();
  }
  void stop()
  {
    bool j = judge;
    judge = false;
    sc->stop();
    judge = j;
    if (judge)
      for (size_t i = 0; i < itvs.size(); i++)
        VCHECK(!itvs[i].itv->running() && !itvs[i].proc->started && itvs[i].itv->get_date() == 0_tv, "stop.all", "I", i, " still runs after the scenario stopped ", say());
    if (judge)
      for (size_t e = 0; e < evs.size(); e++)
        VCHECK(evs[e].ev->get_status() == st_t::NONE, "stop.all", "E", e, " keeps its status");
  }
  void raw_tick(int64_t dd, int64_t o = 0, double speed = 1.)
  {
    d = dd;
    off = o;
    for (auto& i : itvs)
    {
      i.proc->ticks.clear();
      i.run0 = i.running;
      i.d0 = i.date;
      i.ot = -1;
    }
    anydisposed = false;
    log += vp::str(" |", dd, ":");
    sc->time_process::node->requested_tokens.clear();
    for (auto& i : itvs)
      i.itv->node->requested_tokens.clear();
    sc->state(token_request{time_value{date}, time_value{date + dd}, time_value{1000000}, time_value{o}, speed, {}, 120.});
    date += dd;
  }
  void tick(int64_t dd, int64_t o = 0)
  {
    M.at("scenario.crash", vp::str("tick ", dd, " ", say()));
    raw_tick(dd, o);
    if (judge)
      after();
    tickno++;
  }
  static int64_t scaled(double avail, double s) { return int64_t(std::ceil(avail * s)); }
  void after()
  {
    // ---- statuses
    for (size_t k = 0; k < evs.size(); k++)
    {
      auto& e = evs[k];
      VCHECK(base(e.ev->get_status()) == e.st, "event.status", "E", k, " says ", int(e.ev->get_status()), " ", say());
    }
    // ---- time spent, in the order of the dependencies
    std::vector<double> sot(syncs.size(), -1.), sotNoZero(syncs.size(), -1.);
    bool odd = false; // rounded
    for (auto& i : itvs)
      odd |= i.speed != 1.;
    std::vector<int> order(itvs.size());
    for (size_t i = 0; i < order.size(); i++)
      order[i] = i;
    std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return evs[itvs[a].from].sync < evs[itvs[b].from].sync; });
    for (int i : order)
    {
      auto& m = itvs[i];
      auto& E = evs[m.from];
      auto& S = syncs[E.sync];
      bool fresh = m.startedTick == tickno && !m.run0;
      auto& ts = m.proc->ticks;
      if (!m.run0 && !fresh)
      {
        VCHECK(ts.empty(), "interval.silence", "I", i, " ran while it is not started ", say());
        continue;
      }
      // contiguous tokens
      int64_t cur = m.run0 ? m.d0 : 0;
      for (auto& t : ts)
      {
        VCHECK(t.prev == cur && t.date >= t.prev, "interval.contiguous", "I", i, " runs ", t.prev, "->", t.date, " after ", cur, " ", say());
        VCHECK(m.mx == INF || t.date <= m.mx, "interval.max", "I", i, " runs to ", t.date, " after its maximum ", m.mx, " ", say());
        VCHECK(t.par == m.nom, "interval.nominal", "I", i, " ", t.par, " ", say());
        VCHECK(t.off >= off && t.off <= off + d, "interval.offset", "I", i, " offset ", t.off, " in the tick ", off, "+", d, " ", say());
        VCHECK(t.off + double(t.date - t.prev) / m.speed <= off + d + 1.0 / std::min(m.speed, 1.) + 1e-9, "interval.offset", "I", i, " from ", t.off, " for ", t.date - t.prev, " in the tick ", off, "+", d, " ", say());
        cur = t.date;
      }
      int64_t adv = cur - (m.run0 ? m.d0 : 0);
      double avail = 0;
      if (m.run0)
        avail = d;
      else if (fresh)
      {
        if (S.root && E.prev.empty())
          avail = d;
        else if (S.max)
        {
          avail = std::max(0., sot[E.sync]);
          // an interval of no duration may be over before it passes its time on
          double without = std::max(0., sotNoZero[E.sync]);
          if (without != avail)
          {
            auto w = [&](double a) { return m.mx == INF ? scaled(a, m.speed) : std::min(scaled(a, m.speed), m.mx); };
            if (std::abs(adv - w(without)) < std::abs(adv - w(avail)))
              avail = without;
          }
        }
      }
      int64_t want = scaled(avail, m.speed);
      bool limited = false;
      if (m.mx != INF)
      {
        int64_t room = m.mx - (m.run0 ? m.d0 : 0);
        if (avail * m.speed > room)
        {
          limited = true;
          want = room;
          m.ot = avail - room / m.speed;
        }
      }
      // an interval without minimum may be over before it gets its share
      if (fresh && adv == 0 && m.mn == 0 && m.nom > 0 && m.stoppedTick == tickno)
      {
        want = 0;
        limited = false;
      }
      bool exact = !odd;
      double slack = exact ? 0. : 3. * std::max(1., m.speed) + 1;
      VCHECK(std::abs(double(adv - want)) <= slack, "interval.advance", "I", i, " advanced by ", adv, " with ", avail, " available (expected ", want, ") ", say());
      if (!limited)
        m.ot = -1;
      else
      {
        int es = evs[m.to].sync;
        double x = m.speed == 1. ? m.ot : std::floor(m.ot);
        sot[es] = std::max(sot[es], x);
        if (m.nom > 0)
          sotNoZero[es] = std::max(sotNoZero[es], x);
      }
      // where in the tick it started to run
      for (auto& t : ts)
        if (t.date > t.prev && exact)
          VCHECK(std::abs(t.off - (off + (d - avail))) <= 0., "interval.offset", "I", i, " runs at ", t.off, " instead of ", off + d - avail, " ", say());
      if (m.running)
        VCHECK(m.date == cur && m.itv->get_date().impl == cur, "interval.date", "I", i, " is at ", m.itv->get_date().impl, " but ran to ", cur, " ", say());
    }
    for (size_t i = 0; i < itvs.size(); i++)
    {
      auto& m = itvs[i];
      bool a = happened(evs[m.from].st), z = happened(evs[m.to].st) || disposed(evs[m.to].st);
      if (m.nom > 0)
        VCHECK(m.running == (a && !z), "interval.running", "I", i, " running=", m.running, " ", say());
      VCHECK(m.itv->running() == m.running || m.nom == 0, "interval.running", "I", i, " ", say());
      VCHECK(m.proc->started == m.running || m.nom == 0, "process.protocol", "I", i, " ", say());
    }
    // ---- nothing is forgotten
    for (size_t k = 0; k < evs.size(); k++)
    {
      auto& e = evs[k];
      if (e.prev.empty() || happened(e.st) || disposed(e.st))
        continue;
      bool all = true;
      for (int i : e.prev)
        if (!disposed(evs[itvs[i].from].st))
          all = false;
      VCHECK(!all, "event.disposal", "E", k, " is not disposed although it cannot be reached ", say());
    }
    for (size_t k = 0; k < syncs.size(); k++)
    {
      auto& s = syncs[k];
      if (s.done)
        continue;
      bool ready = true, max = false;
      int active = 0;
      for (int e : s.evs)
      {
        if (disposed(evs[e].st))
          continue;
        active++;
        for (int i : evs[e].prev)
        {
          if (disposed(evs[itvs[i].from].st))
            continue;
          if (!happened(evs[itvs[i].from].st) || itvs[i].date < itvs[i].mn)
            ready = false;
          else if (itvs[i].mx != INF && itvs[i].date >= itvs[i].mx)
            max = true;
        }
      }
      if (!active)
        continue;
      if (!ready)
      {
        s.readySince = -1;
        continue;
      }
      if (s.readySince < 0)
        s.readySince = tickno;
      bool can = max || eval(s.trig) || (s.request && s.evaluating);
      VCHECK(!can || s.readySince >= tickno, "sync.liveness", "S", k, " is ready since tick ", s.readySince, " but not triggered ", say());
      VCHECK(s.readySince >= tickno || s.s->is_evaluating(), "sync.evaluation", "S", k, " is ready but not being evaluated ", say());
    }
    M.seen(vp::mix(shape, vp::hash_str(log)));
  }
};

static mexpr rexpr(int kind) // 0: mostly true, 1: conditions, 2: triggers
{
  mexpr e;
  e.p = M.r.i(0, 2);
  int x = M.r.i(0, 9);
  if (kind == 1)
    e.k = x < 6 ? T : x < 8 ? F : x < 9 ? P : PN;
  else
    e.k = x < 5 ? T : x < 6 ? F : x < 9 ? P : PN;
  return e;
}

// a random acyclic scenario
struct gen_opt
{
  bool conds{true}, trigs{true}, flexible{true}, speeds{false};
  int maxdur{60};
};
static void gen(world& w, gen_opt o)
{
  int n = M.r.i(2, 7);
  int mode = M.r.i(0, 2);
  w.add_sync(o.trigs && M.r.b(1, 8) ? mexpr{P, 3} : mexpr{});
  int ne = M.r.i(1, 2);
  for (int k = 0; k < ne; k++)
    w.add_event(0, o.conds && M.r.b(1, 4) ? rexpr(1) : mexpr{});
  auto dur = [&](int a, int b) {
    int64_t nom = M.r.i(1, o.maxdur), mn = nom, mx = nom;
    if (o.flexible && M.r.b(2, 3))
    {
      mn = M.r.b(1, 4) ? 0 : M.r.i(0, nom);
      mx = M.r.b(1, 4) ? INF : nom + M.r.i(0, o.maxdur);
    }
    static const double sp[] = {0.5, 2., 0.25, 4., 1.5, 0.7, 3.};
    w.add_itv(a, b, mn, nom, mx, o.speeds && M.r.b() ? M.r.pick(sp) : 1.);
  };
  for (int s = 1; s < n; s++)
  {
    int first = w.evs.size();
    w.add_sync(o.trigs ? rexpr(2) : mexpr{});
    int k = M.r.i(1, mode == 2 ? 3 : 2);
    for (int j = 0; j < k; j++)
    {
      int e = w.add_event(s, o.conds ? rexpr(1) : mexpr{});
      int np = M.r.b(2, 3) ? 1 : M.r.i(1, 3);
      for (int q = 0; q < np; q++)
      {
        int a = mode == 0 ? M.r.i(std::max(0, first - 3), first - 1) : M.r.i(0, first - 1);
        dur(a, e);
      }
    }
  }
  w.install();
}
static int64_t some_tick(int m)
{
  switch (M.r.i(0, 5))
  {
    case 0: return M.r.i(0, 3);
    case 1: return 1;
    case 2: return M.r.i(1, 8 * m);
    default: return M.r.i(1, m);
  }
}
static void drive(world& w, int ticks, int m)
{
  for (int t = 0; t < ticks; t++)
  {
    if (M.r.b(1, 3))
    {
      int p = M.r.i(0, 2);
      w.setp(p, !w.pv[p]);
    }
    if (!w.pv[3] && M.r.b(1, 3))
      w.setp(3, true);
    if (M.r.b(1, 4))
    {
      int s = M.r.i(1, w.syncs.size() - 1);
      // a request to a synchronisation which is being evaluated triggers it,
      // one which comes too early does not
      if ((w.syncs[s].evaluating || M.r.b(1, 3)) && !w.syncs[s].done && w.syncs[s].trig.k != T)
        w.request(s);
    }
    w.tick(t == 0 && M.r.b() ? M.r.i(1, m) : some_tick(m), M.r.b(1, 4) ? M.r.i(0, 100) : 0);
  }
}

VP_SECTION(rules)
{
  for (int k = 0; k < M.n(700, 7000); k++)
  {
    world w;
    gen_opt o;
    o.conds = M.r.b(2, 3);
    o.trigs = M.r.b(2, 3);
    o.flexible = M.r.b(2, 3);
    gen(w, o);
    for (int i = 0; i < 3; i++)
      w.setp(i, M.r.b());
    w.start();
    drive(w, M.r.i(5, 25), M.r.b() ? 15 : 60);
    w.stop();
    M.seen(w.shape);
  }
}

VP_SECTION(speeds)
{
  for (int k = 0; k < M.n(500, 5000); k++)
  {
    world w;
    gen_opt o;
    o.conds = false;
    o.trigs = M.r.b(1, 3);
    o.flexible = M.r.b();
    o.speeds = true;
    gen(w, o);
    w.start();
    drive(w, M.r.i(5, 20), M.r.b() ? 15 : 60);
    w.stop();
    M.seen(w.shape);
  }
}

VP_SECTION(rerun)
{
  for (int k = 0; k < M.n(250, 2500); k++)
  {
    world w;
    gen_opt o;
    gen(w, o);
    struct act { int kind, a; int64_t d, o; };
    std::vector<act> script;
    int n = M.r.i(4, 20);
    for (int i = 0; i < n; i++)
    {
      if (M.r.b(1, 3))
        script.push_back({0, int(M.r.i(0, 2)), M.r.b(), 0});
      if (M.r.b(1, 5))
        script.push_back({2, int(M.r.i(1, w.syncs.size() - 1)), 0, 0});
      script.push_back({1, 0, some_tick(30) + (i == 0), M.r.b(1, 4) ? M.r.i(0, 50) : 0});
    }
    bool init[3] = {M.r.b(), M.r.b(), M.r.b()};
    auto run = [&](size_t upto) {
      for (int i = 0; i < 3; i++)
        w.setp(i, init[i]);
      w.setp(3, true);
      w.start();
      for (size_t i = 0; i < upto; i++)
      {
        auto& a = script[i];
        if (a.kind == 0)
          w.setp(a.a, a.d);
        else if (a.kind == 2)
        {
          if (w.syncs[a.a].evaluating && !w.syncs[a.a].done && w.syncs[a.a].trig.k != T)
            w.request(a.a);
        }
        else
          w.tick(a.d, a.o);
      }
      auto l = w.log;
      w.stop();
      return l;
    };
    auto first = run(script.size());
    if (M.r.b())
      run(M.r.i(0, script.size())); // stopped in the middle
    auto again = run(script.size());
    VCHECK(first == again, "rerun.same", "first ", first, " then ", again, " ", w.say());
    M.seen(vp::mix(w.shape, vp::hash_str(first)));
  }
}

// --------------------------------------------------------------- fixed dates
// every interval has one duration and the synchronisations have consistent
// dates: everything is known in advance, however the time is cut
struct rigid
{
  world w;
  std::vector<int64_t> D; // date of the syncs
  int64_t end{};
  std::vector<bool> hap;
  explicit rigid(bool conds, bool zero, int64_t unit)
  {
    int n = M.r.i(2, 7);
    w.add_sync({});
    D.push_back(0);
    auto cond = [&] { return conds && M.r.b(1, 4) ? mexpr{F, 0} : mexpr{}; };
    w.add_event(0, M.r.b(1, 10) ? cond() : mexpr{});
    for (int s = 1; s < n; s++)
    {
      w.add_sync({});
      D.push_back(D.back() + M.r.i(zero ? 0 : 1, 30) * unit);
      int first = w.evs.size();
      int k = M.r.i(1, 2);
      for (int j = 0; j < k; j++)
      {
        int e = w.add_event(s, cond());
        int np = M.r.b(2, 3) ? 1 : M.r.i(1, 3);
        for (int q = 0; q < np; q++)
        {
          int a = M.r.i(0, first - 1);
          int64_t dur = D[s] - D[w.evs[a].sync];
          w.add_itv(a, e, dur, dur, dur);
        }
      }
    }
    w.install();
    end = D.back();
    hap.resize(w.evs.size());
    for (size_t e = 0; e < w.evs.size(); e++)
    {
      bool any = w.evs[e].prev.empty();
      for (int i : w.evs[e].prev)
        any |= hap[w.itvs[i].from];
      hap[e] = any && w.eval(w.evs[e].cond);
    }
  }
  bool reach(int e) const
  {
    bool any = w.evs[e].prev.empty();
    for (int i : w.evs[e].prev)
      any |= hap[w.itvs[i].from];
    return any;
  }
  // what holds after the date T was reached
  void expect(int64_t T, const char* rule)
  {
    for (size_t e = 0; e < w.evs.size(); e++)
    {
      auto s = base(w.evs[e].ev->get_status());
      bool past = D[w.evs[e].sync] <= T;
      if (hap[e])
        VCHECK(happened(s) == past, rule, "E", e, " of date ", D[w.evs[e].sync], " has status ", int(s), " at ", T, " ", w.say());
      else
      {
        VCHECK(!happened(s), rule, "E", e, " happened ", w.say());
        if (past)
          VCHECK(disposed(s), rule, "E", e, " is not disposed at ", T, " ", w.say());
      }
    }
    for (size_t i = 0; i < w.itvs.size(); i++)
    {
      auto& m = w.itvs[i];
      int64_t a = D[w.evs[m.from].sync], b = D[w.evs[m.to].sync];
      bool run = hap[m.from] && a <= T && T < b;
      VCHECK(m.itv->running() == run, rule, "I", i, " [", a, " ", b, "] runs at ", T, ": ", m.itv->running(), " ", w.say());
      if (run)
        VCHECK(m.itv->get_date().impl == T - a, rule, "I", i, " [", a, " ", b, "] is at ", m.itv->get_date().impl, " at ", T, " ", w.say());
    }
  }
};

VP_SECTION(rigid_dates)
{
  for (int k = 0; k < M.n(500, 5000); k++)
  {
    int64_t unit = M.r.b(1, 4) ? 705600000 / 30 : 1;
    rigid r(M.r.b(), false, unit);
    auto& w = r.w;
    bool conds = false;
    for (auto& e : w.evs)
      conds |= e.cond.k == F;
    w.start();
    int64_t T = 0;
    bool big = M.r.b(1, 3);
    for (int t = 0; t < 40 && T <= r.end + 5 * unit; t++)
    {
      int64_t d = (big ? M.r.i(1, 100) : M.r.i(1, 12)) * unit;
      if (M.r.b(1, 6)) // exactly on a date
        for (auto x : r.D)
          if (x > T)
          {
            d = x - T;
            break;
          }
      w.tick(d);
      T += d;
      if (!conds)
        r.expect(T, "rigid.dates");
      // a node whose last predecessor is disposed in the tick may be looked at
      // in the next one only
    }
    if (conds)
    {
      // what is seen late starts late
      for (int z = 0; z < 10; z++)
        w.tick(r.end + 1);
      r.expect(T + 10 * r.end, "rigid.conditions");
    }
    w.stop();
    M.seen(vp::mix(w.shape, r.end));
  }
}

// intervals without a duration: the moment of the tick at which they are gone
// through is not promised, what they lead to is
VP_SECTION(instant)
{
  for (int k = 0; k < M.n(200, 2000); k++)
  {
    rigid r(M.r.b(), true, 1);
    auto& w = r.w;
    w.judge = false;
    w.start();
    int64_t T = 0;
    for (int t = 0; t < 60 && T <= r.end; t++)
    {
      int64_t d = M.r.i(1, 20);
      w.tick(d);
      T += d;
      for (size_t e = 0; e < w.evs.size(); e++)
        if (happened(base(w.evs[e].ev->get_status())))
          VCHECK(r.hap[e] && r.D[w.evs[e].sync] <= T, "instant.date", "E", e, " of date ", r.D[w.evs[e].sync], " happened at ", T, " ", w.say());
    }
    for (int z = 0; z < 20; z++)
      w.tick(1);
    for (size_t e = 0; e < w.evs.size(); e++)
    {
      auto s = base(w.evs[e].ev->get_status());
      VCHECK(r.hap[e] ? happened(s) : disposed(s), "instant.resolves", "E", e, " of date ", r.D[w.evs[e].sync], " has status ", int(s), " ", w.say());
      VCHECK(w.evs[e].resolved == 1, "instant.once", "E", e, " resolved ", w.evs[e].resolved, " times ", w.say());
    }
    for (size_t i = 0; i < w.itvs.size(); i++)
      VCHECK(!w.itvs[i].itv->running(), "instant.resolves", "I", i, " still runs ", w.say());
    w.stop();
    M.seen(vp::mix(w.shape, r.end));
  }
}

// the same scenario inside an interval of another one
VP_SECTION(nested)
{
  for (int k = 0; k < M.n(150, 1500); k++)
  {
    rigid r(false, false, 1);
    auto& w = r.w;
    world top;
    top.add_sync({});
    top.add_event(0, {});
    top.add_sync({});
    top.add_event(1, {});
    top.add_sync({});
    top.add_event(2, {});
    int64_t lead = M.r.i(1, 40), len = M.r.i(1, r.end + 20);
    top.add_itv(0, 1, lead, lead, lead);
    top.add_itv(1, 2, len, len, len);
    top.itvs[1].itv->add_time_process(w.sc);
    top.install();
    w.judge = false;
    w.reset_run();
    top.start();
    int64_t T = 0;
    while (T <= lead + len + 10)
    {
      int64_t d = some_tick(20) + 1;
      for (auto& i : w.itvs)
        i.proc->ticks.clear();
      top.tick(d);
      int64_t in0 = std::min(std::max<int64_t>(0, T - lead), len), in1 = std::min(std::max<int64_t>(0, T + d - lead), len);
      if (T + d < lead + len && T + d > lead)
        r.expect(in1, "nested.dates");
      else if (T + d >= lead + len)
        for (size_t i = 0; i < w.itvs.size(); i++)
          VCHECK(!w.itvs[i].itv->running() && !w.itvs[i].proc->started, "nested.stop", "I", i, " runs after its parent ended ", w.say());
      // where in the tick
      for (size_t i = 0; i < w.itvs.size(); i++)
      {
        auto& m = w.itvs[i];
        int64_t a = r.D[w.evs[m.from].sync], b = r.D[w.evs[m.to].sync];
        int64_t sum = 0;
        for (auto& t : m.proc->ticks)
        {
          sum += t.date - t.prev;
          if (t.date > t.prev)
            VCHECK(t.off == lead + a + t.prev - T, "nested.offset", "I", i, " runs from ", t.prev, " at ", t.off, " in a tick from ", T, " lead ", lead, " start ", a, " ", w.say());
        }
        int64_t exp = std::max<int64_t>(0, std::min(in1, b) - std::max(in0, a));
        VCHECK(sum == exp, "nested.advance", "I", i, " advanced by ", sum, " instead of ", exp, " T ", T, " d ", d, " lead ", lead, " len ", len, " ", w.say());
      }
      T += d;
    }
    top.stop();
    top.itvs[1].itv->remove_time_process(w.sc.get());
    M.seen(vp::mix(w.shape, lead * 1000 + len));
  }
}

// starting in the middle
VP_SECTION(offset)
{
  for (int k = 0; k < M.n(300, 3000); k++)
  {
    rigid r(false, false, 1);
    auto& w = r.w;
    w.judge = false;
    int64_t T = M.r.i(1, r.end + 3);
    if (std::find(r.D.begin(), r.D.end(), T) != r.D.end())
      continue;
    bool tr = M.r.b(1, 3);
    M.at("offset.crash", vp::str("offset ", T, " ", w.say()));
    if (tr)
    {
      for (auto& i : w.itvs)
        i.proc->strict = false; // the position changes, what runs is not started again
      w.start();
      w.tick(1);
      if (T == 1)
        continue;
      w.sc->transport(time_value{T});
    }
    else
    {
      w.reset_run();
      w.sc->offset(time_value{T});
      for (size_t i = 0; i < w.itvs.size(); i++)
      {
        auto& m = w.itvs[i];
        int64_t a = r.D[w.evs[m.from].sync], b = r.D[w.evs[m.to].sync];
        if (a <= T && T < b)
          VCHECK(m.proc->offsets.size() == 1 && m.proc->offsets[0] == T - a, "offset.process", "I", i, " got ", m.proc->offsets.size(), " offsets ", m.proc->offsets.empty() ? -1 : m.proc->offsets[0], " T ", T, " ", w.say());
        else
          VCHECK(m.proc->offsets.empty(), "offset.process", "I", i, " which does not run got an offset T ", T, " ", w.say());
      }
      w.sc->start();
    }
    w.date = T;
    std::vector<int> cnt(w.evs.size());
    while (w.date < r.end + 10)
    {
      for (size_t e = 0; e < w.evs.size(); e++)
        w.evs[e].resolved = 0;
      int64_t d = some_tick(10) + 1, p = w.date;
      w.tick(d);
      for (size_t e = 0; e < w.evs.size(); e++)
      {
        int64_t De = r.D[w.evs[e].sync];
        bool in = p < De && De <= p + d;
        VCHECK(w.evs[e].resolved == int(in), "offset.events", tr ? "transport " : "offset ", T, ": E", e, " of date ", De, " resolved ", w.evs[e].resolved, " times in ", p, "..", p + d, " ", w.say());
      }
      for (size_t i = 0; i < w.itvs.size(); i++)
      {
        auto& m = w.itvs[i];
        int64_t a = r.D[w.evs[m.from].sync], b = r.D[w.evs[m.to].sync];
        int64_t cur = std::max<int64_t>(0, p - a);
        for (auto& t : m.proc->ticks)
        {
          VCHECK(t.prev == cur && t.date <= b - a, "offset.tokens", "I", i, " runs ", t.prev, "->", t.date, " instead of from ", cur, " T ", T, " ", w.say());
          cur = t.date;
        }
        int64_t exp = std::max<int64_t>(0, std::min(p + d, b) - std::max(p, a));
        VCHECK(cur - std::max<int64_t>(0, p - a) == exp || (m.proc->ticks.empty() && exp == 0), "offset.tokens", "I", i, " advanced to ", cur, " expected ", exp, " more T ", T, " ", w.say());
        if (!tr && a <= p + d && p + d < b)
          VCHECK(m.itv->running() && m.itv->get_date().impl == p + d - a, "offset.dates", "I", i, " at ", m.itv->get_date().impl, " ", w.say());
      }
    }
    w.stop();
    M.seen(vp::mix(w.shape, T * 2 + tr));
  }
}

// cycles made with graph intervals
VP_SECTION(cycles)
{
  for (int k = 0; k < M.n(150, 1500); k++)
  {
    world w;
    w.judge = false;
    w.add_sync({});
    w.add_event(0, {});
    int n = M.r.i(1, 4);
    std::vector<int64_t> len;
    for (int i = 0; i < n; i++)
    {
      int s = w.add_sync({});
      w.add_event(s, {});
      len.push_back(M.r.i(1, 30));
    }
    int64_t lead = M.r.i(1, 20);
    w.add_itv(0, 1, lead, lead, lead);
    int64_t period = 0;
    for (int i = 0; i < n; i++)
    {
      int id = w.add_itv(1 + i, 1 + (i + 1) % n, len[i], len[i], len[i]);
      w.itvs[id].itv->graphal = true;
      period += len[i];
    }
    w.install();
    w.start();
    std::vector<std::vector<int64_t>> seen(n);
    int64_t T = 0;
    for (int t = 0; t < 20; t++)
    {
      int64_t d = some_tick(12) + (t == 0);
      std::vector<int> before(n + 1);
      for (int i = 0; i <= n; i++)
        before[i] = w.evs[i].resolved;
      M.at("cycle.crash", w.say());
      w.tick(d);
      int64_t D = lead;
      for (int i = 0; i < n; i++)
      {
        // how many times its date came in this tick
        auto upto = [&](int64_t x) -> int64_t { return x < D ? 0 : (x - D) / period + 1; };
        int64_t c = upto(T + d) - upto(T);
        if (T == 0)
          c = upto(T + d);
        VCHECK(w.evs[1 + i].resolved - before[1 + i] == c, "cycle.events", "E", 1 + i, " happened ", w.evs[1 + i].resolved - before[1 + i], " times instead of ", c, " in ", T, "..", T + d, " ", w.say());
        D += len[i];
      }
      int running = 0;
      for (int i = 0; i < n; i++)
        running += w.itvs[1 + i].itv->running();
      if (T + d >= lead)
      {
        VCHECK(running == 1, "cycle.running", running, " intervals of the cycle run ", w.say());
        int64_t x = (T + d - lead) % period;
        for (int i = 0; i < n; i++)
        {
          if (x >= 0 && x < len[i])
            VCHECK(w.itvs[1 + i].itv->running() && w.itvs[1 + i].itv->get_date().impl == x, "cycle.date", "I", 1 + i, " is at ", w.itvs[1 + i].itv->get_date().impl, " instead of ", x, " ", w.say());
          x -= len[i];
        }
      }
      T += d;
    }
    w.stop();
    M.seen(vp::mix(w.shape, period));
  }
}

// a start point with an expression runs its part again each time it becomes true
VP_SECTION(retrigger)
{
  for (int k = 0; k < M.n(200, 2000); k++)
  {
    world w;
    w.judge = false;
    w.add_sync({});
    w.add_event(0, {});
    int s = w.add_sync({P, 0}, true);
    w.add_event(s, {});
    int n = M.r.i(1, 3);
    for (int i = 0; i < n; i++)
    {
      int q = w.add_sync({});
      w.add_event(q, {});
      int64_t l = M.r.i(5, 30);
      w.add_itv(w.evs.size() - 2, w.evs.size() - 1, l, l, l);
    }
    // something which must not be disturbed
    int q = w.add_sync({});
    w.add_event(q, {});
    w.add_itv(0, w.evs.size() - 1, 100000, 100000, 100000);
    w.install();
    w.setp(0, false);
    w.start();
    int64_t since = -1, T = 0;
    bool fired = false;
    for (int t = 0; t < 25; t++)
    {
      // the expression is observed again from the tick after
      bool fire = !fired && M.r.b(1, 4);
      fired = fire;
      int64_t d = M.r.i(1, 15);
      std::vector<int> b;
      for (auto& e : w.evs)
        b.push_back(e.resolved);
      if (fire && t > 0)
      {
        w.setp(0, false);
        w.setp(0, true);
        since = 0;
      }
      w.tick(d);
      if (w.pv[0])
        w.setp(0, false);
      VCHECK(w.evs[1].resolved - b[1] == (fire && t > 0), "retrigger.start", "the start point happened ", w.evs[1].resolved - b[1], " times, fired ", fire, " ", w.say());
      if (since >= 0)
      {
        int64_t was = (fire && t > 0) ? -1 : since;
        since += d;
        int64_t D = 0;
        for (int i = 0; i < n; i++)
        {
          auto& m = w.itvs[i];
          bool run = D <= since && since < D + m.mx;
          VCHECK(m.itv->running() == run, "retrigger.running", "I", i, " runs ", m.itv->running(), " at ", since, " ", w.say());
          VCHECK(m.proc->started == run, "retrigger.process", "I", i, " ", w.say());
          if (run)
            VCHECK(m.itv->get_date().impl == since - D, "retrigger.date", "I", i, " at ", m.itv->get_date().impl, " instead of ", since - D, " ", w.say());
          D += m.mx;
          bool in = was < D && D <= since;
          VCHECK(w.evs[2 + i].resolved - b[2 + i] == in, "retrigger.events", "E", 2 + i, " happened ", w.evs[2 + i].resolved - b[2 + i], " times ", was, "..", since, " ", w.say());
        }
      }
      T += d;
      VCHECK(w.itvs[n].itv->get_date().impl == T, "retrigger.other", "the rest is at ", w.itvs[n].itv->get_date().impl, " instead of ", T, " ", w.say());
    }
    w.stop();
    M.seen(vp::mix(w.shape, T));
  }
}

// a trigger waits for the next bar or beat
VP_SECTION(quantized)
{
  for (int k = 0; k < M.n(200, 2000); k++)
  {
    world w;
    w.judge = false;
    w.add_sync({});
    w.add_event(0, {});
    w.add_sync({P, 0});
    w.add_event(1, {});
    w.add_sync({});
    w.add_event(2, {});
    const int64_t q = ossia::quarter_duration<int64_t>;
    const int64_t max = M.r.b(1, 3) ? M.r.i(q / 4, 6 * q) : INF;
    w.add_itv(0, 1, 0, max == INF ? 1000000000 : max, max);
    w.add_itv(1, 2, 0, 1000000000, INF);
    w.install();
    double rate = M.r.b() ? 1. : 4.; // a bar, a quarter
    w.syncs[1].s->set_sync_rate(rate, q);
    w.setp(0, false);
    int fixed = 0;
    int64_t fdate = -1;
    w.syncs[1].s->trigger_date_fixed.add_callback([&](time_value v) {
      fixed++;
      fdate = v.impl;
    });
    bool twice = M.r.b();
    for (int run = 0; run <= int(twice); run++)
    {
      w.setp(0, false);
      // triggered by hand, and not by the expression; requests made before do not count
      const bool manual = M.r.b();
      if (M.r.b())
        w.syncs[1].s->start_trigger_request();
      w.start();
      fixed = 0;
      int64_t T = 0;
      int fireAt = M.r.i(2, 20);
      bool done = false;
      int64_t fireDate = -1;
      int stopAt = run == 0 && twice ? M.r.i(3, 30) : 1000;
      for (int t = 0; t < 200 && !done && t < stopAt; t++)
      {
        int64_t d = M.r.i(1, q / 3);
        if (t == fireAt)
        {
          if (manual)
            w.syncs[1].s->start_trigger_request();
          else
            w.setp(0, true);
          fireDate = T;
        }
        token_request tok{time_value{T}, time_value{T + d}, time_value{1000000000}, 0_tv, 1., {4, 4}, 120.};
        tok.musical_start_last_signature = 0;
        tok.musical_start_position = double(T) / q;
        tok.musical_end_position = double(T + d) / q;
        tok.musical_start_last_bar = std::floor(tok.musical_start_position / 4) * 4;
        tok.musical_end_last_bar = std::floor(tok.musical_end_position / 4) * 4;
        for (auto& i : w.itvs)
          i.proc->ticks.clear();
        auto want = t >= fireAt ? tok.get_quantification_date(rate) : std::optional<time_value>{};
        const bool over = max != INF && T + d >= max;
        if (over && (want || T + d == max))
        {
          // both in this tick, or at its edge
          if (!want || std::abs(want->impl - max) <= 2 || T + d == max)
            break;
          if (want->impl > max)
            want = {};
        }
        w.sc->state(tok);
        bool h = w.evs[1].resolved == 1;
        M.at("quantized", vp::str(T, " ", d));
        if (over && !want)
        {
          // the maximal duration does not wait
          int64_t a = 0;
          for (auto& x : w.itvs[0].proc->ticks)
            a += x.date - x.prev;
          VCHECK(h && T + a == max, "quantized.max", "run ", run, " triggered ", h, " at ", T + a, " instead of ", max);
          break;
        }
        VCHECK(h == bool(want), "quantized.date", "run ", run, manual ? " by hand" : "", " triggered ", h, " in ", T, "..", T + d, " fired at ", fireDate, " quantization ", want ? want->impl : -1, " rate ", rate);
        if (h)
        {
          done = true;
          VCHECK(fixed == 1 && want && fdate == want->impl, "quantized.announced", fixed, " ", fdate);
          // together they are given the whole tick
          int64_t a = 0, b = 0, boff = -1;
          for (auto& x : w.itvs[0].proc->ticks)
            a += x.date - x.prev;
          for (auto& x : w.itvs[1].proc->ticks)
          {
            b += x.date - x.prev;
            if (x.date > x.prev)
              boff = x.off;
          }
          VCHECK(a + b == d, "quantized.conserve", "the intervals around the trigger ran ", a, " and ", b, " of ", d);
          VCHECK(b == 0 || boff == a, "quantized.offset", "the next interval runs at ", boff, " instead of ", a);
          VCHECK(!want || std::abs(T + a - want->impl) <= 1, "quantized.date", "triggered at ", T + a, " instead of ", want->impl);
        }
        T += d;
      }
      if (stopAt == 1000 && max == INF)
        VCHECK(done, "quantized.triggers", "never triggered, fired at ", fireDate, " now ", T);
      w.stop();
    }
    M.seen(M.r.next());
  }
}

// --------------------------------------------------------------- intervals
VP_SECTION(interval)
{
  for (int k = 0; k < M.n(600, 6000); k++)
  {
    time_sync s0, s1;
    s0.emplace(s0.get_time_events().begin(), {});
    s1.emplace(s1.get_time_events().begin(), {});
    auto& e0 = *s0.get_time_events()[0];
    auto& e1 = *s1.get_time_events()[0];
    std::vector<std::pair<bool, int64_t>> calls;
    int64_t nom = M.r.i(1, 1000), mn = M.r.i(0, nom), mx = nom + M.r.i(0, 500);
    auto itv = time_interval::create({}, e0, e1, time_value{nom}, time_value{mn}, time_value{mx});
    VCHECK(e0.next_time_intervals().size() == 1 && e0.next_time_intervals()[0] == itv && e1.previous_time_intervals().size() == 1 && e1.previous_time_intervals()[0] == itv, "interval.connected", "");
    VCHECK(&itv->get_start_event() == &e0 && &itv->get_end_event() == &e1, "interval.connected", "");
    std::vector<std::shared_ptr<rec_process>> pr;
    auto addp = [&] {
      auto p = std::make_shared<rec_process>();
      p->strict = false;
      pr.push_back(p);
      itv->add_time_process(p);
    };
    int np = M.r.i(0, 3);
    for (int i = 0; i < np; i++)
      addp();
    itv->set_callback(smallfun::function<void(bool, time_value), 32>{[&](bool b, time_value v) { calls.push_back({b, v.impl}); }});
    double speed = 1.;
    int64_t date = 0, off = 0;
    bool running = false;
    std::vector<bool> en(pr.size(), true);
    for (int o = 0; o < 25; o++)
    {
      calls.clear();
      for (auto& p : pr)
        p->ticks.clear();
      int what = M.r.i(0, 13);
      M.at("interval.crash", vp::str(what));
      switch (what)
      {
        case 0:
          if (running)
            break;
          if (M.r.b())
            itv->start_and_tick();
          else
            itv->start();
          if (nom > off)
          {
            running = true;
            date = off;
            VCHECK(!calls.empty() && calls[0] == std::make_pair(true, date), "interval.callback", "start");
          }
          for (size_t i = 0; i < pr.size(); i++)
            VCHECK(pr[i]->started == (running && en[i]), "interval.process", "start ", i);
          if (!running)
            date = 0;
          break;
        case 1:
          itv->stop();
          running = false;
          date = 0;
          VCHECK(calls.size() == 1 && calls[0] == std::make_pair(false, int64_t(0)), "interval.callback", "stop");
          for (auto& p : pr)
            VCHECK(!p->started, "interval.process", "stop");
          break;
        case 2:
          speed = M.r.b() ? 1. : M.r.pick(std::vector<double>{0.5, 2., 0.25, 3.});
          itv->set_speed(speed);
          break;
        case 3:
          // the durations stay in order
          switch (M.r.i(0, 2))
          {
            case 0: itv->set_min_duration(time_value{M.r.i(0, 1500)}); break;
            case 1: itv->set_max_duration(time_value{M.r.i(1, 1500)}); break;
            default: itv->set_nominal_duration(time_value{M.r.i(1, 1500)}); break;
          }
          VCHECK(itv->get_min_duration() <= itv->get_nominal_duration() && itv->get_nominal_duration() <= itv->get_max_duration(), "interval.durations", itv->get_min_duration().impl, " ", itv->get_nominal_duration().impl, " ", itv->get_max_duration().impl);
          nom = itv->get_nominal_duration().impl;
          date = itv->get_date().impl;
          break;
        case 4:
          if (!running && M.r.b())
          {
            off = M.r.b() ? 0 : M.r.i(0, nom);
            for (auto& p : pr)
              p->offsets.clear();
            itv->offset(time_value{off});
            date = off;
            for (size_t i = 0; i < pr.size(); i++)
              VCHECK(pr[i]->offsets.size() == size_t(en[i]) && (!en[i] || pr[i]->offsets[0] == off), "interval.offset", "process ", i, " got ", pr[i]->offsets.size());
          }
          break;
        case 5:
          for (auto& p : pr)
            p->transports.clear();
          off = M.r.i(0, nom);
          itv->transport(time_value{off});
          date = off;
          for (size_t i = 0; i < pr.size(); i++)
            VCHECK(pr[i]->transports.size() == size_t(en[i]) && (!en[i] || pr[i]->transports[0] == off), "interval.transport", "process ", i);
          break;
        case 6:
          if (!pr.empty())
          {
            size_t i = M.r.i(0, pr.size() - 1);
            if (!running)
            {
              en[i] = M.r.b();
              pr[i]->enable(en[i]);
              VCHECK(pr[i]->enabled() == en[i], "process.enable", "");
            }
          }
          break;
        case 7:
          if (pr.size() < 5)
          {
            addp();
            en.push_back(true);
            VCHECK(pr.back()->started == running, "interval.process", "a process added to a running interval starts");
            VCHECK(pr.back()->mutes.size() == size_t(itv->node->muted()), "interval.mute", "added");
          }
          break;
        case 8:
          if (!pr.empty())
          {
            size_t i = M.r.i(0, pr.size() - 1);
            itv->remove_time_process(pr[i].get());
            VCHECK(pr[i].use_count() == 1, "interval.process", "a removed process is kept");
            pr.erase(pr.begin() + i);
            en.erase(en.begin() + i);
          }
          break;
        case 9:
        {
          bool m = M.r.b();
          for (auto& p : pr)
            p->mutes.clear();
          itv->mute(m);
          for (auto& p : pr)
            VCHECK(p->mutes.size() == 1 && p->mutes[0] == m && p->unmuted() == !m, "interval.mute", "");
          VCHECK(itv->node->muted() == m, "interval.mute", "node");
          break;
        }
        case 10:
        {
          bool p = M.r.b();
          for (auto& x : pr)
            x->pauses = x->resumes = 0;
          p ? itv->pause() : itv->resume();
          for (auto& x : pr)
            VCHECK(x->pauses == int(p) && x->resumes == int(!p), "interval.pause", "");
          break;
        }
        default:
        {
          if (!running || date < 0)
            break;
          int64_t d = M.r.i(0, 60), o2 = M.r.i(0, 100);
          token_request par{0_tv, time_value{d}, 1000_tv, 7_tv, 1., {3, 4}, 90.};
          int64_t to = date + int64_t(std::ceil(d * speed));
          itv->node->requested_tokens.clear();
          int how = M.r.i(0, 2);
          if (how == 0)
            itv->tick_offset(time_value{d}, time_value{o2}, par);
          else if (how == 1)
          {
            to = date;
            itv->tick_current(time_value{o2}, par);
          }
          else
          {
            to = date + d;
            itv->tick_offset_speed_precomputed(time_value{d}, time_value{o2}, par);
          }
          VCHECK(itv->get_date().impl == to, "interval.tick", "from ", date, " by ", d, " speed ", speed, " to ", itv->get_date().impl);
          for (size_t i = 0; i < pr.size(); i++)
          {
            VCHECK(pr[i]->ticks.size() == size_t(en[i]), "interval.tick", "process ", i, " ran ", pr[i]->ticks.size(), " times");
            if (en[i] && pr[i]->ticks.size() == 1)
            {
              auto& t = pr[i]->ticks[0];
              VCHECK(t.prev == date && t.date == to && t.off == o2 && t.par == nom && t.speed == speed, "interval.token", t.prev, "->", t.date, " ", t.off, " ", t.par, " ", t.speed, " expected ", date, "->", to, " ", o2, " ", nom, " ", speed);
            }
          }
          if (!pr.empty())
            VCHECK(itv->node->requested_tokens.size() == 1 && itv->node->requested_tokens[0].date.impl == to && itv->node->requested_tokens[0].signature == time_signature(3, 4), "interval.token", "node");
          VCHECK(calls.size() == 1 && calls[0] == std::make_pair(true, to), "interval.callback", "tick");
          auto ti = itv->current_transport_info();
          VCHECK(ti.date.impl == to && ti.signature == time_signature(3, 4) && std::abs(ti.current_tempo - 90. * speed) < 1e-6, "interval.transport_info", ti.date.impl, " ", ti.current_tempo);
          date = to;
        }
      }
      VCHECK(itv->running() == running, "interval.running", what);
      VCHECK(itv->get_date().impl == date, "interval.date", what, " ", itv->get_date().impl, " ", date);
      VCHECK(itv->get_offset().impl == off, "interval.offset", what);
      M.seen(vp::mix(what, vp::mix(date, nom)));
    }
    itv->cleanup();
    e0.cleanup();
    e1.cleanup();
  }
}

// tempo, signature and the musical positions
VP_SECTION(musical)
{
  const double q = ossia::quarter_duration<double>;
  for (int k = 0; k < M.n(400, 4000); k++)
  {
    time_sync s0, s1;
    s0.emplace(s0.get_time_events().begin(), {});
    s1.emplace(s1.get_time_events().begin(), {});
    auto itv = time_interval::create({}, *s0.get_time_events()[0], *s1.get_time_events()[0], time_value{int64_t(1000 * q)}, 0_tv, Infinite);
    std::vector<token_request> toks;
    auto p = std::make_shared<rec_process>();
    p->hook = [&](const token_request& t) { toks.push_back(t); };
    itv->add_time_process(p);
    std::map<int64_t, time_signature> sig;
    bool hasSig = M.r.b(3, 4), hasTempo = M.r.b();
    if (hasSig)
    {
      time_signature_map m;
      int64_t at = 0;
      int n = M.r.i(1, 4);
      for (int i = 0; i < n; i++)
      {
        static const time_signature sg[] = {{4, 4}, {3, 4}, {6, 8}, {5, 4}, {7, 8}, {2, 2}};
        auto s = M.r.pick(sg);
        m.insert({time_value{at}, s});
        sig[at] = s;
        at += int64_t(M.r.i(1, 6) * 4. * s.upper / s.lower * q);
      }
      itv->set_time_signature_map(m);
    }
    double t0 = M.r.pick(std::vector<double>{60, 120, 90, 240, 30});
    double s = M.r.b() ? 1. : M.r.pick(std::vector<double>{0.5, 2.});
    if (hasTempo)
    {
      tempo_curve c;
      c.set_x0(0);
      c.set_y0(t0);
      c.add_point(ossia::curve_segment_linear<double>{}, int64_t(1000 * q), t0);
      itv->set_tempo_curve(c);
    }
    itv->set_speed(s);
    if (M.r.b(1, 4))
    {
      // taken away again
      itv->set_tempo_curve({});
      hasTempo = false;
    }
    itv->start();
    for (int t = 0; t < 12; t++)
    {
      toks.clear();
      int64_t d = M.r.i(1, int64_t(2 * q)), from = itv->get_date().impl;
      double ps = M.r.b() ? 1. : M.r.pick(std::vector<double>{0.5, 2.});
      token_request par{time_value{5}, time_value{5 + d}, 0_tv, 0_tv, ps, {9, 8}, 77.};
      par.musical_start_last_bar = 12;
      par.musical_start_position = 13.5;
      par.musical_end_last_bar = 16;
      par.musical_end_position = 17.25;
      par.musical_start_last_signature = 4;
      itv->set_parent_speed(ps);
      itv->tick_offset(time_value{d}, 0_tv, par);
      // an interval with its own tempo does not follow its parent's speed
      double eff = hasTempo ? s * t0 / 120. / ps : s;
      int64_t to = itv->get_date().impl;
      VCHECK(std::abs(double(to - from) - d * eff) <= 1.0001, "tempo.speed", "advanced by ", to - from, " for ", d, " at ", eff);
      VCHECK(toks.size() == 1, "musical.once", toks.size());
      if (toks.size() != 1)
        break;
      auto& tk = toks[0];
      double tempo = hasTempo ? t0 : 77.;
      VCHECK(std::abs(tk.tempo - tempo * s) < 1e-6, "tempo.current", tk.tempo, " ", tempo * s);
      VCHECK(std::abs(tk.speed - (hasTempo ? s * t0 / 120. : ps * s)) < 1e-9, "tempo.token_speed", tk.speed);
      if (hasSig)
      {
        auto at = std::prev(sig.upper_bound(from)), at1 = std::prev(sig.upper_bound(to));
        VCHECK(tk.signature == at->second, "musical.signature", tk.signature.upper, "/", tk.signature.lower, " at ", from);
        auto bar = [&](int64_t x, auto it) {
          double len = 4. * it->second.upper / it->second.lower, since = (x - it->first) / q;
          return it->first / q + std::floor(since / len) * len;
        };
        VCHECK(std::abs(tk.musical_start_position - from / q) < 1e-9 && std::abs(tk.musical_end_position - to / q) < 1e-9, "musical.position", tk.musical_start_position, " ", tk.musical_end_position);
        VCHECK(std::abs(tk.musical_start_last_signature - at->first / q) < 1e-9, "musical.last_signature", tk.musical_start_last_signature);
        VCHECK(std::abs(tk.musical_start_last_bar - bar(from, at)) < 1e-9, "musical.bar", tk.musical_start_last_bar, " at ", from);
        VCHECK(std::abs(tk.musical_end_last_bar - bar(to, at1)) < 1e-9, "musical.bar", tk.musical_end_last_bar, " at end ", to);
      }
      else
      {
        VCHECK(tk.signature == time_signature(9, 8) && tk.musical_start_last_bar == 12 && tk.musical_start_position == 13.5 && tk.musical_end_last_bar == 16 && tk.musical_end_position == 17.25 && tk.musical_start_last_signature == 4, "musical.inherited", "");
      }
      auto ti = itv->current_transport_info();
      VCHECK(ti.date.impl == to && ti.musical_start_last_bar == tk.musical_start_last_bar && ti.musical_end_last_bar == tk.musical_end_last_bar && ti.musical_start_position == tk.musical_start_position && ti.musical_end_position == tk.musical_end_position && ti.musical_start_last_signature == tk.musical_start_last_signature && ti.signature == tk.signature && ti.current_tempo == tk.tempo, "musical.info", "");
      M.seen(vp::mix(to, from));
    }
    s0.get_time_events()[0]->cleanup();
    s1.get_time_events()[0]->cleanup();
  }
}

// backwards, and with a tempo, an interval stays within its bounds
VP_SECTION(bounds)
{
  for (int k = 0; k < M.n(300, 3000); k++)
  {
    world w;
    w.judge = false;
    w.add_sync({});
    w.add_event(0, {});
    w.add_sync({F});
    w.add_event(1, {});
    int64_t mx = M.r.i(20, 200);
    w.add_itv(0, 1, M.r.i(0, mx), mx, mx);
    w.itvs[0].mn = mx;
    w.itvs[0].itv->set_min_duration(time_value{mx});
    w.install();
    auto& itv = *w.itvs[0].itv;
    bool tempo = M.r.b(1, 3);
    if (tempo)
    {
      tempo_curve c;
      double t0 = M.r.pick(std::vector<double>{60, 120, 240});
      c.set_x0(0);
      c.set_y0(t0);
      c.add_point(ossia::curve_segment_linear<double>{}, 1000, t0);
      itv.set_tempo_curve(c);
    }
    w.start();
    int64_t cur = 0;
    for (int t = 0; t < 20 && happened(w.evs[0].st) + (t == 0) && !happened(w.evs[1].st); t++)
    {
      double s = M.r.pick(std::vector<double>{1., -1., 2., -2., 0.5, -0.5, -3., 0.});
      if (tempo)
        s = std::abs(s);
      itv.set_speed(s);
      int64_t d = M.r.i(1, 40);
      double ps = tempo ? M.r.pick(std::vector<double>{1., 0.5, 2.}) : 1.;
      M.at("bounds", vp::str(s, " ", d));
      w.raw_tick(d, 0, ps);
      w.tickno++;
      for (auto& x : w.itvs[0].proc->ticks)
        VCHECK(x.date >= 0 && x.date <= mx, "bounds.range", "runs to ", x.date, " of ", mx, " at speed ", s, " parent ", ps);
      if (happened(w.evs[1].st))
        break;
      int64_t now = itv.get_date().impl;
      VCHECK(now >= 0 && now <= mx, "bounds.range", "is at ", now, " of ", mx, " after ", d, " at speed ", s, " from ", cur, " parent ", ps);
      if (!tempo)
      {
        double x = std::min<double>(mx, std::max(0., cur + d * s));
        VCHECK(std::abs(now - x) <= 1, "bounds.advance", "is at ", now, " instead of ", x, " after ", d, " at speed ", s, " from ", cur);
      }
      cur = now;
    }
    w.stop();
    M.seen(vp::mix(mx, cur));
  }
}

// --------------------------------------------------------------- the rest
VP_SECTION(sync_event)
{
  for (int k = 0; k < M.n(200, 2000); k++)
  {
    // dates, mute, edition
    rigid r(false, false, 1);
    auto& w = r.w;
    for (size_t s = 0; s < w.syncs.size(); s++)
      VCHECK(w.syncs[s].s->get_date().impl == r.D[s], "sync.date", "S", s, " says ", w.syncs[s].s->get_date().impl, " ", w.say());
    bool m = true;
    for (int t = 0; t < 3; t++, m = !m)
    {
      w.sc->mute(m);
      VCHECK(w.sc->unmuted() == !m && w.sc->node->muted() == m, "mute.scenario", "");
      for (auto& i : w.itvs)
        VCHECK(i.itv->node->muted() == m && i.proc->unmuted() == !m, "mute.interval", "");
      for (auto& s : w.syncs)
        VCHECK(s.s->muted() == m, "mute.sync", "");
      for (auto& e : w.evs)
        VCHECK(e.proc->unmuted() == !m, "mute.event", "");
      if (m)
      {
        // what is added to a muted scenario is muted
        auto s = std::make_shared<time_sync>();
        auto ev = *s->emplace(s->get_time_events().begin(), {});
        auto p = std::make_shared<rec_process>();
        ev->add_time_process(p);
        w.sc->add_time_sync(s);
        VCHECK(s->muted() && !p->unmuted(), "mute.added", "sync");
        auto p2 = std::make_shared<rec_process>();
        ev->add_time_process(p2);
        VCHECK(!p2->unmuted(), "mute.added", "process of an event");
        auto p3 = std::make_shared<rec_process>();
        auto ev2 = std::make_shared<time_event>(time_event::exec_callback{}, *s, ex::make_expression_true());
        ev2->add_time_process(p3);
        s->insert(s->get_time_events().end(), ev2);
        VCHECK(!p3->unmuted(), "mute.added", "event");
        s->remove(ev2);
        VCHECK(s->get_time_events().size() == 1 && ev2.use_count() == 1, "sync.remove", "");
        auto i = time_interval::create({}, *w.evs[0].ev, *ev, 10_tv, 10_tv, 10_tv);
        auto p4 = std::make_shared<rec_process>();
        i->add_time_process(p4);
        w.sc->add_time_interval(i);
        VCHECK(i->node->muted() && !p4->unmuted(), "mute.added", "interval");
        w.sc->remove_time_interval(i);
        w.sc->remove_time_sync(s);
        auto& nx = w.evs[0].ev->next_time_intervals();
        nx.erase(std::find(nx.begin(), nx.end(), i));
        s->cleanup();
        VCHECK(i.use_count() == 1 && s.use_count() == 1, "scenario.remove", i.use_count(), " ", s.use_count());
      }
    }
    size_t ni = w.sc->get_time_intervals().size(), ns = w.sc->get_time_syncs().size();
    w.sc->add_time_interval(w.itvs[0].itv);
    w.sc->add_time_sync(w.syncs[1].s);
    VCHECK(w.sc->get_time_intervals().size() == ni && w.sc->get_time_syncs().size() == ns && ni == w.itvs.size() && ns == w.syncs.size(), "scenario.added_once", "");
    VCHECK(w.sc->get_start_time_sync() == w.syncs[0].s, "scenario.start_sync", "");
    VCHECK(w.sc->get_roots().size() == 1, "scenario.roots", "");
    // pause and resume reach every process
    w.sc->pause();
    w.sc->resume();
    for (auto& i : w.itvs)
      VCHECK(i.proc->pauses == 1 && i.proc->resumes == 1, "scenario.pause", "");
    M.seen(w.shape);
  }
}

// edits while it runs
VP_SECTION(edition)
{
  for (int k = 0; k < M.n(200, 2000); k++)
  {
    rigid r(false, false, 1);
    auto& w = r.w;
    w.judge = false;
    w.start();
    int64_t T = 0;
    struct added
    {
      std::shared_ptr<time_sync> s;
      std::shared_ptr<time_interval> i;
      std::shared_ptr<rec_process> p;
      int from;
      int64_t start, len;
    };
    std::vector<added> add;
    std::vector<bool> gone(w.itvs.size());
    for (int t = 0; t < 30; t++)
    {
      int what = M.r.i(0, 5);
      if (what == 0)
      {
        // after an event to come
        std::vector<int> c;
        for (size_t e = 0; e < w.evs.size(); e++)
          if (r.D[w.evs[e].sync] > T)
            c.push_back(e);
        if (!c.empty())
        {
          added a;
          a.from = M.r.pick(c);
          a.len = M.r.i(1, 40);
          a.s = std::make_shared<time_sync>();
          auto ev = *a.s->emplace(a.s->get_time_events().begin(), {});
          a.i = time_interval::create({}, *w.evs[a.from].ev, *ev, time_value{a.len}, time_value{a.len}, time_value{a.len});
          a.p = std::make_shared<rec_process>();
          a.i->add_time_process(a.p);
          a.start = r.D[w.evs[a.from].sync];
          w.sc->add_time_sync(a.s);
          w.sc->add_time_interval(a.i);
          add.push_back(a);
        }
      }
      else if (what == 1 && !add.empty())
      {
        size_t x = M.r.i(0, add.size() - 1);
        auto a = add[x];
        a.i->stop();
        w.sc->remove_time_interval(a.i);
        auto& nx = w.evs[a.from].ev->next_time_intervals();
        nx.erase(std::find(nx.begin(), nx.end(), a.i));
        w.sc->remove_time_sync(a.s);
        a.s->cleanup();
        add.erase(add.begin() + x);
        VCHECK(a.i.use_count() == 1 && a.s.use_count() == 1, "edit.freed", a.i.use_count(), " ", a.s.use_count());
      }
      int64_t d = some_tick(10) + (t == 0);
      M.at("edit.crash", w.say());
      for (auto& a : add)
        a.p->ticks.clear();
      w.tick(d);
      T += d;
      r.expect(T, "edit.rest");
      for (auto& a : add)
      {
        bool run = a.start <= T && T < a.start + a.len;
        VCHECK(a.i->running() == run && a.p->started == run, "edit.added", "an interval added at run time at ", a.start, "+", a.len, " runs ", a.i->running(), " at ", T);
        if (run)
          VCHECK(a.i->get_date().impl == T - a.start, "edit.added", "is at ", a.i->get_date().impl, " instead of ", T - a.start);
        int64_t sum = 0;
        for (auto& x : a.p->ticks)
          sum += x.date - x.prev;
        VCHECK(sum == std::max<int64_t>(0, std::min(T, a.start + a.len) - std::max(T - d, a.start)), "edit.added", "advanced by ", sum);
      }
    }
    w.stop();
    for (auto& a : add)
    {
      VCHECK(!a.i->running() && !a.p->started, "edit.stop", "");
    }
    M.seen(vp::mix(w.shape, T));
  }
}

// processes which loop or start further
struct loop_proc final : looping_process<loop_proc>
{
  std::vector<std::array<int64_t, 3>> t;
  std::vector<int64_t> tr;
  void state_impl(const token_request& r) { t.push_back({r.prev_date.impl, r.date.impl, r.offset.impl}); }
  void offset_impl(time_value) override { }
  void transport_impl(time_value v) override { tr.push_back(v.impl); }
};
VP_SECTION(looping)
{
  for (int k = 0; k < M.n(2000, 20000); k++)
  {
    loop_proc p;
    int64_t len = M.r.i(1, 50), st = M.r.b() ? 0 : M.r.i(0, 100);
    bool loops = M.r.b(2, 3);
    p.set_loops(loops);
    p.set_loop_duration(time_value{len});
    p.set_start_offset(time_value{st});
    int64_t at = 0;
    for (int i = 0; i < 6; i++)
    {
      int64_t d = M.r.i(0, 120), o = M.r.i(0, 50);
      p.t.clear();
      p.tr.clear();
      p.state(token_request{time_value{at}, time_value{at + d}, 0_tv, time_value{o}, 1., {}, {}});
      int64_t x = at, off = o;
      size_t turns = 0;
      M.at("loop", vp::str(at, " ", d, " len ", len, " start ", st, " loops ", loops));
      if (!loops)
      {
        VCHECK(p.t.size() == 1 && p.t[0][0] == at + st && p.t[0][1] == at + st + d && p.t[0][2] == o && p.tr.empty(), "loop.none", at, " ", d, " ", st);
      }
      else
      {
        for (auto& t : p.t)
        {
          VCHECK(t[0] == st + x % len && t[1] > t[0] && t[1] <= st + len && t[2] == off, "loop.piece", t[0], "->", t[1], " @", t[2], " expected from ", st + x % len, " @", off, " len ", len);
          off += t[1] - t[0];
          x += t[1] - t[0];
          if (x % len == 0)
            turns++;
        }
        VCHECK(x == at + d, "loop.total", "ran to ", x, " instead of ", at + d);
        VCHECK(p.tr.size() == turns, "loop.transport", p.tr.size(), " ", turns);
        for (auto v : p.tr)
          VCHECK(v == st, "loop.transport", v, " ", st);
      }
      at += d;
      M.seen(vp::mix(at, len * 1000 + st));
    }
  }
}

// the clock runs an interval in real time
VP_SECTION(clock)
{
  for (int k = 0; k < M.n(4, 12); k++)
  {
    time_sync s0, s1;
    s0.emplace(s0.get_time_events().begin(), {});
    s1.emplace(s1.get_time_events().begin(), {});
    int64_t ms = M.r.i(30, 120);
    bool slow = k % 2; // a process slower than the granularity: ticks are dropped, and the end is passed
    auto itv = time_interval::create({}, *s0.get_time_events()[0], *s1.get_time_events()[0], time_value{ms}, time_value{ms}, time_value{ms});
    std::atomic<int64_t> last{0}, n{0}, back{0}, stopped{0};
    auto p = std::make_shared<rec_process>();
    p->hook = [&](const token_request& t) {
      if (t.prev_date.impl != last || t.date < t.prev_date)
        back++;
      last = t.date.impl;
      n++;
      if (slow && n > 1)
        std::this_thread::sleep_for(std::chrono::milliseconds(11));
    };
    itv->add_time_process(p);
    {
      ossia::clock c{*itv, 1000.};
      c.set_granularity(std::chrono::milliseconds(M.r.i(1, 5)));
      VCHECK(c.get_duration().impl == ms * 1000, "clock.duration", c.get_duration().impl);
      c.set_exec_status_callback([&](ossia::clock::exec_status s) { stopped += int(s) == int(ossia::clock::STOPPED); });
      auto t0 = std::chrono::steady_clock::now();
      c.start_and_tick();
      bool ru = c.running();
      VCHECK(ru || std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(ms / 2), "clock.running", "");
      if (M.r.b())
      {
        std::this_thread::sleep_for(std::chrono::milliseconds(10));
        c.pause();
        VCHECK(c.paused(), "clock.pause", "");
        std::this_thread::sleep_for(std::chrono::milliseconds(60));
        int64_t a = n;
        std::this_thread::sleep_for(std::chrono::milliseconds(60));
        VCHECK(n - a <= 1, "clock.pause", "ran ", n - a, " times while paused");
        c.resume();
        VCHECK(!c.paused(), "clock.pause", "");
      }
      int w = 0;
      while (c.running() && w++ < 10000)
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
      auto el = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
      VCHECK(!c.running(), "clock.ends", "still runs after ", el, " ms of ", ms);
      VCHECK(el >= ms - 1, "clock.ends", "ended after ", el, " ms of ", ms);
      VCHECK(stopped == 1, "clock.status", stopped.load());
      // a clock that is late drops ticks, so under load the interval may not see all of its duration
      // every tick is rounded up to a unit
      VCHECK(last > 0 && last <= el + n + 2 && back == 0, "clock.time", "ran to ", last.load(), " of ", ms, " in ", el, " back ", back.load());
      c.stop();
      VCHECK(!itv->running() && itv->get_date() == 0_tv, "clock.stop", "");
    }
    s0.get_time_events()[0]->cleanup();
    s1.get_time_events()[0]->cleanup();
    M.seen(ms);
  }
}

VP_MAIN
