// C11: callback containers, listening maps, message queues: single-threaded
// models and concurrent histories (mt_ sections also run under TSan).
#include "values.hpp"
#include <ossia/detail/callback_container.hpp>
#include <ossia/network/base/listening.hpp>
#include <ossia/network/base/message_queue.hpp>
#include <ossia/network/base/value_callback.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <thread>
using vp::M;
using cb_t = std::function<void(int, std::string)>;

struct cont : ossia::callback_container<cb_t>
{
  int first = 0, last = 0;
  void on_first_callback_added() override { first++; }
  void on_removing_last_callback() override { last++; }
  cont() = default;
  cont(const cont& o) : ossia::callback_container<cb_t>(o) { }
  cont(cont&& o) : ossia::callback_container<cb_t>(std::move(o)) { }
  cont& operator=(const cont& o) { callback_container::operator=(o); return *this; }
  cont& operator=(cont&& o) { callback_container::operator=(std::move(o)); return *this; }
};

// all the callbacks are replaced at once; whether the hooks fire is not said
VP_SECTION(replaced)
{
  for (size_t k = 0; k < M.n(400); k++)
  {
    std::vector<int> calls;
    auto mk = [&](int id) -> cb_t { return [&calls, id](int, std::string) { calls.push_back(id); }; };
    cont c;
    std::vector<std::pair<int, cont::iterator>> ref;
    int next = 1;
    std::string hist;
    for (int op = 0; op < 12; op++)
    {
      switch (M.r.i(0, 2))
      {
        case 0:
        {
          hist += 'a';
          auto it = c.add_callback(mk(next));
          ref.insert(ref.begin(), {next++, it});
          break;
        }
        case 1:
          if (!ref.empty())
          {
            hist += 'r';
            size_t i = M.r.i(0, ref.size() - 1);
            c.remove_callback(ref[i].second);
            ref.erase(ref.begin() + i);
          }
          break;
        default:
        {
          cont::impl l;
          size_t n = M.r.b(1, 3) ? 0 : M.r.i(1, 4);
          hist += vp::str(n);
          ref.clear();
          for (size_t i = 0; i < n; i++) { l.push_back(mk(next)); ref.push_back({next++, std::prev(l.end())}); }
          c.replace_callbacks(std::move(l));
          break;
        }
      }
      calls.clear();
      c.send(1, "x");
      std::vector<int> want;
      for (auto& r : ref) want.push_back(r.first);
      VCHECK(calls == want, "replaced_callbacks", hist, " called ", calls.size(), " expected ", want.size());
      VCHECK(c.callback_count() == ref.size() && c.callbacks_empty() == ref.empty(), "replaced_count", hist);
    }
    M.seen(vp::hash_str(hist));
  }
}
VP_SECTION(model)
{
  for (size_t k = 0; k < M.n(1500); k++)
  {
    std::vector<std::pair<int, std::string>> calls; // (id, arg)
    auto mk = [&](int id) -> cb_t { return [&calls, id](int a, std::string s) { calls.push_back({id * 1000 + a, s}); }; };
    auto c = std::make_unique<cont>();
    std::vector<std::pair<int, cont::iterator>> ref; // in calling order
    int next = 1, first = 0, last = 0;
    std::string hist;
    for (int op = 0; op < 40; op++)
    {
      int o = M.r.i(0, 13);
      hist += char('a' + o);
      M.at("callback_model", hist);
      switch (o)
      {
        case 0: case 1: case 2: case 3:
        {
          auto it = c->add_callback(mk(next));
          ref.insert(ref.begin(), {next++, it});
          if (ref.size() == 1) first++;
          break;
        }
        case 4: case 5:
          if (!ref.empty())
          {
            size_t i = M.r.i(0, ref.size() - 1);
            if (ref.size() == 1) last++;
            c->remove_callback(ref[i].second);
            ref.erase(ref.begin() + i);
          }
          break;
        case 6:
          if (!ref.empty())
          {
            size_t i = M.r.i(0, ref.size() - 1);
            c->replace_callback(ref[i].second, mk(next));
            ref[i].first = next++;
          }
          break;
        case 7:
          if (!ref.empty())
          {
            size_t i = M.r.i(0, ref.size() - 1);
            {
              auto dis = c->disable_callback(ref[i].second);
              calls.clear();
              c->send(7, "dis");
              std::vector<int> got, want;
              for (auto& e : calls) got.push_back(e.first / 1000);
              for (size_t j = 0; j < ref.size(); j++)
                if (j != i) want.push_back(ref[j].first);
              VCHECK(got == want, "disabled_not_called", hist, " index ", i, ": ", got.size(), " calls, want ", want.size());
              VCHECK(c->callback_count() == ref.size() - 1, "disabled_count", hist);
            }
          }
          break;
        case 8:
          if (M.r.b(1, 3))
          {
            if (!ref.empty()) last++;
            c->callbacks_clear();
            ref.clear();
          }
          break;
        case 9:
        {
          cont d(*c), e;
          e.add_callback(mk(999));
          e = d;
          calls.clear();
          d.send(1, "x");
          auto a = calls;
          calls.clear();
          e.send(1, "x");
          VCHECK(a == calls && a.size() == ref.size() && d.callback_count() == ref.size(), "copies_call_the_same", hist, a.size(), " ", calls.size());
          d.callbacks_clear();
          VCHECK(c->callback_count() == ref.size() && e.callback_count() == ref.size(), "copies_independent", hist);
          e = *&e;
          VCHECK(e.callback_count() == ref.size(), "self_assign", hist);
          break;
        }
        case 10:
        {
          auto d = std::make_unique<cont>(std::move(*c));
          if (M.r.b()) { auto e = std::make_unique<cont>(); *e = std::move(*d); d = std::move(e); }
          d->first = c->first; d->last = c->last;
          c = std::move(d); // iterators follow the callbacks
          break;
        }
        case 11:
        {
          VCHECK(vp::throws([&] { c->add_callback(cb_t{}); }), "empty_callback_refused", hist);
          try { c->add_callback(nullptr); } catch (const ossia::invalid_callback_error& e) { VCHECK(std::string(e.what()).size() > 0, "invalid_callback_error", ""); }
          break;
        }
        default:
        {
          calls.clear();
          int a = M.r.i(0, 999);
          std::string s(M.r.i(0, 40), 'm');
          std::string arg = s;
          if (M.r.b()) c->send(a, std::move(arg));
          else { c->send(a, arg); VCHECK(arg == s, "send_keeps_argument", hist); }
          bool ok = calls.size() == ref.size();
          for (size_t i = 0; ok && i < ref.size(); i++) ok = calls[i].first == ref[i].first * 1000 + a && calls[i].second == s;
          VCHECK(ok, "every_callback_once_newest_first", hist, ": ", calls.size(), " calls of ", ref.size(), calls.empty() ? std::string() : vp::str(" last arg [", calls.back().second, "] want [", s, "]"));
        }
      }
      VCHECK(c->callback_count() == ref.size() && c->callbacks_empty() == ref.empty(), "callback_count", hist, " ", c->callback_count(), " want ", ref.size());
      VCHECK(c->first == first && c->last == last, "first_and_last_hooks", hist, " first ", c->first, "/", first, " last ", c->last, "/", last);
      M.seen(vp::mix(vp::hash_str(hist), ref.size()));
    }
    M.sample(hist);
  }
}

VP_SECTION(locked_map)
{
  using map = ossia::locked_map<ossia::string_map<int>>;
  for (size_t k = 0; k < M.n(1500); k++)
  {
    map m;
    std::map<std::string, int> ref;
    for (int op = 0; op < 50; op++)
    {
      auto name = [] { return vp::str("/n", M.r.i(0, 6)); };
      auto a = name(), b = name();
      int o = M.r.i(0, 5);
      M.at("locked_map", vp::str(a, " ", b, " op ", o));
      if (o == 0) { std::pair<std::string, int> e{a, op}; m.insert(e); ref.insert({a, op}); }
      else if (o == 1) { m.insert(std::pair<std::string, int>{a, op}); ref.insert({a, op}); }
      else if (o == 2) { m.erase(a); ref.erase(a); }
      else if (o == 3)
      {
        auto v = m.find_and_take(a);
        auto it = ref.find(a);
        VCHECK(v.has_value() == (it != ref.end()) && (!v || *v == it->second), "find_and_take", a);
        ref.erase(a);
      }
      else if (o == 4 && (a == b || !ref.count(b)))
      {
        m.rename(a, b);
        if (ref.count(a)) { int v = ref[a]; ref.erase(a); ref[b] = v; }
      }
      for (int q = 0; q < 7; q++)
      {
        auto n = vp::str("/n", q);
        auto v = m.find(std::string_view(n));
        auto it = ref.find(n);
        VCHECK(v.has_value() == (it != ref.end()) && (!v || *v == it->second), "locked_map_find", n, " op ", o);
      }
      M.seen(vp::mix(ref.size(), vp::mix(vp::hash_str(a + b), o)));
    }
  }
}

VP_SECTION(queues)
{
  for (size_t k = 0; k < M.n(300); k++)
  {
    ossia::net::generic_device dev{"q"};
    std::vector<ossia::net::parameter_base*> ps;
    for (int i = 0; i < 4; i++)
    {
      auto n = dev.create_child(vp::str("p", i));
      ps.push_back(n->create_parameter(ossia::val_type::INT));
    }
    auto q = std::make_unique<ossia::message_queue>(dev);
    ossia::global_message_queue g{dev};
    std::map<ossia::net::parameter_base*, int> regs;
    std::vector<std::pair<ossia::net::parameter_base*, int>> want;
    std::string hist;
    auto drain = [&] {
      ossia::received_value v;
      size_t i = 0;
      while (q->try_dequeue(v))
      {
        VCHECK(i < want.size() && v.address == want[i].first && mv::same(mv::val{want[i].second}, v.value), "queued_in_order", hist, " #", i);
        i++;
      }
      VCHECK(i == want.size(), "queued_exactly", hist, ": ", i, " of ", want.size());
      want.clear();
    };
    for (int op = 0; op < 40; op++)
    {
      int o = M.r.i(0, 9);
      if (ps.empty()) break;
      size_t pi = M.r.i(0, ps.size() - 1);
      auto* p = ps[pi];
      hist += vp::str(o, ".", pi, " ");
      M.at("message_queue", hist);
      if (o <= 1) { q->reg(*p); regs[p]++; }
      else if (o == 2) { q->unreg(*p); if (regs[p] > 0) regs[p]--; }
      else if (o == 3 && M.r.b(1, 4)) { drain(); regs.erase(p); ps.erase(ps.begin() + pi); p->get_node().get_parent()->remove_child(p->get_node()); }
      else if (o == 4) drain();
      else
      {
        int x = M.r.i(-1000, 1000);
        p->push_value(x);
        if (regs[p] > 0) want.push_back({p, x});
      }
      if (regs.count(p)) VCHECK(p->callback_count() == (regs[p] > 0 ? 1u : 0u), "one_callback_per_registration", hist, p->callback_count());
      M.seen(vp::hash_str(hist));
    }
    drain();
    q.reset();
    for (auto* p : ps) VCHECK(p->callback_count() == 0, "queue_unregisters", hist);
    ossia::received_value v;
    VCHECK(!g.try_dequeue(v), "global_queue_local_push", "a local push is not a received message");
    if (!ps.empty())
    {
      ps[0]->set_value(42);
      dev.on_message(*ps[0]);
      VCHECK(g.try_dequeue(v) && v.address == ps[0] && mv::same(mv::val{42}, v.value), "global_queue", "");
      VCHECK(!g.try_dequeue(v), "global_queue_once", "");
    }
  }
}

// ---------------------------------------------------------------- concurrency
VP_SECTION(mt_callbacks)
{
  for (size_t k = 0; k < M.n(40); k++)
  {
    M.at("concurrent_callbacks", vp::str("round ", k));
    cont c;
    const int senders = 2, churn = 3, sends = 150;
    // registered all along: sees every send once, in each sender's order
    std::vector<std::vector<int>> seen(senders);
    auto keep = c.add_callback([&](int a, std::string s) { seen[a % senders].push_back(std::stoi(s)); });
    std::atomic<int> late{0}, wrong{0};
    std::atomic<long> churned{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < senders; t++)
      ts.emplace_back([&, t] {
        for (int i = 0; i < sends; i++) c.send(t, std::to_string(i));
      });
    for (int t = 0; t < churn; t++)
      ts.emplace_back([&, t, s = M.r.next()] {
        vp::rng r{s};
        for (int i = 0; i < 60; i++)
        {
          auto alive = std::make_unique<std::atomic<bool>>(true);
          auto* p = alive.get();
          auto it = c.add_callback([p, &late, &churned](int, std::string) { churned++; if (!p->load()) late++; });
          if (r.b(1, 3)) std::this_thread::yield();
          if (r.b(1, 3)) c.replace_callback(it, [p, &late](int, std::string) { if (!p->load()) late++; });
          if (r.b(1, 4)) { auto d = c.disable_callback(it); std::this_thread::yield(); }
          if (r.b(1, 8)) { cont cp(c); if (cp.callback_count() < 1) wrong++; }
          if (r.b(1, 8)) { cont cp; cp = c; if (cp.callback_count() < 1) wrong++; }
          if (c.callback_count() < 1 || c.callbacks_empty()) wrong++;
          c.remove_callback(it);
          p->store(false); // no call may come after remove_callback returned
        }
      });
    for (auto& t : ts) t.join();
    for (int t = 0; t < senders; t++)
    {
      bool ok = seen[t].size() == size_t(sends);
      for (int i = 0; ok && i < sends; i++) ok = seen[t][i] == i;
      VCHECK(ok, "each_send_once_in_order", "sender ", t, ": ", seen[t].size(), " of ", sends);
    }
    VCHECK(late == 0, "no_call_after_removal", late.load());
    VCHECK(wrong == 0, "count_under_churn", wrong.load());
    VCHECK(c.callback_count() == 1 && c.first == 1 && c.last == 0, "hooks_under_churn", c.callback_count(), c.first, c.last);
    c.remove_callback(keep);
    VCHECK(c.last == 1, "last_hook", c.last);
    M.seen(vp::mix(k, churned.load()));
  }
}
VP_SECTION(mt_hooks)
{
  // the container goes back and forth between empty and not: hooks alternate
  struct alt : ossia::callback_container<std::function<void()>>
  {
    int balance = 0, bad = 0, firsts = 0;
    void on_first_callback_added() override { if (++balance != 1) bad++; firsts++; }
    void on_removing_last_callback() override { if (--balance != 0) bad++; }
  };
  for (size_t k = 0; k < M.n(40); k++)
  {
    M.at("concurrent_hooks", vp::str("round ", k));
    alt c;
    std::vector<std::thread> ts;
    std::atomic<int> calls{0};
    for (int t = 0; t < 4; t++)
      ts.emplace_back([&] {
        for (int i = 0; i < 200; i++)
        {
          auto it = c.add_callback([&] { calls++; });
          if (i % 5 == 0) c.send();
          c.remove_callback(it);
        }
      });
    for (auto& t : ts) t.join();
    VCHECK(c.bad == 0 && c.balance == 0, "hooks_alternate", "bad ", c.bad, " balance ", c.balance);
    VCHECK(calls >= 4 * 40, "own_callback_called", calls.load());
    M.seen(vp::mix(k, c.firsts));
  }
}
VP_SECTION(mt_locked_map)
{
  for (size_t k = 0; k < M.n(30); k++)
  {
    M.at("concurrent_locked_map", vp::str("round ", k));
    ossia::locked_map<ossia::string_map<int>> m;
    const int keys = 60;
    std::atomic<int> taken{0}, bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 2; t++)
      ts.emplace_back([&, t] { for (int i = t; i < keys; i += 2) m.insert(std::pair<std::string, int>{vp::str("/", i), i}); });
    for (int t = 0; t < 4; t++)
      ts.emplace_back([&, t] {
        for (int r = 0; r < 40; r++)
          for (int i = 0; i < keys; i++)
          {
            auto n = vp::str("/", i);
            if (auto v = m.find(n); v && *v != i) bad++;
            if (i % 2 == t % 2) continue;
            if (auto v = m.find_and_take(n)) { taken++; if (*v != i) bad++; }
          }
      });
    for (auto& t : ts) t.join();
    int left = 0;
    for (int i = 0; i < keys; i++) left += bool(m.find(vp::str("/", i)));
    VCHECK(bad == 0 && taken + left == keys, "taken_exactly_once", "taken ", taken.load(), " left ", left, " of ", keys, " bad ", bad.load());
    M.seen(vp::mix(k, taken.load()));
  }
}
VP_SECTION(mt_queue)
{
  for (size_t k = 0; k < M.n(25); k++)
  {
    M.at("concurrent_queue", vp::str("round ", k));
    ossia::net::generic_device dev{"q"};
    const int np = 3, writers = 3, each = 120;
    std::vector<ossia::net::parameter_base*> ps;
    for (int i = 0; i < np; i++) ps.push_back(dev.create_child(vp::str("p", i))->create_parameter(ossia::val_type::INT));
    ossia::message_queue q{dev};
    for (auto* p : ps) q.reg(*p);
    std::map<ossia::net::parameter_base*, std::vector<int>> got;
    std::atomic<bool> done{false};
    size_t total = 0;
    std::thread reader([&] {
      ossia::received_value v;
      for (;;)
      {
        bool d = done;
        bool any = false;
        while (q.try_dequeue(v)) { got[v.address].push_back(v.value.get<int>()); total++; any = true; }
        if (d && !any) break;
        std::this_thread::yield();
      }
    });
    std::vector<std::thread> ts;
    for (int t = 0; t < writers; t++)
      ts.emplace_back([&, t] {
        for (int i = 0; i < each; i++)
        {
          ps[i % np]->push_value(t * 1000 + i);
          auto v = ps[(i + t) % np]->value();
          if (!v.valid()) M.violation("concurrent_value_valid", "unset value");
        }
      });
    for (auto& t : ts) t.join();
    done = true;
    reader.join();
    VCHECK(total == size_t(writers * each), "no_message_lost", total, " of ", writers * each);
    for (auto& [p, v] : got)
    {
      // one writer's messages about one parameter stay in order
      int last[3] = {-1, -1, -1};
      bool ok = true;
      for (int x : v) { int t = x / 1000, i = x % 1000; ok &= i > last[t]; last[t] = i; }
      VCHECK(ok, "messages_in_order", v.size());
    }
    M.seen(vp::mix(k, vp::hash_bytes(got[ps[0]].data(), got[ps[0]].size() * 4)));
  }
}
VP_MAIN
