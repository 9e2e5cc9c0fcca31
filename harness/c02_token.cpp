// C02: execution ticks (token_request).
#include "vp.hpp"
#include <ossia/detail/config.hpp>
#include <iterator>
#include <ossia/dataflow/token_request.hpp>
using namespace ossia;
using vp::M;

static std::string S(const token_request& t)
{
  return vp::str(
      "[", t.prev_date.impl, "->", t.date.impl, " off ", t.offset.impl, " par ", t.parent_duration.impl, " spd ",
      t.speed, " mus ", t.musical_start_position, "..", t.musical_end_position, " bars ",
      t.musical_start_last_signature, "/", t.musical_start_last_bar, "/", t.musical_end_last_bar, "]");
}

static token_request gen(vp::rng& r)
{
  int64_t a = r.b(1, 6) ? 0 : r.mag(r.i(4, 40));
  int64_t len = r.b(1, 8) ? 0 : r.mag(r.i(1, 24));
  token_request t{time_value{a}, time_value{a + len}, time_value{r.mag(41)}, time_value{r.b() ? 0 : r.mag(16)}, 1., {4, 4}, 120.};
  return t;
}

VP_SECTION(basics)
{
  const size_t N = M.n(50000);
  for (size_t k = 0; k < N; k++)
  {
    M.at("basics");
    auto t = gen(M.r);
    if (M.r.b(1, 4))
      std::swap(t.prev_date, t.date);
    int64_t p = t.prev_date.impl, d = t.date.impl;
    VCHECK(t.forward() == (d > p), "dir.forward", S(t));
    VCHECK(t.backward() == (d < p), "dir.backward", S(t));
    VCHECK(t.paused() == (d == p), "dir.paused", S(t));
    VCHECK(t.model_read_duration().impl == d - p, "model_read_duration", S(t));
    double pos = t.parent_duration.impl > 0 ? double(d) / double(t.parent_duration.impl) : 0.;
    VCHECK(t.position() == pos, "position", S(t));
    for (int64_t g : {p - 1, p, p + 1, (p + d) / 2, d - 1, d, d + 1})
      VCHECK(t.in_range(time_value{g}) == (g >= p && g < d), "in_range", g, " in ", S(t));
    int64_t s = M.r.mag(20) * (M.r.b(1, 4) ? -1 : 1);
    auto o = t.add_offset(time_value{s});
    VCHECK(o.prev_date.impl == p + s && o.date.impl == d + s, "add_offset.dates", S(t), " + ", s, " = ", S(o));
    VCHECK(
        o.offset == t.offset && o.speed == t.speed && o.parent_duration == t.parent_duration && o.tempo == t.tempo,
        "add_offset.rest", S(t), S(o));
    token_request neg{time_value{p}, time_value{d}, 0_tv, time_value{-1 - M.r.mag(10)}, 1., {4, 4}, 120.};
    VCHECK(neg.offset.impl == 0, "offset_never_negative", S(neg));
    // construction keeps everything
    double spd = M.r.i(1, 8) / 4., tempo = M.r.i(30, 300);
    time_signature sg{uint16_t(M.r.i(1, 12)), uint16_t(1 << M.r.i(0, 4))};
    token_request c{t.prev_date, t.date, t.parent_duration, t.offset, spd, sg, tempo};
    VCHECK(
        c.prev_date.impl == p && c.date.impl == d && c.parent_duration.impl == t.parent_duration.impl
            && c.offset.impl == t.offset.impl && c.speed == spd && c.tempo == tempo && c.signature == sg,
        "construct", S(c));
    M.seen(vp::mix(p, vp::mix(d, s)));
  }
}

VP_SECTION(equality)
{
  const size_t N = M.n(8000);
  for (size_t k = 0; k < N; k++)
  {
    M.at("equality");
    auto t = gen(M.r);
    t.musical_start_last_signature = M.r.i(0, 40);
    t.musical_start_last_bar = M.r.i(0, 40);
    t.musical_start_position = M.r.i(0, 400) / 8.;
    t.musical_end_last_bar = M.r.i(0, 40);
    t.musical_end_position = M.r.i(0, 400) / 8.;
    auto u = t;
    VCHECK(t == u && !(t != u), "eq.copy", S(t));
    int f = M.r.i(0, 14);
    switch (f)
    {
      case 0: u.prev_date.impl++; break;
      case 1: u.date.impl++; break;
      case 2: u.parent_duration.impl++; break;
      case 3: u.offset.impl++; break;
      case 4: u.speed += 0.5; break;
      case 5: u.tempo += 1; break;
      case 6: u.signature.upper++; break;
      case 7: u.musical_start_last_signature += 1; break;
      case 8: u.musical_start_last_bar += 1; break;
      case 9: u.musical_start_position += 1; break;
      case 10: u.musical_end_last_bar += 1; break;
      case 11: u.musical_end_position += 1; break;
      case 12: u.start_discontinuous = !u.start_discontinuous; break;
      case 13: u.end_discontinuous = !u.end_discontinuous; break;
      case 14: u.signature.lower *= 2; break;
    }
    VCHECKC(t != u && !(t == u), "eq.field", std::to_string(f), "a change of field ", f, " goes unseen: ", S(t), S(u));
    token_request v = gen(M.r);
    v = u;
    VCHECK(v == u, "eq.assign", S(u));
    M.seen(vp::mix(f, t.date.impl));
    simple_token_request st{t.prev_date, t.date, t.parent_duration, t.offset};
    token_request ft = st;
    VCHECK(ft.prev_date == t.prev_date && ft.date == t.date && ft.offset == t.offset && ft.parent_duration == t.parent_duration && ft.speed == 1. && ft.tempo == 120.,
           "simple.convert", S(ft));
    VCHECK(t == st && st == t && !(t != st) && !(st != t), "simple.eq", S(t));
    auto st2 = st;
    (M.r.b() ? st2.prev_date : M.r.b() ? st2.date : st2.offset).impl += 1;
    VCHECK(!(t == st2) && !(st2 == t) && t != st2 && st2 != t, "simple.neq", S(t));
  }
}

// Looping: the pieces partition the tick, stay inside the loop, and wrap exactly at its end.
VP_SECTION(loops)
{
  const size_t N = M.n(40000);
  for (size_t k = 0; k < N; k++)
  {
    int64_t L = M.r.b(1, 4) ? M.r.i(1, 20) : 1 + M.r.mag(20);
    int64_t len = M.r.b(1, 10) ? 0 : M.r.b(1, 3) ? L * M.r.i(1, 6) + M.r.i(-1, 1) : M.r.i(1, L * 8);
    if (len < 0)
      len = 0;
    int64_t start = M.r.b(1, 3) ? L * M.r.i(0, 5) + M.r.i(0, 1) : M.r.i(0, L * 10);
    int64_t so = M.r.b(1, 3) ? 0 : M.r.mag(20);
    int64_t off = M.r.b() ? 0 : M.r.mag(10);
    token_request t{time_value{start}, time_value{start + len}, time_value{1000}, time_value{off}, 1., {3, 4}, 97.};
    M.at("loops", vp::str(S(t), " start ", so, " loop ", L));
    struct ev
    {
      bool transport;
      token_request r;
      int64_t at;
    };
    std::vector<ev> log;
    t.loop(
        time_value{so}, time_value{L},
        [&](const token_request& r) {
          if (log.size() < 5000)
            log.push_back({false, r, 0});
          else
            throw 1;
        },
        [&](const time_value& v) { log.push_back({true, {}, v.impl}); });
    int64_t date = start, o = off, total = 0;
    auto D = [&] {
      std::string s = vp::str(S(t), " start ", so, " loop ", L, " =>");
      for (auto& e : log)
        s += e.transport ? vp::str(" T", e.at) : S(e.r);
      return s;
    };
    size_t i = 0;
    bool ok = true;
    while (i < log.size())
    {
      auto& e = log[i];
      ok &= VCHECK(!e.transport, "loop.transport_without_wrap", D());
      if (e.transport)
        break;
      int64_t pl = e.r.date.impl - e.r.prev_date.impl;
      ok &= VCHECK(pl > 0, "loop.empty_piece", D());
      ok &= VCHECK(e.r.prev_date.impl == date % L + so, "loop.position", D());
      ok &= VCHECK(e.r.prev_date.impl >= so && e.r.date.impl <= so + L, "loop.inside", D());
      ok &= VCHECK(e.r.offset.impl == o, "loop.offset", D());
      ok &= VCHECK(
          e.r.speed == t.speed && e.r.tempo == t.tempo && e.r.signature == t.signature
              && e.r.parent_duration == t.parent_duration,
          "loop.rest_kept", D());
      if (!ok)
        break;
      total += pl;
      date += pl;
      o += pl;
      bool wrapped = e.r.date.impl == so + L;
      i++;
      if (wrapped)
      {
        ok &= VCHECK(i < log.size() && log[i].transport && log[i].at == so, "loop.transport_on_wrap", D());
        i++;
      }
      else
        ok &= VCHECK(i == log.size(), "loop.stops_midway", D());
      if (!ok)
        break;
    }
    VCHECK(total == len, "loop.conservation", D());
    M.seen(vp::mix(L, vp::mix(start, len)));
    if (log.size() > 2)
      M.sample(D());
  }
}

// Mapping between model time and physical samples. Ratios and speeds are dyadic: the exact result is representable.
VP_SECTION(physical)
{
  const size_t N = M.n(50000);
  const double ratios[] = {1., 0.5, 0.25, 0.125, 0.0625, 2., 1. / 1024};
  const double speeds[] = {1., 0.5, 2., 0.25, 4.};
  for (size_t k = 0; k < N; k++)
  {
    M.at("physical");
    int64_t a = M.r.mag(30), len = M.r.mag(16), off = M.r.b(1, 3) ? 0 : M.r.mag(16);
    double ratio = M.r.pick(ratios), speed = M.r.pick(speeds);
    token_request t{time_value{a}, time_value{a + len}, 0_tv, time_value{off}, speed, {4, 4}, 120.};
    auto D = [&] { return vp::str(S(t), " ratio ", ratio); };
    auto fl = [](long double v) { return (int64_t)std::floor(v); };
    VCHECK(t.physical_start(ratio) == fl((long double)off * ratio / speed), "phys.start", D(), t.physical_start(ratio));
    VCHECK(t.start_date_to_physical(ratio) == fl((long double)a * ratio / speed), "phys.start_date", D());
    VCHECK(t.physical_read_duration(ratio) == fl((long double)len * ratio), "phys.read_duration", D());
    VCHECK(t.physical_write_duration(ratio) == fl((long double)len * ratio / speed), "phys.write_duration", D());
    int bs = M.r.i(0, 4096);
    VCHECK(
        t.safe_physical_write_duration(ratio, bs) == fl(bs - (long double)off * ratio / speed), "phys.safe_write", D(),
        " bs ", bs, " got ", t.safe_physical_write_duration(ratio, bs));
    // never beyond the end of the buffer
    VCHECK(
        t.physical_start(ratio) + t.safe_physical_write_duration(ratio, bs) <= bs, "phys.safe_write_in_buffer", D(),
        " bs ", bs);
    // a backward tick reads and writes as much
    token_request back = t;
    std::swap(back.prev_date, back.date);
    VCHECK(
        back.physical_read_duration(ratio) == t.physical_read_duration(ratio)
            && back.physical_write_duration(ratio) == t.physical_write_duration(ratio),
        "phys.backward", D());
    int64_t g = a + (len ? M.r.i(0, len) : 0);
    auto ph = t.to_physical_time_in_tick(g, ratio);
    VCHECK(ph == fl((long double)(g - a + off) * ratio / speed), "phys.to_tick", D(), " at ", g, " got ", ph);
    VCHECK(ph == t.to_physical_time_in_tick(time_value{g}, ratio), "phys.to_tick_overload", D());
    auto back_t = t.from_physical_time_in_tick(ph, ratio);
    VCHECK(
        back_t.impl == fl((long double)ph * (speed / ratio) + a - off), "phys.from_tick", D(), " ", ph, " -> ",
        back_t.impl);
    // round trip within one sample
    VCHECK(
        back_t.impl <= g && (g - back_t.impl) <= speed / ratio + 1, "phys.roundtrip", D(), " ", g, " -> ", ph, " -> ",
        back_t.impl);
    // splitting a tick: consecutive writes tile the buffer
    if (len > 1)
    {
      int64_t m = M.r.i(1, len - 1);
      token_request t1{time_value{a}, time_value{a + m}, 0_tv, time_value{off}, speed, {4, 4}, 120.};
      token_request t2{time_value{a + m}, time_value{a + len}, 0_tv, time_value{off + m}, speed, {4, 4}, 120.};
      auto e1 = t1.physical_start(ratio) + t1.physical_write_duration(ratio);
      auto s2 = t2.physical_start(ratio);
      VCHECK(e1 <= s2 && s2 - e1 <= 1, "phys.tiling", D(), " split at ", m, ": ", e1, " then ", s2);
    }
    M.seen(vp::mix(a, vp::mix(len, off)));
  }
}

// A transport at constant tempo and signature, positions exact in binary.
struct musical_case
{
  token_request t;
  int64_t per_quarter; // model units
};
static musical_case gen_musical(vp::rng& r, int upper, int lower, double sig_start, bool short_tick = true)
{
  // bar length in quarters
  double bar = 4. * upper / lower;
  int64_t pq = 64 << r.i(0, 6);
  musical_case c;
  c.per_quarter = pq;
  // positions on a 1/64 quarter grid so everything is exact
  int64_t grid = pq / 64;
  int64_t bargrid = int64_t(bar * 64);
  int64_t sg = int64_t(sig_start * 64);
  int64_t a = sg + (r.b(1, 3) ? bargrid * r.i(0, 8) + r.i(-1, 1) : r.i(0, bargrid * 10));
  if (a < sg)
    a = sg;
  int64_t maxlen = short_tick ? bargrid - 1 : bargrid * 3;
  int64_t len = r.b(1, 4) ? r.i(1, 4) : r.i(1, std::max<int64_t>(1, maxlen));
  if (len > maxlen)
    len = std::max<int64_t>(1, maxlen);
  int64_t b = a + len;
  auto& t = c.t;
  t = token_request{time_value{a * grid}, time_value{b * grid}, 0_tv, 0_tv, 1., {uint16_t(upper), uint16_t(lower)}, 120.};
  t.musical_start_last_signature = sig_start;
  t.musical_start_position = a / 64.;
  t.musical_end_position = b / 64.;
  t.musical_start_last_bar = (sg + (a - sg) / bargrid * bargrid) / 64.;
  t.musical_end_last_bar = (sg + (b - sg) / bargrid * bargrid) / 64.;
  return c;
}

VP_SECTION(quantification)
{
  const size_t N = M.n(60000);
  const std::pair<int, int> sigs[] = {{4, 4}, {3, 4}, {2, 4}, {6, 8}, {5, 4}, {7, 8}, {12, 8}, {2, 2}};
  const double rates[] = {0.25, 0.5, 1., 2., 4., 8., 16., 32.};
  for (size_t k = 0; k < N; k++)
  {
    auto [u, l] = M.r.pick(sigs);
    double bar = 4. * u / l;
    double ss = M.r.b() ? 0. : bar * M.r.i(0, 4);
    auto c = gen_musical(M.r, u, l, ss);
    auto& t = c.t;
    double rate = M.r.pick(rates);
    M.at("quantification", vp::str(S(t), " ", u, "/", l, " rate ", rate));
    auto D = [&](std::optional<time_value> q) {
      return vp::str(S(t), " ", u, "/", l, " rate ", rate, " -> ", q ? q->impl : -1);
    };
    auto q = t.get_quantification_date(rate);
    // expected boundary
    std::optional<double> bd;
    if (rate <= 1.)
    {
      double step = bar / rate;
      double kq = std::floor((t.musical_start_position - ss) / step);
      double next = ss + (kq + 1) * step;
      if (next <= t.musical_end_position)
        bd = next;
    }
    else
    {
      double step = 4. / rate;
      bool barchange = t.musical_end_last_bar != t.musical_start_last_bar;
      if (barchange && std::fmod(bar, step) != 0.)
        continue; // documented TODO in the code: unspecified
      double kq = std::floor((t.musical_start_position - t.musical_start_last_bar) / step);
      double next = t.musical_start_last_bar + (kq + 1) * step;
      if (next <= t.musical_end_position)
        bd = next;
    }
    VCHECK(bool(q) == bool(bd), "quant.presence", D(q), " boundary ", bd.value_or(-1));
    if (q && bd)
    {
      int64_t ex = t.prev_date.impl + int64_t((*bd - t.musical_start_position) * c.per_quarter);
      VCHECK(std::abs(q->impl - ex) <= 1, "quant.date", D(q), " expected ", ex);
      VCHECK(q->impl >= t.prev_date.impl && q->impl <= t.date.impl, "quant.in_tick", D(q));
      auto pq = t.get_physical_quantification_date(rate, 0.5);
      VCHECK(pq && *pq == t.to_physical_time_in_tick(*q, 0.5), "quant.physical", D(q));
    }
    else if (!q)
      VCHECK(!t.get_physical_quantification_date(rate, 0.5), "quant.physical_none", D(q));
    VCHECK(t.get_quantification_date(0.) == t.prev_date && t.get_quantification_date(-1.) == t.prev_date, "quant.no_rate", D(q));
    auto still = t;
    still.musical_end_position = still.musical_start_position;
    VCHECK(still.get_quantification_date(rate) == t.prev_date, "quant.no_motion", D(q));
    // exactly once: over consecutive ticks each boundary fires once
    M.seen(vp::mix(vp::mix(t.prev_date.impl, t.date.impl), vp::mix(rate * 100, u * 16 + l)));
    if (q)
      M.sample(D(q));
  }
}

// A whole transport cut in random ticks: every musical boundary is reported by exactly one tick.
VP_SECTION(quantification_once)
{
  const size_t N = M.n(400);
  const std::pair<int, int> sigs[] = {{4, 4}, {3, 4}, {2, 4}, {6, 8}, {5, 4}};
  for (size_t k = 0; k < N; k++)
  {
    auto [u, l] = M.r.pick(sigs);
    int64_t bargrid = 256 * u / l;
    double rate = M.r.b() ? 1. : M.r.pick(std::vector<double>{0.5, 4., 8.});
    double step = rate <= 1. ? (bargrid / 64.) / rate : 4. / rate;
    if (rate > 1. && std::fmod(bargrid / 64., step) != 0.)
      continue;
    int64_t stepgrid = step * 64;
    int64_t pos = 0;
    std::vector<int64_t> fired, expect;
    int64_t maxtick = std::min(bargrid, stepgrid) - 1;
    M.at("quant.once", vp::str(u, "/", l, " ", rate));
    while (pos < bargrid * 9)
    {
      int64_t e = pos + M.r.i(1, maxtick);
      token_request t{time_value{pos * 100}, time_value{e * 100}, 0_tv, 0_tv, 1., {uint16_t(u), uint16_t(l)}, 120.};
      t.musical_start_position = pos / 64.;
      t.musical_end_position = e / 64.;
      t.musical_start_last_bar = (pos / bargrid * bargrid) / 64.;
      t.musical_end_last_bar = (e / bargrid * bargrid) / 64.;
      if (auto q = t.get_quantification_date(rate))
        fired.push_back(q->impl);
      int64_t tick_hits = 0;
      for (int64_t b = (pos / stepgrid + 1) * stepgrid; b <= e; b += stepgrid)
      {
        expect.push_back(b * 100);
        tick_hits++;
      }
      // metronome: one tick per bar (at its sample), one tock per other quarter
      std::vector<std::pair<bool, int64_t>> clicks;
      t.metronome(
          0.5, [&](int64_t s) { clicks.emplace_back(true, s); }, [&](int64_t s) { clicks.emplace_back(false, s); });
      if (pos > 0)
      {
        std::vector<std::pair<bool, int64_t>> ex;
        int64_t barb = (pos / bargrid + 1) * bargrid;
        int64_t inbar = pos % bargrid;
        int64_t qb = pos - inbar + (inbar / 64 + 1) * 64;
        double sdur = std::floor((e - pos) * 100 * 0.5);
        // a tick that contains several quarter boundaries sounds the last one
        if (barb <= e)
          ex.emplace_back(true, int64_t(sdur * (double(barb - pos) / (e - pos))));
        else if (qb <= e)
        {
          int64_t lastq = pos - inbar + ((e - (pos - inbar)) / 64) * 64;
          ex.emplace_back(false, int64_t(sdur * (double(lastq - pos) / (e - pos))));
        }
        bool same = ex.size() == clicks.size()
                    && (ex.empty() || (ex[0].first == clicks[0].first && std::abs(ex[0].second - clicks[0].second) <= 1));
        VCHECK(same, "metronome", S(t), " clicks ", clicks.size(), clicks.empty() ? -1 : clicks[0].second, " expected ",
               ex.size(), ex.empty() ? -1 : ex[0].second, ex.empty() ? 0 : ex[0].first);
        for (auto& c : clicks)
          VCHECK(c.second >= 0 && c.second <= sdur, "metronome.in_buffer", S(t), c.second);
      }
      else
        VCHECK(clicks.size() == 1 && clicks[0].first && clicks[0].second == 0, "metronome.first", S(t));
      pos = e;
    }
    bool same = fired.size() == expect.size();
    for (size_t i = 0; same && i < fired.size(); i++)
      same = std::abs(fired[i] - expect[i]) <= 1;
    VCHECK(same, "quant.each_boundary_once", u, "/", l, " rate ", rate, " fired ", fired.size(), " expected ", expect.size());
    M.seen(vp::mix(fired.size(), vp::mix(u * 16 + l, k)));
  }
}

VP_SECTION(bar_change)
{
  const size_t N = M.n(20000);
  for (size_t k = 0; k < N; k++)
  {
    M.at("bar_change");
    int u = M.r.i(1, 12), l = 1 << M.r.i(0, 4);
    double bar = 4. * u / l;
    token_request t;
    t.signature = {uint16_t(u), uint16_t(l)};
    int nb = M.r.i(0, 4);
    t.musical_start_last_bar = M.r.i(0, 64) / 4.;
    bool exp = false;
    double diff = nb * bar;
    if (M.r.b())
    {
      diff = M.r.i(0, 200) / 8.;
      double q = diff / bar;
      exp = q - std::floor(q) > 1e-6;
    }
    t.musical_end_last_bar = t.musical_start_last_bar + diff;
    VCHECK(t.unexpected_bar_change() == exp, "bar_change", u, "/", l, " diff ", diff);
    M.seen(vp::mix(u * 32 + l, diff * 8));
  }
}

// Shortening a tick keeps musical and model time proportional.
VP_SECTION(shorten)
{
  const size_t N = M.n(20000);
  for (size_t k = 0; k < N; k++)
  {
    M.at("shorten");
    auto c = gen_musical(M.r, 4, 4, 0.);
    auto& t = c.t;
    // tempo may have changed before this tick: positions need not be proportional to the dates
    if (M.r.b())
    {
      double sh = M.r.i(0, 64) / 4.;
      t.musical_start_position += sh;
      t.musical_end_position += sh;
    }
    int64_t p = t.prev_date.impl, d = t.date.impl;
    if (d - p < 2)
      continue;
    int64_t cut = M.r.i(p + 1, d - 1);
    double at = t.musical_start_position
                + (t.musical_end_position - t.musical_start_position) * double(cut - p) / double(d - p);
    auto e = t;
    e.reduce_end_time(time_value{cut});
    VCHECK(
        e.date.impl == cut && e.prev_date.impl == p && std::abs(e.musical_end_position - at) < 1e-6
            && e.musical_start_position == t.musical_start_position,
        "shorten.end", S(t), " at ", cut, " = ", S(e), " expected ", at);
    auto s = t;
    s.increase_start_time(time_value{cut});
    VCHECK(
        s.prev_date.impl == cut && s.date.impl == d && std::abs(s.musical_start_position - at) < 1e-6
            && s.musical_end_position == t.musical_end_position,
        "shorten.start", S(t), " at ", cut, " = ", S(s), " expected ", at);
    M.seen(vp::mix(p, vp::mix(d, cut)));
  }
}
VP_MAIN
