// C23: the ready-made process nodes: what each leaves in its ports, for a
// timeline cut in any way into ticks, is what its description gives for the
// whole timeline.
#include "values.hpp"
#include "vp.hpp"

#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/node_chain_process.hpp>
#include <ossia/dataflow/node_process.hpp>
#include <ossia/dataflow/nodes/dummy.hpp>
#include <ossia/dataflow/nodes/forward_node.hpp>
#include <ossia/dataflow/nodes/gain.hpp>
#include <ossia/dataflow/nodes/gradient.hpp>
#include <ossia/dataflow/nodes/merger.hpp>
#include <ossia/dataflow/nodes/messages.hpp>
#include <ossia/dataflow/nodes/metronome.hpp>
#include <ossia/dataflow/nodes/midi.hpp>
#include <ossia/dataflow/nodes/percentage.hpp>
#include <ossia/dataflow/nodes/rand_float.hpp>
#include <ossia/dataflow/nodes/sine.hpp>
#include <ossia/dataflow/nodes/sound_ref.hpp>
#include <ossia/dataflow/nodes/state.hpp>
#include <ossia/dataflow/nodes/step.hpp>
#include <ossia/editor/curve/curve.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/dataspace/color.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>

using vp::M;
using namespace ossia;

namespace
{
struct bench
{
  execution_state st;
  double ratio{1.};
  explicit bench(double r = 1.) : ratio{r}
  {
    st.sampleRate = 44100;
    st.bufferSize = 512;
    st.modelToSamplesRatio = r;
    st.samplesToModelRatio = 1. / r;
  }
  void run(graph_node& n, const token_request& t) { n.run(t, exec_state_facade{&st}); }
};
token_request tok(int64_t a, int64_t b, int64_t off = 0, int64_t par = 1000000, double speed = 1.)
{
  return token_request{time_value{a}, time_value{b}, time_value{par}, time_value{off}, speed, time_signature{4, 4}, 120.};
}
value_port& vout(graph_node& n, int i = 0) { return *n.root_outputs()[i]->target<value_port>(); }
value_port& vin(graph_node& n, int i = 0) { return *n.root_inputs()[i]->target<value_port>(); }
audio_port& aout(graph_node& n, int i = 0) { return *n.root_outputs()[i]->target<audio_port>(); }
audio_port& ain(graph_node& n, int i = 0) { return *n.root_inputs()[i]->target<audio_port>(); }
int64_t cut(int64_t m)
{
  switch (M.r.i(0, 4))
  {
    case 0: return 1;
    case 1: return M.r.i(1, 4 * m);
    default: return M.r.i(1, m);
  }
}
}

// ------------------------------------------------------------------ values
VP_SECTION(metronome)
{
  for (int k = 0; k < M.n(400, 6000); k++)
  {
    int64_t period = M.r.i(1, 400);
    nodes::metronome n;
    auto c = std::make_shared<curve<double, float>>();
    c->set_x0(0.);
    c->set_y0(float(period));
    c->add_point(curve_segment_linear<float>{}, 1., float(period));
    n.set_curve(c);
    n.reset();
    bench b;
    bool longs = M.r.b(1, 4);
    int64_t d = 0, beats = 0, off = M.r.i(0, 100);
    for (int t = 0; t < 60; t++)
    {
      // at most one beat per tick: ticks no longer than a period
      int64_t e = longs ? M.r.i(1, 3 * period) : M.r.i(1, period);
      b.run(n, tok(d, d + e, off));
      auto& p = vout(n).get_data();
      VCHECK(p.size() <= 1, "metronome.beat", p.size());
      int64_t due = (d + e) / period - d / period;
      VCHECK(int64_t(p.size()) == std::min<int64_t>(due, 1), "metronome.beat", "period ", period, " tick ", d, "->", d + e, " gave ", p.size(), " beats of ", due);
      for (auto& v : p)
        VCHECK(v.value.target<impulse>() && v.timestamp == off, "metronome.value", v.timestamp);
      beats += p.size();
      p.clear();
      d += e;
      M.seen(vp::mix(period, vp::mix(e, d % period)));
    }
    if (!longs)
      VCHECK(beats == d / period, "metronome.count", beats, " beats of ", d / period);
    n.reset();
    if (period > 1)
    {
      b.run(n, tok(0, period - 1));
      VCHECK(vout(n).get_data().empty(), "metronome.reset", "");
      b.run(n, tok(period - 1, period));
      VCHECK(vout(n).get_data().size() == 1, "metronome.reset", "");
    }
    vout(n).clear();
  }
}

VP_SECTION(step)
{
  for (int k = 0; k < M.n(400, 6000); k++)
  {
    static const double rs[] = {1., 0.5, 0.25, 2.};
    double ratio = M.r.pick(rs);
    bench b(ratio);
    nodes::step n;
    int nv = M.r.i(1, 6);
    for (int i = 0; i < nv; i++)
      n.values.push_back(float(M.r.i(-100, 100)));
    n.dur = time_value{M.r.i(1, 60) * 4};
    int64_t P = n.dur.impl / ratio; // in model time
    int64_t d = M.r.b() ? 0 : M.r.i(0, 1000);
    bool aligned = M.r.b(1, 4);
    if (aligned)
      d = 0;
    for (int t = 0; t < 40; t++)
    {
      int64_t e = aligned ? P * M.r.i(1, 2) : cut(2 * P), off = M.r.i(0, 30) * 4;
      b.run(n, tok(d, d + e, off));
      auto& p = vout(n).get_data();
      std::vector<std::pair<float, int64_t>> exp;
      for (int64_t s = (d + P - 1) / P * P; s < d + e; s += P)
        exp.push_back({n.values[(s / P) % nv], int64_t((s - d + off) * ratio)});
      bool ok = p.size() == exp.size();
      for (size_t i = 0; ok && i < exp.size(); i++)
        ok = p[i].value == ossia::value{exp[i].first} && p[i].timestamp == exp[i].second;
      VCHECK(ok, "step.values", "step of ", P, " tick ", d, "->", d + e, " gave ", p.size(), " values of ", exp.size());
      p.clear();
      d += e;
      M.seen(vp::mix(P, vp::mix(e, d % P)));
    }
    // backwards or without values there is nothing to do
    b.run(n, tok(d, d - 1));
    VCHECK(vout(n).get_data().empty(), "step.backward", "");
    n.values.clear();
    b.run(n, tok(0, 3 * P));
    VCHECK(vout(n).get_data().empty(), "step.empty", "");
    n.values.push_back(1.f);
    n.dur = time_value{0};
    b.run(n, tok(0, 3 * P));
    VCHECK(vout(n).get_data().empty(), "step.empty", "");
  }
}

VP_SECTION(simple)
{
  net::generic_device dev{"d"};
  auto pr = net::create_node(dev.get_root_node(), "/a").create_parameter(val_type::FLOAT);
  auto pi = net::create_node(dev.get_root_node(), "/i").create_parameter(val_type::INT);
  auto pv = net::create_node(dev.get_root_node(), "/v").create_parameter(val_type::VEC3F);
  for (int k = 0; k < M.n(500, 8000); k++)
  {
    bench b;
    int64_t par = M.r.i(1, 10000), d = M.r.i(0, par), e = d + M.r.i(1, 100), off = M.r.i(0, 400);
    auto t = tok(d, e, off, par);
    {
      nodes::percentage n{destination{*pr}};
      b.run(n, t);
      auto& p = vout(n).get_data();
      VCHECK(p.size() == 1 && p[0].timestamp == off && p[0].value == ossia::value{float(double(e) / par)}, "percentage.value", p.size());
      VCHECK(n.root_outputs()[0]->address == destination_t{pr}, "percentage.address", "");
      p.clear();
    }
    {
      float lo = M.r.i(-100, 100), hi = lo + M.r.i(1, 50);
      nodes::rand_float n{lo, hi};
      b.run(n, t);
      auto& p = vout(n).get_data();
      float x = p.empty() ? lo - 1 : ossia::convert<float>(p[0].value);
      VCHECK(p.size() == 1 && p[0].timestamp == off && x >= lo && x <= hi, "rand.value", x, " in ", lo, " ", hi);
      M.seen(uint64_t(x * 1e6));
      p.clear();
    }
    {
      nodes::dummy_value_node n;
      int c = M.r.i(0, 5);
      for (int i = 0; i < c; i++)
        vin(n).write_value(ossia::value{int(M.r.i(0, 9))}, i * 3);
      b.run(n, t);
      auto &a = vin(n).get_data(), &o = vout(n).get_data();
      bool ok = a.size() == o.size();
      for (size_t i = 0; ok && i < a.size(); i++)
        ok = a[i].value == o[i].value && a[i].timestamp == o[i].timestamp;
      VCHECK(ok, "dummy.value", o.size(), " of ", c);
    }
    {
      nodes::dummy_midi_node n;
      auto& i = *n.root_inputs()[0]->target<midi_port>();
      auto& o = *n.root_outputs()[0]->target<midi_port>();
      int c = M.r.i(0, 5);
      for (int x = 0; x < c; x++)
        i.messages.push_back(libremidi::message::note_on(1, x, 100));
      b.run(n, t);
      bool ok = int(o.messages.size()) == c;
      for (int x = 0; ok && x < c; x++)
        ok = o.messages[x].bytes == i.messages[x].bytes;
      VCHECK(ok, "dummy.midi", o.messages.size());
    }
    {
      nodes::dummy_audio_node n;
      ain(n).samples.resize(M.r.i(0, 4));
      for (auto& c : ain(n).samples)
        for (int x = 0, z = M.r.i(0, 20); x < z; x++)
          c.push_back(M.r.d(-1, 1));
      b.run(n, t);
      VCHECK(aout(n).samples == ain(n).samples, "dummy.audio", "");
      {
        // the node of an interval also takes a tempo
        nodes::interval iv;
        auto tin = new value_inlet;
        VCHECK(iv.tempo == nodes::interval::no_tempo, "interval.tempo", iv.tempo);
        iv.root_inputs().push_back(tin);
        float x = M.r.i(10, 300);
        bool set = M.r.b();
        if (set)
        {
          tin->target<value_port>()->write_value(12.f, 0);
          tin->target<value_port>()->write_value(x, 1);
        }
        b.run(iv, tok(0, 10));
        VCHECK(iv.tempo == (set ? x : nodes::interval::no_tempo), "interval.tempo", iv.tempo, " ", x);
        nodes::interval none;
        b.run(none, tok(0, 10));
        VCHECK(none.tempo == nodes::interval::no_tempo, "interval.tempo", none.tempo);
      }
      nodes::forward_node f;
      ain(f).samples = ain(n).samples;
      b.run(f, t);
      VCHECK(aout(f).samples == ain(n).samples, "forward.audio", "");
    }
    {
      // an interval takes its tempo from its second inlet
      nodes::interval n;
      VCHECK(n.tempo == nodes::interval::no_tempo, "interval.tempo", n.tempo);
      b.run(n, t);
      VCHECK(n.tempo == nodes::interval::no_tempo, "interval.tempo", n.tempo);
      n.root_inputs().push_back(new value_inlet);
      b.run(n, t);
      VCHECK(n.tempo == nodes::interval::no_tempo, "interval.tempo", n.tempo);
      int c = M.r.i(1, 3);
      float x = 0;
      for (int i = 0; i < c; i++)
        vin(n, 1).write_value(x = M.r.i(20, 300), i);
      b.run(n, t);
      VCHECK(n.tempo == x, "interval.tempo", n.tempo, " instead of ", x);
    }
    {
      // a state is sent when its node runs, once
      ossia::state s;
      float x = M.r.i(-1000, 1000);
      int y = M.r.i(-1000, 1000);
      s.add(ossia::message{destination{*pr}, x, {}});
      s.add(ossia::message{destination{*pi}, y, {}});
      pr->push_value(x + 1);
      pi->push_value(y + 1);
      int got = 0;
      auto it = pr->add_callback([&](auto&) { got++; });
      nodes::state_writer n{s};
      VCHECK(got == 0, "state.sent", "before running");
      b.run(n, t);
      VCHECK(got == 1 && pr->value() == ossia::value{x} && pi->value() == ossia::value{y}, "state.sent", got);
      pr->remove_callback(it);
    }
    {
      // messages go through the execution state
      nodes::messages n;
      b.st.register_device(&dev);
      float x = M.r.i(-1000, 1000);
      int y = M.r.i(-1000, 1000), z = M.r.i(0, 2);
      pv->push_value(ossia::make_vec(1, 2, 3));
      n.data.push_back(ossia::message{destination{*pr}, x, {}});
      n.data.push_back(ossia::message{destination{*pi}, y, {}});
      n.data.push_back(ossia::message{destination{*pv, destination_index{z}}, x, {}});
      b.st.begin_tick();
      b.run(n, t);
      b.st.commit();
      auto v = ossia::make_vec(1, 2, 3);
      v[z] = x;
      VCHECK(pr->value() == ossia::value{x} && pi->value() == ossia::value{y} && pv->value() == ossia::value{v}, "messages.sent", pv->value() == ossia::value{v}, " z ", z);
      b.st.unregister_device(&dev);
    }
    M.seen(vp::mix(par, vp::mix(d, e)));
  }
}

VP_SECTION(gradient)
{
  for (int k = 0; k < M.n(400, 6000); k++)
  {
    bench b;
    nodes::gradient n;
    nodes::gradient::grad_type g;
    int np = M.r.i(0, 5);
    std::vector<std::pair<double, argb>> pts;
    for (int i = 0; i < np; i++)
    {
      argb c{float(1.), float(M.r.d(0.05, 0.95)), float(M.r.d(0.05, 0.95)), float(M.r.d(0.05, 0.95))};
      double x = M.r.i(0, 100) / 100.;
      if (g.find(x) != g.end())
        continue;
      g[x] = hunter_lab{c};
      pts.push_back({x, c});
    }
    std::sort(pts.begin(), pts.end(), [](auto& a, auto& b) { return a.first < b.first; });
    n.set_gradient(g);
    VCHECK(vout(n).type == complex_type{argb_u{}}, "gradient.unit", "");
    for (int t = 0; t < 20; t++)
    {
      int64_t e = M.r.b(1, 3) && !pts.empty() ? int64_t(std::lround(pts[M.r.i(0, pts.size() - 1)].first * 1000)) : M.r.i(0, 1000), off = M.r.i(0, 100);
      e = std::max<int64_t>(e, 1);
      b.run(n, tok(e - 1, e, off, 1000));
      double pos = e / 1000.;
      auto& p = vout(n).get_data();
      VCHECK(p.size() == 1 && p[0].timestamp == off && p[0].value.target<vec4f>(), "gradient.value", p.size());
      vec4f v = *p[0].value.target<vec4f>();
      p.clear();
      auto same = [&](const argb& c) {
        for (int i = 0; i < 4; i++)
          if (std::abs(c.dataspace_value[i] - v[i]) > 2e-3)
            return false;
        return true;
      };
      auto say = [&] {
        std::string s = vp::str("at ", pos, " got ", v[0], " ", v[1], " ", v[2], " ", v[3], " |");
        for (auto& [x, c] : pts)
          s += vp::str(" ", x, ":", c.dataspace_value[1], " ", c.dataspace_value[2], " ", c.dataspace_value[3]);
        return s;
      };
      for (auto x : v)
        VCHECK(x >= 0.f && x <= 1.f, "gradient.range", say());
      if (pts.empty())
        VCHECK((v == vec4f{0, 0, 0, 0}), "gradient.empty", say());
      else if (pos <= pts.front().first)
        VCHECK(same(pts.front().second), "gradient.first", say());
      else if (pos >= pts.back().first)
        VCHECK(same(pts.back().second), "gradient.last", say());
      else
      {
        size_t i = 1;
        while (pts[i].first < pos)
          i++;
        if (pts[i].first == pos)
          VCHECK(same(pts[i].second), "gradient.point", say());
        double c = (pos - pts[i - 1].first) / (pts[i].first - pts[i - 1].first);
        hunter_lab A{pts[i - 1].second}, B{pts[i].second}, R;
        for (int q = 0; q < 3; q++)
          R.dataspace_value[q] = A.dataspace_value[q] * (1 - c) + B.dataspace_value[q] * c;
        argb r{R};
        for (auto& x : r.dataspace_value)
          x = std::clamp(x, 0.f, 1.f);
        VCHECK(same(r), "gradient.between", say());
      }
      M.seen(vp::mix(vp::hash_str(say()), e));
    }
  }
}

// -------------------------------------------------------------------- audio
VP_SECTION(audio)
{
  for (int k = 0; k < M.n(400, 6000); k++)
  {
    bench b;
    int B = b.st.bufferSize;
    {
      // gain
      nodes::gain_node n;
      double g = n.gain;
      for (int t = 0; t < 5; t++)
      {
        int64_t off = M.r.i(0, B - 1), N = M.r.i(0, B - off);
        auto& in = ain(n).samples;
        in.resize(M.r.i(0, 3));
        for (auto& c : in)
        {
          c.resize(M.r.b(1, 3) ? M.r.i(0, B) : B);
          for (auto& x : c)
            x = M.r.d(-1, 1);
        }
        auto& gp = vin(n, 1);
        gp.clear();
        if (M.r.b())
        {
          for (int i = M.r.i(0, 1); i >= 0; i--)
          {
            float db = M.r.i(-60, 12);
            gp.write_value(db, 0);
            g = std::min(1., std::pow(10., db / 20.));
          }
        }
        auto& out = aout(n).samples;
        out.clear();
        b.run(n, tok(1000, 1000 + N, off));
        VCHECK(out.size() == in.size(), "gain.channels", out.size());
        for (size_t c = 0; c < out.size(); c++)
        {
          VCHECK(int64_t(out[c].size()) >= off + N, "gain.size", out[c].size());
          bool ok = true;
          for (int64_t j = off; ok && j < off + N; j++)
            ok = std::abs(out[c][j] - (j < int64_t(in[c].size()) ? g * in[c][j] : 0.)) < 1e-5;
          VCHECK(ok, "gain.samples", "gain ", g, " from ", off, " for ", N, " of ", in[c].size());
        }
      }
      VCHECK(vin(n, 1).type == complex_type{decibel_u{}}, "gain.unit", "");
    }
    {
      // merger: the first two channels of each input, in order
      int c = M.r.i(1, 4);
      nodes::merger n{c};
      std::vector<audio_channel> exp;
      for (int i = 0; i < c; i++)
      {
        auto& s = ain(n, i).samples;
        s.resize(M.r.b(1, 3) ? M.r.i(0, 4) : 2);
        for (auto& ch : s)
        {
          ch.resize(M.r.i(0, 8));
          for (auto& x : ch)
            x = M.r.d(-1, 1);
        }
        for (size_t q = 0; q < std::min<size_t>(2, s.size()); q++)
          exp.push_back(s[q]);
      }
      b.run(n, tok(0, 10));
      auto& o = aout(n).samples;
      bool ok = o.size() == size_t(2 * c);
      for (size_t i = 0; ok && i < exp.size(); i++)
        ok = o[i] == exp[i];
      VCHECK(ok, "merger.samples", o.size(), " channels for ", c, " inputs");
    }
    {
      // a sine is the same signal however time is cut
      static const double sr[] = {1., 2., 0.5};
      bench b(M.r.pick(sr));
      nodes::sine n;
      n.amplitude = M.r.i(1, 10) / 10.;
      double f = 440.;
      if (M.r.b())
      {
        vin(n).write_value(float(f = M.r.i(20, 5000)), 0);
      }
      int64_t d = 0;
      for (int t = 0; t < 6; t++)
      {
        int64_t off = M.r.i(0, 50) * 2, e = M.r.i(1, 100) * 2;
        auto& out = aout(n).samples;
        out.clear();
        b.run(n, tok(d, d + e, off));
        vin(n).clear();
        int64_t s = off * b.ratio, N = e * b.ratio, p = d * b.ratio;
        VCHECK(out.size() == 1 && int64_t(out[0].size()) == s + N, "sine.size", out.size());
        double err = 0;
        for (int64_t j = 0; j < N; j++)
          err = std::max(err, std::abs(out[0][s + j] - n.amplitude * std::sin(2 * M_PI * (p + j) * f / 44100.)));
        VCHECK(err <= n.amplitude * 0.014, "sine.samples", "differs by ", err, " of ", n.amplitude, " at ", f, " Hz");
        VCHECK(n.freq == f, "sine.frequency", n.freq);
        d += e;
      }
      vin(n).write_value(30000.f, 0);
      b.run(n, tok(d, d + 4));
      VCHECK(n.freq == 20000., "sine.frequency", n.freq);
    }
    M.seen(M.r.next());
  }
}

// a sound file played from memory
VP_SECTION(sound)
{
  for (int k = 0; k < M.n(300, 5000); k++)
  {
    // A rate at which dates are whole samples
    constexpr int64_t U = 512;
    bench b{1. / U};
    int B = b.st.bufferSize;
    int chan = M.r.i(1, 3), len = M.r.b(1, 8) ? M.r.i(0, 3) : M.r.i(1, 1500);
    audio_array data;
    data.resize(chan);
    for (auto& c : data)
      for (int i = 0; i < len; i++)
        c.push_back(float(M.r.i(1, 1000)));
    nodes::sound_ref n;
    auto hdl = std::make_shared<audio_data>();
    hdl->data = data;
    n.set_sound(hdl, chan, int(flicks_per_second<int64_t> / U));
    VCHECK(int(n.channels()) == chan && int(n.duration()) == len, "sound.info", n.channels(), " ", n.duration());
    size_t start = M.r.b(1, 3) ? M.r.i(1, 3) : 0, upmix = chan == 1 && M.r.b(1, 3) ? M.r.i(2, 4) : 0;
    n.set_start(start);
    n.set_upmix(upmix);
    bool loops = M.r.b(1, 3);
    int64_t so = M.r.b(1, 3) ? M.r.i(0, len) : 0, ld = M.r.i(1, 800);
    n.set_loop_info(time_value{ld * U}, time_value{so * U}, loops);
    // with a tempo of its own, the loop lasts as long in beats
    double tempo = 120.;
    if (M.r.b(1, 4))
    {
      n.set_native_tempo(M.r.i(40, 200));
      static const double ts[] = {60., 120., 240.};
      tempo = M.r.pick(ts);
      ld = ld & ~1;
      if (ld == 0)
        ld = 2;
      so = so & ~1;
      n.set_loop_info(time_value{ld * U}, time_value{so * U}, loops);
      ld = ld * 120. / tempo;
      so = so * 120. / tempo;
    }
    auto at = [&](int c, int64_t p) -> double {
      if (loops)
        p %= ld;
      p += so;
      return p < len ? data[c][p] : 0.;
    };
    int64_t last = 0; // the date of the end of the previous tick
    int64_t d = 0;
    auto& out = aout(n).samples;
    for (int t = 0; t < 12; t++)
    {
      if (M.r.b(1, 8))
      {
        // the playhead moves
        int64_t to = M.r.i(0, 2000);
        bool back = to < last && M.r.b();
        d = to;
        if (!back)
        n.transport(time_value{d * U});
      }
      if (M.r.b(1, 10) && d > 0)
        d = 0; // it plays again from the beginning: the process has been stopped
      // one tick, in one or several pieces
      out.clear();
      int64_t off = M.r.b() ? 0 : M.r.i(0, B - 1), end = off + M.r.i(1, B - off);
      std::vector<std::vector<double>> exp(chan, std::vector<double>(B, 0.));
      std::string say;
      int64_t o = off;
      bool first = true;
      int lim = M.r.b() ? 1 : 3;
      while (o < end && lim-- > 0)
      {
        int64_t e = lim == 0 ? end - o : M.r.i(1, end - o);
        auto tk = tok(d * U, (d + e) * U, o * U);
        bool sd = first && M.r.b(1, 6), ed = first && M.r.b(1, 6);
        tk.start_discontinuous = sd;
        tk.end_discontinuous = ed;
        if (d == 0 && first)
        {
          // (going back in time is enough)
          if (last <= 0 || M.r.b())
            n.transport(time_value{0});
        }
        tk.tempo = tempo;
        b.run(n, tk);
        for (int c = 0; c < chan; c++)
          for (int64_t j = 0; j < e; j++)
          {
            double g = 1.;
            double x = 1. - double(j) / e;
            if (sd && ed)
              g = 2 * x * (1 - x);
            else if (sd)
              g = 1 - x;
            else if (ed)
              g = std::pow(2., x) - 1;
            exp[c][o + j] = g * at(c, d + j);
          }
        say += vp::str(" ", d, "->", d + e, "@", o, sd ? "s" : "", ed ? "e" : "");
        d += e;
        last = d;
        o += e;
        first = false;
      }
      size_t total = start + std::max<size_t>(upmix, chan);
      VCHECK(out.size() == total, "sound.channels", out.size(), " of ", total, say, " start ", start, " upmix ", upmix);
      for (size_t c = start; c < out.size(); c++)
      {
        int src = upmix ? 0 : c - start;
        bool ok = int(out[c].size()) == B;
        VCHECK(ok, "sound.size", out[c].size());
        int64_t bad = -1;
        for (int64_t j = off; bad < 0 && j < o; j++)
          if (std::abs(out[c][j] - exp[src][j]) > 1e-3)
            bad = j;
        VCHECK(bad < 0, "sound.samples", "sample ", bad, " of channel ", c, " is ", bad < 0 ? 0 : out[c][bad], " instead of ", bad < 0 ? 0 : exp[src][bad], " |", say, " loop ", loops ? ld : 0, " offset ", so, " length ", len, " start ", start, " upmix ", upmix);
      }
      for (size_t c = 0; c < std::min(start, out.size()); c++)
        VCHECK(out[c].empty(), "sound.start", "channel ", c, " before the first is not silent", say);
      M.seen(vp::mix(vp::hash_str(say), vp::mix(len, ld)));
    }
    // paused, backwards or stopped: silence
    out.clear();

    b.run(n, tok(50 * U, 50 * U));
    b.run(n, tok(50 * U, 40 * U));
    for (auto& c : out)
      for (auto x : c)
        VCHECK(x == 0., "sound.paused", x);
    n.set_loop_info(time_value{0}, time_value{0}, true);
    b.run(n, tok(50 * U, 60 * U));
  }
}

// --------------------------------------------------------------------- midi
namespace
{
struct mnote { int64_t s, d; int p, v; };
struct midibench
{
  bench b;
  nodes::midi n;
  std::vector<mnote> notes;
  struct ev { int64_t t; bool on; int p, v; };
  std::vector<ev> log; // of the tick, at dates of the buffer
  std::map<int, int> sounding;
  std::string say;
  midibench() { n.set_channel(3); }
  static nodes::note_data nd(const mnote& m)
  {
    nodes::note_data r;
    r.start = time_value{m.s};
    r.duration = time_value{m.d};
    r.pitch = m.p;
    r.velocity = m.v;
    return r;
  }
  void run(const token_request& t)
  {
    auto& p = *n.root_outputs()[0]->target<midi_port>();
    p.messages.clear();
    b.run(n, t);
    log.clear();
    for (auto& m : p.messages)
    {
      auto type = m.get_message_type();
      VCHECK(m.get_channel() == 3 && m.bytes.size() == 3, "midi.channel", m.get_channel());
      VCHECK(type == libremidi::message_type::NOTE_ON || type == libremidi::message_type::NOTE_OFF, "midi.message", int(type));
      bool on = type == libremidi::message_type::NOTE_ON;
      log.push_back({int64_t(m.timestamp), on, m.bytes[1], m.bytes[2]});
      sounding[m.bytes[1]] += on ? 1 : -1;
    }
    p.messages.clear();
  }
  int still() const
  {
    int s = 0;
    for (auto& [p, c] : sounding)
      s += std::abs(c);
    return s;
  }
  std::string dump() const
  {
    std::string s = "notes";
    for (auto& x : notes)
      s += vp::str(" ", x.s, "+", x.d, ":", x.p);
    s += " |" + say + " | got";
    for (auto& e : log)
      s += vp::str(" ", e.on ? "on" : "off", e.p, "@", e.t);
    return s;
  }
  // the notes which start or end in a tick
  void expect(int64_t a, int64_t b, int64_t off, const std::vector<mnote>& playing, const char* rule)
  {
    std::vector<std::tuple<int64_t, bool, int, int>> e, g;
    for (auto& x : notes)
      if (x.s >= a && x.s < b)
        e.push_back({x.s - a + off, true, x.p, x.v});
    for (auto& x : playing)
      if (x.s + x.d < b)
        e.push_back({std::max<int64_t>(x.s + x.d - a, 0) + off, false, x.p, 0});
    for (auto& x : log)
      g.push_back({x.t, x.on, x.p, x.on ? x.v : 0});
    std::sort(e.begin(), e.end());
    std::sort(g.begin(), g.end());
    VCHECK(e == g, rule, "expected ", e.size(), " messages, got ", g.size(), " ", dump());
  }
};
mnote anote(int64_t len)
{
  mnote m;
  m.s = M.r.b(1, 4) ? M.r.i(0, 3) * 10 : M.r.i(0, len);
  m.d = M.r.b(1, 4) ? M.r.i(0, 5) : M.r.i(1, len / 2);
  m.p = M.r.i(30, 40);
  m.v = M.r.i(1, 127);
  return m;
}
}
// samples as they are in files
VP_SECTION(samples)
{
  for (int k = 0; k < M.n(400, 6000); k++)
  {
    int chan = M.r.i(1, 4), len = M.r.i(0, 20);
    std::vector<std::vector<float>> b(chan, std::vector<float>(len + 1, 777.f));
    std::vector<double> exp;
    mutable_audio_span<float> span;
    for (auto& c : b)
      span.push_back(mutable_audio_span<float>::value_type{c.data(), c.size()});
    int fmt = M.r.i(0, 5);
    std::vector<uint8_t> raw;
    auto put = [&](auto x) {
      auto p = reinterpret_cast<const uint8_t*>(&x);
      raw.insert(raw.end(), p, p + sizeof(x));
    };
    for (int i = 0; i < len * chan; i++)
    {
      int64_t e = M.r.i(0, 5);
      switch (fmt)
      {
        case 0:
        {
          uint8_t x = e == 0 ? 0 : e == 1 ? 255 : M.r.i(0, 255);
          put(x), exp.push_back(x / 127. - 1.);
          break;
        }
        case 1:
        {
          int16_t x = e == 0 ? -32768 : e == 1 ? 32767 : M.r.i(-32768, 32767);
          put(x), exp.push_back((x + .5) / 32767.5);
          break;
        }
        case 2:
        {
          int32_t x = e == 0 ? -8388608 : e == 1 ? 8388607 : M.r.i(-8388608, 8388607);
          raw.push_back(x & 255), raw.push_back((x >> 8) & 255), raw.push_back((x >> 16) & 255);
          exp.push_back(x / 8388608.);
          break;
        }
        case 3:
        {
          int32_t x = e == 0 ? INT32_MIN : e == 1 ? INT32_MAX : int32_t(uint32_t(M.r.next()));
          put(x), exp.push_back(x / 2147483647.);
          break;
        }
        case 4:
        {
          float x = M.r.d(-2, 2);
          put(x), exp.push_back(x);
          break;
        }
        default:
        {
          double x = M.r.d(-2, 2);
          put(x), exp.push_back(x);
          break;
        }
      }
    }
    raw.shrink_to_fit();
    auto d = static_cast<void*>(raw.data());
    switch (fmt)
    {
      case 0: snd::read_u8(span, d, len); break;
      case 1: snd::read_s16(span, d, len); break;
      case 2: snd::read_s24(span, d, len); break;
      case 3: snd::read_s32(span, d, len); break;
      case 4: snd::read_f32(span, d, len); break;
      default: snd::read_f64(span, d, len); break;
    }
    for (int c = 0; c < chan; c++)
    {
      for (int j = 0; j < len; j++)
        VCHECK(std::abs(b[c][j] - exp[j * chan + c]) < 1e-5, "samples.read", "format ", fmt, " sample ", j, " of ", chan, ": ", b[c][j], " instead of ", exp[j * chan + c]);
      VCHECK(b[c][len] == 777.f, "samples.end", "format ", fmt);
    }
    M.seen(M.r.next());
  }
}

// a sound played at another speed
VP_SECTION(repitch)
{
  for (int k = 0; k < M.n(12, 150); k++)
  {
    constexpr int64_t U = 512;
    bench b{1. / U};
    int B = b.st.bufferSize;
    int chan = M.r.i(1, 3);
    const int len = 12000;
    std::vector<double> w, ph;
    audio_array data;
    data.resize(chan);
    for (auto& c : data)
    {
      w.push_back(M.r.d(0.005, 0.08));
      ph.push_back(M.r.d(0, 6));
      for (int i = 0; i < len; i++)
        c.push_back(std::sin(w.back() * i + ph.back()));
    }
    nodes::sound_ref n;
    auto hdl = std::make_shared<audio_data>();
    hdl->data = data;
    n.set_sound(hdl, chan, int(flicks_per_second<int64_t> / U));
    resampler rs;
    rs.reset(0, audio_stretch_mode::Repitch, chan, 44100);
    VCHECK(rs.stretch() && rs.next_sample_to_read() == 0, "repitch.mode", "");
    n.set_resampler(std::move(rs));
    static const double ts[] = {60., 90., 120., 150., 240.};
    double native = M.r.b(1, 4) ? 0. : 120., tempo = M.r.pick(ts);
    n.set_native_tempo(native);
    double ratio = native == 0. ? 1. : native / tempo;
    int64_t d = 0;
    auto& out = aout(n).samples;
    for (int t = 0; t < 20; t++)
    {
      out.clear();
      int64_t off = M.r.b() ? 0 : M.r.i(0, B - 1), e = M.r.i(1, B - off);
      if ((d + e) / ratio > len - 600)
        break;
      auto tk = tok(d * U, (d + e) * U, off * U);
      tk.tempo = tempo;
      b.run(n, tk);
      VCHECK(int(out.size()) == chan, "repitch.channels", out.size());
      for (int c = 0; c < int(out.size()); c++)
      {
        double err = 0;
        for (int64_t j = 0; j < e; j++)
          if (d + j > 600)
            err = std::max(err, std::abs(out[c][off + j] - std::sin(w[c] * (d + j) / ratio + ph[c])));
        VCHECK(err < 0.02, "repitch.samples", "differs by ", err, " at ", d, " ratio ", ratio, " channel ", c);
      }
      d += e;
      M.seen(vp::mix(d, e));
    }
  }
}

VP_SECTION(midi)
{
  for (int k = 0; k < M.n(500, 8000); k++)
  {
    midibench w;
    int64_t len = M.r.i(20, 300);
    int nn = M.r.i(0, 8);
    for (int i = 0; i < nn; i++)
      w.notes.push_back(anote(len));
    if (nn > 1 && M.r.b())
      w.notes[1].s = w.notes[0].s; // a chord
    if (M.r.b())
    {
      nodes::midi::note_set s;
      for (auto& x : w.notes)
        s.insert(midibench::nd(x));
      w.n.set_notes(std::move(s));
    }
    else
      for (auto& x : w.notes)
        w.n.add_note(midibench::nd(x));

    bool edits = M.r.b(1, 3), jumps = M.r.b(1, 3);
    for (int run = 0; run < 2; run++)
    {
      int64_t d = 0;
      std::vector<mnote> playing;
      w.say = "";
      for (int t = 0; t < 25 && d < len * 2; t++)
      {
        if (jumps && M.r.b(1, 5))
        {
          int64_t to = M.r.b(1, 4) ? 0 : M.r.i(0, len);
          if (M.r.b())
            w.n.transport(time_value{to});
          w.say += vp::str(" jump ", to);
          if (to != d)
            for (auto& x : playing) // what plays is stopped, at the next tick
              x.d = 0, x.s = std::min<int64_t>(x.s, 0);
          d = to;
        }
        if (edits && M.r.b(1, 3))
        {
          if (w.notes.empty() || M.r.b())
          {
            auto m = anote(len);
            if (M.r.b(1, 4))
              m.s = d;
            w.notes.push_back(m);
            w.n.add_note(midibench::nd(m));
            w.say += vp::str(" add ", m.s, "+", m.d, ":", m.p);
          }
          else
          {
            int i = M.r.i(0, w.notes.size() - 1);
            auto m = w.notes[i];
            bool up = M.r.b(1, 3);
            auto r = anote(len);
            if (up)
              w.n.update_note(midibench::nd(m), midibench::nd(r));
            else
              w.n.remove_note(midibench::nd(m));
            w.say += vp::str(up ? " update " : " remove ", m.s, "+", m.d, ":", m.p);
            w.notes.erase(w.notes.begin() + i);
            if (up)
              w.notes.push_back(r);
            for (auto& x : playing)
              if (x.s == m.s && x.d == m.d && x.p == m.p && x.v == m.v)
              {
                x.d = 0, x.s = std::min<int64_t>(x.s, 0);
                break;
              }
          }
        }
        int64_t e = cut(30), off = M.r.i(0, 60);
        w.say += vp::str(" ", d, "->", d + e);
        w.run(tok(d, d + e, off));
        for (auto& x : w.notes)
          if (x.s >= d && x.s < d + e)
            playing.push_back(x);
        w.expect(d, d + e, off, playing, edits ? "midi.edited" : jumps ? "midi.moved" : "midi.notes");
        playing.erase(std::remove_if(playing.begin(), playing.end(), [&](auto& x) { return x.s + x.d < d + e; }), playing.end());
        VCHECK(w.still() == int(playing.size()), "midi.sounding", w.still(), " of ", playing.size(), " ", w.dump());
        d += e;
        M.seen(vp::hash_str(w.dump()));
      }
      // stopped: silence, and ready to play again
      auto np = std::make_shared<nodes::midi>();
      w.n.mustStop = true;
      w.run(token_request{});
      VCHECK(w.still() == 0, "midi.stop", w.still(), " notes still sound ", w.dump());
      auto& mp = *w.n.root_outputs()[0]->target<midi_port>();
      mp.messages.clear();
      w.n.mustStop = true;
      w.run(token_request{});
      VCHECK(mp.messages.empty(), "midi.stop", "stopped again: ", mp.messages.size(), " messages ", w.dump());
    }
  }
}

// processes which loop give their node the time of the loop
VP_SECTION(processes)
{
  for (int k = 0; k < M.n(400, 6000); k++)
  {
    auto n = std::make_shared<nodes::midi>();
    n->set_channel(1);
    auto p = std::make_shared<nodes::midi_node_process>(n);
    bool chain = M.r.b(1, 4);
    std::vector<std::shared_ptr<nodes::dummy_node>> ns;
    auto cp = std::make_shared<node_chain_process>();
    for (int i = M.r.i(1, 3); i > 0; i--)
    {
      ns.push_back(std::make_shared<nodes::dummy_node>());
      cp->add_node(M.r.i(0, cp->nodes.size()), ns.back());
    }
    time_process& tp = chain ? static_cast<time_process&>(*cp) : static_cast<time_process&>(*p);
    int64_t ld = M.r.i(2, 60), so = M.r.b() ? 0 : M.r.i(0, 50);
    bool loops = M.r.b(2, 3);
    tp.set_loops(loops);
    tp.set_loop_duration(time_value{ld});
    tp.set_start_offset(time_value{so});
    nodes::midi::note_set s;
    std::vector<mnote> notes;
    for (int i = M.r.i(0, 5); i > 0; i--)
    {
      mnote m = anote(60);
      m.d = M.r.i(1, 20);
      notes.push_back(m);
      s.insert(midibench::nd(m));
    }
    n->set_notes(std::move(s));
    bench b;
    int64_t d = 0;
    std::map<int, int> sounding;
    for (int t = 0; t < 15; t++)
    {
      int64_t e = M.r.b(1, 4) ? M.r.i(1, 3 * ld) : M.r.i(1, ld), off = M.r.i(0, 100);
      tp.state(tok(d, d + e, off));
      std::vector<std::tuple<int64_t, int64_t, int64_t>> exp, got;
      for (int64_t x = d; x < d + e;)
      {
        int64_t in = loops ? x % ld : x;
        int64_t len = loops ? std::min(ld - in, d + e - x) : e;
        exp.push_back({in + so, in + so + len, off + (x - d)});
        x += len;
      }
      if (chain)
      {
        for (auto& z : ns)
        {
          got.clear();
          for (auto& q : z->requested_tokens)
            got.push_back({q.prev_date.impl, q.date.impl, q.offset.impl});
          z->requested_tokens.clear();
          VCHECK(got == exp, "process.tokens", got.size(), " of ", exp.size());
        }
      }
      else
      {
        for (auto& q : n->requested_tokens)
          got.push_back({q.prev_date.impl, q.date.impl, q.offset.impl});
        VCHECK(got == exp, "process.tokens", got.size(), " of ", exp.size(), " loop ", ld, " offset ", so);
        // and what the node plays in each of them
        std::multiset<std::tuple<int64_t, int>> on, eon;
        auto& mp = *n->root_outputs()[0]->target<midi_port>();
        for (auto& q : n->requested_tokens)
        {
          b.run(*n, q);
          for (auto& x : notes)
            if (x.s >= q.prev_date.impl && x.s < q.date.impl)
              eon.insert({x.s - q.prev_date.impl + q.offset.impl, x.p});
        }
        n->requested_tokens.clear();
        for (auto& m : mp.messages)
        {
          bool o = m.get_message_type() == libremidi::message_type::NOTE_ON;
          if (o)
            on.insert({int64_t(m.timestamp), m.bytes[1]});
          sounding[m.bytes[1]] += o ? 1 : -1;
          VCHECK(sounding[m.bytes[1]] >= 0, "midi.loop", "a note stops which does not play");
        }
        mp.messages.clear();
        VCHECK(on == eon, "midi.loop", on.size(), " notes started of ", eon.size(), " loop ", ld, " offset ", so, " tick ", d, "->", d + e);
      }
      d += e;
      M.seen(vp::mix(vp::mix(ld, so), vp::mix(d % ld, e)));
    }
    if (!chain)
    {
      p->stop();
      VCHECK(!n->requested_tokens.empty(), "process.stop", "");
      for (auto& q : n->requested_tokens)
        b.run(*n, q);
      n->requested_tokens.clear();
      for (auto& m : n->root_outputs()[0]->target<midi_port>()->messages)
        sounding[m.bytes[1]] += m.get_message_type() == libremidi::message_type::NOTE_ON ? 1 : -1;
      int still = 0;
      for (auto& [q, c] : sounding)
        still += std::abs(c);
      VCHECK(still == 0, "midi.stop", still, " notes still sound");
    }
  }
}

VP_MAIN
