// C01: arithmetic and ordering of dates/durations.
// Oracle: exact 128-bit integer model, infinity = anything >= infinite_min.
#include "vp.hpp"
#include <ossia/editor/scenario/time_signature.hpp>
#include <ossia/editor/scenario/time_value.hpp>
#include <ossia/detail/flicks.hpp>
using namespace ossia;
using i128 = __int128;
using vp::M;
static const int64_t INFM = (int64_t(1) << 60) - 1; // max/8
static const int64_t INFV = (int64_t(1) << 62) - 1; // max/2

static int64_t gen(vp::rng& r, bool inf = true)
{
  switch (r.i(0, inf ? 9 : 7))
  {
    case 0: return 0;
    case 1: return r.i(-3, 3);
    case 2: return r.i(-1000, 1000);
    case 3: return 705600 * r.i(-5000, 5000);
    case 4: return r.mag(60) % INFM;
    case 5: return -(r.mag(59));
    case 6: return INFM - r.i(1, 3);
    case 7: return r.mag(32);
    case 8: return r.b() ? INFV : INFM;
    default: return INFM + r.mag(61) % (INFV - INFM);
  }
}
static bool inf(int64_t v) { return v >= INFM; }
static std::string S(int64_t v) { return inf(v) ? vp::str("inf(", v, ")") : vp::str(v); }

VP_SECTION(constants)
{
  M.at("constants");
  VCHECK(time_value::infinite_min == std::numeric_limits<int64_t>::max() / 8, "constants.infinite_min");
  VCHECK(time_value::infinity == std::numeric_limits<int64_t>::max() / 2, "constants.infinity");
  VCHECK(Infinite.infinite() && Infinite.impl == INFV, "constants.Infinite");
  VCHECK(Zero.impl == 0 && One.impl == 1, "constants.zero_one");
  VCHECK(flicks_per_second<int64_t> == 705600000, "constants.flicks_per_second");
  VCHECK(flicks_per_millisecond<int64_t> == 705600, "constants.flicks_per_ms");
  VCHECK(flicks_per_second<double> == 705600000., "constants.flicks_per_second_d");
  VCHECK(flicks_per_millisecond<double> == 705600., "constants.flicks_per_ms_d");
  VCHECK(std::abs(flicks_per_microsecond<double> - 705.6) < 1e-9, "constants.flicks_per_us");
  VCHECK(quarter_duration<int64_t> == 352800000, "constants.quarter");
  VCHECK(quarter_duration<double> == 352800000., "constants.quarter_d");
  VCHECK(root_tempo == 120., "constants.tempo");
  VCHECK((123_tv).impl == 123 && (12.7_tv).impl == 12, "constants.literals");
  time_signature sig;
  VCHECK(sig.upper == 4 && sig.lower == 4, "constants.default_signature");
  for (int k = 0; k < 400; k++)
  {
    time_signature a{uint16_t(M.r.i(1, 5)), uint16_t(M.r.i(1, 5))}, b{uint16_t(M.r.i(1, 5)), uint16_t(M.r.i(1, 5))};
    bool eq = a.upper == b.upper && a.lower == b.lower;
    VCHECK((a == b) == eq && (a != b) == !eq, "signature.equality", a.upper, "/", a.lower, " ", b.upper, "/", b.lower);
    M.seen(vp::mix(a.upper * 100 + a.lower, b.upper * 100 + b.lower));
  }
}

VP_SECTION(order)
{
  const size_t N = M.n(60000);
  for (size_t k = 0; k < N; k++)
  {
    int64_t a = gen(M.r), b = M.r.b(1, 5) ? a : gen(M.r), c = gen(M.r);
    M.at("order");
    time_value x{a}, y{b}, z{c};
    i128 ma = inf(a) ? INFM : a, mb = inf(b) ? INFM : b;
    auto D = [&] { return S(a) + " vs " + S(b); };
    std::string cls = inf(a) && inf(b) ? "inf-inf" : inf(a) || inf(b) ? "inf-finite" : "finite";
    VCHECK(x.infinite() == inf(a), "order.infinite", D());
    VCHECKC((x == y) == (ma == mb), "order.==", cls, D());
    VCHECKC((x != y) == (ma != mb), "order.!=", cls, D());
    VCHECKC((x < y) == (ma < mb), "order.<", cls, D());
    VCHECKC((x > y) == (ma > mb), "order.>", cls, D());
    VCHECKC((x <= y) == (ma <= mb), "order.<=", cls, D());
    VCHECKC((x >= y) == (ma >= mb), "order.>=", cls, D());
    // transitivity on the triple
    if (x < y && y < z)
      VCHECK(x < z, "order.transitive", D(), " ", S(c));
    if (x <= y && y <= z)
      VCHECK(x <= z, "order.transitive_le", D(), " ", S(c));
    M.seen(vp::mix(a, vp::mix(b, c)));
    M.sample(D());
  }
}

VP_SECTION(add_sub)
{
  const size_t N = M.n(120000);
  for (size_t k = 0; k < N; k++)
  {
    int64_t a = gen(M.r), b = gen(M.r);
    M.at("add_sub");
    time_value x{a}, y{b};
    bool anyinf = inf(a) || inf(b);
    auto D = [&](int64_t got) { return vp::str(S(a), " , ", S(b), " -> ", S(got)); };
    std::string cls = anyinf ? "inf" : (a < 0) == (b < 0) ? "same-sign" : "mixed-sign";
    auto judge = [&](const char* rule, time_value got, i128 exact, bool isinf) {
      if (isinf)
        VCHECKC(got.infinite(), rule, "inf", D(got.impl));
      else if (exact >= INFM)
        VCHECKC(got.infinite(), rule, "saturates", D(got.impl));
      else if (exact > -(i128)INFM)
        VCHECKC(!got.infinite() && got.impl == (int64_t)exact, rule, cls, D(got.impl));
      // below -infinite_min: outside of what the type represents
    };
    judge("add.time+time", x + y, (i128)a + b, anyinf);
    judge("sub.time-time", x - y, (i128)a - b, anyinf);
    {
      auto t = x;
      t += y;
      judge("add.time+=time", t, (i128)a + b, anyinf);
    }
    {
      auto t = x;
      t -= y;
      judge("sub.time-=time", t, (i128)a - b, anyinf);
    }
    if (!inf(b))
    {
      judge("add.time+int", x + b, (i128)a + b, inf(a));
      judge("sub.time-int", x - b, (i128)a - b, inf(a));
      auto t = x;
      t += b;
      judge("add.time+=int", t, (i128)a + b, inf(a));
      t = x;
      t -= b;
      judge("sub.time-=int", t, (i128)a - b, inf(a));
      if (b >= 0)
      {
        judge("add.time+uint", x + uint64_t(b), (i128)a + b, inf(a));
        judge("sub.time-uint", x - uint64_t(b), (i128)a - b, inf(a));
      }
      if (std::abs(b) < (int64_t(1) << 52))
      {
        judge("add.time+double", x + double(b), (i128)a + b, inf(a));
        judge("sub.time-double", x - double(b), (i128)a - b, inf(a));
        // fractions are dropped towards zero
        if (b >= 0 && b < (1 << 20))
        {
          judge("add.time+fraction", x + (b + 0.75), (i128)a + b, inf(a));
          judge("sub.time-fraction", x - (b + 0.75), (i128)a - b, inf(a));
        }
      }
    }
    // algebra on finite values
    if (!anyinf && std::abs(a) < (INFM >> 2) && std::abs(b) < (INFM >> 2))
    {
      VCHECK((x + y) - y == x, "algebra.add_sub_inverse", D(((x + y) - y).impl));
      VCHECK((x - y) + y == x, "algebra.sub_add_inverse", D(((x - y) + y).impl));
      VCHECK(x + y == y + x, "algebra.commutes", D((x + y).impl));
    }
    {
      time_value t{a};
      -t;
      VCHECK(inf(a) ? t.infinite() : t.impl == -a, "neg", D(t.impl));
      t = int64_t(b);
      VCHECK(t.impl == b, "assign.int", D(t.impl));
    }
    {
      auto n = norm(x, y);
      if (anyinf)
        VCHECK(n.infinite(), "norm.inf", D(n.impl));
      else
        VCHECK(n.impl == std::abs(a - b) && n == norm(y, x), "norm", D(n.impl));
      auto m = ossia::abs(x);
      VCHECK(m.impl == std::abs(a), "abs", D(m.impl));
    }
    M.seen(vp::mix(a, b));
    M.sample(vp::str(S(a), " + ", S(b), " = ", S((x + y).impl)));
  }
}

VP_SECTION(scale)
{
  const size_t N = M.n(60000);
  for (size_t k = 0; k < N; k++)
  {
    M.at("scale");
    int64_t a = M.r.mag(40) * (M.r.b() ? 1 : -1);
    int32_t m = M.r.i(-1000, 1000);
    time_value x{a};
    auto D = [&](int64_t got) { return vp::str(a, " * ", m, " -> ", got); };
    VCHECK((x * m).impl == a * m, "scale.int32", D((x * m).impl));
    VCHECK((x * int64_t(m)).impl == a * m, "scale.int64", D((x * int64_t(m)).impl));
    if (m >= 0)
    {
      VCHECK((x * uint32_t(m)).impl == a * m, "scale.uint32", D((x * uint32_t(m)).impl));
      VCHECK((x * uint64_t(m)).impl == a * m, "scale.uint64", D((x * uint64_t(m)).impl));
    }
    double f = m / 64.;
    VCHECK((x * f).impl == int64_t(a * f), "scale.double", D((x * f).impl));
    if (std::abs(a) < 8192)
      VCHECK((x * float(f)).impl == int64_t(a * f), "scale.float", D((x * float(f)).impl));
    int64_t b = M.r.i(1, 1000000);
    VCHECK((x / time_value{b}) == double(a) / double(b), "div", a, "/", b);
    VCHECK((x % time_value{b}).impl == a % b, "mod", a, "%", b, " -> ", (x % time_value{b}).impl);
    VCHECK((x - (x % time_value{b})).impl % b == 0, "mod.divides", a, " ", b);
    // samples: nearest integer of t * rate / flicks
    double rate = M.r.pick(std::vector<double>{0.125, 0.5, 1, 2.5, 8000, 22050, 32000, 44100, 48000, 88200, 96000, 192000});
    int64_t s = to_sample(x, rate);
    long double ex = (long double)a * (long double)rate / 705600000.L;
    VCHECK(std::fabs((long double)s - ex) <= 0.5L + 1e-3L, "to_sample.nearest", a, " @", rate, " -> ", s);
    int64_t wh = M.r.i(0, 100000);
    // an exact number of samples of a rate that divides the flicks
    int64_t per = int64_t(705600000 / rate);
    if (per * rate == 705600000.)
      VCHECK(to_sample(time_value{wh * per}, rate) == wh, "to_sample.exact", wh, " samples @", rate);
    VCHECK(to_sample(Infinite, rate) == 0 && to_sample(x, 0.) == 0 && to_sample(x, -1.) == 0, "to_sample.degenerate");
    M.seen(vp::mix(a, vp::mix(m, b)));
  }
}
VP_MAIN
