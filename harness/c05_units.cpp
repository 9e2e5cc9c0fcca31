// C05: units. Every conversion judged against double-precision definitions.
#include "values.hpp"
#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/value_with_unit.hpp>
#include <ossia/network/domain/domain.hpp>
using vp::M;
using mv::val;
using D = std::vector<double>;
static const double PI = 3.14159265358979323846;

struct unit
{
  std::string name; // dataspace.unit
  ossia::unit_t u;
  int n;
  std::string acc;
  std::function<D(const D&)> to, from; // neutral, in doubles
  std::function<D(vp::rng&)> gen;
  std::vector<int> ang; // components that are angles in degrees/turns: modulo
  double turn = 360;
};
static double sgn(double x) { return x < 0 ? -1 : 1; }

static std::vector<unit> make_units()
{
  using namespace ossia;
  std::vector<unit> v;
  auto lin = [&](std::string name, unit_t u, double r) {
    v.push_back({name, u, 1, "", [r](const D& x) { return D{x[0] * r}; }, [r](const D& x) { return D{x[0] / r}; },
                 [](vp::rng& g) { return D{g.d(-100, 100) * std::pow(10., double(g.i(-3, 3)))}; }, {}});
  };
  lin("distance.m", meter_u{}, 1);
  lin("distance.km", kilometer_u{}, 1e3);
  lin("distance.dm", decimeter_u{}, 1e-1);
  lin("distance.cm", centimeter_u{}, 1e-2);
  lin("distance.mm", millimeter_u{}, 1e-3);
  lin("distance.um", micrometer_u{}, 1e-6);
  lin("distance.nm", nanometer_u{}, 1e-9);
  lin("distance.pm", picometer_u{}, 1e-12);
  lin("distance.inches", inch_u{}, 0.0254);
  lin("distance.feet", foot_u{}, 0.3048);
  lin("distance.miles", mile_u{}, 1609.344);
  lin("speed.m/s", meter_per_second_u{}, 1);
  lin("speed.mph", miles_per_hour_u{}, 1609.344 / 3600);
  lin("speed.km/h", kilometer_per_hour_u{}, 1000. / 3600);
  lin("speed.kn", knot_u{}, 1852. / 3600);
  lin("speed.ft/s", foot_per_second_u{}, 0.3048);
  lin("speed.ft/h", foot_per_hour_u{}, 0.3048 / 3600);
  lin("angle.radian", radian_u{}, 1);
  lin("angle.degree", degree_u{}, PI / 180);

  // gain; neutral = linear
  auto gain = [&](std::string name, unit_t u, auto to, auto from, auto gen) {
    v.push_back({name, u, 1, "", [=](const D& x) { return D{to(x[0])}; }, [=](const D& x) { return D{from(x[0])}; }, [=](vp::rng& g) { return D{gen(g)}; }, {}});
  };
  auto l2db = [](double x) { return x <= 0 ? -96. : std::max(20 * std::log10(x), -96.); };
  auto db2l = [](double x) { return x <= -96 ? 0. : std::pow(10., x / 20); };
  const double P = std::log(1.125) / std::log(1.27);
  gain("gain.linear", linear_u{}, [](double x) { return x; }, [](double x) { return x; }, [](vp::rng& g) { return g.b(1, 10) ? 0. : std::pow(10., g.d(-4, 1)); });
  gain("gain.midigain", midigain_u{}, [=](double x) { return x <= 0 ? 0. : db2l(96 * (std::pow(x / 100, P) - 1)); },
       [=](double x) { double db = x <= 0 ? -1e9 : 20 * std::log10(x); return db <= -96 ? 0. : 100 * std::exp(std::log1p(db / 96) / P); },
       [](vp::rng& g) { return g.b(1, 10) ? 0. : g.d(1, 127); });
  gain("gain.db", decibel_u{}, db2l, l2db, [](vp::rng& g) { return g.d(-100, 12); });
  gain("gain.db-raw", decibel_raw_u{}, [](double x) { return std::pow(10., x / 20); }, [](double x) { return 20 * std::log10(x); }, [](vp::rng& g) { return g.d(-100, 12); });

  // time; neutral = seconds
  auto hz = [](double f) { return 1 / f; };
  gain("time.second", second_u{}, [](double x) { return x; }, [](double x) { return x; }, [](vp::rng& g) { return std::pow(10., g.d(-4, 1)); });
  gain("time.bark", bark_u{}, [=](double x) { return 1 / (600 * std::sinh(x / 6)); }, [=](double s) { return 6 * std::asinh(1 / (600 * s)); }, [](vp::rng& g) { return g.d(0.1, 24); });
  gain("time.bpm", bpm_u{}, [=](double x) { return 60 / x; }, [=](double s) { return 60 / s; }, [](vp::rng& g) { return g.d(20, 300); });
  gain("time.cents", cent_u{}, [=](double x) { return 1 / (440 * std::exp2((x - 6900) / 1200)); }, [=](double s) { return 6900 + 1200 * std::log2(1 / (440 * s)); }, [](vp::rng& g) { return g.d(0, 12700); });
  gain("time.Hz", frequency_u{}, hz, hz, [](vp::rng& g) { return std::pow(10., g.d(0, 4.3)); });
  gain("time.mel", mel_u{}, [=](double x) { return 1 / (700 * (std::pow(10, x / 2595) - 1)); }, [=](double s) { return 2595 * std::log10(1 + 1 / (700 * s)); }, [](vp::rng& g) { return g.d(10, 4000); });
  gain("time.midinote", midi_pitch_u{}, [=](double x) { return 1 / (440 * std::exp2((x - 69) / 12)); }, [=](double s) { return 69 + 12 * std::log2(1 / (440 * s)); }, [](vp::rng& g) { return g.d(0, 127); });
  gain("time.ms", millisecond_u{}, [=](double x) { return x / 1000; }, [=](double s) { return s * 1000; }, [](vp::rng& g) { return std::pow(10., g.d(-1, 4)); });
  const double k0 = std::exp2(69. / 12.) / 440;
  gain("time.speed", playback_speed_u{}, [=](double x) { return k0 / x; }, [=](double s) { return k0 / s; }, [](vp::rng& g) { return g.d(0.1, 8); });

  // position; neutral = cart3D
  auto vec = [&](std::string name, unit_t u, int n, std::string acc, auto to, auto from, auto gen, std::vector<int> ang = {}, double turn = 360) {
    v.push_back({name, u, n, acc, to, from, gen, ang, turn});
  };
  auto id = [](const D& x) { return x; };
  auto cube = [](int n, double a, double b) { return [=](vp::rng& g) { D r; for (int i = 0; i < n; i++) r.push_back(g.b(1, 20) ? (g.b() ? a : b) : g.d(a, b)); return r; }; };
  const double dr = PI / 180;
  vec("position.cart3D", cartesian_3d_u{}, 3, "xyz", id, id, cube(3, -10, 10));
  vec("position.cart2D", cartesian_2d_u{}, 2, "xy", [](const D& x) { return D{x[0], x[1], 0}; }, [](const D& x) { return D{x[0], x[1]}; }, cube(2, -10, 10));
  vec("position.spherical", spherical_u{}, 3, "rtp",
      [=](const D& x) { double a = x[0] * dr, e = x[1] * dr, d = x[2]; return D{std::sin(a) * std::cos(e) * d, std::cos(a) * std::cos(e) * d, std::sin(e) * d}; },
      [=](const D& x) { return D{std::atan2(x[0], x[1]) / dr, std::atan2(x[2], std::hypot(x[0], x[1])) / dr, std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])}; },
      [](vp::rng& g) { return D{g.d(-175, 175), g.d(-85, 85), g.d(0.1, 10)}; }, {0, 1});
  vec("position.polar", polar_u{}, 2, "rp", [=](const D& x) { return D{std::sin(x[0] * dr) * x[1], std::cos(x[0] * dr) * x[1], 0}; },
      [=](const D& x) { return D{std::atan2(x[0], x[1]) / dr, std::hypot(x[0], x[1])}; }, [](vp::rng& g) { return D{g.d(-175, 175), g.d(0.1, 10)}; }, {0});
  vec("position.openGL", opengl_u{}, 3, "xyz", [](const D& x) { return D{x[0], -x[2], x[1]}; }, [](const D& x) { return D{x[0], x[2], -x[1]}; }, cube(3, -10, 10));
  vec("position.cylindrical", cylindrical_u{}, 3, "rpz", [=](const D& x) { return D{std::sin(x[1] * dr) * x[0], std::cos(x[1] * dr) * x[0], x[2]}; },
      [=](const D& x) { return D{std::hypot(x[0], x[1]), std::atan2(x[0], x[1]) / dr, x[2]}; }, [](vp::rng& g) { return D{g.d(0.1, 10), g.d(-175, 175), g.d(-10, 10)}; }, {1});

  // orientation; neutral = quaternion x y z w
  auto quat = [](vp::rng& g) { D q; double n = 0; for (int i = 0; i < 4; i++) { q.push_back(g.d(-1, 1)); n += q[i] * q[i]; } n = std::sqrt(n); if (n < 1e-3) return D{0, 0, 0, 1}; for (auto& x : q) x /= n; return q; };
  vec("orientation.quaternion", quaternion_u{}, 4, "abcd", id, id, quat);
  vec("orientation.euler", euler_u{}, 3, "ypr",
      [=](const D& x) {
        // roll about y, then pitch about x, then yaw about -z
        double y = -x[0] * dr / 2, p = x[1] * dr / 2, r = x[2] * dr / 2;
        double sy = sin(y), cy = cos(y), sp = sin(p), cp = cos(p), sr = sin(r), cr = cos(r);
        auto mul = [](D a, D b) { return D{a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0], a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]}; };
        return mul(mul(D{0, 0, sy, cy}, D{sp, 0, 0, cp}), D{0, sr, 0, cr});
      },
      [=](const D& q) {
        double x = q[0], y = q[1], z = q[2], w = q[3];
        return D{std::atan2(-2 * (z * w - x * y), w * w - x * x + y * y - z * z) / dr, std::asin(std::clamp(2 * (w * x + y * z), -1., 1.)) / dr,
                 std::atan2(2 * (w * y - x * z), w * w - x * x - y * y + z * z) / dr};
      },
      [](vp::rng& g) { return D{g.d(-175, 175), g.d(-85, 85), g.d(-175, 175)}; }, {0, 1, 2});
  vec("orientation.axis", axis_u{}, 4, "xyzw",
      [=](const D& x) { double n = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); double s = std::sin(x[3] * dr / 2) / (n > 0 ? n : 1); return D{x[0] * s, x[1] * s, x[2] * s, std::cos(x[3] * dr / 2)}; },
      [=](const D& q) { double s = std::sqrt(std::max(0., 1 - q[3] * q[3])); double k = s < 0.0005 ? 1 : 1 / s; return D{q[0] * k, q[1] * k, q[2] * k, 2 * std::atan2(s, q[3]) / dr}; },
      [=](vp::rng& g) { D a{g.d(-1, 1), g.d(-1, 1), g.d(-1, 1)}; if (std::abs(a[0]) + std::abs(a[1]) + std::abs(a[2]) < 0.1) a[0] = 1; a.push_back(g.d(5, 350)); return a; }, {3});

  // color; neutral = argb
  vec("color.argb", argb_u{}, 4, "argb", id, id, cube(4, 0, 1));
  vec("color.rgba", rgba_u{}, 4, "rgba", [](const D& x) { return D{x[3], x[0], x[1], x[2]}; }, [](const D& x) { return D{x[1], x[2], x[3], x[0]}; }, cube(4, 0, 1));
  vec("color.rgb", rgb_u{}, 3, "rgb", [](const D& x) { return D{1, x[0], x[1], x[2]}; }, [](const D& x) { return D{x[1], x[2], x[3]}; }, cube(3, 0, 1));
  vec("color.bgr", bgr_u{}, 3, "bgr", [](const D& x) { return D{1, x[2], x[1], x[0]}; }, [](const D& x) { return D{x[3], x[2], x[1]}; }, cube(3, 0, 1));
  vec("color.argb8", argb8_u{}, 4, "argb", [](const D& x) { return D{x[0] / 255, x[1] / 255, x[2] / 255, x[3] / 255}; }, [](const D& x) { return D{x[0] * 255, x[1] * 255, x[2] * 255, x[3] * 255}; }, cube(4, 0, 255));
  vec("color.rgba8", rgba8_u{}, 4, "rgba", [](const D& x) { return D{x[3] / 255, x[0] / 255, x[1] / 255, x[2] / 255}; }, [](const D& x) { return D{x[1] * 255, x[2] * 255, x[3] * 255, x[0] * 255}; }, cube(4, 0, 255));
  vec("color.hsv", hsv_u{}, 3, "hsv",
      [](const D& x) {
        auto f = [&](double n) { double k = std::fmod(n + x[0] * 6, 6); return x[2] - x[2] * x[1] * std::max(0., std::min({k, 4 - k, 1.})); };
        return D{1, f(5), f(3), f(1)};
      },
      [](const D& x) {
        double r = x[1], g = x[2], b = x[3], mx = std::max({r, g, b}), mn = std::min({r, g, b}), d = mx - mn, h = 0;
        if (d == 0) return D{0, 0, mx};
        if (mx == r) h = std::fmod((g - b) / d + 6, 6); else if (mx == g) h = (b - r) / d + 2; else h = (r - g) / d + 4;
        return D{h / 6, d / mx, mx};
      },
      [](vp::rng& g) { return D{g.b(1, 10) ? g.i(0, 6) / 6. : g.d(0, 1), g.b(1, 10) ? double(g.i(0, 1)) : g.d(0.05, 1), g.d(0.05, 1)}; }, {0}, 1);
  vec("color.cmy8", cmy8_u{}, 3, "cmy", [](const D& x) { return D{1, 1 - x[0] / 255, 1 - x[1] / 255, 1 - x[2] / 255}; }, [](const D& x) { return D{255 * (1 - x[1]), 255 * (1 - x[2]), 255 * (1 - x[3])}; }, cube(3, 0, 255));
  // sRGB / D65, the matrices of easyrgb.com
  auto enc = [](double c) { return c > 0.0031308 ? 1.055 * std::pow(c, 1 / 2.4) - 0.055 : 12.92 * c; };
  auto dec = [](double c) { return 100 * (c > 0.04045 ? std::pow((c + 0.055) / 1.055, 2.4) : c / 12.92); };
  auto xyz_from = [=](const D& x) {
    double r = dec(x[1]), g = dec(x[2]), b = dec(x[3]);
    return D{r * 0.4124 + g * 0.3576 + b * 0.1805, r * 0.2126 + g * 0.7152 + b * 0.0722, r * 0.0193 + g * 0.1192 + b * 0.9505};
  };
  vec("color.cie_xyz", xyz_u{}, 3, "xyz",
      [=](const D& x) {
        double X = x[0] / 100, Y = x[1] / 100, Z = x[2] / 100;
        return D{1, enc(X * 3.2406 - Y * 1.5372 - Z * 0.4986), enc(-X * 0.9689 + Y * 1.8758 + Z * 0.0415), enc(X * 0.0557 - Y * 0.2040 + Z * 1.0570)};
      },
      xyz_from,
      [=](vp::rng& g) { return xyz_from(D{1, g.d(0, 1), g.d(0, 1), g.d(0, 1)}); });
  return v;
}
static const std::vector<unit>& units()
{
  static const auto v = make_units();
  return v;
}
static std::string ds(const unit& u) { return u.name.substr(0, u.name.find('.')); }
static ossia::value mkv(const D& d)
{
  auto f = [&](int i) { return float(d[i]); };
  switch (d.size())
  {
    case 1: return ossia::value{f(0)};
    case 2: return ossia::value{ossia::vec2f{f(0), f(1)}};
    case 3: return ossia::value{ossia::vec3f{f(0), f(1), f(2)}};
    default: return ossia::value{ossia::vec4f{f(0), f(1), f(2), f(3)}};
  }
}
static D rd(const ossia::value& v)
{
  auto arr = [](const auto& a) { D r; for (auto x : a) r.push_back(x); return r; };
  switch (v.get_type())
  {
    case ossia::val_type::FLOAT: return {v.get<float>()};
    case ossia::val_type::VEC2F: return arr(v.get<ossia::vec2f>());
    case ossia::val_type::VEC3F: return arr(v.get<ossia::vec3f>());
    case ossia::val_type::VEC4F: return arr(v.get<ossia::vec4f>());
    default: return {};
  }
}
static std::string Sd(const D& d)
{
  std::string s = "(";
  for (auto x : d)
    s += vp::str(x, " ");
  return s + ")";
}
// distance of two readings in unit u, per component
static double dist(const unit& u, int i, double a, double b)
{
  double d = std::abs(a - b);
  if (std::find(u.ang.begin(), u.ang.end(), i) != u.ang.end())
  {
    d = std::fmod(d, u.turn);
    d = std::min(d, u.turn - d);
  }
  return d;
}
// expected reading in `b` of x in `a`, with the error that single precision allows
static bool expected(const unit& a, const unit& b, const D& x, D& e, D& tol)
{
  D n = a.to(x);
  double mx = 0;
  for (auto c : n)
    mx = std::max(mx, std::abs(c));
  e = b.from(n);
  tol.assign(e.size(), 0.);
  auto probe = [&](const D& m) {
    D f = b.from(m);
    for (size_t i = 0; i < f.size(); i++)
      tol[i] += dist(b, i, f[i], e[i]);
  };
  // error in the neutral
  for (size_t c = 0; c < n.size(); c++)
    for (double s : {-1., 1.})
    {
      D m = n;
      m[c] += s * (mx * 4e-7);
      probe(m);
    }
  // error of the input
  for (size_t c = 0; c < x.size(); c++)
    for (double s : {-1., 1.})
    {
      D y = x;
      y[c] *= 1 + s * 4e-7;
      probe(a.to(y));
    }
  double emx = 0;
  for (auto c : e)
    emx = std::max(emx, std::abs(c));
  bool ok = true;
  for (size_t i = 0; i < e.size(); i++)
  {
    if (!std::isfinite(e[i]) || !std::isfinite(tol[i]))
      ok = false;
    tol[i] = 4 * tol[i] + 2e-6 * emx + 1e-12 + (b.name == "time.mel" ? 1e-3 : 0); // 1 + x in single precision
    if (tol[i] > 0.02 * std::max(1e-9, std::max(emx, std::abs(e[i]))) + 1e-9)
      ok = false; // ill-conditioned: nothing to say
  }
  return ok;
}

VP_SECTION(convert)
{
  auto& U = units();
  for (size_t k = 0, n = M.n(60000, 1500000); k < n; k++)
  {
    auto& a = M.r.pick(U);
    auto& b = M.r.pick(U);
    if (M.r.b(7, 8) && ds(a) != ds(b))
      continue;
    D x = a.gen(M.r);
    for (auto& c : x)
      c = float(c);
    auto in = mkv(x);
    M.at("unit-convert", vp::str(a.name, " -> ", b.name, " ", Sd(x)));
    M.seen(vp::str(a.name, b.name, k % 97));
    auto w = ossia::make_value(in, a.u);
    VCHECK(ossia::to_unit(w) == a.u, "unit-of-value", a.name);
    VCHECK(mv::same(mv::from(in), ossia::to_value(w)), "unit-value-kept", a.name, " ", Sd(rd(ossia::to_value(w))));
    if (ds(a) != ds(b))
    {
      VCHECK(!ossia::check_units_convertible(a.u, b.u), "unit-convertible-other-dataspace", a.name, " ", b.name);
      auto c = ossia::convert(w, b.u);
      VCHECK(!c || !ossia::to_value(c).valid(), "unit-convert-other-dataspace", a.name, " -> ", b.name, " gave a value");
      continue;
    }
    VCHECK(ossia::check_units_convertible(a.u, b.u), "unit-convertible", a.name, " ", b.name);
    auto c = ossia::convert(w, b.u);
    VCHECK(ossia::to_unit(c) == b.u, "unit-convert-unit", a.name, " -> ", b.name);
    D got = rd(ossia::to_value(c));
    if (!VCHECK(int(got.size()) == b.n, "unit-convert-shape", a.name, " -> ", b.name, " gave ", got.size(), " components"))
      continue;
    auto c2 = ossia::convert(in, a.u, b.u);
    VCHECK(mv::same(mv::from(ossia::to_value(c)), c2), "unit-convert-both-ways", a.name, " -> ", b.name, " ", Sd(got), " ", Sd(rd(c2)));
    D e, tol;
    if (a.name == b.name)
    {
      VCHECK(mv::same(mv::from(in), c2), "unit-convert-same-unit", a.name, " ", Sd(x), " gave ", Sd(got));
      continue;
    }
    if (!expected(a, b, x, e, tol))
      continue;
    for (int i = 0; i < b.n; i++)
      VCHECKC(dist(b, i, got[i], e[i]) <= tol[i], "unit-convert-value", a.name + ">" + b.name, a.name, " -> ", b.name, " of ", Sd(x), " component ", i, " = ", got[i], " expected ", e[i], " +- ", tol[i]);
    // and back
    auto back = ossia::convert(c, a.u);
    D gb = rd(ossia::to_value(back));
    D e2, tol2;
    if (expected(b, a, got, e2, tol2) && int(gb.size()) == a.n)
      for (int i = 0; i < a.n; i++)
        VCHECKC(dist(a, i, gb[i], e2[i]) <= tol2[i], "unit-convert-back", b.name + ">" + a.name, b.name, " -> ", a.name, " of ", Sd(got), " component ", i, " = ", gb[i], " expected ", e2[i], " +- ", tol2[i]);
  }
}

// The definitions above must be mutual inverses, else the oracle is wrong.
VP_SECTION(roundtrip)
{
  for (auto& a : units())
    for (auto& b : units())
    {
      if (ds(a) != ds(b))
        continue;
      bool flat = a.name == "position.cart2D" || a.name == "position.polar" || b.name == "position.cart2D" || b.name == "position.polar";
      bool noalpha = ds(a) == "color" && a.n == 4 && b.n == 3;
      if (flat || noalpha)
        continue;
      for (size_t k = 0, n = M.n(60, 2000); k < n; k++)
      {
        D x = a.gen(M.r);
        if (ds(a) == "time" && (a.name == "time.mel" || b.name == "time.mel") && a.to(x)[0] > 0.1)
          continue;
        if (a.name == "gain.linear" && x[0] == 0 && b.name == "gain.db-raw")
          continue;
        if (ds(a) == "gain" && (a.to(x)[0] < 1.7e-5))
          continue;
        for (auto& c : x)
          c = float(c);
        auto w = ossia::make_value(mkv(x), a.u);
        M.at("unit-roundtrip", vp::str(a.name, " ", b.name, " ", Sd(x)));
        auto y = ossia::to_value(ossia::convert(ossia::convert(w, b.u), a.u));
        D g = rd(y);
        M.seen(vp::mix(vp::hash_str(a.name + b.name), k));
        if (!VCHECK(int(g.size()) == a.n, "unit-roundtrip-shape", a.name, " ", b.name))
          continue;
        // compare as the same orientation / colour / position, in the neutral
        D p = a.to(x), q = a.to(g);
        double mx = 1e-9, d1 = 0, d2 = 0;
        for (size_t i = 0; i < p.size(); i++)
        {
          mx = std::max(mx, std::abs(p[i]));
          d1 = std::max(d1, std::abs(p[i] - q[i]));
          d2 = std::max(d2, std::abs(p[i] + q[i]));
        }
        if (ds(a) == "orientation")
          d1 = std::min(d1, d2);
        double t = ds(a) == "color" && (a.name == "color.cie_xyz" || b.name == "color.cie_xyz") ? 0.01 : ds(a) == "orientation" ? 2e-3 : 2e-4;
        VCHECKC(d1 <= t * mx, "unit-roundtrip", a.name + ">" + b.name, a.name, " via ", b.name, ": ", Sd(x), " came back as ", Sd(g));
      }
    }
}

VP_SECTION(names)
{
  auto& U = units();
  static const std::map<std::string, int> ds_idx{{"distance", 0}, {"position", 1}, {"speed", 2}, {"orientation", 3}, {"angle", 4}, {"color", 5}, {"gain", 6}, {"time", 7}};
  std::map<std::string, int> idx;
  std::set<std::string> pretties;
  for (auto& u : U)
  {
    M.at("unit-names", u.name);
    M.seen(u.name);
    VCHECK(ossia::get_pretty_unit_text(u.u) == u.name, "unit-pretty-name", u.name, " is called ", ossia::get_pretty_unit_text(u.u));
    auto d = ds(u), s = u.name.substr(d.size() + 1);
    VCHECK(ossia::get_dataspace_text(u.u) == d, "unit-dataspace-name", u.name, " ", ossia::get_dataspace_text(u.u));
    VCHECK(ossia::get_unit_text(u.u) == s, "unit-name", u.name, " ", ossia::get_unit_text(u.u));
    VCHECK(ossia::parse_pretty_unit(u.name) == u.u, "unit-parse-pretty", u.name);
    std::string up = u.name;
    for (auto& c : up)
      c = M.r.b() ? toupper(c) : tolower(c);
    VCHECK(ossia::parse_pretty_unit(up) == u.u, "unit-parse-pretty-case", up);
    auto dsu = ossia::parse_dataspace(d);
    VCHECK(bool(dsu) && dsu.which() == u.u.which(), "unit-parse-dataspace", d);
    VCHECK(ossia::parse_unit(s, dsu) == u.u, "unit-parse-in-dataspace", u.name);
    VCHECK(ossia::parse_unit(s, u.u) == u.u, "unit-parse-in-own-dataspace", u.name);
    VCHECK(!ossia::parse_unit("no such unit", dsu), "unit-parse-unknown-in-dataspace", d);
    VCHECK(!ossia::parse_pretty_unit(u.name + "x"), "unit-parse-unknown", u.name, "x");
    VCHECK(!ossia::parse_unit("", dsu), "unit-parse-empty", d);
    static const std::map<int, ossia::val_type> vt{{1, ossia::val_type::FLOAT}, {2, ossia::val_type::VEC2F}, {3, ossia::val_type::VEC3F}, {4, ossia::val_type::VEC4F}};
    VCHECK(ossia::matching_type(u.u) == vt.at(u.n), "unit-matching-type", u.name);
    VCHECK(ossia::get_unit_accessors(u.u) == u.acc, "unit-accessors", u.name, " ", ossia::get_unit_accessors(u.u));
    for (int i = 0; i < 256; i++)
    {
      char c = ossia::get_unit_accessor(u.u, uint8_t(i));
      char e = size_t(i) < u.acc.size() ? u.acc[i] : 0;
      VCHECK(c == e, "unit-accessor", u.name, " [", i, "] ", c);
    }
    VCHECK(pretties.insert(std::string(ossia::get_pretty_unit_text(u.u))).second, "unit-names-distinct", u.name);
    // indices used for serialization
    int k = idx[d]++;
    auto m = ossia::make_unit(ds_idx.at(d), k);
    bool found = false;
    for (int j = 0; j < 12; j++)
      found |= ossia::make_unit(ds_idx.at(d), j) == u.u;
    VCHECK(found, "unit-make-by-index", u.name, " is not reachable by index");
    int inner = -1;
    ossia::apply_nonnull([&](auto& x) { inner = x.which(); }, u.u.v);
    VCHECK(ossia::make_unit(u.u.which(), inner) == u.u, "unit-make-own-index", u.name, " (", int(u.u.which()), ", ", inner, ") is ", ossia::get_pretty_unit_text(ossia::make_unit(u.u.which(), inner)));
    (void)m;
    for (auto& o : U)
    {
      VCHECK((u.u == o.u) == (u.name == o.name), "unit-equality", u.name, " ", o.name);
      VCHECK((u.u != o.u) == (u.name != o.name), "unit-inequality", u.name, " ", o.name);
    }
    // the default domain bounds values of the type of the unit
    auto dom = ossia::get_unit_default_domain(u.u);
    if (dom)
    {
      auto mn = dom.get_min(), mxv = dom.get_max();
      VCHECK(mn.get_type() == ossia::matching_type(u.u) && mxv.get_type() == mn.get_type(), "unit-domain-type", u.name);
      D a = rd(mn), b = rd(mxv);
      for (size_t i = 0; i < a.size() && i < b.size(); i++)
        VCHECK(a[i] < b[i], "unit-domain-order", u.name);
    }
    auto pretty = ossia::to_pretty_string(ossia::make_value(mkv(D(u.n, 1.)), u.u));
    VCHECK(pretty.find(u.name) != std::string::npos, "unit-pretty-value", pretty);
    // copies
    ossia::unit_t c = u.u, e;
    e = c;
    ossia::unit_t f = std::move(c);
    VCHECK(e == u.u && f == u.u, "unit-copy", u.name);
    VCHECK(std::hash<ossia::unit_t>{}(e) == std::hash<ossia::unit_t>{}(u.u), "unit-hash", u.name);
  }
  M.at("unit-none");
  VCHECK(!ossia::unit_t{} && ossia::get_pretty_unit_text(ossia::unit_t{}) == "none", "unit-none", "");
  VCHECK(!ossia::make_unit(99, 0) && !ossia::make_unit(7, 99) && !ossia::make_unit(~0ull, ~0ull), "unit-make-out-of-range", "");
  VCHECK(!ossia::parse_dataspace("nope") && !ossia::parse_pretty_unit(""), "unit-parse-unknown", "");
  VCHECK(ossia::matching_type(ossia::unit_t{}) == ossia::val_type::IMPULSE, "unit-none-type", "");
  static const std::pair<const char*, const char*> alias[] = {{"meters", "distance.m"}, {"Meter", "distance.m"}, {"kilometers", "distance.km"}, {"\"", "distance.inches"}, {"'", "distance.feet"}, {"deg", "angle.degree"}, {"rad", "angle.radian"}, {"hz", "time.Hz"}, {"Hertz", "time.Hz"}, {"freq", "time.Hz"}, {"frequency", "time.Hz"}, {"dB", "gain.db"}, {"ypr", "orientation.euler"}, {"quat", "orientation.quaternion"}, {"xy", "position.cart2D"}, {"point2d", "position.cart2D"}, {"gl", "position.openGL"}, {"opengl", "position.openGL"}, {"pitch", "time.midinote"}, {"millisecond", "time.ms"}, {"gain", "gain.linear"}, {"kmph", "speed.km/h"}, {"mi/h", "speed.mph"}, {"vertex", "position.cart3D"}, {"centimeter", "distance.cm"}, {"cie_xyz", "color.cie_xyz"}};
  for (auto [a, p] : alias)
  {
    auto u = ossia::parse_pretty_unit(a);
    VCHECK(bool(u) && ossia::get_pretty_unit_text(u) == p, "unit-alias", a, " is ", ossia::get_pretty_unit_text(u));
  }
}

VP_SECTION(merge)
{
  auto& U = units();
  mv::opts o;
  for (size_t k = 0, n = M.n(40000, 800000); k < n; k++)
  {
    auto& u = M.r.pick(U);
    D x = u.gen(M.r);
    for (auto& c : x)
      c = float(c);
    auto w = ossia::make_value(mkv(x), u.u);
    // what is merged in
    val in;
    int kind = M.r.i(0, 6);
    std::vector<float> fl;
    auto rf = [&] { return float(M.r.d(-300, 300)); };
    switch (kind)
    {
      case 0: in = {rf()}; break;
      case 1: in = {int(M.r.i(-9, 9))}; break;
      case 2: in = {mv::v2{rf(), rf()}}; break;
      case 3: in = {mv::v3{rf(), rf(), rf()}}; break;
      case 4: in = {mv::v4{rf(), rf(), rf(), rf()}}; break;
      case 5: {
        mv::list l;
        for (int i = 0, e = M.r.i(0, 6); i < e; i++)
          l.push_back(M.r.b() ? val{rf()} : val{int(M.r.i(-9, 9))});
        in = {l};
        break;
      }
      default: in = M.r.b() ? val{mv::imp{}} : val{std::string("12")};
    }
    bool is_arr = false;
    if (auto p = std::get_if<mv::v2>(&in.v)) fl.assign(p->begin(), p->end()), is_arr = true;
    if (auto p = std::get_if<mv::v3>(&in.v)) fl.assign(p->begin(), p->end()), is_arr = true;
    if (auto p = std::get_if<mv::v4>(&in.v)) fl.assign(p->begin(), p->end()), is_arr = true;
    if (auto p = std::get_if<mv::list>(&in.v))
    {
      is_arr = true;
      for (auto& e : *p)
        fl.push_back(e.v.index() == 2 ? float(std::get<int>(e.v)) : std::get<float>(e.v));
    }
    bool scalar = kind < 2;
    float sc = kind == 0 ? std::get<float>(in.v) : kind == 1 ? float(std::get<int>(in.v)) : 0;
    ossia::destination_index ix;
    int ni = M.r.pick(std::array{0, 0, 1, 1, 1, 1, 2});
    for (int i = 0; i < ni; i++)
      ix.push_back(M.r.b(1, 6) ? int(M.r.i(-2, 9)) : int(M.r.i(0, u.n - 1)));
    M.at("unit-merge", vp::str(u.name, " ", Sd(x), " <- ", mv::S(in), " at ", ni ? vp::str(ix[0]) : "-"));
    M.seen(vp::str(u.name, kind, ni, ni ? int(ix[0]) : 0));
    D e = x;
    if (ni == 0)
    {
      if (is_arr && u.n > 1)
        for (size_t i = 0; i < std::min(fl.size(), e.size()); i++)
          e[i] = fl[i];
      else if (scalar && u.n == 1)
        e[0] = sc;
    }
    else if (ni == 1)
    {
      int i = ix[0];
      if (u.n > 1 && i >= 0 && i < u.n)
      {
        if (scalar)
          e[i] = sc;
        else if (is_arr && i < int(fl.size()))
          e[i] = fl[i];
      }
    }
    auto r = ossia::merge(w, mv::mk(in), ix);
    D g = rd(ossia::to_value(r));
    bool same = g.size() == e.size() && ossia::to_unit(r) == u.u;
    for (size_t i = 0; same && i < e.size(); i++)
      same = float(e[i]) == float(g[i]);
    VCHECK(same, "unit-merge", u.name, " ", Sd(x), " <- ", mv::S(in), " index ", ni ? vp::str(ix[0]) : "-", " = ", Sd(g), " expected ", Sd(e));

    // masked merges
    unsigned m = M.r.i(0, 15);
    auto masked = [&](auto arr, auto bits) {
      constexpr int N = std::tuple_size<decltype(arr)>::value;
      if (u.n != N)
        return;
      auto r = ossia::merge(w, arr, bits);
      D g = rd(ossia::to_value(r));
      D e = x;
      for (int i = 0; i < N; i++)
        if (bits.test(i))
          e[i] = arr[i];
      bool same = g.size() == e.size() && ossia::to_unit(r) == u.u;
      for (size_t i = 0; same && i < e.size(); i++)
        same = float(e[i]) == float(g[i]);
      VCHECK(same, "unit-merge-mask", u.name, " ", Sd(x), " mask ", m, " = ", Sd(g), " expected ", Sd(e));
    };
    masked(ossia::vec2f{rf(), rf()}, std::bitset<2>(m & 3));
    masked(ossia::vec3f{rf(), rf(), rf()}, std::bitset<3>(m & 7));
    masked(ossia::vec4f{rf(), rf(), rf(), rf()}, std::bitset<4>(m));
  }
}

// The statically typed conversions, and units which carry a density
VP_SECTION(typed)
{
  using namespace ossia;
  auto close = [](double a, double b) { return std::abs(a - b) <= 3e-6 * std::max(std::abs(a), std::abs(b)); };
  for (size_t k = 0, n = M.n(5000, 100000); k < n; k++)
  {
    float x = M.r.d(0.01, 1000) * (M.r.b() ? 1 : -1);
    M.at("unit-typed", vp::str(x));
    M.seen(k);
    strong_value<meter_u> m{x};
    strong_value<inch_u> in{m};
    strong_value<mile_u> mi{in};
    strong_value<kilometer_u> km{mi};
    VCHECK(close(in.dataspace_value, x / 0.0254) && close(mi.dataspace_value, x / 1609.344) && close(km.dataspace_value, x / 1000.), "unit-typed-distance", x);
    strong_value<degree_u> dg{x};
    VCHECK(close(strong_value<radian_u>{dg}.dataspace_value, x * PI / 180), "unit-typed-angle", x);
    strong_value<kilometer_per_hour_u> kh{x};
    VCHECK(close(strong_value<meter_per_second_u>{kh}.dataspace_value, x / 3.6) && close(strong_value<knot_u>{kh}.dataspace_value, x / 1.852), "unit-typed-speed", x);
    strong_value<meter_u> cp{m}, as;
    as = m;
    VCHECK(cp == m && as == m && !(cp != m), "unit-typed-copy", x);
    strong_value<meter_u> other{x * 2};
    VCHECK(other != m && !(other == m), "unit-typed-equality", x);
    pixel_u p;
    float dpi = M.r.d(10, 600);
    p.set_dpi(dpi);
    strong_value<pixel_u> px{x};
    static_cast<pixel_u&>(px) = p;
    VCHECK(close(p.to_neutral(px).dataspace_value, x / dpi * 0.0254), "unit-pixel-dpi", x, " at ", dpi, " dpi = ", p.to_neutral(px).dataspace_value, " m");
    p.set_ppcm(dpi);
    VCHECK(close(p.to_neutral(px).dataspace_value, x / dpi / 100), "unit-pixel-ppcm", x, " at ", dpi, " ppcm = ", p.to_neutral(px).dataspace_value, " m");
    VCHECK(close(p.from_neutral(p.to_neutral(px)), x), "unit-pixel-roundtrip", x);
    strong_value<pixel_u> pc{px}, pa;
    pa = px;
    VCHECK(pc.ppm == px.ppm && pa.ppm == px.ppm && pc.dataspace_value == x && pa.dataspace_value == x, "unit-pixel-copy", x);
    sample_u sr;
    double rate = M.r.pick(std::array{44100., 48000., 96000.});
    sr.set_rate(rate);
    strong_value<sample_u> sv{x};
    VCHECK(close(sr.to_neutral(sv).dataspace_value, x / rate) && close(sr.from_neutral(strong_value<second_u>{x}), x * rate), "unit-sample-rate", x, " ", rate);
  }
}

// Attaching a unit to a value of any type
VP_SECTION(attach)
{
  auto& U = units();
  mv::opts o;
  for (size_t k = 0, n = M.n(20000, 300000); k < n; k++)
  {
    auto& u = M.r.pick(U);
    val in = mv::gen(M.r, o);
    M.at("unit-attach", vp::str(u.name, " ", mv::S(in)));
    M.seen(vp::str(u.name, in.v.index()));
    auto w = ossia::make_value(mv::mk(in), u.u);
    auto v = ossia::to_value(w);
    std::vector<float> fl;
    bool num = false;
    if (auto p = std::get_if<int>(&in.v)) fl = {float(*p)}, num = true;
    if (auto p = std::get_if<float>(&in.v)) fl = {*p}, num = true;
    if (auto p = std::get_if<bool>(&in.v)) fl = {float(*p)}, num = true;
    if (auto p = std::get_if<char>(&in.v)) fl = {float(*p)}, num = true;
    bool arr = false;
    if (auto p = std::get_if<mv::v2>(&in.v)) fl.assign(p->begin(), p->end()), arr = true;
    if (auto p = std::get_if<mv::v3>(&in.v)) fl.assign(p->begin(), p->end()), arr = true;
    if (auto p = std::get_if<mv::v4>(&in.v)) fl.assign(p->begin(), p->end()), arr = true;
    if ((u.n == 1 && num) || (u.n > 1 && arr))
    {
      D g = rd(v);
      bool ok = int(g.size()) == u.n && ossia::to_unit(w) == u.u;
      for (int i = 0; ok && i < u.n; i++)
        ok = mv::fsame(float(g[i]), size_t(i) < fl.size() ? fl[i] : 0.f);
      VCHECK(ok, "unit-attach", u.name, " ", mv::S(in), " gave ", Sd(g));
    }
    else if (in.v.index() == 0)
      VCHECK(!v.valid(), "unit-attach-unset", u.name);
    else if (std::holds_alternative<mv::list>(in.v) && u.n > 1)
      VCHECK(int(rd(v).size()) == u.n, "unit-attach-list", u.name, " ", mv::S(in));
    else
      VCHECK(!w || !v.valid(), "unit-attach-mismatch", u.name, " ", mv::S(in), " gave ", mv::S(mv::from(v)));
  }
}
VP_MAIN
