// C07: curves, easings, behaviours, mappings and splines.
#include "values.hpp"
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/nodes/automation.hpp>
#include <ossia/dataflow/nodes/mapping.hpp>
#include <ossia/dataflow/nodes/spline.hpp>
#include <ossia/editor/automation/curve_value_visitor.hpp>
#include <ossia/editor/automation/tinyspline_util.hpp>
#include <ossia/editor/curve/behavior.hpp>
#include <ossia/editor/curve/curve.hpp>
#include <ossia/editor/curve/curve_segment/easing.hpp>
#include <ossia/editor/curve/curve_segment/empty.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>
#include <ossia/editor/curve/curve_segment/power.hpp>
#include <ossia/editor/mapper/detail/mapper_visitor.hpp>
#include <ossia/network/generic/generic_device.hpp>
using vp::M;
using mv::val;
using ld = long double;
static const ld PIl = 3.14159265358979323846264338327950288L;

// ---------------------------------------------------------------- easings
struct easing_def
{
  std::string name;
  std::function<double(double)> d;
  std::function<float(float)> f;
  std::function<ossia::curve_segment<float>()> seg;
  std::function<ossia::curve_segment<int>()> iseg;
  std::function<ld(ld)> ref;
  double e0 = 0, e1 = 1; // values at the ends
};
template <typename E>
static easing_def def(std::string n, std::function<ld(ld)> ref, double e0 = 0, double e1 = 1)
{
  return {n, [](double t) { return E{}(t); }, [](float t) { return E{}(t); },
          [] { return ossia::curve_segment<float>{ossia::curve_segment_ease<float, E>{}}; },
          [] { return ossia::curve_segment<int>{ossia::curve_segment_ease<int, E>{}}; }, ref, e0, e1};
}
static ld in_out(std::function<ld(ld)> in, ld t)
{
  return t < 0.5L ? in(2 * t) / 2 : 1 - in(2 - 2 * t) / 2;
}
static ld bounce_out(ld t)
{
  // parabolas touching 1 at 4/11, 8/11, 9/10 and 1
  if (t < 4 / 11.L) return 121 * t * t / 16;
  if (t < 8 / 11.L) return 363 / 40.L * t * t - 9.9L * t + 3.4L;
  if (t < 0.9L) return 4356 / 361.L * t * t - 35442 / 1805.L * t + 16061 / 1805.L;
  return 10.8L * t * t - 20.52L * t + 10.72L;
}
static std::vector<easing_def> easings()
{
  using namespace ossia::easing;
  std::vector<easing_def> v;
  auto poly = [](int n) { return [n](ld t) { return std::pow(t, (ld)n); }; };
  auto out = [](std::function<ld(ld)> in) { return [in](ld t) { return 1 - in(1 - t); }; };
  auto io = [](std::function<ld(ld)> in) { return [in](ld t) { return in_out(in, t); }; };
  v.push_back(def<linear>("linear", [](ld t) { return t; }));
  v.push_back(def<quadraticIn>("quadraticIn", poly(2)));
  v.push_back(def<quadraticOut>("quadraticOut", out(poly(2))));
  v.push_back(def<quadraticInOut>("quadraticInOut", io(poly(2))));
  v.push_back(def<cubicIn>("cubicIn", poly(3)));
  v.push_back(def<cubicOut>("cubicOut", out(poly(3))));
  v.push_back(def<cubicInOut>("cubicInOut", io(poly(3))));
  v.push_back(def<quarticIn>("quarticIn", poly(4)));
  v.push_back(def<quarticOut>("quarticOut", out(poly(4))));
  v.push_back(def<quarticInOut>("quarticInOut", io(poly(4))));
  v.push_back(def<quinticIn>("quinticIn", poly(5)));
  v.push_back(def<quinticOut>("quinticOut", out(poly(5))));
  v.push_back(def<quinticInOut>("quinticInOut", io(poly(5))));
  auto sine = [](ld t) { return 1 - std::cos(t * PIl / 2); };
  v.push_back(def<sineIn>("sineIn", sine));
  v.push_back(def<sineOut>("sineOut", out(sine)));
  v.push_back(def<sineInOut>("sineInOut", [](ld t) { return (1 - std::cos(t * PIl)) / 2; }));
  auto circ = [](ld t) { return 1 - std::sqrt(std::max<ld>(0, 1 - t * t)); };
  v.push_back(def<circularIn>("circularIn", circ));
  v.push_back(def<circularOut>("circularOut", out(circ)));
  v.push_back(def<circularInOut>("circularInOut", io(circ)));
  auto ex = [](ld t) { return t <= 0 ? 0 : std::pow(2.L, 10 * (t - 1)); };
  v.push_back(def<exponentialIn>("exponentialIn", ex));
  v.push_back(def<exponentialOut>("exponentialOut", out(ex)));
  v.push_back(def<exponentialInOut>("exponentialInOut", [ex](ld t) { return t <= 0 ? 0 : t >= 1 ? 1 : in_out(ex, t); }));
  auto el = [](ld t) { return std::sin(6.5L * PIl * t) * std::pow(2.L, 10 * (t - 1)); };
  v.push_back(def<elasticIn>("elasticIn", el, 0, 1));
  v.push_back(def<elasticOut>("elasticOut", [](ld t) { return std::sin(-6.5L * PIl * (t + 1)) * std::pow(2.L, -10 * t) + 1; }, 0, 1));
  v.push_back(def<elasticInOut>("elasticInOut", [el](ld t) { return t < 0.5L ? el(2 * t) / 2 : (std::sin(-6.5L * PIl * 2 * t) * std::pow(2.L, -10 * (2 * t - 1)) + 2) / 2; }));
  auto back = [](ld t) { return t * t * t - t * std::sin(t * PIl); };
  v.push_back(def<backIn>("backIn", back));
  v.push_back(def<backOut>("backOut", out(back)));
  v.push_back(def<backInOut>("backInOut", io(back)));
  v.push_back(def<bounceOut>("bounceOut", bounce_out));
  v.push_back(def<bounceIn>("bounceIn", [](ld t) { return 1 - bounce_out(1 - t); }));
  v.push_back(def<bounceInOut>("bounceInOut", [](ld t) { return t < 0.5L ? (1 - bounce_out(1 - 2 * t)) / 2 : bounce_out(2 * t - 1) / 2 + 0.5L; }));
  v.push_back(def<perlinInOut>("perlinInOut", [](ld t) { return t * t * t * (t * (t * 6 - 15) + 10); }));
  return v;
}

VP_SECTION(easing)
{
  auto es = easings();
  const int n = M.n(400, 8000);
  for (auto& e : es)
  {
    for (int k = 0; k <= n; k++)
    {
      double t = k <= n / 2 ? double(k) / (n / 2) : M.r.u();
      if (t < 0 || t > 1) t = 1;
      double r = (double)e.ref(t);
      double g = e.d(t);
      double near_break = 1;
      for (double b : {4 / 11., 8 / 11., 0.9, 0.5, 7 / 11., 3 / 11., 0.1})
        near_break = std::min(near_break, std::abs(t - b));
      VCHECKC(std::abs(g - r) < 1e-9, "easing.value", e.name, "t=", t, " got ", g, " expected ", r);
      float ft = float(t);
      double fr = (double)e.ref(ft), fg = e.f(ft);
      if (near_break > 1e-5)
        VCHECKC(std::abs(fg - fr) < 5e-4, "easing.value.float", e.name, "t=", ft, " got ", fg, " expected ", fr);
      // as a segment between two values
      if (k % 8 == 0)
      {
        float a = float(M.r.d(-50, 50)), b = float(M.r.d(-50, 50));
        auto s = e.seg();
        double exp = (1 - r) * a + r * b;
        VCHECKC(std::abs(s(t, a, b) - exp) < 1e-3, "easing.segment", e.name, "t=", t, " ", a, "->", b, " got ", s(t, a, b), " expected ", exp);
        int ia = int(M.r.i(-1000, 1000)), ib = int(M.r.i(-1000, 1000));
        auto is = e.iseg();
        double iexp = (1 - r) * ia + r * ib;
        VCHECKC(std::abs(is(t, ia, ib) - iexp) <= 1.000001, "easing.segment.int", e.name, "t=", t, " ", ia, "->", ib, " got ", is(t, ia, ib), " expected ", iexp);
      }
      M.seen(vp::mix(vp::hash_str(e.name), uint64_t(t * 1e15)));
    }
    VCHECKC(std::abs(e.d(0.) - e.e0) < 1e-9 && std::abs(e.d(1.) - e.e1) < 1e-9, "easing.ends", e.name, e.d(0.), " ", e.d(1.));
    // continuity
    for (int k = 0; k < 2000; k++)
    {
      double t = k / 2000., d = 1e-7;
      VCHECKC(std::abs(e.d(t + d) - e.d(t)) < 2e-3 || (t == 0 && e.name.substr(0, 11) == "exponential") || (t + 1e-3 > 1), "easing.continuous", e.name, "jump at ", t);
    }
  }
}

// ---------------------------------------------------------------- curves
template <typename Y>
struct seg_def
{
  std::string name;
  ossia::curve_segment<Y> s;
  std::function<double(double, double, double)> ref;
};
template <typename Y>
static seg_def<Y> any_seg(const std::vector<easing_def>& es)
{
  switch (M.r.i(0, 3))
  {
    case 0:
      return {"linear", ossia::curve_segment_linear<Y>{}, [](double r, double a, double b) { return a + r * (b - a); }};
    case 1:
    {
      double p = M.r.b(1, 4) ? 1. : M.r.d(0.1, 6);
      return {"power", ossia::curve_segment_power<Y>{}(p), [p](double r, double a, double b) { return a + std::pow(r, p) * (b - a); }};
    }
    case 2:
      return {"ease.quad", ossia::curve_segment_ease<Y, ossia::easing::quadraticIn>{}, [](double r, double a, double b) { return a + r * r * (b - a); }};
    default:
      return {"ease.cubicOut", ossia::curve_segment_ease<Y, ossia::easing::cubicOut>{}, [](double r, double a, double b) { return a + (1 - std::pow(1 - r, 3)) * (b - a); }};
  }
}
template <typename T>
static T ord()
{
  if constexpr (std::is_same_v<T, bool>) return M.r.b();
  else if constexpr (std::is_same_v<T, int>) return int(M.r.i(-500, 500));
  else return T(M.r.d(-20, 20));
}
template <typename X, typename Y>
struct model_curve
{
  X x0{};
  Y y0{};
  std::map<X, std::pair<Y, seg_def<Y>>> pts;
  double at(X x) const
  {
    double lx = x0, ly = y0;
    for (auto& [px, p] : pts)
    {
      if (!(x > lx)) return ly;
      if (x <= px) return p.second.ref((double(x) - lx) / (double(px) - lx), ly, p.first);
      lx = px;
      ly = p.first;
    }
    return ly;
  }
};
template <typename X, typename Y>
static void check_at(const ossia::curve<X, Y>& c, const model_curve<X, Y>& m, X x, const char* rule, const std::string& cls)
{
  double e = m.at(x);
  auto g = c.value_at(x);
  bool ok;
  if constexpr (std::is_same_v<Y, bool>) ok = e == 0 ? !g : std::abs(e - 1) < 1e-9 ? g : true; // strictly between the ends: either
  else if constexpr (std::is_same_v<Y, int>) ok = std::abs(double(g) - e) <= 1.000001 && (e != std::round(e) || std::abs(double(g) - e) <= 1.000001);
  else ok = std::abs(double(g) - e) <= 2e-4 * (1 + std::abs(e));
  VCHECKC(ok, rule, cls, "x=", x, " got ", double(g), " expected ", e, " x0=", double(m.x0), " points=", m.pts.size());
  // exactly on a point, and outside, the value is that of the point
  auto it = m.pts.find(x);
  if (it != m.pts.end())
    VCHECKC(std::abs(double(g) - double(it->second.first)) <= (std::is_integral_v<Y> ? 1e-9 : 1e-4 * (1 + std::abs(double(it->second.first)))), "curve.at_point", cls, "x=", x, " got ", double(g), " point ", double(it->second.first));
}
template <typename X, typename Y>
static void curve_case(const std::string& cls, const std::vector<easing_def>& es)
{
  ossia::curve<X, Y> c;
  model_curve<X, Y> m;
  if constexpr (std::is_same_v<X, bool>)
    m.x0 = false;
  else
    m.x0 = X(M.r.i(-100, 100));
  m.y0 = ord<Y>();
  c.set_x0(m.x0);
  c.set_y0(m.y0);
  VCHECKC(c.get_x0() == m.x0 && c.get_y0() == m.y0, "curve.origin", cls, "");
  int n = std::is_same_v<X, bool> ? 1 : int(M.r.i(0, 6));
  std::vector<X> xs;
  X x = m.x0;
  for (int k = 0; k < n; k++)
  {
    if constexpr (std::is_same_v<X, bool>) x = true;
    else if constexpr (std::is_integral_v<X>) x += X(M.r.i(1, 40));
    else x += X(M.r.d(0.05, 40));
    xs.push_back(x);
  }
  auto shuffled = xs;
  std::vector<X> order;
  while (!shuffled.empty())
  {
    size_t k = M.r.i(0, shuffled.size() - 1);
    order.push_back(shuffled[k]);
    shuffled.erase(shuffled.begin() + k);
  }
  for (auto px : order)
  {
    auto s = any_seg<Y>(es);
    Y y = ord<Y>();
    auto cp = s.s;
    VCHECKC(c.add_point(std::move(cp), px, y), "curve.add", cls, "");
    m.pts[px] = {y, s};
  }
  auto probe = [&](const ossia::curve<X, Y>& c, const char* rule) {
    check_at<X, Y>(c, m, m.x0, rule, cls);
    for (auto& p : m.pts)
      check_at<X, Y>(c, m, p.first, rule, cls);
    if constexpr (std::is_same_v<X, bool>)
    {
      check_at<X, Y>(c, m, false, rule, cls);
      check_at<X, Y>(c, m, true, rule, cls);
    }
    else
    {
      double lo = double(m.x0) - 20, hi = (m.pts.empty() ? double(m.x0) : double(m.pts.rbegin()->first)) + 20;
      for (int k = 0; k < 12; k++)
        check_at<X, Y>(c, m, X(M.r.d(lo, hi)), rule, cls);
    }
  };
  probe(c, "curve.value_at");
  auto t = c.get_type();
  VCHECKC(t.first == ossia::curve_segment_type_map<X> && t.second == ossia::curve_segment_type_map<Y>, "curve.type", cls, "");
  VCHECKC(c.get_points().size() == m.pts.size(), "curve.points", cls, "");
  for (auto& p : c.get_points())
    VCHECKC(m.pts.count(p.first) && m.pts[p.first].first == p.second.first, "curve.points", cls, "x=", p.first);
  // copies behave the same and are independent
  ossia::curve<X, Y> copy{c};
  ossia::curve<X, Y> assigned;
  assigned.set_x0(m.x0);
  assigned = c;
  probe(copy, "curve.copy");
  probe(assigned, "curve.copy");
  if (!m.pts.empty())
  {
    X px = xs[M.r.i(0, xs.size() - 1)];
    VCHECKC(c.remove_point(px), "curve.remove", cls, "");
    VCHECKC(!c.remove_point(px), "curve.remove", cls, "twice");
    probe(copy, "curve.copy.independent");
    auto saved = m;
    m.pts.erase(px);
    probe(c, "curve.value_after_remove");
    m = saved;
  }
  ossia::curve<X, Y> moved{std::move(copy)};
  probe(moved, "curve.move");
  ossia::curve<X, Y> moved2;
  moved2 = std::move(moved);
  probe(moved2, "curve.move");
  M.seen(vp::mix(vp::hash_str(cls), vp::mix(n, M.r.next() & 0xffff)));
}
VP_SECTION(curves)
{
  auto es = easings();
  const int n = M.n(500, 10000);
  for (int k = 0; k < n; k++)
  {
    curve_case<double, float>("double-float", es);
    curve_case<double, int>("double-int", es);
    curve_case<double, bool>("double-bool", es);
    curve_case<float, float>("float-float", es);
    curve_case<float, int>("float-int", es);
    curve_case<float, bool>("float-bool", es);
    curve_case<int, float>("int-float", es);
    curve_case<int, int>("int-int", es);
    curve_case<int, bool>("int-bool", es);
    curve_case<bool, float>("bool-float", es);
    curve_case<bool, int>("bool-int", es);
    curve_case<int64_t, float>("int64-float", es);
  }
}

VP_SECTION(destination)
{
  // the origin can be read from a parameter, once per execution
  const int n = M.n(300, 5000);
  ossia::net::generic_device dev{"dev"};
  auto& nf = *dev.get_root_node().create_child("f");
  auto pf = nf.create_parameter(ossia::val_type::FLOAT);
  auto& nl = *dev.get_root_node().create_child("l");
  auto pl = nl.create_parameter(ossia::val_type::LIST);
  auto& nv = *dev.get_root_node().create_child("v");
  auto pv = nv.create_parameter(ossia::val_type::VEC3F);
  auto& ns = *dev.get_root_node().create_child("s");
  auto ps = ns.create_parameter(ossia::val_type::STRING);
  for (int k = 0; k < n; k++)
  {
    ossia::curve<double, float> c;
    c.set_x0(0);
    c.set_y0(1234);
    float a = float(M.r.d(-10, 10)), y1 = float(M.r.d(-10, 10)), b = float(M.r.d(-10, 10));
    c.add_point(ossia::curve_segment_linear<float>{}, 1., y1);
    int mode = int(M.r.i(0, 3));
    auto set = [&](float v) {
      if (mode == 0) pf->set_value(v);
      else if (mode == 1) pl->set_value(std::vector<ossia::value>{1, std::vector<ossia::value>{0.5f, v}});
      else if (mode == 2) pv->set_value(ossia::make_vec(100.f, 200.f, v));
      else pl->set_value(std::vector<ossia::value>{v});
    };
    set(a);
    if (mode == 0) c.set_y0_destination(ossia::destination{*pf});
    else if (mode == 1) c.set_y0_destination(ossia::destination{*pl, ossia::destination_index{1, 1}});
    else if (mode == 2) c.set_y0_destination(ossia::destination{*pv, ossia::destination_index{2}});
    else c.set_y0_destination(ossia::destination{*pl, ossia::destination_index{0}});
    std::string cls = "mode" + std::to_string(mode);
    VCHECKC(c.get_y0_destination().has_value(), "curve.destination", cls, "");
    VCHECKC(std::abs(c.value_at(0.25) - (0.75f * a + 0.25f * y1)) < 1e-3, "curve.destination", cls, "origin ", a, " got ", c.value_at(0.25));
    set(b);
    VCHECKC(std::abs(c.get_y0() - a) < 1e-5, "curve.destination.cached", cls, "changed during the execution");
    ossia::curve<double, float> copy{c};
    VCHECKC(std::abs(copy.get_y0() - b) < 1e-5, "curve.destination.copy", cls, "a copy starts a new execution");
    c.reset();
    VCHECKC(std::abs(c.get_y0() - b) < 1e-5, "curve.destination.reset", cls, "got ", c.get_y0(), " expected ", b);
    ossia::behavior beh{std::make_shared<ossia::curve<double, float>>(c)};
    ossia::behavior tree{std::vector<ossia::behavior>{beh, ossia::behavior{}}};
    auto cc = std::static_pointer_cast<ossia::curve<double, float>>(beh.get<ossia::curve_ptr>());
    cc->value_at(0.5);
    set(a);
    VCHECKC(std::abs(cc->get_y0() - b) < 1e-5, "curve.destination.cached", cls, "");
    (M.r.b() ? beh : tree).reset();
    VCHECKC(std::abs(cc->get_y0() - a) < 1e-5, "behavior.reset", cls, "got ", cc->get_y0());
    M.seen(vp::mix(k, mode));
  }
  using C = ossia::curve<double, float>;
  ossia::destination_index idx{0};
  VCHECK(vp::throws([&] { C::convert_to_template_type_value(ossia::value{std::string("x")}, idx.begin()); }), "curve.convert.reject", "");
  VCHECK(vp::throws([&] { C::convert_to_template_type_value(ossia::value{ossia::impulse{}}, idx.begin()); }), "curve.convert.reject", "");
  VCHECK(vp::throws([&] { C::convert_to_template_type_value(ossia::value{}, idx.begin()); }), "curve.convert.reject", "");
  VCHECK(C::convert_to_template_type_value(ossia::value{3}, idx.begin()) == 3.f, "curve.convert", "");
  VCHECK(C::convert_to_template_type_value(ossia::value{true}, idx.begin()) == 1.f, "curve.convert", "");
  VCHECK(C::convert_to_template_type_value(ossia::value{'a'}, idx.begin()) == 97.f, "curve.convert", "");
  VCHECK(C::convert_to_template_type_value(ossia::value{ossia::make_vec(7.f, 2.f)}, idx.begin()) == 7.f, "curve.convert", "");
}

// ---------------------------------------------------------------- behaviours
struct mbeh // model
{
  int which = -1; // -1 none, 0 curve, 1 list
  ossia::curve_ptr c;
  std::vector<mbeh> l;
};
static bool same(const mbeh& m, const ossia::behavior& b)
{
  if (bool(b) != (m.which != -1)) return false;
  if (m.which == -1) return !b.target<ossia::curve_ptr>() && !b.target<std::vector<ossia::behavior>>();
  if (m.which == 0) return b.target<ossia::curve_ptr>() && !b.target<std::vector<ossia::behavior>>() && *b.target<ossia::curve_ptr>() == m.c;
  auto l = b.target<std::vector<ossia::behavior>>();
  if (!l || l->size() != m.l.size() || b.target<ossia::curve_ptr>()) return false;
  for (size_t k = 0; k < l->size(); k++)
    if (!same(m.l[k], (*l)[k])) return false;
  return true;
}
static std::pair<mbeh, ossia::behavior> gen_beh(int depth)
{
  int w = int(M.r.i(0, depth ? 5 : 3));
  if (w == 0) return {};
  if (w < 4)
  {
    ossia::curve_ptr p;
    if (M.r.b(9, 10)) p = std::make_shared<ossia::curve<double, float>>();
    return {mbeh{0, p, {}}, ossia::behavior{p}};
  }
  mbeh m;
  m.which = 1;
  std::vector<ossia::behavior> v;
  int n = int(M.r.i(0, 4));
  for (int k = 0; k < n; k++)
  {
    auto [a, b] = gen_beh(depth - 1);
    m.l.push_back(a);
    v.push_back(b);
  }
  return {m, ossia::behavior{v}};
}
VP_SECTION(behavior)
{
  const int n = M.n(3000, 60000);
  for (int k = 0; k < n; k++)
  {
    auto [ma, a] = gen_beh(3);
    auto [mb, b] = gen_beh(3);
    std::string cls = std::to_string(ma.which) + "<-" + std::to_string(mb.which);
    VCHECKC(same(ma, a) && same(mb, b), "behavior.make", cls, "");
    {
      ossia::behavior c{b};
      VCHECKC(same(mb, c) && same(mb, b), "behavior.copy", cls, "");
      ossia::behavior d{std::move(c)};
      VCHECKC(same(mb, d), "behavior.move", cls, "");
      ossia::behavior e{a};
      e = b;
      VCHECKC(same(mb, e) && same(mb, b), "behavior.assign", cls, "");
      ossia::behavior f{a};
      f = std::move(d);
      VCHECKC(same(mb, f), "behavior.move_assign", cls, "");
      auto& self = f;
      f = self;
      VCHECKC(same(mb, f), "behavior.assign_self", cls, "");
      if (mb.which == 1 && !mb.l.empty())
      {
        auto l = f.target<std::vector<ossia::behavior>>();
        l->clear();
        VCHECKC(same(mb, b), "behavior.copy.independent", cls, "");
      }
      VCHECKC(vp::throws([&] { e.get<ossia::curve_ptr>(); }) == (mb.which != 0), "behavior.get", cls, "curve");
      VCHECKC(vp::throws([&] { e.get<std::vector<ossia::behavior>>(); }) == (mb.which != 1), "behavior.get", cls, "list");
    }
    VCHECKC(same(ma, a) && same(mb, b), "behavior.copy.source", cls, "");
    vp::no_throw("behavior.reset", [&] { a.reset(); });
    M.seen(vp::mix(vp::hash_str(cls), k));
  }
  // lifetime: curves live exactly as long as the behaviours which hold them
  for (int k = 0; k < 200; k++)
  {
    auto c = std::make_shared<ossia::curve<double, float>>();
    std::weak_ptr<ossia::curve<double, float>> w = c;
    {
      ossia::behavior b{c};
      std::vector<ossia::behavior> many(M.r.i(0, 5), b);
      ossia::behavior l{many};
      c.reset();
      VCHECK(!w.expired(), "behavior.lifetime", "");
      ossia::behavior q;
      q = l;
      q = ossia::behavior{};
      l = ossia::behavior{};
      many.clear();
      VCHECK(!w.expired() && w.use_count() == 1, "behavior.lifetime", "use_count=", w.use_count());
    }
    VCHECK(w.expired(), "behavior.lifetime", "leaked");
  }
}

template <typename X, typename Y>
static std::shared_ptr<ossia::curve<X, Y>> line(double a, double b, double x0 = 0, double x1 = 1)
{
  auto c = std::make_shared<ossia::curve<X, Y>>();
  c->set_x0(X(x0));
  c->set_y0(Y(a));
  c->add_point(ossia::curve_segment_linear<Y>{}, X(x1), Y(b));
  return c;
}
static bool approx(const ossia::value& g, const val& e)
{
  val m = mv::from(g);
  if (m.v.index() != e.v.index()) return false;
  if (auto a = std::get_if<float>(&m.v)) return std::abs(*a - std::get<float>(e.v)) <= 1e-3f;
  if (auto a = g.target<ossia::vec2f>()) return std::abs((*a)[0] - mv::mk(e).get<ossia::vec2f>()[0]) < 1e-3 && std::abs((*a)[1] - mv::mk(e).get<ossia::vec2f>()[1]) < 1e-3;
  if (auto a = g.target<ossia::vec3f>())
  {
    auto b = mv::mk(e).get<ossia::vec3f>();
    for (int i = 0; i < 3; i++) if (std::abs((*a)[i] - b[i]) > 1e-3) return false;
    return true;
  }
  if (auto a = g.target<ossia::vec4f>())
  {
    auto b = mv::mk(e).get<ossia::vec4f>();
    for (int i = 0; i < 4; i++) if (std::abs((*a)[i] - b[i]) > 1e-3) return false;
    return true;
  }
  if (auto a = g.target<std::vector<ossia::value>>())
  {
    auto bv = mv::mk(e);
    auto& b = *bv.target<std::vector<ossia::value>>();
    if (a->size() != b.size()) return false;
    for (size_t i = 0; i < b.size(); i++) if (!approx((*a)[i], mv::from(b[i]))) return false;
    return true;
  }
  return mv::same(e, g);
}
VP_SECTION(compute)
{
  using ossia::val_type;
  using T = ossia::detail::compute_value_visitor;
  using U = ossia::detail::compute_value_uninformed_visitor;
  const int n = M.n(2000, 40000);
  for (int k = 0; k < n; k++)
  {
    double pos = M.r.pick(std::vector<double>{0., 0.25, 0.5, 0.75, 1., M.r.u()});
    double a[5], b[5];
    for (int i = 0; i < 5; i++)
      a[i] = M.r.i(-40, 40), b[i] = M.r.i(-40, 40);
    auto at = [&](int i) { return a[i] + pos * (b[i] - a[i]); };
    auto fl = [&](int i) { return line<double, float>(a[i], b[i]); };
    // a single curve
    for (auto t : {val_type::FLOAT, val_type::INT, val_type::BOOL})
    {
      auto r = ossia::apply(T{pos, t}, ossia::behavior{fl(0)});
      VCHECKC(approx(r, val{float(at(0))}), "compute.scalar", "float", "pos=", pos, " got ", ossia::value_to_pretty_string(r));
      auto ri = ossia::apply(T{pos, t}, ossia::behavior{line<double, int>(a[0], b[0])});
      VCHECKC(ri.get_type() == val_type::INT && std::abs(ri.get<int>() - at(0)) <= 1.0001, "compute.scalar", "int", "pos=", pos, " got ", ossia::value_to_pretty_string(ri), " expected ", at(0));
      auto rb = ossia::apply(T{pos, t}, ossia::behavior{line<double, bool>(0, 1)});
      VCHECKC(rb.get_type() == val_type::BOOL && rb.get<bool>() == (pos > 0), "compute.scalar", "bool", "pos=", pos);
      auto rc = ossia::apply(T{pos, t}, ossia::behavior{ossia::curve_ptr{std::make_shared<ossia::constant_curve>(ossia::value{std::string("cst")})}});
      VCHECKC(approx(rc, val{std::string("cst")}), "compute.constant", "", "");
    }
    auto r2 = ossia::apply(T{pos, val_type::VEC2F}, ossia::behavior{fl(0)});
    VCHECKC(r2.get_type() == val_type::VEC2F && approx(r2, mv::from(ossia::value{ossia::make_vec(float(at(0)), float(at(0)))})), "compute.filled", "2", ossia::value_to_pretty_string(r2));
    auto r3 = ossia::apply(T{pos, val_type::VEC3F}, ossia::behavior{fl(0)});
    VCHECKC(r3.get_type() == val_type::VEC3F && approx(r3, mv::from(ossia::value{ossia::make_vec(float(at(0)), float(at(0)), float(at(0)))})), "compute.filled", "3", ossia::value_to_pretty_string(r3));
    auto r4 = ossia::apply(T{pos, val_type::VEC4F}, ossia::behavior{fl(0)});
    VCHECKC(r4.get_type() == val_type::VEC4F && approx(r4, mv::from(ossia::value{ossia::make_vec(float(at(0)), float(at(0)), float(at(0)), float(at(0)))})), "compute.filled", "4", ossia::value_to_pretty_string(r4));
    auto r4i = ossia::apply(T{pos, val_type::VEC4F}, ossia::behavior{line<double, int>(a[0], b[0])});
    VCHECKC(r4i.get_type() == val_type::VEC4F && std::abs(r4i.get<ossia::vec4f>()[3] - at(0)) <= 1.0001, "compute.filled", "int", ossia::value_to_pretty_string(r4i));
    VCHECKC(vp::throws([&] { ossia::apply(T{pos, val_type::STRING}, ossia::behavior{fl(0)}); }), "compute.reject", "string", "");
    VCHECKC(vp::throws([&] { ossia::apply(T{pos, val_type::FLOAT}, ossia::behavior{ossia::curve_ptr{}}); }), "compute.reject", "null", "");
    VCHECKC(vp::throws([&] { ossia::apply(T{pos, val_type::FLOAT}, ossia::behavior{}); }), "compute.reject", "none", "");
    VCHECKC(vp::throws([&] { ossia::apply(T{pos, val_type::FLOAT}, ossia::behavior{line<double, double>(0, 1)}); }), "compute.reject", "double", "");
    VCHECKC(vp::throws([&] { ossia::apply(T{pos, val_type::FLOAT}, ossia::behavior{line<float, float>(0, 1)}); }), "compute.reject", "abscissa", "");
    // lists of curves
    int m = int(M.r.i(0, 5));
    std::vector<ossia::behavior> bs;
    std::vector<val> exp;
    bool all_float = m >= 2 && m <= 4, empty = false;
    for (int i = 0; i < m; i++)
    {
      int kind = M.r.b(3, 5) ? 0 : int(M.r.i(1, 4));
      if (kind == 0) bs.push_back(fl(i)), exp.push_back(val{float(at(i))});
      else if (kind == 1)
      {
        bs.push_back(line<double, int>(7, 7));
        exp.push_back(val{7});
        all_float = false;
      }
      else if (kind == 2)
      {
        bs.push_back(ossia::curve_ptr{std::make_shared<ossia::constant_curve>(ossia::value{std::string("k")})});
        exp.push_back(val{std::string("k")});
        all_float = false;
      }
      else if (kind == 3)
      {
        bs.push_back(std::vector<ossia::behavior>{fl(i), line<double, int>(3, 3)});
        exp.push_back(mv::from(ossia::value{std::vector<ossia::value>{float(at(i)), 3}}));
        all_float = false;
      }
      else
      {
        bs.push_back(ossia::behavior{});
        exp.push_back(val{});
        all_float = false;
        empty = true;
      }
    }
    auto r = ossia::apply(T{pos, val_type::LIST}, ossia::behavior{bs});
    std::string cls = "n" + std::to_string(m);
    if (empty)
      VCHECKC(!r.valid(), "compute.list.incomplete", cls, ossia::value_to_pretty_string(r));
    else if (all_float)
    {
      bool ok = r.get_type() == (m == 2 ? val_type::VEC2F : m == 3 ? val_type::VEC3F : val_type::VEC4F);
      for (int i = 0; ok && i < m; i++)
      {
        double g = m == 2 ? r.get<ossia::vec2f>()[i] : m == 3 ? r.get<ossia::vec3f>()[i] : r.get<ossia::vec4f>()[i];
        ok = std::abs(g - at(i)) < 1e-3;
      }
      VCHECKC(ok, "compute.vec", cls, ossia::value_to_pretty_string(r));
    }
    else
    {
      auto l = r.target<std::vector<ossia::value>>();
      bool ok = l && l->size() == exp.size();
      for (size_t i = 0; ok && i < exp.size(); i++)
        ok = approx((*l)[i], exp[i]);
      VCHECKC(ok, "compute.list", cls, ossia::value_to_pretty_string(r));
    }
    M.seen(vp::mix(vp::hash_str(cls), uint64_t(pos * 1e12) + k));
  }
}

VP_SECTION(mapper)
{
  using V = ossia::detail::mapper_compute_visitor;
  auto run = [](const ossia::value& d, const ossia::behavior& b) { return ossia::apply(V{}, d.v, b.v); };
  const int n = M.n(1500, 30000);
  for (int k = 0; k < n; k++)
  {
    double a = M.r.i(-40, 40), b = M.r.i(-40, 40), u = M.r.d(-0.5, 1.5);
    double cu = std::clamp(u, 0., 1.), e = a + cu * (b - a);
    auto r = run(ossia::value{float(u)}, line<float, float>(a, b));
    VCHECKC(approx(r, val{float(e)}), "mapper.scalar", "ff", "u=", u, " got ", ossia::value_to_pretty_string(r), " expected ", e);
    r = run(ossia::value{float(u)}, line<float, int>(a, b));
    VCHECKC(r.get_type() == ossia::val_type::INT && std::abs(r.get<int>() - e) <= 1.001, "mapper.scalar", "fi", ossia::value_to_pretty_string(r));
    r = run(ossia::value{float(u)}, line<float, bool>(0, 1));
    VCHECKC(r.get_type() == ossia::val_type::BOOL && r.get<bool>() == (cu > 0), "mapper.scalar", "fb", ossia::value_to_pretty_string(r));
    int iu = int(M.r.i(-5, 15));
    double ie = a + std::clamp(iu / 10., 0., 1.) * (b - a);
    r = run(ossia::value{iu}, line<int, float>(a, b, 0, 10));
    VCHECKC(approx(r, val{float(ie)}), "mapper.scalar", "if", "u=", iu, " got ", ossia::value_to_pretty_string(r), " expected ", ie);
    r = run(ossia::value{iu}, line<int, int>(a, b, 0, 10));
    VCHECKC(r.get_type() == ossia::val_type::INT && std::abs(r.get<int>() - ie) <= 1.001, "mapper.scalar", "ii", ossia::value_to_pretty_string(r));
    r = run(ossia::value{iu}, line<int, bool>(0, 1, 0, 10));
    VCHECKC(r.get_type() == ossia::val_type::BOOL && r.get<bool>() == (iu > 0), "mapper.scalar", "ib", ossia::value_to_pretty_string(r));
    bool bu = M.r.b();
    r = run(ossia::value{bu}, line<bool, float>(a, b));
    VCHECKC(approx(r, val{float(bu ? b : a)}), "mapper.scalar", "bf", ossia::value_to_pretty_string(r));
    r = run(ossia::value{bu}, line<bool, int>(a, b));
    VCHECKC(approx(r, val{int(bu ? b : a)}), "mapper.scalar", "bi", ossia::value_to_pretty_string(r));
    r = run(ossia::value{bu}, line<bool, bool>(1, 0));
    VCHECKC(approx(r, val{!bu}), "mapper.scalar", "bb", ossia::value_to_pretty_string(r));
    // arrays: each component through the curve, or through its own
    float v[4];
    for (auto& x : v) x = float(M.r.d(-0.5, 1.5));
    auto c0 = line<float, float>(a, b), c1 = line<float, float>(b, a), c2 = line<float, float>(a, a + 1), c3 = line<float, float>(0, 1);
    auto f = [&](int c, float x) {
      double w = std::clamp<double>(x, 0, 1);
      return float(c == 0 ? a + w * (b - a) : c == 1 ? b + w * (a - b) : c == 2 ? a + w : w);
    };
    auto near3 = [](const ossia::value& g, std::vector<float> e) {
      std::vector<float> gv;
      if (auto p = g.target<ossia::vec2f>()) gv.assign(p->begin(), p->end());
      if (auto p = g.target<ossia::vec3f>()) gv.assign(p->begin(), p->end());
      if (auto p = g.target<ossia::vec4f>()) gv.assign(p->begin(), p->end());
      if (gv.size() != e.size()) return false;
      for (size_t i = 0; i < e.size(); i++)
        if (std::abs(gv[i] - e[i]) > 1e-3) return false;
      return true;
    };
    VCHECKC(near3(run(ossia::make_vec(v[0], v[1]), c0), {f(0, v[0]), f(0, v[1])}), "mapper.vec", "2", "");
    VCHECKC(near3(run(ossia::make_vec(v[0], v[1], v[2]), c0), {f(0, v[0]), f(0, v[1]), f(0, v[2])}), "mapper.vec", "3", "");
    VCHECKC(near3(run(ossia::make_vec(v[0], v[1], v[2], v[3]), c0), {f(0, v[0]), f(0, v[1]), f(0, v[2]), f(0, v[3])}), "mapper.vec", "4", "");
    std::vector<ossia::behavior> bs{c0, c1, c2, c3};
    VCHECKC(near3(run(ossia::make_vec(v[0], v[1], v[2], v[3]), ossia::behavior{bs}), {f(0, v[0]), f(1, v[1]), f(2, v[2]), f(3, v[3])}), "mapper.vec.each", "4", "");
    bs.pop_back();
    VCHECKC(near3(run(ossia::make_vec(v[0], v[1], v[2]), ossia::behavior{bs}), {f(0, v[0]), f(1, v[1]), f(2, v[2])}), "mapper.vec.each", "3", "");
    VCHECKC(!run(ossia::make_vec(v[0], v[1]), ossia::behavior{bs}).valid(), "mapper.vec.size", "", "");
    // lists
    std::vector<ossia::value> l;
    for (int i = 0; i < 4; i++)
      l.push_back(M.r.b(1, 6) ? ossia::value{} : ossia::value{v[i]});
    auto rl = run(l, c0);
    auto pl = rl.target<std::vector<ossia::value>>();
    bool ok = pl && pl->size() == 4;
    for (int i = 0; ok && i < 4; i++)
      ok = l[i].valid() ? approx((*pl)[i], val{f(0, v[i])}) : !(*pl)[i].valid();
    VCHECKC(ok, "mapper.list", "one", ossia::value_to_pretty_string(rl));
    rl = run(l, ossia::behavior{bs}); // 3 curves
    pl = rl.target<std::vector<ossia::value>>();
    ok = pl && pl->size() == 3;
    for (int i = 0; ok && i < 3; i++)
      ok = l[i].valid() ? approx((*pl)[i], val{f(i, v[i])}) : !(*pl)[i].valid();
    VCHECKC(ok, "mapper.list", "each", ossia::value_to_pretty_string(rl));
    VCHECKC(vp::throws([&] { run(ossia::value{std::string("x")}, c0); }), "mapper.reject", "string", "");
    VCHECKC(vp::throws([&] { run(ossia::value{ossia::impulse{}}, c0); }), "mapper.reject", "impulse", "");
    M.seen(vp::mix(k, uint64_t(u * 1e9)));
  }
}

// ---------------------------------------------------------------- nodes
static void run(ossia::graph_node& n, const ossia::token_request& t, ossia::execution_state& st)
{
  n.run(t, ossia::exec_state_facade{&st});
}
static std::vector<std::pair<double, int64_t>> floats(ossia::graph_node& n)
{
  std::vector<std::pair<double, int64_t>> r;
  auto& p = *n.root_outputs()[0]->target<ossia::value_port>();
  for (auto& v : p.get_data())
    r.push_back({ossia::convert<float>(v.value), v.timestamp});
  p.clear();
  return r;
}
VP_SECTION(nodes)
{
  using namespace ossia;
  const int n = M.n(400, 8000);
  execution_state st;
  st.sampleRate = 44100;
  st.bufferSize = 512;
  for (int k = 0; k < n; k++)
  {
    double ratio = std::pow(2., -double(M.r.i(0, 12)));
    st.modelToSamplesRatio = ratio;
    st.samplesToModelRatio = 1 / ratio;
    int64_t dur = M.r.i(1, 1 << 20), d0 = M.r.i(0, dur), d1 = M.r.i(d0, dur), off = M.r.i(0, 1 << 14);
    token_request t{time_value{d0}, time_value{d1}, time_value{dur}, time_value{off}, 1., time_signature{4, 4}, 120.};
    double pos = t.position();
    int64_t when = st.modelToSamplesRatio * off;
    double a = M.r.i(-40, 40), b = M.r.i(-40, 40);
    auto exp = [&](double p) { return a + std::clamp(p, 0., 1.) * (b - a); };
    {
      nodes::automation node;
      run(node, t, st);
      VCHECK(floats(node).empty(), "automation.empty", "");
      node.set_behavior(ossia::behavior{line<double, float>(a, b)});
      run(node, t, st);
      auto r = floats(node);
      VCHECK(r.size() == 1 && std::abs(r[0].first - exp(pos)) < 1e-3 && std::abs(r[0].second - when) <= 1, "automation.value", "pos=", pos, " n=", r.size(), " got ", r.empty() ? 0 : r[0].first, "@", r.empty() ? -1 : r[0].second, " expected ", exp(pos), "@", when);
    }
    {
      nodes::float_automation node;
      node.set_behavior(*line<double, float>(a, b));
      run(node, t, st);
      auto r = floats(node);
      VCHECK(r.size() == 1 && std::abs(r[0].first - exp(pos)) < 1e-3 && std::abs(r[0].second - when) <= 1, "float_automation.value", "pos=", pos);
    }
    {
      nodes::mapping node;
      auto& in = *node.root_inputs()[0]->target<value_port>();
      int m = int(M.r.i(0, 4));
      std::vector<std::pair<double, int64_t>> e;
      node.set_behavior(ossia::behavior{line<float, float>(a, b)});
      for (int i = 0; i < m; i++)
      {
        int64_t ts = M.r.i(0, 511);
        switch (M.r.i(0, 5))
        {
          case 0: in.write_value(ossia::value{std::string("no")}, ts); break;
          case 1: in.write_value(ossia::value{}, ts); break;
          default:
          {
            float u = float(M.r.d(-0.5, 1.5));
            in.write_value(u, ts);
            e.push_back({exp(u), ts});
          }
        }
      }
      run(node, t, st);
      auto r = floats(node);
      bool ok = r.size() == e.size();
      for (size_t i = 0; ok && i < e.size(); i++)
        ok = std::abs(r[i].first - e[i].first) < 1e-3 && r[i].second == e[i].second;
      VCHECK(ok, "mapping.values", "got ", r.size(), " expected ", e.size());
    }
    {
      nodes::spline node;
      run(node, t, st);
      VCHECK(node.root_outputs()[0]->target<value_port>()->get_data().empty(), "spline.node.empty", "");
      int np = int(M.r.i(0, 7));
      spline_data sd;
      for (int i = 0; i < np; i++)
        sd.points.push_back({M.r.d(-5, 5), M.r.d(-5, 5)});
      node.set_spline(sd);
      token_request t2 = t;
      if (M.r.b(1, 4)) t2.date = time_value{dur + M.r.i(0, 1000)};
      run(node, t2, st);
      auto& d = node.root_outputs()[0]->target<value_port>()->get_data();
      if (np < 4)
        VCHECK(d.empty(), "spline.node.few", "np=", np);
      else
      {
        bool ok = d.size() == 1 && d[0].value.target<ossia::vec2f>();
        VCHECK(ok, "spline.node.value", "np=", np);
        if (ok)
        {
          auto v = *d[0].value.target<ossia::vec2f>();
          double mnx = 1e9, mxx = -1e9;
          for (auto& p : sd.points) mnx = std::min(mnx, p.x), mxx = std::max(mxx, p.x);
          VCHECK(v[0] >= mnx - 1e-4 && v[0] <= mxx + 1e-4, "spline.node.hull", "x=", v[0]);
          if (t2.position() >= 1)
            VCHECK(std::abs(v[0] - sd.points.back().x) < 1e-4 && std::abs(v[1] - sd.points.back().y) < 1e-4, "spline.node.end", "at ", t2.position(), " got ", v[0], ",", v[1]);
        }
      }
    }
    M.seen(vp::mix(d0, vp::mix(d1, dur)));
  }
}

VP_SECTION(spline_data)
{
  const int n = M.n(2000, 20000);
  for (int k = 0; k < n; k++)
  {
    int m = int(M.r.i(0, 4));
    ossia::spline_data a, b;
    ossia::spline3d_data a3, b3;
    for (int i = 0; i < m; i++)
    {
      double x = M.r.i(-2, 2), y = M.r.i(-2, 2), z = M.r.i(-2, 2);
      a.points.push_back({x, y});
      a3.points.push_back({x, y, z});
    }
    b = a;
    b3 = a3;
    VCHECK(a == b && !(a != b) && a3 == b3 && !(a3 != b3), "spline_data.equal", "");
    if (m)
    {
      size_t i = M.r.i(0, m - 1);
      int c = int(M.r.i(0, 2));
      if (c < 2)
      {
        (c ? b.points[i].y : b.points[i].x) += 1;
        VCHECKC(!(a == b) && a != b && !(a.points[i] == b.points[i]) && a.points[i] != b.points[i], "spline_data.differ", "2d." + std::to_string(c), "");
      }
      (c == 0 ? b3.points[i].x : c == 1 ? b3.points[i].y : b3.points[i].z) += 1;
      VCHECKC(!(a3 == b3) && a3 != b3 && !(a3.points[i] == b3.points[i]) && a3.points[i] != b3.points[i], "spline_data.differ", "3d." + std::to_string(c), "");
    }
    b = a;
    b.points.push_back({0, 0});
    VCHECK(!(a == b) && a != b, "spline_data.differ", "size");
    M.seen(vp::mix(k, m));
  }
}

// ---------------------------------------------------------------- splines
struct rspline // reference: Cox-de Boor
{
  size_t dim, deg;
  std::vector<double> p, u;
  size_t n() const { return p.size() / dim; }
  double lo() const { return u[deg]; }
  double hi() const { return u[u.size() - deg - 1]; }
  std::vector<double> at(double x) const
  {
    size_t k = deg;
    size_t last = u.size() - deg - 2;
    while (k < last && x >= u[k + 1]) k++;
    while (k > deg && u[k] == u[k + 1]) k--; // last non-empty span
    std::vector<std::vector<ld>> d;
    for (size_t j = 0; j <= deg; j++)
    {
      std::vector<ld> q(dim);
      for (size_t c = 0; c < dim; c++) q[c] = p[(k - deg + j) * dim + c];
      d.push_back(q);
    }
    for (size_t r = 1; r <= deg; r++)
      for (size_t j = deg; j >= r; j--)
      {
        ld a0 = u[j + k - deg], a1 = u[j + 1 + k - r];
        ld al = a1 == a0 ? 0 : (x - a0) / (a1 - a0);
        for (size_t c = 0; c < dim; c++) d[j][c] = (1 - al) * d[j - 1][c] + al * d[j][c];
        if (j == r) break;
      }
    std::vector<double> res;
    for (auto v : d[deg]) res.push_back((double)v);
    return res;
  }
};
static rspline ref_of(const tsBSpline& s)
{
  rspline r;
  r.dim = ts_bspline_dimension(&s);
  r.deg = ts_bspline_degree(&s);
  tsReal* c{};
  tsReal* k{};
  ts_bspline_control_points(&s, &c, nullptr);
  ts_bspline_knots(&s, &k, nullptr);
  r.p.assign(c, c + ts_bspline_len_control_points(&s));
  r.u.assign(k, k + ts_bspline_num_knots(&s));
  free(c);
  free(k);
  return r;
}
static bool eval(const tsBSpline& s, double u, std::vector<double>& out, std::vector<double>* left = nullptr)
{
  tsDeBoorNet net;
  if (ts_bspline_eval(&s, u, &net, nullptr)) return false;
  tsReal* r{};
  ts_deboornet_result(&net, &r, nullptr);
  size_t dim = ts_deboornet_dimension(&net), nr = ts_deboornet_num_result(&net);
  out.assign(r + (nr - 1) * dim, r + nr * dim);
  if (left) left->assign(r, r + dim);
  free(r);
  ts_deboornet_free(&net);
  return true;
}
static double dist(const std::vector<double>& a, const std::vector<double>& b)
{
  if (a.size() != b.size()) return 1e30;
  double m = 0;
  for (size_t i = 0; i < a.size(); i++) m = std::max(m, std::abs(a[i] - b[i]));
  return m == m ? m : 1e30;
}
// positions away from the knots (which the library snaps to) by a margin
static double inside(const rspline& r)
{
  for (int k = 0; k < 50; k++)
  {
    double x = M.r.d(r.lo(), r.hi());
    bool ok = true;
    for (double u : r.u)
      if (std::abs(u - x) < 3e-4) ok = false;
    if (ok) return x;
  }
  return (r.lo() + r.hi()) / 2;
}
static std::vector<double> pts(size_t n)
{
  std::vector<double> p;
  for (size_t i = 0; i < n; i++) p.push_back(M.r.d(-10, 10));
  return p;
}
struct owned
{
  tsBSpline s = ts_bspline_init();
  ~owned() { ts_bspline_free(&s); }
};
VP_SECTION(spline)
{
  const int n = M.n(1500, 30000);
  for (int k = 0; k < n; k++)
  {
    size_t dim = M.r.i(1, 4), deg = M.r.i(0, 5), nc;
    tsBSplineType type = M.r.pick(std::vector<tsBSplineType>{TS_OPENED, TS_CLAMPED, TS_CLAMPED, TS_BEZIERS});
    nc = deg + 1 + M.r.i(0, 6);
    if (type == TS_BEZIERS && M.r.b(4, 5)) nc = (deg + 1) * M.r.i(1, 4);
    owned o;
    tsStatus stt;
    std::string cls = std::string(type == TS_OPENED ? "opened" : type == TS_CLAMPED ? "clamped" : "beziers");
    auto err = ts_bspline_new(nc, dim, deg, type, &o.s, &stt);
    if (type == TS_BEZIERS && nc % (deg + 1))
    {
      VCHECKC(err == TS_NUM_KNOTS && stt.code == TS_NUM_KNOTS && !o.s.pImpl, "spline.new.reject", cls, err);
      continue;
    }
    VCHECKC(err == TS_SUCCESS && stt.code == TS_SUCCESS, "spline.new", cls, err);
    if (err) continue;
    VCHECKC(ts_bspline_degree(&o.s) == deg && ts_bspline_order(&o.s) == deg + 1 && ts_bspline_dimension(&o.s) == dim && ts_bspline_num_control_points(&o.s) == nc && ts_bspline_len_control_points(&o.s) == nc * dim && ts_bspline_num_knots(&o.s) == nc + deg + 1 && ts_bspline_sof_control_points(&o.s) == nc * dim * sizeof(tsReal) && ts_bspline_sof_knots(&o.s) == (nc + deg + 1) * sizeof(tsReal), "spline.sizes", cls, "");
    auto p = pts(nc * dim);
    ts_bspline_set_control_points(&o.s, p.data(), nullptr);
    // one point changed individually
    {
      size_t i = M.r.i(0, nc - 1);
      auto q = pts(dim);
      VCHECKC(!ts_bspline_set_control_point_at(&o.s, i, q.data(), nullptr), "spline.set_point", cls, "");
      std::copy(q.begin(), q.end(), p.begin() + i * dim);
      VCHECKC(ts_bspline_set_control_point_at(&o.s, nc, q.data(), nullptr) == TS_INDEX_ERROR, "spline.set_point.reject", cls, "");
      tsReal* g{};
      VCHECKC(!ts_bspline_control_point_at(&o.s, i, &g, nullptr) && std::equal(q.begin(), q.end(), g), "spline.get_point", cls, "");
      free(g);
      g = nullptr;
      VCHECKC(ts_bspline_control_point_at(&o.s, nc, &g, nullptr) == TS_INDEX_ERROR, "spline.get_point.reject", cls, "");
      free(g);
    }
    auto r = ref_of(o.s);
    VCHECKC(r.p == p, "spline.points", cls, "");
    // knots of each kind
    {
      bool ok = true;
      size_t nk = nc + deg + 1;
      for (size_t i = 0; i < nk; i++)
      {
        double e = type == TS_OPENED ? double(i) / (nk - 1)
                   : type == TS_CLAMPED ? (i <= deg ? 0. : i >= nk - deg - 1 ? 1. : double(i - deg) / (nk - 2 * deg - 1))
                                        : double(i / (deg + 1)) / (nk / (deg + 1) - 1);
        ok &= std::abs(e - r.u[i]) < 1e-6;
      }
      VCHECKC(ok, "spline.knots", cls, "deg=", deg, " n=", nc);
    }
    tsReal mn, mx;
    ts_bspline_domain(&o.s, &mn, &mx);
    VCHECKC(mn == r.lo() && mx == r.hi(), "spline.domain", cls, mn, " ", mx);
    // knots replaced by custom ones
    if (type != TS_BEZIERS && M.r.b(1, 3))
    {
      std::vector<double> u = r.u;
      double acc = M.r.d(-2, 2);
      for (size_t i = 0; i < u.size(); i++)
      {
        u[i] = acc;
        if (!(i < deg) && !(i + deg + 1 >= u.size() - 0) ) acc += M.r.d(0.01, 1);
        else if (type == TS_OPENED) acc += M.r.d(0.01, 1);
      }
      VCHECKC(!ts_bspline_set_knots(&o.s, u.data(), nullptr), "spline.set_knots", cls, "deg=", deg, " n=", nc);
      auto bad = u;
      if (bad.size() > 2)
      {
        size_t i = M.r.i(1, bad.size() - 1);
        bad[i] = bad[i - 1] - 0.5;
        VCHECKC(ts_bspline_set_knots(&o.s, bad.data(), nullptr) == TS_KNOTS_DECR, "spline.set_knots.decreasing", cls, "");
      }
      // too many equal knots, at the start or later
      if (u.size() >= deg + 3)
      {
        bad = u;
        size_t i = M.r.b() ? 0 : u.size() - (deg + 2);
        for (size_t j = 0; j < deg + 2; j++) bad[i + j] = i ? bad.back() + 1 : bad[0];
        if (i && u[i - 1] > bad[i]) {}
        else if (i == 0 && bad.size() > deg + 2 && bad[deg + 2] < bad[0]) {}
        else
          VCHECKC(ts_bspline_set_knots(&o.s, bad.data(), nullptr) == TS_MULTIPLICITY, "spline.set_knots.multiplicity", i ? "end" : "start", "deg=", deg, " n=", nc);
      }
      r = ref_of(o.s);
      VCHECKC(r.u == u, "spline.knots.kept", cls, "");
      size_t i = M.r.i(0, u.size() - 1);
      tsReal kn{};
      VCHECKC(!ts_bspline_knot_at(&o.s, i, &kn, nullptr) && kn == u[i], "spline.knot_at", cls, "");
      VCHECKC(ts_bspline_knot_at(&o.s, u.size(), &kn, nullptr) == TS_INDEX_ERROR, "spline.knot_at.reject", cls, "");
      VCHECKC(ts_bspline_set_knot_at(&o.s, i, i ? u[i - 1] - 1 : u[u.size() - 1] + 1, nullptr) == TS_KNOTS_DECR, "spline.set_knot_at.reject", cls, "");
      VCHECKC(ref_of(o.s).u == u, "spline.set_knot_at.restore", cls, "");
    }
    // evaluation
    std::vector<double> g, gl;
    for (int j = 0; j < 8; j++)
    {
      double x = j == 0 ? r.lo() : j == 1 ? r.hi() : inside(r);
      bool ok = eval(o.s, x, g, &gl);
      auto e = r.at(x);
      VCHECKC(ok && (dist(g, e) < 1e-6 || (j < 2 && dist(gl, e) < 1e-6)), "spline.eval", cls, "deg=", deg, " n=", nc, " u=", x, " got ", g.empty() ? 0 : g[0], " expected ", e[0]);
      M.seen(vp::mix(k, uint64_t(x * 1e12)));
    }
    VCHECKC(!eval(o.s, r.lo() - 0.1, g) && !eval(o.s, r.hi() + 0.1, g), "spline.eval.outside", cls, "");
    if (type != TS_OPENED && deg > 0)
    {
      eval(o.s, r.lo(), g);
      VCHECKC(dist(g, std::vector<double>(p.begin(), p.begin() + dim)) < 1e-9, "spline.clamped.start", cls, "");
      eval(o.s, r.hi(), g);
      VCHECKC(dist(g, std::vector<double>(p.end() - dim, p.end())) < 1e-9, "spline.clamped.end", cls, "");
    }
    // many at once
    {
      std::vector<double> us;
      int m = int(M.r.i(1, 9));
      for (int j = 0; j < m; j++) us.push_back(inside(r));
      tsReal* out{};
      VCHECKC(!ts_bspline_eval_all(&o.s, us.data(), m, &out, nullptr), "spline.eval_all", cls, "");
      for (int j = 0; out && j < m; j++)
        VCHECKC(dist(std::vector<double>(out + j * dim, out + (j + 1) * dim), r.at(us[j])) < 1e-6, "spline.eval_all", cls, "u=", us[j]);
      free(out);
      us.push_back(r.hi() + 1);
      out = nullptr;
      VCHECKC(ts_bspline_eval_all(&o.s, us.data(), us.size(), &out, nullptr) == TS_U_UNDEFINED && !out, "spline.eval_all.reject", cls, "");
      size_t actual = 0, want = M.r.i(0, 12);
      VCHECKC(!ts_bspline_sample(&o.s, want, &out, &actual, nullptr), "spline.sample", cls, "");
      VCHECKC(actual == (want ? want : (nc - deg) * 30), "spline.sample.count", cls, actual);
      for (size_t j = 0; out && j < actual; j++)
      {
        double x = actual == 1 ? r.lo() : r.lo() + (r.hi() - r.lo()) * double(j) / (actual - 1);
        bool near_knot = false;
        for (size_t q = 0; q < r.u.size(); q++) near_knot |= std::abs(r.u[q] - x) < 3e-4;
        if (!near_knot)
          VCHECKC(dist(std::vector<double>(out + j * dim, out + (j + 1) * dim), r.at(x)) < 1e-6, "spline.sample", cls, "j=", j, "/", actual);
      }
      free(out);
    }
    // copies are deep, moves transfer
    {
      owned c;
      VCHECKC(!ts_bspline_copy(&o.s, &c.s, nullptr), "spline.copy", cls, "");
      auto z = pts(dim);
      ts_bspline_set_control_point_at(&c.s, 0, z.data(), nullptr);
      VCHECKC(ref_of(o.s).p == p, "spline.copy.deep", cls, "");
      owned m;
      ts_bspline_move(&c.s, &m.s);
      VCHECKC(!c.s.pImpl && ref_of(m.s).u == r.u, "spline.move", cls, "");
    }
    // transformations keep the curve
    auto same_curve = [&](const tsBSpline& s, const char* rule, double tol = 1e-5) {
      auto q = ref_of(s);
      for (int j = 0; j < 6; j++)
      {
        double x = inside(r);
        bool nk = false;
        for (double u : q.u) nk |= std::abs(u - x) < 3e-4;
        if (nk) continue;
        std::vector<double> g;
        bool ok = eval(s, x, g);
        VCHECKC(ok && dist(g, r.at(x)) < tol, rule, cls, "deg=", deg, " n=", nc, " dim=", dim, " u=", x, " got ", g.empty() ? 0 : g[0], " expected ", r.at(x)[0]);
      }
      return q;
    };
    {
      owned t;
      double x = inside(r);
      size_t kk = 0, num = M.r.i(0, deg + 2);
      auto e = ts_bspline_insert_knot(&o.s, x, num, &t.s, &kk, nullptr);
      VCHECKC(!e, "spline.insert_knot", cls, e);
      if (!e)
      {
        auto q = same_curve(t.s, "spline.insert_knot.curve");
        size_t added = num > deg + 1 ? 0 : num;
        VCHECKC(q.u.size() == r.u.size() + added && std::count(q.u.begin(), q.u.end(), x) == long(added), "spline.insert_knot.count", cls, "num=", num, " got ", q.u.size() - r.u.size());
        if (added)
          VCHECKC(kk < q.u.size() && q.u[kk] == x && (kk + 1 == q.u.size() || q.u[kk + 1] > x), "spline.insert_knot.index", cls, "k=", kk);
        VCHECKC(std::is_sorted(q.u.begin(), q.u.end()), "spline.insert_knot.sorted", cls, "");
      }
    }
    {
      owned t;
      double x = inside(r);
      size_t kk = 0;
      auto e = ts_bspline_split(&o.s, x, &t.s, &kk, nullptr);
      VCHECKC(!e, "spline.split", cls, e);
      if (!e)
      {
        auto q = same_curve(t.s, "spline.split.curve");
        VCHECKC(std::count(q.u.begin(), q.u.end(), x) == long(deg + 1), "spline.split.multiplicity", cls, "");
        VCHECKC(kk < q.u.size() && q.u[kk] == x && (kk + 1 == q.u.size() || q.u[kk + 1] > x), "spline.split.index", cls, "");
      }
      owned w;
      VCHECKC(ts_bspline_split(&o.s, r.hi() + 0.5, &w.s, &kk, nullptr) == TS_U_UNDEFINED, "spline.split.reject", cls, "");
    }
    {
      owned t;
      auto e = ts_bspline_to_beziers(&o.s, &t.s, nullptr);
      VCHECKC(!e, "spline.to_beziers", cls, e);
      if (!e)
      {
        auto q = same_curve(t.s, "spline.to_beziers.curve");
        bool ok = q.n() % (deg + 1) == 0 && std::abs(q.lo() - r.lo()) < 1e-9 && std::abs(q.hi() - r.hi()) < 1e-9;
        for (size_t i = 0; i < q.u.size(); i++)
          ok &= std::abs(q.u[i] - q.u[i / (deg + 1) * (deg + 1)]) < 1e-9;
        VCHECKC(ok, "spline.to_beziers.knots", cls, "deg=", deg, " n=", nc);
      }
    }
    if (nc > 1)
    {
      double b = M.r.pick(std::vector<double>{0., 1., M.r.u()});
      owned t;
      VCHECKC(!ts_bspline_tension(&o.s, b, &t.s, nullptr), "spline.tension", cls, "");
      auto q = ref_of(t.s);
      bool ok = q.p.size() == p.size();
      for (size_t i = 0; ok && i < nc; i++)
        for (size_t d = 0; d < dim; d++)
        {
          double lin = p[d] + double(i) / (nc - 1) * (p[(nc - 1) * dim + d] - p[d]);
          ok &= std::abs(q.p[i * dim + d] - (b * p[i * dim + d] + (1 - b) * lin)) < 1e-5;
        }
      VCHECKC(ok, "spline.tension.points", cls, "b=", b);
    }
    // derivative against finite differences
    if (type != TS_BEZIERS && deg >= 1)
    {
      owned t;
      auto e = ts_bspline_derive(&o.s, 1, tsReal(1e-5), &t.s, nullptr);
      VCHECKC(!e, "spline.derive", cls, e);
      if (!e)
      {
        VCHECKC(ts_bspline_degree(&t.s) == deg - 1 && ts_bspline_num_control_points(&t.s) == nc - 1, "spline.derive.sizes", cls, "");
        double span = r.hi() - r.lo();
        for (int j = 0; j < 4; j++)
        {
          double x = inside(r), h = 1e-6 * span;
          if (x - h < r.lo() || x + h > r.hi()) continue;
          auto a = r.at(x - h), b = r.at(x + h);
          std::vector<double> fd;
          double mag = 1;
          for (size_t d = 0; d < dim; d++) fd.push_back((b[d] - a[d]) / (2 * h)), mag = std::max(mag, std::abs(fd.back()));
          std::vector<double> g;
          bool ok = eval(t.s, x, g);
          VCHECKC(ok && dist(g, fd) < 1e-2 * mag, "spline.derive.value", cls, "deg=", deg, " u=", x, " got ", g.empty() ? 0 : g[0], " expected ", fd[0]);
        }
      }
      owned z;
      if (!ts_bspline_derive(&o.s, deg + 1, -1.f, &z.s, nullptr))
      {
        auto q = ref_of(z.s);
        VCHECKC(q.deg == 0 && std::all_of(q.p.begin(), q.p.end(), [](double x) { return x == 0; }), "spline.derive.exhausted", cls, "");
      }
    }
    if (type == TS_BEZIERS && deg >= 1 && nc > deg + 1)
    {
      owned t;
      VCHECKC(ts_bspline_derive(&o.s, 1, tsReal(1e-5), &t.s, nullptr) == TS_UNDERIVABLE, "spline.derive.discontinuous", cls, "");
    }
  }
}

VP_SECTION(interpolation)
{
  const int n = M.n(800, 15000);
  for (int k = 0; k < n; k++)
  {
    size_t dim = M.r.i(1, 4), np = M.r.i(1, 8);
    auto p = pts(np * dim);
    auto pt = [&](size_t i) { return std::vector<double>(p.begin() + i * dim, p.begin() + (i + 1) * dim); };
    {
      owned o;
      auto e = ts_bspline_interpolate_cubic_natural(p.data(), np, dim, &o.s, nullptr);
      VCHECK(!e, "natural.new", e, " np=", np);
      if (!e)
      {
        auto r = ref_of(o.s);
        VCHECK(r.deg == 3 && r.n() == std::max<size_t>(1, np - 1) * 4, "natural.sizes", r.n());
        std::vector<double> g, gl;
        for (size_t i = 0; i < np && np > 1; i++)
        {
          double x = double(i) / (np - 1);
          VCHECK(eval(o.s, x, g, &gl) && dist(g, pt(i)) < 1e-5 && dist(gl, pt(i)) < 1e-5, "natural.passes", "np=", np, " i=", i, " dist=", dist(g, pt(i)));
        }
        // C1 and C2 at the joints, no curvature at the ends
        for (size_t d = 0; d < dim && np > 1; d++)
        {
          auto c = [&](size_t seg, size_t j) { return r.p[(seg * 4 + j) * dim + d]; };
          auto dd0 = [&](size_t s) { return c(s, 0) - 2 * c(s, 1) + c(s, 2); };
          auto dd1 = [&](size_t s) { return c(s, 1) - 2 * c(s, 2) + c(s, 3); };
          VCHECK(std::abs(dd0(0)) < 1e-4 && std::abs(dd1(np - 2)) < 1e-4, "natural.ends", "np=", np, " ", dd0(0), " ", dd1(np - 2));
          for (size_t s = 0; s + 2 < np; s++)
          {
            VCHECK(std::abs((c(s, 3) - c(s, 2)) - (c(s + 1, 1) - c(s + 1, 0))) < 1e-4, "natural.c1", "np=", np, " s=", s);
            VCHECK(std::abs(dd1(s) - dd0(s + 1)) < 1e-4, "natural.c2", "np=", np, " s=", s);
          }
        }
        if (np == 1)
          VCHECK(eval(o.s, 0.4, g) && dist(g, pt(0)) < 1e-6, "natural.point", "");
      }
      owned z;
      VCHECK(ts_bspline_interpolate_cubic_natural(p.data(), 0, dim, &z.s, nullptr) == TS_NUM_POINTS, "natural.reject", "");
    }
    {
      // duplicate some points: they are filtered
      auto q = p;
      std::vector<std::vector<double>> uniq;
      for (size_t i = 0; i < np; i++)
      {
        if (i && M.r.b(1, 6))
          std::copy(q.begin() + (i - 1) * dim, q.begin() + i * dim, q.begin() + i * dim);
        std::vector<double> x(q.begin() + i * dim, q.begin() + (i + 1) * dim);
        if (uniq.empty() || dist(uniq.back(), x) > 1e-7) uniq.push_back(x);
      }
      double alpha = M.r.pick(std::vector<double>{0., 0.5, 1., M.r.u(), -1., 3.});
      auto first = pts(dim), last = pts(dim);
      bool uf = M.r.b(), ul = M.r.b();
      owned o;
      auto e = ts_bspline_interpolate_catmull_rom(q.data(), np, dim, alpha, uf ? first.data() : nullptr, ul ? last.data() : nullptr, 1e-5, &o.s, nullptr);
      VCHECK(!e, "catmull.new", e);
      if (!e)
      {
        auto r = ref_of(o.s);
        std::vector<double> g, gl;
        if (uniq.size() == 1)
          VCHECK(r.deg == 0 && eval(o.s, 0.5, g) && dist(g, uniq[0]) < 1e-6, "catmull.point", "");
        else
        {
          VCHECK(r.deg == 3 && r.n() == (uniq.size() - 1) * 4, "catmull.sizes", r.n(), " ", uniq.size());
          for (size_t i = 0; i < uniq.size(); i++)
            VCHECK(eval(o.s, double(i) / (uniq.size() - 1), g, &gl) && dist(g, uniq[i]) < 1e-5 && dist(gl, uniq[i]) < 1e-5, "catmull.passes", "i=", i, " n=", uniq.size());
          // tangents of the Barry-Goldman construction
          auto P = [&](int i) -> std::vector<double> {
            if (i < 0)
            {
              if (uf) return first;
              std::vector<double> v;
              for (size_t d = 0; d < dim; d++) v.push_back(2 * uniq[0][d] - uniq[1][d]);
              return v;
            }
            if (i >= int(uniq.size()))
            {
              if (ul) return last;
              std::vector<double> v;
              size_t m = uniq.size();
              for (size_t d = 0; d < dim; d++) v.push_back(2 * uniq[m - 1][d] - uniq[m - 2][d]);
              return v;
            }
            return uniq[i];
          };
          double al = std::clamp(alpha, 0., 1.);
          auto L = [&](int i) {
            double s = 0;
            auto a = P(i), b = P(i + 1);
            for (size_t d = 0; d < dim; d++) s += (a[d] - b[d]) * (a[d] - b[d]);
            return std::pow(std::sqrt(s), al);
          };
          for (int i = 0; i + 1 < int(uniq.size()); i++)
            for (size_t d = 0; d < dim; d++)
            {
              double a = L(i - 1), b = L(i), c = L(i + 1);
              auto p0 = P(i - 1)[d], p1 = P(i)[d], p2 = P(i + 1)[d], p3 = P(i + 2)[d];
              double v1 = (p1 - p0) / a - (p2 - p0) / (a + b) + (p2 - p1) / b;
              double v2 = (p2 - p1) / b - (p3 - p1) / (b + c) + (p3 - p2) / c;
              double t1 = p1 + b * v1 / 3, t2 = p2 - b * v2 / 3;
              double g1 = r.p[(i * 4 + 1) * dim + d], g2 = r.p[(i * 4 + 2) * dim + d];
              double tol = 1e-3 * (1 + std::abs(t1) + std::abs(t2));
              VCHECK(std::abs(g1 - t1) < tol && std::abs(g2 - t2) < tol, "catmull.tangents", "i=", i, " alpha=", alpha, " got ", g1, " ", g2, " expected ", t1, " ", t2);
            }
        }
      }
      owned z;
      VCHECK(ts_bspline_interpolate_catmull_rom(q.data(), 0, dim, 0.5, nullptr, nullptr, 1e-5, &z.s, nullptr) == TS_NUM_POINTS, "catmull.reject", "");
      owned z2;
      VCHECK(ts_bspline_interpolate_catmull_rom(q.data(), np, 0, 0.5, nullptr, nullptr, 1e-5, &z2.s, nullptr) == TS_DIM_ZERO, "catmull.reject", "");
    }
    // bisection on a monotonous component
    {
      size_t nc = 4 + M.r.i(0, 5), index = M.r.i(0, dim - 1);
      bool asc = M.r.b();
      auto c = pts(nc * dim);
      double acc = M.r.d(-10, 10);
      for (size_t i = 0; i < nc; i++)
      {
        c[i * dim + index] = acc;
        acc += (asc ? 1 : -1) * M.r.d(0.1, 3);
      }
      owned o;
      ts_bspline_new(nc, dim, 3, TS_CLAMPED, &o.s, nullptr);
      ts_bspline_set_control_points(&o.s, c.data(), nullptr);
      double a = c[index], b = c[(nc - 1) * dim + index], v = a + (b - a) * M.r.d(0.02, 0.98);
      tsDeBoorNet net;
      auto e = ts_bspline_bisect(&o.s, v, 0.01, 1, index, asc, 60, &net, nullptr);
      VCHECK(!e, "bisect.finds", e, " nc=", nc);
      if (!e)
      {
        tsReal* g{};
        ts_deboornet_result(&net, &g, nullptr);
        VCHECK(std::abs(g[index] - v) <= 0.0100001, "bisect.value", g[index], " wanted ", v);
        free(g);
      }
      ts_deboornet_free(&net);
      double out = asc ? b + 5 : b - 5;
      VCHECK(ts_bspline_bisect(&o.s, out, 0.01, 1, index, asc, 30, &net, nullptr) == TS_NO_RESULT, "bisect.reject", "persnickety");
      ts_deboornet_free(&net);
      VCHECK(ts_bspline_bisect(&o.s, out, 0.01, 0, index, asc, 30, &net, nullptr) == TS_SUCCESS, "bisect.best", "");
      ts_deboornet_free(&net);
      VCHECK(ts_bspline_bisect(&o.s, v, 0.01, 0, dim, asc, 30, &net, nullptr) == TS_INDEX_ERROR, "bisect.index", "");
      ts_deboornet_free(&net);
      VCHECK(ts_bspline_bisect(&o.s, v, 0.01, 0, index, asc, 0, &net, nullptr) == TS_NO_RESULT, "bisect.iterations", "");
      ts_deboornet_free(&net);
    }
    // closed splines: wrap the control points of an opened one around
    {
      size_t base = 4 + M.r.i(0, 4), deg = M.r.i(1, 3);
      auto c = pts(base * dim);
      std::vector<double> w = c;
      for (size_t i = 0; i < deg; i++)
        w.insert(w.end(), c.begin() + i * dim, c.begin() + (i + 1) * dim);
      owned o;
      ts_bspline_new(base + deg, dim, deg, TS_OPENED, &o.s, nullptr);
      ts_bspline_set_control_points(&o.s, w.data(), nullptr);
      int closed = -1;
      VCHECK(!ts_bspline_is_closed(&o.s, 1e-3, &closed, nullptr) && closed == 1, "closed.yes", "deg=", deg, " closed=", closed);
      owned q;
      ts_bspline_new(base, dim, deg, TS_CLAMPED, &q.s, nullptr);
      ts_bspline_set_control_points(&q.s, c.data(), nullptr);
      bool ends = dist(std::vector<double>(c.begin(), c.begin() + dim), std::vector<double>(c.end() - dim, c.end())) > 1e-2;
      if (ends)
        VCHECK(!ts_bspline_is_closed(&q.s, 1e-3, &closed, nullptr) && closed == 0, "closed.no", "");
    }
    M.seen(vp::mix(k, np));
  }
}

template <std::size_t N>
static void util_case()
{
  ts::spline<N> s;
  VCHECK(!s, "util.empty", "");
  auto z = s.evaluate(0.5);
  VCHECK(std::all_of(z.begin(), z.end(), [](double v) { return v == 0; }), "util.empty.value", "");
  for (int round = 0; round < 3; round++)
  {
    size_t np = M.r.i(0, 9);
    auto p = pts(np * N);
    s.set_points(p.data(), np);
    VCHECK(bool(s) == (np >= 4), "util.usable", "np=", np);
    if (np < 4)
    {
      s.evaluate(0.3);
      continue;
    }
    rspline r{N, 3, p, {}};
    size_t nk = np + 4;
    for (size_t i = 0; i < nk; i++)
      r.u.push_back(i <= 3 ? 0. : i >= nk - 4 ? 1. : double(i - 3) / (nk - 7));
    for (int j = 0; j < 6; j++)
    {
      double x = j == 0 ? 0. : j == 1 ? 1. : inside(r);
      auto g = s.evaluate(x);
      VCHECK(dist(std::vector<double>(g.begin(), g.end()), r.at(x)) < 1e-5, "util.value", "np=", np, " u=", x);
      M.seen(vp::mix(np, uint64_t(x * 1e9)));
    }
    auto g = s.evaluate(1 + M.r.d(0, 3));
    VCHECK(dist(std::vector<double>(g.begin(), g.end()), r.at(1.)) < 1e-5, "util.beyond", "");
  }
}
VP_SECTION(util)
{
  const int n = M.n(500, 10000);
  for (int k = 0; k < n; k++)
  {
    util_case<1>();
    util_case<2>();
    util_case<3>();
  }
}
VP_MAIN
