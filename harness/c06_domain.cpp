// C06: domains and bounding. Every bounding result judged against a double-precision model.
#include "values.hpp"
#include <ossia/detail/math.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/domain/domain_conversion.hpp>
#include <ossia/network/value/value_conversion.hpp>
using vp::M;
using mv::val;
using B = ossia::bounding_mode;
using OD = std::optional<double>;
static const B modes[] = {B::FREE, B::CLIP, B::WRAP, B::FOLD, B::LOW, B::HIGH};
static const char* mname(B b) { static const char* n[] = {"FREE", "CLIP", "WRAP", "FOLD", "LOW", "HIGH"}; return n[int(b)]; }

// the acceptable results of bounding x
static bool bounded_ok(double x, OD lo, OD hi, B b, double got, double tol)
{
  auto near = [&](double a) { return std::abs(got - a) <= tol; };
  double L = lo ? *lo : -1e300, H = hi ? *hi : 1e300;
  switch (b)
  {
    case B::FREE: return got == x;
    case B::CLIP: return got == (x < L ? L : x > H ? H : x);
    case B::LOW: return got == (x < L ? L : x);
    case B::HIGH: return got == (x > H ? H : x);
    default: break;
  }
  if (!lo || !hi)
    return got == x;
  if (H == L)
    return got == L;
  if (x > L && x < H)
    return got == x;
  if (!(got >= L && got <= H))
    return false;
  double R = H - L;
  if (b == B::WRAP)
  {
    double d = std::fmod(x - L, R);
    if (d < 0)
      d += R;
    double e = std::abs((got - L) - d);
    return e <= tol || std::abs(e - R) <= tol;
  }
  if (x == L || x == H)
    return got == x;
  double d = std::fmod(x - L, 2 * R);
  if (d < 0)
    d += 2 * R;
  if (d > R)
    d = 2 * R - d;
  return near(L + d);
}
static double tolf(double x, OD lo, OD hi)
{
  return 4e-6 * (1 + std::abs(x) + (lo ? std::abs(*lo) : 0) + (hi ? std::abs(*hi) : 0));
}
static std::string ds(OD a) { return a ? vp::str(*a) : "-"; }
// both overloads, and the method
template <typename F>
static void apply_all(const ossia::domain& d, B b, const ossia::value& v, F&& f)
{
  f(ossia::apply_domain(d, b, v), "const");
  ossia::value c = v;
  f(ossia::apply_domain(d, b, std::move(c)), "move");
  f(d.apply(b, v), "method");
}

struct bounds
{
  OD lo, hi;
};
template <typename T>
static bounds gen_bounds(T lo, T hi)
{
  bounds r;
  auto g = [&]() -> double {
    if constexpr (std::is_same_v<T, float>)
      return M.r.b() ? float(M.r.i(int(lo), int(hi))) / 4.f : float(M.r.d(lo, hi));
    else
      return double(T(M.r.i(lo, hi)));
  };
  double a = g(), b = M.r.b(1, 8) ? a : g();
  if (a > b)
    std::swap(a, b);
  switch (M.r.i(0, 7))
  {
    case 0: r.lo = a; break;
    case 1: r.hi = a; break;
    case 2: if (M.r.b(1, 3)) break; [[fallthrough]];
    default: r.lo = a; r.hi = b;
  }
  return r;
}
static double gen_near(bounds b, double lo, double hi, bool integer)
{
  double x;
  double w = (b.lo && b.hi) ? *b.hi - *b.lo : 10;
  switch (M.r.i(0, 5))
  {
    case 0: x = b.lo ? *b.lo : b.hi ? *b.hi : 0; break;
    case 1: x = b.hi ? *b.hi : 0; break;
    case 2: x = (b.lo ? *b.lo : 0) + w * M.r.i(-3, 3); break;
    case 3: x = (b.lo ? *b.lo : 0) + M.r.d(-3, 3) * w; break;
    default: x = M.r.d(lo, hi);
  }
  x = std::clamp(x, lo, hi);
  return integer ? std::trunc(x) : double(float(x));
}
template <typename T>
static ossia::domain mkdom(bounds b)
{
  ossia::domain_base<T> d;
  if (b.lo)
    d.min = T(*b.lo);
  if (b.hi)
    d.max = T(*b.hi);
  return d;
}

template <typename T>
static void scalar(const char* name, T lo, T hi, double xlo, double xhi)
{
  constexpr bool isint = !std::is_same_v<T, float>;
  for (size_t k = 0; k < M.n(12000); k++)
  {
    auto bd = gen_bounds<T>(lo, hi);
    double x = gen_near(bd, xlo, xhi, isint);
    B b = M.r.pick(modes);
    M.at(name, vp::str(mname(b), " ", x, " in ", ds(bd.lo), " ", ds(bd.hi)));
    M.seen(vp::mix(vp::mix(uint64_t(x * 64), uint64_t(b)), vp::mix(bd.lo ? uint64_t(*bd.lo * 64) : 1, bd.hi ? uint64_t(*bd.hi * 64) : 2)));
    auto d = mkdom<T>(bd);
    const double tol = isint ? 0 : tolf(x, bd.lo, bd.hi);
    apply_all(d, b, ossia::value{T(x)}, [&](const ossia::value& r, const char* how) {
      auto p = r.target<T>();
      VCHECKC(p && bounded_ok(x, bd.lo, bd.hi, b, double(*p), tol), "a number bounded in its domain", vp::str(name, ",", mname(b)), how, " ", x, " in [", ds(bd.lo), ";", ds(bd.hi), "] -> ", mv::S(r));
    });
    // accessors
    ossia::value mn = d.get_min(), mx = ossia::get_max(d);
    VCHECK(bd.lo ? (mn.template target<T>() && double(*mn.template target<T>()) == *bd.lo) : !mn.valid(), "the bounds of a domain are read back", mv::S(mn));
    VCHECK(bd.hi ? (mx.template target<T>() && double(*mx.template target<T>()) == *bd.hi) : !mx.valid(), "the bounds of a domain are read back", mv::S(mx));
    auto mm = ossia::get_float_minmax(d);
    VCHECK(bool(mm.first) == bool(bd.lo) && bool(mm.second) == bool(bd.hi) && (!bd.lo || *mm.first == float(*bd.lo)) && (!bd.hi || *mm.second == float(*bd.hi)), "the bounds of a domain as floats", name);
    if (bd.lo)
      VCHECK(d.template convert_min<float>() == float(*bd.lo) && d.template maybe_min<T>() == std::optional<T>{T(*bd.lo)}, "the bounds of a domain are read back", "convert_min");
    // math helpers directly
    if (bd.lo && bd.hi && !std::is_same_v<T, char>)
    {
      T L = T(*bd.lo), H = T(*bd.hi), X = T(x);
      VCHECKC(bounded_ok(x, bd.lo, bd.hi, B::CLIP, ossia::clamp(X, L, H), tol), "clamp, wrap and fold of numbers", "clamp", x);
      VCHECKC(bounded_ok(x, bd.lo, bd.hi, B::WRAP, ossia::wrap(X, L, H), tol), "clamp, wrap and fold of numbers", "wrap", x, " ", L, " ", H, " -> ", ossia::wrap(X, L, H));
      VCHECKC(bounded_ok(x, bd.lo, bd.hi, B::FOLD, ossia::fold(X, L, H), tol), "clamp, wrap and fold of numbers", "fold", x, " ", L, " ", H, " -> ", ossia::fold(X, L, H));
      VCHECKC(bounded_ok(x, bd.lo, bd.hi, B::LOW, ossia::clamp_min(X, L), tol), "clamp, wrap and fold of numbers", "low", x);
      VCHECKC(bounded_ok(x, bd.lo, bd.hi, B::HIGH, ossia::clamp_max(X, H), tol), "clamp, wrap and fold of numbers", "high", x);
    }
  }
}
VP_SECTION(int_float)
{
  scalar<int>("int", -1000, 1000, -100000, 100000);
  scalar<float>("float", -100, 100, -10000, 10000);
  scalar<char>("char", -60, 60, -128, 127);
  // bounds of the integer range, clamping only
  for (size_t k = 0; k < M.n(4000); k++)
  {
    int a = mv::gen_int(M.r), b2 = mv::gen_int(M.r), x = mv::gen_int(M.r);
    if (a > b2)
      std::swap(a, b2);
    static const B cm[] = {B::CLIP, B::LOW, B::HIGH, B::FREE};
    B b = M.r.pick(cm);
    M.at("int extremes", vp::str(mname(b), x, " ", a, " ", b2));
    auto d = ossia::make_domain(a, b2);
    apply_all(d, b, x, [&](const ossia::value& r, const char* how) {
      VCHECKC(r.target<int>() && bounded_ok(x, a, b2, b, *r.target<int>(), 0), "a number bounded in its domain", "int-extremes", how, x, " ", a, " ", b2, " ", mname(b), mv::S(r));
    });
  }
  for (bool x : {false, true})
    for (B b : modes)
    {
      M.at("bool", mname(b));
      apply_all(ossia::domain_base<bool>{}, b, x, [&](const ossia::value& r, const char* how) {
        // wrapping the upper bound may give either end of the range
        VCHECKC(r.target<bool>() && (b == B::WRAP || *r.target<bool>() == x), "a boolean bounded in its domain", mname(b), how, x);
      });
      apply_all(ossia::domain_base<ossia::impulse>{}, b, ossia::impulse{}, [&](const ossia::value& r, const char*) {
        VCHECK(r.get_type() == ossia::val_type::IMPULSE, "an impulse stays an impulse", mname(b));
      });
    }
}
VP_SECTION(mixed)
{
  for (size_t k = 0; k < M.n(15000); k++)
  {
    B b = M.r.pick(modes);
    bool fd = M.r.b();
    auto bd = fd ? gen_bounds<float>(-100, 100) : gen_bounds<int>(-100, 100);
    double x = gen_near(bd, -5000, 5000, fd);
    M.at("a number in a domain of another numeric type", vp::str(fd ? "int/float " : "float/int ", mname(b), " ", x, " in ", ds(bd.lo), " ", ds(bd.hi)));
    M.seen(vp::mix(uint64_t(x * 64), vp::mix(uint64_t(b), bd.lo ? uint64_t(*bd.lo * 64) : 1)));
    if (fd)
      apply_all(mkdom<float>(bd), b, int(x), [&](const ossia::value& r, const char* how) {
        auto p = r.target<int>();
        // the result is the integer part of the bounded number
        bool ok = false;
        if (p)
          for (double off : {0., 1., -1.})
          {
            // any g with trunc(g) == *p and g acceptable
            double tol = tolf(x, bd.lo, bd.hi);
            (void)off;
            OD exact;
            double L = bd.lo ? *bd.lo : -1e300, H = bd.hi ? *bd.hi : 1e300;
            double g = x;
            if (b == B::CLIP) g = x < L ? L : x > H ? H : x;
            else if (b == B::LOW) g = x < L ? L : x;
            else if (b == B::HIGH) g = x > H ? H : x;
            else if ((b == B::WRAP || b == B::FOLD) && bd.lo && bd.hi && !(x >= L && x < H))
            {
              double R = H - L;
              if (R == 0) g = L;
              else if (b == B::WRAP) { double q = std::fmod(x - L, R); if (q < 0) q += R; g = L + q; if (std::abs(q) < tol || std::abs(q - R) < tol) { if (int(L) == *p || int(H) == *p || std::abs(*p - L) <= 1 || std::abs(*p - H) <= 1) ok = true; } }
              else { double q = std::fmod(x - L, 2 * R); if (q < 0) q += 2 * R; if (q > R) q = 2 * R - q; g = L + q; }
            }
            if (int(g) == *p || int(g - tol) == *p || int(g + tol) == *p)
              ok = true;
          }
        VCHECKC(ok, "an integer bounded in a float domain stays an integer", mname(b), how, " ", x, " in [", ds(bd.lo), ";", ds(bd.hi), "] -> ", mv::S(r));
      });
    else
      apply_all(mkdom<int>(bd), b, float(x), [&](const ossia::value& r, const char* how) {
        auto p = r.target<float>();
        bool ok = p && (bounded_ok(std::trunc(x), bd.lo, bd.hi, b, *p, 1e-3) || (b == B::FREE && *p == float(x)));
        VCHECKC(ok, "a float bounded in an integer domain is an integer number", mname(b), how, " ", x, " in [", ds(bd.lo), ";", ds(bd.hi), "] -> ", mv::S(r));
      });
  }
}

template <std::size_t N>
static void vecs()
{
  for (size_t k = 0; k < M.n(4000); k++)
  {
    B b = M.r.pick(modes);
    std::array<float, N> x;
    std::array<bounds, N> bd;
    int kind = M.r.i(0, 3); // float domain, int domain, vecf domain, list domain
    auto one = kind == 1 ? gen_bounds<int>(-50, 50) : gen_bounds<float>(-50, 50);
    for (size_t i = 0; i < N; i++)
    {
      bd[i] = kind < 2 ? one : gen_bounds<float>(-50, 50);
      x[i] = float(gen_near(bd[i], -500, 500, kind == 1));
    }
    ossia::domain d;
    if (kind == 0)
      d = mkdom<float>(one);
    else if (kind == 1)
      d = mkdom<int>(one);
    else if (kind == 2)
    {
      ossia::vecf_domain<N> v;
      for (size_t i = 0; i < N; i++)
      {
        if (bd[i].lo)
          v.min[i] = float(*bd[i].lo);
        if (bd[i].hi)
          v.max[i] = float(*bd[i].hi);
      }
      d = v;
      bool all = true, allh = true;
      for (auto& q : bd)
      {
        all &= bool(q.lo);
        allh &= bool(q.hi);
      }
      VCHECK(d.get_min().valid() == all && d.get_max().valid() == allh, "a vector domain has a minimum when every component has one", N);
    }
    else
    {
      ossia::vector_domain v;
      for (size_t i = 0; i < N; i++)
      {
        v.min.push_back(bd[i].lo ? ossia::value{float(*bd[i].lo)} : ossia::value{});
        v.max.push_back(bd[i].hi ? ossia::value{float(*bd[i].hi)} : ossia::value{});
      }
      d = v;
    }
    M.at("a vector bounded component by component", vp::str(kind, mname(b), N));
    M.seen(vp::mix(vp::hash_bytes(x.data(), sizeof x), uint64_t(b) * 4 + kind));
    if (kind == 3)
      continue; // see below: lists only
    apply_all(d, b, ossia::value{x}, [&](const ossia::value& r, const char* how) {
      auto p = r.target<std::array<float, N>>();
      bool ok = bool(p);
      if (p)
        for (size_t i = 0; i < N; i++)
          ok &= bounded_ok(x[i], bd[i].lo, bd[i].hi, b, (*p)[i], tolf(x[i], bd[i].lo, bd[i].hi));
      VCHECKC(ok, "a vector bounded component by component", vp::str(N, ",", kind, ",", mname(b)), how, " ", mv::S(val{x}), " -> ", mv::S(r), " in ", ds(bd[0].lo), ";", ds(bd[0].hi), " ", ds(bd[N - 1].lo), ";", ds(bd[N - 1].hi));
    });
  }
  // value sets
  for (size_t k = 0; k < M.n(1500); k++)
  {
    B b = M.r.pick(modes);
    ossia::domain_base<float> d;
    int n = M.r.i(1, 4);
    for (int i = 0; i < n; i++)
      d.values.push_back(float(M.r.i(0, 4)));
    std::array<float, N> x;
    bool in = true;
    for (auto& c : x)
    {
      c = float(M.r.i(0, 4));
      in &= std::find(d.values.begin(), d.values.end(), c) != d.values.end();
    }
    M.at("a vector in a value set", mname(b));
    apply_all(d, b, ossia::value{x}, [&](const ossia::value& r, const char* how) {
      if (b == B::FREE || in)
        VCHECKC(mv::same(val{x}, r), "a value of the set of a domain is kept", "vec", how, mv::S(r));
      else
        VCHECKC(!r.valid(), "a value out of the set of a domain is refused", "vec", how, mname(b), mv::S(r));
    });
  }
}
VP_SECTION(vectors)
{
  vecs<2>();
  vecs<3>();
  vecs<4>();
}

// lists
static bool list_ok(const val& x, const val& lo, const val& hi, B b, const ossia::value& got)
{
  // bounding only between values of one type, list by list of one size
  auto num = [](const val& v) -> OD {
    if (auto p = std::get_if<int>(&v.v)) return double(*p);
    if (auto p = std::get_if<float>(&v.v)) return double(*p);
    if (auto p = std::get_if<char>(&v.v)) return double(*p);
    return {};
  };
  bool hl = lo.v.index() != 0, hh = hi.v.index() != 0;
  bool usel = hl && (b == B::CLIP || b == B::LOW || b == B::WRAP || b == B::FOLD);
  bool useh = hh && (b == B::CLIP || b == B::HIGH || b == B::WRAP || b == B::FOLD);
  if ((b == B::WRAP || b == B::FOLD) && !(hl && hh))
    return mv::same(x, got);
  if ((usel && lo.v.index() != x.v.index()) || (useh && hi.v.index() != x.v.index()) || (!usel && !useh))
    return mv::same(x, got);
  if (auto n = num(x))
  {
    val g = mv::from(got);
    if (g.v.index() != x.v.index())
      return false;
    return bounded_ok(*n, usel ? num(lo) : OD{}, useh ? num(hi) : OD{}, b, *num(g), std::holds_alternative<float>(x.v) ? tolf(*n, num(lo), num(hi)) : 0);
  }
  if (auto l = std::get_if<mv::list>(&x.v))
  {
    auto p = got.target<std::vector<ossia::value>>();
    if (!p || p->size() != l->size())
      return false;
    static const mv::list none;
    auto& ll = usel ? std::get<mv::list>(lo.v) : none;
    auto& lh = useh ? std::get<mv::list>(hi.v) : none;
    if ((usel && ll.size() != l->size()) || (useh && lh.size() != l->size()))
      return mv::same(x, got);
    for (size_t i = 0; i < l->size(); i++)
      if (!list_ok((*l)[i], usel ? ll[i] : val{mv::none{}}, useh ? lh[i] : val{mv::none{}}, b, (*p)[i]))
        return false;
    return true;
  }
  if (std::holds_alternative<bool>(x.v))
    return got.target<bool>() != nullptr;
  return mv::same(x, got);
}
struct elem3
{
  val x, lo, hi;
};
static elem3 gen_elem(int depth)
{
  int t = M.r.i(0, depth < 2 ? 6 : 4);
  auto mkn = [&](int ty, double v) -> val { return ty == 0 ? val{int(v)} : ty == 1 ? val{float(v)} : val{char(v)}; };
  if (t <= 2)
  {
    double a = M.r.i(-30, 30), b = M.r.i(-30, 30);
    if (a > b)
      std::swap(a, b);
    int ta = t, tb = t;
    if (M.r.b(1, 6))
      ta = (t + 1) % 3;
    elem3 e{mkn(t, M.r.i(-100, 100)), mkn(ta, a), mkn(tb, b)};
    return e;
  }
  if (t == 3)
    return {val{std::string("s")}, val{std::string("a")}, val{std::string("z")}};
  if (t == 4)
    return {val{M.r.b()}, val{false}, val{true}};
  mv::list x, l, h;
  int n = M.r.i(0, 3);
  for (int i = 0; i < n; i++)
  {
    auto e = gen_elem(depth + 1);
    x.push_back(e.x);
    l.push_back(e.lo);
    h.push_back(e.hi);
  }
  if (M.r.b(1, 6) && n)
    x.pop_back();
  return {val{x}, val{l}, val{h}};
}
VP_SECTION(lists)
{
  for (size_t k = 0; k < M.n(15000); k++)
  {
    B b = M.r.pick(modes);
    mv::list x, lo, hi;
    ossia::vector_domain d;
    int n = M.r.i(0, 5);
    for (int i = 0; i < n; i++)
    {
      auto e = gen_elem(0);
      x.push_back(e.x);
      lo.push_back(M.r.b(1, 6) ? val{mv::none{}} : e.lo);
      hi.push_back(M.r.b(1, 6) ? val{mv::none{}} : e.hi);
    }
    size_t nl = M.r.b(1, 4) ? M.r.i(0, n) : n, nh = M.r.b(1, 4) ? M.r.i(0, n) : n;
    lo.resize(nl);
    hi.resize(nh);
    for (auto& e : lo) d.min.push_back(mv::mk(e));
    for (auto& e : hi) d.max.push_back(mv::mk(e));
    std::vector<std::set<int>> sets(n);
    if (M.r.b(1, 4))
    {
      d.values.resize(M.r.i(0, n));
      for (size_t i = 0; i < d.values.size(); i++)
        for (int q = M.r.i(0, 3); q-- > 0;)
        {
          int z = M.r.i(0, 4);
          d.values[i].insert(ossia::value{z});
          sets[i].insert(z);
          if (M.r.b())
            x[i] = val{int(M.r.i(0, 4))};
        }
    }
    M.at("a list bounded element by element", vp::str(mname(b), " ", mv::S(val{x}), " in ", mv::S(val{lo}), " ", mv::S(val{hi})));
    M.seen(vp::mix(vp::hash_str(mv::S(val{x})), vp::hash_str(mv::S(val{lo}))));
    apply_all(d, b, mv::mk(val{x}), [&](const ossia::value& r, const char* how) {
      auto p = r.target<std::vector<ossia::value>>();
      if (!VCHECKC(p && p->size() == x.size(), "a list bounded element by element", "size", how, mv::S(r)))
        return;
      for (int i = 0; i < n; i++)
      {
        bool ok;
        if (b == B::FREE)
          ok = mv::same(x[i], (*p)[i]);
        else if (!sets[i].empty())
        {
          auto q = std::get_if<int>(&x[i].v);
          if (q)
            ok = sets[i].count(*q) ? mv::same(x[i], (*p)[i]) : !(*p)[i].valid();
          else
            ok = true; // comparisons across types: see C03
        }
        else
          ok = list_ok(x[i], i < int(nl) ? lo[i] : val{mv::none{}}, i < int(nh) ? hi[i] : val{mv::none{}}, b, (*p)[i]);
        VCHECKC(ok, "a list bounded element by element", vp::str(mname(b), ",", mv::tname(x[i])), how, " #", i, " ", mv::S(x[i]), " in ", i < int(nl) ? mv::S(lo[i]) : "-", ";", i < int(nh) ? mv::S(hi[i]) : "-", " -> ", mv::S((*p)[i]));
      }
    });
  }
  // a scalar domain bounds the elements of its type in a list
  for (size_t k = 0; k < M.n(6000); k++)
  {
    B b = M.r.pick(modes);
    mv::list x;
    for (int i = M.r.i(0, 5); i-- > 0;)
      x.push_back(gen_elem(1).x);
    auto bd = gen_bounds<int>(-20, 20);
    int kind = M.r.i(0, 2);
    ossia::domain d = kind == 0 ? mkdom<int>(bd) : kind == 1 ? mkdom<float>(bd) : mkdom<char>(bd);
    M.at("a list in the domain of a number", vp::str(kind, mname(b), mv::S(val{x})));
    apply_all(d, b, mv::mk(val{x}), [&](const ossia::value& r, const char* how) {
      auto p = r.target<std::vector<ossia::value>>();
      if (!VCHECKC(p && p->size() == x.size(), "a list in the domain of a number", "size", how, mv::S(r)))
        return;
      for (size_t i = 0; i < x.size(); i++)
      {
        bool ok;
        auto num = [&](double v, auto t) { return (*p)[i].target<decltype(t)>() && bounded_ok(v, bd.lo, bd.hi, b, double(*(*p)[i].target<decltype(t)>()), kind == 1 ? tolf(v, bd.lo, bd.hi) : 0); };
        if (auto q = std::get_if<int>(&x[i].v); q && kind == 0)
          ok = num(*q, int{});
        else if (auto q = std::get_if<float>(&x[i].v); q && kind == 1)
          ok = num(*q, float{});
        else if (auto q = std::get_if<char>(&x[i].v); q && kind == 2)
          ok = num(*q, char{});
        else
          ok = mv::same(x[i], (*p)[i]);
        VCHECKC(ok, "a list in the domain of a number", vp::str(kind, ",", mname(b), ",", mv::tname(x[i])), how, " ", mv::S(x[i]), " in ", ds(bd.lo), ";", ds(bd.hi), " -> ", mv::S((*p)[i]));
      }
    });
  }
}
VP_SECTION(generic)
{
  // domain of any value
  for (size_t k = 0; k < M.n(10000); k++)
  {
    B b = M.r.pick(modes);
    auto e = gen_elem(2);
    ossia::domain_base<ossia::value> d;
    if (M.r.b(5, 6)) d.min = mv::mk(e.lo); else e.lo = val{mv::none{}};
    if (M.r.b(5, 6)) d.max = mv::mk(e.hi); else e.hi = val{mv::none{}};
    M.at("a value in a domain of values", vp::str(mname(b), mv::S(e.x), " in ", mv::S(e.lo), ";", mv::S(e.hi)));
    M.seen(vp::mix(uint64_t(b), vp::hash_str(mv::S(e.x) + mv::S(e.lo) + mv::S(e.hi))));
    apply_all(d, b, mv::mk(e.x), [&](const ossia::value& r, const char* how) {
      VCHECKC(list_ok(e.x, e.lo, e.hi, b, r), "a value in a domain of values", vp::str(mname(b), ",", mv::tname(e.x)), how, " ", mv::S(e.x), " in ", mv::S(e.lo), ";", mv::S(e.hi), " -> ", mv::S(r));
    });
    // element by element in a list
    mv::list l;
    for (int i = M.r.i(0, 4); i-- > 0;)
      l.push_back(M.r.b() ? e.x : gen_elem(2).x);
    apply_all(d, b, mv::mk(val{l}), [&](const ossia::value& r, const char* how) {
      auto p = r.target<std::vector<ossia::value>>();
      bool ok = p && p->size() == l.size();
      for (size_t i = 0; ok && i < l.size(); i++)
        ok = list_ok(l[i], e.lo, e.hi, b, (*p)[i]);
      VCHECKC(ok, "a list in a domain of values", mname(b), how, mv::S(val{l}), " in ", mv::S(e.lo), ";", mv::S(e.hi), " -> ", mv::S(r));
    });
    // free functions
    auto c = ossia::clamp(mv::mk(e.x), mv::mk(e.lo), mv::mk(e.hi));
    if (e.lo.v.index() && e.hi.v.index())
    {
      VCHECKC(list_ok(e.x, e.lo, e.hi, B::CLIP, c), "clamp, wrap and fold of values", "clamp", mv::S(e.x), mv::S(c));
      c = ossia::wrap(mv::mk(e.x), mv::mk(e.lo), mv::mk(e.hi));
      VCHECKC(list_ok(e.x, e.lo, e.hi, B::WRAP, c), "clamp, wrap and fold of values", "wrap", mv::S(e.x), mv::S(c));
      c = ossia::fold(mv::mk(e.x), mv::mk(e.lo), mv::mk(e.hi));
      VCHECKC(list_ok(e.x, e.lo, e.hi, B::FOLD, c), "clamp, wrap and fold of values", "fold", mv::S(e.x), mv::S(c));
      c = ossia::clamp_min(mv::mk(e.x), mv::mk(e.lo));
      VCHECKC(list_ok(e.x, e.lo, e.hi, B::LOW, c), "clamp, wrap and fold of values", "low", mv::S(e.x), mv::S(c));
      c = ossia::clamp_max(mv::mk(e.x), mv::mk(e.hi));
      VCHECKC(list_ok(e.x, e.lo, e.hi, B::HIGH, c), "clamp, wrap and fold of values", "high", mv::S(e.x), mv::S(c));
    }
  }
  // vectors between vectors, and between numbers
  for (size_t k = 0; k < M.n(3000); k++)
  {
    mv::v3 x, l, h;
    for (int i = 0; i < 3; i++)
    {
      x[i] = float(M.r.i(-50, 50)) / 2;
      l[i] = float(M.r.i(-20, 0));
      h[i] = float(M.r.i(1, 20));
    }
    B b = M.r.pick(modes);
    M.at("vectors between vectors", mname(b));
    ossia::domain_base<ossia::value> d{ossia::value{l}, ossia::value{h}};
    ossia::domain_base<ossia::value> d1{ossia::value{l[0]}, ossia::value{h[0]}};
    auto chk = [&](bool one, const ossia::value& r, const char* how) {
      auto p = r.target<ossia::vec3f>();
      bool ok = bool(p);
      for (int i = 0; ok && i < 3; i++)
        ok = bounded_ok(x[i], l[one ? 0 : i], h[one ? 0 : i], b, (*p)[i], 1e-3);
      VCHECKC(ok, "a vector in a domain of values", vp::str(mname(b), one), how, mv::S(val{x}), mv::S(val{l}), mv::S(val{h}), mv::S(r));
    };
    apply_all(d, b, ossia::value{x}, [&](auto&& r, auto how) { chk(false, r, how); });
    apply_all(d1, b, ossia::value{x}, [&](auto&& r, auto how) { chk(true, r, how); });
  }
}
VP_SECTION(sets)
{
  for (size_t k = 0; k < M.n(8000); k++)
  {
    B b = M.r.pick(modes);
    int kind = M.r.i(0, 4);
    auto mkv = [&](int i) -> val {
      switch (kind)
      {
        case 0: return {int(i)};
        case 1: return {float(i)};
        case 2: return {char('a' + i)};
        case 3: return {std::string(size_t(i), 'x')};
        default: return {int(i)};
      }
    };
    std::vector<ossia::value> vals;
    std::vector<val> vm;
    for (int i = M.r.i(1, 5); i-- > 0;)
    {
      vm.push_back(mkv(M.r.i(0, 6)));
      vals.push_back(mv::mk(vm.back()));
    }
    val x = mkv(M.r.i(0, 6));
    bool in = std::any_of(vm.begin(), vm.end(), [&](auto& v) { return mv::same(v, mv::mk(x)); });
    ossia::domain d;
    int how2 = M.r.i(0, 3);
    if (kind == 4)
    {
      ossia::domain_base<ossia::value> g;
      g.values = vals;
      d = g;
    }
    else if (how2 == 0)
      d = ossia::make_domain(vals);
    else if (how2 == 1)
      d = ossia::make_domain(ossia::value{}, ossia::value{}, vals);
    else if (how2 == 2)
    {
      d = ossia::init_domain(vals[0].get_type());
      ossia::set_values(d, {});
      ossia::set_values(d, vals);
    }
    else if (kind == 3)
    {
      std::vector<std::string> s;
      for (auto& v : vm)
        s.push_back(std::get<std::string>(v.v));
      std::vector<const char*> cs;
      for (auto& q : s)
        cs.push_back(q.c_str());
      d = M.r.b() ? ossia::make_domain(s) : ossia::make_domain(gsl::span<const char*>(cs.data(), cs.size()));
    }
    else if (kind < 3)
      d = ossia::make_domain(vals[0], vals[0], vals);
    M.at("a value in a domain with a set of values", vp::str(kind, " ", how2, " ", mname(b), mv::S(x)));
    M.seen(vp::mix(vp::hash_str(mv::S(x)), vp::mix(uint64_t(b), kind * 8 + how2)));
    VCHECKC(ossia::get_values(d) == vals, "the set of values of a domain is read back", vp::str(kind, ",", how2), ossia::get_values(d).size(), " ", vals.size());
    apply_all(d, b, mv::mk(x), [&](const ossia::value& r, const char* how) {
      if (b == B::FREE || in)
        VCHECKC(mv::same(x, r), "a value of the set of a domain is kept", mv::tname(x), how, mv::S(r));
      else
        VCHECKC(!r.valid(), "a value out of the set of a domain is refused", mv::tname(x), how, mname(b), mv::S(x), " -> ", mv::S(r));
    });
  }
  // sets on lists and vectors
  for (size_t k = 0; k < M.n(1000); k++)
  {
    int n = M.r.i(1, 4);
    std::vector<ossia::value> vals;
    for (int i = M.r.i(1, 4); i-- > 0;)
      vals.push_back(float(i));
    std::vector<ossia::value> lo(n, ossia::value{0.f}), hi(n, ossia::value{9.f});
    ossia::domain d = ossia::make_domain(ossia::value{lo}, ossia::value{hi});
    M.at("the values of a list domain", vp::str(n));
    // the sets exist for every element, then are replaced
    d = ossia::vector_domain{lo, hi, std::vector<ossia::flat_set<ossia::value>>(n)};
    ossia::set_values(d, vals);
    std::vector<ossia::value> x;
    for (int i = 0; i < n; i++)
      x.push_back(float(M.r.i(0, 5)));
    auto r = ossia::apply_domain(d, B::CLIP, ossia::value{x});
    auto p = r.target<std::vector<ossia::value>>();
    bool ok = p && int(p->size()) == n;
    for (int i = 0; ok && i < n; i++)
      ok = x[i].get<float>() < float(vals.size()) ? (*p)[i] == x[i] : !(*p)[i].valid();
    VCHECKC(ok, "the values set on a domain bound every element", "list", mv::S(ossia::value{x}), " set of ", vals.size(), " -> ", mv::S(r));
    ossia::domain d3 = ossia::make_domain(ossia::make_vec(0, 0, 0), ossia::make_vec(9, 9, 9));
    ossia::set_values(d3, vals);
    auto g = ossia::get_values(d3);
    VCHECKC(g.size() == 3 && g[0].target<std::vector<ossia::value>>() && g[0].get<std::vector<ossia::value>>().size() == vals.size() && g[2].get<std::vector<ossia::value>>().size() == vals.size(), "the set of values of a domain is read back", "vec", g.size());
    ossia::vec3f in{0.f, 0.f, 0.f};
    VCHECK(ossia::apply_domain(d3, B::CLIP, ossia::value{in}) == ossia::value{in}, "the values set on a domain bound every element", "vec");
  }
}
VP_SECTION(make)
{
  for (size_t k = 0; k < M.n(8000); k++)
  {
    mv::opts o;
    o.none_ = false;
    o.depth = 1;
    val a = mv::gen(M.r, o), b = mv::gen(M.r, o);
    if (M.r.b(3, 4))
      for (int tries = 0; tries < 200 && b.v.index() != a.v.index(); tries++)
        b = mv::gen(M.r, o);
    int which = M.r.i(0, 2);
    val lo = which == 2 ? val{mv::none{}} : a, hi = which == 1 ? val{mv::none{}} : b;
    M.at("a domain made from its bounds", vp::str(mv::S(lo), " ", mv::S(hi)));
    M.seen(vp::mix(vp::hash_str(mv::S(lo)), vp::hash_str(mv::S(hi))));
    auto d = ossia::make_domain(mv::mk(lo), mv::mk(hi));
    auto t = which == 2 ? hi : lo;
    bool numeric = t.v.index() == 2 || t.v.index() == 3 || t.v.index() == 5 || (t.v.index() >= 7 && t.v.index() <= 9);
    bool same = which != 0 || a.v.index() == b.v.index();
    if (same && numeric)
    {
      VCHECKC(d && mv::same(lo, d.get_min()) && mv::same(hi, d.get_max()), "a domain made from its bounds has them", mv::tname(t), mv::S(lo), mv::S(hi), " -> ", mv::S(d.get_min()), mv::S(d.get_max()));
      // copy, move, equality
      ossia::domain c{d}, e;
      e = c;
      VCHECK(c == d && e == d && !(c != d), "copies of a domain are equal to it", mv::tname(t));
      ossia::domain m{std::move(c)};
      VCHECK(m == d, "copies of a domain are equal to it", "move");
      e = std::move(m);
      VCHECK(e == d, "copies of a domain are equal to it", "move assign");
      // changing the copy leaves the original
      auto before = d.get_min();
      e.set_min(ossia::value{});
      VCHECK(!e.get_min().valid() && d.get_min() == before && mv::same(hi, e.get_max()), "removing the minimum of a domain removes only it", mv::tname(t));
      if (lo.v.index())
        VCHECK(e != d, "domains with different bounds differ", mv::tname(t));
      e.set_min(mv::mk(t));
      VCHECKC(mv::same(t, e.get_min()), "a minimum set on a domain is read back", mv::tname(t), mv::S(t), mv::S(e.get_min()));
      e.set_max(ossia::value{});
      VCHECK(!e.get_max().valid() && mv::same(t, e.get_min()), "removing the maximum of a domain removes only it", mv::tname(t));
      e.set_max(mv::mk(t));
      VCHECKC(mv::same(t, e.get_max()), "a maximum set on a domain is read back", mv::tname(t), mv::S(e.get_max()));
      // from nothing
      ossia::domain z;
      VCHECK(!z && !z.get_min().valid() && !z.get_max().valid(), "an empty domain has no bounds", "");
      ossia::set_min(z, mv::mk(t));
      VCHECKC(z && mv::same(t, z.get_min()) && !z.get_max().valid(), "a minimum set on a domain is read back", vp::str("empty,", mv::tname(t)), mv::S(z.get_min()));
      ossia::domain y;
      ossia::set_max(y, mv::mk(t));
      VCHECKC(y && mv::same(t, y.get_max()) && !y.get_min().valid(), "a maximum set on a domain is read back", vp::str("empty,", mv::tname(t)), mv::S(y.get_max()));
    }
    if (t.v.index() == 10 && same && which == 0)
      VCHECKC(mv::same(lo, d.get_min()) && mv::same(hi, d.get_max()), "a domain made from its bounds has them", "list", mv::S(d.get_min()));
    if (t.v.index() == 10 && same && which != 0)
    {
      // the other side bounds nothing
      auto x = mv::gen(M.r, o);
      auto r = ossia::apply_domain(d, which == 1 ? B::HIGH : B::LOW, mv::mk(x));
      if (x.v.index() == 10)
        VCHECKC(mv::same(x, r), "a list domain with one side does not bound the other", vp::str(which), mv::S(x), " ", mv::S(r));
    }
    // any domain applies to any value without crashing; an unset value stays unset
    auto x = mv::gen(M.r, o);
    for (B bm : modes)
    {
      const auto xv = mv::mk(x);
      auto by_copy = ossia::apply_domain(d, bm, xv), by_move = ossia::apply_domain(d, bm, mv::mk(x));
      VCHECK(mv::same(mv::from(by_copy), by_move), "bounding a copy or a temporary gives the same", mname(bm), mv::S(x), " gives ", mv::S(by_copy), " and ", mv::S(by_move));
      VCHECK(!ossia::apply_domain(d, bm, ossia::value{}).valid(), "an unset value stays unset", mname(bm));
      VCHECK(mv::same(x, ossia::apply_domain(ossia::domain{}, bm, mv::mk(x))), "without domain a value is unchanged", mname(bm), mv::S(x));
    }
    VCHECK(mv::same(x, ossia::apply_domain(d, B::FREE, mv::mk(x))), "a value is unchanged in FREE mode", mv::S(x));
    const auto free_v = mv::mk(x);
    VCHECK(mv::same(x, ossia::apply_domain(d, B::FREE, free_v)), "a value is unchanged in FREE mode", mv::S(x));
    (void)d.to_pretty_string();
    // set any bound on any domain
    ossia::domain c{d};
    c.set_min(mv::mk(x));
    c.set_max(mv::mk(x));
    ossia::set_values(c, {mv::mk(x), mv::mk(a)});
    (void)ossia::get_values(c);
    (void)c.to_pretty_string();
    (void)ossia::get_float_minmax(c);
    for (int ty = 0; ty < 10; ty++)
      if (c)
      {
        auto q = ossia::convert_domain(c, ossia::val_type(ty));
        (void)q.to_pretty_string();
        auto w = c;
        ossia::convert_compatible_domain(w, ossia::val_type(ty));
      }
  }
}
VP_SECTION(convert)
{
  for (size_t k = 0; k < M.n(6000); k++)
  {
    auto bd = gen_bounds<int>(0, 100);
    int from = M.r.i(0, 2), to = M.r.i(0, 2);
    static const ossia::val_type T[] = {ossia::val_type::INT, ossia::val_type::FLOAT, ossia::val_type::CHAR};
    ossia::domain d = from == 0 ? mkdom<int>(bd) : from == 1 ? mkdom<float>(bd) : mkdom<char>(bd);
    std::vector<ossia::value> vals;
    for (int i = M.r.i(0, 3); i-- > 0;)
      vals.push_back(ossia::convert(ossia::value{M.r.i(0, 100)}, T[from]));
    ossia::set_values(d, vals);
    M.at("a domain converted to another type", vp::str(from, " to ", to, " ", ds(bd.lo), " ", ds(bd.hi)));
    M.seen(vp::mix(from * 3 + to, vp::mix(bd.lo ? *bd.lo + 1 : 0, bd.hi ? *bd.hi + 1 : 0)));
    auto r = ossia::convert_domain(d, T[to]);
    auto chk = [&](const OD& x, const ossia::value& v) { return x ? (v.get_type() == T[to] && ossia::convert<float>(v) == float(*x)) : !v.valid(); };
    VCHECKC(r && chk(bd.lo, r.get_min()) && chk(bd.hi, r.get_max()), "a numeric domain converted keeps its bounds", vp::str(from, ",", to), mv::S(r.get_min()), mv::S(r.get_max()));
    auto rv = ossia::get_values(r);
    bool ok = rv.size() == vals.size();
    for (size_t i = 0; ok && i < vals.size(); i++)
      ok = rv[i].get_type() == T[to] && ossia::convert<float>(rv[i]) == ossia::convert<float>(vals[i]);
    VCHECKC(ok, "a numeric domain converted keeps its values", vp::str(from, ",", to), rv.size());
    auto w = d;
    ossia::convert_compatible_domain(w, T[from]);
    VCHECK(w == d, "a domain converted to its own type is itself", from);
  }
  for (size_t k = 0; k < M.n(2000); k++)
  {
    // list domain to vector
    std::vector<ossia::value> lo, hi;
    int n = M.r.i(0, 5);
    for (int i = 0; i < n; i++)
    {
      lo.push_back(float(M.r.i(-9, 0)));
      hi.push_back(M.r.i(1, 9));
    }
    ossia::vector_domain vd{lo, hi};
    M.at("a list domain converted to a vector domain", vp::str(n));
    auto r = ossia::convert_domain(vd, ossia::val_type::VEC3F);
    if (n >= 3)
    {
      ossia::vec3f l, h;
      for (int i = 0; i < 3; i++)
      {
        l[i] = lo[i].get<float>();
        h[i] = float(hi[i].get<int>());
      }
      VCHECK(r.get_min() == ossia::value{l} && r.get_max() == ossia::value{h}, "a list domain converted to a vector domain keeps its bounds", mv::S(r.get_min()));
    }
    else
      VCHECK(!r.get_min().valid(), "a list domain converted to a vector domain keeps its bounds", n);
    VCHECK(ossia::convert_domain(vd, ossia::val_type::LIST) == ossia::domain{vd}, "a domain converted to its own type is itself", "list");
    // from lists of minima and maxima
    static const ossia::val_type T[] = {ossia::val_type::FLOAT, ossia::val_type::INT, ossia::val_type::CHAR};
    auto ty = M.r.pick(T);
    auto q = ossia::make_domain_from_minmax(lo, hi, ty);
    if (n == 0)
      VCHECK(!q, "a domain made from lists of bounds", "empty");
    else if (n == 1)
      VCHECKC(q.get_min().get_type() == ty && ossia::convert<float>(q.get_min()) == lo[0].get<float>() && ossia::convert<int>(q.get_max()) == hi[0].get<int>(), "a domain made from lists of bounds", "1", mv::S(q.get_min()));
    else
    {
      auto mn = ossia::convert<std::vector<ossia::value>>(q.get_min());
      auto mx = ossia::convert<std::vector<ossia::value>>(q.get_max());
      bool ok = int(mn.size()) == n && int(mx.size()) == n;
      for (int i = 0; ok && i < n; i++)
        ok = ossia::convert<float>(mn[i]) == lo[i].get<float>() && ossia::convert<int>(mx[i]) == hi[i].get<int>();
      VCHECKC(ok, "a domain made from lists of bounds", vp::str(n), mv::S(q.get_min()), mv::S(q.get_max()));
    }
    // as received from the network: two values are bounds, anything else a set
    int v0 = M.r.i(-9, 0), v1 = M.r.i(1, 9);
    ossia::small_vector<ossia::value, 2> sv;
    sv.push_back(v0);
    sv.push_back(v1);
    auto od = ossia::make_domain_from_osc(sv, 0);
    VCHECK(od.get_min() == ossia::value{v0} && od.get_max() == ossia::value{v1}, "a domain received as two values is a range", mv::S(od.get_min()));
    sv.push_back(12);
    od = ossia::make_domain_from_osc(sv, 0);
    VCHECK(ossia::get_values(od) == (std::vector<ossia::value>{v0, v1, 12}), "a domain received as several values is a set", ossia::get_values(od).size());
  }
}
VP_SECTION(math)
{
  for (size_t k = 0; k < M.n(20000); k++)
  {
    int n = M.r.i(1, 9);
    int64_t x = M.r.i(-9, 9), e = 1;
    for (int i = 0; i < n; i++)
      e *= x;
    M.at("math helpers", vp::str(x, " ", n));
    M.seen(vp::mix(x + 10, n));
    VCHECKC(ossia::ipow(x, n) == e, "an integer power", "ipow", x, "^", n, " ", ossia::ipow(x, n));
    double f = M.r.d(-2, 2);
    VCHECKC(std::abs(ossia::ipow(f, n) - std::pow(f, n)) < 1e-9, "an integer power", "ipow double", f, "^", n);
    double a = M.r.d(-10, 10), b = M.r.d(-10, 10), c = M.r.d(-10, 10);
    VCHECKC(std::abs(ossia::norm(a, b) - std::hypot(a, b)) < 1e-9, "the norm of a vector", "2", a, " ", b);
    VCHECKC(std::abs(ossia::norm(a, b, c) - std::hypot(a, b, c)) < 1e-9, "the norm of a vector", "3", a, " ", b, " ", c);
    uint64_t u = uint64_t(M.r.mag(40));
    size_t lg = 0;
    while ((u >> (lg + 1)) > 0)
      lg++;
    VCHECKC(ossia::constexpr_log2(u) == lg, "the integer part of a base-2 logarithm", "log2", u);
    double z = M.r.b() ? double(M.r.i(-20, 20)) : M.r.d(-1e6, 1e6);
    VCHECKC(ossia::constexpr_floor(z) == int64_t(std::floor(z)), "the floor of a number", "floor", z, " ", ossia::constexpr_floor(z));
    int64_t w = M.r.i(-1000, 1000);
    VCHECKC(ossia::constexpr_abs(w) == size_t(std::llabs(w)), "the absolute value of a number", "abs", w);
    int p = M.r.i(-1000, 1000), q = M.r.i(1, 50);
    auto dv = ossia::div(p, q);
    VCHECKC(dv.first * q + dv.second == p && std::abs(dv.second) < q, "quotient and remainder", "div", p, " ", q);
    float mn = float(M.r.d(-100, 100)), rg = float(std::pow(10., M.r.d(-1, 4))), t = float(M.r.d(0, 1));
    float v = ossia::normalized_to_log(mn, rg, t);
    float back = ossia::log_to_normalized(mn, rg, v);
    float tol = 1e-3f + 1e-5f * (std::abs(mn) + rg) / std::log1p(rg);
    VCHECKC(v >= mn - 1e-3f - std::abs(mn) * 1e-5f && v <= mn + rg + 1e-3f * rg && std::abs(back - t) < tol * 4, "logarithmic scaling and back", "log", mn, " ", rg, " ", t, " -> ", v, " ", back);
    VCHECKC(std::abs(double(v) - (std::expm1(double(t) * std::log1p(double(rg))) + mn)) < 1e-4 * (rg + std::abs(mn) + 1), "logarithmic scaling and back", "value", mn, " ", rg, " ", t, " -> ", v);
    VCHECKC(ossia::log_to_normalized(mn, rg, mn - 1) == 0.f && std::abs(ossia::log_to_normalized(mn, rg, mn + rg) - 1.f) < tol * 4, "logarithmic scaling and back", "ends", mn, " ", rg);
  }
}
VP_MAIN
