// C03: the value type - identity through copies, comparison, conversion,
// indexing, merging, hashing.  Oracle: harness/values.hpp, a separate model.
#include "values.hpp"
#include <ossia/network/value/value.hpp>
#include <ossia/network/value/value_algorithms.hpp>
#include <ossia/network/value/value_conversion.hpp>
#include <ossia/network/value/value_hash.hpp>
#include <ossia/network/value/value_traits.hpp>
#include <ossia/network/value/vec.hpp>
#include <optional>
using vp::M;
using mv::val;

static std::string pr(const val& a, const val& b) { return vp::str(mv::tname(a), "-", mv::tname(b)); }

VP_SECTION(identity)
{
  const size_t N = M.n(40000);
  mv::opts o;
  o.special_floats = true;
  o.none_in_list = true;
  for (size_t k = 0; k < N; k++)
  {
    val a = mv::gen(M.r, o), b = mv::gen(M.r, o);
    M.at("identity", pr(a, b));
    auto D = [&] { return mv::S(a) + " ; " + mv::S(b); };
    ossia::value x = mv::mk(a);
    VCHECKC(mv::same(a, x), "identity.construct", mv::tname(a), D());
    VCHECKC(x.valid() == (a.v.index() != 0), "identity.valid", mv::tname(a), D());
    ossia::value y = x;
    VCHECKC(mv::same(a, y) && mv::same(a, x), "identity.copy", mv::tname(a), D());
    ossia::value z = mv::mk(b);
    z = x;
    VCHECKC(mv::same(a, z) && mv::same(a, x), "identity.copy_assign", pr(a, b), D());
    ossia::value w = mv::mk(b);
    w = std::move(z);
    VCHECKC(mv::same(a, w), "identity.move_assign", pr(a, b), D());
    ossia::value u{std::move(w)};
    VCHECKC(mv::same(a, u), "identity.move", mv::tname(a), D());
    auto& self = u;
    u = self;
    VCHECKC(mv::same(a, u), "identity.self_assign", mv::tname(a), D());
    // independence of the copies
    y = mv::mk(b);
    VCHECKC(mv::same(a, x) && mv::same(b, y), "identity.independent", pr(a, b), D());
    std::swap(x, y);
    VCHECKC(mv::same(b, x) && mv::same(a, y), "identity.swap", pr(a, b), D());
    if (auto l = y.target<std::vector<ossia::value>>())
    {
      ossia::value c = y;
      l->push_back(1);
      VCHECK(mv::same(a, c), "identity.deep_copy", D());
      l->pop_back();
    }
    // typed assignment
    ossia::value t = mv::mk(b);
    std::visit(
        [&](const auto& e) {
          using T = std::decay_t<decltype(e)>;
          if constexpr (std::is_same_v<T, mv::imp>)
            t = ossia::impulse{};
          else if constexpr (std::is_same_v<T, mv::none>)
            t.reset();
          else if constexpr (std::is_same_v<T, mv::list>)
            t = mv::mk(a).get<std::vector<ossia::value>>();
          else
            t = e;
        },
        a.v);
    VCHECKC(mv::same(a, t), "identity.typed_assign", pr(a, b), D());
    // access
    using namespace ossia;
    int hits = bool(t.target<int>()) + bool(t.target<float>()) + bool(t.target<bool>()) + bool(t.target<char>())
               + bool(t.target<impulse>()) + bool(t.target<std::string>()) + bool(t.target<vec2f>())
               + bool(t.target<vec3f>()) + bool(t.target<vec4f>()) + bool(t.target<std::vector<ossia::value>>());
    VCHECKC(hits == (a.v.index() != 0), "identity.target", mv::tname(a), D());
    if (a.v.index() != 2)
      VCHECKC(vp::throws([&] { t.get<int>(); }), "identity.get_wrong_type_throws", mv::tname(a), D());
    if (a.v.index() != 6)
      VCHECKC(vp::throws([&] { t.get<std::string>(); }), "identity.get_wrong_type_throws", mv::tname(a), D());
    // visitation reaches the active alternative
    if (a.v.index() != 0)
    {
      struct
      {
        val r;
        void operator()(int i) { r = {i}; }
        void operator()(float i) { r = {i}; }
        void operator()(bool i) { r = {i}; }
        void operator()(char i) { r = {i}; }
        void operator()(ossia::impulse) { r = {mv::imp{}}; }
        void operator()(const std::string& i) { r = {i}; }
        void operator()(const ossia::vec2f& i) { r = {i}; }
        void operator()(const ossia::vec3f& i) { r = {i}; }
        void operator()(const ossia::vec4f& i) { r = {i}; }
        void operator()(const std::vector<ossia::value>& i) { r = mv::from(ossia::value{i}); }
        void operator()() { r = {mv::none{}}; }
      } vis;
      t.apply(vis);
      VCHECKC(mv::same(vis.r, t), "identity.visit", mv::tname(a), D());
      const auto& ct = t;
      vis.r = {mv::none{}};
      ct.apply(vis);
      VCHECKC(mv::same(vis.r, t), "identity.visit_const", mv::tname(a), D());
      vis.r = {mv::none{}};
      ossia::apply_nonnull(vis, ct.v);
      VCHECKC(mv::same(vis.r, t), "identity.visit_nonnull", mv::tname(a), D());
    }
    t.reset();
    VCHECKC(!t.valid() && t.get_type() == val_type::NONE, "identity.reset", mv::tname(a), D());
    M.seen(mv::S(a) + "|" + mv::S(b));
  }
  using T = ossia::val_type;
  for (T t : {T::IMPULSE, T::INT, T::FLOAT, T::BOOL, T::CHAR, T::STRING, T::LIST, T::VEC2F, T::VEC3F, T::VEC4F})
  {
    auto v = ossia::init_value(t);
    VCHECK(v.get_type() == t, "identity.init_value", int(t));
    val m = mv::from(v);
    bool zero = std::visit(
        [](const auto& e) {
          using X = std::decay_t<decltype(e)>;
          if constexpr (std::is_arithmetic_v<X>)
            return e == X{};
          else if constexpr (std::is_same_v<X, std::string> || std::is_same_v<X, mv::list>)
            return e.empty();
          else if constexpr (std::is_same_v<X, mv::v2> || std::is_same_v<X, mv::v3> || std::is_same_v<X, mv::v4>)
            return e == X{};
          else
            return true;
        },
        m.v);
    VCHECK(zero, "identity.init_value_zero", int(t));
    bool num = t == T::INT || t == T::FLOAT || t == T::BOOL || t == T::CHAR;
    bool arr = t == T::LIST || t == T::VEC2F || t == T::VEC3F || t == T::VEC4F;
    VCHECK(ossia::is_numeric(v) == num, "traits.is_numeric", int(t));
    VCHECK(ossia::is_array(v) == arr, "traits.is_array", int(t));
  }
  VCHECK(!ossia::is_numeric({}) && !ossia::is_array({}), "traits.unset");
  VCHECK(vp::throws([] { ossia::init_value(T::NONE); }), "identity.init_value_none_throws");
#define TR(TYPE, ENUM, NUM, ARR)                                                                             \
  VCHECK((ossia::value_trait<TYPE>::ossia_enum == T::ENUM && ossia::value_trait<TYPE>::is_numeric == NUM     \
          && ossia::value_trait<TYPE>::is_array == ARR                                                       \
          && std::is_same_v<typename ossia::value_trait<TYPE>::ossia_type, TYPE>),                           \
         "traits.static", #TYPE)
  TR(int, INT, true, false);
  TR(float, FLOAT, true, false);
  TR(bool, BOOL, true, false);
  TR(char, CHAR, true, false);
  TR(std::string, STRING, false, false);
  TR(ossia::impulse, IMPULSE, false, false);
  TR(ossia::vec2f, VEC2F, false, true);
  TR(ossia::vec3f, VEC3F, false, true);
  TR(ossia::vec4f, VEC4F, false, true);
  TR(std::vector<ossia::value>, LIST, false, true);
  for (int k = 0; k < 500; k++)
  {
    float a = mv::gen_float(M.r, false), b = mv::gen_float(M.r, false), c = mv::gen_float(M.r, false), d = mv::gen_float(M.r, false);
    VCHECK((ossia::make_vec(a, double(b)) == ossia::vec2f{a, b}), "vec.make2", a, b);
    VCHECK((ossia::make_vec(a, double(b), c) == ossia::vec3f{a, b, c}), "vec.make3", a, b, c);
    VCHECK((ossia::make_vec(a, double(b), c, d) == ossia::vec4f{a, b, c, d}), "vec.make4", a, b, c, d);
    VCHECK((ossia::fill_vec<3>(a) == ossia::vec3f{a, a, a} && ossia::fill_vec<2>(b) == ossia::vec2f{b, b}), "vec.fill", a);
  }
}

// ---- comparison
enum op { EQ, LT, GT, LE, GE };
template <typename A, typename B>
static bool ap(op o, const A& a, const B& b)
{
  switch (o)
  {
    case EQ: return a == b;
    case LT: return a < b;
    case GT: return a > b;
    case LE: return a <= b;
    default: return a >= b;
  }
}
template <typename T>
constexpr bool isnum = std::is_arithmetic_v<T>;
template <typename T>
constexpr bool isvec = std::is_same_v<T, mv::v2> || std::is_same_v<T, mv::v3> || std::is_same_v<T, mv::v4>;
// nullopt: left open
static std::optional<bool> model(op o, const val& a, const val& b)
{
  return std::visit(
      [&](const auto& x, const auto& y) -> std::optional<bool> {
        using X = std::decay_t<decltype(x)>;
        using Y = std::decay_t<decltype(y)>;
        constexpr bool xn = std::is_same_v<X, mv::none>, yn = std::is_same_v<Y, mv::none>;
        constexpr bool xi = std::is_same_v<X, mv::imp>, yi = std::is_same_v<Y, mv::imp>;
        constexpr bool xs = std::is_same_v<X, std::string>, ys = std::is_same_v<Y, std::string>;
        constexpr bool xl = std::is_same_v<X, mv::list>, yl = std::is_same_v<Y, mv::list>;
        if constexpr (xn || yn)
          return xn && yn && (o == EQ || o == LE || o == GE);
        else if constexpr ((xi && isvec<Y>) || (yi && isvec<X>))
          return std::nullopt;
        else if constexpr (xi || yi)
          return o == EQ || o == LE || o == GE;
        else if constexpr (isnum<X> && isnum<Y>)
          return ap(o, x, y);
        else if constexpr (xs && ys)
          return ap(o, x, y);
        else if constexpr (xl && yl)
        {
          if (x.size() != y.size())
            return false;
          if (x.empty() && (o == LT || o == GT))
            return std::nullopt;
          bool unk = false;
          for (size_t i = 0; i < x.size(); i++)
          {
            auto r = model(o, x[i], y[i]);
            if (!r)
              unk = true;
            else if (!*r)
              return false;
          }
          if (unk)
            return std::nullopt;
          return true;
        }
        else if constexpr (xl && isvec<Y>)
          return false;
        else if constexpr (yl && isvec<X>)
          return false;
        else if constexpr (xl)
        {
          if (x.size() != 1)
            return false;
          return model(o, x[0], b);
        }
        else if constexpr (yl)
        {
          if (y.size() != 1)
            return false;
          return model(o, a, y[0]);
        }
        else if constexpr (std::is_same_v<X, Y> && isvec<X>)
        {
          for (size_t i = 0; i < x.size(); i++)
            if (!ap(o, x[i], y[i]))
              return false;
          return true;
        }
        else
          return false;
      },
      a.v, b.v);
}

VP_SECTION(compare)
{
  const size_t N = M.n(60000);
  mv::opts o;
  for (size_t k = 0; k < N; k++)
  {
    val a = mv::gen(M.r, o), b = M.r.b(1, 4) ? a : mv::gen(M.r, o);
    if (M.r.b(1, 6)) // small numbers collide across types
    {
      auto sm = [&]() -> val {
        switch (M.r.i(0, 5))
        {
          case 0: return {int(M.r.i(-2, 2))};
          case 1: return {float(M.r.i(-4, 4)) / 2};
          case 2: return {M.r.b()};
          case 3: return {char(M.r.i(0, 2))};
          case 4: return {std::string(1, char('a' + M.r.i(0, 2)))};
          default: return {mv::list{{int(M.r.i(-2, 2))}}};
        }
      };
      a = sm();
      b = sm();
    }
    auto p = pr(a, b);
    M.at("compare", p);
    auto D = [&] { return mv::S(a) + " ; " + mv::S(b); };
    ossia::value x = mv::mk(a), y = mv::mk(b);
    bool r[5] = {x == y, x < y, x > y, x <= y, x >= y};
    static const char* nm[5] = {"compare.==", "compare.<", "compare.>", "compare.<=", "compare.>="};
    for (int i = 0; i < 5; i++)
      if (auto m = model(op(i), a, b))
        VCHECKC(r[i] == *m, nm[i], p, D(), " -> ", r[i]);
    VCHECKC((x != y) == !r[0], "compare.!=", p, D());
    VCHECKC((y == x) == r[0], "compare.symmetric", p, D());
    VCHECKC((y > x) == r[1] && (y < x) == r[2] && (y >= x) == r[3] && (y <= x) == r[4], "compare.mirrored", p, D());
    ossia::value c = x;
    VCHECKC(c == x, "compare.copy_equal", mv::tname(a), D());
    M.seen(p);
    M.seen(vp::mix(vp::hash_str(mv::S(a)), vp::hash_str(mv::S(b))));
    M.sample(D() + vp::str(" == ", r[0], " < ", r[1]));
  }
}

// ---- conversion
template <typename T>
static T num(const val& a)
{
  return std::visit(
      [](const auto& x) -> T {
        using X = std::decay_t<decltype(x)>;
        if constexpr (isnum<X>)
          return static_cast<T>(x);
        else if constexpr (isvec<X>)
          return static_cast<T>(x[0]);
        else if constexpr (std::is_same_v<X, mv::list>)
          return x.empty() ? T{} : num<T>(x[0]);
        else
          return T{};
      },
      a.v);
}
static bool has_string_first(const val& a)
{
  if (std::holds_alternative<std::string>(a.v))
    return true;
  if (auto l = std::get_if<mv::list>(&a.v))
    return !l->empty() && has_string_first((*l)[0]);
  return false;
}
static double first_num(const val& a) { return num<double>(a); }
template <size_t N>
static std::array<float, N> to_vec(const val& a, std::array<float, N> cur)
{
  return std::visit(
      [&](const auto& x) -> std::array<float, N> {
        using X = std::decay_t<decltype(x)>;
        std::array<float, N> r{};
        if constexpr (isnum<X>)
        {
          r.fill(float(x));
        }
        else if constexpr (isvec<X>)
        {
          r = cur;
          for (size_t i = 0; i < std::min(N, x.size()); i++)
            r[i] = x[i];
        }
        else if constexpr (std::is_same_v<X, mv::list>)
        {
          for (size_t i = 0; i < std::min(N, x.size()); i++)
            r[i] = num<float>(x[i]);
        }
        return r;
      },
      a.v);
}
static std::string join(const val& a);

VP_SECTION(convert)
{
  const size_t N = M.n(60000);
  mv::opts o;
  for (size_t k = 0; k < N; k++)
  {
    val a = mv::gen(M.r, o), b = mv::gen(M.r, o);
    M.at("convert", mv::tname(a));
    ossia::value x = mv::mk(a);
    auto D = [&] { return mv::S(a); };
    std::string c = mv::tname(a);
    using ossia::convert;
    double f = first_num(a);
    bool str = has_string_first(a);
    if (!str)
    {
      if (std::abs(f) < 2147483000.)
        VCHECKC(convert<int>(x) == num<int>(a), "convert.int", c, D(), " -> ", convert<int>(x));
      VCHECKC(convert<float>(x) == num<float>(a), "convert.float", c, D(), " -> ", convert<float>(x));
      VCHECKC(convert<double>(x) == num<double>(a), "convert.double", c, D(), " -> ", convert<double>(x));
      VCHECKC(convert<bool>(x) == num<bool>(a), "convert.bool", c, D(), " -> ", convert<bool>(x));
      if (std::abs(f) < 127)
        VCHECKC(convert<char>(x) == num<char>(a), "convert.char", c, D(), " -> ", int(convert<char>(x)));
      if (std::abs(f) < 2147483000.)
        VCHECKC(convert<int>(5, x) == num<int>(a), "convert.int_cur", c, D());
      VCHECKC(convert<float>(5.f, x) == num<float>(a), "convert.float_cur", c, D());
    }
    auto nostr_in = [&] {
      if (auto l = std::get_if<mv::list>(&a.v))
        for (auto& e : *l)
          if (has_string_first(e))
            return false;
      return true;
    };
    if (nostr_in())
    {
      VCHECKC(convert<ossia::vec2f>(x) == to_vec<2>(a, {}), "convert.vec2f", c, D(), " -> ", mv::S(ossia::value{convert<ossia::vec2f>(x)}));
      VCHECKC(convert<ossia::vec3f>(x) == to_vec<3>(a, {}), "convert.vec3f", c, D(), " -> ", mv::S(ossia::value{convert<ossia::vec3f>(x)}));
      VCHECKC(convert<ossia::vec4f>(x) == to_vec<4>(a, {}), "convert.vec4f", c, D(), " -> ", mv::S(ossia::value{convert<ossia::vec4f>(x)}));
      ossia::vec4f cur{1, 2, 3, 4};
      VCHECKC(convert<ossia::vec4f>(cur, x) == to_vec<4>(a, {1, 2, 3, 4}), "convert.vec4f_cur", c, D());
      ossia::vec3f cur3{1, 2, 3};
      VCHECKC(convert<ossia::vec3f>(cur3, x) == to_vec<3>(a, {1, 2, 3}), "convert.vec3f_cur", c, D());
      if (auto l = x.target<std::vector<ossia::value>>())
        VCHECK(convert<ossia::vec3f>(*l) == to_vec<3>(a, {}), "convert.list_to_vec", D());
    }
    // to list: lists unchanged, vectors spread, nothing is empty, anything else a singleton
    {
      auto l = mv::from(ossia::value{convert<std::vector<ossia::value>>(x)});
      mv::list ex = std::visit(
          [&](const auto& e) -> mv::list {
            using X = std::decay_t<decltype(e)>;
            if constexpr (std::is_same_v<X, mv::none>)
              return {};
            else if constexpr (std::is_same_v<X, mv::list>)
              return e;
            else if constexpr (isvec<X>)
            {
              mv::list r;
              for (auto q : e)
                r.push_back({q});
              return r;
            }
            else
              return {a};
          },
          a.v);
      VCHECKC(mv::same(val{ex}, mv::mk(l)), "convert.list", c, D(), " -> ", mv::S(l));
    }
    // strings
    {
      auto s = convert<std::string>(x);
      std::visit(
          [&](const auto& e) {
            using X = std::decay_t<decltype(e)>;
            if constexpr (std::is_same_v<X, std::string>)
              VCHECK(s == e, "convert.string_string", D());
            else if constexpr (std::is_same_v<X, mv::none>)
              VCHECK(s.empty(), "convert.none_string", s);
            else if constexpr (std::is_same_v<X, mv::imp>)
              VCHECK(s == "impulse", "convert.impulse_string", s);
            else if constexpr (std::is_same_v<X, bool>)
              VCHECK(s == (e ? "true" : "false"), "convert.bool_string", s);
            else if constexpr (std::is_same_v<X, char>)
            {
              VCHECK(s == std::string(1, e), "convert.char_string", s);
              VCHECK(convert<char>(ossia::value{s}) == e, "convert.char_string_roundtrip", D());
            }
            else if constexpr (std::is_same_v<X, int>)
            {
              VCHECK(s == std::to_string(e), "convert.int_string", s);
              VCHECK(convert<int>(ossia::value{s}) == e, "convert.int_string_roundtrip", D(), s);
              VCHECK(convert<int>(ossia::value{s + " x"}) == e, "convert.int_string_prefix", D(), s);
            }
            else if constexpr (std::is_same_v<X, float>)
            {
              char* end{};
              float back = strtof(s.c_str(), &end);
              VCHECK(*end == 0 && back == e, "convert.float_string", D(), s);
              float rt = convert<float>(ossia::value{s});
              VCHECK(std::abs(rt - e) <= std::abs(e) * 1e-5f, "convert.float_string_roundtrip", D(), s, rt);
              double rd = convert<double>(ossia::value{s});
              VCHECK(std::abs(rd - e) <= std::abs(e) * 1e-6, "convert.double_string_roundtrip", D(), s, rd);
            }
            else
              VCHECK(s.size() >= 2 && s.front() == '[' && s.back() == ']', "convert.array_string", D(), s);
          },
          a.v);
      if (auto l = std::get_if<mv::list>(&a.v))
      {
        std::string ex = "[";
        bool first = true, plain = true;
        for (auto& e : *l)
        {
          if (!first)
            ex += ", ";
          first = false;
          if (auto p = std::get_if<char>(&e.v); p && *p == 0)
            plain = false;
          ex += convert<std::string>(mv::mk(e));
        }
        if (plain)
          VCHECK(s == ex + "]", "convert.list_string", D(), s, ex);
      }
    }
    for (auto w : {"", "abc", "--", "x12"})
      VCHECK(convert<int>(ossia::value{w}) == 0 && convert<float>(ossia::value{w}) == 0.f, "convert.garbage_string_is_zero", w);
    // convert to a type
    using T = ossia::val_type;
    for (T t : {T::IMPULSE, T::INT, T::FLOAT, T::BOOL, T::CHAR, T::STRING, T::LIST, T::VEC2F, T::VEC3F, T::VEC4F})
    {
      if (t == T::INT && std::abs(f) > 2147483000.)
        continue;
      if (t == T::CHAR && std::abs(f) > 126)
        continue;
      auto r = convert(x, t);
      VCHECKC(r.get_type() == t, "convert.to_type", c, D(), " to ", int(t));
      auto r2 = convert(r, t);
      VCHECKC(mv::same(mv::from(r), r2), "convert.idempotent", c, D(), " to ", int(t));
      if (t == x.get_type())
        VCHECKC(mv::same(a, r), "convert.same_type_is_identity", c, D());
    }
    VCHECK(!convert(x, T::NONE).valid(), "convert.to_none", D());
    // convert to the type of a current value
    ossia::value y = mv::mk(b);
    if (!((y.get_type() == T::INT && std::abs(f) > 2147483000.) || (y.get_type() == T::CHAR && std::abs(f) > 126)))
    {
      auto r = convert(x, y);
      VCHECKC(r.get_type() == y.get_type(), "convert.to_current_type", pr(a, b), D(), mv::S(b));
      VCHECKC(mv::same(b, y), "convert.leaves_current", pr(a, b), D(), mv::S(b));
    }
    VCHECKC(mv::same(a, x), "convert.leaves_source", c, D());
    M.seen(mv::S(a));
    M.sample(mv::S(a) + " -> " + ossia::convert<std::string>(x));
  }
}

// ---- indexing
static val at_index(const val& a, const std::vector<int>& idx, size_t pos)
{
  if (pos == idx.size())
    return a;
  if (auto l = std::get_if<mv::list>(&a.v))
  {
    if ((size_t)idx[pos] >= l->size())
      return {mv::none{}};
    return at_index((*l)[idx[pos]], idx, pos + 1);
  }
  auto arr = [&](auto& e) -> val {
    if (pos + 1 == idx.size() && (size_t)idx[pos] < e.size())
      return {float(e[idx[pos]])};
    return {mv::none{}};
  };
  if (auto p = std::get_if<mv::v2>(&a.v))
    return arr(*p);
  if (auto p = std::get_if<mv::v3>(&a.v))
    return arr(*p);
  if (auto p = std::get_if<mv::v4>(&a.v))
    return arr(*p);
  return {mv::none{}};
}

VP_SECTION(index)
{
  const size_t N = M.n(60000);
  mv::opts o;
  o.depth = 4;
  o.none_in_list = true;
  for (size_t k = 0; k < N; k++)
  {
    val a = mv::gen(M.r, o);
    if (M.r.b(2, 3))
    {
      mv::list l;
      for (int i = M.r.i(0, 4); i-- > 0;)
        l.push_back(mv::gen(M.r, o, 1));
      a = {l};
    }
    std::vector<int> idx;
    for (int i = M.r.i(0, 4); i-- > 0;)
      idx.push_back(M.r.i(0, 4));
    M.at("index", mv::S(a));
    ossia::value x = mv::mk(a);
    ossia::destination_index di;
    for (int i : idx)
      di.push_back(i);
    auto r = ossia::get_value_at_index(x, di);
    val ex = at_index(a, idx, 0);
    VCHECK(mv::same(ex, r), "index.get", mv::S(a), " at ", ossia::to_pretty_string(di), " -> ", mv::S(r), " expected ", mv::S(ex));
    std::string t;
    for (size_t i = 0; i < idx.size(); i++)
      t += (i ? ", " : "[") + std::to_string(idx[i]);
    if (!idx.empty())
      t += "]";
    VCHECK(ossia::to_pretty_string(di) == t, "index.text", t);
    M.seen(mv::S(a) + t);
    // insertion into a list of lists
    if (auto l = x.target<std::vector<ossia::value>>(); l && !idx.empty())
    {
      auto before = *l;
      val nv = mv::gen(M.r, o, 3);
      if (nv.v.index() == 0)
        continue;
      ossia::value old = ossia::get_value_at_index(x, di);
      // is the whole path through lists?
      bool lists = true;
      for (size_t d = 1; d < idx.size(); d++)
      {
        std::vector<int> pre(idx.begin(), idx.begin() + d);
        val pv = at_index(a, pre, 0);
        if (!std::holds_alternative<mv::list>(pv.v) && !std::holds_alternative<mv::none>(pv.v))
          lists = false;
      }
      ossia::value_merger<>::insert_in_list(*l, mv::mk(nv), di);
      if (lists && !old.valid())
      {
        auto got = ossia::get_value_at_index(x, di);
        VCHECK(mv::same(nv, got), "insert.readable", mv::S(a), " at ", t, " := ", mv::S(nv), " -> ", mv::S(x));
      }
      // every other top-level slot is untouched, and nothing is removed
      VCHECK(l->size() == std::max(before.size(), size_t(idx[0]) + 1), "insert.size", mv::S(a), t, mv::S(x));
      for (size_t i = 0; i < before.size(); i++)
        if ((int)i != idx[0])
          VCHECK(mv::same(mv::from(before[i]), (*l)[i]), "insert.others_untouched", mv::S(a), " at ", t, " -> ", mv::S(x));
      if (!lists)
      {
        // the displaced scalar is kept as first element of the new sub-list
        val pv = at_index(a, {idx[0]}, 0);
        bool scalar0 = idx.size() == 2 && !std::holds_alternative<mv::list>(pv.v) && pv.v.index() != 0;
        if (scalar0 && idx[1] > 0)
        {
          auto kept = ossia::get_value_at_index(x, ossia::destination_index{idx[0], 0});
          auto got = ossia::get_value_at_index(x, di);
          VCHECK(mv::same(pv, kept) && mv::same(nv, got), "insert.scalar_becomes_list", mv::S(a), " at ", t, " -> ", mv::S(x));
        }
      }
    }
  }
}

// ---- merging
static void mset(float& f, const val& s)
{
  std::visit(
      [&](const auto& e) {
        using X = std::decay_t<decltype(e)>;
        if constexpr (isnum<X>)
          f = float(e);
      },
      s.v);
}
static void mmerge(val& d, const val& s);
template <size_t N>
static void vec_from(std::array<float, N>& d, const val& s)
{
  std::visit(
      [&](const auto& e) {
        using X = std::decay_t<decltype(e)>;
        if constexpr (isvec<X>)
        {
          for (size_t i = 0; i < std::min(N, e.size()); i++)
            d[i] = e[i];
        }
        else if constexpr (std::is_same_v<X, mv::list>)
        {
          for (size_t i = 0; i < std::min(N, e.size()); i++)
            mset(d[i], e[i]);
        }
        else
          mset(d[0], s);
      },
      s.v);
}
static void mmerge(val& d, const val& s)
{
  if (d.v.index() == 0)
  {
    d = s;
    return;
  }
  if (s.v.index() == 0)
    return; // only reached with a non-list destination
  if (auto p = std::get_if<mv::v2>(&d.v))
    return vec_from(*p, s);
  if (auto p = std::get_if<mv::v3>(&d.v))
    return vec_from(*p, s);
  if (auto p = std::get_if<mv::v4>(&d.v))
    return vec_from(*p, s);
  if (auto l = std::get_if<mv::list>(&d.v))
  {
    auto put = [&](const mv::list& src, bool overwrite) {
      if (l->size() < src.size())
        l->resize(src.size(), val{mv::none{}});
      for (size_t i = 0; i < src.size(); i++)
        if (overwrite)
          (*l)[i] = src[i];
        else
          mmerge((*l)[i], src[i]);
    };
    std::visit(
        [&](const auto& e) {
          using X = std::decay_t<decltype(e)>;
          if constexpr (isvec<X>)
          {
            mv::list q;
            for (auto f : e)
              q.push_back({float(f)});
            put(q, true);
          }
          else if constexpr (std::is_same_v<X, mv::list>)
            put(e, false);
          else if (l->empty())
            l->push_back(s);
          else
            mmerge((*l)[0], s);
        },
        s.v);
    return;
  }
  // scalar destination: replaced, except by arrays
  bool arr = s.v.index() >= 7;
  if (!arr)
    d = s;
}
static bool none_inside(const val& v)
{
  if (auto l = std::get_if<mv::list>(&v.v))
    for (auto& e : *l)
      if (e.v.index() == 0 || none_inside(e))
        return true;
  return false;
}

VP_SECTION(merge)
{
  const size_t N = M.n(60000);
  mv::opts o;
  o.depth = 3;
  o.none_in_list = true;
  for (size_t k = 0; k < N; k++)
  {
    val a = mv::gen(M.r, o), b = mv::gen(M.r, o);
    if (M.r.b())
    {
      auto ml = [&] {
        mv::list l;
        for (int i = M.r.i(0, 4); i-- > 0;)
          l.push_back(mv::gen(M.r, o, 1));
        return val{l};
      };
      a = ml();
      if (M.r.b())
        b = ml();
    }
    if (b.v.index() == 0 || none_inside(b))
      continue;
    M.at("merge", pr(a, b));
    ossia::value x = mv::mk(a), y = mv::mk(b);
    ossia::value_merger<>::merge_value(x, y);
    val ex = a;
    mmerge(ex, b);
    VCHECKC(mv::same(ex, x), "merge", pr(a, b), mv::S(a), " <- ", mv::S(b), " = ", mv::S(x), " expected ", mv::S(ex));
    VCHECKC(mv::same(b, y), "merge.source_untouched", pr(a, b), mv::S(a), " <- ", mv::S(b));
    // rvalue source gives the same
    ossia::value x2 = mv::mk(a);
    ossia::value_merger<>::merge_value(x2, mv::mk(b));
    VCHECKC(mv::same(ex, x2), "merge.rvalue", pr(a, b), mv::S(a), " <- ", mv::S(b), " = ", mv::S(x2));
    // destination precedence keeps existing scalars
    if (a.v.index() >= 1 && a.v.index() < 7 && b.v.index() < 7)
    {
      ossia::value x3 = mv::mk(a);
      ossia::value_merger<false>::merge_value(x3, y);
      VCHECKC(mv::same(a, x3), "merge.dest_precedence", pr(a, b), mv::S(a), " <- ", mv::S(b), " = ", mv::S(x3));
    }
    // two lists
    if (a.v.index() == 10 && b.v.index() == 10)
    {
      auto l = mv::mk(a).get<std::vector<ossia::value>>();
      auto r = mv::mk(b).get<std::vector<ossia::value>>();
      ossia::value_merger<>::merge_list(l, std::as_const(r));
      VCHECK(mv::same(ex, ossia::value{l}), "merge.list", mv::S(a), " <- ", mv::S(b), " = ", mv::S(ossia::value{l}));
      auto l2 = mv::mk(a).get<std::vector<ossia::value>>();
      ossia::value_merger<>::merge_list(l2, std::move(r));
      VCHECK(mv::same(ex, ossia::value{l2}), "merge.list_rvalue", mv::S(a), " <- ", mv::S(b), " = ", mv::S(ossia::value{l2}));
    }
    M.seen(mv::S(a) + "|" + mv::S(b));
    M.sample(mv::S(a) + " <- " + mv::S(b) + " = " + mv::S(x));
  }
}

VP_SECTION(hash)
{
  const size_t N = M.n(30000);
  mv::opts o;
  o.none_in_list = true;
  std::map<std::string, size_t> byval;
  std::hash<ossia::value> h;
  for (size_t k = 0; k < N; k++)
  {
    val a = mv::gen(M.r, o);
    M.at("hash", mv::tname(a));
    ossia::value x = mv::mk(a), y = mv::mk(a);
    VCHECKC(h(x) == h(y), "hash.deterministic", mv::tname(a), mv::S(a));
    ossia::value z = x;
    VCHECKC(h(x) == h(z), "hash.copy", mv::tname(a), mv::S(a));
    byval[mv::S(a)] = h(x);
    M.seen(h(x));
  }
  // distinct values: collisions stay rare (64-bit hash: none expected; the bound is generous)
  std::unordered_set<size_t> hs;
  for (auto& [k, v] : byval)
    hs.insert(v);
  VCHECK(byval.size() - hs.size() <= byval.size() / 200 + 4, "hash.spreads", byval.size(), " values, ", hs.size(), " hashes");
  // single-component changes are seen
  for (int k = 0; k < 4000; k++)
  {
    mv::v4 a{mv::gen_float(M.r, false), mv::gen_float(M.r, false), mv::gen_float(M.r, false), mv::gen_float(M.r, false)}, b = a;
    int i = M.r.i(0, 3);
    b[i] += 1.f + std::abs(b[i]);
    VCHECKC(h(ossia::value{a}) != h(ossia::value{b}), "hash.component", std::to_string(i), mv::S(val{a}), mv::S(val{b}));
    std::hash<std::array<float, 4>> ha;
    VCHECKC(ha(a) != ha(b) && ha(a) == ha(mv::v4(a)), "hash.array_component", std::to_string(i), mv::S(val{a}));
    auto l = [&](float f) { return std::vector<ossia::value>{1, f, "x"}; };
    std::hash<std::vector<ossia::value>> hl;
    VCHECK(hl(l(a[i])) != hl(l(b[i])) && hl(l(a[i])) == hl(l(a[i])), "hash.list_element");
    std::vector<ossia::value> ab{1, 2}, ba{2, 1};
    VCHECK(hl(ab) != hl(ba), "hash.list_order");
  }
}
VP_MAIN
