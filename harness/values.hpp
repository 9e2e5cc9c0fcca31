#pragma once
// An independent model of ossia::value, generators, and a structural comparison.
#include "vp.hpp"
#include <ossia/network/value/value.hpp>
#include <array>
#include <variant>
namespace mv
{
struct none { };
struct imp { };
struct val;
using list = std::vector<val>;
using v2 = std::array<float, 2>;
using v3 = std::array<float, 3>;
using v4 = std::array<float, 4>;
struct val
{
  std::variant<none, imp, int, float, bool, char, std::string, v2, v3, v4, list> v;
};
inline ossia::value mk(const val& m)
{
  struct
  {
    ossia::value operator()(none) const { return {}; }
    ossia::value operator()(imp) const { return ossia::impulse{}; }
    ossia::value operator()(int i) const { return ossia::value{i}; }
    ossia::value operator()(float i) const { return ossia::value{i}; }
    ossia::value operator()(bool i) const { return ossia::value{i}; }
    ossia::value operator()(char i) const { return ossia::value{i}; }
    ossia::value operator()(const std::string& i) const { return ossia::value{i}; }
    ossia::value operator()(v2 i) const { return ossia::value{i}; }
    ossia::value operator()(v3 i) const { return ossia::value{i}; }
    ossia::value operator()(v4 i) const { return ossia::value{i}; }
    ossia::value operator()(const list& l) const
    {
      std::vector<ossia::value> r;
      for (auto& e : l)
        r.push_back(mk(e));
      return ossia::value{r};
    }
  } vis;
  return std::visit(vis, m.v);
}
inline ossia::val_type type_of(const val& m)
{
  using T = ossia::val_type;
  static const T t[] = {T::NONE, T::IMPULSE, T::INT, T::FLOAT, T::BOOL, T::CHAR, T::STRING, T::VEC2F, T::VEC3F, T::VEC4F, T::LIST};
  return t[m.v.index()];
}
inline bool fsame(float a, float b)
{
  return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
}
// structural identity, read through the public accessors
inline bool same(const val& m, const ossia::value& o)
{
  if (o.get_type() != type_of(m))
    return false;
  if (auto p = std::get_if<int>(&m.v))
    return o.get<int>() == *p;
  if (auto p = std::get_if<float>(&m.v))
    return fsame(o.get<float>(), *p);
  if (auto p = std::get_if<bool>(&m.v))
    return o.get<bool>() == *p;
  if (auto p = std::get_if<char>(&m.v))
    return o.get<char>() == *p;
  if (auto p = std::get_if<std::string>(&m.v))
    return o.get<std::string>() == *p;
  auto arr = [](auto& a, auto& b) {
    for (size_t i = 0; i < a.size(); i++)
      if (!fsame(a[i], b[i]))
        return false;
    return true;
  };
  if (auto p = std::get_if<v2>(&m.v))
    return arr(*p, o.get<ossia::vec2f>());
  if (auto p = std::get_if<v3>(&m.v))
    return arr(*p, o.get<ossia::vec3f>());
  if (auto p = std::get_if<v4>(&m.v))
    return arr(*p, o.get<ossia::vec4f>());
  if (auto p = std::get_if<list>(&m.v))
  {
    auto& l = o.get<std::vector<ossia::value>>();
    if (l.size() != p->size())
      return false;
    for (size_t i = 0; i < l.size(); i++)
      if (!same((*p)[i], l[i]))
        return false;
    return true;
  }
  return true; // none, impulse
}
inline val from(const ossia::value& o)
{
  using T = ossia::val_type;
  switch (o.get_type())
  {
    case T::FLOAT: return {o.get<float>()};
    case T::INT: return {o.get<int>()};
    case T::VEC2F: return {o.get<ossia::vec2f>()};
    case T::VEC3F: return {o.get<ossia::vec3f>()};
    case T::VEC4F: return {o.get<ossia::vec4f>()};
    case T::IMPULSE: return {imp{}};
    case T::BOOL: return {o.get<bool>()};
    case T::STRING: return {o.get<std::string>()};
    case T::CHAR: return {o.get<char>()};
    case T::LIST:
    {
      list l;
      for (auto& e : o.get<std::vector<ossia::value>>())
        l.push_back(from(e));
      return {l};
    }
    default: return {none{}};
  }
}
inline std::string S(const val& m)
{
  struct
  {
    std::string operator()(none) const { return "none"; }
    std::string operator()(imp) const { return "imp"; }
    std::string operator()(int i) const { return vp::str("i", i); }
    std::string operator()(float i) const { return vp::str("f", i); }
    std::string operator()(bool i) const { return i ? "T" : "F"; }
    std::string operator()(char i) const { return vp::str("c", int(i)); }
    std::string operator()(const std::string& i) const { return "\"" + vp::jesc(i) + "\""; }
    std::string operator()(v2 i) const { return vp::str("<", i[0], ",", i[1], ">"); }
    std::string operator()(v3 i) const { return vp::str("<", i[0], ",", i[1], ",", i[2], ">"); }
    std::string operator()(v4 i) const { return vp::str("<", i[0], ",", i[1], ",", i[2], ",", i[3], ">"); }
    std::string operator()(const list& l) const
    {
      std::string s = "[";
      for (auto& e : l)
        s += S(e) + " ";
      return s + "]";
    }
  } vis;
  return std::visit(vis, m.v);
}
inline std::string S(const ossia::value& v) { return S(from(v)); }

struct opts
{
  bool none_ = true;      // unset values, at top level and in lists
  bool imp_ = true;
  bool list_ = true;
  bool special_floats = false;
  bool ascii = false;     // printable strings and chars
  int depth = 2;
  int maxlist = 4;
  bool none_in_list = false;
};
inline float gen_float(vp::rng& r, bool special)
{
  switch (r.i(0, special ? 8 : 6))
  {
    case 0: return 0.f;
    case 1: return float(r.i(-5, 5));
    case 2: return float(r.i(-1000, 1000)) / 8.f;
    case 3: return float(r.d(-1, 1));
    case 4: return float(r.d(-1e6, 1e6));
    case 5: return float(r.i(-100, 100)) * 0.1f;
    case 6: return float(std::ldexp(r.d(-1, 1), int(r.i(-60, 60))));
    case 7: return r.b() ? -0.f : INFINITY;
    default: return r.b() ? -INFINITY : std::ldexp(1.f, -130);
  }
}
inline int gen_int(vp::rng& r)
{
  switch (r.i(0, 5))
  {
    case 0: return r.i(-3, 3);
    case 1: return r.i(-300, 300);
    case 2: return r.b() ? INT32_MAX : INT32_MIN;
    case 3: return int(r.mag(31));
    case 4: return -int(r.mag(31));
    default: return 1 << r.i(0, 30);
  }
}
inline std::string gen_string(vp::rng& r, bool ascii)
{
  static const std::string words[] = {"", "a", "foo", "bar", "foo bar", "12", "-3.5", "true", "1", "0", "x", "12abc", "/a/b", "\xc3\xa9t\xc3\xa9", "impulse", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
  if (r.b(1, 2))
    return r.pick(words);
  std::string s;
  int n = r.i(0, 20);
  for (int k = 0; k < n; k++)
    s += ascii ? char(r.i(32, 126)) : char(r.i(1, 255));
  return s;
}
inline val gen(vp::rng& r, const opts& o = {}, int depth = 0)
{
  for (;;)
    switch (r.i(0, 10))
    {
      case 0:
        if (!o.none_ || (depth > 0 && !o.none_in_list))
          break;
        return {none{}};
      case 1:
        if (!o.imp_)
          break;
        return {imp{}};
      case 2: return {gen_int(r)};
      case 3: return {gen_float(r, o.special_floats)};
      case 4: return {r.b()};
      case 5: return {o.ascii ? char(r.i(32, 126)) : char(r.i(-128, 127))};
      case 6: return {gen_string(r, o.ascii)};
      case 7: return {v2{gen_float(r, o.special_floats), gen_float(r, o.special_floats)}};
      case 8: return {v3{gen_float(r, o.special_floats), gen_float(r, o.special_floats), gen_float(r, o.special_floats)}};
      case 9: return {v4{gen_float(r, o.special_floats), gen_float(r, o.special_floats), gen_float(r, o.special_floats), gen_float(r, o.special_floats)}};
      default:
      {
        if (!o.list_ || depth >= o.depth)
          break;
        list l;
        int n = r.i(0, o.maxlist);
        for (int k = 0; k < n; k++)
          l.push_back(gen(r, o, depth + 1));
        return {l};
      }
    }
}
inline const char* tname(const val& m)
{
  static const char* t[] = {"none", "impulse", "int", "float", "bool", "char", "string", "vec2f", "vec3f", "vec4f", "list"};
  return t[m.v.index()];
}
}
