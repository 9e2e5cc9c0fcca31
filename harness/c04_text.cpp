// C04: textual form of values.
#include "values.hpp"
#include <ossia/network/value/value.hpp>
#include <ossia/network/value/detail/value_parse_impl.hpp>
using vp::M;
using mv::val;

static bool close(const val& a, const val& b)
{
  if (a.v.index() != b.v.index())
    return false;
  auto fc = [](float x, float y) { return x == y || std::abs(x - y) <= 4e-7f * std::max(std::abs(x), std::abs(y)); };
  if (auto p = std::get_if<float>(&a.v))
    return fc(*p, std::get<float>(b.v));
  auto arr = [&](auto& x, auto& y) {
    for (size_t i = 0; i < x.size(); i++)
      if (!fc(x[i], y[i]))
        return false;
    return true;
  };
  if (auto p = std::get_if<mv::v2>(&a.v))
    return arr(*p, std::get<mv::v2>(b.v));
  if (auto p = std::get_if<mv::v3>(&a.v))
    return arr(*p, std::get<mv::v3>(b.v));
  if (auto p = std::get_if<mv::v4>(&a.v))
    return arr(*p, std::get<mv::v4>(b.v));
  if (auto p = std::get_if<mv::list>(&a.v))
  {
    auto& q = std::get<mv::list>(b.v);
    if (p->size() != q.size())
      return false;
    for (size_t i = 0; i < p->size(); i++)
      if (!close((*p)[i], q[i]))
        return false;
    return true;
  }
  return mv::same(a, mv::mk(b));
}

VP_SECTION(roundtrip)
{
  const size_t N = M.n(30000);
  mv::opts o;
  o.none_ = false;
  o.ascii = true;
  for (size_t k = 0; k < N; k++)
  {
    val a = mv::gen(M.r, o);
    if (M.r.b(1, 4))
    {
      static const char* parts[] = {" ", "\"", "\\", "a", ",", "]", "[", "'", "string: ", "\t", "\n", ": ", "0"};
      std::string s;
      for (int n = M.r.i(0, 8); n-- > 0;)
        s += M.r.pick(parts);
      a = {s};
    }
    M.at("text.roundtrip", mv::S(a));
    ossia::value x = mv::mk(a);
    auto s = ossia::value_to_pretty_string(x);
    auto y = ossia::parse_pretty_value(s);
    std::string c = mv::tname(a);
    VCHECKC(close(a, mv::from(y)), "text.roundtrip", c, mv::S(a), " -> ", s, " -> ", mv::S(y));
    // documented form
    static const char* pre[] = {"invalid", "impulse", "int: ", "float: ", "bool: ", "char: ", "string: ", "vec2f: ", "vec3f: ", "vec4f: ", "list: "};
    VCHECKC(s.rfind(pre[a.v.index()], 0) == 0, "text.prefix", c, s);
    if (auto p = std::get_if<int>(&a.v))
      VCHECK(s == "int: " + std::to_string(*p), "text.int", s);
    if (auto p = std::get_if<bool>(&a.v))
      VCHECK(s == (*p ? "bool: true" : "bool: false"), "text.bool", s);
    M.seen(s);
    M.sample(s);
  }
  VCHECK(ossia::value_to_pretty_string({}) == "invalid", "text.invalid");
}

VP_SECTION(hostile)
{
  const size_t N = M.n(30000);
  mv::opts o;
  o.none_ = false;
  o.ascii = true;
  size_t parsed = 0;
  for (size_t k = 0; k < N; k++)
  {
    auto s = ossia::value_to_pretty_string(mv::mk(mv::gen(M.r, o)));
    for (int n = M.r.i(1, 4); n-- > 0 && !s.empty();)
    {
      size_t p = M.r.i(0, s.size() - 1);
      switch (M.r.i(0, 3))
      {
        case 0: s.erase(p, M.r.i(1, 4)); break;
        case 1: s[p] = char(M.r.i(1, 126)); break;
        case 2: s.insert(p, 1, "[]\"',:\\ 09.-e"[M.r.i(0, 12)]); break;
        default: s.resize(p); break;
      }
    }
    M.at("text.hostile", s);
    // exact-size heap copy: any overread is seen
    std::vector<char> buf(s.begin(), s.end());
    vp::no_throw("text.hostile", [&] {
      auto v = ossia::parse_pretty_value(ossia::string_view(buf.data(), buf.size()));
      if (v.valid())
      {
        parsed++;
        // whatever was understood is a proper value: it prints and reads back
        auto s2 = ossia::value_to_pretty_string(v);
        M.seen(s2);
      }
      VCHECK(true, "text.hostile.survived");
    });
  }
  VCHECK(parsed > 0, "text.hostile.some_parse");
}

VP_SECTION(preset_text)
{
  namespace x3 = boost::spirit::x3;
  const size_t N = M.n(4000);
  for (size_t k = 0; k < N; k++)
  {
    // /path<TAB>value lines
    std::vector<std::pair<std::string, val>> ex;
    std::string txt;
    for (int n = M.r.i(1, 5); n-- > 0;)
    {
      std::string path;
      for (int d = M.r.i(1, 3); d-- > 0;)
      {
        path += "/";
        for (int c = M.r.i(1, 5); c-- > 0;)
          path += "abcXYZ019._~()-"[M.r.i(0, 14)];
      }
      val v;
      switch (M.r.i(0, 3))
      {
        case 0: v = {int(M.r.i(-1000, 1000))}; break;
        case 1: v = {float(M.r.i(-1000, 1000)) / 4}; break;
        case 2: v = {M.r.b()}; break;
        default: v = {std::string("foo bar")}; break;
      }
      ex.emplace_back(path, v);
      txt += path + "\t" + ossia::value_to_pretty_string(mv::mk(v));
      if (n > 0)
        txt += "\n";
    }
    M.at("text.preset", txt);
    std::vector<std::pair<std::string, ossia::value>> res;
    auto b = txt.cbegin(), e = txt.cend();
    bool ok = x3::phrase_parse(b, e, ossia::detail::parse::preset_, x3::blank, res);
    VCHECK(ok && b == e, "text.preset.parses", txt);
    bool same = res.size() == ex.size();
    for (size_t i = 0; same && i < ex.size(); i++)
      same = res[i].first == ex[i].first && close(ex[i].second, mv::from(res[i].second));
    VCHECK(same, "text.preset.content", txt);
    std::string ad;
    auto ab = ex[0].first.cbegin(), ae = ex[0].first.cend();
    ok = x3::phrase_parse(ab, ae, ossia::detail::parse::address_, x3::ascii::space, ad);
    VCHECK(ok && ab == ae, "text.address.parses", ex[0].first);
    M.seen(txt);
  }
}
VP_MAIN
