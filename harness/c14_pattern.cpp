// C14: patterns: matching addresses, enumerating nodes, brace expansion.
#include "vp.hpp"
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/value/value.hpp>
#include <memory>
#include <regex>
using vp::M;
using namespace std::literals;
namespace net = ossia::net;
namespace tr = ossia::traversal;

static const std::string name_chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.~_()- =:";
static bool is_name(char c) { return name_chars.find(c) != name_chars.npos; }

// ---------------------------------------------------------------- pattern model
struct atom;
using seq = std::vector<atom>;
struct atom
{
  enum kind_t { lit, esc, qmark, star, inst, cls, alt, range } kind{};
  std::string text;       // lit / esc: the characters; cls: contents
  std::set<char> chars;   // cls
  std::vector<seq> alts;
  std::vector<std::string> words; // range
};
static std::string render(const seq& s);
static std::string render(const atom& a)
{
  switch (a.kind)
  {
    case atom::lit: return a.text;
    case atom::esc:
    {
      std::string r;
      for (char c : a.text)
        r += (c == '.' || c == '(' || c == ')' ? "\\" : "") + std::string(1, c);
      return r;
    }
    case atom::qmark: return "?";
    case atom::star: return "*";
    case atom::inst: return "!";
    case atom::cls: return "[" + a.text + "]";
    case atom::alt:
    {
      std::string r = "{";
      for (size_t i = 0; i < a.alts.size(); i++)
        r += (i ? "," : "") + render(a.alts[i]);
      return r + "}";
    }
    case atom::range: return a.text;
  }
  return {};
}
static std::string render(const seq& s)
{
  std::string r;
  for (auto& a : s)
    r += render(a);
  return r;
}
using ends_t = std::set<size_t>;
static ends_t ends(const seq& q, const std::string& s, ends_t from);
static ends_t ends(const atom& a, const std::string& s, size_t p)
{
  ends_t r;
  auto word = [&](const std::string& w) {
    if (s.compare(p, w.size(), w) == 0)
      r.insert(p + w.size());
  };
  switch (a.kind)
  {
    case atom::lit:
    case atom::esc: word(a.text); break;
    case atom::qmark:
      r.insert(p);
      if (p < s.size() && is_name(s[p]))
        r.insert(p + 1);
      break;
    case atom::star:
      r.insert(p);
      while (p < s.size() && is_name(s[p]))
        r.insert(++p);
      break;
    case atom::inst:
      r.insert(p);
      if (p < s.size() && s[p] == '.')
        for (p++; p < s.size() && is_name(s[p]) && s[p] != '.';)
          r.insert(++p);
      break;
    case atom::cls:
      if (p < s.size() && a.chars.count(s[p]))
        r.insert(p + 1);
      break;
    case atom::alt:
      for (auto& q : a.alts)
        for (auto e : ends(q, s, {p}))
          r.insert(e);
      break;
    case atom::range:
      for (auto& w : a.words)
        word(w);
      break;
  }
  return r;
}
static ends_t ends(const seq& q, const std::string& s, ends_t from)
{
  for (auto& a : q)
  {
    ends_t n;
    for (auto p : from)
      for (auto e : ends(a, s, p))
        n.insert(e);
    from = std::move(n);
  }
  return from;
}
static bool matches(const seq& q, const std::string& s) { return ends(q, s, {0}).count(s.size()); }

static atom class_with(char c)
{
  atom a;
  a.kind = atom::cls;
  int n = M.r.i(0, 3), at = M.r.i(0, n);
  static const std::vector<std::string> bits{"abc", "x-z", "0-9", "A-C", "f", "b", "1", "2-5", "ao", "a-z"};
  for (int i = 0; i <= n; i++)
  {
    std::string s = i == at ? (std::isalnum((unsigned char)c) ? std::string(1, c) : "a"s) : M.r.pick(bits);
    a.text += s;
    if (s.size() == 3 && s[1] == '-')
      for (char x = s[0]; x <= s[2]; x++)
        a.chars.insert(x);
    else
      a.chars.insert(s.begin(), s.end());
  }
  return a;
}
static atom range_with(long v)
{
  atom a;
  a.kind = atom::range;
  long lo = v - M.r.i(0, 4), hi = v + M.r.i(0, 4);
  bool flip = M.r.b(1, 5);
  std::string f = std::to_string(flip ? hi : lo), l = std::to_string(flip ? lo : hi);
  if (M.r.b())
  {
    a.text = "{" + f + ".." + l + "}";
    for (long x = lo; x <= hi; x++)
      a.words.push_back(std::to_string(x));
  }
  else
  {
    long inc = M.r.i(1, 4);
    bool neg = M.r.b(1, 4);
    a.text = "{" + f + ".." + l + ".." + std::to_string(neg ? -inc : inc) + "}";
    if (neg)
      for (long x = hi; x >= lo; x -= inc)
        a.words.push_back(std::to_string(x));
    else
      for (long x = lo; x <= hi; x += inc)
        a.words.push_back(std::to_string(x));
  }
  return a;
}
static seq literal(const std::string& s)
{
  atom a;
  a.kind = atom::lit;
  a.text = s;
  return {a};
}
static std::string some_word()
{
  static const std::vector<std::string> w{"a", "b", "c", "foo", "bar", "baz", "foo.1", "foo.2", "bar.baz", "b 1", "f(x)", "-2", "1", "10", "3", "x.y.z", "a=b", "foo.bar.2", "fooo", "ba", "z~", "A", "foo.", "abc", "a.b", "axb", "foo-1"};
  return M.r.pick(w);
}
// a pattern which has good chances to match `s`; braces only: no wildcard
static seq pattern_for(const std::string& s, int depth = 0, bool braces_only = false)
{
  seq r;
  std::string pend;
  auto flush = [&] {
    if (!pend.empty())
    {
      auto l = literal(pend);
      if (!braces_only && M.r.b(1, 6))
        l[0].kind = atom::esc;
      r.push_back(l[0]);
      pend.clear();
    }
  };
  for (size_t i = 0; i < s.size();)
  {
    if (M.r.b(1, 3))
    {
      flush();
      size_t len = std::min<size_t>(s.size() - i, M.r.i(1, 3));
      atom a;
      switch (M.r.i(0, 8))
      {
        case 0:
          if (braces_only)
            continue;
          a.kind = atom::qmark;
          len = M.r.b(3, 4) ? 1 : 0;
          break;
        case 1:
          if (braces_only)
            continue;
          a.kind = atom::star;
          len = M.r.i(0, s.size() - i);
          break;
        case 2:
        case 3:
          a = class_with(s[i]);
          len = 1;
          break;
        case 4:
        case 5:
        {
          if (depth > 1)
            continue;
          a.kind = atom::alt;
          int n = M.r.i(2, 3), at = M.r.i(0, n - 1);
          for (int k = 0; k < n; k++)
            a.alts.push_back(
                k == at ? pattern_for(s.substr(i, len), depth + 1, braces_only)
                : !braces_only && M.r.b(1, 6) ? seq{}
                                              : pattern_for(some_word(), depth + 1, braces_only));
          break;
        }
        case 6:
        case 7:
        {
          if (!std::isdigit((unsigned char)s[i]) && s[i] != '-' && M.r.b(3, 4))
            continue;
          size_t e = i + (s[i] == '-');
          while (e < s.size() && std::isdigit((unsigned char)s[e]) && e - i < 4)
            e++;
          long v = 1;
          if (e > i + (s[i] == '-'))
          {
            v = std::stol(s.substr(i, e - i));
            len = e - i;
          }
          a = range_with(v);
          break;
        }
        case 8:
          if (braces_only)
            continue;
          a.kind = atom::inst;
          if (s[i] == '.')
          {
            auto e = s.find('.', i + 1);
            len = (e == s.npos ? s.size() : e) - i;
          }
          else
            len = 0;
          break;
      }
      r.push_back(a);
      i += len;
    }
    else
    {
      pend += s[i++];
    }
  }
  flush();
  if (!braces_only && M.r.b(1, 12))
  {
    atom a;
    a.kind = M.r.b() ? atom::star : atom::inst;
    r.push_back(a);
  }
  return r;
}

// ---------------------------------------------------------------- trees
struct forest
{
  std::vector<std::unique_ptr<net::generic_device>> devs;
  std::vector<net::node_base*> nodes; // without the roots
  forest(int n)
  {
    static const std::vector<std::string> dn{"test", "banana", "dev.1", "my dev"};
    for (int i = 0; i < n; i++)
    {
      devs.push_back(std::make_unique<net::generic_device>(dn[i]));
      std::vector<net::node_base*> v{&devs.back()->get_root_node()};
      for (int k = M.r.i(3, 25); k-- > 0;)
      {
        auto c = M.r.pick(v)->create_child(some_word());
        v.push_back(c);
        nodes.push_back(c);
      }
    }
  }
  std::vector<net::node_base*> roots()
  {
    std::vector<net::node_base*> v;
    for (auto& d : devs)
      v.push_back(&d->get_root_node());
    return v;
  }
};
static std::string show(const std::set<net::node_base*>& s)
{
  std::vector<std::string> v;
  for (auto n : s)
    v.push_back(net::address_string_from_node(*n));
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto& x : v)
    r += " " + x;
  return r;
}
static std::string tree(forest& f)
{
  std::string r;
  for (auto n : f.nodes)
    r += " " + net::address_string_from_node(*n);
  return r;
}

struct step
{
  bool up{};
  seq q;
};
struct pat
{
  std::optional<seq> device;
  bool anywhere{}, slash{}, trail{};
  std::vector<step> steps;
  std::string text() const
  {
    std::string s = device ? render(*device) + ":" : "";
    s += anywhere ? "//" : slash || device ? "/" : "";
    for (size_t i = 0; i < steps.size(); i++)
      s += (i ? "/" : "") + (steps[i].up ? ".."s : render(steps[i].q));
    return s + (trail && !steps.empty() ? "/" : "");
  }
  std::set<net::node_base*> run(const std::vector<net::node_base*>& start) const
  {
    std::set<net::node_base*> cur(start.begin(), start.end());
    if (device)
      for (auto it = cur.begin(); it != cur.end();)
        it = matches(*device, (*it)->get_device().get_name()) ? std::next(it) : cur.erase(it);
    if (anywhere)
    {
      std::function<void(net::node_base*)> rec = [&](net::node_base* n) {
        cur.insert(n);
        for (auto c : n->children_copy())
          rec(c);
      };
      for (auto n : std::vector<net::node_base*>(cur.begin(), cur.end()))
        rec(n);
    }
    for (auto& s : steps)
    {
      std::set<net::node_base*> next;
      for (auto n : cur)
      {
        if (s.up)
        {
          if (auto p = n->get_parent())
            next.insert(p);
        }
        else
          for (auto c : n->children_copy())
            if (matches(s.q, c->get_name()))
              next.insert(c);
      }
      cur = std::move(next);
    }
    return cur;
  }
};
static pat pattern_to(net::node_base* n, net::node_base* root)
{
  pat p;
  std::vector<std::string> names;
  for (auto x = n; x && x != root; x = x->get_parent())
    names.insert(names.begin(), x->get_name());
  p.anywhere = M.r.b(1, 4);
  p.slash = M.r.b();
  p.trail = M.r.b(1, 6);
  if (p.anywhere)
    names.erase(names.begin(), names.begin() + M.r.i(0, names.size()));
  for (auto& s : names)
  {
    step st;
    st.q = M.r.b(1, 4) ? literal(s) : pattern_for(s);
    if (st.q.empty())
      st.q = literal(s);
    p.steps.push_back(st);
    if (M.r.b(1, 8))
    {
      step u;
      u.up = true;
      p.steps.push_back(u);
      if (M.r.b(2, 3))
      {
        step again;
        again.q = pattern_for(s);
        if (render(again.q).empty())
          again.q = literal(s);
        p.steps.push_back(again);
      }
    }
  }
  if (p.steps.empty() && !p.anywhere)
  {
    step s;
    atom a;
    a.kind = atom::star;
    s.q = {a};
    p.steps.push_back(s);
  }
  return p;
}

VP_SECTION(matching)
{
  long hits = 0, total = 0;
  for (int it = 0, N = M.n(250, 6000); it < N; it++)
  {
    forest f(M.r.i(1, 3));
    for (int k = 0; k < 8; k++)
    {
      auto target = M.r.pick(f.nodes);
      bool from_inside = M.r.b(1, 5);
      auto& root = target->get_device().get_root_node();
      auto start = from_inside ? M.r.pick(f.nodes) : &root;
      auto p = pattern_to(target, start == target || from_inside ? &root : start);
      if (p.text().empty())
        continue;
      bool with_dev = !from_inside && M.r.b(1, 3);
      std::vector<net::node_base*> starts{start};
      if (with_dev)
      {
        auto nm = root.get_name();
        p.device = M.r.b(1, 3) ? literal(nm) : pattern_for(nm);
        if (render(*p.device).size() < 1)
          p.device = literal(nm);
        starts = f.roots();
      }
      else if (M.r.b(1, 4))
        starts = f.roots();
      auto text = p.text();
      // a first step which looks like a device, or a relative first step
      // which looks like an absolute one, has another meaning
      if (!with_dev && text.find(":/") != text.npos)
        continue;
      M.at("pattern.match", text + " on" + tree(f));
      auto expected = p.run(starts);
      auto path = tr::make_path(text);
      VCHECK(path.has_value(), "pattern.valid", text, " is refused");
      if (!path)
        continue;
      VCHECK(path->pattern == text, "pattern.text", text, " gives ", path->pattern);
      auto scope = with_dev ? net::address_scope::global : p.anywhere || text[0] != '/' ? net::address_scope::relative : net::address_scope::absolute;
      VCHECK(path->scope == scope, "pattern.scope", text);
      auto v = starts;
      tr::apply(*path, v);
      std::set<net::node_base*> got(v.begin(), v.end());
      VCHECK(got == expected, "pattern.apply", text, " from", show({starts.begin(), starts.end()}), " gives", show(got), " expected", show(expected), " in", tree(f));
      if (starts.size() == 1 && v.size() != got.size())
        VCHECK(false, "pattern.unique", text, " gives the same node several times");
      // again (compiled patterns are cached), and with a copy
      auto path2 = tr::make_path(text);
      VCHECK(path2 && *path2 == *path && !(*path2 != *path) && std::hash<tr::path>{}(*path) == std::hash<tr::path>{}(*path2), "pattern.equal", text);
      if (path2)
      {
        auto copy = *path2;
        auto w = starts;
        tr::apply(copy, w);
        VCHECK(w == v, "pattern.again", text, " the second time gives something else");
      }
      total++;
      hits += !expected.empty();
      // single nodes
      for (int j = 0; j < 4; j++)
      {
        auto n = j == 0 ? target : M.r.pick(f.nodes);
        auto& nr = n->get_device().get_root_node();
        VCHECK(tr::match(*path, *n) == (p.run({&nr}).count(n) > 0), "pattern.match", text, " on ", net::address_string_from_node(*n));
        VCHECK(tr::match(*path, *n, *start) == (p.run({start}).count(n) > 0), "pattern.match_from", text, " on ", net::address_string_from_node(*n), " from ", net::address_string_from_node(*start));
      }
      // through find_nodes
      bool isp = text.rfind("//", 0) == 0 || text.find_first_of("?*[]{}!") != text.npos;
      VCHECK(tr::is_pattern(text) == isp, "pattern.is_pattern", text);
      if (isp)
      {
        auto w = net::find_nodes(*start, text);
        auto e = p.run({start});
        VCHECK(std::set<net::node_base*>(w.begin(), w.end()) == e && w.size() == e.size(), "pattern.find_nodes", text, " from ", net::address_string_from_node(*start), " gives", show({w.begin(), w.end()}), " expected", show(e));
      }
      M.seen(vp::hash_str(text));
      if (k == 0 && !expected.empty())
        M.sample(text + " ->" + show(expected));
    }
    // plain addresses
    for (int k = 0; k < 4; k++)
    {
      auto n = M.r.pick(f.nodes);
      auto a = net::osc_parameter_string(*n);
      auto& root = n->get_device().get_root_node();
      M.at("pattern.plain", a);
      VCHECK(!tr::is_pattern(a), "pattern.is_pattern", a);
      VCHECK(net::find_nodes(root, a) == std::vector<net::node_base*>{n}, "pattern.find_nodes", a);
      VCHECK(net::find_nodes(root, a + "/nope").empty(), "pattern.find_nodes", a, "/nope");
      auto p = tr::make_path(a);
      VCHECK(p && tr::match(*p, *n), "pattern.plain", a, " does not match its node");
      auto g = tr::make_path(net::address_string_from_node(*n));
      VCHECK(g && tr::match(*g, *n), "pattern.plain", net::address_string_from_node(*n), " does not match its node");
      auto rest = M.r.pick(f.nodes);
      if (rest != n)
        VCHECK(p && tr::match(*p, *rest) == (net::osc_parameter_string(*rest) == a), "pattern.plain", a, " and ", net::address_string_from_node(*rest));
    }
    M.alive();
  }
  VCHECK(hits * 4 > total, "pattern.nonvacuous", hits, " of ", total, " patterns select something");
}

// one segment, exhaustively checked against many names
VP_SECTION(segments)
{
  net::generic_device d{"d"};
  auto& root = d.get_root_node();
  std::vector<net::node_base*> kids;
  {
    // every short string over a small alphabet, and the words
    std::string al = "ab.1-";
    std::function<void(std::string)> rec = [&](std::string s) {
      if (!s.empty())
      {
        auto n = std::make_unique<net::generic_node>(s, d, root);
        if (auto p = root.add_child(std::move(n)))
          kids.push_back(p);
      }
      if (s.size() < 4)
        for (char c : al)
          rec(s + c);
    };
    rec("");
  }
  for (int it = 0, N = M.n(400, 8000); it < N; it++)
  {
    auto q = pattern_for(M.r.b(3, 4) ? M.r.pick(kids)->get_name() : some_word());
    auto text = render(q);
    if (text.empty() || text == ".." || text.find(":/") != text.npos)
      continue;
    M.at("pattern.segment", text);
    auto p = tr::make_path(text);
    VCHECK(p.has_value(), "pattern.valid", text, " is refused");
    if (!p)
      continue;
    std::vector<net::node_base*> v{&root};
    tr::apply(*p, v);
    std::set<net::node_base*> got(v.begin(), v.end()), exp;
    for (auto k : kids)
      if (matches(q, k->get_name()))
        exp.insert(k);
    std::string diff;
    for (auto k : kids)
      if (got.count(k) != exp.count(k) && diff.size() < 200)
        diff += (got.count(k) ? " +" : " -") + k->get_name();
    VCHECK(got == exp, "pattern.segment", text, " selects ", got.size(), " names, expected ", exp.size(), ":", diff);
    M.seen(vp::hash_str(text));
  }
}

// brace expansion creates one node for each alternative
static void expansions(const seq& q, size_t i, std::string cur, std::vector<std::string>& out)
{
  if (out.size() > 2000) // too many for a case
    return;
  if (i == q.size())
  {
    out.push_back(cur);
    return;
  }
  auto& a = q[i];
  switch (a.kind)
  {
    case atom::cls:
      for (char c : a.chars)
        expansions(q, i + 1, cur + c, out);
      break;
    case atom::alt:
      for (auto& s : a.alts)
      {
        std::vector<std::string> in;
        expansions(s, 0, "", in);
        for (auto& x : in)
          expansions(q, i + 1, cur + x, out);
      }
      break;
    case atom::range:
      for (auto& w : a.words)
        expansions(q, i + 1, cur + w, out);
      break;
    default:
      expansions(q, i + 1, cur + a.text, out);
      break;
  }
}
struct names
{
  // address -> names of its children in order
  std::map<std::string, std::vector<std::string>> kids;
  static std::optional<long> num(const std::string& s)
  {
    if (s.empty())
      return {};
    size_t i = s[0] == '-';
    if (i == s.size() || s.size() > 9)
      return {};
    for (size_t k = i; k < s.size(); k++)
      if (!std::isdigit((unsigned char)s[k]))
        return {};
    return std::stol(s);
  }
  std::string add(const std::string& parent, std::string name)
  {
    auto& v = kids[parent];
    if (std::find(v.begin(), v.end(), name) != v.end())
    {
      auto root = name;
      if (auto p = name.rfind('.'); p != name.npos && num(name.substr(p + 1)))
        root = name.substr(0, p);
      std::optional<long> max;
      for (auto& b : v)
        if (b.rfind(root + ".", 0) == 0)
          if (auto n = num(b.substr(root.size() + 1)))
            max = std::max(max.value_or(*n), *n);
      name = root + "." + std::to_string(max ? *max + 1 : 1);
    }
    v.push_back(name);
    return name;
  }
  std::string create(const std::string& addr)
  {
    auto parts = net::address_parts(addr);
    std::string cur;
    for (size_t i = 0; i < parts.size(); i++)
    {
      auto& v = kids[cur];
      if (i + 1 < parts.size() && std::find(v.begin(), v.end(), parts[i]) != v.end())
        cur += "/" + parts[i];
      else
        cur += "/" + add(cur, parts[i]);
    }
    return cur;
  }
};
VP_SECTION(expansion)
{
  for (int it = 0, N = M.n(400, 8000); it < N; it++)
  {
    net::generic_device d{"d"};
    names m;
    std::string hist;
    for (int k = M.r.i(1, 3); k-- > 0;)
    {
      seq whole;
      int n = M.r.i(1, 3);
      size_t count = 1;
      for (int i = 0; i < n; i++)
      {
        if (i)
          whole.push_back(literal("/")[0]);
        auto w = some_word();
        if (w == "foo.")
          w = "foo";
        auto q = M.r.b(1, 4) ? literal(w) : pattern_for(w, 0, true);
        whole.insert(whole.end(), q.begin(), q.end());
      }
      auto text = render(whole);
      bool lead = M.r.b();
      std::vector<std::string> out;
      expansions(whole, 0, "", out);
      if (out.size() > 400 || text.find("//") != text.npos)
        continue;
      hist += " " + text;
      M.at("pattern.expansion", hist);
      std::vector<std::string> exp;
      for (auto& a : out)
        exp.push_back(m.create(a));
      auto got = net::create_nodes(d.get_root_node(), (lead ? "/" : "") + text);
      std::vector<std::string> ga;
      for (auto g : got)
        ga.push_back(net::osc_parameter_string(*g));
      std::string diff;
      for (size_t i = 0; i < std::max(ga.size(), exp.size()) && diff.size() < 200; i++)
        if (i >= ga.size() || i >= exp.size() || ga[i] != exp[i])
          diff += " " + (i < ga.size() ? ga[i] : "-"s) + " instead of " + (i < exp.size() ? exp[i] : "-"s);
      VCHECK(ga == exp, "pattern.create_nodes", hist, ": ", ga.size(), " nodes, expected ", exp.size(), ":", diff);
      if (ga != exp)
        break;
      (void)count;
      M.seen(vp::hash_str(text));
    }
  }
}

// find_or_create_parameter: every address gets its parameter
VP_SECTION(parameters)
{
  static const std::vector<std::pair<std::string, ossia::val_type>> types{{"float", ossia::val_type::FLOAT}, {"int", ossia::val_type::INT}, {"string", ossia::val_type::STRING}, {"bool", ossia::val_type::BOOL}, {"vec3f", ossia::val_type::VEC3F}, {"list", ossia::val_type::LIST}, {"Float", ossia::val_type::FLOAT}};
  for (int it = 0, N = M.n(300, 6000); it < N; it++)
  {
    net::generic_device d{"d"};
    auto& root = d.get_root_node();
    // some of the nodes exist, some with a parameter
    std::map<std::string, bool> pre;
    auto q = pattern_for(some_word(), 0, true);
    std::vector<std::string> out;
    expansions(q, 0, "", out);
    auto text = render(q);
    std::set<std::string> uniq(out.begin(), out.end());
    if (out.size() > 60 || uniq.size() != out.size())
      continue;
    // instances interfere with each other: only names which do not
    bool simple = true;
    for (auto& a : out)
      simple &= a.find('.') == a.npos && !a.empty();
    if (!simple)
      continue;
    for (auto& a : out)
      if (M.r.b(1, 3))
      {
        auto n = root.create_child(a);
        pre[a] = M.r.b();
        if (pre[a])
          n->create_parameter(ossia::val_type::IMPULSE);
      }
    auto& [tn, tt] = M.r.pick(types);
    M.at("pattern.parameter", text);
    std::set<const net::parameter_base*> before;
    for (auto c : root.children_copy())
      if (auto p = c->get_parameter())
        before.insert(p);
    auto got = net::find_or_create_parameter(root, text, tn);
    std::multiset<std::string> names, exp;
    bool fresh = true;
    for (auto p : got)
    {
      names.insert(p->get_node().get_name());
      fresh &= !before.count(p) && p->get_value_type() == tt && p->get_node().get_parameter() == p;
    }
    for (auto& a : out)
      exp.insert(pre.count(a) && pre[a] ? a + ".1" : a);
    std::string l;
    for (auto& n : names)
      l += " " + n;
    VCHECK(names == exp && fresh, "pattern.find_or_create_parameter", text, " as ", tn, " gives", l, fresh ? "" : ", some of them not new or of another type");
    for (auto& [a, p] : pre)
      if (p)
        VCHECK(root.find_child(a)->get_parameter() && root.find_child(a)->get_parameter()->get_value_type() == ossia::val_type::IMPULSE, "pattern.parameter_kept", a);
    VCHECK(net::find_or_create_parameter(root, "unknown_type_node", "no such type").empty(), "pattern.unknown_type", "a parameter of an unknown type");
    M.seen(vp::hash_str(text));
  }
}

// regular expressions of addresses
VP_SECTION(regex_builder)
{
  using namespace ossia::regex_path;
  struct el { int kind; std::string s; std::vector<std::string> alts; };
  std::vector<std::string> pool{"a", "b", "foo", "bar", "foo.1", "b 1", "a=b", "bar.2", "foo.x", "c.1.2"};
  for (int it = 0, N = M.n(400, 6000); it < N; it++)
  {
    std::vector<el> els;
    path_element p = device("dev");
    for (int k = M.r.i(1, 4); k-- > 0;)
    {
      el e;
      e.kind = M.r.i(0, 4);
      // several of them in a row are very slow
      if (e.kind == 4 && std::any_of(els.begin(), els.end(), [](auto& x) { return x.kind == 4; }))
        e.kind = 3;
      switch (e.kind)
      {
        case 0:
          e.s = M.r.pick("abc"s);
          p = p / path_element(e.s);
          break;
        case 1:
          e.s = M.r.b() ? "foo" : "bar";
          p = p / any_instance(e.s);
          break;
        case 2:
        {
          e.alts = {"a", "foo", "bar"};
          if (M.r.b())
          {
            p = p / any_between{"a", "foo", "bar"};
          }
          else
          {
            e.alts = {"b"};
            p = p / any_between{"b"};
          }
          break;
        }
        case 3: p = p / any_node{}; break;
        case 4: p = p / any_path{}; break;
      }
      els.push_back(e);
    }
    bool closed = M.r.b(3, 4);
    if (closed)
      p = p / stop{};
    M.at("regex_path", p.address);
    std::regex rx{p.address};
    std::function<bool(size_t, size_t, const std::vector<std::string>&)> mm = [&](size_t e, size_t s, auto& segs) -> bool {
      if (e == els.size())
        return s == segs.size();
      if (s == segs.size())
        return false;
      auto& x = els[e];
      switch (x.kind)
      {
        case 0: return segs[s] == x.s && mm(e + 1, s + 1, segs);
        case 1: return (segs[s] == x.s || (segs[s].rfind(x.s + ".", 0) == 0 && segs[s].size() > x.s.size() + 1 && segs[s].find('.', x.s.size() + 1) == segs[s].npos)) && mm(e + 1, s + 1, segs);
        case 2: return std::find(x.alts.begin(), x.alts.end(), segs[s]) != x.alts.end() && mm(e + 1, s + 1, segs);
        case 3: return mm(e + 1, s + 1, segs);
        case 4:
          for (size_t t = s + 1; t <= segs.size(); t++)
            if (mm(e + 1, t, segs))
              return true;
          return false;
      }
      return false;
    };
    for (int k = 0; k < 20; k++)
    {
      std::vector<std::string> segs;
      std::string a = M.r.b(9, 10) ? "dev:" : "dew:";
      if (k % 2)
      {
        for (auto& e : els)
          switch (e.kind)
          {
            case 0: segs.push_back(M.r.b(9, 10) ? e.s : "zz"); break;
            case 1: segs.push_back(e.s + (M.r.b() ? ".1" : M.r.b() ? "" : ".x.y")); break;
            case 2: segs.push_back(M.r.pick(e.alts)); break;
            case 3: segs.push_back(M.r.pick(pool)); break;
            case 4:
              for (int j = M.r.i(1, 3); j-- > 0;)
                segs.push_back(M.r.pick(pool));
          }
      }
      else
        for (int j = M.r.i(1, 4); j-- > 0;)
          segs.push_back(M.r.pick(pool));
      for (auto& s : segs)
        a += "/" + s;
      bool exp = a[2] == 'v' && mm(0, 0, segs);
      VCHECK(std::regex_match(a, rx) == exp, "regex_path.match", p.address, " on ", a, exp ? " should match" : " should not match");
      if (closed)
        VCHECK(std::regex_search(a, rx) == exp, "regex_path.search", p.address, " on ", a);
      M.seen(vp::hash_str(a));
    }
    // from anywhere
    std::string leaf = M.r.b() ? "foo" : "bar";
    auto q = any_path{} / any_instance(leaf) / stop{};
    std::regex ry{q.address};
    for (int k = 0; k < (it % 40 ? 0 : 6); k++)
    {
      std::string a = "dev:";
      std::string last;
      static const std::vector<std::string> tiny{"a", "foo", "bar", "bar.1"};
      for (int j = M.r.i(1, 2); j-- > 0;)
        a += "/" + (last = M.r.pick(tiny));
      bool exp = last == leaf || (last.rfind(leaf + ".", 0) == 0 && last.find('.', leaf.size() + 1) == last.npos);
      VCHECK(std::regex_match(a, ry) == exp, "regex_path.any_path", q.address, " on ", a);
    }
    std::ostringstream os;
    os << p;
    VCHECK(os.str() == p.address && std::string(p) == p.address, "regex_path.text", p.address);
  }
}

// arbitrary text never breaks anything
VP_SECTION(hostile)
{
  forest f(2);
  std::set<net::node_base*> all(f.nodes.begin(), f.nodes.end());
  for (auto r : f.roots())
    all.insert(r);
  static const std::string al = "ab.*?[]{}!,-\\()/:012^$| =\xc3\xa9\x01";
  int valid = 0;
  for (int it = 0, N = M.n(6000, 120000); it < N; it++)
  {
    std::string s;
    for (int k = M.r.i(0, 12); k-- > 0;)
      s += M.r.pick(al);
    int st = 0;
    for (char c : s)
      st += c == '*' || c == '!' || c == '?';
    if (st > 4)
      continue;
    M.at("pattern.hostile", s);
    tr::is_pattern(s);
    if (auto p = tr::make_path(s))
    {
      valid++;
      auto v = f.roots();
      tr::apply(*p, v);
      for (auto n : v)
        VCHECK(all.count(n), "pattern.hostile_result", s, " gives a node which is not in the tree");
    }
    for (auto n : net::find_nodes(*M.r.pick(f.roots()), s))
      VCHECK(all.count(n), "pattern.hostile_result", s, " finds a node which is not in the tree");
    tr::substitute_characters(s);
    M.seen(vp::hash_str(s));
    if (it % 4 == 0)
    {
      net::generic_device d{"d"};
      M.at("pattern.hostile_create", s);
      try
      {
        net::create_nodes(d.get_root_node(), s);
        net::find_or_create_parameter(d.get_root_node(), s, "float");
      }
      catch (const std::exception&)
      {
      }
      std::vector<net::node_base*> v{&d.get_root_node()};
      for (size_t i = 0; i < v.size() && i < 200; i++)
      {
        auto names = v[i]->children_names();
        VCHECK(std::set<std::string>(names.begin(), names.end()).size() == names.size(), "pattern.hostile_unique", s);
        for (auto& n : names)
          for (char c : n)
            VCHECK(is_name(c), "pattern.hostile_names", s, " creates '", n, "'");
        for (auto c : v[i]->children_copy())
          v.push_back(c);
      }
    }
    M.alive();
  }
  VCHECK(valid > 100, "pattern.hostile_valid", valid);
}
VP_MAIN
