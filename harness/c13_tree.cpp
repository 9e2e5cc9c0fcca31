// C13: the tree of nodes: names, addresses, lookups, listings, notifications.
#include "vp.hpp"
#include <ossia/network/base/address_scope.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <ossia/network/value/value.hpp>
#include <list>
#include <optional>
#include <thread>
using vp::M;
using namespace std::literals;
namespace net = ossia::net;

// ---------------------------------------------------------------- model
static const std::string dev_chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.~_()- =";
static const std::string name_chars = dev_chars + ":";

static std::string clean(std::string s, const std::string& set = name_chars)
{
  for (auto& c : s)
    if (set.find(c) == set.npos)
      c = '_';
  return s;
}
static std::optional<long long> instance(std::string_view t)
{
  if (t.empty())
    return {};
  size_t i = 0;
  bool neg = false;
  if (t[0] == '-' || t[0] == '+')
  {
    neg = t[0] == '-';
    i = 1;
  }
  if (i == t.size())
    return {};
  long long v = 0;
  for (; i < t.size(); i++)
  {
    if (t[i] < '0' || t[i] > '9')
      return {};
    v = v * 10 + (t[i] - '0');
    if (v > 3000000000ll)
      return {};
  }
  v = neg ? -v : v;
  if (v > 2147483647ll || v < -2147483648ll)
    return {};
  return v;
}
// name of a new child asked as `asked`
static std::string fresh(std::string asked, const std::vector<std::string>& bros)
{
  asked = clean(asked);
  std::set<std::string> used(bros.begin(), bros.end());
  if (!used.count(asked))
    return asked;
  std::string root = asked;
  if (auto p = asked.rfind('.'); p != asked.npos && instance(std::string_view(asked).substr(p + 1)))
    root = asked.substr(0, p);
  std::optional<long long> max;
  std::set<long long> nums;
  for (auto& b : used)
    if (b.size() > root.size() && b.compare(0, root.size(), root) == 0 && b[root.size()] == '.')
      if (auto n = instance(std::string_view(b).substr(root.size() + 1)))
      {
        nums.insert(*n);
        max = std::max(max.value_or(*n), *n);
      }
  if (!max)
    return root + ".1";
  if (*max == 2147483647ll)
  {
    long long n = 1;
    while (nums.count(n))
      n++;
    return root + "." + std::to_string(n);
  }
  return root + "." + std::to_string(*max + 1);
}

struct mnode
{
  std::string name;
  mnode* parent{};
  int type{-1}; // parameter type, -1: none
  std::optional<double> prio;
  net::node_base* real{};
  std::vector<std::unique_ptr<mnode>> kids;
  std::vector<std::string> names() const
  {
    std::vector<std::string> v;
    for (auto& k : kids)
      v.push_back(k->name);
    return v;
  }
  mnode* find(const std::string& n)
  {
    for (auto& k : kids)
      if (k->name == n)
        return k.get();
    return nullptr;
  }
  std::string osc() const { return parent ? (parent->parent ? parent->osc() : "") + "/" + name : "/"; }
  std::string dev() const { return parent ? parent->dev() + "/" + name : name + ":"; }
  std::string addr() const { return parent ? dev() : name + ":/"; }
  std::string with_dev() const { return parent ? wd() : "/"; }
  std::string wd() const { return (parent ? parent->wd() : "") + "/" + name; }
  void all(std::vector<mnode*>& v)
  {
    for (auto& k : kids)
    {
      v.push_back(k.get());
      k->all(v);
    }
  }
};

struct world
{
  mnode root;
  std::vector<std::string> got, want;
  int deleted_events{};
  std::map<const net::node_base*, int> deaths;
  net::generic_device dev; // first to go

  void created(net::node_base& n) { got.push_back("created " + net::address_string_from_node(n)); }
  void removing(net::node_base& n) { got.push_back("removing " + net::address_string_from_node(n)); }
  void renamed(net::node_base& n, std::string old) { got.push_back("renamed " + net::address_string_from_node(n) + " was " + old); }
  void pcreated(const net::parameter_base& p) { got.push_back("+param " + net::address_string_from_node(p)); }
  void premoving(const net::parameter_base& p) { got.push_back("-param " + net::address_string_from_node(p)); }
  void dying(const net::node_base& n) { deaths[&n]++; got.push_back("dead " + net::address_string_from_node(n)); }

  world(std::string n = "dev") : dev{n}
  {
    root.name = n;
    root.real = &dev.get_root_node();
    dev.on_node_created.connect<&world::created>(*this);
    dev.on_node_removing.connect<&world::removing>(*this);
    dev.on_node_renamed.connect<&world::renamed>(*this);
    dev.on_parameter_created.connect<&world::pcreated>(*this);
    dev.on_parameter_removing.connect<&world::premoving>(*this);
  }
  mnode* add(mnode* p, std::string name, net::node_base* real)
  {
    auto k = std::make_unique<mnode>();
    k->name = name;
    k->parent = p;
    k->real = real;
    if (real)
      real->about_to_be_deleted.connect<&world::dying>(*this);
    auto r = k.get();
    p->kids.push_back(std::move(k));
    return r;
  }
  void want_removed(mnode* n)
  {
    for (auto& k : n->kids)
      want_removed(k.get());
    want.push_back("removing " + n->addr());
    want.push_back("dead " + n->addr());
    if (n->type >= 0)
      want.push_back("-param " + n->addr());
  }
  void drop(mnode* n)
  {
    auto& v = n->parent->kids;
    for (size_t i = 0; i < v.size(); i++)
      if (v[i].get() == n)
      {
        v.erase(v.begin() + i);
        return;
      }
  }
  mnode* any()
  {
    std::vector<mnode*> v{&root};
    root.all(v);
    return M.r.pick(v);
  }
  void compare(mnode* n, const std::string& hist)
  {
    auto& r = *n->real;
    auto ctx = [&] { return "node " + n->addr() + " after:" + hist; };
    VCHECK(r.get_name() == n->name, "tree.name", ctx(), " real name ", r.get_name());
    VCHECK(&r.get_device() == &dev, "tree.device", ctx());
    VCHECK(r.get_parent() == (n->parent ? n->parent->real : nullptr), "tree.parent", ctx());
    VCHECK(r.osc_address() == n->osc(), "tree.osc_address", ctx(), " real ", r.osc_address());
    VCHECK(net::osc_parameter_string(r) == n->osc(), "tree.osc_parameter_string", ctx(), net::osc_parameter_string(r));
    VCHECK(net::address_string_from_node(r) == n->addr(), "tree.address_string", ctx(), net::address_string_from_node(r));
    VCHECK(net::osc_parameter_string_with_device(r) == n->with_dev(), "tree.with_device", ctx(), net::osc_parameter_string_with_device(r));
    auto p = r.get_parameter();
    VCHECK(!!p == (n->type >= 0), "tree.parameter", ctx());
    if (p)
    {
      VCHECK(int(p->get_value_type()) == n->type, "tree.parameter_type", ctx(), int(p->get_value_type()), " expected ", n->type);
      VCHECK(&p->get_node() == &r, "tree.parameter_node", ctx());
      VCHECK(net::osc_parameter_string(*p) == n->osc() && net::address_string_from_node(*p) == n->addr() && net::osc_parameter_string_with_device(*p) == n->with_dev() && net::osc_address(*p) == n->osc(), "tree.parameter_address", ctx());
    }
    auto names = n->names();
    auto cn = r.children_names();
    VCHECK(cn == names, "tree.children_names", ctx(), " ", cn.size(), " children, expected ", names.size());
    auto cc = r.children_copy();
    std::vector<net::node_base*> exp;
    for (auto& k : n->kids)
      exp.push_back(k->real);
    VCHECK(cc == exp, "tree.children_copy", ctx());
    {
      auto lk = r.children();
      bool same = lk.size() == exp.size();
      for (size_t i = 0; same && i < exp.size(); i++)
        same = lk[i].get() == exp[i];
      VCHECK(same, "tree.children", ctx());
    }
    VCHECK(std::set<std::string>(cn.begin(), cn.end()).size() == cn.size(), "tree.unique_names", ctx());
    for (auto& k : n->kids)
    {
      VCHECK(r.find_child(k->name) == k->real, "tree.find_child", ctx(), " ", k->name);
      VCHECK(r.has_child(*k->real), "tree.has_child", ctx());
      VCHECK(!k->real->has_child(r), "tree.has_child", ctx(), " inverted");
      bool inst = false;
      for (auto& b : n->kids)
        inst |= b->name.size() > k->name.size() + 1 && b->name.compare(0, k->name.size() + 1, k->name + ".") == 0;
      VCHECK(r.is_root_instance(*k->real) == inst, "tree.is_root_instance", ctx(), " child ", k->name);
      compare(k.get(), hist);
    }
    VCHECK(!r.find_child("no such") && !r.find_child("no such/x"), "tree.find_child", ctx(), " unknown name found");
  }
  void settle(const std::string& hist)
  {
    auto a = got, b = want;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    std::string diff;
    if (a != b)
    {
      std::vector<std::string> x, y;
      std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x));
      std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(y));
      for (auto& s : x)
        diff += " unexpected{" + s + "}";
      for (auto& s : y)
        diff += " missing{" + s + "}";
    }
    VCHECK(a == b, "tree.notifications", "events", diff, " in", hist.size() > 300 ? hist.substr(hist.size() - 300) : hist);
    // a node is announced as removed after its descendants
    for (size_t i = 0; i < got.size(); i++)
      if (got[i].rfind("removing ", 0) == 0)
      {
        auto pre = got[i] + "/";
        for (size_t j = i + 1; j < got.size(); j++)
          VCHECK(got[j].rfind(pre, 0) != 0, "tree.removal_order", got[j], " comes after ", got[i]);
      }
    M.seen(vp::hash_str(vp::str(a.size(), a.empty() ? "" : a[0])));
    got.clear();
    want.clear();
  }
};

static std::string some_name(bool clean_only = false)
{
  static const std::vector<std::string> base{"a", "b", "foo", "bar", "A", "a.1", "a.2", "foo.1", "foo.3", "foo.10", "foo.bar", "foo.bar.1", "x y", "a-b", "v(1)", "a=b", "a:b", "~t", "foo.01", "foo.1.2"};
  static const std::vector<std::string> odd{"a/b", "é", "a*", "a?b", "[x]", "{a,b}", "a!", "a,b", "a\nb", "foo.2147483647", "foo.2147483646", "foo.-3", "a.", ".a", ".5", "foo.99999999999", "a\"b", "a\\b", "foo.+4", "a#b", "q\x01z", "@", "a.2147483647"};
  int k = M.r.i(0, 9);
  if (k < 7 || clean_only)
    return M.r.pick(base);
  if (k < 9)
    return M.r.pick(odd);
  std::string s;
  int n = M.r.i(1, 6);
  for (int i = 0; i < n; i++)
    s += char(M.r.i(1, 255));
  return s;
}
static bool addressable(const std::string& n) { return !n.empty() && n.find('/') == n.npos; }

// every character
VP_SECTION(names)
{
  M.at("names", "character classes");
  for (int c = 0; c < 256; c++)
  {
    char ch = char(c);
    bool d = c && dev_chars.find(ch) != dev_chars.npos, n = c && name_chars.find(ch) != name_chars.npos;
    VCHECK(net::is_valid_character_for_device(ch) == d, "names.device_char", "char ", c);
    VCHECK(net::is_valid_character_for_name(ch) == n, "names.name_char", "char ", c);
    std::string s(1, ch), t(1, ch), u(1, ch);
    net::sanitize_name(s);
    net::sanitize_device_name(t);
    VCHECK(s == (n ? u : "_"s), "names.sanitize", "char ", c);
    VCHECK(t == (d ? u : "_"s), "names.sanitize_device", "char ", c);
  }
  // the character sets used to build patterns agree with the validation
  auto expand = [](std::string_view v) {
    std::set<char> s;
    for (size_t i = 0; i < v.size(); i++)
    {
      if (i + 2 < v.size() && v[i + 1] == '-')
      {
        for (int c = (unsigned char)v[i]; c <= (unsigned char)v[i + 2]; c++)
          s.insert(char(c));
        i += 2;
      }
      else
        s.insert(v[i]);
    }
    return s;
  };
  std::set<char> dc(dev_chars.begin(), dev_chars.end()), nc(name_chars.begin(), name_chars.end()), pc = nc, ni = nc;
  pc.insert('/');
  ni.erase('.');
  VCHECK(expand(net::device_characters()) == dc, "names.set", "device_characters");
  VCHECK(expand(net::name_characters()) == nc, "names.set", "name_characters");
  VCHECK(expand(net::path_characters()) == pc, "names.set", "path_characters");
  VCHECK(expand(net::name_characters_no_instance()) == ni, "names.set", "name_characters_no_instance");
  for (int i = 0, N = M.n(3000, 60000); i < N; i++)
  {
    auto s = some_name();
    M.at("names.strings", s);
    auto c = clean(s);
    std::string l = s;
    VCHECK(&net::sanitize_name(l) == &l && l == c, "names.sanitize", s, " -> ", l);
    VCHECK(net::sanitize_name((const std::string&)s) == c, "names.sanitize", s, " (copy)");
    VCHECK(net::sanitize_name(std::string(s)) == c, "names.sanitize", s, " (move)");
    VCHECK(net::sanitize_name(s.c_str()) == c, "names.sanitize", s, " (char*)");
    VCHECK(net::sanitize_name((const std::string&)c) == c, "names.idempotent", s);
    std::string dn = s;
    net::sanitize_device_name(dn);
    VCHECK(dn == clean(s, dev_chars), "names.sanitize_device", s);
    std::vector<std::string> bros;
    for (int k = M.r.i(0, 12); k-- > 0;)
    {
      auto b = fresh(some_name(), bros);
      bros.push_back(b);
    }
    auto ask = M.r.b() && !bros.empty() ? M.r.pick(bros) : some_name();
    std::string all;
    for (auto& b : bros)
      all += " '" + b + "'";
    M.at("names.fresh", vp::str(ask, " in ", all));
    auto got = net::sanitize_name(ask, bros);
    VCHECK(got == fresh(ask, bros), "names.fresh", ask, " among", all, " gives ", got, " expected ", fresh(ask, bros));
    VCHECK(std::find(bros.begin(), bros.end(), got) == bros.end(), "names.unique", ask, " among", all, " gives ", got);
    M.seen(vp::hash_str(all + "|" + ask));
  }
}

// random histories on a device
VP_SECTION(histories)
{
  for (int it = 0, N = M.n(60, 1500); it < N; it++)
  {
    auto w = std::make_unique<world>(M.r.b() ? "dev" : "my dev.1");
    std::string hist;
    for (int op = 0, K = M.r.i(5, 60); op < K; op++)
    {
      M.at("tree.history", vp::str("it ", it, hist.size() > 700 ? hist.substr(hist.size() - 700) : hist));
      auto n = w->any();
      auto& r = *n->real;
      switch (M.r.i(0, 15))
      {
        case 0:
        case 1:
        case 2:
        {
          auto s = some_name();
          auto e = fresh(s, n->names());
          hist += " create(" + n->addr() + "," + s + ")";
          auto c = r.create_child(s);
          VCHECK(c && c->get_name() == e, "tree.create_child", hist, " gives ", c ? c->get_name() : "null", " expected ", e);
          w->add(n, e, c);
          w->want.push_back("created " + n->kids.back()->addr());
          break;
        }
        case 3: // add_child: refused when the name is not usable as it is
        {
          auto s = some_name();
          bool ok = fresh(s, n->names()) == s;
          hist += " add(" + n->addr() + "," + s + ")";
          auto c = std::make_unique<net::generic_node>(s, w->dev, r);
          auto raw = c.get();
          auto got = r.add_child(std::move(c));
          VCHECK((got != nullptr) == ok && (!got || got == raw), "tree.add_child", hist, ok ? " refused" : " accepted");
          if (ok)
          {
            w->add(n, s, raw);
            w->want.push_back("created " + n->kids.back()->addr());
          }
          VCHECK(!r.add_child(nullptr), "tree.add_child", "null child");
          break;
        }
        case 4:
        {
          bool exist = !n->kids.empty() && M.r.b(3, 4);
          auto s = exist ? M.r.pick(n->kids)->name : some_name();
          auto k = n->find(clean(s));
          hist += " remove(" + n->addr() + "," + s + ")";
          if (k)
          {
            w->want_removed(k);
          }
          VCHECK(r.remove_child(s) == (k != nullptr), "tree.remove_child", hist);
          if (k)
            w->drop(k);
          break;
        }
        case 5:
        {
          auto v = w->any();
          bool mine = v->parent == n;
          hist += " remove(" + n->addr() + ",&" + v->addr() + ")";
          if (mine)
            w->want_removed(v);
          VCHECK(r.remove_child(*v->real) == mine, "tree.remove_child_node", hist);
          if (mine)
            w->drop(v);
          break;
        }
        case 6:
          if (M.r.b(1, 4))
          {
            hist += " clear(" + n->addr() + ")";
            for (auto& k : n->kids)
              w->want_removed(k.get());
            r.clear_children();
            n->kids.clear();
          }
          break;
        case 7:
        {
          auto s = some_name();
          hist += " rename(" + n->addr() + "," + s + ")";
          std::string e;
          if (n->parent)
          {
            std::vector<std::string> bros;
            for (auto& k : n->parent->kids)
              if (k.get() != n)
                bros.push_back(k->name);
            e = fresh(s, bros);
          }
          else
            e = clean(s);
          auto old = n->name;
          n->name = e;
          w->want.push_back("renamed " + n->addr() + " was " + old);
          auto& ret = r.set_name(s);
          VCHECK(&ret == &r && r.get_name() == e, "tree.set_name", hist, " gives ", r.get_name(), " expected ", e);
          break;
        }
        case 8:
        case 9:
        {
          static const ossia::val_type types[]{ossia::val_type::FLOAT, ossia::val_type::INT, ossia::val_type::STRING, ossia::val_type::BOOL, ossia::val_type::IMPULSE, ossia::val_type::LIST, ossia::val_type::VEC3F, ossia::val_type::CHAR};
          auto t = M.r.pick(types);
          hist += " param(" + n->addr() + ")";
          if (n->type < 0)
            w->want.push_back("+param " + n->addr());
          n->type = int(t);
          auto p = r.create_parameter(t);
          VCHECK(p && p == r.get_parameter(), "tree.create_parameter", hist);
          break;
        }
        case 10:
          hist += " remove_param(" + n->addr() + ")";
          if (n->type >= 0)
            w->want.push_back("-param " + n->addr());
          VCHECK(r.remove_parameter() == (n->type >= 0), "tree.remove_parameter", hist);
          n->type = -1;
          break;
        case 11: // a parameter made elsewhere
        {
          hist += " set_param(" + n->addr() + ")";
          if (n->type >= 0)
            w->want.push_back("-param " + n->addr());
          auto p = std::make_unique<net::generic_parameter>(r);
          auto raw = p.get();
          n->type = int(raw->get_value_type());
          w->want.push_back("+param " + n->addr());
          r.set_parameter(std::move(p));
          VCHECK(r.get_parameter() == raw, "tree.set_parameter", hist);
          break;
        }
        case 12: // find_or_create_node / create_node with addresses
        case 13:
        {
          std::string a;
          std::vector<std::string> parts;
          for (int k = M.r.i(1, 4); k-- > 0;)
          {
            auto s = some_name(M.r.b(3, 4));
            if (!addressable(s))
              s = "z";
            parts.push_back(s);
          }
          for (auto& s : parts)
            a += (a.empty() ? "" : "/") + s;
          bool create = M.r.b();
          std::string deco = (M.r.b() ? "/" : "") + a + (M.r.b(1, 4) ? "/" : "");
          hist += (create ? " create_node(" : " find_or_create(") + n->addr() + "," + deco + ")";
          auto cur = n;
          std::vector<mnode*> fresh_nodes;
          for (size_t k = 0; k < parts.size(); k++)
          {
            bool last = k + 1 == parts.size();
            auto f = cur->find(parts[k]);
            if (f && !(create && last))
            {
              cur = f;
              continue;
            }
            cur = w->add(cur, fresh(parts[k], cur->names()), nullptr);
            w->want.push_back("created " + cur->addr());
            fresh_nodes.push_back(cur);
          }
          net::node_base* res{};
          switch (M.r.i(0, 1))
          {
            case 0:
              res = create ? &net::create_node(r, deco) : &net::find_or_create_node(r, deco);
              break;
            case 1: // third argument: only look
              if (create)
                res = net::find_or_create_node(r, deco, false);
              else
              {
                auto found = net::find_or_create_node(r, deco, true);
                VCHECK((found != nullptr) == fresh_nodes.empty() && (!found || found == cur->real), "tree.find_only", hist);
                res = &net::find_or_create_node(r, deco);
              }
              break;
          }
          // bind the new nodes
          std::vector<net::node_base*> chain;
          for (auto x = res; x; x = x->get_parent())
            chain.push_back(x);
          size_t ci = 0;
          for (auto m = cur; m; m = m->parent, ci++)
            if (!m->real && ci < chain.size())
            {
              m->real = chain[ci];
              m->real->about_to_be_deleted.connect<&world::dying>(*w);
            }
          VCHECK(res == cur->real && ci == chain.size(), "tree.create_node", hist, " gives ", res ? net::address_string_from_node(*res) : "null", " expected ", cur->addr());
          break;
        }
        case 14: // lookups
        {
          auto v = w->any();
          // from an ancestor
          auto up = v;
          std::string path;
          bool ok = true;
          while (up->parent && (path.empty() || M.r.b(2, 3)))
          {
            ok &= addressable(up->name);
            path = path.empty() ? up->name : up->name + "/" + path;
            up = up->parent;
          }
          if (ok && !path.empty())
          {
            hist += " find(" + up->addr() + "," + path + ")";
            for (auto& dec : {path, "/" + path, path + "/", "//" + path + "//"})
              VCHECK(net::find_node(*up->real, dec) == v->real, "tree.find_node", hist, " as ", dec);
            VCHECK(net::find_node(*up->real, path + "/nope") == nullptr && net::find_node(*up->real, "nope/" + path) == nullptr, "tree.find_node", hist, " unknown");
            VCHECK(&net::find_or_create_node(*up->real, path) == v->real, "tree.find_or_create_node", hist, " existing node");
            VCHECK(net::relative_address_string_from_nodes(*v->real, *up->real) == path, "tree.relative_address", hist, " gives ", net::relative_address_string_from_nodes(*v->real, *up->real));
          }
          VCHECK(net::find_node(*v->real, "") == v->real && net::find_node(*v->real, "/") == v->real && &net::find_or_create_node(*v->real, "/") == v->real, "tree.find_node", "empty address");
          // not an ancestor: the name
          auto o = w->any();
          bool anc = false;
          for (auto x = v->parent; x; x = x->parent)
            anc |= x == o;
          if (!anc && o != v)
            VCHECK(net::relative_address_string_from_nodes(*v->real, *o->real) == v->name, "tree.relative_address", v->addr(), " from ", o->addr(), " gives ", net::relative_address_string_from_nodes(*v->real, *o->real));
          break;
        }
        case 15:
          n->prio = M.r.i(-2, 2);
          net::set_priority(r, *n->prio);
          hist += " prio(" + n->addr() + ")";
          break;
      }
      w->settle(hist);
      if (op % 8 == 7 || op + 1 == K)
        w->compare(&w->root, hist);
    }
    // the whole device disappears: every node and parameter is announced dead once
    bool explicit_clear = M.r.b();
    M.at("tree.destroy", hist.size() > 700 ? hist.substr(hist.size() - 700) : hist);
    if (explicit_clear)
    {
      for (auto& k : w->root.kids)
        w->want_removed(k.get());
      w->dev.get_root_node().clear_children();
      w->root.kids.clear();
      w->settle(hist + " clear all");
      w->compare(&w->root, hist);
    }
    M.sample(hist.substr(0, 300));
    M.alive();
  }
}

// a device whose signals outlive it: each node dies exactly once
struct death_watch
{
  std::map<std::string, int> dead, params;
  void node(const net::node_base& n) { dead[n.get_name()]++; }
  void param(const net::parameter_base& p) { params[p.get_node().get_name()]++; }
};
VP_SECTION(destruction)
{
  for (int it = 0, N = M.n(200, 4000); it < N; it++)
  {
    death_watch dw;
    int nodes = M.r.i(1, 30), params = 0;
    M.at("tree.destruction", vp::str(it));
    {
      net::generic_device d{"d"};
      d.on_parameter_removing.connect<&death_watch::param>(dw);
      std::vector<net::node_base*> v{&d.get_root_node()};
      std::vector<std::string> withp;
      for (int i = 0; i < nodes; i++)
      {
        auto c = M.r.pick(v)->create_child("n" + std::to_string(i));
        c->about_to_be_deleted.connect<&death_watch::node>(dw);
        if (M.r.b())
        {
          c->create_parameter(ossia::val_type::INT);
          params++;
        }
        v.push_back(c);
      }
    }
    int dead = 0, pd = 0;
    bool once = true;
    for (auto& [k, c] : dw.dead)
    {
      dead++;
      once &= c == 1;
    }
    for (auto& [k, c] : dw.params)
    {
      pd++;
      once &= c == 1;
    }
    VCHECK(dead == nodes && pd == params && once, "tree.destruction", nodes, " nodes ", dead, " announced, ", params, " parameters ", pd, " announced", once ? "" : ", some more than once");
  }
}

// addresses
VP_SECTION(addresses)
{
  for (int it = 0, N = M.n(4000, 80000); it < N; it++)
  {
    std::vector<std::string> parts;
    std::string a;
    int n = M.r.i(1, 6);
    for (int i = 0; i < n; i++)
    {
      std::string s;
      for (int k = M.r.i(1, 5); k-- > 0;)
        s += M.r.b(7, 8) ? M.r.pick(name_chars) : M.r.pick("*?[]{}!,;\\"s);
      parts.push_back(s);
      a += (i ? "/" : "") + s;
    }
    std::string dec = (M.r.b() ? "/" : "") + a + (M.r.b() ? "/" : "");
    M.at("address.parts", dec);
    VCHECK(net::address_parts(dec) == parts, "address.parts", dec);
    std::string dn;
    for (int k = M.r.i(1, 5); k-- > 0;)
      dn += M.r.pick(dev_chars);
    VCHECK(net::get_address_scope("/" + a) == net::address_scope::absolute, "address.scope", "/", a);
    VCHECK(net::get_address_scope("//" + a) == net::address_scope::relative, "address.scope", "//", a);
    VCHECK(net::get_address_scope(dn + ":/" + a) == net::address_scope::global, "address.scope", dn, ":/", a);
    VCHECK(net::get_address_scope(dn + "://" + a) == net::address_scope::global, "address.scope", dn, "://", a);
    if (parts[0].back() != ':')
      VCHECK(net::get_address_scope(a) == net::address_scope::relative, "address.scope", a);
    M.seen(vp::hash_str(dec));
  }
  VCHECK(net::address_parts("").empty(), "address.parts", "empty");
  VCHECK(net::get_address_scope("") == net::address_scope::relative, "address.scope", "empty");
  VCHECK(net::get_address_scope("/") == net::address_scope::absolute, "address.scope", "/");
  // braces
  for (int it = 0, N = M.n(4000, 80000); it < N; it++)
  {
    std::string s;
    for (int k = M.r.i(0, 12); k-- > 0;)
      s += M.r.pick("{}[],ab/"s);
    int br = 0, ar = 0;
    bool any = false, ok = true;
    for (char c : s)
    {
      any |= c == '{' || c == '[';
      br += (c == '{') - (c == '}');
      ar += (c == '[') - (c == ']');
      ok &= br >= 0 && ar >= 0;
    }
    VCHECK(net::is_brace_expansion(s) == (ok && any && !br && !ar), "address.is_brace_expansion", s);
    M.seen(vp::hash_str(s, 3));
  }
}

// listing
VP_SECTION(listing)
{
  for (int it = 0, N = M.n(120, 2500); it < N; it++)
  {
    world w{"d"};
    int nodes = M.r.i(1, 40);
    for (int i = 0; i < nodes; i++)
    {
      auto p = w.any();
      std::string s;
      switch (M.r.i(0, 4))
      {
        case 0: s = "foo." + std::to_string(M.r.i(0, 120)); break;
        case 1: s = "Bar." + std::to_string(M.r.i(0, 30)); break;
        case 2: s = std::string(1, M.r.pick("abcABC"s)) + std::string(1, M.r.pick("xyXY1"s)); break;
        case 3: s = "foo." + std::string(M.r.i(1, 3), '0') + std::to_string(M.r.i(0, 12)); break;
        case 4: s = "foo.99999999999999999999" + std::to_string(M.r.i(0, 9)); break;
      }
      auto e = fresh(s, p->names());
      auto c = p->real->create_child(s);
      auto m = w.add(p, e, c);
      if (M.r.b(1, 3))
      {
        m->prio = M.r.i(-2, 3);
        net::set_priority(*c, *m->prio);
      }
    }
    M.at("listing", vp::str(it));
    std::function<void(mnode*, int, int, std::vector<std::pair<mnode*, int>>&)> flat = [&](mnode* n, int d, int max, auto& out) {
      for (auto& k : n->kids)
      {
        out.push_back({k.get(), d});
        if (max == 0 || d < max)
          flat(k.get(), d + 1, max, out);
      }
    };
    for (int depth : {0, 1, 2, 3, 10})
    {
      auto from = M.r.b() ? &w.root : w.any();
      std::vector<std::pair<mnode*, int>> exp;
      flat(from, 1, depth, exp);
      auto got = net::list_all_children(from->real, depth);
      std::set<net::node_base*> gs(got.begin(), got.end()), es;
      for (auto& [m, d] : exp)
        es.insert(m->real);
      VCHECK(gs == es && got.size() == exp.size(), "listing.complete", "depth ", depth, " lists ", got.size(), " nodes, expected ", exp.size());
      // order: parents first, subtrees contiguous; siblings by priority, then name, then number
      std::map<net::node_base*, size_t> pos;
      for (size_t i = 0; i < got.size(); i++)
        pos[got[i]] = i;
      auto key = [](const std::string& nm) {
        std::string s = nm;
        for (auto& c : s)
          c = std::tolower((unsigned char)c);
        auto p = s.find('.');
        std::string num = p == s.npos ? "" : s.substr(p + 1);
        num = num.substr(0, num.find_first_not_of("0123456789"));
        num.erase(0, std::min(num.find_first_not_of('0'), num.empty() ? 0 : num.size() - 1));
        return std::make_tuple(s.substr(0, p), num.size(), num);
      };
      for (auto& [m, d] : exp)
      {
        if (m->parent != from)
          VCHECK(pos[m->parent->real] < pos[m->real], "listing.parent_first", m->addr());
        for (auto& b : m->parent->kids)
        {
          if (b.get() == m)
            continue;
          auto km = key(m->name), kb = key(b->name);
          if (m->prio && !b->prio && *m->prio <= 0) // none against a low one: not specified
            continue;
          if (!m->prio && b->prio)
            continue;
          bool before = m->prio != b->prio ? m->prio > b->prio : km < kb;
          if (before)
            VCHECK(pos[m->real] < pos[b->real], "listing.order", m->addr(), " (priority ", m->prio.value_or(0), ") listed after ", b->addr(), " (priority ", b->prio.value_or(0), ")");
        }
        // contiguous subtree
        std::vector<mnode*> sub;
        m->all(sub);
        size_t cnt = 0, mx = pos[m->real];
        for (auto s : sub)
          if (gs.count(s->real))
          {
            cnt++;
            mx = std::max(mx, pos[s->real]);
          }
        VCHECK(mx == pos[m->real] + cnt, "listing.contiguous", m->addr());
      }
      M.seen(vp::mix(got.size(), depth));
    }
    // search: every node once, best first, the node's own address is a perfect match
    std::vector<net::fuzzysearch_result> res;
    auto v = w.any();
    std::vector<std::string> pats{v->wd()};
    net::fuzzysearch({&w.dev.get_root_node()}, pats, res);
    std::set<net::node_base*> rs;
    bool sorted = true, addr = true;
    for (size_t i = 0; i < res.size(); i++)
    {
      rs.insert(res[i].node);
      sorted &= i == 0 || res[i - 1].score >= res[i].score;
      addr &= res[i].oscname == net::osc_parameter_string_with_device(*res[i].node);
    }
    std::vector<mnode*> all;
    w.root.all(all);
    VCHECK(rs.size() == all.size() && res.size() == all.size() && sorted && addr, "search.results", res.size(), " results for ", all.size(), " nodes", sorted ? "" : ", not sorted");
    if (v->parent)
      for (auto& r : res)
        if (r.node == v->real)
          VCHECK(r.score > 99.99, "search.self", v->wd(), " scores ", r.score);
  }
}

// a device which does not let its tree change
struct frozen_device final : net::device_base, net::generic_node
{
  frozen_device() : device_base{std::make_unique<net::multiplex_protocol>()}, generic_node{"frozen", *this}
  {
    m_capabilities.change_tree = true;
    m_protocol->set_device(*this);
  }
  ~frozen_device()
  {
    m_capabilities.change_tree = true;
    m_children.clear();
    remove_parameter();
    m_protocol.reset();
  }
  const net::node_base& get_root_node() const override { return *this; }
  net::node_base& get_root_node() override { return *this; }
  void freeze(bool b) { m_capabilities.change_tree = !b; }
  using generic_node::get_name;
  using generic_node::set_name;
};
VP_SECTION(frozen)
{
  M.at("tree.frozen", "change_tree off");
  frozen_device d;
  auto& r = d.get_root_node();
  auto a = r.create_child("a");
  auto b = a->create_child("b");
  d.freeze(true);
  auto intact = [&] { return r.children_copy() == std::vector<net::node_base*>{a} && a->children_copy() == std::vector<net::node_base*>{b}; };
  VCHECK(!r.create_child("c") && intact(), "frozen.create_child", "a node was created");
  VCHECK(!a->add_child(std::make_unique<net::generic_node>("c", d, *a)) && intact(), "frozen.add_child", "a node was added");
  VCHECK(!r.remove_child("a") && intact(), "frozen.remove_child", "a node was removed");
  VCHECK(!r.remove_child(*a) && intact(), "frozen.remove_child", "a node was removed");
  a->clear_children();
  r.clear_children();
  VCHECK(intact(), "frozen.clear_children", "nodes were removed");
  VCHECK(vp::throws([&] { net::create_node(r, "x"); }) && intact(), "frozen.create_node", "no exception");
  VCHECK(vp::throws([&] { net::create_node(r, "a/x"); }) && intact(), "frozen.create_node", "no exception (a/x)");
  VCHECK(vp::throws([&] { net::create_node(r, "x/y"); }) && intact(), "frozen.create_node", "no exception (x/y)");
  VCHECK(vp::throws([&] { net::find_or_create_node(r, "x"); }) && intact(), "frozen.find_or_create_node", "no exception");
  VCHECK(vp::throws([&] { net::find_or_create_node(r, "x/y"); }) && intact(), "frozen.find_or_create_node", "no exception (x/y)");
  VCHECK(&net::find_or_create_node(r, "/a/b") == b && net::find_node(r, "a") == a, "frozen.find", "existing node");
}

// typed helpers
struct my_param : net::generic_parameter
{
  using generic_parameter::generic_parameter;
};
VP_SECTION(helpers)
{
  for (int it = 0; it < M.n(200, 1000); it++)
  {
    M.at("tree.helpers", vp::str(it));
    net::generic_device d{"d"};
    auto& r = d.get_root_node();
    auto p = net::create_parameter<my_param>(r, "/x/y");
    VCHECK(p && p == r.find_child("x")->find_child("y")->get_parameter(), "helpers.create_parameter", "x/y");
    auto q = net::find_or_create_parameter<my_param>(r, "/x/y");
    VCHECK(q == p, "helpers.find_or_create_parameter", "existing");
    auto q2 = net::find_or_create_parameter<my_param>(r, "/x/z");
    VCHECK(q2 && &q2->get_node() == net::find_node(r, "x/z"), "helpers.find_or_create_parameter", "new");
    // a parameter of another class is replaced
    auto n = r.create_child("w");
    n->create_parameter(ossia::val_type::INT);
    auto q3 = net::find_or_create_parameter<my_param>(r, "w");
    VCHECK(q3 && n->get_parameter() == q3, "helpers.find_or_create_parameter", "other class");
    auto p2 = net::create_parameter<my_param>(r, "/x/y");
    VCHECK(p2 != p && p2->get_node().get_name() == "y.1", "helpers.create_parameter", "second instance is ", p2->get_node().get_name());
  }
}

// concurrent structure changes: names stay unique, nothing is lost
struct counter_watch
{
  std::atomic<int> c{}, r{};
  void created(net::node_base&) { c++; }
  void removing(net::node_base&) { r++; }
};
VP_SECTION(mt_structure)
{
  for (int it = 0, N = M.n(15, 150); it < N; it++)
  {
    M.at("tree.mt", vp::str(it));
    counter_watch cw;
    net::generic_device d{"d"};
    d.on_node_created.connect<&counter_watch::created>(cw);
    d.on_node_removing.connect<&counter_watch::removing>(cw);
    auto& r = d.get_root_node();
    std::vector<std::thread> th;
    std::atomic<int> made{}, dropped{}, bad{};
    for (int t = 0; t < 4; t++)
    {
      uint64_t s = M.r.next();
      th.emplace_back([&, s, t] {
        vp::rng g{s};
        std::vector<net::node_base*> mine;
        for (int i = 0; i < 60; i++)
        {
          switch (g.i(0, 6))
          {
            case 0:
            case 1:
              if (auto c = r.create_child("foo"))
              {
                made++;
                mine.push_back(c);
              }
              break;
            case 2:
            {
              auto c = std::make_unique<net::generic_node>("foo." + std::to_string(g.i(1, 200)), d, r);
              if (auto p = r.add_child(std::move(c)))
              {
                made++;
                mine.push_back(p);
              }
              break;
            }
            case 3:
              if (!mine.empty() && g.b())
              {
                auto n = mine.back();
                mine.pop_back();
                if (!r.remove_child(*n))
                  bad++;
                dropped++;
              }
              break;
            case 4:
            {
              auto v = r.children_names();
              if (std::set<std::string>(v.begin(), v.end()).size() != v.size())
                bad++;
              break;
            }
            case 5:
              if (!mine.empty())
              {
                auto n = g.pick(mine);
                if (r.find_child(n->get_name()) != n || !r.has_child(*n))
                  bad++;
              }
              break;
            case 6:
              if (!mine.empty())
              {
                if (auto c = g.pick(mine)->create_child("sub"))
                  c->create_parameter(ossia::val_type::FLOAT);
              }
              break;
          }
        }
      });
    }
    for (auto& t : th)
      t.join();
    auto v = r.children_names();
    VCHECK(std::set<std::string>(v.begin(), v.end()).size() == v.size(), "tree.mt_unique", v.size(), " children");
    VCHECK(int(v.size()) == made - dropped, "tree.mt_conserved", v.size(), " children, ", made - dropped, " expected");
    VCHECK(bad == 0, "tree.mt_lookup", bad.load(), " inconsistent observations");
    VCHECK(cw.c >= made && cw.r >= dropped, "tree.mt_notified", cw.c.load(), " / ", made.load());
    M.seen(vp::mix(v.size(), made));
  }
}
VP_MAIN
