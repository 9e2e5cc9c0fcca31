// Presets: saving the values of a tree and restoring them.
#include "oscq.hpp"
#include <ossia-c/ossia/ossia_utils.hpp>
#include <ossia-c/preset/preset.h>
#include <ossia-c/preset/result.h>
#include <ossia/network/base/name_validation.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/preset/preset.hpp>
#include <fstream>
#include <regex>
using vp::M;
namespace ps = ossia::presets;

// what reached the network
struct spy final : ossia::net::protocol_base
{
  std::vector<std::pair<const parameter_base*, mv::val>> pushed;
  spy() : protocol_base{flags{}} { }
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base& p, const ossia::value& v) override
  {
    pushed.push_back({&p, mv::from(v)});
    return true;
  }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(node_base&) override { return false; }
};

struct tree
{
  spy* proto = new spy;
  generic_device dev;
  struct item
  {
    node_base* n{};
    std::string path; // "/a/b"
    parameter_base* p{};
    val_type t{};
    bool safe{}, anc_safe{};
    float prio{};
  };
  std::vector<item> all;
  explicit tree(const std::string& n = "dev") : dev{std::unique_ptr<protocol_base>(proto), n} { }
  item& at(const std::string& path)
  {
    for (auto& i : all)
      if (i.path == path)
        return i;
    std::abort();
  }
};

static const std::vector<val_type> types{val_type::INT,   val_type::FLOAT, val_type::BOOL,  val_type::CHAR, val_type::STRING, val_type::VEC2F,
                                         val_type::VEC3F, val_type::VEC4F, val_type::LIST,  val_type::IMPULSE};

static mv::val value_of(val_type t, int depth = 0, bool textual = false)
{
  auto& r = M.r;
  if (t == val_type::LIST)
  {
    static const std::vector<val_type> el{val_type::INT,   val_type::FLOAT, val_type::BOOL,  val_type::CHAR, val_type::STRING,
                                          val_type::VEC2F, val_type::VEC3F, val_type::VEC4F, val_type::FLOAT};
    mv::list l;
    for (int n = r.i(0, 5); n > 0; n--)
      if (depth < 2 && r.i(0, 4) == 0)
        l.push_back(value_of(t, depth + 1, textual));
      else
        l.push_back(value_of(r.pick(el), depth + 1, textual));
    return {l};
  }
  if (t == val_type::STRING && textual)
  {
    std::string s;
    for (int n = r.i(0, 6); n > 0; n--)
      s += r.pick(std::vector<std::string>{"a", "B", " ", "\"", "\\", ",", "[", "]", "/", "\t", "\n", "int: 3"});
    return {s};
  }
  if (t == val_type::STRING && r.i(0, 6) == 0)
    return {text(3) + std::string(1, '\0') + text(3)};
  return gen_value(t);
}

// JSON has neither characters nor vectors: what a value reads back as inside a list
static mv::val canon(const mv::val& v, bool top = true)
{
  auto vec = [](auto& a) {
    mv::list l;
    for (float f : a)
      l.push_back({f});
    return mv::val{l};
  };
  if (!top)
  {
    if (auto c = std::get_if<char>(&v.v))
      return {std::string(1, *c)};
    if (auto p = std::get_if<mv::v2>(&v.v))
      return vec(*p);
    if (auto p = std::get_if<mv::v3>(&v.v))
      return vec(*p);
    if (auto p = std::get_if<mv::v4>(&v.v))
      return vec(*p);
  }
  if (auto l = std::get_if<mv::list>(&v.v))
  {
    mv::list o;
    for (auto& e : *l)
      o.push_back(canon(e, false));
    return {o};
  }
  return v;
}
static bool near(const mv::val& a, const mv::val& b)
{
  if (a.v.index() != b.v.index())
    return false;
  auto fc = [](float x, float y) { return x == y || std::abs(x - y) <= 4e-7f * std::max(std::abs(x), std::abs(y)) + 1e-38f; };
  if (auto p = std::get_if<float>(&a.v))
    return fc(*p, std::get<float>(b.v));
  auto arr = [&](auto& x, auto& y) {
    for (size_t i = 0; i < x.size(); i++)
      if (!fc(x[i], y[i]))
        return false;
    return true;
  };
  if (auto p = std::get_if<mv::v2>(&a.v))
    return arr(*p, std::get<mv::v2>(b.v));
  if (auto p = std::get_if<mv::v3>(&a.v))
    return arr(*p, std::get<mv::v3>(b.v));
  if (auto p = std::get_if<mv::v4>(&a.v))
    return arr(*p, std::get<mv::v4>(b.v));
  if (auto p = std::get_if<mv::list>(&a.v))
  {
    auto& q = std::get<mv::list>(b.v);
    return p->size() == q.size() && std::equal(p->begin(), p->end(), q.begin(), near);
  }
  return mv::same(a, mv::mk(b));
}

struct tshape
{
  int maxdepth = 4, width = 5;
  bool attributes = true;   // access modes, recall safe, priorities
  bool leaves_only = false; // parameters on leaves only
  bool textual = false;     // values and names of the text format
  bool dots = true;
  bool impulses = true;
};
static void grow(tree& t, node_base& at, const std::string& path, int depth, bool anc_safe, const tshape& s)
{
  auto& r = M.r;
  static const std::vector<std::string> names{"foo", "bar", "Level", "x", "trk", "r-_", "0", "main~", "CONTENTS", "int"};
  static const std::vector<std::string> dotted{"foo.1", "foo.10", "bar.2", "bar", "x.0.1", "trk.12", "foo", "Level.3"};
  int n = r.i(depth == 0 ? 1 : 0, s.width);
  for (int i = 0; i < n; i++)
  {
    std::string want = s.dots && r.b() ? r.pick(dotted) : r.pick(names) + std::to_string(r.i(0, 9));
    if (at.find_child(want))
      continue;
    auto c = at.create_child(want);
    if (!c)
      continue;
    tree::item it;
    it.n = c;
    it.path = path + "/" + c->get_name();
    it.anc_safe = anc_safe;
    bool inner = depth + 1 < s.maxdepth && r.b();
    if (s.attributes)
    {
      if (r.i(0, 7) == 0)
      {
        set_recall_safe(*c, true);
        it.safe = true;
      }
      if (r.b())
      {
        it.prio = (float)r.i(-3, 5);
        set_priority(*c, it.prio);
      }
    }
    size_t before = t.all.size();
    t.all.push_back(it);
    if (inner)
      grow(t, *c, it.path, depth + 1, anc_safe || it.safe, s);
    bool leaf = t.all.size() == before + 1;
    if (leaf ? r.i(0, 9) != 0 : (!s.leaves_only && r.i(0, 3) == 0))
    {
      auto& me = t.all[before];
      do
        me.t = r.pick(types);
      while (!s.impulses && me.t == val_type::IMPULSE);
      me.p = c->create_parameter(me.t);
      if (s.attributes && r.i(0, 6) == 0)
        me.p->set_access(r.b() ? access_mode::GET : access_mode::SET);
      me.p->set_value(mv::mk(value_of(me.t, 0, s.textual)));
    }
  }
}
static bool saved(const tree::item& i)
{
  return i.p && i.t != val_type::IMPULSE && i.p->get_access() == access_mode::BI;
}
static std::map<std::string, mv::val> values(tree& t)
{
  std::map<std::string, mv::val> m;
  for (auto& i : t.all)
    if (i.p)
      m[i.path] = mv::from(i.p->value());
  return m;
}
static void scramble(tree& t, bool textual = false)
{
  for (auto& i : t.all)
    if (i.p && M.r.i(0, 5))
      i.p->set_value(mv::mk(value_of(i.t, 0, textual)));
  t.proto->pushed.clear();
}
static std::vector<node_base*> called;
static void on_fn(node_base* n) { called.push_back(n); }

static std::vector<int> digest(const std::map<std::string, mv::val>& m)
{
  uint64_t h = 0;
  for (auto& [k, v] : m)
    h = vp::mix(h, vp::hash_str(k + mv::S(v)));
  M.seen(h);
  return {};
}

// ---------------------------------------------------------------- taking a preset
VP_SECTION(taking)
{
  const size_t N = M.n(400);
  for (size_t k = 0; k < N; k++)
  {
    tree t;
    grow(t, t.dev.get_root_node(), "", 0, false, {});
    auto vals = values(t);
    digest(vals);
    node_base* from = &t.dev.get_root_node();
    std::string base;
    if (M.r.i(0, 3) == 0)
    {
      auto& it = M.r.pick(t.all);
      from = it.n;
      base = it.path;
    }
    M.at("preset.make", base);
    auto p = ps::make_preset(*from);
    std::map<std::string, mv::val> exp, got;
    for (auto& i : t.all)
      if (saved(i) && i.path.size() > base.size() && i.path.compare(0, base.size() + 1, base + "/") == 0)
        exp[i.path.substr(base.size())] = vals[i.path];
    for (auto& [key, v] : p)
    {
      VCHECK(got.count(key) == 0, "preset.make.once", key);
      got[key] = mv::from(v);
    }
    for (auto& [key, v] : exp)
      if (VCHECK(got.count(key), "preset.make.complete", key))
        VCHECK(mv::same(got[key], mv::mk(v)), "preset.make.value", key, mv::S(got[key]), " for ", mv::S(v));
    for (auto& [key, v] : got)
      VCHECK(exp.count(key), "preset.make.only", key);
    M.sample(p.empty() ? "" : p[0].first + " " + mv::S(mv::from(p[0].second)));

    // the JSON form holds the same parameters, siblings by decreasing priority
    auto json = ps::make_json_preset(*from);
    rapidjson::Document d;
    d.Parse(json.c_str(), json.size());
    if (!VCHECK(!d.HasParseError() && d.IsObject(), "preset.json.valid", json))
      continue;
    std::set<std::string> in;
    std::function<void(const rapidjson::Value&, const std::string&)> walk = [&](const rapidjson::Value& v, const std::string& path) {
      ossia::net::node_base* last{};
      for (auto m = v.MemberBegin(); m != v.MemberEnd(); ++m)
      {
        std::string full = path + "/" + std::string(m->name.GetString(), m->name.GetStringLength());
        auto& it = t.at(base + full);
        auto pa = last ? get_priority(*last) : std::nullopt, pb = get_priority(*it.n);
        VCHECK(!pa || !pb || *pa >= *pb, "preset.json.priority", full, json);
        if (pb)
          last = it.n;
        if (m->value.IsObject())
          walk(m->value, full);
        else
          VCHECK(in.insert(full).second, "preset.json.once", full);
      }
    };
    walk(d, "");
    for (auto& [key, v] : exp)
      VCHECK(in.count(key), "preset.json.complete", key);
    for (auto& key : in)
      VCHECK(exp.count(key), "preset.json.only", key);
    VCHECK(values(t).size() == vals.size() && t.proto->pushed.empty(), "preset.make.reads-only");
  }
}

// ---------------------------------------------------------------- restoring it from JSON or from text
static void restoring(bool json)
{
  const size_t N = M.n(300);
  tshape s;
  s.textual = !json;
  for (size_t k = 0; k < N; k++)
  {
    tree t;
    grow(t, t.dev.get_root_node(), "", 0, false, s);
    auto vals = values(t);
    digest(vals);
    auto& root = t.dev.get_root_node();
    std::string saved_text = json ? ps::make_json_preset(root) : ps::to_string(ps::make_preset(root));
    M.sample(saved_text);
    scramble(t, !json);
    // the tree may have changed: nodes removed, nodes added
    std::set<std::string> fresh;
    std::vector<std::string> gone;
    if (M.r.b())
    {
      auto it = M.r.pick(t.all);
      auto par = it.n->get_parent();
      gone.push_back(it.path);
      par->remove_child(*it.n);
      for (size_t i = 0; i < t.all.size();)
        if (t.all[i].path == it.path || t.all[i].path.compare(0, it.path.size() + 1, it.path + "/") == 0)
          t.all.erase(t.all.begin() + i);
        else
          i++;
    }
    if (M.r.b())
    {
      tree::item it;
      it.n = root.create_child("fresh");
      it.path = "/fresh";
      it.t = val_type::INT;
      it.p = it.n->create_parameter(val_type::INT);
      it.p->set_value(44);
      fresh.insert(it.path);
      t.all.push_back(it);
    }
    t.proto->pushed.clear();
    auto before = values(t);
    called.clear();
    bool fn = M.r.b();
    M.at(json ? "preset.apply_json" : "preset.apply_text", saved_text);
    if (json)
      VCHECK(ps::apply_json(saved_text, root, fn ? on_fn : nullptr), "preset.json.result", saved_text);
    else
      ps::apply_preset(saved_text, root, fn ? on_fn : nullptr);
    std::map<const parameter_base*, int> np;
    std::vector<const parameter_base*> order;
    for (auto& [p, v] : t.proto->pushed)
    {
      np[p]++;
      order.push_back(p);
    }
    auto after = values(t);
    for (auto& i : t.all)
    {
      if (!i.p)
        continue;
      bool touched = saved(i) && !i.safe && !(json && i.anc_safe) && !fresh.count(i.path);
      if (!json && i.anc_safe && !i.safe)
        continue;
      if (touched)
      {
        bool ok = json ? mv::same(canon(after[i.path]), mv::mk(canon(vals[i.path]))) : near(vals[i.path], after[i.path]);
        VCHECKC(ok, "preset.restored", std::string(json ? "json:" : "text:") + mv::tname(vals[i.path]), i.path, " ", mv::S(vals[i.path]),
                " read back as ", mv::S(after[i.path]), " from ", saved_text);
        VCHECK(np[i.p] == 1, "preset.pushed-once", i.path, " pushed ", np[i.p], " times");
      }
      else
      {
        VCHECK(mv::same(before[i.path], mv::mk(after[i.path])), "preset.left-alone", i.path, i.safe ? " recall safe" : "");
        VCHECK(np[i.p] == 0, "preset.not-pushed", i.path);
      }
    }
    if (fn)
    {
      bool ok = called.size() == order.size();
      for (size_t i = 0; ok && i < order.size(); i++)
        ok = called[i]->get_parameter() == order[i];
      VCHECK(ok, "preset.callback-each", called.size(), " calls for ", order.size(), " values");
    }
    else
      VCHECK(called.empty(), "preset.no-callback");
    // what comes first in priority is restored first
    for (size_t i = 0; json && i + 1 < order.size(); i++)
    {
      auto &a = order[i]->get_node(), &b = order[i + 1]->get_node();
      if (a.get_parent() == b.get_parent())
        VCHECK(!get_priority(a) || !get_priority(b) || *get_priority(a) >= *get_priority(b), "preset.applied-by-priority", a.get_name(),
               " before ", b.get_name());
    }
    for (auto& g : gone)
      VCHECK(!find_node(root, g), "preset.not-recreated", g);
  }
}
VP_SECTION(restore_json) { restoring(true); }
VP_SECTION(restore_text) { restoring(false); }

// a part of a tree, moved to another place
VP_SECTION(subtree)
{
  const size_t N = M.n(200);
  for (size_t k = 0; k < N; k++)
  {
    tree a, b;
    tshape s;
    s.attributes = false;
    grow(a, a.dev.get_root_node(), "", 0, false, s);
    auto& it = M.r.pick(a.all);
    auto& dst = find_or_create_node(b.dev, "/some/where");
    std::vector<std::pair<parameter_base*, mv::val>> exp;
    for (auto& i : a.all)
      if (i.p && i.path.size() > it.path.size() && i.path.compare(0, it.path.size() + 1, it.path + "/") == 0)
      {
        auto& n = find_or_create_node(dst, i.path.substr(it.path.size() + 1));
        auto p = n.create_parameter(i.t);
        if (saved(i))
          exp.push_back({p, mv::from(i.p->value())});
      }
    bool json = M.r.b();
    M.at("preset.subtree", it.path);
    if (json)
      VCHECK(ps::apply_json(ps::make_json_preset(*it.n), dst), "preset.json.result");
    else
    {
      // the structured form as well
      for (auto& [key, v] : ps::make_preset(*it.n))
      {
        auto n = find_node(dst, key);
        bool ok = n && n->get_parameter();
        VCHECK(ok, "preset.subtree.path", key);
        if (ok)
          n->get_parameter()->push_value(v);
      }
    }
    for (auto& e : exp)
    {
      auto now = mv::from(e.first->value());
      auto path = osc_parameter_string(e.first->get_node());
      std::string d = path + " " + mv::S(e.second) + " gives " + mv::S(now);
      VCHECK(mv::same(canon(now), mv::mk(canon(e.second))), "preset.subtree.value", d);
    }
    M.seen(vp::hash_str(it.path + std::to_string(exp.size()) + (exp.empty() ? "" : mv::S(exp[0].second))));
  }
}

// ---------------------------------------------------------------- the structured form: JSON with a device name on top
static void groups(tree& t, node_base& at, const std::string& path, int depth)
{
  // numbered nodes are written as arrays of objects: complete groups of inner nodes
  if (M.r.i(0, 3) == 0)
  {
    int n = M.r.i(1, 3);
    for (int i = 0; i < n; i++)
    {
      tree::item it;
      it.n = at.create_child("grp." + std::to_string(i));
      it.path = path + "/" + it.n->get_name();
      t.all.push_back(it);
      int m = M.r.i(1, 3);
      for (int j = 0; j < m; j++)
      {
        tree::item c;
        c.n = it.n->create_child("p" + std::to_string(j));
        c.path = it.path + "/" + c.n->get_name();
        do
          c.t = M.r.pick(types);
        while (c.t == val_type::IMPULSE);
        c.p = c.n->create_parameter(c.t);
        c.p->set_value(mv::mk(value_of(c.t)));
        t.all.push_back(c);
      }
    }
  }
}
VP_SECTION(structured)
{
  const size_t N = M.n(300);
  for (size_t k = 0; k < N; k++)
  {
    tree t;
    tshape s;
    // what is above other nodes can have a value if the preset says so
    bool skip = M.r.b();
    s.dots = false;
    s.impulses = false;
    s.leaves_only = !skip;
    s.attributes = false;
    auto& root = t.dev.get_root_node();
    grow(t, root, "", 0, false, s);
    groups(t, root, "", 0);
    auto vals = values(t);
    digest(vals);
    auto made = ps::make_preset(root);
    auto json = ps::write_json("dev", made);
    M.sample(json);
    M.at("preset.read_json", json);

    auto read = ps::read_json(json, skip);
    std::map<std::string, mv::val> got;
    for (auto& [key, v] : read)
      got[key] = mv::from(v);
    VCHECK(got.size() == read.size() && read.size() == made.size(), "preset.structured.count", read.size(), " entries for ", made.size(), ": ",
           json);
    for (auto& [key, v] : made)
    {
      auto e = (skip ? "" : "/dev") + key;
      VCHECK(got.count(e), "preset.structured.path", e, json);
    }
    // reading it twice writes it once
    auto again = ps::read_json(ps::write_json("dev", ps::read_json(json)));
    auto first = ps::read_json(json);
    VCHECK(again.size() == first.size() && ps::to_string(again) == ps::to_string(first), "preset.structured.stable", json);

    // back on the same tree, or on one where nodes are missing, or on a new device
    int mode = M.r.i(0, 2);
    std::unique_ptr<tree> other;
    tree* dst = &t;
    std::set<std::string> missing;
    if (mode == 0)
      scramble(t);
    else if (mode == 1)
    {
      scramble(t);
      auto it = M.r.pick(t.all);
      it.n->get_parent()->remove_child(*it.n);
      for (size_t i = 0; i < t.all.size();)
        if (t.all[i].path == it.path || t.all[i].path.compare(0, it.path.size() + 1, it.path + "/") == 0)
        {
          missing.insert(t.all[i].path);
          t.all.erase(t.all.begin() + i);
        }
        else
          i++;
    }
    else
    {
      other = std::make_unique<tree>("dev");
      dst = other.get();
      for (auto& i : t.all)
        missing.insert(i.path);
    }
    // a path which must be created: only where the preset has something
    std::set<std::string> created;
    for (auto& [key, v] : made)
      for (auto& m : missing)
        if (key == m || key.compare(0, m.size() + 1, m + "/") == 0)
          created.insert(m);
    dst->proto->pushed.clear();
    auto& droot = dst->dev.get_root_node();
    bool keep = M.r.b();
    std::vector<std::string> matched, seen_by_all;
    ps::instance_functions fns;
    fns.push_back({std::regex(".*"), [&](const node_base& n) { seen_by_all.push_back(osc_parameter_string(n)); }});
    fns.push_back({std::regex("dev:/.*[0-4]"), [&](const node_base& n) { matched.push_back(osc_parameter_string(n)); }});
    bool threw = false;
    M.at("preset.apply_structured", json);
    try
    {
      ps::apply_preset(droot, read, keep ? ps::keep_arch_on : ps::keep_arch_off, fns, skip, true);
    }
    catch (const std::exception&)
    {
      threw = true;
    }
    VCHECK(threw == (keep && !created.empty()), "preset.keep-architecture", threw ? "threw" : "did not throw", " with ", created.size(),
           " missing nodes");
    if (keep)
      for (auto& m : missing)
        VCHECK(!find_node(droot, m), "preset.not-created", m);
    if (!keep)
    {
      VCHECK(std::set<std::string>(seen_by_all.begin(), seen_by_all.end()) == created && seen_by_all.size() == created.size(),
             "preset.instance-functions", seen_by_all.size(), " for ", created.size());
      std::vector<std::string> sub;
      for (auto& p : seen_by_all)
        if (p.back() >= '0' && p.back() <= '4')
          sub.push_back(p);
      VCHECK(sub == matched, "preset.instance-functions.match", sub.size(), " ", matched.size());
      for (size_t i = 0; i < seen_by_all.size(); i++)
        for (size_t j = i + 1; j < seen_by_all.size(); j++)
          VCHECK(seen_by_all[i].compare(0, seen_by_all[j].size() + 1, seen_by_all[j] + "/") != 0, "preset.parents-first", seen_by_all[i]);
    }
    if (threw)
      continue;
    for (auto& [key, v] : made)
    {
      auto n = find_node(droot, key);
      if (!VCHECK(n && n->get_parameter(), "preset.structured.node", key))
        continue;
      auto p = n->get_parameter();
      bool fresh = created.count(key);
      auto now = mv::from(p->value());
      int cnt = 0;
      for (auto& x : dst->proto->pushed)
        cnt += x.first == p;
      VCHECK(cnt == 1, "preset.structured.pushed-once", key, " ", cnt);
      if (!fresh)
        VCHECKC(mv::same(canon(now), mv::mk(canon(vals[key]))), "preset.structured.restored", mv::tname(vals[key]), key, mv::S(vals[key]), " gives ",
                mv::S(now), json);
      else
      {
        // a new parameter has the type of the value in the file
        auto want = mv::from([&] {
          for (auto& e : read)
            if (e.first == (skip ? "" : "/dev") + key)
              return e.second;
          return ossia::value{};
        }());
        VCHECK(mv::same(now, mv::mk(want)), "preset.structured.created", key, mv::S(want), " gives ", mv::S(now));
        VCHECK(mv::same(canon(want, false), mv::mk(canon(vals[key], false))), "preset.structured.value", key, mv::S(vals[key]), " gives ",
               mv::S(want));
      }
    }
  }
}

// "bar.0" is the first of several nodes "bar"
VP_SECTION(instances)
{
  const size_t N = M.n(200);
  for (size_t k = 0; k < N; k++)
  {
    tree t;
    auto& root = t.dev.get_root_node();
    bool plain = M.r.b(), zero = M.r.b(), one = M.r.b();
    std::vector<std::string> ord;
    if (plain)
      ord.push_back("bar");
    if (zero)
      ord.push_back("bar.0");
    if (one)
      ord.push_back("bar.1");
    if (M.r.b())
      ord.push_back("foo");
    for (size_t i = ord.size(); i > 1; i--)
      std::swap(ord[i - 1], ord[M.r.i(0, i - 1)]);
    bool inner = M.r.b();
    for (auto& n : ord)
    {
      auto c = root.create_child(n);
      if (inner)
        c = c->create_child("x");
      c->create_parameter(val_type::INT)->set_value(-1);
    }
    std::string tail = inner ? "/x" : "";
    ps::preset p;
    std::string key = M.r.pick(std::vector<std::string>{"/bar", "/bar.0", "/bar.1"});
    p.push_back({key + tail, ossia::value{7}});
    std::string hit;
    if (root.find_child(key.substr(1)))
      hit = key;
    else if (key == "/bar.0" && plain)
      hit = "/bar";
    M.at("preset.instances", key);
    bool threw = false;
    try
    {
      ps::apply_preset(root, p, ps::keep_arch_on, {}, true, true);
    }
    catch (const std::exception&)
    {
      threw = true;
    }
    VCHECK(threw == hit.empty(), "preset.instance.found", key, " ", plain, zero, one);
    for (auto& n : ord)
    {
      auto v = find_node(root, "/" + n + tail)->get_parameter()->value();
      VCHECK(v == ossia::value{("/" + n == hit) ? 7 : -1}, "preset.instance.only-that", key, " changed ", n, " with ", plain, zero, one);
    }
    M.seen(vp::hash_str(key + tail + std::to_string(plain) + std::to_string(zero) + std::to_string(one) + (ord.empty() ? "" : ord[0])));
  }
}

// nodes which cannot take the value
VP_SECTION(refusals)
{
  const size_t N = M.n(100);
  for (size_t k = 0; k < N; k++)
  {
    tree t;
    auto& root = t.dev.get_root_node();
    auto& inner = find_or_create_node(t.dev, "/inner");
    auto& leaf = find_or_create_node(t.dev, "/inner/leaf");
    auto& empty = find_or_create_node(t.dev, "/empty");
    (void)leaf;
    bool has = M.r.b();
    if (has)
      inner.create_parameter(val_type::INT)->set_value(1);
    bool nonterminal = M.r.b();
    std::string dev = nonterminal ? "" : "/dev";
    {
      ps::preset p{{dev + "/inner", ossia::value{5}}};
      bool threw = false;
      M.at("preset.nonterminal", "");
      try
      {
        ps::apply_preset(root, p, ps::keep_arch_on, {}, nonterminal, true);
      }
      catch (const ossia::ossiaException_InvalidAddress&)
      {
        threw = true;
      }
      VCHECK(threw == !(nonterminal && has), "preset.nonterminal", nonterminal, has);
      if (has)
        VCHECK(inner.get_parameter()->value() == ossia::value{nonterminal ? 5 : 1}, "preset.nonterminal.value");
    }
    {
      ps::preset p{{dev + "/empty", ossia::value{5}}};
      bool threw = false;
      M.at("preset.no-parameter", "");
      try
      {
        ps::apply_preset(root, p, M.r.b() ? ps::keep_arch_on : ps::keep_arch_off, {}, nonterminal, true);
      }
      catch (const ossia::ossiaException_InvalidAddress&)
      {
        threw = true;
      }
      VCHECK(threw && !empty.get_parameter(), "preset.no-parameter", "threw ", threw);
    }
    M.seen(vp::mix(nonterminal, has));
  }
}

// ---------------------------------------------------------------- arbitrary and damaged files
static std::string any_json(int depth)
{
  auto& r = M.r;
  static const std::vector<std::string> sc{"1",    "-3",   "0",  "2147483647", "2147483648", "-2147483649", "18446744073709551615", "1.5",
                                           "-0.0", "1e30", "true", "false",    "null",       "\"\"",        "\"a\"",     "\"1\"", "0.0", "[]"};
  if (depth <= 0 || r.i(0, 2))
    return r.pick(sc);
  std::string s = "[";
  for (int n = r.i(0, 5), i = 0; i < n; i++)
    s += (i ? "," : "") + any_json(depth - 1);
  return s + "]";
}
static mv::val model_json(const rapidjson::Value& v)
{
  if (v.IsBool())
    return {v.GetBool()};
  if (v.IsInt())
    return {v.GetInt()};
  if (v.IsNumber())
    return {(float)v.GetDouble()};
  if (v.IsString())
    return {std::string(v.GetString(), v.GetStringLength())};
  if (v.IsArray())
  {
    mv::list l;
    for (auto& e : v.GetArray())
      l.push_back(model_json(e));
    return {l};
  }
  return {};
}
VP_SECTION(arrays)
{
  const size_t N = M.n(3000);
  tree t;
  auto& root = t.dev.get_root_node();
  auto p = root.create_child("l")->create_parameter(val_type::LIST);
  for (size_t k = 0; k < N; k++)
  {
    std::string arr = "[";
    for (int n = M.r.i(0, 5), i = 0; i < n; i++)
      arr += (i ? "," : "") + any_json(2);
    arr += "]";
    rapidjson::Document d;
    d.Parse(arr.c_str());
    auto want = canon(model_json(d));
    p->set_value(std::vector<ossia::value>{1});
    M.at("preset.array", arr);
    bool ok = false;
    vp::no_throw("preset.array.throws", [&] { ok = ps::apply_json("{\"l\": " + arr + "}", root); });
    VCHECK(ok && mv::same(canon(mv::from(p->value())), mv::mk(want)), "preset.array", arr, " gives ", mv::S(mv::from(p->value())));
    M.at("preset.array.structured", arr);
    vp::no_throw("preset.array.throws", [&] {
      auto r = ps::read_json("{\"dev\":{\"l\": " + arr + "}}");
      VCHECK(r.size() == 1 && r[0].first == "/l" && mv::same(canon(mv::from(r[0].second), false), mv::mk(canon(want, false))),
             "preset.array.structured", arr, " gives ", r.empty() ? "nothing" : mv::S(mv::from(r[0].second)));
    });
    M.seen(vp::hash_str(arr));
    if (k % 101 == 0)
      M.sample(arr);
  }
}
VP_SECTION(hostile)
{
  const size_t N = M.n(1500);
  for (size_t k = 0; k < N; k++)
  {
    tree t;
    tshape s;
    s.maxdepth = 3;
    grow(t, t.dev.get_root_node(), "", 0, false, s);
    auto& root = t.dev.get_root_node();
    auto before = values(t);
    bool json = M.r.b(2, 3);
    std::string txt = json ? ps::make_json_preset(root) : ps::to_string(ps::make_preset(root));
    if (json && M.r.b())
    {
      // other contents for existing names
      std::string o = "{";
      for (int n = M.r.i(1, 5), i = 0; i < n; i++)
      {
        auto path = M.r.pick(t.all).path.substr(1);
        static const std::vector<std::string> odd{"", "/", ".", "..", "*", "dev:/foo", "//", "foo/", ":", "{a,b}"};
        o += std::string(i ? "," : "") + "\"" + (M.r.i(0, 5) ? path : M.r.pick(odd)) + "\": "
             + (M.r.i(0, 3) ? any_json(3) : "{\"x\": " + any_json(2) + ", \"\": {\"\": 1}}");
      }
      txt = o + "}";
    }
    for (int n = M.r.i(0, 3); n > 0 && !txt.empty(); n--)
    {
      auto at = M.r.i(0, txt.size() - 1);
      switch (M.r.i(0, 4))
      {
        case 0:
          txt.erase(at, M.r.i(1, 5));
          break;
        case 1:
          txt.insert(at, M.r.pick(std::vector<std::string>{"{", "}", "[", "]", "\"", ",", ":", "1", "\t", "\n", "null", "\\u0000", "1e400"}));
          break;
        case 2:
          txt[at] = (char)M.r.i(1, 255);
          break;
        case 3:
          txt.resize(at);
          break;
        default:
          txt.insert(at, txt.substr(M.r.i(0, txt.size() - 1), M.r.i(1, 30)));
      }
    }
    M.at("preset.hostile", txt);
    M.seen(vp::hash_str(txt));
    if (json)
    {
      rapidjson::Document d;
      d.Parse(txt.c_str());
      bool bad = d.HasParseError();
      bool r = true;
      vp::no_throw("preset.hostile.throws", [&] { r = ps::apply_json(txt, root); });
      VCHECK(r == !bad, "preset.hostile.result", txt);
      if (bad)
      {
        auto after = values(t);
        for (auto& [key, v] : before)
          VCHECK(mv::same(v, mv::mk(after[key])), "preset.hostile.untouched", key, txt);
        bool ours = false;
        try
        {
          ps::read_json(txt, M.r.b());
        }
        catch (const ossia::ossiaException_InvalidJSON&)
        {
          ours = true;
        }
        VCHECK(ours, "preset.hostile.refused", txt);
      }
      else
        vp::no_throw("preset.hostile.read", [&] {
          auto p = ps::read_json(txt, M.r.b());
          ps::to_string(p);
        });
    }
    else
      vp::no_throw("preset.hostile.text", [&] { ps::apply_preset(txt, root); });
    // types do not change
    for (auto& i : t.all)
      if (i.p)
        VCHECK(i.p->get_value_type() == i.t && mv::tname(mv::from(i.p->value())) == mv::tname(before[i.path]), "preset.hostile.type", i.path, txt);
  }
}

// ---------------------------------------------------------------- describing a device, finding nodes, files
VP_SECTION(device)
{
  const size_t N = M.n(200);
  for (size_t k = 0; k < N; k++)
  {
    tree t("dev");
    tshape s;
    s.attributes = false;
    grow(t, t.dev.get_root_node(), "", 0, false, s);
    auto& root = t.dev.get_root_node();
    struct attr
    {
      std::optional<ossia::value> def;
      std::optional<std::string> descr, bounds;
      std::optional<double> step;
      std::optional<std::pair<int, int>> inst;
      bool file{};
    };
    std::map<std::string, attr> at;
    for (auto& i : t.all)
    {
      if (!i.p)
        continue;
      auto& a = at[i.path];
      if (M.r.b() && i.t != val_type::LIST && i.t != val_type::IMPULSE)
        set_default_value(*i.n, *(a.def = mv::mk(gen_value(i.t))));
      if (M.r.b())
        set_description(*i.n, *(a.descr = text(4)));
      if (i.t == val_type::INT && M.r.b())
      {
        int lo = M.r.i(-100, 0), hi = M.r.i(1, 100);
        i.p->set_domain(make_domain(lo, hi));
        a.bounds = std::to_string(lo) + " " + std::to_string(hi);
      }
      if ((i.t == val_type::INT || i.t == val_type::FLOAT) && M.r.b())
        set_value_step_size(*i.n, *(a.step = (double)M.r.i(1, 50) / 4.));
      if (i.t == val_type::STRING && M.r.b())
      {
        set_extended_type(*i.n, ossia::filesystem_path_type());
        a.file = true;
      }
      if (M.r.i(0, 3) == 0)
      {
        a.inst = std::pair<int, int>{M.r.i(0, 5), M.r.i(6, 20)};
        set_instance_bounds(*i.n, ossia::net::instance_bounds{a.inst->first, a.inst->second});
      }
    }
    std::optional<std::string> an, av, ac;
    if (M.r.b())
      set_app_name(root, *(an = text(5)));
    if (M.r.b())
      set_app_version(root, *(av = text(5)));
    if (M.r.b())
      set_app_creator(root, *(ac = text(5)));
    digest(values(t));
    M.at("preset.device", "");
    auto json = ps::write_json(t.dev);
    rapidjson::Document d;
    d.Parse(json.c_str());
    if (!VCHECK(!d.HasParseError() && d.IsObject() && d.HasMember("dev"), "preset.device.json", json))
      continue;
    static const std::map<val_type, std::string> tn{{val_type::IMPULSE, "impulse"}, {val_type::BOOL, "boolean"}, {val_type::INT, "integer"},
                                                   {val_type::FLOAT, "decimal"},   {val_type::CHAR, "char"},    {val_type::STRING, "string"}};
    for (auto& i : t.all)
    {
      const rapidjson::Value* v = &d["dev"];
      std::stringstream ss(i.path.substr(1));
      std::string seg;
      while (v && std::getline(ss, seg, '/'))
        v = v->HasMember(seg.c_str()) ? &(*v)[seg.c_str()] : nullptr;
      if (!VCHECK(v && v->IsObject(), "preset.device.node", i.path))
        continue;
      auto e = i.p ? tn.find(i.t) : tn.end();
      auto str_is = [&](const rapidjson::Value& o, const char* key, const std::optional<std::string>& want) {
        if (!want || want->empty())
          return !o.HasMember(key);
        return o.HasMember(key) && o[key].IsString() && std::string(o[key].GetString(), o[key].GetStringLength()) == *want;
      };
      auto& a = at[i.path];
      if (e != tn.end())
        VCHECK(str_is(*v, "type", a.file ? "filepath" : e->second), "preset.device.type", i.path);
      else
        VCHECK(!v->HasMember("type"), "preset.device.no-type", i.path);
      if (!i.p)
        continue;
      bool ok = v->HasMember("valueDefault") == a.def.has_value();
      if (ok && a.def)
      {
        auto& m = (*v)["valueDefault"];
        switch (i.t)
        {
          case val_type::INT: ok = m.IsInt() && m.GetInt() == a.def->get<int>(); break;
          case val_type::FLOAT: ok = m.IsNumber() && (float)m.GetDouble() == a.def->get<float>(); break;
          case val_type::BOOL: ok = m.IsBool() && m.GetBool() == a.def->get<bool>(); break;
          case val_type::STRING: ok = m.IsString() && std::string(m.GetString(), m.GetStringLength()) == a.def->get<std::string>(); break;
          default: break;
        }
      }
      if (i.t != val_type::IMPULSE && tn.count(i.t))
        VCHECK(ok, "preset.device.default", i.path, " ", a.def ? mv::S(mv::from(*a.def)) : "none");
      VCHECK(str_is(*v, "description", a.descr), "preset.device.description", i.path, " ", a.descr ? "[" + *a.descr + "]" : "none", " in ", json);
      if (i.t == val_type::INT)
        VCHECK(str_is(*v, "rangeBounds", a.bounds), "preset.device.bounds", i.path);
      VCHECK(v->HasMember("valueStepSize") == a.step.has_value() && (!a.step || (*v)["valueStepSize"].GetDouble() == *a.step), "preset.device.step", i.path);
      VCHECK(str_is(*v, "instanceBounds",
                    a.inst ? std::optional<std::string>(std::to_string(a.inst->first) + " " + std::to_string(a.inst->second)) : std::nullopt)
                 && v->HasMember("dynamicInstances") == a.inst.has_value(),
             "preset.device.instances", i.path);
      if (&i == &t.all[0])
        VCHECK(str_is(d, "appName", an) && str_is(d, "appVersion", av) && str_is(d, "appCreator", ac), "preset.device.app", an.value_or("none"), "|", av.value_or("none"), "|", ac.value_or("none"), "|", json);
      size_t n = i.n->children_copy().size();
      size_t objs = 0;
      for (auto m = v->MemberBegin(); m != v->MemberEnd(); ++m)
        objs += m->value.IsObject();
      VCHECK(objs == n, "preset.device.children", i.path, " ", objs, " for ", n);
    }
    // get_node: the address starts with the name of the root
    for (auto& i : t.all)
      VCHECK(ps::get_node(root, "/" + root.get_name() + i.path) == i.n, "preset.get_node", i.path);
    VCHECK(ps::get_node(root, "/" + root.get_name()) == &root && !ps::get_node(root, "/" + root.get_name() + "/nothing/here")
               && !ps::get_node(root, "/else"),
           "preset.get_node.missing");
    // to_string: one entry per leaf parameter
    auto str = ps::to_string(t.dev);
    size_t leaves = 0;
    for (auto& i : t.all)
      if (i.p && i.n->children_copy().empty())
      {
        leaves++;
        std::string name = root.get_name() + i.path + ": ";
        VCHECK(str.find(name) != std::string::npos, "preset.device.string", i.path, str);
        if (i.t == val_type::INT)
          VCHECK(str.find(name + "Int " + std::to_string(i.p->value().get<int>())) != std::string::npos, "preset.device.string.value", i.path);
      }
    VCHECK((str == "[]") == (leaves == 0) && str.front() == '[' && str.back() == ']', "preset.device.string.form", str);

    // files
    std::string content = json + std::string(M.r.i(0, 3), '\n') + text(8) + (M.r.b() ? std::string("\0x", 2) : "");
    std::string file = M.scratch + "/p" + std::to_string(M.r.i(0, 3)) + ".json";
    M.at("preset.file", file);
    vp::no_throw("preset.file.throws", [&] {
      ps::write_file(content, file);
      VCHECK(ps::read_file(file) == content, "preset.file", content.size());
    });
    bool threw = false;
    try
    {
      ps::read_file(M.scratch + "/none/at/all");
    }
    catch (const std::exception&)
    {
      threw = true;
    }
    VCHECK(threw, "preset.file.missing");
    threw = false;
    try
    {
      ps::write_file(content, M.scratch + "/none/at/all");
    }
    catch (const std::exception&)
    {
      threw = true;
    }
    VCHECK(threw, "preset.file.unwritable");
  }
}

// ---------------------------------------------------------------- the C interface
VP_SECTION(c_api)
{
  const size_t N = M.n(150);
  for (size_t k = 0; k < N; k++)
  {
    auto proto = new spy;
    ossia_device od;
    od.device = std::make_shared<generic_device>(std::unique_ptr<protocol_base>(proto), "dev");
    auto& root = od.device->get_root_node();
    std::map<std::string, int> vals;
    for (int i = M.r.i(1, 6); i > 0; i--)
    {
      std::string n = "/n" + std::to_string(M.r.i(0, 3)) + "/m" + std::to_string(i);
      vals[n] = M.r.i(-1000, 1000);
      find_or_create_node(root, n).create_parameter(val_type::INT)->set_value(vals[n]);
    }
    M.at("preset.c", "");
    ossia_preset_t p{};
    VCHECK(ossia_devices_make_preset(&od, &p) == OSSIA_PRESETS_OK && p, "preset.c.make");
    if (!p)
      continue;
    int sz = -1;
    VCHECK(ossia_presets_size(p, &sz) == OSSIA_PRESETS_OK && sz == (int)vals.size(), "preset.c.size", sz);
    const char* buf{};
    for (auto& [key, v] : vals)
    {
      VCHECK(ossia_presets_has_key(p, key.c_str()), "preset.c.has", key);
      VCHECK(ossia_presets_key_to_string(p, key.c_str(), &buf) == OSSIA_PRESETS_OK && std::string(buf) == std::to_string(v), "preset.c.string", key);
      ossia_free_string(buf);
      ossia_value_t val{};
      if (VCHECK(ossia_presets_key_to_value(p, key.c_str(), &val) == OSSIA_PRESETS_OK && val, "preset.c.value", key))
      {
        VCHECK(val->value == ossia::value{v}, "preset.c.value.equal", key);
        delete val;
      }
    }
    VCHECK(!ossia_presets_has_key(p, "/none") && ossia_presets_key_to_string(p, "/none", &buf) == OSSIA_PRESETS_KEY_NOT_FOUND, "preset.c.missing");
    VCHECK(ossia_presets_to_string(p, &buf) == OSSIA_PRESETS_OK && std::count(buf, buf + strlen(buf), '\n') == sz, "preset.c.to_string");
    ossia_free_string(buf);
    VCHECK(ossia_presets_write_json(p, "dev", &buf) == OSSIA_PRESETS_OK, "preset.c.write");
    std::string json = buf;
    ossia_free_string(buf);
    M.sample(json);
    M.seen(vp::hash_str(json));
    ossia_preset_t q{};
    VCHECK(ossia_presets_read_json(json.c_str(), &q) == OSSIA_PRESETS_OK && q, "preset.c.read", json);
    for (auto& [key, v] : vals)
      find_node(root, key)->get_parameter()->set_value(5000);
    VCHECK(ossia_devices_apply_preset(&od, q, true) == OSSIA_PRESETS_OK, "preset.c.apply");
    for (auto& [key, v] : vals)
      VCHECK(find_node(root, key)->get_parameter()->value() == ossia::value{v}, "preset.c.restored", key);
    // a node is missing
    auto gone = vals.begin()->first;
    auto gn = find_node(root, gone);
    gn->get_parent()->remove_child(*gn);
    VCHECK(ossia_devices_apply_preset(&od, q, true) == OSSIA_PRESETS_STANDARD_EXCEPTION && !find_node(root, gone), "preset.c.keep-arch");
    VCHECK(ossia_devices_apply_preset(&od, q, false) == OSSIA_PRESETS_OK && find_node(root, gone)
               && find_node(root, gone)->get_parameter()->value() == ossia::value{vals[gone]},
           "preset.c.create");
    // an address which is not a leaf
    find_node(root, gone)->create_child("below");
    VCHECK(ossia_devices_apply_preset(&od, q, true) == OSSIA_PRESETS_INVALID_ADDRESS, "preset.c.nonterminal");
    ossia_node_t node{};
    auto rn = root.get_name();
    VCHECK(ossia_devices_get_node(&od, ("/" + rn + gone).c_str(), &node) == OSSIA_PRESETS_OK && node, "preset.c.get_node");
    VCHECK(ossia_devices_get_node(&od, "/nothing/here", &node) == OSSIA_PRESETS_INVALID_ADDRESS, "preset.c.get_node.missing");
    {
      auto top = root.children_copy()[0];
      auto deep = gone.substr(0, gone.find('/', 1));
      ossia_node_t c{};
      VCHECK(ossia_devices_get_child(convert(&root), ("/" + rn + deep).c_str(), &c) == OSSIA_PRESETS_OK && convert_node(c) == find_node(root, deep),
             "preset.c.get_child");
      VCHECK(ossia_devices_get_child(convert(top), "/zz", &c) == OSSIA_PRESETS_INVALID_ADDRESS
                 && ossia_devices_get_child(convert(top), nullptr, &c) == OSSIA_PRESETS_INVALID_ADDRESS
                 && ossia_devices_get_child(nullptr, "/zz", &c) == OSSIA_PRESETS_NULL_NODE
                 && ossia_devices_get_child(convert(top), "/zz", nullptr) == OSSIA_PRESETS_INVALID_PTR
                 && ossia_devices_get_node(&od, "/zz", nullptr) == OSSIA_PRESETS_INVALID_PTR,
             "preset.c.get_child.missing");
    }
    VCHECK(ossia_devices_to_string(&od, &buf) == OSSIA_PRESETS_OK && std::string(buf) == ps::to_string(*od.device), "preset.c.device-string");
    ossia_free_string(buf);
    VCHECK(ossia_devices_write_json(&od, &buf) == OSSIA_PRESETS_OK && std::string(buf) == ps::write_json(*od.device), "preset.c.device-json");
    ossia_free_string(buf);
    // errors are results, never exceptions
    ossia_preset_t bad{};
    std::string broken = json.substr(0, M.r.i(0, json.size() - 2));
    VCHECK(ossia_presets_read_json(broken.c_str(), &bad) == OSSIA_PRESETS_INVALID_JSON && !bad, "preset.c.invalid", broken);
    VCHECK(ossia_presets_read_json(nullptr, &bad) == OSSIA_PRESETS_EMPTY_JSON && ossia_presets_read_json("{}", nullptr) == OSSIA_PRESETS_INVALID_PTR
               && ossia_devices_make_preset(nullptr, &bad) == OSSIA_PRESETS_NULL_DEVICE
               && ossia_devices_make_preset(&od, nullptr) == OSSIA_PRESETS_INVALID_PTR
               && ossia_devices_apply_preset(nullptr, q, true) == OSSIA_PRESETS_INVALID_PTR
               && ossia_devices_apply_preset(&od, nullptr, true) == OSSIA_PRESETS_NULL_PRESET
               && ossia_presets_size(nullptr, &sz) == OSSIA_PRESETS_NULL_PRESET
               && ossia_presets_write_json(nullptr, "dev", &buf) == OSSIA_PRESETS_NULL_PRESET
               && ossia_devices_get_node(nullptr, "/dev", &node) == OSSIA_PRESETS_NULL_DEVICE
               && ossia_devices_get_node(&od, nullptr, &node) == OSSIA_PRESETS_INVALID_ADDRESS
               && ossia_devices_to_string(nullptr, &buf) == OSSIA_PRESETS_NULL_DEVICE && !ossia_presets_has_key(nullptr, "/x"),
           "preset.c.null");
    VCHECK(ossia_presets_free(q) == OSSIA_PRESETS_OK && ossia_presets_free(p) == OSSIA_PRESETS_OK && ossia_presets_free(nullptr) == OSSIA_PRESETS_OK,
           "preset.c.free");
  }
}
VP_MAIN
