// The C interface says and does what the C++ objects behind it do.
#include "values.hpp"
#include "vp.hpp"
#include <ossia-c/ossia/ossia_utils.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <cmath>
#include <deque>
#include <map>
#include <set>
using vp::M;
using namespace ossia::net;

// stands in for the logger, which is another library
extern "C" void ossia_log_error(const char*) { }

struct spy final : protocol_base
{
  std::vector<std::pair<const parameter_base*, std::string>> pushed;
  std::vector<const parameter_base*> pulled;
  std::vector<std::pair<const parameter_base*, bool>> observed;
  int updates{};
  bool alive{};
  int* gone{};
  spy() : protocol_base{flags{SupportsMultiplex}} { }
  ~spy()
  {
    if (gone)
      ++*gone;
  }
  bool pull(parameter_base& p) override
  {
    pulled.push_back(&p);
    return true;
  }
  bool push(const parameter_base& p, const ossia::value& v) override
  {
    pushed.push_back({&p, mv::S(v)});
    return true;
  }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base& p, bool b) override
  {
    observed.push_back({&p, b});
    return true;
  }
  bool update(node_base&) override
  {
    updates++;
    return true;
  }
};

static ossia_type ctype(ossia::val_type t)
{
  switch (t)
  {
    case ossia::val_type::FLOAT: return FLOAT_T;
    case ossia::val_type::INT: return INT_T;
    case ossia::val_type::VEC2F: return VEC2F_T;
    case ossia::val_type::VEC3F: return VEC3F_T;
    case ossia::val_type::VEC4F: return VEC4F_T;
    case ossia::val_type::IMPULSE: return IMPULSE_T;
    case ossia::val_type::BOOL: return BOOL_T;
    case ossia::val_type::STRING: return STRING_T;
    case ossia::val_type::LIST: return LIST_T;
    case ossia::val_type::CHAR: return CHAR_T;
    default: return ossia_type(-1);
  }
}
static const std::vector<ossia::val_type> types{ossia::val_type::INT, ossia::val_type::FLOAT, ossia::val_type::BOOL, ossia::val_type::CHAR, ossia::val_type::STRING, ossia::val_type::VEC2F, ossia::val_type::VEC3F, ossia::val_type::VEC4F, ossia::val_type::LIST, ossia::val_type::IMPULSE};

// creation through the interface
static ossia_value_t make(const mv::val& m)
{
  auto v = mv::mk(m);
  switch (v.get_type())
  {
    case ossia::val_type::INT: return ossia_value_create_int(v.get<int>());
    case ossia::val_type::FLOAT: return ossia_value_create_float(v.get<float>());
    case ossia::val_type::BOOL: return ossia_value_create_bool(v.get<bool>() ? M.r.pick(std::vector<int>{1, 2, 256, -1}) : 0);
    case ossia::val_type::CHAR: return ossia_value_create_char(v.get<char>());
    case ossia::val_type::STRING:
    {
      auto& s = v.get<std::string>();
      if (s.find('\0') == s.npos && M.r.b())
        return ossia_value_create_string(s.c_str());
      return ossia_value_create_byte_array(s.data(), s.size());
    }
    case ossia::val_type::VEC2F:
    {
      auto x = v.get<ossia::vec2f>();
      return ossia_value_create_2f(x[0], x[1]);
    }
    case ossia::val_type::VEC3F:
    {
      auto x = v.get<ossia::vec3f>();
      return ossia_value_create_3f(x[0], x[1], x[2]);
    }
    case ossia::val_type::VEC4F:
    {
      auto x = v.get<ossia::vec4f>();
      return ossia_value_create_4f(x[0], x[1], x[2], x[3]);
    }
    case ossia::val_type::LIST:
    {
      auto& l = v.get<std::vector<ossia::value>>();
      bool ints = true, floats = true;
      for (auto& e : l)
      {
        ints &= e.get_type() == ossia::val_type::INT;
        floats &= e.get_type() == ossia::val_type::FLOAT;
      }
      if (ints && M.r.b())
      {
        std::vector<int> x;
        for (auto& e : l)
          x.push_back(e.get<int>());
        return ossia_value_create_in(x.data(), x.size());
      }
      if (floats && M.r.b())
      {
        std::vector<float> x;
        for (auto& e : l)
          x.push_back(e.get<float>());
        return ossia_value_create_fn(x.data(), x.size());
      }
      std::vector<ossia_value_t> x;
      for (auto& e : l)
        x.push_back(make(mv::from(e)));
      auto r = ossia_value_create_list(x.data(), x.size());
      for (auto e : x)
        ossia_value_free(e);
      return r;
    }
    default: return ossia_value_create_impulse();
  }
}
static mv::val gen(int depth = 2)
{
  mv::opts o;
  o.none_ = false;
  o.none_in_list = false;
  o.special_floats = false;
  o.depth = depth;
  auto v = mv::gen(M.r, o);
  if (M.r.i(0, 9) == 0)
    return {std::string("a\0b", 3)};
  if (M.r.i(0, 7) == 0)
  {
    // uniform lists
    mv::list l;
    bool f = M.r.b();
    for (int n = M.r.i(0, 6); n > 0; n--)
      if (f)
        l.push_back(mv::val{mv::gen_float(M.r, false)});
      else
        l.push_back(mv::val{mv::gen_int(M.r)});
    return {l};
  }
  return v;
}

// what can be read of a value v, from a value or from a parameter
template <typename H, typename... F>
static void reading(const char* where, const ossia::value& v, H h, F... fs)
{
  auto [i, f, f2, f3, f4, b, c, bytes, str, list, fn, in] = std::tuple{fs...};
  auto what = mv::S(v);
  switch (v.get_type())
  {
    case ossia::val_type::INT: VCHECK(i(h) == v.get<int>(), "read.int", where, what); break;
    case ossia::val_type::FLOAT: VCHECK(mv::fsame(f(h), v.get<float>()), "read.float", where, what); break;
    case ossia::val_type::BOOL: VCHECK(b(h) == int(v.get<bool>()), "read.bool", where, what); break;
    case ossia::val_type::CHAR: VCHECK(c(h) == v.get<char>(), "read.char", where, what); break;
    case ossia::val_type::VEC2F:
    {
      auto x = f2(h);
      VCHECK(mv::S(ossia::value{ossia::make_vec(x.val[0], x.val[1])}) == what, "read.vec", where, what);
      break;
    }
    case ossia::val_type::VEC3F:
    {
      auto x = f3(h);
      VCHECK(mv::S(ossia::value{ossia::make_vec(x.val[0], x.val[1], x.val[2])}) == what, "read.vec", where, what);
      break;
    }
    case ossia::val_type::VEC4F:
    {
      auto x = f4(h);
      VCHECK(mv::S(ossia::value{ossia::make_vec(x.val[0], x.val[1], x.val[2], x.val[3])}) == what, "read.vec", where, what);
      break;
    }
    default:
      // nothing to read there, and nothing happens
      (void)i(h), (void)f(h), (void)b(h), (void)c(h), (void)f2(h), (void)f3(h), (void)f4(h);
      break;
  }
  bool is_str = v.get_type() == ossia::val_type::STRING, is_list = v.get_type() == ossia::val_type::LIST;
  {
    char* p = (char*)1;
    size_t n = 12345;
    bytes(h, &p, &n);
    if (is_str)
    {
      auto& s = v.get<std::string>();
      if (VCHECK(p && n == s.size() && std::string(p, n) == s && p[n] == 0, "read.bytes", where, what, " ", n))
        ossia_string_free(p);
    }
    else
      VCHECK(!p && n == 0, "read.bytes", where, what, " is given as ", n, " bytes");
    auto s = str(h);
    if (is_str)
    {
      if (VCHECK(s && std::string(s) == v.get<std::string>().c_str(), "read.string", where, what))
        ossia_string_free((char*)s);
    }
    else
      VCHECK(!s, "read.string", where, what, " is given as a string");
  }
  {
    ossia_value_t* p = (ossia_value_t*)1;
    size_t n = 12345;
    list(h, &p, &n);
    float* fp = (float*)1;
    size_t fnn = 12345;
    fn(h, &fp, &fnn);
    int* ip = (int*)1;
    size_t inn = 12345;
    in(h, &ip, &inn);
    if (!is_list)
      VCHECK(!p && n == 0 && !fp && fnn == 0 && !ip && inn == 0, "read.list", where, what, " is given as ", n, ", ", fnn, " and ", inn, " elements");
    else
    {
      auto& l = v.get<std::vector<ossia::value>>();
      if (VCHECK(p && n == l.size() && fp && fnn == n && ip && inn == n, "read.list", where, what, " has ", n, ", ", fnn, " and ", inn, " elements"))
        for (size_t k = 0; k < n; k++)
        {
          VCHECK(mv::S(p[k]->value) == mv::S(l[k]), "read.list", where, what, " at ", k);
          if (l[k].get_type() == ossia::val_type::FLOAT)
            VCHECK(mv::fsame(fp[k], l[k].get<float>()), "read.fn", where, what, " at ", k);
          if (l[k].get_type() == ossia::val_type::INT)
            VCHECK(ip[k] == l[k].get<int>(), "read.in", where, what, " at ", k);
          ossia_value_free(p[k]);
        }
      ossia_value_free_list(p);
      ossia_value_free_fn(fp);
      ossia_value_free_in(ip);
    }
  }
}

VP_SECTION(values)
{
  for (int k = 0; k < M.n(1500, 12000); k++)
  {
    auto m = gen();
    auto what = mv::S(m);
    M.at("values", what);
    ossia_value_t c{};
    if (!vp::no_throw("value.throws", [&] { c = make(m); }))
      continue;
    VCHECK(mv::S(c->value) == what, "value.create", what, " became ", mv::S(c->value));
    VCHECK(ossia_value_get_type(c) == ctype(mv::mk(m).get_type()), "value.type", what);
    auto v = c->value;
    vp::no_throw("value.throws", [&] {
      reading("", v, c, ossia_value_to_int, ossia_value_to_float, ossia_value_to_2f, ossia_value_to_3f, ossia_value_to_4f, ossia_value_to_bool, ossia_value_to_char, ossia_value_to_byte_array, ossia_value_to_string, ossia_value_to_list, ossia_value_to_fn, ossia_value_to_in);
    });
    vp::no_throw("value.throws", [&] {
      VCHECK(ossia_value_convert_int(c) == ossia::convert<int>(v), "convert.int", what);
      VCHECK(mv::fsame(ossia_value_convert_float(c), ossia::convert<float>(v)), "convert.float", what);
      VCHECK(ossia_value_convert_bool(c) == int(ossia::convert<bool>(v)), "convert.bool", what);
      VCHECK(ossia_value_convert_char(c) == ossia::convert<char>(v), "convert.char", what);
      auto a = ossia_value_convert_2f(c);
      auto wa = ossia::convert<ossia::vec2f>(v);
      for (int i = 0; i < 2; i++)
        VCHECK(mv::fsame(a.val[i], wa[i]), "convert.vec", what);
      auto b = ossia_value_convert_3f(c);
      auto wb = ossia::convert<ossia::vec3f>(v);
      for (int i = 0; i < 3; i++)
        VCHECK(mv::fsame(b.val[i], wb[i]), "convert.vec", what);
      auto d = ossia_value_convert_4f(c);
      auto wd = ossia::convert<ossia::vec4f>(v);
      for (int i = 0; i < 4; i++)
        VCHECK(mv::fsame(d.val[i], wd[i]), "convert.vec", what);
      char* p{};
      size_t n{};
      ossia_value_convert_byte_array(c, &p, &n);
      auto ws = ossia::convert<std::string>(v);
      if (VCHECK(p && n == ws.size() && std::string(p, n) == ws, "convert.bytes", what))
        ossia_string_free(p);
      ossia_value_t* l{};
      n = 0;
      ossia_value_convert_list(c, &l, &n);
      auto wl = ossia::convert<std::vector<ossia::value>>(v);
      if (VCHECK(l && n == wl.size(), "convert.list", what, " ", n))
      {
        for (size_t i = 0; i < n; i++)
        {
          VCHECK(mv::S(l[i]->value) == mv::S(wl[i]), "convert.list", what, " at ", i);
          ossia_value_free(l[i]);
        }
        ossia_value_free_list(l);
      }
    });
    VCHECK(mv::S(c->value) == what, "value.unchanged", what);
    ossia_value_free(c);
    M.seen(vp::hash_str(what));
  }
  ossia_value_free(nullptr);
}

static bool vsame(ossia_value_t c, const ossia::value& v)
{
  return c && mv::S(c->value) == mv::S(v);
}
VP_SECTION(domains)
{
  for (int k = 0; k < M.n(800, 6000); k++)
  {
    M.at("domains", "case");
    auto lo = M.r.i(0, 5) ? make(gen(1)) : nullptr, hi = M.r.b() && lo ? make(mv::from(lo->value)) : M.r.i(0, 5) ? make(gen(1)) : nullptr;
    auto vlo = lo ? lo->value : ossia::value{}, vhi = hi ? hi->value : ossia::value{};
    auto what = mv::S(vlo) + " .. " + mv::S(vhi);
    ossia::domain want;
    bool thrown = vp::throws([&] { want = ossia::make_domain(vlo, vhi); });
    ossia_domain_t d{};
    M.at("domains", what);
    vp::no_throw("domain.throws", [&] { d = ossia_domain_make_min_max(lo, hi); });
    if (thrown)
    {
      VCHECK(!d, "domain.make", what, " was made");
    }
    else if (VCHECK(d && d->domain == want, "domain.make", what))
    {
      auto compare = [&](const std::string& after) {
        VCHECK(d->domain == want, "domain.set", after);
        auto a = ossia_domain_get_min(d), b = ossia_domain_get_max(d);
        VCHECK(vsame(a, ossia::get_min(want)) && vsame(b, ossia::get_max(want)), "domain.bounds", after);
        ossia_value_free(a);
        ossia_value_free(b);
        ossia_value_t* l = (ossia_value_t*)1;
        size_t n = 12345;
        ossia_domain_get_values(d, &l, &n);
        auto vals = ossia::get_values(want);
        if (VCHECK(n == vals.size(), "domain.values", after, " ", n, " not ", vals.size()))
          for (size_t i = 0; i < n; i++)
          {
            VCHECK(vsame(l[i], vals[i]), "domain.values", after, " at ", i);
            ossia_value_free(l[i]);
          }
        ossia_value_free_list(l);
      };
      compare(what);
      for (int s = 0; s < 3; s++)
      {
        // changed to something of its type, or of another
        auto x = M.r.b() ? make(mv::from(ossia::get_min(want))) : make(gen(1));
        if (!mv::mk(mv::from(x->value)).valid())
        {
          ossia_value_free(x);
          continue;
        }
        int op = M.r.i(0, 2);
        auto what2 = what + (op == 0 ? " min " : op == 1 ? " max " : " values ") + mv::S(x->value);
        M.at("domains", what2);
        std::vector<ossia_value_t> l;
        std::vector<ossia::value> vl;
        l.reserve(8);
        for (int n = M.r.i(0, 4); n > 0; n--)
        {
          l.push_back(M.r.b() ? make(mv::from(x->value)) : make(gen(1)));
          vl.push_back(l.back()->value);
        }
        vp::throws([&] { op == 0 ? ossia::set_min(want, x->value) : op == 1 ? ossia::set_max(want, x->value) : ossia::set_values(want, vl); });
        vp::no_throw("domain.throws", [&] { op == 0 ? ossia_domain_set_min(d, x) : op == 1 ? ossia_domain_set_max(d, x) : ossia_domain_set_values(d, l.data(), l.size()); });
        compare(what2);
        for (auto e : l)
          ossia_value_free(e);
        ossia_value_free(x);
      }
    }
    ossia_domain_free(d);
    // sets
    std::vector<int> is;
    std::vector<float> fs;
    std::vector<std::string> ss;
    std::vector<const char*> cs;
    std::vector<ossia_value_t> vs;
    for (int n = M.r.i(0, 5); n > 0; n--)
    {
      is.push_back(mv::gen_int(M.r));
      fs.push_back(mv::gen_float(M.r, false));
      ss.push_back(mv::gen_string(M.r, true));
      vs.push_back(make(gen(1)));
    }
    for (auto& s : ss)
      cs.push_back(s.c_str());
    auto set = [&](ossia_domain_t d, auto want, const char* t) {
      if (!VCHECK(d, "domain.set_of", t))
        return;
      std::multiset<std::string> a, b;
      for (auto& v : ossia::get_values(d->domain))
        a.insert(mv::S(v));
      for (auto& v : want)
        b.insert(v);
      std::set<std::string> sa(a.begin(), a.end()), sb(b.begin(), b.end());
      VCHECK(sa == sb, "domain.set_of", t, " ", a.size(), " ", b.size());
      ossia_domain_free(d);
    };
    std::vector<std::string> wi, wf, ws, wv;
    for (auto x : is)
      wi.push_back(mv::S(ossia::value{x}));
    for (auto x : fs)
      wf.push_back(mv::S(ossia::value{x}));
    for (auto& x : ss)
      ws.push_back(mv::S(ossia::value{x}));
    for (auto x : vs)
      wv.push_back(mv::S(x->value));
    set(ossia_domain_make_int_set(is.data(), is.size()), wi, "ints");
    set(ossia_domain_make_float_set(fs.data(), fs.size()), wf, "floats");
    set(ossia_domain_make_string_set(cs.data(), cs.size()), ws, "strings");
    set(ossia_domain_make_value_set(vs.data(), vs.size()), wv, "values");
    for (auto x : vs)
      ossia_value_free(x);
    auto e = ossia_domain_create();
    VCHECK(e && !e->domain, "domain.empty", "not empty");
    ossia_domain_free(e);
    if (lo)
      ossia_value_free(lo);
    if (hi)
      ossia_value_free(hi);
    M.seen(vp::hash_str(what));
  }
}

// -------------------------------------------------------------------- trees
struct events
{
  std::vector<void*> got;
  std::vector<std::string> vals;
};
static void on_node(void* ctx, ossia_node_t n) { static_cast<events*>(ctx)->got.push_back(n); }
static void on_value(void* ctx, ossia_value_t v)
{
  static_cast<events*>(ctx)->vals.push_back(mv::S(v->value));
  ossia_value_free(v);
}
struct mirror // the same events, from C++
{
  std::vector<void*> created, removing, premoving, deleting;
  void c(const node_base& n) { created.push_back((void*)(&n)); }
  void r(const node_base& n) { removing.push_back((void*)(&n)); }
  void p(const parameter_base& n) { premoving.push_back((void*)(&n)); }
  void d(const node_base& n) { deleting.push_back((void*)(&n)); }
};

VP_SECTION(trees)
{
  ossia_device_reset_static();
  int serial = 0;
  for (int k = 0; k < M.n(80, 600); k++)
  {
    M.at("trees", "case");
    int gone = 0;
    auto sp = new spy;
    sp->gone = &gone;
    auto cp = new ossia_protocol{sp};
    auto name = "dev" + std::to_string(serial++);
    auto dev = ossia_device_create(cp, name.c_str());
    if (!VCHECK(dev, "device.create", name))
      return;
    VCHECK(ossia_device_create(nullptr, name.c_str()) == dev, "device.cache", "another device of the same name");
    VCHECK(ossia_device_create(nullptr, "no such device") == nullptr, "device.cache", "made without protocol");
    auto dn = ossia_device_get_name(dev);
    VCHECK(dn && dn == name, "device.name", name);
    ossia_string_free((char*)dn);
    ossia_device_update_namespace(dev);
    VCHECK(sp->updates == 1, "device.update", sp->updates);
    auto& d = *dev->device;
    auto& root = d.get_root_node();
    ossia_node_t croot = ossia_device_get_root_node(dev);
    VCHECK(croot == &root, "device.root", name);
    mirror mi;
    d.on_node_created.connect<&mirror::c>(mi);
    d.on_node_removing.connect<&mirror::r>(mi);
    d.on_parameter_removing.connect<&mirror::p>(mi);
    events e1, e2, e3, other;
    auto i1 = ossia_device_add_node_created_callback(dev, on_node, &e1);
    auto i2 = ossia_device_add_node_removing_callback(dev, on_node, &e2);
    auto i3 = ossia_device_add_parameter_deleting_callback(dev, on_node, &e3);
    auto j1 = ossia_device_add_node_created_callback(dev, on_node, &other);
    auto j2 = ossia_device_add_node_removing_callback(dev, on_node, &other);
    auto j3 = ossia_device_add_parameter_deleting_callback(dev, on_node, &other);
    VCHECK(i1 && i2 && i3, "device.callbacks", "no index");
    // forgotten before anything happens
    ossia_device_remove_node_created_callback(dev, j1);
    ossia_device_remove_node_removing_callback(dev, j2);
    ossia_device_remove_parameter_deleting_callback(dev, j3);
    events del;
    std::set<node_base*> watched;
    static const std::vector<std::string> names{"a", "b", "foo", "foo.1", "bar", "x y", "1"};
    auto all = [&] {
      std::vector<node_base*> r;
      std::function<void(node_base&)> rec = [&](node_base& n) {
        r.push_back(&n);
        for (auto& c : n.children())
          rec(*c);
      };
      rec(root);
      return r;
    };
    std::uint64_t h = 0;
    for (int s = 0; s < 40; s++)
    {
      auto nodes = all();
      auto n = M.r.pick(nodes);
      auto nm = M.r.pick(names);
      int op = M.r.i(0, 13);
      h = vp::mix(h, op * 100 + nodes.size());
      M.at("trees", vp::str("step ", op));
      switch (op)
      {
        case 0:
        {
          auto before = n->unsafe_children().size();
          auto c = (node_base*)ossia_node_add_child(n, nm.c_str());
          VCHECK(c && c->get_parent() == n && n->unsafe_children().size() == before + 1 && n->unsafe_children().back().get() == c, "node.add", nm);
          break;
        }
        case 1:
        case 2:
        {
          auto path = "/" + nm + "/" + M.r.pick(names);
          auto cnt = all().size();
          auto c = (node_base*)ossia_node_create(n, path.c_str());
          auto now = all();
          VCHECK(c && now.size() > cnt && std::find(now.begin(), now.end(), c) != now.end() && std::find(nodes.begin(), nodes.end(), c) == nodes.end(), "node.create", path);
          break;
        }
        case 3:
        {
          if (nodes.size() > 60)
            break;
          auto p = M.r.pick(std::vector<std::string>{"/z.[0-2]/{u,v}", "/w", "/q/{a,b}"});
          ossia_node_t* data = nullptr;
          size_t sz = 12345;
          auto cnt = all().size();
          ossia_node_create_pattern(n, p.c_str(), &data, &sz);
          size_t want = p == "/w" ? 1 : p == "/q/{a,b}" ? 2 : 6;
          auto now = all();
          if (VCHECK(sz == want && data, "node.create_pattern", p, " gave ", sz))
          {
            std::set<node_base*> st;
            for (size_t i = 0; i < sz; i++)
              st.insert((node_base*)data[i]);
            VCHECK(st.size() == sz && now.size() >= cnt + sz, "node.create_pattern", p);
            for (auto x : st)
              VCHECK(std::find(now.begin(), now.end(), x) != now.end(), "node.create_pattern", p);
          }
          ossia_node_array_free(data);
          break;
        }
        case 4:
        {
          // all ways to look for
          auto cs = ossia_node_child_size(n);
          VCHECK(cs == int(n->unsafe_children().size()), "node.children", cs);
          for (int i = -2; i <= cs + 2; i++)
          {
            auto c = ossia_node_get_child(n, i);
            VCHECK(c == (i >= 0 && i < cs ? (void*)n->unsafe_children()[i].get() : nullptr), "node.child", i, " of ", cs);
          }
          VCHECK(ossia_node_find_child(n, nm.c_str()) == n->find_child(nm), "node.find_child", nm);
          auto t = M.r.pick(nodes);
          auto path = address_string_from_node(*t);
          path = path.substr(path.find(':') + 1);
          VCHECK(ossia_node_find(croot, path.c_str()) == find_node(root, path), "node.find", path);
          if (t != &root)
            VCHECK(ossia_node_find(croot, path.c_str()) == t, "node.find", path);
          VCHECK(!ossia_node_find(croot, "/no/such/node"), "node.find", "found nothing");
          auto pat = M.r.pick(std::vector<std::string>{"/*", "/*/*", "/foo*", "/{a,b}/*", "/nothing.*", path});
          auto want = find_nodes(root, pat);
          ossia_node_t* data = (ossia_node_t*)1;
          size_t sz = 12345;
          ossia_node_find_pattern(croot, pat.c_str(), &data, &sz);
          VCHECK(sz == want.size() && bool(data) == !want.empty(), "node.find_pattern", pat, " ", sz, " not ", want.size());
          for (size_t i = 0; i < std::min(sz, want.size()); i++)
            VCHECK(data[i] == want[i], "node.find_pattern", pat);
          ossia_node_array_free(data);
          VCHECK(ossia_node_get_device(n) == dev, "node.device", path);
          auto nn = ossia_node_get_name(n);
          VCHECK(nn && n->get_name() == nn, "node.name", path);
          ossia_string_free((char*)nn);
          break;
        }
        case 5:
        case 6:
        {
          auto t = M.r.pick(types);
          bool had = n->get_parameter();
          auto p = (parameter_base*)ossia_node_create_parameter(n, ctype(t));
          VCHECK(p == n->get_parameter() && p && (had || p->get_value_type() == t), "node.parameter", int(t));
          VCHECK(ossia_node_get_parameter(n) == p && ossia_parameter_get_node(p) == n, "node.parameter", int(t));
          break;
        }
        case 7:
        {
          static const std::vector<std::string> ts{"int", "float", "string", "rgb", "position", "no type", "vec3f", "impulse", "gain.db", "list"};
          auto t = M.r.pick(ts);
          auto path = "/t" + std::to_string(s);
          auto p = (parameter_base*)ossia_create_parameter(n, path.c_str(), t.c_str());
          VCHECK(bool(p) == (t != "no type"), "node.typed", t);
          if (p)
          {
            ossia::net::generic_device tmp{std::make_unique<spy>(), "tmp"};
            auto q = ossia::create_parameter(tmp, "/x", t);
            VCHECK(q && q->get_value_type() == p->get_value_type() && q->get_unit() == p->get_unit() && p == n->find_child(path.substr(1))->get_parameter(), "node.typed", t);
          }
          break;
        }
        case 8:
          if (n->get_parameter())
          {
            ossia_node_remove_parameter(n);
            VCHECK(!n->get_parameter() && !ossia_node_get_parameter(n), "node.remove_parameter", "still there");
          }
          else
            VCHECK(!ossia_node_get_parameter(n), "node.parameter", "from nowhere");
          break;
        case 9:
          if (n != &root && !watched.count(n))
          {
            auto idx = ossia_node_add_deleting_callback(n, on_node, &del);
            if (M.r.i(0, 2) == 0)
              ossia_node_remove_deleting_callback(n, idx);
            else
            {
              n->about_to_be_deleted.connect<&mirror::d>(mi);
              watched.insert(n);
            }
          }
          break;
        case 10:
          if (n != &root)
          {
            auto par = n->get_parent();
            auto cnt = par->unsafe_children().size();
            auto nmn = n->get_name();
            // several nodes may not have the same name
            ossia_node_remove_child(par, n);
            VCHECK(par->unsafe_children().size() == cnt - 1 && !par->find_child(nmn), "node.remove", nmn);
            auto left = all();
            for (auto it = watched.begin(); it != watched.end();)
              it = std::find(left.begin(), left.end(), *it) == left.end() ? watched.erase(it) : std::next(it);
          }
          break;
        default:
        {
          // attributes
          node_base& x = *n;
          int a = M.r.i(0, 8);
          bool unset = M.r.i(0, 3) == 0;
          int ok = 12345;
          M.at("trees", vp::str("attribute ", a, unset ? " unset" : ""));
          switch (a)
          {
            case 0:
            {
              auto s = mv::gen_string(M.r, true);
              ossia_node_set_description(n, unset ? nullptr : s.c_str());
              auto g = ossia_node_get_description(n);
              auto w = get_description(x);
              VCHECK(bool(g) == bool(w) && (!g || *w == g), "attribute.description", s);
              VCHECK(unset || s.empty() ? !g || !*g : g && s == g, "attribute.description", s);
              if (g)
                ossia_string_free((char*)g);
              break;
            }
            case 1:
            {
              auto s = M.r.pick(std::vector<std::string>{"filepath", "rgb", "x"});
              ossia_node_set_extended_type(n, unset ? nullptr : s.c_str());
              auto g = ossia_node_get_extended_type(n);
              auto w = get_extended_type(x);
              VCHECK(bool(g) == bool(w) && (!g || *w == g) && (unset || (g && s == g)), "attribute.extended_type", s, unset ? " unset " : " ", g ? g : "none", " ", w ? *w : "none");
              if (g)
                ossia_string_free((char*)g);
              break;
            }
            case 2:
            {
              std::vector<std::string> t;
              for (int i = M.r.i(0, 4); i > 0; i--)
                t.push_back(mv::gen_string(M.r, true));
              std::vector<const char*> ct;
              for (auto& z : t)
                ct.push_back(z.c_str());
              if (unset)
                t.clear();
              ossia_node_set_tags(n, unset ? nullptr : ct.data(), ct.size());
              char** g = (char**)1;
              size_t sz = 12345;
              ossia_node_get_tags(n, &g, &sz);
              VCHECK(sz == t.size() && bool(g) == !t.empty(), "attribute.tags", sz, " not ", t.size());
              for (size_t i = 0; i < std::min(sz, t.size()); i++)
                VCHECK(t[i] == g[i], "attribute.tags", t[i]);
              auto w = get_tags(x);
              VCHECK(t.empty() ? !w || w->empty() : w && *w == t, "attribute.tags", "set otherwise");
              if (sz < 100)
                ossia_tags_free(g, sz);
              break;
            }
            case 3:
              ossia_node_set_hidden(n, unset ? 0 : M.r.pick(std::vector<int>{1, 2, 256}));
              VCHECK(ossia_node_get_hidden(n) == int(!unset) && get_hidden(x) == !unset, "attribute.hidden", unset);
              break;
            case 4:
            {
              float f = mv::gen_float(M.r, false);
              unset ? ossia_node_unset_priority(n) : ossia_node_set_priority(n, f);
              auto g = ossia_node_get_priority(n, &ok);
              auto w = get_priority(x);
              VCHECK(ok == int(!unset) && bool(w) == !unset && (unset ? g == 0.f : mv::fsame(g, f) && mv::fsame(*w, f)), "attribute.priority", f);
              ossia_node_get_priority(n, nullptr);
              break;
            }
            case 5:
            {
              int f = mv::gen_int(M.r);
              unset ? ossia_node_unset_refresh_rate(n) : ossia_node_set_refresh_rate(n, f);
              auto g = ossia_node_get_refresh_rate(n, &ok);
              auto w = get_refresh_rate(x);
              VCHECK(ok == int(!unset) && bool(w) == !unset && (unset ? g == 0 : g == f && *w == f), "attribute.refresh_rate", f);
              ossia_node_get_refresh_rate(n, nullptr);
              break;
            }
            case 6:
            {
              double f = M.r.d(-10, 10);
              unset ? ossia_node_unset_value_step_size(n) : ossia_node_set_value_step_size(n, f);
              auto g = ossia_node_get_value_step_size(n, &ok);
              auto w = get_value_step_size(x);
              VCHECK(ok == int(!unset) && bool(w) == !unset && (unset ? g == 0. : g == f && *w == f), "attribute.step", f);
              ossia_node_get_value_step_size(n, nullptr);
              break;
            }
            case 7:
            {
              int lo = M.r.i(0, 5), hi = lo + M.r.i(0, 5), glo = -1, ghi = -1;
              unset ? ossia_node_unset_instance_bounds(n) : ossia_node_set_instance_bounds(n, lo, hi);
              ossia_node_get_instance_bounds(n, &glo, &ghi, &ok);
              auto w = get_instance_bounds(x);
              VCHECK(ok == int(!unset) && bool(w) == !unset && (unset || (glo == lo && ghi == hi && w->min_instances == lo && w->max_instances == hi)), "attribute.bounds", lo, " ", hi);
              break;
            }
            default:
            {
              auto v = make(gen());
              ossia_node_set_default_value(n, unset ? nullptr : v);
              auto g = ossia_node_get_default_value(n);
              auto w = get_default_value(x);
              VCHECK(unset ? !g && !w : w && vsame(g, *w) && (*w == v->value || !(v->value == v->value)), "attribute.default", mv::S(v->value), unset ? " unset" : "", g ? " C" : "", w ? " " + mv::S(*w) : "");
              ossia_value_free(g);
              ossia_value_free(v);
              break;
            }
          }
        }
      }
      VCHECK(e1.got == mi.created && e2.got == mi.removing && e3.got == mi.premoving && del.got == mi.deleting, "device.events", "step ", op, ": ", e1.got.size(), " ", mi.created.size(), " ", e2.got.size(), " ", mi.removing.size(), " ", e3.got.size(), " ", mi.premoving.size(), " ", del.got.size(), " ", mi.deleting.size());
    }
    VCHECK(other.got.empty(), "device.forgotten", other.got.size());
    ossia_device_remove_node_created_callback(dev, i1);
    ossia_device_remove_node_removing_callback(dev, i2);
    ossia_device_remove_parameter_deleting_callback(dev, i3);
    auto q1 = e1.got.size(), q2 = e2.got.size(), q3 = e3.got.size();
    if (auto c = ossia_node_create(croot, "/last"))
    {
      ossia_node_create_parameter(c, INT_T);
      ossia_node_remove_child(croot, c);
    }
    VCHECK(e1.got.size() == q1 && e2.got.size() == q2 && e3.got.size() == q3, "device.forgotten", "called");
    d.on_node_created.disconnect<&mirror::c>(mi);
    d.on_node_removing.disconnect<&mirror::r>(mi);
    d.on_parameter_removing.disconnect<&mirror::p>(mi);
    VCHECK(gone == 0, "device.free", "the protocol is gone");
    if (M.r.b())
      ossia_device_free(dev);
    else
      ossia_device_reset_static();
    VCHECK(gone == 1, "device.free", gone);
    VCHECK(!ossia_device_create(nullptr, name.c_str()), "device.free", "still known");
    ossia_protocol_free(cp);
    M.seen(h);
  }
}

// --------------------------------------------------------------- parameters
VP_SECTION(parameters)
{
  ossia_device_reset_static();
  for (int k = 0; k < M.n(100, 800); k++)
  {
    M.at("parameters", "case");
    auto sp = new spy;
    auto cp = new ossia_protocol{sp};
    auto dev = ossia_device_create(cp, "params");
    auto root = ossia_device_get_root_node(dev);
    std::vector<parameter_base*> ps;
    for (int i = 0; i < 4; i++)
      ps.push_back((parameter_base*)ossia_node_create_parameter(ossia_node_create(root, ("/p" + std::to_string(i)).c_str()), ctype(M.r.pick(types))));
    std::deque<events> evs;
    struct cb
    {
      int p, e;
      ossia_value_callback_idx_t idx;
    };
    std::vector<cb> cbs;
    std::map<int, bool> listening;
    ossia_mq_t mq = ossia_mq_create(dev);
    std::map<int, int> registered;
    std::deque<std::pair<parameter_base*, std::string>> queue;
    std::uint64_t h = 0;
    auto written = [&](int i, const std::string& what, bool push) {
      // one write to parameter i
      auto v = mv::S(ps[i]->value());
      if (push)
        VCHECK(sp->pushed.size() == 1 && sp->pushed[0].first == ps[i], "parameter.pushed", what, " ", sp->pushed.size());
      else
        VCHECK(sp->pushed.empty(), "parameter.pushed", what, " set");
      for (auto& c : cbs)
      {
        auto& e = evs[c.e];
        if (c.p == i)
          VCHECK(e.vals.size() == 1 && e.vals[0] == v, "parameter.called", what, " ", e.vals.size());
        else
          VCHECK(e.vals.empty(), "parameter.called", what, " of another");
        e.vals.clear();
      }
      if (registered[i] > 0)
        queue.push_back({ps[i], v});
      sp->pushed.clear();
    };
    for (int s = 0; s < 60; s++)
    {
      int i = M.r.i(0, 3), op = M.r.i(0, 12);
      auto p = ps[i];
      h = vp::mix(h, op * 4 + i);
      sp->pushed.clear();
      for (auto& e : evs)
        e.vals.clear();
      const auto before_value = p->value();
      // a value of another type takes that of the parameter, and what it lacks stays
      auto taken = [&](const ossia::value& v) {
        return mv::S(v.v.which() == before_value.v.which() ? v : ossia::convert(v, before_value));
      };
      M.at("parameters", vp::str("step ", op));
      switch (op)
      {
        case 0:
        {
          auto v = make(gen());
          auto what = mv::S(v->value);
          auto want = taken(v->value);
          bool push = M.r.b();
          push ? ossia_parameter_push_value(p, v) : ossia_parameter_set_value(p, v);
          VCHECK(mv::S(p->value()) == want, "parameter.value", what, " gives ", mv::S(p->value()), " not ", want);
          written(i, what, push);
          ossia_value_free(v);
          break;
        }
        case 1:
        case 2:
        {
          // each of the typed functions
          int f = M.r.i(0, 13);
          ossia::value v;
          auto x = [&] { return mv::gen_float(M.r, false); };
          float a = x(), b = x(), c = x(), d = x();
          switch (f)
          {
            case 0: v = ossia::impulse{}; ossia_parameter_push_impulse(p); break;
            case 1:
            {
              int n = mv::gen_int(M.r);
              v = n;
              ossia_parameter_push_i(p, n);
              break;
            }
            case 2:
            {
              int n = M.r.pick(std::vector<int>{0, 1, 2, 256, -1});
              v = bool(n);
              ossia_parameter_push_b(p, n);
              break;
            }
            case 3: v = a; ossia_parameter_push_f(p, a); break;
            case 4: v = ossia::make_vec(a, b); ossia_parameter_push_2f(p, a, b); break;
            case 5: v = ossia::make_vec(a, b, c); ossia_parameter_push_3f(p, a, b, c); break;
            case 6: v = ossia::make_vec(a, b, c, d); ossia_parameter_push_4f(p, a, b, c, d); break;
            case 7:
            {
              char n = char(M.r.i(-128, 127));
              v = n;
              ossia_parameter_push_c(p, n);
              break;
            }
            case 8:
            {
              auto t = mv::gen_string(M.r, false);
              v = t;
              ossia_parameter_push_s(p, t.c_str());
              break;
            }
            case 9: v = std::string{}; ossia_parameter_push_s(p, nullptr); break;
            case 10:
            case 11:
            {
              std::vector<int> n;
              std::vector<float> m;
              std::vector<ossia::value> l;
              for (int z = M.r.i(0, 5); z > 0; z--)
              {
                n.push_back(mv::gen_int(M.r));
                m.push_back(x());
                l.push_back(f == 10 ? ossia::value{n.back()} : ossia::value{m.back()});
              }
              n.push_back(0);
              m.push_back(0);
              v = l;
              f == 10 ? ossia_parameter_push_in(p, n.data(), l.size()) : ossia_parameter_push_fn(p, m.data(), l.size());
              break;
            }
            case 12:
            {
              std::string t = mv::gen_string(M.r, false) + std::string("\0x", M.r.i(0, 2));
              v = t;
              ossia_parameter_push_cn(p, t.data(), t.size());
              break;
            }
            default:
            {
              std::vector<ossia_value_t> n;
              std::vector<ossia::value> l;
              for (int z = M.r.i(1, 5); z > 0; z--)
              {
                n.push_back(make(gen(1)));
                l.push_back(n.back()->value);
              }
              v = l;
              ossia_parameter_push_list(p, n.data(), n.size());
              for (auto z : n)
                ossia_value_free(z);
              break;
            }
          }
          auto what = vp::str("function ", f, " ", mv::S(v));
          VCHECK(mv::S(p->value()) == taken(v), "parameter.value", what, " gives ", mv::S(p->value()));
          written(i, what, true);
          break;
        }
        case 3:
        case 4:
        {
          auto v = p->value();
          auto c = ossia_parameter_get_value(p);
          VCHECK(vsame(c, v), "parameter.get", mv::S(v));
          ossia_value_free(c);
          sp->pulled.clear();
          c = ossia_parameter_fetch_value(p);
          VCHECK(vsame(c, v) && sp->pulled.size() == 1 && sp->pulled[0] == p, "parameter.fetch", mv::S(v));
          ossia_value_free(c);
          vp::no_throw("parameter.throws", [&] {
            reading("parameter ", v, (ossia_parameter_t)p, ossia_parameter_to_int, ossia_parameter_to_float, ossia_parameter_to_2f, ossia_parameter_to_3f, ossia_parameter_to_4f, ossia_parameter_to_bool, ossia_parameter_to_char, ossia_parameter_to_byte_array, ossia_parameter_to_string, ossia_parameter_to_list, ossia_parameter_to_fn, ossia_parameter_to_in);
          });
          break;
        }
        case 5:
        {
          evs.emplace_back();
          if (M.r.i(0, 4) == 0)
          {
            ossia_parameter_push_callback(p, on_value, &evs.back());
            cbs.push_back({i, int(evs.size()) - 1, nullptr});
          }
          else
          {
            auto idx = ossia_parameter_add_callback(p, on_value, &evs.back());
            VCHECK(idx, "parameter.callback", "no index");
            cbs.push_back({i, int(evs.size()) - 1, idx});
          }
          break;
        }
        case 6:
          if (!cbs.empty())
          {
            auto it = cbs.begin() + M.r.i(0, int(cbs.size()) - 1);
            if (it->idx)
            {
              ossia_parameter_remove_callback(ps[it->p], it->idx);
              cbs.erase(it);
            }
          }
          break;
        case 7:
        {
          // observed by the protocol exactly while somebody listens
          bool on = M.r.b();
          sp->observed.clear();
          bool before = listening[i] || registered[i] > 0 || std::any_of(cbs.begin(), cbs.end(), [&](auto& c) { return c.p == i; });
          ossia_parameter_set_listening(p, on);
          listening[i] = on;
          bool after = listening[i] || registered[i] > 0 || std::any_of(cbs.begin(), cbs.end(), [&](auto& c) { return c.p == i; });
          VCHECK(sp->observed.size() == (before != after) && (before == after || sp->observed[0] == std::pair<const parameter_base*, bool>(p, after)), "parameter.listening", on ? "on" : "off", " observed ", sp->observed.size(), " before ", before, " after ", after);
          break;
        }
        case 8:
        {
          auto am = M.r.i(0, 2), bm = M.r.i(0, 5);
          static const ossia::access_mode ams[] = {ossia::access_mode::BI, ossia::access_mode::GET, ossia::access_mode::SET};
          static const ossia::bounding_mode bms[] = {ossia::bounding_mode::FREE, ossia::bounding_mode::CLIP, ossia::bounding_mode::WRAP, ossia::bounding_mode::FOLD, ossia::bounding_mode::LOW, ossia::bounding_mode::HIGH};
          ossia_parameter_set_access_mode(p, ossia_access_mode(am));
          VCHECK(p->get_access() == ams[am] && ossia_parameter_get_access_mode(p) == am, "parameter.access", am);
          ossia_parameter_set_bounding_mode(p, ossia_bounding_mode(bm));
          VCHECK(bms[ossia_parameter_get_bounding_mode(p)] == p->get_bounding() && (p->get_bounding() == bms[bm] || p->get_value_type() == ossia::val_type::BOOL), "parameter.bounding", bm, " ", int(p->get_bounding()), " ", int(ossia_parameter_get_bounding_mode(p)));
          // without it everything is sent as it is
          ossia_parameter_set_bounding_mode(p, FREE);
          ossia_parameter_set_access_mode(p, BI);
          break;
        }
        case 9:
        {
          auto v = M.r.pick(std::vector<int>{0, 1, 2, 256});
          ossia_parameter_set_disabled(p, v);
          VCHECK(p->get_disabled() == (v != 0) && ossia_parameter_get_disabled(p) == (v != 0), "parameter.disabled", v);
          ossia_parameter_set_disabled(p, 0);
          ossia_parameter_set_muted(p, v);
          VCHECK(p->get_muted() == (v != 0) && ossia_parameter_get_muted(p) == (v != 0), "parameter.muted", v);
          ossia_parameter_set_muted(p, 0);
          ossia_parameter_set_critical(p, v);
          VCHECK(p->get_critical() == (v != 0) && ossia_parameter_get_critical(p) == (v != 0), "parameter.critical", v);
          ossia_parameter_set_repetition_filter(p, v);
          VCHECK((p->get_repetition_filter() == ossia::repetition_filter::ON) == (v != 0) && ossia_parameter_get_repetition_filter(p) == (v != 0), "parameter.repetition", v);
          ossia_parameter_set_repetition_filter(p, 0);
          break;
        }
        case 10:
        {
          auto d = ossia_domain_make_min_max(nullptr, nullptr);
          ossia_domain_free(d);
          auto lo = make(mv::from(p->value())), hi = make(mv::from(p->value()));
          d = ossia_domain_make_min_max(lo, hi);
          if (d)
          {
            ossia_parameter_set_domain(p, d);
            auto g = ossia_parameter_get_domain(p);
            VCHECK(g && g->domain == p->get_domain() && p->get_domain() == d->domain, "parameter.domain", mv::S(lo->value));
            ossia_domain_free(g);
            ossia_domain_free(d);
          }
          ossia_value_free(lo);
          ossia_value_free(hi);
          break;
        }
        case 11:
        {
          static const std::vector<std::string> us{"color.rgb", "position.cart3D", "gain.db", "time.second", "angle.degree", "", "no.unit"};
          auto u = M.r.pick(us);
          // units set the type of what has none of them
          if (ossia::parse_pretty_unit(u) && ossia::matching_type(ossia::parse_pretty_unit(u)) != p->get_value_type())
            break;
          ossia_parameter_set_unit(p, u.c_str());
          auto g = ossia_parameter_get_unit(p);
          VCHECK(p->get_unit() == ossia::parse_pretty_unit(u) && std::string(g ? g : "") == std::string(ossia::get_pretty_unit_text(p->get_unit())), "parameter.unit", u);
          ossia_parameter_set_unit(p, "");
          break;
        }
        default:
        {
          // the queue
          if (M.r.b())
          {
            int n = M.r.i(0, 3);
            if (n)
            {
              ossia_mq_register(mq, p);
              registered[i]++;
            }
            else if (registered[i] > 0)
            {
              ossia_mq_unregister(mq, p);
              registered[i]--;
            }
          }
          else
          {
            for (int n = M.r.i(0, 5); n > 0; n--)
            {
              ossia_parameter_t a{};
              ossia_value_t v{};
              int r = ossia_mq_pop(mq, &a, &v);
              if (!VCHECK(r == int(!queue.empty()), "queue.pop", r, " of ", queue.size()) || !r)
                break;
              VCHECK(a == queue.front().first && mv::S(v->value) == queue.front().second, "queue.order", queue.front().second);
              ossia_value_free(v);
              queue.pop_front();
            }
          }
        }
      }
    }
    ossia_mq_free(mq);
    for (auto& c : cbs)
      if (c.idx)
        ossia_parameter_free_callback_idx(c.idx);
    ossia_device_free(dev);
    ossia_protocol_free(cp);
    M.seen(h);
  }
}

// what is null is refused
VP_SECTION(nulls)
{
  M.at("nulls", "all");
  ossia_device_reset_static();
  auto v = ossia_value_create_int(3);
  auto cp = new ossia_protocol{new spy};
  auto dev = ossia_device_create(cp, "nulls");
  auto root = ossia_device_get_root_node(dev);
  auto node = ossia_node_create(root, "/a");
  auto par = ossia_node_create_parameter(node, INT_T);
  events e;
  size_t n = 12345;
  char* s = (char*)1;
  char** ss{};
  ossia_value_t* l = (ossia_value_t*)1;
  float* f = (float*)1;
  int *ip = (int*)1, i = 0;
  vp::no_throw("null.throws", [&] {
    VCHECK(ossia_value_to_int(nullptr) == 0 && ossia_value_to_float(nullptr) == 0.f && ossia_value_to_bool(nullptr) == 0 && ossia_value_to_char(nullptr) == 0 && !ossia_value_to_string(nullptr), "null.value", "read");
    VCHECK(ossia_value_convert_int(nullptr) == 0 && ossia_value_convert_float(nullptr) == 0.f && ossia_value_convert_bool(nullptr) == 0 && ossia_value_convert_char(nullptr) == 0, "null.value", "converted");
    VCHECK(ossia_value_to_2f(nullptr).val[1] == 0.f && ossia_value_to_3f(nullptr).val[2] == 0.f && ossia_value_to_4f(nullptr).val[3] == 0.f && ossia_value_convert_2f(nullptr).val[0] == 0.f && ossia_value_convert_3f(nullptr).val[0] == 0.f && ossia_value_convert_4f(nullptr).val[0] == 0.f, "null.value", "vectors");
    auto reset = [&] { s = (char*)1, l = (ossia_value_t*)1, f = (float*)1, ip = (int*)1, n = 12345; };
    auto out = [&](const char* w, auto fun, auto handle, auto& p) {
      reset();
      fun(nullptr, &p, &n);
      VCHECK(!p && n == 0, "null.outputs", w);
      reset();
      fun(handle, nullptr, &n);
      VCHECK(n == 0, "null.outputs", w);
      fun(handle, &p, nullptr);
      VCHECK(!p, "null.outputs", w);
      fun(nullptr, nullptr, nullptr);
    };
    out("value bytes", ossia_value_to_byte_array, v, s);
    out("value list", ossia_value_to_list, v, l);
    out("value floats", ossia_value_to_fn, v, f);
    out("value ints", ossia_value_to_in, v, ip);
    out("convert bytes", ossia_value_convert_byte_array, v, s);
    out("convert list", ossia_value_convert_list, v, l);
    out("parameter bytes", ossia_parameter_to_byte_array, par, s);
    out("parameter list", ossia_parameter_to_list, par, l);
    out("parameter floats", ossia_parameter_to_fn, par, f);
    out("parameter ints", ossia_parameter_to_in, par, ip);
    auto d = ossia_domain_create();
    out("domain values", ossia_domain_get_values, d, l);
    ossia_domain_set_min(d, nullptr);
    ossia_domain_set_max(nullptr, v);
    ossia_domain_set_values(d, nullptr, 3);
    ossia_domain_set_values(nullptr, nullptr, 0);
    VCHECK(!d->domain && !ossia_domain_get_min(nullptr) && !ossia_domain_get_max(nullptr), "null.domain", "changed");
    ossia_domain_free(d);
    ossia_domain_free(nullptr);
    ossia_node_remove_child(nullptr, node);
    ossia_node_remove_child(root, nullptr);
    VCHECK(!ossia_node_get_name(nullptr) && !ossia_node_get_device(nullptr) && !ossia_node_find(nullptr, "/a") && !ossia_node_create(nullptr, "/a") && !ossia_node_add_child(nullptr, "a") && ossia_node_child_size(nullptr) == 0 && !ossia_node_get_child(nullptr, 0) && !ossia_node_find_child(nullptr, "a") && !ossia_node_find_child(node, nullptr), "null.node", "found");
    VCHECK(!ossia_node_create_parameter(nullptr, INT_T) && !ossia_create_parameter(nullptr, "/a", "int") && !ossia_create_parameter(root, nullptr, "int") && !ossia_create_parameter(root, "/b", nullptr) && !ossia_node_get_parameter(nullptr), "null.node", "parameter");
    ossia_node_remove_parameter(nullptr);
    VCHECK(!ossia_node_add_deleting_callback(nullptr, on_node, &e) && !ossia_node_add_deleting_callback(node, nullptr, &e), "null.node", "callback");
    ossia_node_remove_deleting_callback(node, nullptr);
    ossia_node_remove_deleting_callback(nullptr, nullptr);
    ossia_node_set_description(nullptr, "x");
    ossia_node_set_extended_type(nullptr, "x");
    ossia_node_set_tags(nullptr, nullptr, 0);
    ossia_node_get_tags(nullptr, &ss, &n);
    ossia_node_set_hidden(nullptr, 1);
    ossia_node_set_default_value(nullptr, v);
    VCHECK(!ossia_node_get_description(nullptr) && !ossia_node_get_extended_type(nullptr) && ossia_node_get_hidden(nullptr) == 0 && !ossia_node_get_default_value(nullptr), "null.node", "attributes");
    i = 5;
    VCHECK(ossia_node_get_priority(nullptr, &i) == 0 && i == 0, "null.node", "priority");
    i = 5;
    VCHECK(ossia_node_get_refresh_rate(nullptr, &i) == 0 && i == 0, "null.node", "refresh rate");
    i = 5;
    VCHECK(ossia_node_get_value_step_size(nullptr, &i) == 0 && i == 0, "null.node", "step");
    i = 5;
    int a{}, b{};
    ossia_node_get_instance_bounds(nullptr, &a, &b, &i);
    VCHECK(i == 0, "null.node", "bounds");
    ossia_node_set_priority(nullptr, 1);
    ossia_node_unset_priority(nullptr);
    ossia_node_set_refresh_rate(nullptr, 1);
    ossia_node_unset_refresh_rate(nullptr);
    ossia_node_set_value_step_size(nullptr, 1);
    ossia_node_unset_value_step_size(nullptr);
    ossia_node_set_instance_bounds(nullptr, 1, 2);
    ossia_node_unset_instance_bounds(nullptr);
    // parameters
    ossia_parameter_push_value(nullptr, v);
    ossia_parameter_push_value(par, nullptr);
    ossia_parameter_set_value(nullptr, v);
    ossia_parameter_set_value(par, nullptr);
    ossia_parameter_push_impulse(nullptr);
    ossia_parameter_push_i(nullptr, 1);
    ossia_parameter_push_b(nullptr, 1);
    ossia_parameter_push_f(nullptr, 1);
    ossia_parameter_push_2f(nullptr, 1, 1);
    ossia_parameter_push_3f(nullptr, 1, 1, 1);
    ossia_parameter_push_4f(nullptr, 1, 1, 1, 1);
    ossia_parameter_push_c(nullptr, 1);
    ossia_parameter_push_s(nullptr, "");
    ossia_parameter_push_in(nullptr, &i, 1);
    ossia_parameter_push_in(par, nullptr, 1);
    float fl{};
    ossia_parameter_push_fn(nullptr, &fl, 1);
    ossia_parameter_push_fn(par, nullptr, 1);
    ossia_parameter_push_cn(nullptr, "a", 1);
    ossia_parameter_push_cn(par, nullptr, 1);
    ossia_parameter_push_list(nullptr, &v, 1);
    ossia_parameter_push_list(par, nullptr, 1);
    VCHECK(ossia_parameter_to_int(par) == 0, "null.parameter", "changed");
    VCHECK(!ossia_parameter_get_node(nullptr) && !ossia_parameter_get_value(nullptr) && !ossia_parameter_fetch_value(nullptr) && !ossia_parameter_get_domain(nullptr) && !ossia_parameter_get_unit(nullptr) && !ossia_parameter_to_string(nullptr), "null.parameter", "something");
    VCHECK(ossia_parameter_to_int(nullptr) == 0 && ossia_parameter_to_float(nullptr) == 0.f && ossia_parameter_to_bool(nullptr) == 0 && ossia_parameter_to_char(nullptr) == 0 && ossia_parameter_to_2f(nullptr).val[0] == 0.f && ossia_parameter_to_3f(nullptr).val[0] == 0.f && ossia_parameter_to_4f(nullptr).val[0] == 0.f, "null.parameter", "read");
    VCHECK(ossia_parameter_get_access_mode(nullptr) == BI && ossia_parameter_get_bounding_mode(nullptr) == FREE && ossia_parameter_get_disabled(nullptr) == 0 && ossia_parameter_get_muted(nullptr) == 0 && ossia_parameter_get_critical(nullptr) == 0 && ossia_parameter_get_repetition_filter(nullptr) == 0, "null.parameter", "attributes");
    ossia_parameter_set_access_mode(nullptr, GET);
    ossia_parameter_set_bounding_mode(nullptr, CLIP);
    ossia_parameter_set_domain(nullptr, nullptr);
    ossia_parameter_set_domain(par, nullptr);
    ossia_parameter_set_unit(nullptr, "color.rgb");
    ossia_parameter_set_disabled(nullptr, 1);
    ossia_parameter_set_muted(nullptr, 1);
    ossia_parameter_set_critical(nullptr, 1);
    ossia_parameter_set_repetition_filter(nullptr, 1);
    ossia_parameter_set_listening(nullptr, 1);
    VCHECK(!ossia_parameter_add_callback(nullptr, on_value, &e) && !ossia_parameter_add_callback(par, nullptr, &e), "null.parameter", "callback");
    ossia_parameter_push_callback(nullptr, on_value, &e);
    ossia_parameter_push_callback(par, nullptr, &e);
    ossia_parameter_remove_callback(nullptr, nullptr);
    ossia_parameter_remove_callback(par, nullptr);
    ossia_parameter_push_i(par, 7);
    VCHECK(ossia_parameter_to_int(par) == 7, "null.parameter", "lost");
    // devices
    VCHECK(!ossia_device_get_name(nullptr) && !ossia_device_get_root_node(nullptr) && !ossia_device_update_namespace(nullptr), "null.device", "something");
    VCHECK(!ossia_device_add_node_created_callback(nullptr, on_node, &e) && !ossia_device_add_node_created_callback(dev, nullptr, &e) && !ossia_device_add_node_removing_callback(nullptr, on_node, &e) && !ossia_device_add_node_removing_callback(dev, nullptr, &e) && !ossia_device_add_parameter_deleting_callback(nullptr, on_node, &e) && !ossia_device_add_parameter_deleting_callback(dev, nullptr, &e), "null.device", "callback");
    ossia_device_remove_node_created_callback(nullptr, nullptr);
    ossia_device_remove_node_created_callback(dev, nullptr);
    ossia_device_remove_node_removing_callback(nullptr, nullptr);
    ossia_device_remove_node_removing_callback(dev, nullptr);
    ossia_device_remove_parameter_deleting_callback(nullptr, nullptr);
    ossia_device_remove_parameter_deleting_callback(dev, nullptr);
    ossia_device_free(nullptr);
    ossia_protocol_free(nullptr);
    ossia_protocol_multiplex_expose_to(nullptr, cp);
    ossia_protocol_multiplex_expose_to(cp, nullptr);
    // what is no multiplexer exposes nothing
    auto other = new ossia_protocol{new spy};
    ossia_protocol_multiplex_expose_to(cp, other);
    delete other->protocol;
    ossia_protocol_free(other);
    VCHECK(ossia_node_get_child(root, 0) == node && ossia_node_child_size(root) == 1 && ossia_node_get_parameter(node) == par, "null.device", "changed");
  });
  ossia_value_free(v);
  ossia_device_free(dev);
  ossia_protocol_free(cp);
  // a multiplexer passes everything on
  for (int k = 0; k < M.n(20, 100); k++)
  {
    auto mp = ossia_protocol_multiplex_create();
    int gone = 0;
    auto sp = new spy;
    sp->gone = &gone;
    auto cp = new ossia_protocol{sp};
    auto dv = ossia_device_create(mp, "multi");
    ossia_protocol_multiplex_expose_to(mp, cp);
    auto p = ossia_node_create_parameter(ossia_node_create(ossia_device_get_root_node(dv), "/x"), INT_T);
    int x = mv::gen_int(M.r);
    ossia_parameter_push_i(p, x);
    VCHECK(sp->pushed.size() == 1 && sp->pushed[0].first == p && sp->pushed[0].second == mv::S(ossia::value{x}), "multiplex.push", sp->pushed.size());
    ossia_device_free(dv);
    VCHECK(gone == 1, "multiplex.free", gone);
    ossia_protocol_free(cp);
    ossia_protocol_free(mp);
    M.seen(vp::mix(k, x));
  }
}
VP_MAIN
