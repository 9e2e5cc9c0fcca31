// C09: range algorithms, lookup containers, compile-time iteration, math helpers.
#include "vp.hpp"
#include <ossia/detail/algorithms.hpp>
#include <ossia/detail/any_map.hpp>
#include <ossia/detail/apply_type.hpp>
#include <ossia/detail/closest_element.hpp>
#include <ossia/detail/constexpr_string_map.hpp>
#include <ossia/detail/destination_index.hpp>
#include <ossia/detail/flat_map.hpp>
#include <ossia/detail/for_each.hpp>
#include <ossia/detail/for_each_in_tuple.hpp>
#include <ossia/detail/hash_map.hpp>
#include <ossia/detail/json.hpp>
#include <ossia/detail/math.hpp>
#include <ossia/detail/mpl.hpp>
#include <ossia/detail/optional.hpp>
#include <ossia/detail/packed_struct.hpp>
#include <ossia/detail/pod_vector.hpp>
#include <ossia/detail/ptr_container.hpp>
#include <ossia/detail/ptr_set.hpp>
#include <ossia/detail/safe_vec.hpp>
#include <ossia/detail/size.hpp>
#include <ossia/detail/small_flat_map.hpp>
#include <ossia/detail/small_vector.hpp>
#include <ossia/detail/string_map.hpp>
#include <ossia/detail/string_view.hpp>
#include <ossia/detail/to_tuple.hpp>
#include <ossia/detail/typelist.hpp>
#include <list>
#include <unordered_map>
using vp::M;

template <typename C>
static std::string show(const C& c)
{
  std::string s = "{";
  size_t n = 0;
  for (auto& e : c)
    if (n++ < 40) s += vp::str(e, " ");
  return s + "}";
}
static std::vector<int> ints(int maxn, int range)
{
  std::vector<int> v(M.r.i(0, maxn));
  for (auto& x : v) x = M.r.i(-range, range);
  return v;
}

// ---------------------------------------------------------------- algorithms
template <typename V>
static void algo(const char* cname)
{
  for (size_t k = 0; k < M.n(3000); k++)
  {
    auto base = ints(12, M.r.b() ? 3 : 1000);
    V v(base.begin(), base.end());
    int x = base.empty() || M.r.b(1, 3) ? M.r.i(-4, 4) : M.r.pick(base);
    int th = M.r.i(-3, 3);
    auto pred = [&](int i) { return i > th; };
    std::string d = vp::str(cname, " ", show(base), " x=", x, " th=", th);
    M.at("algorithms", d);
    M.seen(vp::hash_str(d));
    M.sample(d);
    size_t pos = 0, ppos = 0;
    while (pos < base.size() && base[pos] != x) pos++;
    while (ppos < base.size() && base[ppos] <= th) ppos++;
    auto cnt = [&] { size_t c = 0; for (int i : base) c += i > th; return c; }();
    VCHECK((size_t)std::distance(v.begin(), ossia::find(v, x)) == pos, "find", d);
    VCHECK((size_t)std::distance(v.begin(), ossia::find_if(v, pred)) == ppos, "find_if", d);
    auto* p = ossia::ptr_find(v, x);
    VCHECK((p == nullptr) == (pos == base.size()) && (!p || p == &*std::next(v.begin(), pos)), "ptr_find", d);
    auto* p2 = ossia::ptr_find_if(v, pred);
    VCHECK((p2 == nullptr) == (ppos == base.size()) && (!p2 || p2 == &*std::next(v.begin(), ppos)), "ptr_find_if", d);
    VCHECK(ossia::contains(v, x) == (pos < base.size()), "contains", d);
    VCHECK(ossia::any_of(v, pred) == (cnt > 0), "any_of", d);
    VCHECK(ossia::all_of(v, pred) == (cnt == base.size()), "all_of", d);
    VCHECK(ossia::none_of(v, pred) == (cnt == 0), "none_of", d);
    VCHECK((size_t)ossia::count_if(v, pred) == cnt, "count_if", d);
    if (!base.empty())
    {
      auto it = ossia::max_element(v, [](int a, int b) { return a < b; });
      size_t mi = 0;
      for (size_t i = 0; i < base.size(); i++)
        if (base[i] > base[mi]) mi = i;
      VCHECK((size_t)std::distance(v.begin(), it) == mi, "max_element", d);
    }
    auto same = [&](const char* rule, const auto& got, const std::vector<int>& want) {
      VCHECK(std::equal(got.begin(), got.end(), want.begin(), want.end()), rule, d, " -> ", show(got), " want ", show(want));
    };
    {
      V w = v; auto m = base;
      ossia::remove_one(w, x);
      if (pos < m.size()) m.erase(m.begin() + pos);
      same("remove_one", w, m);
    }
    {
      V w = v; auto m = base;
      ossia::remove_one_if(w, pred);
      if (ppos < m.size()) m.erase(m.begin() + ppos);
      same("remove_one_if", w, m);
    }
    std::vector<int> nox, noth, th_only;
    for (int i : base)
    {
      if (i != x) nox.push_back(i);
      if (!pred(i)) noth.push_back(i);
      else th_only.push_back(i);
    }
    { V w = v; ossia::remove_erase(w, x); same("remove_erase", w, nox); }
    { V w = v; ossia::remove_erase_if(w, pred); same("remove_erase_if", w, noth); }
    { V w = v; ossia::erase_if(w, pred); same("erase_if", w, noth); }
    { V w = v; auto it = ossia::remove_if(w, pred); w.erase(it, w.end()); same("remove_if", w, noth); }
    { V w; ossia::copy_if(v, w, pred); same("copy_if", w, th_only); }
    { V w = v; ossia::copy_if(v, w, pred); auto m = base; m.insert(m.end(), th_only.begin(), th_only.end()); same("copy_if_appends", w, m); }
    { V w = v; ossia::fill(w, x); same("fill", w, std::vector<int>(base.size(), x)); }
    { V w = v; auto it = ossia::unique(w); w.erase(it, w.end());
      std::vector<int> m; for (int i : base) if (m.empty() || m.back() != i) m.push_back(i);
      same("unique", w, m); }
    { std::vector<int> w; ossia::transform(v, std::back_inserter(w), [](int i) { return 2 * i + 1; });
      std::vector<int> m; for (int i : base) m.push_back(2 * i + 1);
      same("transform", w, m); }
    auto other = M.r.b() ? base : ints(12, 3);
    if (M.r.b(1, 3)) { other = base; if (M.r.b() && !other.empty()) other.pop_back(); else other.push_back(1); }
    VCHECK(ossia::equal(base, other) == (base == other), "equal", d, " other ", show(other));
    {
      std::vector<int> dst = other;
      V w(dst.begin(), dst.end());
      ossia::insert_at_end(dst, std::vector<int>(base));
      auto m = other;
      m.insert(m.end(), base.begin(), base.end());
      same("insert_at_end", dst, m);
    }
    if constexpr (!std::is_same_v<V, std::list<int>>)
    {
      { V w = v; ossia::sort(w); auto m = base; std::stable_sort(m.begin(), m.end()); same("sort", w, m); }
      { V w = v; ossia::sort(w, std::greater<>{}); auto m = base; std::stable_sort(m.begin(), m.end(), std::greater<>{}); same("sort_by", w, m); }
      { V w = v; ossia::remove_duplicates(w); std::set<int> s(base.begin(), base.end()); same("remove_duplicates", w, std::vector<int>(s.begin(), s.end())); }
      { V w(other.begin(), other.end()); ossia::copy(v, w); auto m = other; m.insert(m.end(), base.begin(), base.end()); same("copy_appends", w, m); }
      {
        V w; std::vector<int> m;
        for (int i : base)
        {
          auto it = ossia::emplace_sorted(w, i, std::less<>{}, i);
          VCHECK(*it == i, "emplace_sorted_returns", d);
          m.push_back(i);
          std::stable_sort(m.begin(), m.end());
        }
        same("emplace_sorted", w, m);
      }
    }
  }
}
VP_SECTION(algo_vector) { algo<std::vector<int>>("vector"); }
VP_SECTION(algo_small) { algo<ossia::small_vector<int, 4>>("small_vector"); algo<ossia::int_vector>("pod_vector"); algo<ossia::small_pod_vector<int, 4>>("small_pod_vector"); }
VP_SECTION(algo_list) { algo<std::list<int>>("list"); }

VP_SECTION(closest)
{
  for (size_t k = 0; k < M.n(15000); k++)
  {
    std::set<int> s;
    for (int n = M.r.i(1, 9); n-- > 0;) s.insert(M.r.i(-50, 50));
    std::vector<int> v(s.begin(), s.end());
    std::vector<double> vd(s.begin(), s.end());
    int x = M.r.i(-60, 60);
    double xd = x + M.r.pick(std::array{0., 0.25, 0.5, -0.25});
    std::string d = vp::str(show(v), " near ", xd);
    M.at("closest_element", d);
    M.seen(d);
    M.sample(d);
    // nearest, the greater on a tie
    auto near = [&](double y) { double b = v[0]; for (int i : v) if (std::abs(i - y) <= std::abs(b - y)) b = i; return b; };
    VCHECK(ossia::closest_element(v, x) == near(x), "closest_element", d, " -> ", ossia::closest_element(v, x));
    VCHECK(ossia::closest_element(vd, xd) == near(xd), "closest_element_double", d, " -> ", ossia::closest_element(vd, xd));
    // walking forward from an element: the first local minimum of the distance
    size_t from = M.r.i(0, v.size() - 1);
    size_t want = from;
    while (want + 1 < v.size() && !(std::abs(v[want] - xd) < std::abs(v[want + 1] - xd))) want++;
    auto it = ossia::closest_next_element(vd.begin() + from, vd.end(), xd);
    VCHECK(size_t(it - vd.begin()) == want, "closest_next", d, " from ", from, " -> ", it - vd.begin());
    std::vector<std::pair<double, int>> pv;
    for (int i : v) pv.push_back({i, -i});
    auto pit = ossia::closest_next_element<double, int>(pv.cbegin() + from, pv.cend(), xd);
    VCHECK(size_t(pit - pv.cbegin()) == want, "closest_next_pair", d, " from ", from, " -> ", pit - pv.cbegin());
    // last element not after a key, the first one when there is none
    std::map<int, int> m;
    for (int i : v) m[i] = i * 2;
    auto lb = ossia::last_before(m, x);
    int lw = v[0];
    for (int i : v) if (i <= x) lw = i;
    VCHECK(lb != m.end() && lb->first == lw, "last_before", d, " x=", x, " want ", lw);
    std::map<int, int> e;
    VCHECK(ossia::last_before(e, x) == e.end(), "last_before_empty", d);
  }
}

// ---------------------------------------------------------------- maps
static std::string key()
{
  static const char* keys[] = {"", "a", "b", "ab", "abc", "abcd", "abcde", "description", "/foo/bar", "/foo/bar.1", "\xc3\xa9t\xc3\xa9"};
  if (M.r.b()) return M.r.pick(keys);
  std::string s(M.r.i(0, 9), 0);
  for (auto& c : s) c = M.r.b(1, 6) ? char(M.r.next()) : char('a' + M.r.i(0, 2));
  return s;
}
template <typename Map, typename K, typename Gen>
static void map_model(const char* name, Gen gen)
{
  for (size_t k = 0; k < M.n(250); k++)
  {
    Map m;
    std::map<K, int> ref;
    std::vector<K> keys;
    for (int i = 0; i < 60; i++) keys.push_back(gen());
    std::string hist;
    for (int op = 0; op < 80; op++)
    {
      auto& kk = keys[M.r.i(0, M.r.b() ? 8 : 59)];
      int v = M.r.i(0, 1000), o = M.r.i(0, 5);
      M.at("map_model", vp::str(name, " op ", o, " #", op));
      if (o <= 1) { bool a = m.insert(std::pair<K, int>{kk, v}).second, b = ref.insert({kk, v}).second; VCHECKC(a == b, "map_insert", std::string(name), op); }
      else if (o == 2) { m[kk] = v; ref[kk] = v; }
      else if (o == 3) { auto a = m.erase(kk), b = ref.erase(kk); VCHECKC(a == b, "map_erase", std::string(name), op); }
      else if (o == 4)
      {
        auto a = m.find(kk);
        auto b = ref.find(kk);
        VCHECKC((a == m.end()) == (b == ref.end()), "map_find", std::string(name), op);
        if (a != m.end()) VCHECKC(a->second == b->second && a->first == b->first, "map_find_value", std::string(name), op);
      }
      else { Map c = m; m = std::move(c); }
      VCHECKC(m.size() == ref.size(), "map_size", std::string(name), m.size(), " want ", ref.size());
      M.seen(vp::mix(vp::hash_str(name), vp::mix(ref.size(), o * 1000 + v)));
    }
    std::map<K, int> out;
    for (auto& e : m) out.insert({e.first, e.second});
    VCHECKC(out == ref, "map_content", std::string(name), out.size(), " want ", ref.size());
  }
}
VP_SECTION(maps)
{
  map_model<ossia::string_map<int>, std::string>("string_map", key);
  map_model<ossia::fast_hash_map<int, int>, int>("fast_hash_map", [] { return int(M.r.i(-100, 100)); });
  map_model<ossia::fast_hash_map<std::string, int>, std::string>("fast_hash_map_s", key);
  static std::vector<std::unique_ptr<double[]>> pool;
  for (int i = 0; i < 100; i++) pool.emplace_back(new double[3]);
  map_model<ossia::ptr_map<double*, int>, double*>("ptr_map", [] { return &pool[M.r.i(0, 99)][M.r.i(0, 2)]; });
  // heterogeneous lookups and views
  for (size_t k = 0; k < M.n(3000); k++)
  {
    ossia::string_map<int> m;
    ossia::string_view_map<int> vm;
    std::vector<std::string> ks(M.r.i(0, 20));
    for (auto& s : ks) s = key();
    std::map<std::string, int> ref;
    for (size_t i = 0; i < ks.size(); i++) { m.insert({ks[i], int(i)}); vm.insert({std::string_view(ks[i]), int(i)}); ref.insert({ks[i], int(i)}); }
    auto q = key();
    M.at("string_lookup", q);
    std::string padded = "x" + q + "y";
    std::string_view sv(padded.data() + 1, q.size());
    auto r = ref.find(q);
    auto ok = [&](auto it, auto end) { return (it == end) == (r == ref.end()) && (it == end || it->second == r->second); };
    VCHECK(ok(m.find(q), m.end()) && ok(m.find(sv), m.end()), "lookup_string_or_view", q);
    VCHECK(ok(vm.find(sv), vm.end()) && ok(vm.find(q), vm.end()), "lookup_view_map", q);
    q = "abcd";
    r = ref.find(q);
    VCHECK(ok(m.find("abcd"), m.end()), "lookup_literal", q);
    M.seen(vp::hash_str(padded));
  }
  ossia::string_hash h;
  ossia::string_equal eq;
  using namespace std::literals;
  VCHECK(h("abcd") == h("abcd"s) && h("abcd"s) == h("abcd"sv) && h("") == h(""s), "literal_hash", "");
  VCHECK(eq("ab", "ab"s) && eq("ab"s, "ab") && eq("ab"sv, "ab") && eq("ab", "ab"sv) && eq("ab"sv, "ab"s) && eq("ab"s, "ab"sv) && eq("ab"s, "ab"s) && eq("ab"sv, "ab"sv), "string_equal", "");
  VCHECK(!eq("ab", "abc"s) && !eq("ab"s, "abc") && !eq("ab"sv, "b") && !eq("a", "ab"sv) && !eq("ab"sv, "aB"s) && !eq("ab"s, ""sv) && !eq("ab"s, "ba"s) && !eq("ab"sv, "ac"sv), "string_unequal", "");
  VCHECK(ossia::make_string_view("hello") == "hello"sv && ossia::make_string_view("") == ""sv && ossia::make_string_array("a", "bcd")[1] == "bcd"sv && ossia::make_string_array("a", "bcd").size() == 2, "make_string_view", "");

  // shared pointers looked up by raw pointer
  for (size_t k = 0; k < M.n(300); k++)
  {
    M.at("shared_ptr_set");
    ossia::shared_ptr_set<int> s;
    ossia::shared_ptr_map<int, int> sm;
    std::vector<std::shared_ptr<int>> ps;
    for (int i = 0; i < 20; i++)
    {
      ps.push_back(std::make_shared<int>(i));
      s.insert(ps.back());
      sm.insert({ps.back(), i});
    }
    for (int i = 0; i < 20; i++)
    {
      VCHECK(s.find(ps[i].get()) != s.end() && s.find(ps[i]) != s.end() && *s.find(ps[i].get()) == ps[i], "shared_ptr_by_raw", i);
      VCHECK(sm.find(ps[i].get()) != sm.end() && sm.find(ps[i])->second == i, "shared_ptr_map_by_raw", i);
      ossia::PointerPredicate<int> pp;
      int j = (i + 1) % 20;
      VCHECK(pp(ps[i], ps[i].get()) && pp(ps[i].get(), ps[i]) && pp(ps[i], ps[i]) && pp(ps[i].get(), ps[i].get()) && !pp(ps[i], ps[j].get()) && !pp(ps[j].get(), ps[i]) && !pp(ps[i], ps[j]) && !pp(ps[i].get(), ps[j].get()), "pointer_predicate", i);
    }
    int other = 0;
    VCHECK(s.find(&other) == s.end() && s.size() == 20, "shared_ptr_absent", "");
  }
  // sets and vectors without copies
  for (size_t k = 0; k < M.n(400); k++)
  {
    M.at("safe_containers");
    static int objs[30];
    ossia::safe_vector<int*> v;
    ossia::safe_set<int*> s;
    std::vector<int*> rv;
    std::set<int*> rs;
    v.reserve(M.r.i(0, 20));
    s.reserve(M.r.i(0, 20));
    for (int op = 0; op < 60; op++)
    {
      int* p = &objs[M.r.i(0, M.r.b() ? 5 : 29)];
      switch (M.r.i(0, 9))
      {
        case 0: v.remove_all(p); s.remove_all(p); rv.erase(std::remove(rv.begin(), rv.end(), p), rv.end()); rs.erase(p); break;
        case 1: if (M.r.b(1, 5)) { v.clear(); s.clear(); rv.clear(); rs.clear(); } break;
        default: v.push_back(p); s.push_back(p); rv.push_back(p); rs.insert(p);
      }
      int* q = &objs[M.r.i(0, 29)];
      VCHECK(v.contains(q) == (std::count(rv.begin(), rv.end(), q) > 0), "safe_vector_contains", op);
      VCHECK(s.contains(q) == (rs.count(q) > 0), "safe_set_contains", op);
      VCHECK(v.size() == rv.size() && v.empty() == rv.empty() && v.copy() == rv && v.reference() == rv, "safe_vector_content", v.size(), " want ", rv.size());
      std::set<int*> sc(s.begin(), s.end());
      auto cp = s.copy();
      VCHECK(s.size() == rs.size() && s.empty() == rs.empty() && sc == rs && std::set<int*>(cp.begin(), cp.end()) == rs && std::set<int*>(s.reference().begin(), s.reference().end()) == rs, "safe_set_content", s.size(), " want ", rs.size());
      M.seen(vp::mix(rv.size(), rs.size() * 31 + op));
    }
  }
}

// ---------------------------------------------------------------- attributes
VP_SECTION(attributes)
{
  for (size_t k = 0; k < M.n(2500); k++)
  {
    ossia::any_map m;
    struct ent { int kind; int i; std::string s; std::vector<int> v; };
    std::map<std::string, ent> ref;
    static const char* names[] = {"description", "tags", "priority", "a", ""};
    for (int op = 0; op < 25; op++)
    {
      std::string n = M.r.pick(names);
      int o = M.r.i(0, 9);
      int i = M.r.i(-5, 5);
      std::string s(M.r.i(0, 3) * 20, 'q');
      std::vector<int> v(M.r.i(0, 3), i);
      M.at("attributes", vp::str(n, " op ", o, " ", i, " ", s.size(), " ", v.size()));
      switch (o)
      {
        case 0: ossia::set_attribute(m, n, i); ref[n] = {1, i}; VCHECK(ossia::has_attribute(m, n), "set_int_present", n); break;
        case 1:
        {
          std::string c = s;
          ossia::set_attribute(m, n, c);
          VCHECK(c == s, "set_attribute_source", "the variable was changed to [", c, "]");
          if (s.empty()) ref.erase(n); else ref[n] = {2, 0, s};
          break;
        }
        case 2: { const auto& c = s; ossia::set_attribute(m, n, c); if (s.empty()) ref.erase(n); else ref[n] = {2, 0, s}; break; }
        case 3: ossia::set_attribute(m, n, std::string(s)); if (s.empty()) ref.erase(n); else ref[n] = {2, 0, s}; break;
        case 4:
        {
          auto c = v;
          ossia::set_attribute(m, n, c);
          VCHECK(c == v, "set_attribute_source_vec", "");
          if (v.empty()) ref.erase(n); else ref[n] = {3, 0, "", v};
          break;
        }
        case 5: ossia::set_attribute(m, n, std::nullopt); ref.erase(n); break;
        case 6: ossia::unset_attribute(m, n); ref.erase(n); break;
        case 7: ossia::set_attribute(m, n); if (!ref.count(n)) ref[n] = {0}; break;
        case 8:
        {
          std::optional<std::string> os;
          if (M.r.b()) os = s;
          auto keep = os;
          ossia::set_optional_attribute(m, n, std::as_const(os));
          VCHECK(os == keep, "set_optional_source", "");
          if (!os || s.empty()) ref.erase(n); else ref[n] = {2, 0, s};
          break;
        }
        case 9:
        {
          std::optional<int> oi;
          if (M.r.b()) oi = i;
          ossia::set_optional_attribute(m, n, std::move(oi));
          if (oi) ref[n] = {1, i}; else ref.erase(n);
          break;
        }
      }
      std::string q = M.r.b() ? n : std::string(M.r.pick(names));
      auto it = ref.find(q);
      int kind = it == ref.end() ? -1 : it->second.kind;
      VCHECK(ossia::has_attribute(m, q) == (kind >= 0), "has_attribute", q, " kind ", kind);
      VCHECK(ossia::get_attribute<int>(m, q) == (kind == 1 ? it->second.i : 0), "get_attribute_int", q, " kind ", kind);
      VCHECK(ossia::get_attribute<std::string>(m, q) == (kind == 2 ? it->second.s : ""), "get_attribute_string", q, " kind ", kind);
      VCHECK(ossia::get_attribute<std::vector<int>>(m, q) == (kind == 3 ? it->second.v : std::vector<int>{}), "get_attribute_vec", q);
      auto oi = ossia::get_optional_attribute<int>(m, q);
      auto os = ossia::get_optional_attribute<std::string>(m, q);
      VCHECK(oi.has_value() == (kind == 1) && (!oi || *oi == it->second.i), "get_optional_int", q);
      VCHECK(os.has_value() == (kind == 2) && (!os || *os == it->second.s), "get_optional_string", q);
      VCHECK(m.size() == ref.size(), "attribute_count", m.size(), " want ", ref.size());
      M.seen(vp::mix(vp::hash_str(q), kind * 100 + o));
    }
    ossia::any_map c = m;
    ossia::set_attribute(c, "only_copy", 3);
    VCHECK(!ossia::has_attribute(m, "only_copy"), "attribute_copy", "");
  }
  ossia::is_empty_value e;
  VCHECK(!e(0) && !e(3.) && e(std::string{}) && !e(std::string{"a"}) && e(std::string_view{}) && !e(std::string_view{"a"}) && e(std::vector<double>{}) && !e(std::vector<double>(1)), "is_empty_value", "");
  VCHECK(ossia::get_value_or(std::optional<int>{}, 4) == 4 && ossia::get_value_or(std::optional<int>{2}, 4) == 2, "get_value_or", "");
}

// ---------------------------------------------------------------- vectors
template <typename V, typename T, size_t Cap>
static void vec_model(const char* name)
{
  for (size_t k = 0; k < M.n(300); k++)
  {
    V v;
    std::vector<T> ref;
    for (int op = 0; op < 60; op++)
    {
      M.at("vector_model", name);
      T x = T(M.r.i(-100, 100));
      bool room = ref.size() < Cap;
      switch (M.r.i(0, 9))
      {
        case 0: if (!ref.empty()) { size_t p = M.r.i(0, ref.size() - 1); v.erase(v.begin() + p); ref.erase(ref.begin() + p); } break;
        case 1: if (room) { size_t p = M.r.i(0, ref.size()); v.insert(v.begin() + p, x); ref.insert(ref.begin() + p, x); } break;
        case 2: if (!ref.empty()) { v.pop_back(); ref.pop_back(); } break;
        case 3: { size_t n = M.r.i(0, std::min<size_t>(Cap, 20)); v.resize(n, x); ref.resize(n, x); break; }
        case 4: { V c = v; v = std::move(c); break; }
        case 5: { V c; c.push_back(x); c = v; v.clear(); v = c; break; }
        case 6: if (M.r.b(1, 4)) { v.clear(); ref.clear(); } break;
        default: if (room) { v.push_back(x); ref.push_back(x); }
      }
      VCHECKC(v.size() == ref.size() && std::equal(v.begin(), v.end(), ref.begin()), "vector_model", std::string(name), show(v), " want ", show(ref));
      M.seen(vp::mix(vp::hash_str(name), vp::mix(ref.size(), op)));
    }
  }
}
VP_SECTION(vectors)
{
  vec_model<ossia::small_vector<int, 2>, int, 1000>("small_vector");
  vec_model<ossia::small_pod_vector<double, 4>, double, 1000>("small_pod_vector");
  vec_model<ossia::static_vector<float, 8>, float, 8>("static_vector");
  vec_model<ossia::pod_vector<char>, char, 1000>("pod_vector");
  vec_model<ossia::float_vector, float, 1000>("float_vector");
  vec_model<ossia::double_vector, double, 1000>("double_vector");
  vec_model<ossia::destination_index, int32_t, 1000>("destination_index");
  M.at("small_vector_strings");
  for (size_t k = 0; k < M.n(500); k++)
  {
    ossia::small_vector<std::string, 2> v;
    std::vector<std::string> ref;
    for (int i = M.r.i(0, 8); i-- > 0;) { auto s = std::string(M.r.i(0, 40), 'a' + i); v.push_back(s); ref.push_back(s); }
    auto c = v;
    auto d = std::move(v);
    VCHECK(std::equal(c.begin(), c.end(), ref.begin(), ref.end()) && std::equal(d.begin(), d.end(), ref.begin(), ref.end()), "small_vector_strings", ref.size());
  }
  ossia::pod_allocator<int> a, b;
  VCHECK(a == b && !(a != b), "pod_allocator_equal", "");

}

// ---------------------------------------------------------------- compile-time
struct rec_type
{
  std::vector<std::string>* o;
  template <typename T>
  bool operator()() const { o->push_back(typeid(T).name()); return o->size() == 2; }
  template <typename T>
  bool operator()(ossia::type_tag<T>) const { o->push_back(typeid(T).name()); return o->size() == 2; }
};
struct agg0 { };
struct agg1 { int a; };
struct agg3 { int a; double b; const char* c; };
struct agg5 { char a; short b; int c; float d; double e; };
VP_SECTION(compile_time)
{
  for (size_t k = 0; k < M.n(200); k++)
  {
    M.at("compile_time_iteration");
    const std::vector<std::string> all{typeid(int).name(), typeid(float).name(), typeid(std::string).name()};
    const std::vector<std::string> two(all.begin(), all.begin() + 2);
    std::vector<std::string> o;
    auto chk = [&](const char* r, const std::vector<std::string>& want) { VCHECK(o == want, r, show(o)); o.clear(); M.seen(r); };
    ossia::for_each(ossia::tl<int, float, std::string>{}, rec_type{&o}); chk("for_each", all);
    ossia::for_each_tagged(ossia::tl<int, float, std::string>{}, rec_type{&o}); chk("for_each_tagged", all);
    ossia::for_each_type<int, float, std::string>(rec_type{&o}); chk("for_each_type", all);
    ossia::for_each_type(ossia::tl<int, float, std::string>{}, rec_type{&o}); chk("for_each_type_list", all);
    ossia::for_each_type_tagged<int, float, std::string>(rec_type{&o}); chk("for_each_type_tagged", all);
    ossia::for_each_type_if<int, float, std::string>(rec_type{&o}); chk("for_each_type_if", two);
    ossia::for_each_type_if_tagged<int, float, std::string>(rec_type{&o}); chk("for_each_type_if_tagged", two);

    int a = M.r.i(-9, 9);
    double b = M.r.u();
    std::string c = key();
    std::string log;
    auto add = [&](const auto&... x) { ((log += vp::str(x, ";")), ...); };
    std::tuple<int, double, std::string> t{a, b, c};
    const auto ct = t;
    std::string want = vp::str(a, ";", b, ";", c, ";");
    ossia::for_each_in_tuple(ct, add); VCHECK(log == want, "tuple_const", log); log.clear();
    ossia::for_each_in_tuple(t, add); VCHECK(log == want, "tuple_ref", log); log.clear();
    ossia::for_each_in_tuple(t, [](auto& x) { x = std::decay_t<decltype(x)>{}; });
    VCHECK(t == std::make_tuple(0, 0., std::string{}), "tuple_mutates", "");
    std::tuple<> e;
    ossia::for_each_in_tuple(e, add); ossia::for_each_in_tuple(std::as_const(e), add); VCHECK(log.empty(), "tuple_empty", log);
    ossia::for_each_in_range<4>([&](auto n) { log += vp::str(decltype(n)::value, ";"); });
    VCHECK(log == "0;1;2;3;", "for_each_in_range", log); log.clear();
    std::tuple<int, double, std::string> u{a + 1, b + 1, c + "x"};
    t = ct;
    std::string want2 = vp::str(a, ";", a + 1, ";", b, ";", b + 1, ";", c, ";", c + "x", ";");
    ossia::for_each_in_tuples_ref(t, u, add); VCHECK(log == want2, "tuples_ref", log); log.clear();
    ossia::for_each_in_tuples_ref(t, u, [](auto& x, auto& y) { std::swap(x, y); });
    VCHECK(u == ct && std::get<0>(t) == a + 1, "tuples_ref_mutates", "");
    std::array<int, 3> arr{7, 8, 9};
    ossia::tuple_array_func(std::tuple(ct), arr, add); VCHECK(log == vp::str(a, ";7;", b, ";8;", c, ";9;"), "tuple_array", log); log.clear();

    VCHECK(ossia::to_tuple(agg1{a}) == std::make_tuple(a), "to_tuple_1", "");
    agg3 x3{a, b, "z"};
    auto t3 = ossia::to_tuple(agg3(x3));
    VCHECK(std::get<0>(t3) == a && std::get<1>(t3) == b && std::get<2>(t3) == std::string("z"), "to_tuple_3", "");
    VCHECK(ossia::to_tuple(agg5{'c', short(a), a, 2.f, b}) == std::make_tuple('c', short(a), a, 2.f, b), "to_tuple_5", "");
    static_assert(std::tuple_size_v<decltype(ossia::to_tuple(agg0{}))> == 0);
    int carr[3] = {a, a + 1, a + 2};
    VCHECK((ossia::to_array(carr) == std::array<int, 3>{a, a + 1, a + 2}), "to_array", "");
    VCHECK(std::string(ossia::make_array("x", "yz")[1]) == "yz" && ossia::make_array("x", "yz").size() == 2, "make_array", "");
    std::vector<std::tuple<int, double>> lst;
    std::tuple<std::vector<int>, std::vector<double>> tw;
    for (int i = M.r.i(0, 5); i-- > 0;) { int p = M.r.i(0, 9); double q = M.r.u(); lst.push_back({p, q}); std::get<0>(tw).push_back(p); std::get<1>(tw).push_back(q); }
    VCHECK(ossia::list_of_tuple_to_tuple_of_list(lst) == tw, "list_of_tuple", lst.size());
  }
  static_assert(std::is_same_v<ossia::apply_type<std::tuple<int, float>, std::vector>::type, std::tuple<std::vector<int>, std::vector<float>>>);
  static_assert(ossia::size<std::tuple<int, float, char>>::value == 3 && ossia::size<ossia::tl<>>::value == 0);
  static_assert(std::is_same_v<ossia::ptr_container<int>, std::vector<std::shared_ptr<int>>>);

  for (size_t k = 0; k < M.n(3000); k++)
  {
    auto mk = [](size_t n) { std::string s(n, 0); for (auto& ch : s) ch = M.r.b(1, 8) ? "@[`{\xe9"[M.r.i(0, 4)] : char((M.r.b() ? 'a' : 'A') + M.r.i(0, 25)); return s; };
    auto s = mk(M.r.b(1, 4) ? M.r.i(55, 80) : M.r.i(0, 30));
    auto s2 = mk(M.r.b(1, 4) ? M.r.i(20, 63) : M.r.i(0, 30));
    M.at("small_string", vp::str(s, "+", s2));
    M.seen(s);
    auto low = [](std::string x) { for (auto& ch : x) if (ch >= 'A' && ch <= 'Z') ch += 32; return x; };
    auto get = [](const ossia::small_string& x) { return std::string(x.arr, strnlen(x.arr, 64)); };
    if (s.size() >= 64) { VCHECK(vp::throws([&] { ossia::to_lower(s); }), "to_lower_too_long", s.size()); continue; }
    auto l = ossia::to_lower(s);
    VCHECK(get(l) == low(s), "to_lower", s, " -> ", get(l));
    auto r = ossia::to_lower(s2);
    if (s.size() + s2.size() < 64) { VCHECK(get(l + r) == low(s) + low(s2), "small_string_concat", s, "+", s2, " -> ", get(l + r)); }
    else VCHECK(vp::throws([&] { l + r; }), "concat_too_long", s.size() + s2.size());
    if (s.size() + 4 < 64) { VCHECK(get(l + "Zab/") == low(s) + "Zab/", "concat_literal", get(l + "Zab/")); }
    else VCHECK(vp::throws([&] { l + "Zab/"; }), "concat_literal_too_long", s.size());
  }
}

VP_SECTION(json_math)
{
  for (size_t k = 0; k < M.n(2500); k++)
  {
    auto kx = key(), vx = key();
    M.at("json_helpers", kx);
    // valid UTF-8 only
    for (auto* s : {&kx, &vx}) for (auto& c : *s) c &= 0x7f;
    rapidjson::StringBuffer b;
    ossia::json_writer w(b);
    w.StartObject();
    write_json_key(w, kx);
    write_json(w, std::string_view(vx));
    write_json_key(w, "c");
    write_json(w, 'Z');
    w.EndObject();
    auto str = json_to_str(b);
    VCHECK(str == std::string(b.GetString(), b.GetSize()), "json_to_str", str);
    rapidjson::Document d;
    d.Parse(str.c_str());
    VCHECK(!d.HasParseError() && d.IsObject(), "json_valid", str);
    if (d.IsObject() && d.MemberCount() == 2)
    {
      auto& v = d.MemberBegin()->value;
      VCHECK(get_string(d.MemberBegin()->name) == kx && get_string(v) == vx && get_string_view(v) == vx, "json_roundtrip", str);
      VCHECK(get_string((d.MemberBegin() + 1)->value) == "Z", "json_char", str);
    }
    M.seen(str);
  }
  for (size_t k = 0; k < M.n(20000); k++)
  {
    double x = M.r.d(-1e6, 1e6) * (M.r.b() ? 1e-4 : 1);
    if (M.r.b(1, 4)) x = std::floor(x);
    int i = M.r.i(-9, 9), n = M.r.i(1, 8);
    M.at("math_helpers", vp::str(x, " ", i, " ", n));
    M.seen(uint64_t(int64_t(x * 16)));
    int64_t p = 1;
    for (int j = 0; j < n; j++) p *= i;
    VCHECK(ossia::ipow(i, n) == p && ossia::ipow(double(i), n) == double(p), "ipow", i, "^", n);
    VCHECK(ossia::constexpr_floor(x) == int64_t(std::floor(x)), "constexpr_floor", x, " -> ", ossia::constexpr_floor(x));
    VCHECK(ossia::constexpr_abs(i) == size_t(std::abs(i)) && ossia::constexpr_abs(int64_t(x)) == size_t(std::llabs(int64_t(x))), "constexpr_abs", i);
    size_t z = 1 + (size_t(M.r.next()) >> M.r.i(0, 63)) / 2;
    VCHECK(ossia::constexpr_log2(z) == size_t(63 - __builtin_clzll(z)), "constexpr_log2", z);
    double a = M.r.d(-100, 100), b = M.r.d(-100, 100), c = M.r.d(-100, 100);
    VCHECK(std::abs(ossia::norm(a, b) - std::hypot(a, b)) < 1e-9 && std::abs(ossia::norm(a, b, c) - std::hypot(a, b, c)) < 1e-9, "norm", a, " ", b, " ", c);
    int num = M.r.i(-1000, 1000), den = M.r.i(1, 40) * (M.r.b() ? 1 : -1);
    auto dv = ossia::div(num, den);
    VCHECK(dv.first == num / den && dv.second == num % den, "div", num, "/", den);
    // logarithmic normalization: 0 at min, 1 at min + range, increasing, inverse of each other
    float mn = M.r.d(-100, 100), rg = M.r.d(0.5, 1000), f = M.r.u(), g = M.r.u();
    float y = ossia::normalized_to_log(mn, rg, f);
    VCHECK(y >= mn - 1e-3f && y <= mn + rg + 1e-3f, "log_in_range", mn, " ", rg, " ", f, " -> ", y);
    float back = ossia::log_to_normalized(mn, rg, y);
    VCHECK(std::abs(back - f) < 2e-3f, "log_roundtrip", mn, " ", rg, " ", f, " -> ", y, " -> ", back);
    VCHECK(std::abs(y - (mn + (std::pow(1 + double(rg), double(f)) - 1))) < 1e-3 * (1 + rg), "log_formula", y);
    if (f < g) VCHECK(y <= ossia::normalized_to_log(mn, rg, g), "log_monotone", f, " ", g);
    VCHECK(ossia::log_to_normalized(mn, rg, mn - f) == 0.f && std::abs(ossia::log_to_normalized(mn, rg, mn + rg) - 1) < 1e-5f, "log_ends", mn, " ", rg);
  }
}
VP_MAIN
