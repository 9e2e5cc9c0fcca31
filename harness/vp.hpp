#pragma once
// Monitor framework: seeded workloads, oracles with stable keys, coverage
// accounting.  One executable = several sections, each run in its own process
// by bin/check.  Everything observed goes to a JSON-lines file.
#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <type_traits>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp
{
struct rng
{
  uint64_t s{};
  explicit rng(uint64_t seed = 1) : s{seed} { }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t operator()() { return next(); }
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  // inclusive
  int64_t i(int64_t a, int64_t b)
  {
    return a + int64_t(next() % (uint64_t(b) - uint64_t(a) + 1));
  }
  bool b(int num = 1, int den = 2) { return int64_t(next() % den) < num; }
  double u() { return double(next() >> 11) * 0x1.0p-53; }
  double d(double a, double b) { return a + (b - a) * u(); }
  template <typename C>
  auto& pick(C&& c)
  {
    return c[next() % std::size(c)];
  }
  // integers spread over magnitudes
  int64_t mag(int maxbits)
  {
    int bits = i(0, maxbits);
    uint64_t v = bits == 0 ? 0 : (next() >> (64 - bits));
    return int64_t(v);
  }
};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
  auto b = (const unsigned char*)p;
  for (size_t k = 0; k < n; k++)
    h = (h ^ b[k]) * 1099511628211ull;
  return h;
}
inline uint64_t hash_str(std::string_view s, uint64_t h = 1469598103934665603ull)
{
  return hash_bytes(s.data(), s.size(), h);
}
inline uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b;
  z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
  return z ^ (z >> 32);
}

inline std::string jesc(std::string_view s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (c < 32 || c >= 127)
    {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    }
    else
      o += c;
  }
  return o;
}

template <typename T>
void put(std::ostringstream& o, const T& t)
{
  if constexpr (std::is_same_v<T, bool>)
    o << (t ? "true" : "false");
  else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>)
    o << int(t);
  else if constexpr (std::is_floating_point_v<T>)
  {
    char b[64];
    snprintf(b, 64, "%.17g", double(t));
    o << b;
  }
  else
    o << t;
}
// "a", 1, ... -> one string
template <typename... A>
std::string str(const A&... a)
{
  std::ostringstream o;
  (put(o, a), ...);
  return o.str();
}

struct breadcrumb
{
  std::atomic<uint64_t> cases;
  char rule[256];
  char what[1024];
};

class monitor
{
public:
  rng r;
  uint64_t seed{};
  bool thorough{};
  std::string section;
  std::string scratch;
  FILE* out{};
  breadcrumb* crumb{};

  std::mutex mx;
  uint64_t evals{};
  std::map<std::string, uint64_t> rules;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> viol;
  std::string cur_rule, cur_what;

  // number of cases: quick / thorough
  size_t n(size_t q, size_t t = 0) const
  {
    return thorough ? (t ? t : q * 20) : q;
  }

  // A new case starts: `rule` is the statement being monitored, `what` the input.
  void at(const char* rule, const std::string& what = {})
  {
    std::lock_guard l{mx};
    if (cur_rule != rule)
      cur_rule = rule;
    cur_what = what;
    crumb->cases++;
    snprintf(crumb->rule, sizeof(crumb->rule), "%s", rule);
    snprintf(crumb->what, sizeof(crumb->what), "%s", what.c_str());
  }
  void alive() { crumb->cases++; }

  // A distinct non-trivial case / observed behaviour
  void seen(uint64_t digest)
  {
    std::lock_guard l{mx};
    if (distinct.size() < 4000000)
      distinct.insert(digest);
  }
  void seen(std::string_view s) { seen(hash_str(s)); }
  void sample(const std::string& s)
  {
    std::lock_guard l{mx};
    if (samples.size() < 3)
      samples.push_back(s.substr(0, 400));
  }
  // The oracle. key = rule[:cls]. detail is only built on failure.
  template <typename D>
  bool check(bool ok, const char* rule, D&& detail, const std::string& cls = {})
  {
    {
      std::lock_guard l{mx};
      evals++;
      if (last_rule_ptr == rule)
        ++*last_rule_cnt;
      else
      {
        last_rule_cnt = &rules[rule];
        ++*last_rule_cnt;
        last_rule_ptr = rule;
      }
    }
    if (!ok)
    {
      std::string d;
      if constexpr (std::is_invocable_v<D>)
        d = detail();
      else
        d = detail;
      violation(cls.empty() ? std::string(rule) : std::string(rule) + ":" + cls, d);
    }
    return ok;
  }
  void violation(const std::string& key, const std::string& detail)
  {
    std::lock_guard l{mx};
    auto& c = viol[key];
    if (c++ < 1 && out)
    {
      fprintf(
          out,
          "{\"t\":\"viol\",\"key\":\"%s\",\"detail\":\"%s\",\"rule\":\"%s\",\"what\":\"%s\",\"case\":%llu}\n",
          jesc(key).c_str(), jesc(detail.substr(0, 3000)).c_str(), jesc(cur_rule).c_str(),
          jesc(cur_what.substr(0, 1500)).c_str(), (unsigned long long)crumb->cases.load());
      fflush(out);
    }
  }
  void finish()
  {
    fprintf(
        out, "{\"t\":\"done\",\"evals\":%llu,\"distinct\":%llu,\"rules\":{", (unsigned long long)evals,
        (unsigned long long)distinct.size());
    bool first = true;
    for (auto& [k, v] : rules)
    {
      fprintf(out, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v);
      first = false;
    }
    fprintf(out, "},\"viol\":{");
    first = true;
    for (auto& [k, v] : viol)
    {
      fprintf(out, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v);
      first = false;
    }
    fprintf(out, "},\"samples\":[");
    first = true;
    for (auto& s : samples)
    {
      fprintf(out, "%s\"%s\"", first ? "" : ",", jesc(s).c_str());
      first = false;
    }
    fprintf(out, "]}\n");
    fflush(out);
  }

private:
  const char* last_rule_ptr{};
  uint64_t* last_rule_cnt{};
};

inline monitor M;

struct section_reg
{
  const char* name;
  void (*fn)();
  static std::vector<section_reg>& all()
  {
    static std::vector<section_reg> v;
    return v;
  }
  section_reg(const char* n, void (*f)()) : name{n}, fn{f} { all().push_back(*this); }
};

#define VP_SECTION(NAME)                                          \
  static void vp_sec_##NAME();                                    \
  static ::vp::section_reg vp_reg_##NAME{#NAME, &vp_sec_##NAME};  \
  static void vp_sec_##NAME()

// CHECK(cond, "rule", parts...)
#define VCHECK(COND, RULE, ...) \
  ::vp::M.check(bool(COND), RULE, [&] { return ::vp::str(__VA_ARGS__); })
// with an input class in the key
#define VCHECKC(COND, RULE, CLS, ...) \
  ::vp::M.check(bool(COND), RULE, [&] { return ::vp::str(__VA_ARGS__); }, CLS)

inline std::string demangle(const char* n)
{
  int st = 0;
  char* c = abi::__cxa_demangle(n, nullptr, nullptr, &st);
  std::string s = c ? c : n;
  free(c);
  return s;
}

// runs f; an exception is a violation of `rule`
template <typename F>
bool no_throw(const char* rule, F&& f)
{
  try
  {
    f();
    return true;
  }
  catch (const std::exception& e)
  {
    M.violation(str(rule, ":threw"), str(demangle(typeid(e).name()), ": ", e.what()));
  }
  catch (...)
  {
    M.violation(str(rule, ":threw"), "unknown exception");
  }
  return false;
}
template <typename F>
bool throws(F&& f)
{
  try
  {
    f();
    return false;
  }
  catch (...)
  {
    return true;
  }
}

inline int run(int argc, char** argv)
{
  std::string sec, outp, crumbp;
  for (int k = 1; k < argc; k++)
  {
    std::string a = argv[k];
    auto val = [&] { return std::string(k + 1 < argc ? argv[++k] : ""); };
    if (a == "--list")
    {
      for (auto& s : section_reg::all())
        printf("%s\n", s.name);
      return 0;
    }
    else if (a == "--section")
      sec = val();
    else if (a == "--seed")
      M.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--thorough")
      M.thorough = true;
    else if (a == "--out")
      outp = val();
    else if (a == "--crumb")
      crumbp = val();
    else if (a == "--scratch")
      M.scratch = val();
  }
  M.out = outp.empty() ? stdout : fopen(outp.c_str(), "a");
  static breadcrumb local;
  M.crumb = &local;
  if (!crumbp.empty())
  {
    int fd = open(crumbp.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, sizeof(breadcrumb)) == 0)
    {
      void* p = mmap(nullptr, sizeof(breadcrumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED)
        M.crumb = (breadcrumb*)p;
    }
  }
  for (auto& s : section_reg::all())
    if (sec == s.name)
    {
      M.section = sec;
      M.r = rng{mix(M.seed * 7919 + 17, hash_str(sec))};
      try
      {
        s.fn();
      }
      catch (const std::exception& e)
      {
        M.violation(
            "exception:" + demangle(typeid(e).name()) + ":" + M.cur_rule,
            str("escaped exception: ", e.what()));
      }
      catch (...)
      {
        M.violation("exception:unknown:" + M.cur_rule, "escaped exception");
      }
      M.finish();
      fflush(nullptr);
      return 0;
    }
  fprintf(stderr, "no section %s\n", sec.c_str());
  return 3;
}
}
#define VP_MAIN                      \
  int main(int argc, char** argv)    \
  {                                  \
    return ::vp::run(argc, argv);    \
  }
