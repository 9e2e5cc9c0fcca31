// C10: MurmurHash3, hash combination, pointer and string hashing.
#include "vp.hpp"
#include <ossia/detail/hash.hpp>
#include <ossia/detail/murmur3.hpp>
#include <ossia/detail/ptr_set.hpp>
#include <ossia/detail/string_map.hpp>
#include <array>
using vp::M;
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;

// Independent byte-wise MurmurHash3
static u32 rot(u32 x, int r) { return r == 0 ? x : (x << r | x >> (32 - r)); }
static u64 rot(u64 x, int r) { return r == 0 ? x : (x << r | x >> (64 - r)); }
static u32 fm(u32 h) { h ^= h >> 16; h *= 2246822507u; h ^= h >> 13; h *= 3266489909u; return h ^ h >> 16; }
static u64 fm(u64 k) { k ^= k >> 33; k *= 18397679294719823053ull; k ^= k >> 33; k *= 14181476777654086739ull; return k ^ k >> 33; }
template <typename T>
static T le(const std::string& s, size_t at)
{
  T v = 0;
  for (size_t i = 0; i < sizeof(T); i++)
    if (at + i < s.size()) v |= T(u8(s[at + i])) << (8 * i);
  return v;
}
static u32 ref32(const std::string& s, u32 seed)
{
  u32 h = seed;
  size_t n = s.size() / 4 * 4;
  auto k = [](u32 x) { return rot(x * 3432918353u, 15) * 461845907u; };
  for (size_t i = 0; i < n; i += 4) h = rot(h ^ k(le<u32>(s, i)), 13) * 5 + 3864292196u;
  if (s.size() % 4) h ^= k(le<u32>(s, n));
  return fm(h ^ u32(s.size()));
}
static std::array<u64, 2> ref64(const std::string& s, u32 seed)
{
  u64 h1 = seed, h2 = seed, c1 = 9782798678568883157ull, c2 = 5545529020109919103ull;
  size_t n = s.size() / 16 * 16;
  auto f1 = [&](u64 k) { return rot(k * c1, 31) * c2; };
  auto f2 = [&](u64 k) { return rot(k * c2, 33) * c1; };
  for (size_t i = 0; i < n; i += 16)
  {
    h1 ^= f1(le<u64>(s, i)); h1 = rot(h1, 27) + h2; h1 = h1 * 5 + 1390208809;
    h2 ^= f2(le<u64>(s, i + 8)); h2 = rot(h2, 31) + h1; h2 = h2 * 5 + 944331445;
  }
  if (s.size() % 16 > 8) h2 ^= f2(le<u64>(s, n + 8));
  if (s.size() % 16) h1 ^= f1(le<u64>(s, n));
  h1 ^= s.size(); h2 ^= s.size();
  h1 += h2; h2 += h1;
  h1 = fm(h1); h2 = fm(h2);
  h1 += h2; h2 += h1;
  return {h1, h2};
}
static std::array<u32, 4> ref128(const std::string& s, u32 seed)
{
  const u32 c[5] = {597399067u, 2869860233u, 951274213u, 2716044179u, 597399067u};
  const int r[4] = {15, 16, 17, 18}, q[4] = {19, 17, 15, 13};
  const u32 add[4] = {1444728091u, 197830471u, 2530024501u, 850148119u};
  std::array<u32, 4> h{seed, seed, seed, seed};
  size_t n = s.size() / 16 * 16;
  auto f = [&](u32 k, int j) { return rot(k * c[j], r[j]) * c[j + 1]; };
  for (size_t i = 0; i < n; i += 16)
    for (int j = 0; j < 4; j++)
    {
      h[j] ^= f(le<u32>(s, i + 4 * j), j);
      h[j] = rot(h[j], q[j]) + h[(j + 1) % 4];
      h[j] = h[j] * 5 + add[j];
    }
  for (int j = 3; j >= 0; j--)
    if (s.size() % 16 > size_t(4 * j)) h[j] ^= f(le<u32>(s, n + 4 * j), j);
  for (auto& x : h) x ^= u32(s.size());
  auto sum = [&] { h[0] += h[1]; h[0] += h[2]; h[0] += h[3]; for (int j = 1; j < 4; j++) h[j] += h[0]; };
  sum();
  for (auto& x : h) x = fm(x);
  sum();
  return h;
}

VP_SECTION(murmur)
{
  using namespace ossia::murmur;
  for (size_t k = 0; k < M.n(20000); k++)
  {
    std::string s(M.r.b() ? M.r.i(0, 20) : M.r.i(0, 300), 0);
    for (auto& c : s) c = char(M.r.next());
    u32 seed = M.r.b(1, 3) ? 0 : u32(M.r.next());
    // exactly sized storage: reading outside of the key is an ASan report
    std::vector<char> exact(s.begin(), s.end());
    M.at("murmur3", vp::str("len ", s.size(), " seed ", seed));
    M.seen(vp::hash_str(s, seed));
    u32 o = 0;
    murmur3_x86_32(exact.data(), s.size(), seed, o);
    VCHECK(o == ref32(s, seed), "murmur3_x86_32", "len ", s.size(), " -> ", o, " want ", ref32(s, seed));
    u64 o2[2]{};
    murmur3_x64_128(exact.data(), s.size(), seed, o2);
    auto w2 = ref64(s, seed);
    VCHECK(o2[0] == w2[0] && o2[1] == w2[1], "murmur3_x64_128", "len ", s.size(), " -> ", o2[0], ",", o2[1], " want ", w2[0], ",", w2[1]);
    u32 o4[4]{};
    murmur3_x86_128(exact.data(), s.size(), seed, o4);
    auto w4 = ref128(s, seed);
    VCHECK(std::equal(o4, o4 + 4, w4.begin()), "murmur3_x86_128", "len ", s.size(), " -> ", o4[0], ",", o4[1], ",", o4[2], ",", o4[3]);
    // the placement does not matter
    size_t off = M.r.i(1, 7);
    std::vector<char> moved(off + s.size());
    std::copy(s.begin(), s.end(), moved.begin() + off);
    ossia::string_hash h;
    VCHECK(h(std::string_view(moved.data() + off, s.size())) == ref32(s, 0) && h(s) == ref32(s, 0), "string_hash", "len ", s.size(), " at +", off);
    int r8 = M.r.i(1, 31);
    u32 a = M.r.next();
    u64 b = M.r.next();
    VCHECK(rotl32(a, r8) == rot(a, r8) && rotl64(b, r8 * 2) == rot(b, r8 * 2), "rotl", a, " ", b, " ", r8);
    VCHECK(fmix32(a) == fm(a) && fmix64(b) == fm(b), "fmix", a, " ", b);
  }
  // published vectors
  auto h = [](std::string s, u32 seed) { u32 o = 0; murmur3_x86_32(s.data(), s.size(), seed, o); return o; };
  M.at("murmur3_vectors");
  VCHECK(h("", 0) == 0 && h("", 1) == 0x514E28B7 && h("", 0xffffffff) == 0x81F16F39 && h("test", 0) == 0xba6bd213 && h("Hello, world!", 0) == 0xc0363e43 && h("The quick brown fox jumps over the lazy dog", 0) == 0x2e4ff723, "published_vectors", h("test", 0));
}

template <typename S, typename T>
static void comb(const char* name)
{
  for (size_t k = 0; k < M.n(4000); k++)
  {
    S seed = M.r.b(1, 4) ? 0 : S(M.r.next());
    T x = M.r.b(1, 4) ? T(M.r.i(-3, 3)) : T(M.r.next());
    M.at("hash_combine", name);
    S got = seed, want = seed;
    ossia::hash_combine(got, x);
    if constexpr (std::is_same_v<S, T> && sizeof(S) == 4)
    {
      want ^= rot(u32(x * 3432918353u), 15) * 461845907u;
      want = rot(want, 13) * 5 + 3864292196u;
    }
    else if constexpr (std::is_same_v<S, T>)
    {
      u64 m = 14313749767032793493ull, kk = x * m;
      kk ^= kk >> 47;
      kk *= m;
      want = (want ^ kk) * m + 3864292196u;
    }
    else
    {
      // as unsigned arithmetic of the wider of int, the key and the seed
      using W = std::conditional_t<sizeof(T) == 8, u64, u32>;
      want ^= S(S(W(W(x) + W(2654435769u))) + (seed << 6) + (seed >> 2));
    }
    VCHECKC(got == want, "hash_combine_value", std::string(name), "seed ", seed, " key ", +x, " -> ", got, " want ", want);
    T y = T(x + 1 + M.r.i(0, 50));
    S other = seed;
    ossia::hash_combine(other, y);
    if (x != y && sizeof(T) <= sizeof(S)) VCHECKC(other != got, "hash_combine_distinguishes", std::string(name), +x, " ", +y);
    M.seen(vp::mix(vp::hash_str(name), u64(got)));
  }
}
VP_SECTION(combine)
{
  comb<u64, u8>("u64,u8"); comb<u64, int8_t>("u64,i8"); comb<u64, uint16_t>("u64,u16"); comb<u64, int16_t>("u64,i16");
  comb<u64, u32>("u64,u32"); comb<u64, int32_t>("u64,i32"); comb<u64, int64_t>("u64,i64"); comb<u64, u64>("u64,u64");
  comb<u32, u8>("u32,u8"); comb<u32, int8_t>("u32,i8"); comb<u32, uint16_t>("u32,u16"); comb<u32, int16_t>("u32,i16");
  comb<u32, u32>("u32,u32"); comb<u32, int32_t>("u32,i32"); comb<u32, u64>("u32,u64"); comb<u32, int64_t>("u32,i64");
  for (size_t k = 0; k < M.n(5000); k++)
  {
    M.at("hash_combine_objects");
    std::string s(M.r.i(0, 12), 'a' + M.r.i(0, 25));
    double d = M.r.d(-10, 10);
    size_t seed = M.r.next(), a = seed, b = seed;
    auto bst = [&](size_t h) { return seed ^ (h + 0x9e3779b9 + (seed << 6) + (seed >> 2)); };
    ossia::hash_combine(a, s);
    VCHECK(a == bst(std::hash<std::string>{}(s)), "hash_combine_string", s);
    ossia::hash_combine(b, d);
    VCHECK(b == bst(std::hash<double>{}(d)), "hash_combine_double", d);
    // the order matters
    size_t x = 0, y = 0;
    ossia::hash_combine(x, s); ossia::hash_combine(x, d);
    ossia::hash_combine(y, d); ossia::hash_combine(y, s);
    VCHECK(x != y, "hash_combine_order", s, " ", d);
    M.seen(x);
  }
}
struct big { char c[100]; };
template <typename T>
static void ptrs(const char* n)
{
  M.at("pointer_hash", n);
  ossia::EgurHash<T> h;
  for (size_t k = 0; k < M.n(200); k++)
  {
    std::vector<T> v(64);
    std::set<size_t> hs;
    for (auto& x : v)
    {
      hs.insert(h(&x));
      std::shared_ptr<T> sp{&x, [](T*) {}};
      VCHECKC(h(sp) == h(&x) && h(sp.get()) == h(std::shared_ptr<T>(sp)), "shared_hash_is_raw_hash", std::string(n), "");
      size_t a = 5, b = 5;
      const T* p = &x;
      ossia::hash_combine(a, p); ossia::hash_combine(b, p);
      VCHECKC(a == b && a != 5, "hash_combine_pointer", std::string(n), "");
    }
    // neighbours of an array spread
    VCHECKC(hs.size() >= 32, "pointer_hash_spread", std::string(n), hs.size(), " hashes of 64 neighbours");
    M.seen(vp::mix(vp::hash_str(n), hs.size() * 1000 + k));
  }
}
VP_SECTION(pointers)
{
  ptrs<char>("char"); ptrs<int>("int"); ptrs<double>("double"); ptrs<big>("big"); ptrs<std::string>("string");
}
VP_MAIN
