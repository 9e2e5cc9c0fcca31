#pragma once
// An OSC encoder, a strict decoder, and socket helpers, independent of the code under test.
#include "values.hpp"
#include <arpa/inet.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <chrono>
#include <cstring>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
using namespace std::literals;
// ------------------------------------------------------------------ OSC 1.0/1.1
// an independent strict encoder and decoder
struct arg
{
  char tag;
  std::string data; // big endian bytes; strings without padding; blobs without size
  bool operator==(const arg& o) const { return tag == o.tag && data == o.data; }
};
using args = std::vector<arg>;
struct packet
{
  bool bundle = false;
  std::string addr;
  args a;
  uint64_t time = 0;
  std::vector<packet> elems;
};
inline std::string be32(uint32_t v)
{
  std::string s;
  for (int i = 3; i >= 0; i--)
    s += char(v >> (8 * i));
  return s;
}
inline std::string be64(uint64_t v) { return be32(uint32_t(v >> 32)) + be32(uint32_t(v)); }
inline uint32_t rd32(std::string_view s)
{
  uint32_t r = 0;
  for (int i = 0; i < 4; i++)
    r = (r << 8) | (unsigned char)s[i];
  return r;
}
inline uint64_t rd64(std::string_view s) { return (uint64_t(rd32(s)) << 32) | rd32(s.substr(4)); }
inline std::string padz(std::string s)
{
  s += '\0';
  while (s.size() % 4)
    s += '\0';
  return s;
}
inline arg I(int v) { return {'i', be32(uint32_t(v))}; }
inline arg F(float v) { uint32_t u; std::memcpy(&u, &v, 4); return {'f', be32(u)}; }
inline arg D(double v) { uint64_t u; std::memcpy(&u, &v, 8); return {'d', be64(u)}; }
inline arg H(int64_t v) { return {'h', be64(uint64_t(v))}; }
inline arg Tt(uint64_t v) { return {'t', be64(v)}; }
inline arg Str(std::string v, char tag = 's') { return {tag, std::move(v)}; }
inline arg Blob(std::string v) { return {'b', std::move(v)}; }
inline arg C(char v) { return {'c', be32(uint32_t(int32_t(v)))}; }
inline arg R(uint32_t v) { return {'r', be32(v)}; }
inline arg Tag(char t) { return {t, {}}; }

inline std::string enc(const std::string& addr, const args& a)
{
  std::string tags = ",", data;
  for (auto& x : a)
  {
    tags += x.tag;
    if (x.tag == 's' || x.tag == 'S')
      data += padz(x.data);
    else if (x.tag == 'b')
    {
      data += be32(uint32_t(x.data.size())) + x.data;
      while (data.size() % 4)
        data += '\0';
    }
    else
      data += x.data;
  }
  return padz(addr) + padz(tags) + data;
}
inline std::string enc_bundle(uint64_t time, const std::vector<std::string>& e)
{
  std::string s = "#bundle"s + '\0' + be64(time);
  for (auto& x : e)
    s += be32(uint32_t(x.size())) + x;
  return s;
}
struct bad : std::runtime_error { using runtime_error::runtime_error; };
inline std::string take_str(std::string_view& s)
{
  auto e = s.find('\0');
  if (e == s.npos)
    throw bad("unterminated string");
  std::string r{s.substr(0, e)};
  auto n = (e / 4 + 1) * 4;
  if (n > s.size())
    throw bad("string not padded");
  for (auto i = e; i < n; i++)
    if (s[i])
      throw bad("non-zero padding");
  s.remove_prefix(n);
  return r;
}
inline std::string take(std::string_view& s, size_t n)
{
  if (s.size() < n)
    throw bad("arguments exceed the packet");
  std::string r{s.substr(0, n)};
  s.remove_prefix(n);
  return r;
}
inline packet dec(std::string_view s, bool strict = true)
{
  packet p;
  if (s.empty() || s.size() % 4)
    throw bad(vp::str("size ", s.size(), " is not a positive multiple of 4"));
  if (s.size() >= 8 && s.substr(0, 8) == std::string_view("#bundle\0", 8))
  {
    p.bundle = true;
    s.remove_prefix(8);
    p.time = rd64(take(s, 8));
    while (!s.empty())
    {
      auto n = rd32(take(s, 4));
      p.elems.push_back(dec(take(s, n), strict));
    }
    return p;
  }
  p.addr = take_str(s);
  if (p.addr.empty() || (strict && p.addr[0] != '/'))
    throw bad("address does not start with /");
  auto tags = take_str(s);
  if (tags.empty() || tags[0] != ',')
    throw bad("no type tags");
  for (char t : tags.substr(1))
    switch (t)
    {
      case 'i': case 'f': case 'c': case 'r': case 'm': p.a.push_back({t, take(s, 4)}); break;
      case 'h': case 't': case 'd': p.a.push_back({t, take(s, 8)}); break;
      case 's': case 'S': p.a.push_back({t, take_str(s)}); break;
      case 'b':
      {
        auto n = rd32(take(s, 4));
        if (n > s.size())
          throw bad("blob exceeds the packet");
        p.a.push_back({t, take(s, n)});
        for (; n % 4; n++)
          if (take(s, 1)[0])
            throw bad("non-zero blob padding");
        break;
      }
      case 'T': case 'F': case 'N': case 'I': case '[': case ']': p.a.push_back({t, {}}); break;
      default: throw bad("unknown tag");
    }
  if (!s.empty())
    throw bad(vp::str(s.size(), " bytes after the last argument"));
  return p;
}
inline std::string S(const args& a)
{
  std::string r;
  for (auto& x : a)
  {
    r += x.tag;
    if (x.data.size() && x.tag != 's' && x.tag != 'b')
      for (unsigned char c : x.data)
      {
        char b[4];
        snprintf(b, 4, "%02x", c);
        r += b;
      }
    else if (x.data.size() < 60)
      r += "\"" + vp::jesc(x.data) + "\"";
    else
      r += vp::str("(", x.data.size(), " bytes)");
    r += ' ';
  }
  return r;
}

inline uint16_t free_port(int type)
{
  for (;;)
  {
    int fd = ::socket(AF_INET, type, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    bool ok = ::bind(fd, (sockaddr*)&a, sizeof a) == 0 && ::getsockname(fd, (sockaddr*)&a, &l) == 0;
    ::close(fd);
    if (ok)
      return ntohs(a.sin_port);
  }
}
template <typename Fn>
bool eventually(Fn f, int ms = 8000)
{
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  while (!f())
  {
    if (std::chrono::steady_clock::now() > end)
      return false;
    std::this_thread::sleep_for(1ms);
  }
  return true;
}

// a datagram socket of our own
struct peer
{
  int fd = ::socket(AF_INET, SOCK_DGRAM, 0);
  uint16_t port = 0;
  sockaddr_in to{};
  peer()
  {
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    ::bind(fd, (sockaddr*)&a, sizeof a);
    ::getsockname(fd, (sockaddr*)&a, &l);
    port = ntohs(a.sin_port);
    int sz = 4 << 20;
    ::setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
  }
  peer(const peer&) = delete;
  ~peer() { ::close(fd); }
  void target(uint16_t p)
  {
    to.sin_family = AF_INET;
    to.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    to.sin_port = htons(p);
  }
  void send(const std::string& s) { ::sendto(fd, s.data(), s.size(), 0, (sockaddr*)&to, sizeof to); }
  bool recv(std::string& s, int ms)
  {
    pollfd p{fd, POLLIN, 0};
    if (::poll(&p, 1, ms) <= 0)
      return false;
    s.resize(70000);
    auto n = ::recv(fd, s.data(), s.size(), 0);
    s.resize(n > 0 ? n : 0);
    return n >= 0;
  }
};
// ------------------------------------------------------------------ what a value says
enum ver { v10, v11, vext };
inline void say(args& a, const mv::val& v, ver k, int depth, bool rgba, bool in_dyn)
{
  if (std::get_if<mv::none>(&v.v))
    return;
  if (std::get_if<mv::imp>(&v.v))
  {
    if (k != v10)
      a.push_back(Tag('I'));
    else if (in_dyn)
      a.push_back(I(0)); // OSC 1.0 has no way to say it
    return;
  }
  if (auto p = std::get_if<int>(&v.v))
    return a.push_back(I(*p));
  if (auto p = std::get_if<float>(&v.v))
    return a.push_back(F(*p));
  if (auto p = std::get_if<bool>(&v.v))
    return a.push_back(k == v10 ? I(*p) : Tag(*p ? 'T' : 'F'));
  if (auto p = std::get_if<char>(&v.v))
    return a.push_back(k == vext ? C(*p) : I(*p));
  if (auto p = std::get_if<std::string>(&v.v))
    return a.push_back(Str(*p));
  const bool br = k == vext && depth > 0;
  auto vec = [&](const auto& arr) {
    if (br)
      a.push_back(Tag('['));
    for (float f : arr)
      a.push_back(F(f));
    if (br)
      a.push_back(Tag(']'));
  };
  if (auto p = std::get_if<mv::v2>(&v.v))
    return vec(*p);
  if (auto p = std::get_if<mv::v3>(&v.v))
    return vec(*p);
  if (auto p = std::get_if<mv::v4>(&v.v))
  {
    if (k == vext && rgba)
      return a.push_back(R((uint32_t((*p)[0]) << 24) | (uint32_t((*p)[1]) << 16) | (uint32_t((*p)[2]) << 8) | uint32_t((*p)[3])));
    return vec(*p);
  }
  if (auto p = std::get_if<mv::list>(&v.v))
  {
    if (br)
      a.push_back(Tag('['));
    for (auto& e : *p)
      say(a, e, k, depth + 1, rgba, true);
    if (br)
      a.push_back(Tag(']'));
  }
}

