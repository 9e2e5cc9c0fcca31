#pragma once
// Same validation as upstream oscpack: every message/bundle is fully checked on
// construction, so that iteration within [begin, end) stays in the packet.
#include <oscpack/osc/OscTypes.h>
#include <bit>
#include <cassert>
#include <cstring>
namespace oscpack
{
class MalformedPacketException : public Exception { public: MalformedPacketException(const char* w = "malformed packet") : Exception{w} {} };
class MalformedMessageException : public Exception { public: MalformedMessageException(const char* w = "malformed message") : Exception{w} {} };
class MalformedBundleException : public Exception { public: MalformedBundleException(const char* w = "malformed bundle") : Exception{w} {} };
class WrongArgumentTypeException : public Exception { public: WrongArgumentTypeException(const char* w = "wrong argument type") : Exception{w} {} };
class MissingArgumentException : public Exception { public: MissingArgumentException(const char* w = "missing argument") : Exception{w} {} };
class ExcessArgumentException : public Exception { public: ExcessArgumentException(const char* w = "too many arguments") : Exception{w} {} };
namespace detail
{
inline uint32 get32(const char* p)
{
  auto u = reinterpret_cast<const unsigned char*>(p);
  return (uint32(u[0]) << 24) | (uint32(u[1]) << 16) | (uint32(u[2]) << 8) | u[3];
}
inline uint64 get64(const char* p) { return (uint64(get32(p)) << 32) | get32(p + 4); }
// returns the first 4-boundary after the terminator, or nullptr if it is past end
inline const char* FindStr4End(const char* p, const char* end)
{
  if (p >= end)
    return nullptr;
  if (p[0] == '\0')
    return p + 4;
  p += 3;
  end -= 1;
  while (p < end && *p)
    p += 4;
  if (*p)
    return nullptr;
  return p + 1;
}
// unbounded variant: only on an already validated string
inline const char* FindStr4End(const char* p)
{
  if (p[0] == '\0')
    return p + 4;
  p += 3;
  while (*p)
    p += 4;
  return p + 1;
}
}
class ReceivedPacket
{
public:
  ReceivedPacket(const char* c, std::size_t s) : m_contents{c}, m_size{ValidateSize(s)} {}
  bool IsMessage() const { return !IsBundle(); }
  bool IsBundle() const { return m_size > 0 && m_contents[0] == '#'; }
  osc_bundle_element_size_t Size() const { return m_size; }
  const char* Contents() const { return m_contents; }

private:
  static osc_bundle_element_size_t ValidateSize(std::size_t s)
  {
    if (s > OSC_BUNDLE_ELEMENT_SIZE_MAX)
      throw MalformedPacketException("invalid packet size");
    if (s == 0)
      throw MalformedPacketException("zero length elements not permitted");
    if (!IsMultipleOf4(int32(s)))
      throw MalformedPacketException("element size must be multiple of four");
    return int32(s);
  }
  const char* m_contents;
  osc_bundle_element_size_t m_size;
};
class ReceivedBundleElement
{
public:
  ReceivedBundleElement(const char* p) : m_p{p} {}
  friend class ReceivedBundleElementIterator;
  bool IsMessage() const { return !IsBundle(); }
  bool IsBundle() const { return Size() > 0 && Contents()[0] == '#'; }
  osc_bundle_element_size_t Size() const { return int32(detail::get32(m_p)); }
  const char* Contents() const { return m_p + 4; }

private:
  const char* m_p;
};
class ReceivedBundleElementIterator
{
public:
  ReceivedBundleElementIterator(const char* p) : m_v{p} {}
  ReceivedBundleElementIterator operator++() { m_v.m_p = m_v.Contents() + m_v.Size(); return *this; }
  ReceivedBundleElementIterator operator++(int) { auto o = *this; ++*this; return o; }
  const ReceivedBundleElement& operator*() const { return m_v; }
  const ReceivedBundleElement* operator->() const { return &m_v; }
  bool operator==(const ReceivedBundleElementIterator& o) const { return m_v.m_p == o.m_v.m_p; }
  bool operator!=(const ReceivedBundleElementIterator& o) const { return !(*this == o); }

private:
  ReceivedBundleElement m_v;
};
class ReceivedMessageArgument
{
public:
  ReceivedMessageArgument(const char* t, const char* a) : m_t{t}, m_a{a} {}
  friend class ReceivedMessageArgumentIterator;
  char TypeTag() const { return *m_t; }
  bool IsBool() const { return *m_t == 'T' || *m_t == 'F'; }
  bool AsBool() const { if (!m_t) throw MissingArgumentException{}; if (!IsBool()) throw WrongArgumentTypeException{}; return *m_t == 'T'; }
  bool AsBoolUnchecked() const { return *m_t == 'T'; }
  bool IsNil() const { return *m_t == 'N'; }
  bool IsInfinitum() const { return *m_t == 'I'; }
#define SHIM_ARG(Name, T, tag, expr)                                              \
  bool Is##Name() const { return *m_t == tag; }                                   \
  T As##Name##Unchecked() const { return expr; }                                  \
  T As##Name() const { if (!m_t) throw MissingArgumentException{}; if (!Is##Name()) throw WrongArgumentTypeException{}; return As##Name##Unchecked(); }
  SHIM_ARG(Int32, int32, 'i', int32(detail::get32(m_a)))
  SHIM_ARG(Float, float, 'f', detail_bit_cast<float>(detail::get32(m_a)))
  SHIM_ARG(Char, char, 'c', char(detail::get32(m_a)))
  SHIM_ARG(RgbaColor, uint32, 'r', detail::get32(m_a))
  SHIM_ARG(MidiMessage, uint32, 'm', detail::get32(m_a))
  SHIM_ARG(Int64, int64, 'h', int64(detail::get64(m_a)))
  SHIM_ARG(TimeTag, uint64, 't', detail::get64(m_a))
  SHIM_ARG(Double, double, 'd', detail_bit_cast<double>(detail::get64(m_a)))
  SHIM_ARG(String, const char*, 's', m_a)
  SHIM_ARG(Symbol, const char*, 'S', m_a)
#undef SHIM_ARG
  bool IsBlob() const { return *m_t == 'b'; }
  void AsBlobUnchecked(const void*& data, osc_bundle_element_size_t& size) const
  {
    const auto s = int32(detail::get32(m_a));
    if (!IsValidElementSizeValue(s))
      throw MalformedMessageException("invalid blob size");
    size = s;
    data = m_a + 4;
  }
  void AsBlob(const void*& data, osc_bundle_element_size_t& size) const
  {
    if (!m_t)
      throw MissingArgumentException{};
    if (!IsBlob())
      throw WrongArgumentTypeException{};
    AsBlobUnchecked(data, size);
  }
  bool IsArrayBegin() const { return *m_t == '['; }
  bool IsArrayEnd() const { return *m_t == ']'; }

private:
  const char* m_t;
  const char* m_a;
};
class ReceivedMessageArgumentIterator
{
public:
  ReceivedMessageArgumentIterator(const char* t, const char* a) : m_v{t, a} {}
  ReceivedMessageArgumentIterator operator++() { Advance(); return *this; }
  ReceivedMessageArgumentIterator operator++(int) { auto o = *this; Advance(); return o; }
  const ReceivedMessageArgument& operator*() const { return m_v; }
  const ReceivedMessageArgument* operator->() const { return &m_v; }
  bool operator==(const ReceivedMessageArgumentIterator& o) const { return m_v.m_t == o.m_v.m_t; }
  bool operator!=(const ReceivedMessageArgumentIterator& o) const { return !(*this == o); }

private:
  void Advance()
  {
    if (!m_v.m_t)
      return;
    switch (*m_v.m_t++)
    {
      case '\0':
        // as upstream: reading past the end is the caller's error
        --m_v.m_t;
        break;
      case 'i': case 'f': case 'c': case 'r': case 'm':
        m_v.m_a += 4;
        break;
      case 'h': case 't': case 'd':
        m_v.m_a += 8;
        break;
      case 's': case 'S':
        m_v.m_a = detail::FindStr4End(m_v.m_a);
        break;
      case 'b':
        m_v.m_a += 4 + RoundUp4(detail::get32(m_v.m_a));
        break;
      default:
        break;
    }
  }
  ReceivedMessageArgument m_v;
};
class ReceivedMessage
{
public:
  explicit ReceivedMessage(const ReceivedPacket& p) { Init(p.Contents(), p.Size()); }
  explicit ReceivedMessage(const ReceivedBundleElement& e) { Init(e.Contents(), e.Size()); }
  const char* AddressPattern() const { return m_address; }
  uint32 ArgumentCount() const { return uint32(m_tagsEnd - m_tagsBegin); }
  const char* TypeTags() const { return m_tagsBegin; }
  using const_iterator = ReceivedMessageArgumentIterator;
  ReceivedMessageArgumentIterator ArgumentsBegin() const { return {m_tagsBegin, m_args}; }
  ReceivedMessageArgumentIterator ArgumentsEnd() const { return {m_tagsEnd, nullptr}; }

private:
  void Init(const char* m, osc_bundle_element_size_t size)
  {
    if (!IsValidElementSizeValue(size))
      throw MalformedMessageException("invalid message size");
    if (size == 0)
      throw MalformedMessageException("zero length messages not permitted");
    if (!IsMultipleOf4(size))
      throw MalformedMessageException("message size must be multiple of four");
    const char* end = m + size;
    m_address = m;
    m_tagsBegin = detail::FindStr4End(m_address, end);
    if (!m_tagsBegin)
      throw MalformedMessageException("unterminated address pattern");
    if (m_tagsBegin == end)
    {
      m_tagsBegin = m_tagsEnd = m_args = nullptr;
      return;
    }
    if (*m_tagsBegin != ',')
      throw MalformedMessageException("type tags not present");
    if (m_tagsBegin[1] == '\0')
    {
      m_tagsBegin = m_tagsEnd = m_args = nullptr;
      return;
    }
    m_args = detail::FindStr4End(m_tagsBegin, end);
    if (!m_args)
      throw MalformedMessageException("type tags were not terminated before end of message");
    ++m_tagsBegin;
    const char* t = m_tagsBegin;
    const char* a = m_args;
    unsigned arrayLevel = 0;
    do
    {
      switch (*t)
      {
        case 'T': case 'F': case 'N': case 'I':
          break;
        case '[':
          ++arrayLevel;
          break;
        case ']':
          --arrayLevel;
          break;
        case 'i': case 'f': case 'c': case 'r': case 'm':
          if (a == end)
            throw MalformedMessageException("arguments exceed message size");
          a += 4;
          if (a > end)
            throw MalformedMessageException("arguments exceed message size");
          break;
        case 'h': case 't': case 'd':
          if (a == end)
            throw MalformedMessageException("arguments exceed message size");
          a += 8;
          if (a > end)
            throw MalformedMessageException("arguments exceed message size");
          break;
        case 's': case 'S':
          if (a == end)
            throw MalformedMessageException("arguments exceed message size");
          a = detail::FindStr4End(a, end);
          if (!a)
            throw MalformedMessageException("unterminated string argument");
          break;
        case 'b':
        {
          if (a + 4 > end)
            throw MalformedMessageException("arguments exceed message size");
          const uint32 bs = detail::get32(a);
          if (bs > OSC_INT32_MAX - 3u || std::size_t(end - a) < 4 + RoundUp4(bs))
            throw MalformedMessageException("arguments exceed message size");
          a += 4 + RoundUp4(bs);
          break;
        }
        default:
          throw MalformedMessageException("unknown type tag");
      }
    } while (*++t != '\0');
    m_tagsEnd = t;
    if (arrayLevel != 0)
      throw MalformedMessageException("array was not terminated before end of message (expected ']' end of array tag)");
  }
  const char* m_address{};
  const char* m_tagsBegin{};
  const char* m_tagsEnd{};
  const char* m_args{};
};
class ReceivedBundle
{
public:
  explicit ReceivedBundle(const ReceivedPacket& p) { Init(p.Contents(), p.Size()); }
  explicit ReceivedBundle(const ReceivedBundleElement& e) { Init(e.Contents(), e.Size()); }
  uint64 TimeTag() const { return detail::get64(m_timeTag); }
  uint32 ElementCount() const { return m_count; }
  using const_iterator = ReceivedBundleElementIterator;
  ReceivedBundleElementIterator ElementsBegin() const { return {m_timeTag + 8}; }
  ReceivedBundleElementIterator ElementsEnd() const { return {m_end}; }

private:
  void Init(const char* b, osc_bundle_element_size_t size)
  {
    if (!IsValidElementSizeValue(size))
      throw MalformedBundleException("invalid bundle size");
    if (size < 16)
      throw MalformedBundleException("packet too short for bundle");
    if (!IsMultipleOf4(size))
      throw MalformedBundleException("bundle size must be multiple of four");
    if (std::memcmp(b, "#bundle\0", 8) != 0)
      throw MalformedBundleException("bad bundle address pattern");
    m_end = b + size;
    m_timeTag = b + 8;
    const char* p = m_timeTag + 8;
    while (p < m_end)
    {
      if (p + 4 > m_end)
        throw MalformedBundleException("packet too short for elementSize");
      const uint32 es = detail::get32(p);
      if (es & 3)
        throw MalformedBundleException("bundle element size must be multiple of four");
      if (es > OSC_BUNDLE_ELEMENT_SIZE_MAX || std::size_t(m_end - p) < std::size_t(es) + 4)
        throw MalformedBundleException("packet too short for bundle element");
      p += 4 + es;
      ++m_count;
    }
    if (p != m_end)
      throw MalformedBundleException("bundle contents");
  }
  const char* m_timeTag{};
  const char* m_end{};
  uint32 m_count{};
};
}
