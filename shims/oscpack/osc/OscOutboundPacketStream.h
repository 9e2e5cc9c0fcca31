#pragma once
#include <oscpack/osc/OscTypes.h>
#include <bit>
#include <cstring>
#include <string>
#include <vector>
namespace oscpack
{
class OutOfBufferMemoryException : public Exception { public: OutOfBufferMemoryException() : Exception{"out of buffer memory"} {} };
class BundleNotInProgressException : public Exception { public: BundleNotInProgressException() : Exception{"bundle not in progress"} {} };
class MessageInProgressException : public Exception { public: MessageInProgressException() : Exception{"message in progress"} {} };
class MessageNotInProgressException : public Exception { public: MessageNotInProgressException() : Exception{"message not in progress"} {} };

class OutboundPacketStream
{
public:
  OutboundPacketStream(char* buffer, std::size_t capacity) : m_data{buffer}, m_cap{capacity} {}
  OutboundPacketStream(const OutboundPacketStream&) = delete;
  void Clear() { m_size = 0; m_bundles.clear(); m_inMessage = false; m_args.clear(); m_tags.clear(); }
  std::size_t Capacity() const { return m_cap; }
  std::size_t Size() const
  {
    if (m_inMessage)
      return m_size + RoundUp4(m_tags.size() + 2) + m_args.size();
    return m_size;
  }
  const char* Data() const { return m_data; }
  bool IsReady() const { return !m_inMessage && m_bundles.empty(); }
  bool IsMessageInProgress() const { return m_inMessage; }
  bool IsBundleInProgress() const { return !m_bundles.empty(); }

  OutboundPacketStream& operator<<(const BundleInitiator& rhs)
  {
    if (m_inMessage)
      throw MessageInProgressException{};
    const bool slot = !m_bundles.empty();
    need(m_size + (slot ? 4 : 0) + 16);
    begin_element(slot);
    std::memcpy(m_data + m_size, "#bundle\0", 8);
    put64(m_data + m_size + 8, rhs.timeTag);
    m_size += 16;
    m_bundles.push_back(slot ? long(m_elementSlot) : -1);
    return *this;
  }
  OutboundPacketStream& operator<<(const EndBundle&)
  {
    if (m_bundles.empty())
      throw BundleNotInProgressException{};
    if (m_inMessage)
      throw MessageInProgressException{};
    const long slot = m_bundles.back();
    m_bundles.pop_back();
    if (slot >= 0)
      put32(m_data + slot, uint32(m_size - slot - 4));
    return *this;
  }
  OutboundPacketStream& operator<<(const BeginMessage& rhs) { return *this << BeginMessageN{rhs.addressPattern}; }
  OutboundPacketStream& operator<<(const BeginMessageN& rhs)
  {
    if (m_inMessage)
      throw MessageInProgressException{};
    const bool slot = !m_bundles.empty();
    const auto sz = RoundUp4(rhs.addressPattern.size() + 1);
    need(m_size + (slot ? 4 : 0) + sz + 4);
    begin_element(slot);
    m_messageSlot = slot ? long(m_elementSlot) : -1;
    put_string(m_data + m_size, rhs.addressPattern, sz);
    m_size += sz;
    m_tags.clear();
    m_args.clear();
    m_inMessage = true;
    return *this;
  }
  OutboundPacketStream& operator<<(const EndMessage&)
  {
    if (!m_inMessage)
      throw MessageNotInProgressException{};
    const auto tagsz = RoundUp4(m_tags.size() + 2);
    need(m_size + tagsz + m_args.size());
    put_string(m_data + m_size, "," + m_tags, tagsz);
    m_size += tagsz;
    std::memcpy(m_data + m_size, m_args.data(), m_args.size());
    m_size += m_args.size();
    if (m_messageSlot >= 0)
      put32(m_data + m_messageSlot, uint32(m_size - m_messageSlot - 4));
    m_inMessage = false;
    m_tags.clear();
    m_args.clear();
    return *this;
  }
  OutboundPacketStream& operator<<(bool rhs) { arg(0, rhs ? TRUE_TYPE_TAG : FALSE_TYPE_TAG); return *this; }
  OutboundPacketStream& operator<<(const NilType&) { arg(0, NIL_TYPE_TAG); return *this; }
  OutboundPacketStream& operator<<(const Infinitum&) { arg(0, INFINITUM_TYPE_TAG); return *this; }
  OutboundPacketStream& operator<<(int32 rhs) { put32(arg(4, INT32_TYPE_TAG), uint32(rhs)); return *this; }
  OutboundPacketStream& operator<<(float rhs) { put32(arg(4, FLOAT_TYPE_TAG), detail_bit_cast<uint32>(rhs)); return *this; }
  OutboundPacketStream& operator<<(char rhs) { put32(arg(4, CHAR_TYPE_TAG), uint32(int32(rhs))); return *this; }
  OutboundPacketStream& operator<<(const RgbaColor& rhs) { put32(arg(4, RGBA_COLOR_TYPE_TAG), rhs.value); return *this; }
  OutboundPacketStream& operator<<(const MidiMessage& rhs) { put32(arg(4, MIDI_MESSAGE_TYPE_TAG), rhs.value); return *this; }
  OutboundPacketStream& operator<<(int64 rhs) { put64(arg(8, INT64_TYPE_TAG), uint64(rhs)); return *this; }
  OutboundPacketStream& operator<<(const TimeTag& rhs) { put64(arg(8, TIME_TAG_TYPE_TAG), rhs.value); return *this; }
  OutboundPacketStream& operator<<(double rhs) { put64(arg(8, DOUBLE_TYPE_TAG), detail_bit_cast<uint64>(rhs)); return *this; }
  OutboundPacketStream& operator<<(const char* rhs) { return *this << std::string_view{rhs}; }
  OutboundPacketStream& operator<<(const std::string& rhs) { return *this << std::string_view{rhs}; }
  OutboundPacketStream& operator<<(std::string_view rhs)
  {
    const auto sz = RoundUp4(rhs.size() + 1);
    put_string(arg(sz, STRING_TYPE_TAG), rhs, sz);
    return *this;
  }
  OutboundPacketStream& operator<<(const Symbol& rhs)
  {
    const auto sz = RoundUp4(rhs.value.size() + 1);
    put_string(arg(sz, SYMBOL_TYPE_TAG), rhs.value, sz);
    return *this;
  }
  OutboundPacketStream& operator<<(const Blob& rhs)
  {
    const auto sz = RoundUp4(rhs.size);
    char* p = arg(4 + sz, BLOB_TYPE_TAG);
    put32(p, uint32(rhs.size));
    if (rhs.size > 0)
      std::memcpy(p + 4, rhs.data, rhs.size);
    return *this;
  }
  OutboundPacketStream& operator<<(const BeginArray&) { arg(0, ARRAY_BEGIN_TYPE_TAG); return *this; }
  OutboundPacketStream& operator<<(const EndArray&) { arg(0, ARRAY_END_TYPE_TAG); return *this; }

private:
  void need(std::size_t n) const { if (n > m_cap) throw OutOfBufferMemoryException{}; }
  void begin_element(bool slot)
  {
    if (slot)
    {
      m_elementSlot = m_size;
      put32(m_data + m_size, 0);
      m_size += 4;
    }
  }
  char* arg(std::size_t sz, char tag)
  {
    if (!m_inMessage)
      throw MessageNotInProgressException{};
    need(m_size + RoundUp4(m_tags.size() + 1 + 2) + m_args.size() + sz);
    m_tags.push_back(tag);
    const auto at = m_args.size();
    m_args.resize(at + sz, '\0');
    return m_args.data() + at;
  }
  static void put32(char* p, uint32 v) { for (int i = 0; i < 4; i++) p[i] = char(v >> (24 - 8 * i)); }
  static void put64(char* p, uint64 v) { for (int i = 0; i < 8; i++) p[i] = char(v >> (56 - 8 * i)); }
  static void put_string(char* p, std::string_view s, std::size_t padded)
  {
    std::memcpy(p, s.data(), s.size());
    std::memset(p + s.size(), 0, padded - s.size());
  }
  char* m_data;
  std::size_t m_cap;
  std::size_t m_size{};
  std::size_t m_elementSlot{};
  long m_messageSlot{-1};
  std::vector<long> m_bundles;
  std::string m_tags, m_args;
  bool m_inMessage{};
};
}
