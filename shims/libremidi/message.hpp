#pragma once
#include <cstdint>
#include <vector>
namespace libremidi
{
template <typename T> constexpr T clamp(T v, T lo, T hi) { return v < lo ? lo : (v > hi ? hi : v); }
using midi_bytes = std::vector<unsigned char>;
enum class message_type : uint8_t
{
  INVALID = 0, NOTE_OFF = 0x80, NOTE_ON = 0x90, POLY_PRESSURE = 0xA0, CONTROL_CHANGE = 0xB0,
  PROGRAM_CHANGE = 0xC0, AFTERTOUCH = 0xD0, PITCH_BEND = 0xE0, SYSTEM_EXCLUSIVE = 0xF0
};
struct message
{
  midi_bytes bytes;
  double timestamp{};
  message() = default;
  message(const midi_bytes& b, double t = 0) : bytes{b}, timestamp{t} {}
  message(unsigned char a, unsigned char b, unsigned char c) : bytes{a, b, c} {}
  static unsigned char ch(unsigned char base, int c) { return (unsigned char)(base | ((c - 1) & 0x0F)); }
  static message note_on(int c, uint8_t n, uint8_t v) { return {ch(0x90, c), n, v}; }
  static message note_off(int c, uint8_t n, uint8_t v) { return {ch(0x80, c), n, v}; }
  static message control_change(int c, uint8_t n, uint8_t v) { return {ch(0xB0, c), n, v}; }
  static message pitch_bend(int c, int v) { return {ch(0xE0, c), (unsigned char)(v & 0x7F), (unsigned char)((v >> 7) & 0x7F)}; }
  static message program_change(int c, uint8_t v) { message m; m.bytes = {ch(0xC0, c), v}; return m; }
  message_type get_message_type() const { return bytes.empty() ? message_type::INVALID : bytes[0] >= 0xF0 ? message_type(bytes[0]) : message_type(bytes[0] & 0xF0); }
  int get_channel() const { return bytes.empty() || bytes[0] < 0x80 || bytes[0] >= 0xF0 ? 0 : (bytes[0] & 0x0F) + 1; }
  auto size() const { return bytes.size(); }
  bool empty() const { return bytes.empty(); }
  unsigned char& operator[](std::size_t i) { return bytes[i]; }
  const unsigned char& operator[](std::size_t i) const { return bytes[i]; }
  auto begin() const { return bytes.begin(); }
  auto end() const { return bytes.end(); }
};
}
