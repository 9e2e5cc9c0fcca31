#pragma once
// Stand-in for ossia's oscpack fork (3rdparty/oscpack is an empty submodule
// here): wire format of OSC 1.0/1.1 as in upstream oscpack.
#include <cstddef>
#include <cstdint>
#include <stdexcept>
#include <string_view>
namespace oscpack
{
template <typename To, typename From>
inline To detail_bit_cast(const From& f)
{
  static_assert(sizeof(To) == sizeof(From));
  To t;
  __builtin_memcpy(&t, &f, sizeof(To));
  return t;
}
using int64 = int64_t;
using uint64 = uint64_t;
using int32 = int32_t;
using uint32 = uint32_t;
enum ValueTypeSizes { OSC_SIZEOF_INT32 = 4, OSC_SIZEOF_UINT32 = 4, OSC_SIZEOF_INT64 = 8, OSC_SIZEOF_UINT64 = 8 };
using osc_bundle_element_size_t = int32;
enum { OSC_INT32_MAX = 0x7FFFFFFF, OSC_BUNDLE_ELEMENT_SIZE_MAX = 0x7FFFFFFC };
inline bool IsValidElementSizeValue(osc_bundle_element_size_t x) { return x >= 0 && x <= OSC_BUNDLE_ELEMENT_SIZE_MAX; }
inline bool IsMultipleOf4(osc_bundle_element_size_t x) { return (x & 3) == 0; }
inline constexpr std::size_t RoundUp4(std::size_t x) { return (x + 3) & ~std::size_t(3); }
enum TypeTagValues : char
{
  TRUE_TYPE_TAG = 'T', FALSE_TYPE_TAG = 'F', NIL_TYPE_TAG = 'N', INFINITUM_TYPE_TAG = 'I', INT32_TYPE_TAG = 'i',
  FLOAT_TYPE_TAG = 'f', CHAR_TYPE_TAG = 'c', RGBA_COLOR_TYPE_TAG = 'r', MIDI_MESSAGE_TYPE_TAG = 'm',
  INT64_TYPE_TAG = 'h', TIME_TAG_TYPE_TAG = 't', DOUBLE_TYPE_TAG = 'd', STRING_TYPE_TAG = 's',
  SYMBOL_TYPE_TAG = 'S', BLOB_TYPE_TAG = 'b', ARRAY_BEGIN_TYPE_TAG = '[', ARRAY_END_TYPE_TAG = ']'
};
class Exception : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
struct BundleInitiator { explicit constexpr BundleInitiator(uint64 t) : timeTag{t} {} uint64 timeTag; };
struct BeginBundleImmediate : BundleInitiator { constexpr BeginBundleImmediate() : BundleInitiator{1} {} };
struct EndBundle {};
struct BeginMessage { explicit BeginMessage(const char* a) : addressPattern{a} {} const char* addressPattern; };
struct BeginMessageN { explicit BeginMessageN(std::string_view a) : addressPattern{a} {} std::string_view addressPattern; };
struct EndMessage {};
struct NilType {};
using OscNil = NilType;
struct Infinitum {};
struct RgbaColor
{
  constexpr RgbaColor() : value{} {}
  explicit constexpr RgbaColor(uint32 v) : value{v} {}
  uint32 value;
  constexpr operator uint32() const { return value; }
};
struct MidiMessage { explicit MidiMessage(uint32 v = 0) : value{v} {} uint32 value; };
struct TimeTag { explicit TimeTag(uint64 v = 0) : value{v} {} uint64 value; };
struct Symbol { explicit Symbol(std::string_view v = {}) : value{v} {} std::string_view value; };
struct Blob
{
  Blob() = default;
  explicit Blob(const void* d, osc_bundle_element_size_t s) : data{d}, size{s} {}
  const void* data{};
  osc_bundle_element_size_t size{};
};
struct BeginArray {};
struct EndArray {};
}
