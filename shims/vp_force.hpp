#pragma once
// Force-included before every libossia source: only things that the pinned
// versions of the (missing) dependencies used to provide.
#include <cstdint>
#include <cstddef>
#include <sstream>
#include <iterator>
#include <stdexcept>
#include <fmt/format.h>
#include <fmt/ostream.h>
namespace fmt
{
// fmt < 8 accepted a memory buffer directly
template <std::size_t N, typename... Args>
inline auto format_to(basic_memory_buffer<char, N>& b, fmt::string_view f, Args&&... args)
{
  return fmt::vformat_to(std::back_inserter(b), f, fmt::make_format_args(args...));
}
// Better match than both fmt's and (through ADL, C++20) std's format_to for
// the unqualified calls with a literal format in libossia.
template <std::size_t N, std::size_t M, typename... Args>
inline auto format_to(basic_memory_buffer<char, N>& b, const char (&f)[M], Args&&... args)
{
  return fmt::vformat_to(std::back_inserter(b), fmt::string_view{f}, fmt::make_format_args(args...));
}
template <typename It, std::size_t M, typename... Args>
inline It format_to(It out, const char (&f)[M], Args&&... args)
{
  return fmt::vformat_to(out, fmt::string_view{f}, fmt::make_format_args(args...));
}
}
