#pragma once
// eggs::variant stand-in on std::variant<std::monostate, Ts...>.
// which(): 0-based among Ts, npos when empty; target<T>(); apply() throws
// bad_variant_access when empty; comparisons like eggs (empty < any).
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <variant>
namespace eggs
{
namespace variants
{
template <typename T> struct in_place_type_t_ { explicit in_place_type_t_() = default; };
template <typename T> constexpr std::in_place_type_t<T> in_place{};
using bad_variant_access = std::bad_variant_access;

namespace shim
{
template <typename T> struct is_in_place : std::false_type {};
template <typename T> struct is_in_place<std::in_place_type_t<T>> : std::true_type {};
}
template <typename... Ts>
class variant
{
public:
  using impl_t = std::variant<std::monostate, Ts...>;
  static constexpr std::size_t npos = std::size_t(-1);
  variant() = default;
  variant(const variant&) = default;
  variant(variant&&) = default;
  variant& operator=(const variant&) = default;
  variant& operator=(variant&&) = default;
  template <
      typename T,
      std::enable_if_t<
          !std::is_base_of_v<variant, std::decay_t<T>> && (std::is_same_v<std::decay_t<T>, Ts> || ...), int> = 0>
  variant(T&& t) : m{std::in_place_type<std::decay_t<T>>, std::forward<T>(t)}
  {
  }
  template <
      typename T,
      std::enable_if_t<
          !std::is_base_of_v<variant, std::decay_t<T>> && !(std::is_same_v<std::decay_t<T>, Ts> || ...)
              && !shim::is_in_place<std::decay_t<T>>::value && std::is_constructible_v<std::variant<Ts...>, T&&>,
          int> = 0>
  variant(T&& t)
  {
    std::visit(
        [this](auto&& x) { m.template emplace<std::decay_t<decltype(x)>>(std::move(x)); },
        std::variant<Ts...>(std::forward<T>(t)));
  }
  template <typename T, typename... Args>
  variant(std::in_place_type_t<T> tag, Args&&... args) : m{std::in_place_type<T>, std::forward<Args>(args)...}
  {
    static_assert((std::is_same_v<T, Ts> || ...));
  }
  template <
      typename T,
      std::enable_if_t<
          !std::is_base_of_v<variant, std::decay_t<T>> && (std::is_same_v<std::decay_t<T>, Ts> || ...), int> = 0>
  variant& operator=(T&& t)
  {
    m = std::forward<T>(t);
    return *this;
  }
  template <typename T, typename... Args>
  T& emplace(Args&&... args) { return m.template emplace<T>(std::forward<Args>(args)...); }

  explicit operator bool() const noexcept { return m.index() != 0 && !m.valueless_by_exception(); }
  std::size_t which() const noexcept { return *this ? m.index() - 1 : npos; }
  template <typename T> T* target() noexcept { return std::get_if<T>(&m); }
  template <typename T> const T* target() const noexcept { return std::get_if<T>(&m); }
  void* target() noexcept
  {
    return std::visit([](auto& x) -> void* { return std::is_same_v<std::decay_t<decltype(x)>, std::monostate> ? nullptr : (void*)&x; }, m);
  }
  const void* target() const noexcept { return const_cast<variant*>(this)->target(); }
  template <std::size_t I> auto* target() noexcept { return std::get_if<I + 1>(&m); }
  template <std::size_t I> const auto* target() const noexcept { return std::get_if<I + 1>(&m); }
  impl_t& shim_impl() & noexcept { return m; }
  const impl_t& shim_impl() const& noexcept { return m; }
  impl_t&& shim_impl() && noexcept { return std::move(m); }

private:
  impl_t m;
};

template <typename... Ts>
bool operator==(const variant<Ts...>& a, const variant<Ts...>& b) { return a.shim_impl() == b.shim_impl(); }
template <typename... Ts>
bool operator!=(const variant<Ts...>& a, const variant<Ts...>& b) { return !(a.shim_impl() == b.shim_impl()); }

template <typename... Ts, typename T, std::enable_if_t<(std::is_same_v<T, Ts> || ...), int> = 0>
bool operator==(const variant<Ts...>& a, const T& b)
{
  auto p = a.template target<T>();
  return p && *p == b;
}

template <std::size_t N, typename V> struct variant_element;
template <std::size_t N, typename... Ts>
struct variant_element<N, variant<Ts...>> { using type = std::variant_alternative_t<N, std::variant<Ts...>>; };
template <std::size_t N, typename... Ts>
struct variant_element<N, const variant<Ts...>> { using type = const std::variant_alternative_t<N, std::variant<Ts...>>; };

template <std::size_t N, typename... Ts>
auto& get(variant<Ts...>& v) { return std::get<N + 1>(v.shim_impl()); }
template <std::size_t N, typename... Ts>
const auto& get(const variant<Ts...>& v) { return std::get<N + 1>(v.shim_impl()); }
template <typename T, typename... Ts>
T& get(variant<Ts...>& v) { return std::get<T>(v.shim_impl()); }
template <typename T, typename... Ts>
const T& get(const variant<Ts...>& v) { return std::get<T>(v.shim_impl()); }

namespace shim
{
template <typename V> struct first_alt;
template <typename T, typename... Ts> struct first_alt<variant<T, Ts...>> { using type = T; };
template <typename V, typename T>
using like = std::conditional_t<
    std::is_lvalue_reference_v<V>,
    std::conditional_t<std::is_const_v<std::remove_reference_t<V>>, const T&, T&>, T&&>;
template <typename V> using first_like = like<V, typename first_alt<std::decay_t<V>>::type>;
}

template <typename F, typename... Vs>
auto apply(F&& f, Vs&&... vs) -> std::invoke_result_t<F&, shim::first_like<Vs&&>...>
{
  using R = std::invoke_result_t<F&, shim::first_like<Vs&&>...>;
  return std::visit(
      [&](auto&&... xs) -> R {
        if constexpr ((std::is_same_v<std::decay_t<decltype(xs)>, std::monostate> || ...))
          throw bad_variant_access{};
        else
          return f(std::forward<decltype(xs)>(xs)...);
      },
      std::forward<Vs>(vs).shim_impl()...);
}
}
template <typename... Ts>
using variant = variants::variant<Ts...>;
}
