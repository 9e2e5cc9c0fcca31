#pragma once
// SmallFunction stand-in: fixed-capacity type-erased callable.
#include <cstddef>
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace smallfun
{
enum class Methods { Both, Copy, Move };
template <typename Sig, std::size_t Size = 128, std::size_t Align = alignof(std::max_align_t), Methods M = Methods::Both>
class function;

template <typename R, typename... Args, std::size_t Size, std::size_t Align, Methods M>
class function<R(Args...), Size, Align, M>
{
public:
  function() = default;
  function(std::nullptr_t) { }
  template <
      typename F,
      std::enable_if_t<
          !std::is_base_of_v<function, std::decay_t<F>> && std::is_invocable_v<std::decay_t<F>&, Args...>,
          int> = 0>
  function(F&& f) : m_f{std::forward<F>(f)}
  {
  }
  function(const function&) = default;
  function(function&& o) noexcept : m_f{std::move(o.m_f)} { o.m_f = nullptr; }
  function& operator=(const function&) = default;
  function& operator=(function&& o) noexcept
  {
    m_f = std::move(o.m_f);
    if (&o != this)
      o.m_f = nullptr;
    return *this;
  }
  R operator()(Args... args) const { return m_f(std::forward<Args>(args)...); }
  explicit operator bool() const noexcept { return bool(m_f); }
  bool allocated() const noexcept { return bool(m_f); }

private:
  std::function<R(Args...)> m_f;
};

// move-only callables
template <typename R, typename... Args, std::size_t Size, std::size_t Align>
class function<R(Args...), Size, Align, Methods::Move>
{
  struct base { virtual ~base() = default; virtual R call(Args... a) = 0; };
  template <typename F>
  struct impl final : base
  {
    F f;
    template <typename U> impl(U&& u) : f(std::forward<U>(u)) { }
    R call(Args... a) override { return f(std::forward<Args>(a)...); }
  };

public:
  function() = default;
  template <typename F, std::enable_if_t<!std::is_base_of_v<function, std::decay_t<F>>, int> = 0>
  function(F&& f) : m_f{new impl<std::decay_t<F>>{std::forward<F>(f)}}
  {
  }
  function(const function&) = delete;
  function& operator=(const function&) = delete;
  function(function&& o) noexcept : m_f{o.m_f} { o.m_f = nullptr; }
  function& operator=(function&& o) noexcept { std::swap(m_f, o.m_f); return *this; }
  ~function() { delete m_f; }
  R operator()(Args... args) const { return m_f->call(std::forward<Args>(args)...); }
  explicit operator bool() const noexcept { return m_f; }
  bool allocated() const noexcept { return m_f; }

private:
  base* m_f{};
};
}
