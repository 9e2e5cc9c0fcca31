#pragma once
// Minimal nano-signal-slot (ossia fork API): Nano::Signal / Nano::Observer.
// Same observable contract: slots run in connection order; a slot bound to an
// Observer is dropped when either side dies; (instance, function) identifies a
// connection; connecting the same pair twice is idempotent... emission walks a
// snapshot-safe list so that (dis)connecting from a slot is defined.
#include <cstdint>
#include <functional>
#include <memory>
#include <type_traits>
#include <vector>
#include <algorithm>
#include <utility>

namespace Nano
{
struct shim_key
{
  const void* instance{};
  const void* function{};
  bool operator==(const shim_key& o) const noexcept
  { return instance == o.instance && function == o.function; }
};

struct shim_signal_base
{
  virtual ~shim_signal_base() = default;
  virtual void shim_drop_observer(const void* obs) = 0;
};

class Observer
{
public:
  Observer() noexcept = default;
  Observer(const Observer&) noexcept { }
  Observer& operator=(const Observer&) noexcept { return *this; }
  ~Observer()
  {
    auto s = std::move(m_sigs);
    m_sigs.clear();
    for (auto* sig : s)
      sig->shim_drop_observer(this);
  }
  void shim_add(shim_signal_base* s)
  {
    if (std::find(m_sigs.begin(), m_sigs.end(), s) == m_sigs.end())
      m_sigs.push_back(s);
  }
  void shim_remove(shim_signal_base* s)
  {
    m_sigs.erase(std::remove(m_sigs.begin(), m_sigs.end(), s), m_sigs.end());
  }

private:
  std::vector<shim_signal_base*> m_sigs;
};

template <auto F>
struct shim_tag { static constexpr char id{}; };
template <typename T>
struct shim_tag_t { static constexpr char id{}; };

template <typename Sig>
class Signal;

template <typename RT, typename... Args>
class Signal<RT(Args...)> : public shim_signal_base
{
  struct slot
  {
    shim_key key;
    Observer* obs{};
    std::function<RT(Args...)> fun;
  };
  using slots_t = std::vector<std::shared_ptr<slot>>;

public:
  Signal() = default;
  Signal(const Signal&) = delete;
  Signal& operator=(const Signal&) = delete;
  ~Signal()
  {
    for (auto& s : m_slots)
      if (s->obs)
        s->obs->shim_remove(this);
  }

  template <RT (*F)(Args...)>
  void connect()
  {
    add({nullptr, &shim_tag<F>::id}, nullptr, F);
  }
  template <RT (*F)(Args...)>
  void disconnect()
  {
    remove({nullptr, &shim_tag<F>::id});
  }

  template <auto F, typename T>
  void connect(T* t)
  {
    add({(const void*)t, &shim_tag<F>::id}, obs(t),
        [t](Args... args) -> RT { return (t->*F)(std::forward<Args>(args)...); });
  }
  template <auto F, typename T>
  void connect(T& t) { connect<F>(std::addressof(t)); }
  template <auto F, typename T>
  void disconnect(T* t)
  {
    remove({(const void*)t, &shim_tag<F>::id});
  }
  template <auto F, typename T>
  void disconnect(T& t) { disconnect<F>(std::addressof(t)); }

  template <typename L>
  void connect(L* l)
  {
    add({(const void*)l, &shim_tag_t<L>::id}, obs(l),
        [l](Args... args) -> RT { return (*l)(std::forward<Args>(args)...); });
  }
  template <typename L>
  void connect(L& l) { connect(std::addressof(l)); }
  template <typename L>
  void disconnect(L* l) { remove({(const void*)l, &shim_tag_t<L>::id}); }
  template <typename L>
  void disconnect(L& l) { disconnect(std::addressof(l)); }

  bool is_empty() const noexcept { return m_slots.empty(); }
  bool empty() const noexcept { return m_slots.empty(); }

  template <typename... U>
  void operator()(U&&... args) const
  {
    if (m_slots.empty())
      return;
    // snapshot: slots removed during the emission are skipped
    slots_t snap = m_slots;
    for (auto& s : snap)
      if (s->fun)
        s->fun(args...);
  }
  template <typename... U>
  void fire(U&&... args) const { (*this)(args...); }

  void shim_drop_observer(const void* o) override
  {
    for (auto it = m_slots.begin(); it != m_slots.end();)
    {
      if ((const void*)(*it)->obs == o)
      {
        (*it)->fun = nullptr;
        it = m_slots.erase(it);
      }
      else
        ++it;
    }
  }

private:
  template <typename T>
  static Observer* obs(T* t)
  {
    if constexpr (std::is_base_of_v<Observer, T>)
      return static_cast<Observer*>(t);
    else
      return nullptr;
  }

  void add(shim_key k, Observer* o, std::function<RT(Args...)> f)
  {
    for (auto& s : m_slots)
      if (s->key == k)
        return;
    m_slots.push_back(std::make_shared<slot>(slot{k, o, std::move(f)}));
    if (o)
      o->shim_add(this);
  }
  void remove(shim_key k)
  {
    for (auto it = m_slots.begin(); it != m_slots.end(); ++it)
      if ((*it)->key == k)
      {
        Observer* o = (*it)->obs;
        (*it)->fun = nullptr;
        m_slots.erase(it);
        if (o && std::none_of(m_slots.begin(), m_slots.end(), [&](auto& s) { return s->obs == o; }))
          o->shim_remove(this);
        return;
      }
  }
  slots_t m_slots;
};
}
