#pragma once
// pubby/flat stand-in: sorted-vector associative containers with a public
// `container` member.
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace fc
{
namespace shim
{
struct key_identity { template <typename T> const T& operator()(const T& t) const { return t; } };
struct key_first { template <typename T> const auto& operator()(const T& t) const { return t.first; } };

template <typename Container, typename Compare, typename KeyOf, bool Multi, bool ConstIter>
class base
{
public:
  using container_type = Container;
  using value_type = typename Container::value_type;
  using key_compare = Compare;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = value_type&;
  using const_reference = const value_type&;
  using const_iterator = typename Container::const_iterator;
  using iterator = std::conditional_t<ConstIter, const_iterator, typename Container::iterator>;
  using key_type = std::decay_t<decltype(KeyOf{}(std::declval<const value_type&>()))>;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;

  Container container;

  base() = default;
  base(std::initializer_list<value_type> l) { for (auto& e : l) insert(e); }
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
  base(It a, It b) { for (; a != b; ++a) insert(*a); }

  iterator begin() { return container.begin(); }
  iterator end() { return container.end(); }
  const_iterator begin() const { return container.begin(); }
  const_iterator end() const { return container.end(); }
  const_iterator cbegin() const { return container.cbegin(); }
  const_iterator cend() const { return container.cend(); }
  auto rbegin() { return reverse_iterator(end()); }
  auto rend() { return reverse_iterator(begin()); }
  auto rbegin() const { return const_reverse_iterator(end()); }
  auto rend() const { return const_reverse_iterator(begin()); }
  bool empty() const { return container.empty(); }
  std::size_t size() const { return container.size(); }
  void reserve(std::size_t n) { container.reserve(n); }
  void clear() { container.clear(); }
  std::size_t capacity() const { return container.capacity(); }

  template <typename K = key_type> iterator lower_bound(const K& k) { return conv(lb(k)); }
  template <typename K = key_type> const_iterator lower_bound(const K& k) const { return lb(k); }
  template <typename K = key_type> iterator upper_bound(const K& k) { return conv(ub(k)); }
  template <typename K = key_type> const_iterator upper_bound(const K& k) const { return ub(k); }
  template <typename K = key_type> auto equal_range(const K& k) { return std::make_pair(lower_bound(k), upper_bound(k)); }
  template <typename K = key_type> auto equal_range(const K& k) const { return std::make_pair(lower_bound(k), upper_bound(k)); }
  template <typename K = key_type> iterator find(const K& k) { return conv(fd(k)); }
  template <typename K = key_type> const_iterator find(const K& k) const { return fd(k); }
  template <typename K> std::size_t count(const K& k) const { return std::distance(lb(k), ub(k)); }
  template <typename K> bool contains(const K& k) const { return fd(k) != container.end(); }

  auto insert(value_type v)
  {
    if constexpr (Multi)
    {
      auto it = ub(KeyOf{}(v));
      return conv(container.insert(it, std::move(v)));
    }
    else
    {
      auto it = lb(KeyOf{}(v));
      if (it != container.cend() && !Compare{}(KeyOf{}(v), KeyOf{}(*it)))
        return std::pair<iterator, bool>(conv(it), false);
      return std::pair<iterator, bool>(conv(container.insert(it, std::move(v))), true);
    }
  }
  iterator insert(const_iterator, value_type v)
  {
    if constexpr (Multi) return insert(std::move(v));
    else return insert(std::move(v)).first;
  }
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
  void insert(It a, It b) { for (; a != b; ++a) insert(value_type(*a)); }
  void insert(std::initializer_list<value_type> l) { for (auto& e : l) insert(e); }
  template <typename... A> auto emplace(A&&... a) { return insert(value_type(std::forward<A>(a)...)); }
  template <typename... A> iterator emplace_hint(const_iterator, A&&... a)
  { return insert(const_iterator{}, value_type(std::forward<A>(a)...)); }

  iterator erase(const_iterator it) { return conv(container.erase(it)); }
  iterator erase(const_iterator a, const_iterator b) { return conv(container.erase(a, b)); }
  template <typename K, std::enable_if_t<!std::is_convertible_v<const K&, const_iterator>, int> = 0>
  std::size_t erase(const K& k)
  {
    auto a = lb(k), b = ub(k);
    auto n = std::distance(a, b);
    container.erase(a, b);
    return n;
  }
  template <typename P> void erase_if(P p)
  { container.erase(std::remove_if(container.begin(), container.end(), p), container.end()); }

  friend bool operator==(const base& a, const base& b) { return a.container == b.container; }
  friend bool operator!=(const base& a, const base& b) { return !(a.container == b.container); }
  friend bool operator<(const base& a, const base& b) { return a.container < b.container; }
  friend bool operator>(const base& a, const base& b) { return b.container < a.container; }
  friend bool operator<=(const base& a, const base& b) { return !(b.container < a.container); }
  friend bool operator>=(const base& a, const base& b) { return !(a.container < b.container); }

protected:
  iterator conv(const_iterator it)
  {
    if constexpr (ConstIter) return it;
    else return container.begin() + (it - container.cbegin());
  }
  template <typename K> const_iterator lb(const K& k) const
  {
    return std::lower_bound(container.cbegin(), container.cend(), k,
        [](const auto& e, const K& kk) { return Compare{}(KeyOf{}(e), kk); });
  }
  template <typename K> const_iterator ub(const K& k) const
  {
    return std::upper_bound(container.cbegin(), container.cend(), k,
        [](const K& kk, const auto& e) { return Compare{}(kk, KeyOf{}(e)); });
  }
  template <typename K> const_iterator fd(const K& k) const
  {
    auto it = lb(k);
    if (it != container.cend() && !Compare{}(k, KeyOf{}(*it)))
      return it;
    return container.cend();
  }
};
}

template <typename Container, typename Compare = std::less<void>>
class flat_set : public shim::base<Container, Compare, shim::key_identity, false, true>
{ public: using shim::base<Container, Compare, shim::key_identity, false, true>::base; };
template <typename Container, typename Compare = std::less<void>>
class flat_multiset : public shim::base<Container, Compare, shim::key_identity, true, true>
{ public: using shim::base<Container, Compare, shim::key_identity, true, true>::base; };
template <typename Container, typename Compare = std::less<void>>
class flat_multimap : public shim::base<Container, Compare, shim::key_first, true, false>
{ public: using shim::base<Container, Compare, shim::key_first, true, false>::base; };
template <typename Container, typename Compare = std::less<void>>
class flat_map : public shim::base<Container, Compare, shim::key_first, false, false>
{
  using B = shim::base<Container, Compare, shim::key_first, false, false>;
public:
  using B::B;
  using typename B::key_type;
  using mapped_type = std::decay_t<decltype(std::declval<typename B::value_type>().second)>;
  template <typename K> mapped_type& operator[](K&& k)
  {
    auto it = B::lower_bound(k);
    if (it == B::end() || Compare{}(k, it->first))
      it = this->container.insert(it, typename B::value_type{key_type(std::forward<K>(k)), mapped_type{}});
    return it->second;
  }
  template <typename K> mapped_type& at(const K& k)
  {
    auto it = B::find(k);
    if (it == B::end()) throw std::out_of_range("flat_map::at");
    return it->second;
  }
  template <typename K> const mapped_type& at(const K& k) const
  {
    auto it = B::find(k);
    if (it == B::end()) throw std::out_of_range("flat_map::at");
    return it->second;
  }
  template <typename K> mapped_type* has(const K& k)
  { auto it = B::find(k); return it == B::end() ? nullptr : &it->second; }
  template <typename K> const mapped_type* has(const K& k) const
  { auto it = B::find(k); return it == B::end() ? nullptr : &it->second; }
  template <typename K, typename M> auto insert_or_assign(K&& k, M&& m)
  {
    auto it = B::find(k);
    if (it != B::end()) { it->second = std::forward<M>(m); return std::make_pair(it, false); }
    return B::insert(typename B::value_type{key_type(std::forward<K>(k)), mapped_type(std::forward<M>(m))});
  }
};

template <typename T, typename Compare = std::less<void>>
using vector_set = flat_set<std::vector<T>, Compare>;
template <typename T, typename Compare = std::less<void>>
using vector_multiset = flat_multiset<std::vector<T>, Compare>;
template <typename K, typename V, typename Compare = std::less<void>>
using vector_map = flat_map<std::vector<std::pair<K, V>>, Compare>;
template <typename K, typename V, typename Compare = std::less<void>>
using vector_multimap = flat_multimap<std::vector<std::pair<K, V>>, Compare>;
}
