#pragma once
// The four brigand metafunctions libossia uses.
#include <cstddef>
#include <type_traits>
#include <utility>
namespace brigand
{
template <typename... Ts> struct list { };
template <typename T> struct type_ { using type = T; };
template <std::size_t N> using size_t = std::integral_constant<std::size_t, N>;
struct _1 { };

namespace shim
{
template <typename L, template <typename...> class W> struct wrap;
template <template <typename...> class L, typename... Ts, template <typename...> class W>
struct wrap<L<Ts...>, W> { using type = W<Ts...>; };

template <typename B, typename T> struct call;
template <typename L, typename B> struct transform;
}
template <typename L, template <typename...> class W>
using wrap = typename shim::wrap<L, W>::type;

template <template <typename...> class F, typename... A> struct bind { };
namespace shim
{
template <template <typename...> class F, typename T> struct call<bind<F, _1>, T> { using type = F<T>; };
template <template <typename...> class L, typename... Ts, typename B>
struct transform<L<Ts...>, B> { using type = L<typename call<B, Ts>::type...>; };
template <std::size_t S, typename I> struct mkseq;
template <std::size_t S, std::size_t... Is>
struct mkseq<S, std::index_sequence<Is...>> { using type = list<size_t<S + Is>...>; };
template <typename L> struct fe;
template <typename... Ts> struct fe<list<Ts...>>
{ template <typename F> static void go(F&& f) { (f(type_<Ts>{}), ...); } };
}
template <typename L, typename B> using transform = typename shim::transform<L, B>::type;
template <typename Start, std::size_t N>
using make_sequence = typename shim::mkseq<Start::value, std::make_index_sequence<N>>::type;
template <typename L, typename F> F for_each(F f) { shim::fe<L>::go(f); return f; }
}
