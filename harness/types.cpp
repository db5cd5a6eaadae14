// T01: compile-time utilities.  The compiler's answers for whole families of lists are tabulated; the table index is symbolic.
#include "vp.h"
#include "embedded/type_traits.h"
#include "embedded/typelist.h"
#include "embedded/utility/integer_sequence.h"
namespace em = embedded;
template <std::size_t... I> struct ix {};
template <std::size_t N, std::size_t... I> struct mk_ : mk_<N - 1, N - 1, I...> {};
template <std::size_t... I> struct mk_<0, I...> { using t = ix<I...>; };
// ---- sequences ----
template <typename T, T... I> void seq_is(em::integer_sequence<T, I...> s, std::size_t n, uint64_t first) {
  T const a[] = {I..., T(0)}; vp_check(sizeof...(I) == n && s.size() == n, "number of elements"); vp_check(std::is_same<typename em::integer_sequence<T, I...>::value_type, T>::value, "element type");
  if (n) { uint64_t k = vp_u64("k"); vp_assume(k < n); vp_check(a[k] == (T)(first + k), "element k is first + k"); vp_reach("element"); } vp_reach("end");
}
template <std::size_t N> void mks() { seq_is(em::make_index_sequence<N>{}, N, 0); }
template <std::size_t... I> void all_mks(unsigned n, ix<I...>) { int d[] = {(n == I ? (mks<I>(), 0) : 0)...}; (void)d; }
VP_ENTRY h_t01_index() { unsigned n = vp_pick(50, "n"); if (n == 49) mks<200>(); else all_mks(n, typename mk_<49>::t{}); }
VP_ENTRY h_t01_typed() { switch (vp_pick(8, "n")) { case 0: seq_is(em::make_integer_sequence<int, 0>{}, 0, 0); break; case 1: seq_is(em::make_integer_sequence<int, 7>{}, 7, 0); break; case 2: seq_is(em::make_integer_sequence<uint8_t, 100>{}, 100, 0); break; case 3: seq_is(em::make_integer_sequence<long, 33>{}, 33, 0); break;
  case 4: seq_is(em::index_sequence_for<>{}, 0, 0); break; case 5: seq_is(em::index_sequence_for<int>{}, 1, 0); break; case 6: seq_is(em::index_sequence_for<int, int, void, char const*>{}, 4, 0); break; default: seq_is(em::make_integer_sequence<unsigned, 64>{}, 64, 0); } }
template <std::size_t B, std::size_t N> void rng() { seq_is(em::make_index_range<B, B + N>{}, N, B); }
template <std::size_t... I> void all_rng(unsigned n, ix<I...>) { int d[] = {(n == I ? (rng<I / 9, I % 9>(), 0) : 0)...}; (void)d; }
VP_ENTRY h_t01_range() { unsigned n = vp_pick(84, "n"); switch (n) { case 81: seq_is(em::make_integer_range<int, -5, 6>{}, 11, (uint64_t)-5); break; case 82: rng<1000, 40>(); break; case 83: seq_is(em::make_integer_range<int8_t, -100, -60>{}, 40, (uint64_t)-100); break; default: all_rng(n, typename mk_<81>::t{}); } }
// ---- conjunction: the answers for every list of N truth values, in one table ----
template <std::size_t M, std::size_t... I> constexpr bool conj_(ix<I...>) { return em::conjunction<std::integral_constant<bool, (M >> I & 1) != 0>...>::value; }
template <std::size_t N, std::size_t... M> void conj_tab(ix<M...>) { static bool const t[] = {conj_<M>(typename mk_<N>::t{})...}; uint64_t m = vp_u64("m"); vp_assume(m < sizeof...(M)); vp_check(t[m] == (m == sizeof...(M) - 1), "true exactly when every one is"); vp_reach("end"); }
struct never; template <int I, bool V> struct tag { static constexpr int id = I; static constexpr bool value = V; };   // never is incomplete
VP_ENTRY h_t01_conj() { switch (vp_pick(10, "n")) { case 0: conj_tab<0>(mk_<1>::t{}); break; case 1: conj_tab<1>(mk_<2>::t{}); break; case 2: conj_tab<2>(mk_<4>::t{}); break; case 3: conj_tab<3>(mk_<8>::t{}); break; case 4: conj_tab<4>(mk_<16>::t{}); break; case 5: conj_tab<5>(mk_<32>::t{}); break; case 6: conj_tab<6>(mk_<64>::t{}); break; case 7: conj_tab<7>(mk_<128>::t{}); break;
  case 8: vp_check(!em::conjunction<std::false_type, never>::value && !em::conjunction<std::true_type, std::false_type, never, never>::value, "nothing behind the first false is looked at"); vp_reach("end"); break;
  default: vp_check(em::conjunction<tag<1, true>, tag<2, true>>::id == 2 && em::conjunction<tag<1, true>, tag<2, false>, tag<3, false>>::id == 2 && em::conjunction<tag<1, false>, tag<2, true>>::id == 1, "is the first false one, or else the last"); vp_reach("end"); } }
// ---- typelist ----
template <typename... T> struct sizes { static std::size_t get(uint64_t k) { static std::size_t const a[] = {sizeof(T)..., 0}; return a[k]; } static constexpr std::size_t n = sizeof...(T); };
template <std::size_t N> struct by { char c[N]; };
template <std::size_t... I> em::typelist<by<I + 1>...> list_(ix<I...>);
template <std::size_t... I> em::typelist<by<I + 1>...> list__(ix<I...>);
template <typename L, std::size_t B, std::size_t... I> typename L::template append<by<B + I + 1>...> app_(ix<I...>);
template <std::size_t A, std::size_t B> void tl() { using L = decltype(list_(typename mk_<A>::t{})); using M = decltype(app_<L, A>(typename mk_<B>::t{})); using S = typename M::template to<sizes>; vp_check(S::n == A + B, "number of types"); if (A + B) { uint64_t k = vp_u64("k"); vp_assume(k < A + B); vp_check(S::get(k) == k + 1, "type k is the k-th of the list, then of the appended ones"); } vp_reach("end"); }
template <std::size_t... I> void all_tl(unsigned n, ix<I...>) { int d[] = {(n == I ? (tl<I / 6, I % 6>(), 0) : 0)...}; (void)d; }
VP_ENTRY h_t01_list() { all_tl(vp_pick(36, "n"), typename mk_<36>::t{}); }
// ---- is_invocable_r: every combination of result, callee and argument below, against the standard library's own answer ----
struct Conv { operator int() const; }; struct Expl { explicit Expl(int); }; struct Base {}; struct Derived : Base {};
struct Ref { int& operator()(int&); int operator()(Derived const*) const; }; struct ConstOnly { double operator()(int) const; }; struct MutOnly { Conv operator()(double); }; struct Rv { void operator()(int&&) &&; Base operator()(Base) &; }; struct Two { int operator()(int, int); }; struct Del { int operator()(int) = delete; int operator()(char const*) noexcept; }; struct Nope {}; struct Tmpl { template <typename T> T operator()(T) const; };
template <typename... T> struct types { static constexpr std::size_t n = sizeof...(T); };
template <std::size_t I, typename L> struct at; template <typename T, typename... U> struct at<0, types<T, U...>> { using t = T; }; template <std::size_t I, typename T, typename... U> struct at<I, types<T, U...>> : at<I - 1, types<U...>> {};
using RES = types<void, const void, int, long, double, int&, int const&, Conv, Expl, Base, Base const&, void*>;
using FNS = types<int (&)(int), void (*)(double), Ref&, Ref const&, ConstOnly&, ConstOnly const&, MutOnly&, MutOnly const&, Rv&, Rv, Rv const&, Two&, Del&, Nope&, Tmpl const&, int&>;
using ARG = types<int, int&, int const&, double, Conv, Derived, Derived*, char const*, std::nullptr_t, Nope>;
template <typename R, typename F, typename... A> struct ref_ : std::__is_invocable_impl<std::__invoke_result<F, A...>, R>::type {};
template <std::size_t I> using r_ = typename at<I / (FNS::n * ARG::n), RES>::t; template <std::size_t I> using f_ = typename at<I / ARG::n % FNS::n, FNS>::t; template <std::size_t I> using a_ = typename at<I % ARG::n, ARG>::t;
template <std::size_t... I> void inv1(ix<I...>) { static bool const t[] = {em::is_invocable_r<r_<I>, f_<I>, a_<I>>::value...}, w[] = {ref_<r_<I>, f_<I>, a_<I>>::value...}; uint64_t k = vp_u64("k"); vp_assume(k < sizeof...(I)); vp_check(t[k] == w[k], "one argument: as the standard library's answer"); vp_reach("end"); }
template <std::size_t B, std::size_t... I> void inv1at(ix<I...>) { inv1(ix<B + I...>{}); }
template <std::size_t... I> void inv02(ix<I...>) { static bool const t[] = {em::is_invocable_r<typename at<I, RES>::t, Two&, int, Conv>::value..., em::is_invocable_r<typename at<I, RES>::t, Two const&, int, int>::value..., em::is_invocable_r<typename at<I, RES>::t, Two&, int, Nope>::value..., em::is_invocable_r<typename at<I, RES>::t, int (*)()>::value..., em::is_invocable_r<typename at<I, RES>::t, Two&>::value...},
  w[] = {ref_<typename at<I, RES>::t, Two&, int, Conv>::value..., ref_<typename at<I, RES>::t, Two const&, int, int>::value..., ref_<typename at<I, RES>::t, Two&, int, Nope>::value..., ref_<typename at<I, RES>::t, int (*)()>::value..., ref_<typename at<I, RES>::t, Two&>::value...}; uint64_t k = vp_u64("k"); vp_assume(k < 5 * sizeof...(I)); vp_check(t[k] == w[k], "no or two arguments: as the standard library's answer"); vp_reach("end"); }
VP_ENTRY h_t01_invocable() { switch (vp_pick(13, "n")) {
#define P(i) case i: inv1at<i * 160>(mk_<160>::t{}); break;
  P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) default: inv02(mk_<RES::n>::t{}); } }
