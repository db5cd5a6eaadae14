// X01..X05: cmath::vector, convolve, poly, complex
#include "vp.h"
#include "embedded/constexpr_math.h"
namespace cm = embedded::cmath;
using cplx = cm::complex<double>;
template <std::size_t N> using uvec = cm::vector<uint32_t, N>;
template <std::size_t N> using rvec = cm::vector<double, N>;
template <std::size_t N> using cvec = cm::vector<cplx, N>;
template <std::size_t... I> struct ix {};
template <std::size_t N, std::size_t... I> struct mk_ : mk_<N - 1, N - 1, I...> {};
template <std::size_t... I> struct mk_<0, I...> { using t = ix<I...>; };
template <std::size_t N> using mk = typename mk_<N>::t;
static const char* const EN[] = {"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "e10", "e11", "e12", "e13", "e14", "e15", "e16", "e17", "e18", "e19", "e20", "e21", "e22", "e23", "e24", "e25", "e26", "e27", "e28", "e29", "e30", "e31", "e32", "e33"};
static const char* const FN[] = {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17", "f18", "f19", "f20", "f21", "f22", "f23", "f24", "f25", "f26", "f27", "f28", "f29", "f30", "f31", "f32", "f33"};
static const char* const GN[] = {"g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15", "g16", "g17", "g18", "g19", "g20", "g21", "g22", "g23", "g24", "g25", "g26", "g27", "g28", "g29", "g30", "g31", "g32", "g33"};
static const char* const HN[] = {"h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7", "h8", "h9", "h10", "h11", "h12", "h13", "h14", "h15", "h16", "h17", "h18", "h19", "h20", "h21", "h22", "h23", "h24", "h25", "h26", "h27", "h28", "h29", "h30", "h31", "h32", "h33"};
// build a vector from an array without using anything but the documented element constructor
template <typename T, std::size_t N, std::size_t... I> cm::vector<T, N> from_(T const* a, ix<I...>) { return cm::vector<T, N>{a[I]...}; }
template <typename T, std::size_t N> cm::vector<T, N> from(T const* a) { return from_<T, N>(a, mk<N>{}); }
template <std::size_t N> struct arr { uint32_t v[N + 1]; arr(const char* const* nm) { for (unsigned i = 0; i < N; ++i) v[i] = vp_u32(nm[i]); } };
template <typename T, std::size_t N> bool same(cm::vector<T, N> const& a, T const* b) { bool ok = a.size() == N; for (unsigned i = 0; i < N; ++i) ok = vp_and(ok, a[i] == b[i]); return ok; }

// ---- X01: sort, argmin, count, == ----
struct item { uint8_t key, key2; uint32_t id; };
struct by_key { unsigned mode; bool operator()(item const& a, item const& b) const {
  if (mode == 0) return a.key < b.key; if (mode == 1) return a.key > b.key;
  if (mode == 2) return a.key / 16 < b.key / 16;                                    // coarse: large classes of equivalent elements
  return vp_or(a.key < b.key, vp_and(a.key == b.key, a.key2 > b.key2)); } };          // lexicographic
template <std::size_t N> void x01_sort(unsigned mode) {
  item in[N + 1]; for (unsigned i = 0; i < N; ++i) { in[i].key = vp_u8(EN[i]); in[i].key2 = mode == 3 ? vp_u8(FN[i]) : (uint8_t)(i * 7); in[i].id = i; }
  by_key less{mode}; auto const v = from<item, N>(in); auto const s = v.sort(less);
  vp_check(s.size() == N, "size"); uint32_t seen = 0;
  for (unsigned i = 0; i < N; ++i) { uint32_t id = (uint32_t)vp_conc(s[i].id); vp_check(id < N && !(seen >> id & 1), "each element occurs once"); seen |= 1u << id;
    vp_check(vp_and(s[i].key == in[id].key, s[i].key2 == in[id].key2), "elements are intact"); vp_check(vp_and(v[i].key == in[i].key, v[i].id == i), "the operand is unchanged"); }
  for (unsigned i = 0; i < N; ++i) for (unsigned j = i + 1; j < N; ++j) vp_guard(!less(s[j], s[i]), "no later element precedes an earlier one");
  vp_reach("end");
}
template <std::size_t N> void x01_argmin(unsigned mode) {
  item in[N]; for (unsigned i = 0; i < N; ++i) { in[i].key = vp_u8(EN[i]); in[i].key2 = mode == 3 ? vp_u8(FN[i]) : (uint8_t)(i * 7); in[i].id = i; }
  by_key less{mode}; auto const v = from<item, N>(in); std::size_t m = vp_conc(v.argmin(less));
  vp_check(m < N, "an index"); for (unsigned i = 0; i < N; ++i) { vp_check(!less(in[i], in[m]), "no element precedes it"); if (i < m) vp_guard(less(in[m], in[i]), "the first such index"); }
  vp_reach("end");
}
struct masked { uint32_t mask, want; bool operator()(uint32_t x) const { return (x & mask) == want; } };
struct masked_int { uint32_t mask, want; int operator()(uint32_t x) const { return (x & mask) == want ? 1 : 0; } };
template <std::size_t N> void x01_count() {
  arr<N> a(EN); uint32_t mask = vp_u32("mask"), want = vp_u32("want"); auto const v = from<uint32_t, N>(a.v); std::size_t n = 0;
  for (unsigned i = 0; i < N; ++i) n += (std::size_t)vp_sel((a.v[i] & mask) == want, 1, 0);
  vp_check(v.count(masked{mask, want}) == n, "count"); vp_check(same<uint32_t, N>(v, a.v), "unchanged"); vp_reach("end");
}
template <typename T, std::size_t N> void x01_eq() {
  T a[N + 1], b[N + 1]; bool eq = true; for (unsigned i = 0; i < N; ++i) { a[i] = (T)vp_any<typename std::make_unsigned<T>::type>(EN[i]); b[i] = (T)vp_any<typename std::make_unsigned<T>::type>(FN[i]); eq = vp_and(eq, a[i] == b[i]); }
  vp_check((from<T, N>(a) == from<T, N>(b)) == eq, "equal exactly when all elements are"); vp_check(from<T, N>(a) == from<T, N>(a), "reflexive"); vp_reach("end");
}
template <std::size_t N> void x01_eq_real(bool nan) {
  double a[N], b[N]; bool eq = true; unsigned na = 0, nb = 0; if (nan) { na = vp_pick(N + 1, "nan_a"); nb = vp_pick(N + 1, "nan_b"); }
  for (unsigned i = 0; i < N; ++i) { a[i] = na == i + 1 ? std::numeric_limits<double>::quiet_NaN() : vp_real(EN[i], -1e6, 1e6); b[i] = nb == i + 1 ? std::numeric_limits<double>::quiet_NaN() : vp_real(FN[i], -1e6, 1e6); eq = eq && (a[i] == b[i]); }
  vp_check((from<double, N>(a) == from<double, N>(b)) == eq, "equal exactly when all elements are"); vp_reach("end");
}
struct rless { bool operator()(double a, double b) const { return a < b; } };
template <std::size_t N> void x01_real() {
  double a[N]; for (unsigned i = 0; i < N; ++i) a[i] = vp_real(EN[i], -1e6, 1e6);
  auto const v = from<double, N>(a); auto s = v.sort(rless{}); std::size_t m = v.argmin(rless{});
  for (unsigned i = 1; i < N; ++i) vp_check(s[i - 1] <= s[i], "sorted");
  vp_check(m < N && s[0] == a[m], "argmin is the minimum"); double p = 0, q = 0, p2 = 0, q2 = 0;
  for (unsigned i = 0; i < N; ++i) { p += a[i]; q += s[i]; p2 += a[i] * a[i]; q2 += s[i] * s[i]; }
  vp_check(p == q && p2 == q2, "same elements"); vp_reach("end");
}
VP_ENTRY h_x01_sort() { unsigned n = vp_pick(5, "n"), mode = vp_pick(4, "mode"); switch (n) { case 0: x01_sort<0>(mode); break; case 1: x01_sort<1>(mode); break; case 2: x01_sort<2>(mode); break; case 3: x01_sort<3>(mode); break; default: x01_sort<4>(mode); } }
VP_ENTRY h_x01_sort5() { x01_sort<5>(vp_pick(4, "mode")); }
VP_ENTRY h_x01_sort6() { x01_sort<6>(vp_pick(4, "mode")); }
VP_ENTRY h_x01_argmin() { unsigned n = vp_pick(5, "n"), mode = vp_pick(4, "mode"); switch (n) { case 0: x01_argmin<1>(mode); break; case 1: x01_argmin<2>(mode); break; case 2: x01_argmin<3>(mode); break; case 3: x01_argmin<4>(mode); break; default: x01_argmin<6>(mode); } }
VP_ENTRY h_x01_count() { switch (vp_pick(5, "n")) { case 0: x01_count<0>(); break; case 1: x01_count<1>(); break; case 2: x01_count<2>(); break; case 3: x01_count<5>(); break; default: x01_count<8>(); } }
VP_ENTRY h_x01_eq() { switch (vp_pick(7, "n")) { case 0: x01_eq<uint32_t, 0>(); break; case 1: x01_eq<int8_t, 1>(); break; case 2: x01_eq<int32_t, 2>(); break; case 3: x01_eq<uint64_t, 3>(); break; case 4: x01_eq<int64_t, 5>(); break; case 5: x01_eq_real<2>(true); break; default: x01_eq_real<3>(false); } }
VP_ENTRY h_x01_real() { if (vp_pick(2, "n")) x01_real<3>(); else x01_real<2>(); }

// ---- larger sizes: a concrete arrangement in which two elements at any positions (or, "bits", all keys of one bit) are symbolic ----
struct key_lt { unsigned mode; bool operator()(item const& a, item const& b) const { return mode == 0 ? a.key < b.key : mode == 1 ? a.key > b.key : a.key / 16 < b.key / 16; } };
static unsigned pattern(unsigned p, unsigned i, unsigned n) { switch (p) { case 0: return i * 5 + 3; case 1: return (n - i) * 5; case 2: return i * 7 % n * 5 + 2; case 3: return i < n / 2 ? i * 9 : (n - i) * 9; case 4: return (i + n / 2) % n * 5 + 1; default: return 40; } }
template <std::size_t N> void x01_sorted(item const* in, unsigned mode) {
  key_lt less{mode}; auto const v = from<item, N>(in); auto const s = v.sort(less); uint32_t seen = 0;
  for (unsigned i = 0; i < N; ++i) { uint32_t id = (uint32_t)vp_conc(s[i].id); vp_check(id < N && !(seen >> id & 1), "each element occurs once"); seen |= 1u << id; vp_check(vp_and(s[i].key == in[id].key, s[i].key2 == in[id].key2), "elements are intact"); }
  for (unsigned i = 0; i + 1 < N; ++i) vp_check(!less(s[i + 1], s[i]), "no later element precedes an earlier one");
  std::size_t m = vp_conc(v.argmin(less)); vp_check(m < N, "an index"); for (unsigned i = 0; i < N; ++i) { vp_check(!less(in[i], in[m]), "no element precedes it"); if (i < m) vp_guard(less(in[m], in[i]), "the first such index"); }
  vp_reach("end");
}
template <std::size_t N> void x01_large() { unsigned p = vp_pick(6, "pattern"), mode = vp_pick(3, "mode"), q = vp_pick(4, "a"), a = q == 0 ? 0 : q == 1 ? 1 : q == 2 ? N / 2 : N - 1, b = vp_pick(2, "near") ? (a + 1) % N : (a + N / 3) % N; item in[N];
  for (unsigned i = 0; i < N; ++i) { in[i].key = (uint8_t)pattern(p, i, N); in[i].key2 = (uint8_t)(i * 7); in[i].id = i; } in[a].key = vp_u8("ka"); in[b].key = vp_u8("kb"); x01_sorted<N>(in, mode); }
template <std::size_t N> void x01_bits() { item in[N]; for (unsigned i = 0; i < N; ++i) { in[i].key = vp_u8(EN[i]); vp_assume(in[i].key <= 1); in[i].key2 = (uint8_t)i; in[i].id = i; } x01_sorted<N>(in, 0); }
VP_ENTRY h_x01_large() { switch (vp_pick(7, "n")) { case 0: x01_large<7>(); break; case 1: x01_large<9>(); break; case 2: x01_large<10>(); break; case 3: x01_large<12>(); break; case 4: x01_large<16>(); break; case 5: x01_large<17>(); break; default: x01_large<24>(); } }
VP_ENTRY h_x01_bits() { switch (vp_pick(3, "n")) { case 0: x01_bits<7>(); break; case 1: x01_bits<8>(); break; default: x01_bits<10>(); } }
template <std::size_t N> void x01_counts() { x01_count<N>(); x01_eq<uint32_t, N>(); }
VP_ENTRY h_x01_counts() { switch (vp_pick(6, "n")) { case 0: x01_counts<9>(); break; case 1: x01_counts<12>(); break; case 2: x01_counts<16>(); break; case 3: x01_counts<17>(); break; case 4: x01_counts<24>(); break; default: x01_counts<33>(); } }

// ---- X02: structure ----
template <std::size_t A, std::size_t B> void x02_append() {
  arr<A> a(EN); arr<B> b(FN); uint32_t w[A + B + 1]; for (unsigned i = 0; i < A; ++i) w[i] = a.v[i]; for (unsigned i = 0; i < B; ++i) w[A + i] = b.v[i];
  auto const x = from<uint32_t, A>(a.v); auto const y = from<uint32_t, B>(b.v); auto const r = x.append(y);
  vp_check(r.size() == A + B && same<uint32_t, A + B>(r, w), "append"); vp_check(vp_and(same<uint32_t, A>(x, a.v), same<uint32_t, B>(y, b.v)), "operands unchanged"); vp_reach("end");
}
template <std::size_t N, std::size_t P, std::size_t C> void x02_sub() {
  arr<N> a(EN); auto const x = from<uint32_t, N>(a.v); auto const r = x.template subvector<P, C>(); vp_check(r.size() == C && same<uint32_t, C>(r, a.v + P), "subvector");
  uint32_t w[N + 1]; unsigned k = 0; for (unsigned i = 0; i < N; ++i) if (i < P || i >= P + C) w[k++] = a.v[i];
  auto const e = x.template erase<P, C>(); vp_check(e.size() == N - C && same<uint32_t, N - C>(e, w), "erase"); vp_check(same<uint32_t, N>(x, a.v), "unchanged"); vp_reach("end");
}
template <std::size_t N> void x02_swap() {
  arr<N> a(EN); auto const x = from<uint32_t, N>(a.v); std::size_t i = vp_pick(N, "i"), j = vp_pick(N, "j"); uint32_t w[N], z[N + 1];
  for (unsigned k = 0; k < N; ++k) w[k] = k == i ? a.v[j] : k == j ? a.v[i] : a.v[k];
  auto const r = x.swap(i, j); vp_check(r.size() == N && same<uint32_t, N>(r, w), "swap exchanges two positions");
  for (unsigned k = 1; k < N; ++k) z[k - 1] = k == i ? a.v[0] : a.v[k];
  auto const s = x.swappop(i); vp_check(s.size() == N - 1 && same<uint32_t, N - 1>(s, z), "swappop removes the position"); vp_check(same<uint32_t, N>(x, a.v), "unchanged");
  auto const e = x.template erase<0>(); vp_check(same<uint32_t, N - 1>(e, a.v + 1), "erase one"); vp_reach("end");
}
struct affine { uint32_t k, c; uint32_t operator()(std::size_t i) const { return (uint32_t)i * k + c; } };
template <std::size_t N> void x02_make() {
  uint32_t k = vp_u32("k"), c = vp_u32("c"), w[N + 1]; for (unsigned i = 0; i < N; ++i) w[i] = i * k + c;
  vp_check(same<uint32_t, N>(uvec<N>::create(affine{k, c}), w), "create"); auto f = uvec<N>::full(c); auto o = uvec<N>::ones(); auto z = uvec<N>::zeros(); bool ok = true;
  for (unsigned i = 0; i < N; ++i) ok = vp_and(ok, vp_and(f[i] == c, vp_and(o[i] == 1, z[i] == 0))); vp_check(ok, "full, ones, zeros");
  auto co = cvec<N>::ones(); auto cz = cvec<N>::zeros(); for (unsigned i = 0; i < N; ++i) vp_check(co[i].real() == 1 && co[i].imag() == 0 && cz[i].real() == 0 && cz[i].imag() == 0, "complex ones, zeros");
  arr<N> a(EN); auto const x = from<uint32_t, N>(a.v); cm::vector<uint64_t, N> wide(x); cm::vector<uint8_t, N> narrow(x); bool cv = true;
  for (unsigned i = 0; i < N; ++i) cv = vp_and(cv, vp_and(wide[i] == a.v[i], narrow[i] == (uint8_t)a.v[i])); vp_check(cv, "converting construction");
  uvec<N> cp(x); uvec<N> mv(std::move(cp)); vp_check(same<uint32_t, N>(mv, a.v), "copies");
  vp_check(same<uint32_t, N>(cm::make_vector<uint32_t>(affine{k, c}, embedded::make_index_sequence<N>{}), w), "make_vector");
  vp_reach("end");
}
template <std::size_t N> void x02_real_conv() { double a[N]; for (unsigned i = 0; i < N; ++i) a[i] = vp_real(EN[i], -10, 10); cvec<N> c(from<double, N>(a)); for (unsigned i = 0; i < N; ++i) vp_check(c[i].real() == a[i] && c[i].imag() == 0, "real to complex"); vp_reach("end"); }
VP_ENTRY h_x02_append() { switch (vp_pick(8, "n")) { case 0: x02_append<0, 0>(); break; case 1: x02_append<0, 3>(); break; case 2: x02_append<3, 0>(); break; case 3: x02_append<1, 1>(); break; case 4: x02_append<2, 5>(); break; case 5: x02_append<5, 2>(); break; case 6: x02_append<8, 8>(); break; default: x02_append<4, 3>(); } }
VP_ENTRY h_x02_sub() { switch (vp_pick(14, "n")) { case 0: x02_sub<0, 0, 0>(); break; case 1: x02_sub<1, 0, 0>(); break; case 2: x02_sub<1, 0, 1>(); break; case 3: x02_sub<1, 1, 0>(); break; case 4: x02_sub<3, 0, 1>(); break; case 5: x02_sub<3, 1, 1>(); break; case 6: x02_sub<3, 2, 1>(); break;
  case 7: x02_sub<3, 1, 2>(); break; case 8: x02_sub<3, 3, 0>(); break; case 9: x02_sub<5, 0, 5>(); break; case 10: x02_sub<8, 2, 5>(); break; case 11: x02_sub<8, 0, 3>(); break; case 12: x02_sub<8, 5, 3>(); break; default: x02_sub<6, 4, 1>(); } }
VP_ENTRY h_x02_swap() { switch (vp_pick(5, "n")) { case 0: x02_swap<1>(); break; case 1: x02_swap<2>(); break; case 2: x02_swap<3>(); break; case 3: x02_swap<5>(); break; default: x02_swap<8>(); } }
VP_ENTRY h_x02_make() { switch (vp_pick(4, "n")) { case 0: x02_make<0>(); break; case 1: x02_make<1>(); break; case 2: x02_make<3>(); break; default: x02_make<8>(); } }
VP_ENTRY h_x02_big() { switch (vp_pick(10, "n")) { case 0: x02_append<9, 8>(); break; case 1: x02_append<16, 16>(); break; case 2: x02_append<1, 20>(); break; case 3: x02_append<20, 1>(); break; case 4: x02_make<17>(); break; case 5: x02_make<33>(); break; case 6: x02_sub<17, 3, 9>(); break; case 7: x02_sub<33, 16, 17>(); break; case 8: x02_sub<20, 0, 16>(); break; default: x02_real_conv<17>(); } }
VP_ENTRY h_x02_swapb() { switch (vp_pick(3, "n")) { case 0: x02_swap<9>(); break; case 1: x02_swap<16>(); break; default: x02_swap<17>(); } }
VP_ENTRY h_x02_conv() { x02_real_conv<3>(); }

// ---- X03: element-wise arithmetic ----
struct sq_plus { uint32_t c; uint64_t operator()(uint32_t x) const { return (uint64_t)x * x + c; } };
struct mix32 { uint32_t operator()(uint32_t a, uint32_t v) const { return a * 31 + v; } };   // sensitive to order and multiplicity
struct addr { uint32_t operator()(uint32_t a, uint32_t v) const { return a + v; } };
struct xorr { uint32_t operator()(uint32_t a, uint32_t v) const { return a ^ (v * 2654435761u); } };
template <std::size_t N> void x03_int() {
  arr<N> a(EN); uint32_t s = vp_u32("s"); auto const x = from<uint32_t, N>(a.v); auto n = -x; auto m = s * x; auto p = s + x; auto t = x.template transform<uint64_t>(sq_plus{s}); auto t2 = x.transform(affine{s, 5}); bool ok = true, ok2 = true;
  for (unsigned i = 0; i < N; ++i) { ok = vp_and(ok, vp_and(n[i] == 0u - a.v[i], vp_and(m[i] == s * a.v[i], p[i] == s + a.v[i]))); ok2 = vp_and(ok2, vp_and(t[i] == (uint64_t)a.v[i] * a.v[i] + s, t2[i] == a.v[i] * s + 5)); }
  vp_check(ok, "minus, scalar product and sum"); vp_check(ok2, "transform"); vp_check(t.size() == N && m.size() == N, "size");
  uint32_t sum = s, x1 = s, pr = 1, s1 = 1; for (unsigned i = 0; i < N; ++i) { sum += a.v[i]; x1 ^= a.v[i] * 2654435761u; pr *= a.v[i]; s1 += a.v[i]; }
  vp_check(x.reduce(addr{}, s) == sum, "reduce: every element once, from the initial value"); vp_check(x.reduce(xorr{}, s) == x1, "reduce: every element once (xor)"); vp_check(x.reduce(addr{}) == s1, "reduce starts from one by default");
  vp_check(cm::prod(x) == pr, "product"); vp_check(same<uint32_t, N>(x, a.v), "unchanged"); vp_reach("end");
}
static uint32_t lg_v[32]; static unsigned lg_n;
struct logging { uint32_t operator()(uint32_t a, uint32_t v) const { vp_guard(lg_n < 32, "too many calls"); lg_v[lg_n++] = v; return a + 1; } };
template <std::size_t N> void x03_calls() { arr<N> a(EN); uint32_t s = vp_u32("s"); for (unsigned i = 0; i < N; ++i) vp_assume(a.v[i] % 16 == i); lg_n = 0; uint32_t r = from<uint32_t, N>(a.v).reduce(logging{}, s); vp_check(lg_n == N && r == (uint32_t)(s + N), "one call per element"); unsigned seen = 0;
  for (unsigned k = 0; k < lg_n; ++k) { unsigned i = (unsigned)vp_conc(lg_v[k] % 16); vp_guard(i < N && !(seen >> i & 1) && lg_v[k] == a.v[i], "each element combined exactly once"); seen |= 1u << i; } vp_reach("end"); }
template <std::size_t N> void x03_real() {
  double a[N + 1]; for (unsigned i = 0; i < N; ++i) a[i] = vp_real(EN[i], 1e-3, 1e3); double s = vp_real("s", 1e-3, 1e3), q = 1, su = s;
  auto const x = from<double, N>(a); auto n = -x; auto m = s * x; auto p = s + x; auto d = s / x; auto e = x / s;
  for (unsigned i = 0; i < N; ++i) { vp_check(n[i] == -a[i], "minus"); vp_near(m[i], s * a[i], 1e-9, "scalar times vector"); vp_near(p[i], s + a[i], 1e-9, "scalar plus vector"); vp_near(d[i] * a[i], s, 1e-9, "scalar over vector"); vp_near(e[i] * s, a[i], 1e-9, "vector over scalar"); q *= a[i]; }
  vp_near(cm::prod(x), q, 1e-6, "product"); auto ex = cm::exp(x); for (unsigned i = 0; i < N; ++i) vp_near(ex[i], cm::exp(a[i]), 1e-9, "exp"); vp_reach("end"); (void)su;
}
template <std::size_t N> void x03_cplx() {
  cplx a[N + 1]; for (unsigned i = 0; i < N; ++i) a[i] = cplx(vp_real(EN[i], -100, 100), vp_real(FN[i], -100, 100)); cplx s(vp_real("sr", -100, 100), vp_real("si", -100, 100)); double r = vp_real("r", 1, 100);
  auto const x = from<cplx, N>(a); auto n = -x; auto m = s * x; auto p = s + x; auto rm = r * x; auto rp = r + x; auto e = x / r; auto re = real(x); auto im = imag(x); auto nm = norm(x); double qr = 1, qi = 0;
  for (unsigned i = 0; i < N; ++i) { double ar = a[i].real(), ai = a[i].imag(), sr = s.real(), si = s.imag();
    vp_check(n[i].real() == -ar && n[i].imag() == -ai, "minus"); vp_near(m[i].real(), sr * ar - si * ai, 1e-6, "complex scalar product"); vp_near(m[i].imag(), sr * ai + si * ar, 1e-6, "complex scalar product");
    vp_near(p[i].real(), sr + ar, 1e-9, "scalar plus vector"); vp_near(p[i].imag(), si + ai, 1e-9, "scalar plus vector"); vp_near(rm[i].real(), r * ar, 1e-9, "real scalar product"); vp_near(rm[i].imag(), r * ai, 1e-9, "real scalar product");
    vp_near(rp[i].real(), r + ar, 1e-9, "real plus vector"); vp_check(rp[i].imag() == ai, "real plus vector"); vp_near(e[i].real() * r, ar, 1e-9, "vector over real"); vp_near(e[i].imag() * r, ai, 1e-9, "vector over real");
    vp_check(re[i] == ar && im[i] == ai, "real and imaginary parts"); vp_near(nm[i], ar * ar + ai * ai, 1e-6, "norms"); double t = qr * ar - qi * ai; qi = qr * ai + qi * ar; qr = t; }
  auto pr = cm::prod(x); vp_near(pr.real(), qr, 1e-3, "product"); vp_near(pr.imag(), qi, 1e-3, "product"); vp_reach("end");
}
template <std::size_t N> void x03_cdiv() {
  cplx a[N]; for (unsigned i = 0; i < N; ++i) { a[i] = cplx(vp_real(EN[i], -100, 100), vp_real(FN[i], -100, 100)); vp_assume(a[i].real() * a[i].real() + a[i].imag() * a[i].imag() > 0.01); } double r = vp_real("r", 1, 100); cplx s(vp_real("sr", -100, 100), vp_real("si", -100, 100));
  auto const x = from<cplx, N>(a); auto d = r / x; auto f = s / x; auto ab = abs(x);
  for (unsigned i = 0; i < N; ++i) { double ar = a[i].real(), ai = a[i].imag(); vp_near(d[i].real() * ar - d[i].imag() * ai, r, 1e-6, "real over vector"); vp_near(d[i].real() * ai + d[i].imag() * ar, 0, 1e-6, "real over vector");
    vp_near(f[i].real() * ar - f[i].imag() * ai, s.real(), 1e-6, "complex over vector"); vp_near(f[i].real() * ai + f[i].imag() * ar, s.imag(), 1e-6, "complex over vector");
    vp_check(ab[i] >= 0, "absolute values"); vp_near(ab[i] * ab[i], ar * ar + ai * ai, 1e-6, "absolute values"); } vp_reach("end");
}
template <typename T, std::size_t N> void x03_idiv() {
  T a[N]; for (unsigned i = 0; i < N; ++i) { a[i] = (T)vp_u32(EN[i]); vp_assume(a[i] != 0 && a[i] != (T)-1); } T s = (T)vp_u32("s"), q = (T)vp_u32("q"); vp_assume(q != 0 && q != (T)-1);
  auto const x = from<T, N>(a); auto d = s / x; auto e = x / q; for (unsigned i = 0; i < N; ++i) { vp_check(d[i] == (T)(s / a[i]), "integer over vector"); vp_check(e[i] == (T)(a[i] / q), "vector over integer"); } vp_check(same<T, N>(x, a), "unchanged"); vp_reach("end");
}
VP_ENTRY h_x03_idiv() { switch (vp_pick(6, "n")) { case 0: x03_idiv<uint32_t, 1>(); break; case 1: x03_idiv<uint32_t, 3>(); break; case 2: x03_idiv<int, 1>(); break; case 3: x03_idiv<int, 3>(); break; case 4: x03_idiv<int8_t, 3>(); break; default: x03_idiv<uint16_t, 2>(); } }
VP_ENTRY h_x03_int() { switch (vp_pick(6, "n")) { case 0: x03_int<0>(); break; case 1: x03_int<1>(); break; case 2: x03_int<2>(); break; case 3: x03_int<3>(); break; case 4: x03_int<4>(); break; default: x03_int<5>(); } }
#define XS(n) case n - 6: x03_int<n>(); break;
VP_ENTRY h_x03_intb() { switch (vp_pick(28, "n")) { XS(6) XS(7) XS(8) XS(9) XS(10) XS(11) XS(12) XS(13) XS(14) XS(15) XS(16) XS(17) XS(18) XS(19) XS(20) XS(21) XS(22) XS(23) XS(24) XS(25) XS(26) XS(27) XS(28) XS(29) XS(30) XS(31) XS(32) XS(33) } }
VP_ENTRY h_x03_realb() { switch (vp_pick(2, "n")) { case 0: x03_real<9>(); break; default: x03_real<17>(); } }
VP_ENTRY h_x03_cplxb() { switch (vp_pick(2, "n")) { case 0: x03_cplx<5>(); break; default: x03_cplx<9>(); } }
VP_ENTRY h_x03_calls() { switch (vp_pick(5, "n")) { case 0: x03_calls<0>(); break; case 1: x03_calls<1>(); break; case 2: x03_calls<3>(); break; case 3: x03_calls<7>(); break; default: x03_calls<16>(); } }
VP_ENTRY h_x03_real() { switch (vp_pick(4, "n")) { case 0: x03_real<0>(); break; case 1: x03_real<1>(); break; case 2: x03_real<2>(); break; default: x03_real<4>(); } }
VP_ENTRY h_x03_cplx() { switch (vp_pick(3, "n")) { case 0: x03_cplx<0>(); break; case 1: x03_cplx<1>(); break; default: x03_cplx<3>(); } }
VP_ENTRY h_x03_cdiv() { switch (vp_pick(2, "n")) { case 0: x03_cdiv<1>(); break; default: x03_cdiv<2>(); } }

// ---- X04: convolution and polynomials ----
template <std::size_t A, std::size_t B> void x04_conv() {
  arr<A> a(EN); arr<B> b(FN); uint32_t w[A + B] = {}; for (unsigned i = 0; i < A; ++i) for (unsigned j = 0; j < B; ++j) w[i + j] += a.v[i] * b.v[j];
  auto const x = from<uint32_t, A>(a.v); auto const y = from<uint32_t, B>(b.v); auto const r = cm::convolve_full(x, y); vp_check(r.size() == A + B - 1, "size");
  for (unsigned i = 0; i < A + B - 1; ++i) vp_check(r[i] == w[i], "coefficients of the product"); vp_reach("end");
}
template <std::size_t A, std::size_t B> void x04_convr() {   // reals, evaluated at any point
  double a[A], b[B]; for (unsigned i = 0; i < A; ++i) a[i] = vp_real(EN[i], -10, 10); for (unsigned i = 0; i < B; ++i) b[i] = vp_real(FN[i], -10, 10); double x = vp_real("x", -2, 2);
  auto const r = cm::convolve_full(from<double, A>(a), from<double, B>(b)); double pa = 0, pb = 0, pr = 0; for (unsigned i = 0; i < A; ++i) pa = pa * x + a[i]; for (unsigned i = 0; i < B; ++i) pb = pb * x + b[i]; for (unsigned i = 0; i < A + B - 1; ++i) pr = pr * x + r[i];
  vp_near(pr, pa * pb, 1e-6, "value of the product"); vp_reach("end");
}
template <std::size_t A, std::size_t B> void x04_convc() {
  cplx a[A], b[B]; for (unsigned i = 0; i < A; ++i) a[i] = cplx(vp_real(EN[i], -10, 10), vp_real(FN[i], -10, 10)); for (unsigned i = 0; i < B; ++i) b[i] = cplx(vp_real(GN[i], -10, 10), vp_real(HN[i], -10, 10));
  auto const r = cm::convolve_full(from<cplx, A>(a), from<cplx, B>(b)); double wr[A + B] = {}, wi[A + B] = {}; for (unsigned i = 0; i < A; ++i) for (unsigned j = 0; j < B; ++j) { wr[i + j] += a[i].real() * b[j].real() - a[i].imag() * b[j].imag(); wi[i + j] += a[i].real() * b[j].imag() + a[i].imag() * b[j].real(); }
  for (unsigned i = 0; i < A + B - 1; ++i) { vp_near(r[i].real(), wr[i], 1e-6, "complex coefficients"); vp_near(r[i].imag(), wi[i], 1e-6, "complex coefficients"); } vp_reach("end");
}
template <std::size_t N> void x04_poly_int() {   // elementary symmetric polynomials modulo 2^32
  arr<N> z(EN); uint32_t w[N + 1] = {1}; for (unsigned k = 0; k < N; ++k) for (unsigned i = k + 1; i > 0; --i) w[i] -= z.v[k] * w[i - 1];
  auto const r = cm::poly(from<uint32_t, N>(z.v)); vp_check(r.size() == N + 1 && r[0] == 1, "monic"); for (unsigned i = 0; i <= N; ++i) vp_check(r[i] == w[i], "coefficients");
  vp_reach("end");
}
template <std::size_t N> void x04_poly_real() {
  double z[N + 1]; for (unsigned i = 0; i < N; ++i) z[i] = vp_real(EN[i], -4, 4); double x = vp_real("x", -4, 4), v = 0, w = 1; auto const r = cm::poly(from<double, N>(z)); vp_check(r[0] == 1, "monic");
  for (unsigned i = 0; i <= N; ++i) v = v * x + r[i]; for (unsigned i = 0; i < N; ++i) w = w * (x - z[i]); vp_near(v, w, 1e-6, "product of the root factors at every point");
  double y[N + 1]; for (unsigned i = 0; i < N; ++i) y[i] = z[(i + 1) % (N ? N : 1)]; if (N > 1) { double t = y[0]; y[0] = y[N - 1]; y[N - 1] = t; } auto const q = cm::poly(from<double, N>(y)); for (unsigned i = 0; i <= N; ++i) vp_near(q[i], r[i], 1e-6, "independent of the order"); vp_reach("end");
}
template <std::size_t N> void x04_poly_cplx() {
  cplx z[N]; for (unsigned i = 0; i < N; ++i) z[i] = cplx(vp_real(EN[i], -4, 4), vp_real(FN[i], -4, 4)); double xr = vp_real("xr", -4, 4), xi = vp_real("xi", -4, 4), vr = 0, vi = 0, wr = 1, wi = 0; auto const r = cm::poly(from<cplx, N>(z)); vp_check(r[0].real() == 1 && r[0].imag() == 0, "monic");
  for (unsigned i = 0; i <= N; ++i) { double t = vr * xr - vi * xi + r[i].real(); vi = vr * xi + vi * xr + r[i].imag(); vr = t; }
  for (unsigned i = 0; i < N; ++i) { double dr = xr - z[i].real(), di = xi - z[i].imag(), t = wr * dr - wi * di; wi = wr * di + wi * dr; wr = t; }
  vp_near(vr, wr, 1e-3, "product of the root factors at every complex point"); vp_near(vi, wi, 1e-3, "product of the root factors at every complex point"); vp_reach("end");
}
VP_ENTRY h_x04_conv() { switch (vp_pick(10, "n")) { case 0: x04_conv<1, 1>(); break; case 1: x04_conv<1, 4>(); break; case 2: x04_conv<4, 1>(); break; case 3: x04_conv<2, 2>(); break; case 4: x04_conv<2, 5>(); break; case 5: x04_conv<5, 2>(); break; case 6: x04_conv<3, 4>(); break; case 7: x04_conv<4, 3>(); break; case 8: x04_conv<6, 6>(); break; default: x04_conv<8, 2>(); } }
VP_ENTRY h_x04_convr() { switch (vp_pick(8, "n")) { case 6: x04_convr<8, 8>(); break; case 7: x04_convr<8, 2>(); break; case 0: x04_convr<1, 1>(); break; case 1: x04_convr<1, 3>(); break; case 2: x04_convr<3, 1>(); break; case 3: x04_convr<3, 3>(); break; case 4: x04_convr<2, 5>(); break; default: x04_convr<5, 3>(); } }
VP_ENTRY h_x04_convc() { switch (vp_pick(4, "n")) { case 0: x04_convc<1, 1>(); break; case 1: x04_convc<3, 2>(); break; case 2: x04_convc<2, 4>(); break; default: x04_convc<4, 4>(); } }
template <std::size_t... I> void x04_pairs(unsigned n, embedded::index_sequence<I...>) { int d[] = {(n == I ? (x04_conv<I / 7 + 1, I % 7 + 1>(), 0) : 0)...}; (void)d; }
VP_ENTRY h_x04_pairs() { x04_pairs(vp_pick(49, "n"), embedded::make_index_sequence<49>{}); }
VP_ENTRY h_x04_convb() { switch (vp_pick(6, "n")) { case 0: x04_conv<9, 9>(); break; case 1: x04_conv<12, 2>(); break; case 2: x04_conv<2, 17>(); break; case 3: x04_conv<16, 16>(); break; case 4: x04_conv<20, 3>(); break; default: x04_conv<1, 24>(); } }
VP_ENTRY h_x04_polyi() { switch (vp_pick(2, "n")) { case 0: x04_poly_int<0>(); break; default: x04_poly_int<1>(); } }
VP_ENTRY h_x04_polyr() { switch (vp_pick(9, "n")) { case 8: x04_poly_real<8>(); break; case 5: x04_poly_real<4>(); break; case 6: x04_poly_real<6>(); break; case 7: x04_poly_real<7>(); break; case 0: x04_poly_real<0>(); break; case 1: x04_poly_real<1>(); break; case 2: x04_poly_real<2>(); break; case 3: x04_poly_real<3>(); break; default: x04_poly_real<5>(); } }
VP_ENTRY h_x04_polyc() { switch (vp_pick(7, "n")) { case 5: x04_poly_cplx<6>(); break; case 6: x04_poly_cplx<7>(); break; case 3: x04_poly_cplx<3>(); break; case 4: x04_poly_cplx<5>(); break; case 0: x04_poly_cplx<1>(); break; case 1: x04_poly_cplx<2>(); break; default: x04_poly_cplx<4>(); } }

// ---- X05: complex numbers ----
#define CPLX(n) double n##r = vp_real(#n "r", -100, 100), n##i = vp_real(#n "i", -100, 100); cplx const n(n##r, n##i)
VP_ENTRY h_x05_basic() {
  CPLX(a); CPLX(b); double s = vp_real("s", -100, 100);
  vp_check(a.real() == ar && a.imag() == ai, "parts"); cplx z; vp_check(z.real() == 0 && z.imag() == 0, "default is zero"); cplx sr(s); vp_check(sr.real() == s && sr.imag() == 0, "from a real");
  auto n = -a; vp_check(n.real() == -ar && n.imag() == -ai, "negation"); auto p = a + b; vp_check(p.real() == ar + br && p.imag() == ai + bi, "sum"); auto d = a - b; vp_check(d.real() == ar - br && d.imag() == ai - bi, "difference");
  auto q = a * b; vp_near(q.real(), ar * br - ai * bi, 1e-6, "product"); vp_near(q.imag(), ar * bi + ai * br, 1e-6, "product");
  auto sp = s + a; vp_check(sp.real() == s + ar && sp.imag() == ai, "real plus complex"); auto sm = s - a; vp_check(sm.real() == s - ar && sm.imag() == -ai, "real minus complex"); auto sq = s * a; vp_near(sq.real(), s * ar, 1e-6, "real times complex"); vp_near(sq.imag(), s * ai, 1e-6, "real times complex");
  auto c = a.conj(); vp_check(c.real() == ar && c.imag() == -ai, "conjugate"); vp_near(a.norm(), ar * ar + ai * ai, 1e-6, "norm"); double m = a.abs(); vp_check(m >= 0, "absolute value"); vp_near(m * m, ar * ar + ai * ai, 1e-6, "absolute value");
  double ds = a.distance(b); vp_check(ds >= 0, "distance"); vp_near(ds * ds, (ar - br) * (ar - br) + (ai - bi) * (ai - bi), 1e-6, "distance"); vp_reach("end");
}
VP_ENTRY h_x05_pred() { CPLX(a); CPLX(b); vp_check(a.is_real() == (ai == 0), "is_real"); vp_check((a == b) == ((ar == br) & (ai == bi)), "equality"); vp_check(a == a, "reflexive"); vp_reach("end"); }
VP_ENTRY h_x05_div() {
  CPLX(a); CPLX(b); double s = vp_real("s", -100, 100); vp_assume(br * br + bi * bi > 1e-6); auto q = a / b;
  vp_near(q.real() * br - q.imag() * bi, ar, 1e-6, "quotient times divisor"); vp_near(q.real() * bi + q.imag() * br, ai, 1e-6, "quotient times divisor");
  auto t = q * b; vp_near(t.real(), ar, 1e-6, "multiplying back"); vp_near(t.imag(), ai, 1e-6, "multiplying back"); auto r = s / b; vp_near(r.real() * br - r.imag() * bi, s, 1e-6, "real over complex"); vp_near(r.real() * bi + r.imag() * br, 0, 1e-6, "real over complex"); vp_reach("end");
}
VP_ENTRY h_x05_divr() { CPLX(a); double s = vp_real("s", -100, 100); vp_assume(s * s > 1e-6); auto q = a / s; vp_near(q.real() * s, ar, 1e-6, "complex over real"); vp_near(q.imag() * s, ai, 1e-6, "complex over real"); vp_reach("end"); }
VP_ENTRY h_x05_laws() {
  CPLX(a); CPLX(b); CPLX(c); auto l = (a + b) * c; auto r = a * c + b * c; vp_near(l.real(), r.real(), 1e-6, "distributive"); vp_near(l.imag(), r.imag(), 1e-6, "distributive"); l = cplx((a * b) * c); auto k = a * (b * c); vp_near(((a * b) * c).real(), k.real(), 1e-3, "associative"); vp_near(((a * b) * c).imag(), k.imag(), 1e-3, "associative");
  auto u = a * b, v = b * a; vp_near(u.real(), v.real(), 1e-6, "commutative"); vp_near(u.imag(), v.imag(), 1e-6, "commutative"); auto cj = a * a.conj(); vp_near(cj.real(), a.norm(), 1e-6, "z times its conjugate"); vp_near(cj.imag(), 0, 1e-6, "z times its conjugate"); vp_near((a * b).norm(), a.norm() * b.norm(), 10, "norm is multiplicative"); vp_reach("end");
}
VP_ENTRY h_x05_exp() { double x = vp_real("x", -3, 3), y = vp_real("y", -3, 3); auto e = exp(cplx(x, y)); double m = cm::exp(x); vp_near(e.real(), m * cm::cos(y), 1e-9, "real part of exp"); vp_near(e.imag(), m * cm::sin(y), 1e-9, "imaginary part of exp"); vp_reach("end"); }
VP_ENTRY h_x05_expi() { double y = vp_real("y", -3, 3); auto e = exp(cplx(0.0, y)); vp_near(e.norm(), 1, 1e-9, "unit modulus"); auto f = exp(cplx(0.0, 2 * y)); auto g = e * e; vp_near(f.real(), g.real(), 1e-9, "angle doubling"); vp_near(f.imag(), g.imag(), 1e-9, "angle doubling"); vp_reach("end"); }

// ---- X06: scalar helpers ----
template <typename T> void x06_mm(T a, T b) { T lo = cm::min(a, b), hi = cm::max(a, b); vp_check((lo == a || lo == b) && lo <= a && lo <= b, "min"); vp_check((hi == a || hi == b) && hi >= a && hi >= b, "max"); T const& r = cm::min<T>(a, b); T const& q = cm::max<T>(a, b); vp_check((&r == &a || &r == &b) && (&q == &a || &q == &b), "a reference to one of the two"); vp_reach("end"); }
VP_ENTRY h_x06_minmax() { switch (vp_pick(6, "n")) { case 0: x06_mm<uint32_t>(vp_u32("a"), vp_u32("b")); break; case 1: x06_mm<int>((int)vp_u32("a"), (int)vp_u32("b")); break; case 2: x06_mm<std::size_t>(vp_u64("a"), vp_u64("b")); break; case 3: x06_mm<int8_t>((int8_t)vp_u8("a"), (int8_t)vp_u8("b")); break; case 4: { double a = vp_real("a", -1e9, 1e9); double b = vp_real("b", -1e9, 1e9); x06_mm<double>(a, b); break; } default: x06_mm<uint16_t>(vp_u16("a"), vp_u16("b")); } }
VP_ENTRY h_x06_const() { vp_check(cm::pi<double>() == 3.14159265358979323846 && cm::pi<float>() == 3.14159265358979323846f, "pi, correctly rounded"); vp_check(cm::pi<long double>() == 3.14159265358979323846264338327950288L, "pi in long double"); vp_reach("end"); }
VP_ENTRY h_x06_same() { double x = vp_real("x", -5, 5); double y = vp_real("y", 0.01, 50); switch (vp_pick(9, "n")) {
  case 0: vp_check(cm::sqrt(y) >= 0, "sqrt"); vp_near(cm::sqrt(y) * cm::sqrt(y), y, 1e-9, "sqrt"); break; case 1: vp_near(cm::exp(x), std::exp(x), 1e-9, "exp"); break; case 2: vp_near(cm::asinh(x), std::asinh(x), 1e-9, "asinh"); break; case 3: vp_near(cm::sinh(x), std::sinh(x), 1e-9, "sinh"); break; case 4: vp_near(cm::cosh(x), std::cosh(x), 1e-9, "cosh"); break;
  case 5: vp_near(cm::tan(x / 4), std::tan(x / 4), 1e-9, "tan"); break; case 6: vp_near(cm::pow(y, 3), y * y * y, 1e-6, "pow"); break; case 7: vp_check(cm::abs(x) == (x < 0 ? -x : x), "abs"); break; default: vp_near(cm::pow(y, -2) * y * y, 1, 1e-6, "pow"); } vp_reach("end"); }
