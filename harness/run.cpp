// S04: running filters, D01: debug records
#include "filters.h"
#ifdef VP_DETAIL
#include "embedded/signal/debug_filter_coefs.h"
#endif
static const char* const XN[] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12", "x13", "x14", "x15", "x16", "x17", "x18", "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28", "x29", "x30", "x31", "x32", "x33", "x34", "x35", "x36", "x37", "x38", "x39", "x40", "x41", "x42", "x43", "x44", "x45", "x46", "x47", "x48", "x49", "x50", "x51", "x52", "x53", "x54", "x55", "x56", "x57", "x58", "x59"};
static const char* const UN[] = {"u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7", "u8", "u9"};
// direct evaluation of y[n] = sum b_k x[n-k] - sum_{k>0} a_k y[n-k] from zero state
template <typename V> void diff_eq(V const& b, V const& a, double const* x, double* y, unsigned len) { for (unsigned n = 0; n < len; ++n) { double s = 0; for (unsigned k = 0; k < b.size() && k <= n; ++k) s += b[k] * x[n - k]; for (unsigned k = 1; k < a.size() && k <= n; ++k) s -= a[k] * y[n - k]; y[n] = s; } }
template <typename S> void chain(S const& s, double const* x, double* y, unsigned len) { for (unsigned n = 0; n < len; ++n) y[n] = x[n]; for (unsigned i = 0; i < s.size(); ++i) { double t[64]; diff_eq(s[i].b(), s[i].a(), y, t, len); for (unsigned n = 0; n < len; ++n) y[n] = t[n]; } }
template <typename P> void run_poly(P const& p, double const* x, unsigned len, double tol) { auto i = p.instance(); double y[64]; diff_eq(p.b(), p.a(), x, y, len); for (unsigned n = 0; n < len; ++n) vp_near(i(x[n]), y[n], tol, "polynomial instance computes the difference equation"); }
template <typename Q> void run_sos(Q const& q, double const* x, unsigned len, double tol) { auto i = q.instance(); double y[64]; chain(q.sos(), x, y, len); for (unsigned n = 0; n < len; ++n) vp_near(i(x[n]), y[n], tol, "section instance computes the chain of difference equations"); }
template <typename P, typename Q> void run_both(P const& p, Q const& q, double const* x, unsigned len, double tol) { auto i = p.instance(); auto j = q.instance(); for (unsigned n = 0; n < len; ++n) { double u = i(x[n]), v = j(x[n]); vp_near(u, v, tol, "both forms agree"); } }

#ifdef VP_DETAIL // uses names from namespace detail
// symbolic zeros, poles and gain
template <std::size_t ZC, std::size_t ZR, std::size_t PC, std::size_t PR, unsigned L> void s04_sym() {
  constexpr std::size_t N = 2 * PC + PR; conj_set<ZC, ZR> z(ZA, ZB, -2, 2, 0.05, 2); conj_set<PC, PR> p(PA, PB, -2, 2, 0.05, 2); double k = vp_real("k", 0.1, 10), x[L]; sg::detail::zpk_value<N, N, double> v(cv<N>(z.v), cv<N>(p.v), k);
  for (unsigned i = 0; i < L; ++i) x[i] = vp_real(XN[i], -10, 10);
  sg::poly_design<double, N> d(v); switch (vp_pick(3, "form")) { case 0: run_poly(d, x, L, 1e-3); break; case 1: run_sos(sg::sos_design<double, N>(v, sg::sos_gain::first_section), x, L, 1e-3); break; case 2: run_both(d, sg::sos_design<double, N>(v, sg::sos_gain::first_section), x, L, 1e-3); break; } vp_reach("end");
}
VP_ENTRY h_s04_sym1() { s04_sym<0, 1, 0, 1, 6>(); }
VP_ENTRY h_s04_sym2() { s04_sym<1, 0, 1, 0, 6>(); }
VP_ENTRY h_s04_sym2r() { s04_sym<0, 2, 0, 2, 6>(); }
VP_ENTRY h_s04_sym3() { s04_sym<1, 1, 1, 1, 5>(); }
VP_ENTRY h_s04_sym4() { s04_sym<2, 0, 2, 0, 5>(); }
#endif

// concrete designs, symbolic input
template <std::size_t N> auto des(unsigned fam, bool high) { sg::iirfilter<double> f(1000); auto mk2 = [&](auto c, double fc) { return high ? f.highpass(c, fc) : f.lowpass(c, fc); }; return fam == 0 ? mk2(sg::butterworth<N>(), 120.) : fam == 1 ? mk2(sg::chebyshev1<N>(0.5), 170.) : fam == 2 ? mk2(sg::chebyshev2<N>(40.), 90.) : mk2(sg::bessel<N>(), 140.); }
template <std::size_t N, unsigned X = N + 4> void s04_des() {
  constexpr unsigned L = N + X; double x[L]; auto d = des<N>(vp_pick(4, "family"), vp_pick(2, "high")); for (unsigned i = 0; i < L; ++i) x[i] = vp_real(XN[i], -10, 10); auto mode = vp_pick(2, "dist") ? sg::sos_gain::distribute : sg::sos_gain::first_section;
  auto p = d.template poly<double>(); auto q = d.template sos<double>(mode); vp_check(p.order() == N && q.order() == N && q.size() == (N + 1) / 2, "sizes"); run_poly(p, x, L, 1e-9); run_sos(q, x, L, 1e-9); run_both(p, q, x, L, 1e-9); vp_reach("end");
}
// higher orders: cut-off at a quarter of the sample rate, where the polynomial form is well conditioned
template <std::size_t N> void s04_hi() {
  constexpr unsigned L = N + 8; double x[L]; sg::iirfilter<double> f(1000); bool high = vp_pick(2, "high"); unsigned fam = vp_pick(4, "family"); auto go = [&](auto c) {
    auto d = high ? f.highpass(c, 250.) : f.lowpass(c, 250.); for (unsigned i = 0; i < L; ++i) x[i] = vp_real(XN[i], -10, 10); auto mode = vp_pick(2, "dist") ? sg::sos_gain::distribute : sg::sos_gain::first_section;
    auto p = d.template poly<double>(); auto q = d.template sos<double>(mode); vp_check(p.order() == N && q.order() == N && q.size() == (N + 1) / 2, "sizes"); run_poly(p, x, L, 1e-6); run_sos(q, x, L, 1e-6); run_both(p, q, x, L, 1e-6); vp_reach("end"); };
  switch (fam) { case 0: go(sg::butterworth<N>()); break; case 1: go(sg::chebyshev1<N>(0.01)); break; case 2: go(sg::chebyshev2<N>(60.)); break; default: go(sg::bessel<N>()); }
}
#define N1(f, n, ...) case n: f<n>(__VA_ARGS__); break;
VP_ENTRY h_s04_des() { switch (1 + vp_pick(10, "n")) { N1(s04_des, 1) N1(s04_des, 2) N1(s04_des, 3) N1(s04_des, 4) N1(s04_des, 5) N1(s04_des, 6) N1(s04_des, 7) N1(s04_des, 8) N1(s04_des, 9) N1(s04_des, 10) } }
#ifdef VP_HI // higher orders
VP_ENTRY h_s04_hi() { switch (11 + vp_pick(14, "n")) { N1(s04_hi, 11) N1(s04_hi, 12) N1(s04_hi, 13) N1(s04_hi, 14) N1(s04_hi, 15) N1(s04_hi, 16) N1(s04_hi, 17) N1(s04_hi, 18) N1(s04_hi, 19) N1(s04_hi, 20) N1(s04_hi, 21) N1(s04_hi, 22) N1(s04_hi, 23) N1(s04_hi, 24) } }
#endif
// single-precision instances of the same designs
template <std::size_t N> void s04_float() {
  constexpr unsigned L = N + 3; double x[L]; auto d = des<N>(vp_pick(4, "family"), vp_pick(2, "high")); for (unsigned i = 0; i < L; ++i) x[i] = vp_real(XN[i], -10, 10);
  auto p = d.template poly<float>(); auto q = d.template sos<float>(); auto i = p.instance(); auto j = q.instance(); auto pd = d.template poly<double>(); auto qd = d.template sos<double>();
  for (unsigned k = 0; k <= N; ++k) { vp_near(p.b()[k], pd.b()[k], 1e-5, "single precision: coefficients"); vp_near(p.a()[k], pd.a()[k], 1e-5, "single precision: coefficients"); }
  for (unsigned m = 0; m < q.size(); ++m) for (unsigned k = 0; k < 3; ++k) { vp_near(q.sos()[m].b()[k], qd.sos()[m].b()[k], 1e-5, "single precision: section coefficients"); vp_near(q.sos()[m].a()[k], qd.sos()[m].a()[k], 1e-5, "single precision: section coefficients"); }
  double y[64], w[64]; diff_eq(p.b(), p.a(), x, y, L); chain(q.sos(), x, w, L);
  for (unsigned n = 0; n < L; ++n) { vp_near(i((float)x[n]), y[n], 1e-3, "single precision: polynomial"); vp_near(j((float)x[n]), w[n], 1e-3, "single precision: sections"); } vp_reach("end");
}
VP_ENTRY h_s04_float() { switch (1 + vp_pick(5, "n")) { N1(s04_float, 1) N1(s04_float, 2) N1(s04_float, 3) N1(s04_float, 4) N1(s04_float, 5) } }

#ifdef VP_RING
// a value type of the user: integers modulo 2^32, so that the equations must hold exactly in every order of evaluation
struct zr { uint32_t v; constexpr zr() : v(0) {} template <typename T, typename = typename std::enable_if<std::is_arithmetic<T>::value>::type> constexpr zr(T t) : v(t == T(1) ? 1u : t == T(-1) ? ~0u : (uint32_t)(int64_t)(t * 65536)) {} // one stays one
  static zr raw(uint32_t r) { zr z; z.v = r; return z; } friend constexpr zr operator+(zr a, zr b) { a.v += b.v; return a; } friend constexpr zr operator-(zr a, zr b) { a.v -= b.v; return a; } friend constexpr zr operator*(zr a, zr b) { a.v *= b.v; return a; }
  friend constexpr bool operator==(zr a, zr b) { return a.v == b.v; } constexpr zr operator-() const { zr z; z.v = 0 - v; return z; } zr& operator+=(zr b) { v += b.v; return *this; } zr& operator-=(zr b) { v -= b.v; return *this; } zr& operator*=(zr b) { v *= b.v; return *this; } };
template <typename V> void diff_eq_z(V const& b, V const& a, zr const* x, zr* y, unsigned len) { for (unsigned n = 0; n < len; ++n) { zr s; for (unsigned k = 0; k < b.size() && k <= n; ++k) s = s + b[k] * x[n - k]; for (unsigned k = 1; k < a.size() && k <= n; ++k) s = s - a[k] * y[n - k]; y[n] = s; } }
template <std::size_t N> void s04_ring() {
  constexpr unsigned L = N + 4; zr x[L], y[L], t[L]; auto d = des<N>(vp_pick(4, "family"), vp_pick(2, "high")); for (unsigned i = 0; i < L; ++i) x[i] = zr::raw(vp_u32(XN[i]));
  auto p = d.template poly<zr>(); auto q = d.template sos<zr>(); auto i = p.instance(); auto j = q.instance(); diff_eq_z(p.b(), p.a(), x, y, L); for (unsigned n = 0; n < L; ++n) vp_check(i(x[n]) == y[n], "integer value type: polynomial");
  for (unsigned n = 0; n < L; ++n) y[n] = x[n]; for (unsigned k = 0; k < q.size(); ++k) { diff_eq_z(q.sos()[k].b(), q.sos()[k].a(), y, t, L); for (unsigned n = 0; n < L; ++n) y[n] = t[n]; } for (unsigned n = 0; n < L; ++n) vp_check(j(x[n]) == y[n], "integer value type: sections"); vp_reach("end");
}
VP_ENTRY h_s04_ring() { switch (1 + vp_pick(8, "n")) { N1(s04_ring, 1) N1(s04_ring, 2) N1(s04_ring, 3) N1(s04_ring, 4) N1(s04_ring, 5) N1(s04_ring, 6) N1(s04_ring, 7) N1(s04_ring, 8) } }
#endif

// several instances of one design, fed in any interleaving, one of them copied half way
template <typename D> void s04_indep(D const& d) {
  constexpr unsigned L = 4; double x[L], u[L], yx[L], yu[L]; for (unsigned i = 0; i < L; ++i) { x[i] = vp_real(XN[i], -10, 10); u[i] = vp_real(UN[i], -10, 10); }
  { auto r = d.instance(); for (unsigned i = 0; i < L; ++i) yx[i] = r(x[i]); } { auto r = d.instance(); for (unsigned i = 0; i < L; ++i) yu[i] = r(u[i]); }
  auto a = d.instance(); auto b = d.instance(); unsigned i = 0, j = 0; while (i < L || j < L) { bool fa = i < L && (j >= L || vp_pick(2, "which")); if (fa) { vp_near(a(x[i]), yx[i], 0, "interleaved instances are independent"); ++i; } else { vp_near(b(u[j]), yu[j], 0, "interleaved instances are independent"); ++j; } }
  auto c = d.instance(); for (unsigned n = 0; n < 2; ++n) c(x[n]); auto e = c; for (unsigned n = 0; n < L; ++n) e(u[n]); for (unsigned n = 2; n < L; ++n) vp_near(c(x[n]), yx[n], 0, "a copied instance has its own state"); e = c; (void)e;
  auto f = d.instance(); for (unsigned n = 0; n < 2; ++n) f(x[n]); auto g = f; for (unsigned n = 2; n < L; ++n) vp_near(g(x[n]), yx[n], 0, "a copy continues where the original was"); vp_reach("end");
}
template <std::size_t N> void s04_ind() { auto d = des<N>(N % 4, N % 2); if (vp_pick(2, "form")) s04_indep(d.template poly<double>()); else s04_indep(d.template sos<double>()); }
VP_ENTRY h_s04_ind() { switch (1 + vp_pick(4, "n")) { N1(s04_ind, 1) N1(s04_ind, 2) N1(s04_ind, 3) N1(s04_ind, 4) } }

#ifdef VP_DETAIL
// ---- D01 ----
static uint64_t rd(unsigned char const* p, unsigned n) { uint64_t r = 0; for (unsigned i = n; i-- > 0;) r = r << 8 | p[i]; return r; }
template <unsigned S> struct text { char s[S]; text() { for (unsigned i = 0; i < S; ++i) s[i] = (char)(i % 16 == 5 || i > S - 6 || i >= 114 && i < 124 ? vp_u8("c") : 'a' + i % 26); s[S - 1] = 0; for (unsigned i = 0; i + 1 < S; ++i) vp_assume(s[i] != 0); } };
template <typename R> void header(R const& r, unsigned kind, unsigned vt, char const* name, unsigned len) {
  auto p = (unsigned char const*)&r; vp_check(rd(p, 4) == 0x544C4946, "magic number"); vp_check(rd(p + 4, 2) == sizeof(R), "record length"); vp_check(p[6] == 0, "version"); vp_check(p[7] == kind, "structure kind"); vp_check(p[8] == vt, "value type"); vp_check(sizeof r.header == 128, "header of 128 bytes");
  for (unsigned i = 0; i < 119; ++i) vp_check(p[9 + i] == (i < len && i < 118 ? (unsigned char)name[i] : 0), "name, cut to the field and zero filled");
  unsigned i = vp_u8("i"); vp_assume(i < 119); vp_check(p[9 + i] == sel<unsigned>(vp_and(i < len, i < 118), (unsigned char)name[i < len ? i : 0], 0), "name, cut to the field and zero filled");
}
template <typename F, std::size_t N, unsigned S> void d01(unsigned vt) {
  text<S> t; double fs = vp_real("fs", 1, 1e6), w = vp_real("t", 0.01, 100), f = fs * cm::atan(w) / cm::pi<double>(); sg::iirfilter<double> ii(fs); auto d = N % 2 ? ii.lowpass(sg::butterworth<N>(), f) : ii.highpass(sg::bessel<N>(), f);
  if (vp_pick(2, "kind") == 0) { auto q = d.template sos<F>(); sg::detail::filter_design_debug<decltype(q)> r(q, t.s); header(r, 0, vt, t.s, S - 1); F const* c = (F const*)((char const*)&r + 128); vp_check(sizeof r == 128 + sizeof(F) * 5 * ((N + 1) / 2), "size"); for (unsigned i = 0; i < (N + 1) / 2; ++i) { auto s = q.sos()[i]; vp_check(c[5 * i] == s.b()[0] && c[5 * i + 1] == s.b()[1] && c[5 * i + 2] == s.b()[2] && c[5 * i + 3] == s.a()[1] && c[5 * i + 4] == s.a()[2], "section coefficients in order"); } }
  else { auto q = d.template poly<F>(); sg::detail::filter_design_debug<decltype(q)> r(q, t.s); header(r, 1, vt, t.s, S - 1); F const* c = (F const*)((char const*)&r + 128); vp_check(sizeof r == 128 + sizeof(F) * 2 * (N + 1), "size"); auto b = q.b(), a = q.a(); for (unsigned i = 0; i <= N; ++i) vp_check(c[i] == b[i] && c[N + 1 + i] == a[i], "polynomial coefficients in order"); } vp_reach("end");
}
VP_ENTRY h_d01_double() { switch (vp_pick(10, "size")) { case 0: d01<double, 3, 1>(1); break; case 1: d01<double, 2, 2>(1); break; case 2: d01<double, 5, 30>(1); break; case 3: d01<double, 2, 118>(1); break; case 4: d01<double, 2, 119>(1); break; case 5: d01<double, 2, 120>(1); break; case 6: d01<double, 2, 121>(1); break; case 7: d01<double, 4, 300>(1); break; case 8: d01<double, 9, 20>(1); break; case 9: d01<double, 16, 119>(1); break; } }
VP_ENTRY h_d01_float() { switch (vp_pick(5, "size")) { case 0: d01<float, 3, 5>(0); break; case 1: d01<float, 1, 119>(0); break; case 2: d01<float, 4, 120>(0); break; case 3: d01<float, 5, 200>(0); break; case 4: d01<float, 12, 7>(0); break; } }
VP_ENTRY h_d01_long() { switch (vp_pick(4, "size")) { case 0: d01<long double, 3, 5>(2); break; case 1: d01<long double, 1, 119>(2); break; case 2: d01<long double, 4, 120>(2); break; case 3: d01<long double, 5, 200>(2); break; } }
#endif
