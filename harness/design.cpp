// S01..S03: designed filters
#include "filters.h"

// any sample rate and any cut-off strictly between 0 and half of it; t = tan(pi f / fs)
struct corner { double fs, t, f; corner(double lo = 1e-6, double hi = 1e6) { fs = vp_real("fs", 1e-3, 1e9); t = vp_real("t", lo, hi); f = fs * cm::atan(t) / cm::pi<double>(); } };
template <typename C> auto make(C const& c, corner const& k, bool high) { sg::iirfilter<double> d(k.fs); return high ? d.highpass(c, k.f) : d.lowpass(c, k.f); }
template <typename V> double at1(V const& c) { double r = 0; for (unsigned i = 0; i < c.size(); ++i) r += c[i]; return r; }
template <typename V> double atm1(V const& c) { double r = 0; for (unsigned i = 0; i < c.size(); ++i) r = c[i] - r; return r; }
// c(z) (1+u^2)^N at z = (1+iu)^2/(1+u^2), divided by (1-iu)^N (whose modulus is (1+u^2)^(N/2)): sum c_k (1+iu)^(N-k) (1-iu)^k
template <typename V> cz on_circle(V const& c, double u) { unsigned N = c.size() - 1; cz s{0, 0}; for (unsigned k = 0; k <= N; ++k) { cz m{c[k], 0}; for (unsigned i = 0; i < N - k; ++i) m = m * cz{1, u}; for (unsigned i = 0; i < k; ++i) m = m * cz{1, -u}; s = s + m; } return s; }

// ---- S01: DC, Nyquist; S07: the whole magnitude response ----
template <std::size_t N, typename C> void s01(C const& c, bool high, double dc, bool blocks, double opp2) {
  corner k; auto p = make(c, k, high).template poly<double>(); auto b = p.b(); auto a = p.a(); vp_check(a[0] == 1, "monic denominator");
  double sb = high ? atm1(b) : at1(b), sa = high ? atm1(a) : at1(a), ob = high ? at1(b) : atm1(b), oa = high ? at1(a) : atm1(a);
  vp_near(sb / sa, dc, 1e-9, "pass-band gain at DC / Nyquist"); if (blocks) vp_near(ob / oa, 0, 1e-9, "opposite end blocked"); else vp_near(ob * ob * opp2 / (oa * oa), 1, 1e-9, "attenuation at the opposite end"); vp_reach("end");
}
template <std::size_t N> void s01_butter(bool high) { s01<N>(sg::butterworth<N>(), high, 1, true, 0); }
template <std::size_t N> void s01_bessel(bool high) { s01<N>(sg::bessel<N>(), high, 1, true, 0); }
template <std::size_t N> void s01_cheby1(bool high) { ripple R(N, 1e-3, 1e3); s01<N>(sg::chebyshev1<N>(R.db), high, N % 2 ? 1 : 1 / cm::sqrt(1 + R.e * R.e), true, 0); }
template <std::size_t N> void s01_cheby2(bool high) { ripple R(N, 1e-3, 1e3, true); s01<N>(sg::chebyshev2<N>(R.db), high, 1, N % 2, 1 + R.e * R.e); }

// squared magnitudes X (numerator) and Y (denominator) at the frequency with tan(pi F / fs) = u, multiplied by prod |1-tp|^2 / 4^N
// (high-pass: |p-t|^2), so that Y = prod |iU - Tp|^2 where (U, T) = (u, t), high-pass (t, u)
template <std::size_t N> struct response { double X, Y, T, U; template <typename C> response(C const& c, bool high, bool edge) {
  corner k; double u = edge ? k.t : vp_real("u", 1e-6, 1e6); T = high ? u : k.t; U = high ? k.t : u; auto p = make(c, k, high).template poly<double>(); auto pr = c.template spec<double>().poles();
  double D = 1; for (unsigned i = 0; i < N; ++i) { D *= high ? mag2(mk(pr[i]) - cz{k.t, 0}) : mag2(cz{1, 0} - k.t * mk(pr[i])); D /= 4; } X = mag2(on_circle(p.b(), u)) * D; Y = mag2(on_circle(p.a(), u)) * D; } };
static double cheb_h(unsigned n, double x, double y, double s) { double a = 1, b = x; if (n == 0) return 1; for (unsigned k = 1; k < n; ++k) { double c = 2 * x * b + s * y * y * a; a = b; b = c; } return b; } // s = -1: y^n T_n(x/y)
template <std::size_t N> void s07_butter(bool high, bool edge) {
  response<N> r(sg::butterworth<N>(), high, edge); double T2 = ipow(r.T, 2 * N), U2 = ipow(r.U, 2 * N), sc = T2 + U2 + 0.01 * ipow(r.T + r.U, 2 * N); vp_near(r.X / T2 * (T2 + U2) / sc, r.Y / sc, 1e-9, "Butterworth magnitude response"); vp_reach("end");
}
template <std::size_t N> void s07_cheby1(bool high, bool edge, bool conc = false) {
  ripple R = conc ? some_ripple(N) : ripple(N, 1e-3, 1e3); response<N> r(sg::chebyshev1<N>(R.db), high, edge); double g = 1 + R.h, T2 = ipow(r.T, 2 * N), c = cheb_h(N, r.U, r.T, -1), v = cheb_h(N, r.U, r.T, 1), sc = ipow(0.25, N - 1) * (T2 / (R.e * R.e) + v * v + 0.01 * ipow(g * r.T + r.U, 2 * N));
  vp_near(r.X / T2 * (T2 + R.e * R.e * c * c) / sc, r.Y / sc, 1e-9, "Chebyshev I magnitude response"); vp_reach("end");
}
template <std::size_t N> void s07_cheby2(bool high, bool edge, bool conc = false) {
  ripple R = conc ? some_ripple(N, true) : ripple(N, 1e-3, 1e3, true); auto f = sg::chebyshev2<N>(R.db); response<N> r(f, high, edge); auto z = f.template spec<double>().zeros(); double g = 1 + R.h, E2 = R.e * R.e, U2 = ipow(r.U, 2 * N), q = cheb_h(N, r.T, r.U, -1), v = cheb_h(N, r.T, r.U, 1), nt = 1;
  for (unsigned i = 0; i < z.size(); ++i) nt *= r.U + r.T * cm::abs(z[i].imag()); double sc = (N % 2 ? N * N / E2 * r.T * r.T : 1 / (1 + E2)) * nt * nt * (v * v + U2 * E2) + 0.01 * ipow(g * r.T + r.U, 2 * N) * v * v;
  vp_near(r.X * (q * q + U2 * E2) / sc, r.Y * q * q / sc, 1e-9, "Chebyshev II magnitude response"); vp_reach("end");
}
#define N1(f, n, ...) case n: f<n>(__VA_ARGS__); break;
#define N4(f, n, ...) N1(f, n, __VA_ARGS__) N1(f, n + 1, __VA_ARGS__) N1(f, n + 2, __VA_ARGS__) N1(f, n + 3, __VA_ARGS__)
#ifndef ORD0
#define ORD0 0 // orders ORD0+1 .. ORD0+8
#endif
#define N8(f, ...) { bool h = vp_pick(2, "high"); switch (1 + ORD0 + vp_pick(8, "n")) { N4(f, ORD0 + 1, __VA_ARGS__) N4(f, ORD0 + 5, __VA_ARGS__) } }
VP_ENTRY h_s01_butter() N8(s01_butter, h)
VP_ENTRY h_s01_bessel() N8(s01_bessel, h)
VP_ENTRY h_s01_cheby1() N8(s01_cheby1, h)
VP_ENTRY h_s01_cheby2() N8(s01_cheby2, h)
VP_ENTRY h_s07_cheby1c() N8(s07_cheby1, h, false, true)
VP_ENTRY h_s07_cheby2c() N8(s07_cheby2, h, false, true)
VP_ENTRY h_s07_butter() N8(s07_butter, h, false)
VP_ENTRY h_s07_cheby1() N8(s07_cheby1, h, false)
VP_ENTRY h_s07_cheby2() N8(s07_cheby2, h, false)
VP_ENTRY h_s07e_butter() N8(s07_butter, h, true)
VP_ENTRY h_s07e_cheby1() N8(s07_cheby1, h, true)
VP_ENTRY h_s07e_cheby2() N8(s07_cheby2, h, true)

// ---- S02: every section is stable ----
template <typename S> void stable(S const& s) { for (unsigned i = 0; i < s.size(); ++i) { double a1 = s[i].a()[1], a2 = s[i].a()[2]; vp_check(1 - a2 > 0, "poles inside the unit circle: a2 < 1"); vp_check(1 + a1 + a2 > 0, "poles inside the unit circle: 1 + a1 + a2 > 0"); vp_check(1 - a1 + a2 > 0, "poles inside the unit circle: 1 - a1 + a2 > 0"); } }
template <std::size_t N> void s02_butter(bool high) { corner k; stable(make(sg::butterworth<N>(), k, high).template sos<double>().sos()); vp_reach("end"); }
template <std::size_t N> void s02_bessel(bool high) { corner k; stable(make(sg::bessel<N>(), k, high).template sos<double>().sos()); vp_reach("end"); }
template <std::size_t N> void s02_cheby1(bool high, bool conc = false) { ripple R = conc ? some_ripple(N) : ripple(N, 1e-3, 1e3); corner k; stable(make(sg::chebyshev1<N>(R.db), k, high).template sos<double>().sos()); vp_reach("end"); }
template <std::size_t N> void s02_cheby2(bool high, bool conc = false) { ripple R = conc ? some_ripple(N, true) : ripple(N, 1e-3, 1e3, true); corner k; stable(make(sg::chebyshev2<N>(R.db), k, high).template sos<double>().sos()); vp_reach("end"); }
VP_ENTRY h_s02_butter() N8(s02_butter, h)
VP_ENTRY h_s02_bessel() N8(s02_bessel, h)
VP_ENTRY h_s02_cheby1c() N8(s02_cheby1, h, true)
VP_ENTRY h_s02_cheby2c() N8(s02_cheby2, h, true)
VP_ENTRY h_s02_cheby1() N8(s02_cheby1, h)
VP_ENTRY h_s02_cheby2() N8(s02_cheby2, h)

// ---- S03: sections against the polynomial form ----
template <std::size_t M> struct pol { double c[M + 1]; };
// coefficients of the product of all sections' numerators (denominators) against those of the polynomial form (padded with zeros)
template <std::size_t N, typename D> void s03(D const& d, bool dist, double gain) {
  auto p = d.template poly<double>(); auto q = d.template sos<double>(dist ? sg::sos_gain::distribute : sg::sos_gain::first_section); auto const& s = q.sos(); constexpr std::size_t M = 2 * ((N + 1) / 2); vp_check(s.size() == M / 2, "number of sections");
  double nb[M + 1] = {1}, na[M + 1] = {1}; for (unsigned i = 0; i < s.size(); ++i) { auto sb = s[i].b(), sa = s[i].a(); vp_check(sa[0] == 1, "monic sections"); for (unsigned k = 2 * i + 3; k-- > 0;) { nb[k] = (k <= 2 * i ? nb[k] * sb[0] : 0) + (k >= 1 && k <= 2 * i + 1 ? nb[k - 1] * sb[1] : 0) + (k >= 2 ? nb[k - 2] * sb[2] : 0); na[k] = (k <= 2 * i ? na[k] * sa[0] : 0) + (k >= 1 && k <= 2 * i + 1 ? na[k - 1] * sa[1] : 0) + (k >= 2 ? na[k - 2] * sa[2] : 0); } }
  auto b = p.b(), a = p.a(); for (unsigned k = 0; k <= M; ++k) { vp_near(nb[k] / gain, (k <= N ? b[k] : 0) / gain, 1e-9, "numerator product"); vp_near(na[k], k <= N ? a[k] : 0, 1e-9, "denominator product"); }
  for (unsigned i = 1; i < s.size(); ++i) vp_near(s[i].b()[0], dist ? s[0].b()[0] : 1, 1e-9, "gain of the sections"); vp_reach("end");
}
template <std::size_t N, typename C> void s03d(C const& c, bool high, bool dist) { corner k; auto d = make(c, k, high); s03<N>(d, dist, d.template poly<double>().b()[0]); }
template <std::size_t N> void s03_butter(bool high, bool dist) { s03d<N>(sg::butterworth<N>(), high, dist); }
template <std::size_t N> void s03_bessel(bool high, bool dist) { s03d<N>(sg::bessel<N>(), high, dist); }
template <std::size_t N> void s03_cheby1(bool high, bool dist, bool conc = false) { ripple R = conc ? some_ripple(N) : ripple(N, 1e-3, 1e3); s03d<N>(sg::chebyshev1<N>(R.db), high, dist); }
template <std::size_t N> void s03_cheby2(bool high, bool dist, bool conc = false) { ripple R = conc ? some_ripple(N, true) : ripple(N, 1e-3, 1e3, true); s03d<N>(sg::chebyshev2<N>(R.db), high, dist); }
#define N8D(f, ...) { bool d = vp_pick(2, "dist"); N8(f, h, d, ##__VA_ARGS__) }
VP_ENTRY h_s03_cheby1c() N8D(s03_cheby1, true)
VP_ENTRY h_s03_cheby2c() N8D(s03_cheby2, true)
VP_ENTRY h_s03_butter() N8D(s03_butter)
VP_ENTRY h_s03_bessel() N8D(s03_bessel)
VP_ENTRY h_s03_cheby1() N8D(s03_cheby1)
VP_ENTRY h_s03_cheby2() N8D(s03_cheby2)

// ---- S08: sections of designs in the order of the distance of their poles from the unit circle ----
template <std::size_t N, typename C> void s08d(C const& c, bool high) {
  corner k; auto s = make(c, k, high).template sos<double>().sos(); double prev = -1;
  for (unsigned i = 0; i < s.size(); ++i) { auto a = s[i].a(); double m = (N % 2 && i == 0) ? a[1] * a[1] : a[2]; if (N % 2 && i == 0) vp_near(a[2], 0, 1e-12, "the single real pole comes first"); vp_check(m >= prev - 1e-9, "later sections have their poles closer to the unit circle"); prev = m; }
  vp_reach("end");
}
template <std::size_t N> void s08_butter(bool high) { s08d<N>(sg::butterworth<N>(), high); }
template <std::size_t N> void s08_bessel(bool high) { s08d<N>(sg::bessel<N>(), high); }
template <std::size_t N> void s08_cheby1(bool high) { s08d<N>(sg::chebyshev1<N>(some_ripple(N).db), high); }
template <std::size_t N> void s08_cheby2(bool high) { s08d<N>(sg::chebyshev2<N>(some_ripple(N, true).db), high); }
VP_ENTRY h_s08_butter() N8(s08_butter, h)
VP_ENTRY h_s08_bessel() N8(s08_bessel, h)
VP_ENTRY h_s08_cheby1() N8(s08_cheby1, h)
VP_ENTRY h_s08_cheby2() N8(s08_cheby2, h)

#ifdef VP_DETAIL // uses names from namespace detail
// arbitrary self-conjugate descriptions: all positions symbolic, the order of the values turned round by "rev"
template <std::size_t N> struct anyd { sg::detail::zpk_value<N, N, double> const& v; template <typename F> auto poly() const { return sg::poly_design<F, N>(v); } template <typename F> auto sos(sg::sos_gain m) const { return sg::sos_design<F, N>(v, m); } };
template <std::size_t N> void turn(cplx* v) { if (vp_pick(2, "rev")) for (unsigned i = 0; i < N / 2; ++i) { cplx t = v[i]; v[i] = v[N - 1 - i]; v[N - 1 - i] = t; } }
template <std::size_t ZC, std::size_t ZR, std::size_t PC, std::size_t PR> void s03_any(bool dist) {
  constexpr std::size_t N = 2 * PC + PR; static_assert(2 * ZC + ZR == N, ""); conj_set<ZC, ZR> z(ZA, ZB, -2, 2, 0.05, 2); conj_set<PC, PR> p(PA, PB, -2, 2, 0.05, 2); double k = vp_real("k", 0.1, 10); turn<N>(p.v);
  sg::detail::zpk_value<N, N, double> v(cv<N>(z.v), cv<N>(p.v), k); s03<N>(anyd<N>{v}, dist, k);
}
// ---- S08: order and pairing of the sections, for poles inside the unit circle ----
template <std::size_t M> struct units { double r[M + 1], i[M + 1]; bool real[M + 1], used[M + 1]; unsigned mate[M + 1];
  units(cplx const* v, unsigned n, unsigned c) { for (unsigned k = 0; k < M; ++k) { used[k] = false; real[k] = k >= 2 * c; mate[k] = real[k] ? k : k ^ 1; r[k] = k < n ? v[k].real() : 0; i[k] = k < n ? v[k].imag() : 0; } } };
// index of the unused value (a real one if asked) with the least measure; ties between values that are not conjugates of each other are excluded
template <std::size_t M, typename Fn> unsigned least(units<M> const& u, bool real, Fn const& fn) {
  unsigned b = M; for (unsigned k = 0; k < M; ++k) { if (u.used[k] || (real && !u.real[k])) continue; if (b == M) { b = k; continue; } if (u.mate[b] == k) { if (fn(k) < fn(b)) b = k; continue; } bool both0 = u.real[k] && u.real[b] && k >= M - 1 && b >= M - 1; if (both0) continue; double d = fn(k) - fn(b); vp_assume(d * d >= 1e-6); if (d < 0) b = k; }
  return b;
}
template <std::size_t ZC, std::size_t ZR, std::size_t PC, std::size_t PR> void s08_any() {
  constexpr std::size_t N = 2 * PC + PR, M = N + N % 2; static_assert(2 * ZC + ZR == N, ""); conj_set<ZC, ZR> z(ZA, ZB, -2, 2, 0.05, 2); conj_set<PC, PR> p(PA, PB, -0.7, 0.7, 0.05, 0.7); double g = vp_real("k", 0.1, 10);
  units<M> uz(z.v, N, ZC), up(p.v, N, PC); sg::detail::zpk_value<N, N, double> v(cv<N>(z.v), cv<N>(p.v), g); auto s = sg::sos_design<double, N>(v, sg::sos_gain::first_section).sos();
  for (unsigned k = M / 2; k-- > 0;) {
    auto far = [&](unsigned j) { return 1 - (up.r[j] * up.r[j] + up.i[j] * up.i[j]); };
    unsigned p1 = least(up, false, far); up.used[p1] = true; unsigned p2 = up.real[p1] ? least(up, true, far) : up.mate[p1]; up.used[p2] = true;
    auto off = [&](unsigned j) { double x = uz.r[j] - up.r[p1], y = uz.i[j] - up.i[p1]; return x * x + y * y; };
    unsigned z1 = least(uz, false, off); uz.used[z1] = true; unsigned z2 = uz.real[z1] ? least(uz, true, off) : uz.mate[z1]; uz.used[z2] = true;
    auto b = s[k].b(), a = s[k].a(); double q = k ? 1 : g;
    vp_near(a[1], -(up.r[p1] + up.r[p2]), 1e-9, "section holds the remaining pole closest to the unit circle and its partner"); vp_near(a[2], up.r[p1] * up.r[p2] - up.i[p1] * up.i[p2], 1e-9, "section holds the remaining pole closest to the unit circle and its partner");
    vp_near(b[0], q, 1e-9, "gain in the first section"); vp_near(b[1], -q * (uz.r[z1] + uz.r[z2]), 1e-9, "section holds the remaining zero nearest to its pole and its partner"); vp_near(b[2], q * (uz.r[z1] * uz.r[z2] - uz.i[z1] * uz.i[z2]), 1e-9, "section holds the remaining zero nearest to its pole and its partner");
  }
  vp_reach("end");
}
#define ANY8(n, ...) VP_ENTRY h_s08_any##n() { s08_any<__VA_ARGS__>(); }
ANY8(2a, 1, 0, 1, 0) ANY8(2b, 0, 2, 1, 0) ANY8(2c, 1, 0, 0, 2) ANY8(2d, 0, 2, 0, 2)
ANY8(3a, 1, 1, 1, 1) ANY8(3b, 0, 3, 1, 1) ANY8(3c, 1, 1, 0, 3) ANY8(3d, 0, 3, 0, 3)
ANY8(4a, 2, 0, 2, 0) ANY8(4b, 0, 4, 2, 0) ANY8(4c, 1, 2, 1, 2) ANY8(4d, 2, 0, 0, 4) ANY8(4f, 1, 2, 2, 0) ANY8(4g, 2, 0, 1, 2)
ANY8(5a, 2, 1, 2, 1) ANY8(6a, 3, 0, 3, 0)
#define ANY(n, ...) VP_ENTRY h_s03_any##n() { s03_any<__VA_ARGS__>(vp_pick(2, "dist")); }
ANY(1, 0, 1, 0, 1) ANY(2a, 1, 0, 1, 0) ANY(2b, 0, 2, 1, 0) ANY(2c, 1, 0, 0, 2) ANY(2d, 0, 2, 0, 2)
ANY(3a, 1, 1, 1, 1) ANY(3b, 0, 3, 1, 1) ANY(3c, 1, 1, 0, 3) ANY(3d, 0, 3, 0, 3)
ANY(4a, 2, 0, 2, 0) ANY(4b, 0, 4, 2, 0) ANY(4c, 1, 2, 1, 2) ANY(4d, 2, 0, 0, 4) ANY(4e, 0, 4, 0, 4) ANY(4f, 1, 2, 2, 0) ANY(4g, 2, 0, 1, 2) ANY(4h, 0, 4, 1, 2) ANY(4i, 1, 2, 0, 4)
#endif
