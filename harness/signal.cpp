// S05: analog prototypes, S06: transformations
#include "filters.h"

// ---- S05: prototypes ----
template <std::size_t N> void s05_butter() {
  auto sp = sg::butterworth<N>().template spec<double>(); auto p = sp.poles(); double w = vp_real("w", 0, 1e3);
  vp_check(sp.zeros().size() == 0 && p.size() == N && sp.gain() == 1, "all-pole, N poles, unit gain");
  for (unsigned i = 0; i < N; ++i) vp_check(p[i].real() < 0, "left half plane");
  double sc = 1 + ipow(w, 2 * N); vp_near(mag2(at_roots(p, cz{0, w})) / sc, 1, 1e-11, "squared magnitude 1 + w^2N");
  for (unsigned i = 0; i < N; ++i) vp_near(p[i].norm(), 1, 1e-14, "unit circle");
  cz d = at_roots(p, cz{w, 0}); vp_near(d.i / ipow(1 + w, N), 0, 1e-11, "closed under conjugation"); vp_near(at_roots(p, cz{0, 0}).r, 1, 1e-14, "unit gain at DC"); vp_reach("end");
}
template <std::size_t N> void s05_cheby1(bool fixed = false) {
  ripple R = fixed ? some_ripple(N) : ripple(N, 1e-3, 1e3); double g = 1 + R.h, w = vp_real("w", 0, 1e3); auto sp = sg::chebyshev1<N>(R.db).template spec<double>(); auto p = sp.poles(); double k = sp.gain();
  vp_check(sp.zeros().size() == 0 && p.size() == N, "all-pole, N poles"); vp_near(sp.rf(), R.e, 1e-9, "ripple factor");
  for (unsigned i = 0; i < N; ++i) vp_check(p[i].real() < 0, "left half plane");
  double t = cheb(N, w), u = cheb_abs(N, w), sc = ipow(0.25, N - 1) * (1 / (R.e * R.e) + u * u + 0.01 * ipow(g + w, 2 * N));   // gain^2 e^2 = 4^(1-N); u bounds |T_N|
  vp_check(k > 0, "positive gain"); vp_near(mag2(at_roots(p, cz{0, w})) / sc, k * k * (1 + R.e * R.e * t * t) / sc, 1e-9, "squared magnitude 1 + e^2 T_N(w)^2");
  cz d = at_roots(p, cz{w, 0}); vp_near(d.i / sc, 0, 1e-10, "closed under conjugation"); vp_reach("end");
}
template <std::size_t N> void s05_cheby2(bool fixed = false) {
  ripple R = fixed ? some_ripple(N, true) : ripple(N, 1e-3, 1e3, true); double g = 1 + R.h, w = vp_real("w", 0, 1e3);
  auto sp = sg::chebyshev2<N>(R.db).template spec<double>(); auto p = sp.poles(); auto z = sp.zeros(); double k = sp.gain();
  vp_check(z.size() == N - N % 2 && p.size() == N, "N poles, even number of zeros");
  for (unsigned i = 0; i < N; ++i) vp_check(p[i].real() < 0, "left half plane");
  for (unsigned i = 0; i < z.size(); ++i) vp_near(z[i].real(), 0, 1e-12, "zeros on the imaginary axis");
  // |H|^2 = T^2/(T^2 + w^2N / eps2inv ...): with q(w) = w^N T_N(1/w):  |H|^2 = q^2 / (q^2 + w^2N E^2), E^2 = 10^(db/10) - 1 = e^2 -> H = 1/sqrt(1+E^2) at w = 1
  double q = cheb_rev(N, w), E2 = R.e * R.e; double num = mag2(at_roots(z, cz{0, w})), den = mag2(at_roots(p, cz{0, w})); double a = k * k * num * (q * q + ipow(w, 2 * N) * E2), b = den * q * q;
  double v = cheb_rev_abs(N, w), nt = 1; for (unsigned i = 0; i < z.size(); ++i) nt *= w + cm::abs(z[i].imag()); double sc = (N % 2 ? N * N / E2 : 1 / (1 + E2)) * nt * nt * (v * v + ipow(w, 2 * N) * E2); sc = sc * (1 + 0.01 * ipow(g + w, 2 * N));
  vp_near(a / sc, b / sc, 1e-9, "squared magnitude of the inverse Chebyshev response"); vp_check(k > 0, "positive gain");
  cz dz = at_roots(z, cz{w, 0}), dp = at_roots(p, cz{w, 0}); vp_near(dz.i / sc, 0, 1e-10, "zeros closed under conjugation"); vp_near(dp.i / sc, 0, 1e-10, "poles closed under conjugation"); vp_reach("end");
}
template <std::size_t N> void s05_bessel() {
  auto sp = sg::bessel<N>().template spec<double>(); auto p = sp.poles(); vp_check(sp.zeros().size() == 0 && p.size() == N && sp.gain() == 1, "all-pole, N poles, unit gain");
  cz c[N + 1] = {{1, 0}}; // ascending coefficients of prod (s - p)
  for (unsigned k = 0; k < N; ++k) { cz r = mk(p[k]); vp_check(r.r < 0, "left half plane"); c[k + 1] = c[k]; for (unsigned i = k; i > 0; --i) c[i] = c[i - 1] - r * c[i]; c[0] = cz{0, 0} - r * c[0]; }
  double lr = 0; for (unsigned k = 1; k <= N; ++k) lr += cm::log(2.0 * k - 1); double r = cm::exp(lr / N), q[N + 1]; q[0] = 1; for (unsigned k = 0; k < N; ++k) q[k + 1] = q[k] * r * (2.0 * (N - k) / ((2.0 * N - k) * (k + 1)));
  double s = vp_real("s", 0, 1e3), v = 0, im = 0, ref = 0, sc; for (unsigned i = N + 1; i-- > 0;) { v = v * s + c[i].r; im = im * s + c[i].i; ref = ref * s + q[i]; }
  sc = ref;
  vp_near((v - ref) / sc, 0, 1e-12, "normalised reverse Bessel polynomial"); vp_near(im / sc, 0, 1e-10, "closed under conjugation"); vp_reach("end");
}
#define N1(f, n) case n: f<n>(); break;
#define N4(f, n) N1(f, n) N1(f, n + 1) N1(f, n + 2) N1(f, n + 3)
#define N20(f, n) N4(f, n) N4(f, n + 4) N4(f, n + 8) N4(f, n + 12) N4(f, n + 16)
VP_ENTRY h_s05_butter() { switch (1 + vp_pick(20, "n")) { N20(s05_butter, 1) } }
VP_ENTRY h_s05_cheby1() { switch (1 + vp_pick(8, "n")) { N4(s05_cheby1, 1) N4(s05_cheby1, 5) } }
VP_ENTRY h_s05_cheby2() { switch (1 + vp_pick(8, "n")) { N4(s05_cheby2, 1) N4(s05_cheby2, 5) } }
#define C1(f, n) case n: f<n>(true); break;
#define C12(f) C1(f, 9) C1(f, 10) C1(f, 11) C1(f, 12) C1(f, 13) C1(f, 14) C1(f, 15) C1(f, 16) C1(f, 17) C1(f, 18) C1(f, 19) C1(f, 20)
VP_ENTRY h_s05_cheby1c() { switch (9 + vp_pick(12, "n")) { C12(s05_cheby1) } }
VP_ENTRY h_s05_cheby2c() { switch (9 + vp_pick(12, "n")) { C12(s05_cheby2) } }
VP_ENTRY h_s05_butter2() { switch (21 + vp_pick(20, "n")) { N20(s05_butter, 21) } }
VP_ENTRY h_s05_bessel() { switch (1 + vp_pick(20, "n")) { N20(s05_bessel, 1) } }
VP_ENTRY h_s05_bessel2() { switch (21 + vp_pick(20, "n")) { N20(s05_bessel, 21) } }
VP_ENTRY h_s05_bessel3() { switch (41 + vp_pick(20, "n")) { N20(s05_bessel, 41) } }
VP_ENTRY h_s05_bessel4() { switch (61 + vp_pick(20, "n")) { N20(s05_bessel, 61) } }
VP_ENTRY h_s05_bessel5() { switch (81 + vp_pick(20, "n")) { N20(s05_bessel, 81) } }

// ---- S06: transformations of arbitrary self-conjugate descriptions ----
template <std::size_t ZC, std::size_t ZR, std::size_t PC, std::size_t PR> struct proto {
  static constexpr std::size_t Z = 2 * ZC + ZR, P = 2 * PC + PR; conj_set<ZC, ZR> z; conj_set<PC, PR> p; double k; sg::detail::zpk_value<Z, P, double> v;
  proto(double zlo, double zhi, double plo, double phi) : z(ZA, ZB, zlo, zhi, 0.1, 10), p(PA, PB, plo, phi, 0.1, 10), k(vp_real("k", 0.1, 10)), v(cv<Z>(z.v), cv<P>(p.v), k) {}
  // numerator and denominator at s
  cz num(cz s) const { return k * at_roots(cv<Z>(z.v), s); } cz den(cz s) const { return at_roots(cv<P>(p.v), s); }
};
// real parts of the zeros and poles to the left (0) or to the right (1) of the origin: every combination
static double side(int right, double lo) { return right ? lo : -10; }
static double side2(int right, double lo) { return right ? 10 : -lo; }
template <std::size_t ZC, std::size_t ZR, std::size_t PC, std::size_t PR> void s06_low() {
  proto<ZC, ZR, PC, PR> H(-10, 10, -10, 10); double f = vp_real("f", 0.1, 10), sr = vp_real("sr", -5, 5), si = vp_real("si", -5, 5); auto t = sg::detail::lowpass_zpk(H.v, f); vp_check(t.zeros().size() == H.Z && t.poles().size() == H.P, "same number of zeros and poles");
  cz s{sr, si}, u{sr / f, si / f}; cz a = t.gain() * at_roots(t.zeros(), s), b = at_roots(t.poles(), s); vp_check(true, "evaluated"); cz x = a * H.den(u), y = H.num(u) * b; vp_near(x.r, y.r, 1e-6, "low-pass: H(s/f)"); vp_near(x.i, y.i, 1e-6, "low-pass: H(s/f)"); vp_reach("end");
}
template <std::size_t ZC, std::size_t ZR, std::size_t PC, std::size_t PR> void s06_high() {
  int zs = vp_pick(2, "zside"), ps = vp_pick(2, "pside"); proto<ZC, ZR, PC, PR> H(side(zs, 0.1), side2(zs, 0.1), side(ps, 0.1), side2(ps, 0.1)); double f = vp_real("f", 0.1, 10), sr = vp_real("sr", 0.1, 5), si = vp_real("si", -5, 5); auto t = sg::detail::highpass_zpk(H.v, f); vp_check(t.zeros().size() == H.P && t.poles().size() == H.P, "as many zeros as poles");
  double n = sr * sr + si * si; cz s{sr, si}, u{f * sr / n, -f * si / n}; cz a = t.gain() * at_roots(t.zeros(), s), b = at_roots(t.poles(), s); cz x = a * H.den(u), y = H.num(u) * b; vp_near(x.r, y.r, 1e-6, "high-pass: H(f/s)"); vp_near(x.i, y.i, 1e-6, "high-pass: H(f/s)"); vp_reach("end");
}
template <std::size_t ZC, std::size_t ZR, std::size_t PC, std::size_t PR> void s06_bil(bool def) {
  // real zeros and poles below (0) or above (1) 2fs: every combination
  int zs = vp_pick(2, "zside"), ps = vp_pick(2, "pside"); int cut = zs + ps ? 0 : 1; double fs = def ? 2.0 : cut ? vp_real("fs", 5.1, 20) : vp_real("fs", 0.1, 2); double m = def ? 4.1 : cut ? 10 : 4.1, below = def ? 3.9 : cut ? 10 : 0.1;
  proto<ZC, ZR, PC, PR> H(zs ? m : -10, zs ? 10 : below, ps ? m : -10, ps ? 10 : below); double zr = vp_real("zr", 0.1, 5), zi = vp_real("zi", -5, 5); auto t = def ? sg::detail::bilinear_zpk(H.v) : sg::detail::bilinear_zpk(H.v, fs); vp_check(t.zeros().size() == H.P && t.poles().size() == H.P, "as many zeros as poles");
  cz z{zr, zi}; double n = (zr + 1) * (zr + 1) + zi * zi; cz q = cz{zr - 1, zi} * cz{(zr + 1) / n, -zi / n}; cz u{2 * fs * q.r, 2 * fs * q.i}; cz a = t.gain() * at_roots(t.zeros(), z), b = at_roots(t.poles(), z); cz x = a * H.den(u), y = H.num(u) * b; vp_near(x.r, y.r, 1e-6, "bilinear: H(2fs(z-1)/(z+1))"); vp_near(x.i, y.i, 1e-6, "bilinear: H(2fs(z-1)/(z+1))"); vp_reach("end");
}
#define SHAPES(f, ...) switch (vp_pick(11, "shape")) { case 0: f<0, 0, 0, 1>(__VA_ARGS__); break; case 1: f<0, 1, 0, 1>(__VA_ARGS__); break; case 2: f<0, 0, 1, 0>(__VA_ARGS__); break; case 3: f<0, 1, 1, 0>(__VA_ARGS__); break; case 4: f<1, 0, 1, 0>(__VA_ARGS__); break; \
  case 5: f<0, 0, 1, 1>(__VA_ARGS__); break; case 6: f<1, 0, 1, 1>(__VA_ARGS__); break; case 7: f<0, 1, 1, 1>(__VA_ARGS__); break; case 8: f<0, 2, 0, 3>(__VA_ARGS__); break; case 9: f<1, 1, 1, 1>(__VA_ARGS__); break; case 10: f<0, 3, 1, 1>(__VA_ARGS__); break; }
VP_ENTRY h_s06_low() { SHAPES(s06_low) }
VP_ENTRY h_s06_high() { SHAPES(s06_high) }
VP_ENTRY h_s06_bil() { SHAPES(s06_bil, false) }
VP_ENTRY h_s06_bil2() { SHAPES(s06_bil, true) }

// descriptions with many zeros and poles: fixed positions, symbolic gain, frequency and evaluation point (on a ray)
template <std::size_t N> struct many {
  cplx v[N + 1];
  explicit many(double a) { for (unsigned i = 0; i + 1 < N; i += 2) { double x = -a * (1 + 0.125 * i), y = 0.5 + 0.25 * i; v[i] = cplx(x, y); v[i + 1] = cplx(x, -y); } if (N % 2) v[N ? N - 1 : 0] = cplx(-a * 0.75); }
};
template <std::size_t Z, std::size_t P> void s06_many() {
  many<Z> z(0.5); many<P> p(0.25); double k = vp_real("k", 0.1, 10), f = vp_real("f", 0.8, 1.25), x = vp_real("x", 0.8, 1.25); cz s{x, 0.5 * x}, s0{1, 0.5};
  sg::detail::zpk_value<Z, P, double> v(cv<Z>(z.v), cv<P>(p.v), k); auto num = [&](cz u) { return k * at_roots(v.zeros(), u); }; auto den = [&](cz u) { return at_roots(v.poles(), u); };
  // u0: the point designated at f = 1; m: size of the changed denominator over that of the original one there
  auto same = [&](auto const& t, cz at, cz u, cz u0, double m, const char* what) { cz a = t.gain() * at_roots(t.zeros(), at), b = at_roots(t.poles(), at), l = a * den(u), r = num(u) * b; double sc = cm::sqrt(mag2(at_roots(v.zeros(), u0))) * cm::sqrt(mag2(den(u0))) * m; vp_near(l.r / sc, r.r / sc, 1e-9, what); vp_near(l.i / sc, r.i / sc, 1e-9, what); };
  double m = 1;
  switch (vp_pick(3, "kind")) {
    case 0: { auto t = sg::detail::lowpass_zpk(v, f); vp_check(t.zeros().size() == Z && t.poles().size() == P, "same number of zeros and poles"); same(t, s, (1 / f) * s, s0, 1, "low-pass: H(s/f)"); break; }
    case 1: { auto t = sg::detail::highpass_zpk(v, f); vp_check(t.zeros().size() == P && t.poles().size() == P, "as many zeros as poles"); for (unsigned i = 0; i < P; ++i) m *= cm::sqrt(mag2(s0)) / cm::sqrt(mag2(mk(p.v[i]))); same(t, s, cz{f * s.r / mag2(s), -f * s.i / mag2(s)}, cz{s0.r / mag2(s0), -s0.i / mag2(s0)}, m, "high-pass: H(f/s)"); break; }
    case 2: { auto t = sg::detail::bilinear_zpk(v, f); vp_check(t.zeros().size() == P && t.poles().size() == P, "as many zeros as poles"); double n = (s.r + 1) * (s.r + 1) + s.i * s.i; cz q = cz{s.r - 1, s.i} * cz{(s.r + 1) / n, -s.i / n}; cz q0 = cz{s0.r - 1, s0.i} * cz{2 / 4.25, -0.5 / 4.25}; for (unsigned i = 0; i < P; ++i) m *= cm::sqrt(4.25 / mag2(cz{2 - p.v[i].real(), p.v[i].imag()})); same(t, s, 2 * f * q, 2 * q0, m, "bilinear: H(2fs(z-1)/(z+1))"); break; }
  }
  vp_reach("end");
}
VP_ENTRY h_s06_many() { switch (vp_pick(7, "shape")) { case 0: s06_many<0, 5>(); break; case 1: s06_many<2, 6>(); break; case 2: s06_many<4, 7>(); break; case 3: s06_many<8, 8>(); break; case 4: s06_many<0, 12>(); break; case 5: s06_many<7, 9>(); break; case 6: s06_many<12, 16>(); break; } }
