// shared by the filter harnesses
#pragma once
#include "vp.h"
#include "embedded/constexpr_math.h"
#include "embedded/signal/bessel.h"
#include "embedded/signal/butterworth.h"
#include "embedded/signal/chebyshev.h"
#include "embedded/signal/filter.h"
namespace cm = embedded::cmath; namespace sg = embedded::signal;
using cplx = cm::complex<double>;
template <std::size_t N> using rvec = cm::vector<double, N>;
template <std::size_t N> using cvec = cm::vector<cplx, N>;

// own complex arithmetic for the oracles
struct cz { double r, i; };
static cz mk(cplx const& z) { return cz{z.real(), z.imag()}; }
static cz operator+(cz a, cz b) { return cz{a.r + b.r, a.i + b.i}; }
static cz operator-(cz a, cz b) { return cz{a.r - b.r, a.i - b.i}; }
static cz operator*(cz a, cz b) { return cz{a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
static cz operator*(double a, cz b) { return cz{a * b.r, a * b.i}; }
static double mag2(cz a) { return a.r * a.r + a.i * a.i; }
static double ipow(double x, unsigned n) { double r = 1; for (unsigned i = 0; i < n; ++i) r *= x; return r; }
// value at s of the monic polynomial with the given roots
template <typename V> cz at_roots(V const& z, cz s) { cz r{1, 0}; for (unsigned i = 0; i < z.size(); ++i) r = r * (s - mk(z[i])); return r; }
// value at z of coefficients b[0] z^n + ... + b[n]
template <typename V> cz at_coefs(V const& b, cz z) { cz r{0, 0}; for (unsigned i = 0; i < b.size(); ++i) r = r * z + cz{b[i], 0}; return r; }
// Chebyshev polynomial T_n(x)
static double cheb(unsigned n, double x) { double a = 1, b = x; if (n == 0) return 1; for (unsigned k = 1; k < n; ++k) { double c = 2 * x * b - a; a = b; b = c; } return b; }
// x^n T_n(1/x)
static double cheb_rev(unsigned n, double x) { double a = 1, b = 1; if (n == 0) return 1; for (unsigned k = 1; k < n; ++k) { double c = 2 * b - x * x * a; a = b; b = c; } return b; }

// the same with all signs positive: bounds for the absolute values
static double cheb_abs(unsigned n, double x) { double a = 1, b = x; if (n == 0) return 1; for (unsigned k = 1; k < n; ++k) { double c = 2 * x * b + a; a = b; b = c; } return b; }
static double cheb_rev_abs(unsigned n, double x) { double a = 1, b = 1; if (n == 0) return 1; for (unsigned k = 1; k < n; ++k) { double c = 2 * b + x * x * a; a = b; b = c; } return b; }
// Chebyshev ripple (stop: attenuation) in dB, parametrised so that exp(asinh(1/e)/n) (stop: exp(asinh(e)/n)) = 1+h, e = sqrt(10^(db/10)-1)
struct ripple { double h, e, db; ripple(double b, unsigned n, bool stop) : h(0), e(cm::sqrt(cm::pow(10.0, 0.1 * b) - 1)), db(b) { h = cm::exp(cm::asinh(stop ? e : 1 / e) / n) - 1; } ripple(unsigned n, double lo, double hi, bool stop = false) { h = vp_real("h", lo, hi); double g = 1 + h, s = cm::sinh(n * cm::log(g)); e = stop ? s : 1 / s; db = 10 * cm::log10(1 + e * e); } };

// four fixed ripples instead of all of them (for high orders)
static ripple some_ripple(unsigned n, bool stop = false) { static const double P[] = {0.01, 0.5, 3, 12}, S[] = {1, 20, 60, 100}; return ripple((stop ? S : P)[vp_pick(4, "ripple")], n, stop); }

static const char* const ZA[] = {"z0a", "z1a", "z2a", "z3a"}; static const char* const ZB[] = {"z0b", "z1b", "z2b", "z3b"};
static const char* const PA[] = {"p0a", "p1a", "p2a", "p3a"}; static const char* const PB[] = {"p0b", "p1b", "p2b", "p3b"};
// C conjugate pairs followed by R real values
template <std::size_t C, std::size_t R> struct conj_set {
  cplx v[2 * C + R + 1];
  conj_set(const char* const* a, const char* const* b, double lo, double hi, double ilo, double ihi) {
    for (unsigned i = 0; i < C; ++i) { double x = vp_real(a[i], lo, hi), y = vp_real(b[i], ilo, ihi); v[2 * i] = cplx(x, y); v[2 * i + 1] = cplx(x, -y); }
    for (unsigned i = 0; i < R; ++i) v[2 * C + i] = cplx(vp_real(a[C + i], lo, hi)); }
};
template <std::size_t N, std::size_t... I> cvec<N> cv_(cplx const* a, embedded::index_sequence<I...>) { return cvec<N>{a[I]...}; }
template <std::size_t N> cvec<N> cv(cplx const* a) { return cv_<N>(a, embedded::make_index_sequence<N>{}); }
