// T03: stream output.  The formatting functions of std::ostream called by the header are replaced by functions that record what
// they are given (text character by character, numbers as numbers); the "stream" is the record itself.
#include "vp.h"
#include <ostream>
namespace fpm { template <typename B, typename I, unsigned F, bool R = true> class fixed { double v_; int r_; public: fixed(double v, int r) : v_(v), r_(r) {} explicit operator double() const { return v_; } B raw_value() const { return r_; } }; }
#include "embedded/ostream_ops.h"
#include "embedded/signal/filter.h"
#include "embedded/signal/butterworth.h"
namespace cm = embedded::cmath; namespace sg = embedded::signal; using cplx = cm::complex<double>;
enum : unsigned { NUM = 256, INT = 257, END = 300, CAP = 400 };
struct rec { unsigned n = 0; unsigned kind[CAP]; double num[CAP]; long val[CAP]; void put(unsigned k, double d, long v) { vp_guard(n < CAP, "bounded output"); kind[n] = k; num[n] = d; val[n] = v; ++n; } };
static rec& R(void* o) { return *(rec*)o; }
#ifdef VP_REPLAY_ENTRY
#define REC(sym, args, body) void* vp_as##sym args __asm__(#sym); void* vp_as##sym args { body; return os; }
#else // the executor calls vp_as_x wherever x is called
#define REC(sym, args, body) extern "C" __attribute__((used)) void* vp_as##sym args { body; return os; }
#endif
REC(_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc, (void* os, char const* s), for (; *s; ++s) R(os).put((unsigned char)*s, 0, 0))
REC(_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c, (void* os, char c), R(os).put((unsigned char)c, 0, 0))
REC(_ZNSo3putEc, (void* os, char c), R(os).put((unsigned char)c, 0, 0))
REC(_ZNSo5writeEPKcl, (void* os, char const* s, long n), for (long i = 0; i < n; ++i) R(os).put((unsigned char)s[i], 0, 0))
REC(_ZNSolsEd, (void* os, double d), R(os).put(NUM, d, 0))
REC(_ZNSolsEf, (void* os, float d), R(os).put(NUM, d, 0))
REC(_ZNSolsEe, (void* os, long double d), R(os).put(NUM, (double)d, 0))
REC(_ZNSolsEi, (void* os, int v), R(os).put(INT, 0, v))
REC(_ZNSolsEj, (void* os, unsigned v), R(os).put(INT, 0, v))
REC(_ZNSolsEl, (void* os, long v), R(os).put(INT, 0, v))
REC(_ZNSolsEm, (void* os, unsigned long v), R(os).put(INT, 0, (long)v))
static const char* const EN[] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"};
static const char* const FN[] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"};
// reads the record back
struct reader { rec const& r; unsigned i = 0;
  void text(char const* s) { for (; *s; ++s, ++i) vp_check(i < r.n && r.kind[i] == (unsigned char)*s, "text"); }
  void num(double d) { vp_check(i < r.n && r.kind[i] == NUM, "a number here"); vp_near(r.num[i], d, 0, "the number"); ++i; }
  void integer(long v) { vp_check(i < r.n && r.kind[i] == INT, "an integer here"); vp_check(r.val[i] == v, "the integer"); ++i; }
  void cx(double re, double im) { num(re); if (im >= 0) text("+"); num(im); text("j"); }
  void end() { vp_check(i == r.n, "nothing else"); vp_reach("end"); } };
template <typename T> struct out { rec r; reader rd{r}; template <typename V> explicit out(V const& v) { std::ostream& os = *(std::ostream*)(void*)&r; std::ostream& k = show(os, v); vp_check(&k == &os, "returns the stream"); } template <typename V> static std::ostream& show(std::ostream& os, V const& v) { return os << v; } };
using O = out<int>;
static cplx any(unsigned i) { return cplx(vp_real(EN[i], -1e6, 1e6), vp_real(FN[i], -1e6, 1e6)); }
template <std::size_t... I> struct ix {};
template <std::size_t N, std::size_t... I> struct mk_ : mk_<N - 1, N - 1, I...> {};
template <std::size_t... I> struct mk_<0, I...> { using t = ix<I...>; };
template <typename T, std::size_t N, std::size_t... I> cm::vector<T, N> from_(T const* a, ix<I...>) { return cm::vector<T, N>{a[I]...}; }
template <std::size_t N, typename T> cm::vector<T, N> from(T const* a) { return from_<T, N>(a, typename mk_<N>::t{}); }
VP_ENTRY h_t03_complex() { cplx z = any(0); O o(z); o.rd.cx(z.real(), z.imag()); o.rd.end(); }
VP_ENTRY h_t03_fixed() { double d = vp_real("d", -1e6, 1e6); int r = (int)vp_u32("r"); fpm::fixed<int32_t, int64_t, 16> f(d, r); O o(f); o.rd.num(d); o.rd.text(" ("); o.rd.integer(r); o.rd.text(")"); o.rd.end(); }
template <std::size_t N> void cvec(reader& r, cplx const* a) { r.text("["); for (unsigned i = 0; i < N; ++i) { if (i) r.text(", "); r.cx(a[i].real(), a[i].imag()); } r.text("]"); }
template <std::size_t N> void t03_vec() { double a[N + 1]; for (unsigned i = 0; i < N; ++i) a[i] = vp_real(EN[i], -1e6, 1e6); O o(from<N>(a)); o.rd.text("["); for (unsigned i = 0; i < N; ++i) { if (i) o.rd.text(", "); o.rd.num(a[i]); } o.rd.text("]"); o.rd.end(); }
template <std::size_t N> void t03_ivec() { unsigned a[N + 1]; for (unsigned i = 0; i < N; ++i) a[i] = vp_u32(EN[i]); O o(from<N>(a)); o.rd.text("["); for (unsigned i = 0; i < N; ++i) { if (i) o.rd.text(", "); o.rd.integer(a[i]); } o.rd.text("]"); o.rd.end(); }
template <std::size_t N> void t03_cvec() { cplx a[N + 1]; for (unsigned i = 0; i < N; ++i) a[i] = any(i); O o(from<N>(a)); cvec<N>(o.rd, a); o.rd.end(); }
template <std::size_t N> void t03_arr() { std::array<double, N> a; for (unsigned i = 0; i < N; ++i) a[i] = vp_real(EN[i], -1e6, 1e6); rec r; std::ostream& os = *(std::ostream*)(void*)&r; vp_check(&std::operator<<(os, a) == &os, "returns the stream"); reader rd{r}; rd.text("["); for (unsigned i = 0; i < N; ++i) { if (i) rd.text(", "); rd.num(a[i]); } rd.text("]"); rd.end(); }
VP_ENTRY h_t03_vec() { switch (vp_pick(9, "n")) { case 0: t03_vec<0>(); break; case 1: t03_vec<1>(); break; case 2: t03_vec<2>(); break; case 3: t03_vec<3>(); break; case 4: t03_vec<8>(); break; case 5: t03_ivec<0>(); break; case 6: t03_ivec<1>(); break; case 7: t03_ivec<3>(); break; default: t03_ivec<8>(); } }
VP_ENTRY h_t03_cvec() { switch (vp_pick(4, "n")) { case 0: t03_cvec<0>(); break; case 1: t03_cvec<1>(); break; case 2: t03_cvec<2>(); break; default: t03_cvec<5>(); } }
VP_ENTRY h_t03_arr() { switch (vp_pick(4, "n")) { case 0: t03_arr<0>(); break; case 1: t03_arr<1>(); break; case 2: t03_arr<2>(); break; default: t03_arr<6>(); } }
VP_ENTRY h_t03_section() {
  // sections of a conjugate pair and of two real zeros and poles
  double a = vp_real("a", -2, 2), b = vp_real("b", 0.1, 2), c = vp_real("c", -2, 2), d = vp_real("d", 0.1, 2), k = vp_real("k", 0.1, 10); cplx z[2] = {cplx(a, b), cplx(a, -b)}, p[2] = {cplx(c, d), cplx(c, -d)};
  sg::sos_section<double> s(from<2>(z), from<2>(p), k); O o(s); auto B = s.b(), A = s.a(); o.rd.text("{b=["); o.rd.num(B[0]); o.rd.text(", "); o.rd.num(B[1]); o.rd.text(", "); o.rd.num(B[2]); o.rd.text("], a=["); o.rd.num(1); o.rd.text(", "); o.rd.num(A[1]); o.rd.text(", "); o.rd.num(A[2]); o.rd.text("]}"); o.rd.end();
}
#ifdef VP_DETAIL
template <std::size_t Z, std::size_t P> void t03_zpk() { cplx z[Z + 1], p[P + 1]; for (unsigned i = 0; i < Z; ++i) z[i] = any(i); for (unsigned i = 0; i < P; ++i) p[i] = any(4 + i); double k = vp_real("k", -1e6, 1e6); sg::detail::zpk_value<Z, P, double> v(from<Z>(z), from<P>(p), k); O o(v);
  o.rd.text("{zeros="); cvec<Z>(o.rd, z); o.rd.text(", poles="); cvec<P>(o.rd, p); o.rd.text(", gain="); o.rd.num(k); o.rd.text("}"); o.rd.end(); }
VP_ENTRY h_t03_zpk() { switch (vp_pick(4, "n")) { case 0: t03_zpk<0, 1>(); break; case 1: t03_zpk<1, 2>(); break; case 2: t03_zpk<0, 3>(); break; default: t03_zpk<3, 3>(); } }
#endif
