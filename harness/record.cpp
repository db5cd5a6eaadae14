// D01: the record macros place exactly the record of the design, under the right name
#include "filters.h"
#include "embedded/signal/debug_filter_coefs.h"
using zpk1 = sg::detail::zpk_value<1, 1, double>; using zpk3 = sg::detail::zpk_value<3, 3, double>;
constexpr zpk1 z1(cvec<1>{cplx(-1)}, cvec<1>{cplx(0.5)}, 0.25);
constexpr zpk3 z3(cvec<3>{cplx(-1), cplx(0.5, 0.25), cplx(0.5, -0.25)}, cvec<3>{cplx(0.25, -0.5), cplx(0.25, 0.5), cplx(0.125)}, 3);
constexpr sg::poly_design<double, 1> low_a(z1); constexpr sg::poly_design<double, 3> low_b(z3); constexpr sg::poly_design<float, 3> low_f(z3);
constexpr sg::sos_design<double, 1> sec_a(z1, sg::sos_gain::first_section); constexpr sg::sos_design<double, 3> sec_b(z3, sg::sos_gain::first_section); constexpr sg::sos_design<float, 3> sec_f(z3, sg::sos_gain::first_section);
#undef LIBEMB_UNIQUE_NAME
#define LIBEMB_UNIQUE_NAME(prefix) LIBEMB_CONCAT(vp_record_, __LINE__)
#line 101 "place.cpp"
LIBEMB_DEBUG_FILTER_COEFS(low_a); 
LIBEMB_DEBUG_FILTER_COEFS(sec_a);
LIBEMB_DEBUG_FILTER_COEFS_NAME(low_b, "the second filter");
LIBEMB_DEBUG_FILTER_COEFS_NAME(sec_b, "");
LIBEMB_DEBUG_FILTER_COEFS_NAME(low_f, "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789");
LIBEMB_DEBUG_FILTER_COEFS(sec_f);
template <typename R, unsigned S> void rec(R const& r, unsigned kind, unsigned vt, char const (&name)[S]) {
  auto p = (unsigned char const*)&r; uint32_t m; std::memcpy(&m, p, 4); uint16_t l; std::memcpy(&l, p + 4, 2);
  vp_check(m == 0x544C4946 && l == sizeof(R), "magic number and length"); vp_check(p[7] == kind && p[8] == vt, "structure kind and value type");
  unsigned i = vp_u8("i"); vp_assume(i < 119); vp_check(p[9 + i] == sel<unsigned>(vp_and(i < S - 1, i < 118), (unsigned char)name[i < S - 1 ? i : 0], 0), "name of the design and place, cut to the field"); vp_reach("end");
}
template <typename F, typename V> void poly_coefs(void const* r, V const& d) { F const* c = (F const*)((char const*)r + 128); unsigned n = d.b().size(), i = vp_u8("k"); vp_assume(i < n); auto b = d.b(), a = d.a(); for (unsigned k = 0; k < n; ++k) if (i == k) { vp_check(c[k] == b[k], "coefficients b"); vp_check(c[n + k] == a[k], "coefficients a"); } }
template <typename F, typename V> void sos_coefs(void const* r, V const& d) { F const* c = (F const*)((char const*)r + 128); auto q = d.sos(); for (unsigned i = 0; i < q.size(); ++i) { auto s = q[i]; vp_check(c[5 * i] == s.b()[0] && c[5 * i + 1] == s.b()[1] && c[5 * i + 2] == s.b()[2] && c[5 * i + 3] == s.a()[1] && c[5 * i + 4] == s.a()[2], "section coefficients in order"); } }
VP_ENTRY h_d01_macro() {
  switch (vp_pick(6, "record")) {
    case 0: rec(vp_record_101, 1, 1, "low_a (place.cpp:101)"); poly_coefs<double>(&vp_record_101, low_a); break;
    case 1: rec(vp_record_102, 0, 1, "sec_a (place.cpp:102)"); sos_coefs<double>(&vp_record_102, sec_a); break;
    case 2: rec(vp_record_103, 1, 1, "the second filter"); poly_coefs<double>(&vp_record_103, low_b); break;
    case 3: rec(vp_record_104, 0, 1, ""); sos_coefs<double>(&vp_record_104, sec_b); break;
    case 4: rec(vp_record_105, 1, 0, "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"); poly_coefs<float>(&vp_record_105, low_f); break;
    case 5: rec(vp_record_106, 0, 0, "sec_f (place.cpp:106)"); sos_coefs<float>(&vp_record_106, sec_f); break;
  }
}
