// V01..V06: varint encode/decode
#include "vp.h"
#include <vector>
#include "embedded/varint.h"
#include "embedded/circular_buffer_adapter.h"
using embedded::varint;

// ---- reference definitions, written from the documentation (not from the code) ----
template <typename T> constexpr unsigned width() { return 8 * sizeof(T); }
// zig-zag by arithmetic: v >= 0 -> 2v, v < 0 -> -2v-1, as an unsigned number of the same width
template <typename T> uint64_t ref_map(T v, std::false_type) { return v; }
template <typename T> uint64_t ref_map(T v, std::true_type) {
  using U = typename std::make_unsigned<T>::type;
  return (U)(v < 0 ? (U)(2 * (U)(-(v + 1)) + 1) : (U)(2 * (U)v));
}
template <typename T> uint64_t ref_num(T v) { return ref_map<T>(v, std::integral_constant<bool, std::is_signed<T>::value>()); }
// number of 7-bit groups, from the value's magnitude
inline unsigned ref_len(uint64_t n) {
  unsigned l = 1;
  for (unsigned i = 1; i < 10; ++i) l += (n >> (7 * i)) != 0;
  return l;
}
// byte i of the encoding of n
inline uint8_t ref_byte(uint64_t n, unsigned i) {
  return (uint8_t)((i < 10 ? (n >> (7 * i)) & 0x7f : 0) | (i + 1 < ref_len(n) ? 0x80 : 0));
}
static const unsigned CAP = 12;

struct sink {   // minimal back-insertable container
  using value_type = uint8_t;
  uint8_t buf[CAP]; unsigned n = 0;
  void push_back(uint8_t b) { vp_check(n < CAP, "back inserter receives at most the maximal encoding"); buf[n++] = b; }
};

template <typename T> void v01() {
  T v = vp_any<T>("v");
  uint8_t buf[CAP]; std::memset(buf, 0xAA, CAP);
  uint8_t* e = varint::encode(v, buf, buf + CAP);
  vp_check(e > buf && e <= buf + CAP, "bounded encode succeeds in a large buffer");
  std::size_t n = vp_conc(e - buf);
  // exact round trip
  T out = vp_any<T>("old");
  const uint8_t* d = varint::decode(out, (const uint8_t*)buf, (const uint8_t*)e);
  vp_check(d == e, "decode consumes exactly the encoding");
  vp_check(out == v, "decode returns the encoded value");
  // unbounded form
  uint8_t b2[CAP]; std::memset(b2, 0x55, CAP);
  uint8_t* e2 = varint::encode(v, (uint8_t*)b2);
  vp_check((std::size_t)(e2 - b2) == n, "unbounded encode has the same length");
  // back inserter
  sink s; varint::encode(v, std::back_inserter(s));
  vp_check(s.n == n, "back-inserter encode has the same length");
  for (unsigned i = 0; i < n; ++i) {
    vp_check(b2[i] == buf[i], "unbounded encode writes the same bytes");
    vp_check(s.buf[i] == buf[i], "back-inserter encode writes the same bytes");
  }
  // trailing bytes do not matter
  for (unsigned i = n; i < CAP; ++i) buf[i] = vp_u8("trail");
  T out2 = 0;
  const uint8_t* d2 = varint::decode(out2, (const uint8_t*)buf, (const uint8_t*)buf + CAP);
  vp_check(d2 == buf + n, "decode stops at the end of the encoding");
  vp_check(out2 == v, "trailing bytes do not change the value");
  vp_reach("end");
}
template <typename T> void v02() {
  T v = vp_any<T>("v");
  uint64_t num = ref_num(v);
  unsigned len = ref_len(num);
  vp_check(varint::size(v) == len, "size() is the number of 7-bit groups");
  uint8_t buf[CAP]; std::memset(buf, 0xAA, CAP);
  uint8_t* e = varint::encode(v, (uint8_t*)buf);
  std::size_t n = vp_conc(e - buf);
  vp_check(n == len, "encode writes size() bytes");
  for (unsigned i = 0; i < n; ++i) vp_check(buf[i] == ref_byte(num, i), "bytes are the little-endian 7-bit groups");
  for (unsigned i = n; i < CAP; ++i) vp_check(buf[i] == 0xAA, "nothing is written after the encoding");
  vp_reach("end");
}
// a wider type encodes the same number to the same bytes
template <typename T, typename W> void v02w() {
  T v = vp_any<T>("v"); W w = v;
  uint8_t a[CAP], b[CAP]; std::memset(a, 0, CAP); std::memset(b, 0, CAP);
  uint8_t* ea = varint::encode(v, a, a + CAP); uint8_t* eb = varint::encode(w, b, b + CAP);
  vp_check(ea - a == eb - b, "same length in a wider type");
  for (unsigned i = 0; i < CAP; ++i) vp_check(a[i] == b[i], "same bytes in a wider type");
  vp_check(varint::size(v) == varint::size(w), "same size() in a wider type");
  vp_reach("end");
}
// an iterator that checks every dereference against its range
struct rd {
  const uint8_t* p; const uint8_t* lo; const uint8_t* hi;
  using iterator_category = std::forward_iterator_tag; using value_type = uint8_t; using difference_type = std::ptrdiff_t; using pointer = const uint8_t*; using reference = const uint8_t&;
  const uint8_t& operator*() const { vp_check(lo <= p && p < hi, "decode reads only inside the range"); return *p; }
  rd& operator++() { ++p; return *this; }
  rd operator++(int) { rd t = *this; ++p; return t; }
  bool operator==(rd const& o) const { return p == o.p; }
  bool operator!=(rd const& o) const { return p != o.p; }
};
template <typename T> void v03(unsigned L) {
  unsigned len = vp_pick(L + 1, "len");
  uint8_t* buf = (uint8_t*)vp_alloc(len ? len : 1, 1);
  for (unsigned i = 0; i < len; ++i) buf[i] = vp_u8("b");
  using U = typename std::make_unsigned<T>::type;
  const unsigned maxg = (width<T>() + 6) / 7;
  // reference (branch-free): the first byte without top bit ends the encoding; every group's bits must fit the type
  uint64_t term = len, found = 0;
  for (unsigned i = len; i-- > 0;) { uint64_t stop = !(buf[i] & 0x80); term = sel<uint64_t>(stop, i, term); found |= stop; }
  uint64_t fits_ = found & (uint64_t)(term < maxg), num = 0;
  for (unsigned i = 0; i < len && i < maxg; ++i) {
    uint64_t in = i <= term, g = sel<uint64_t>(in, buf[i] & 0x7f, 0);
    unsigned sh = 7 * i;
    if (sh + 7 > width<T>()) fits_ &= (g >> (width<T>() - sh)) == 0;   // bits beyond the type's width
    num |= g << sh;
  }
  bool fits = fits_;
  T expect = 0;
  if (std::is_signed<T>::value) { U u = (U)num; expect = (T)sel<uint64_t>(u & 1, (uint64_t)(int64_t)(T)(-(T)(u >> 1) - 1), (uint64_t)(u >> 1)); }
  else expect = (T)num;
  T out = vp_any<T>("old");
  rd b{buf, buf, buf + len}, e{buf + len, buf, buf + len};
  rd r = varint::decode(out, b, e);
  if (fits) {
    vp_conc(term);
    vp_check(r.p == buf + term + 1, "success returns the position after the encoding");
    vp_check(out == expect, "success returns the encoded value");
    vp_reach("accept");
  } else {
    vp_check(r.p == buf, "truncated, over-long or too wide input returns begin");
    vp_reach("reject");
  }
  // the same through raw pointers (bounds enforced by the storage object)
  T out2 = 0; const uint8_t* q = varint::decode(out2, (const uint8_t*)buf, (const uint8_t*)buf + len);
  vp_check(q == r.p, "pointer and iterator decoding agree");
  if (fits) vp_check(out2 == expect, "pointer decoding returns the value");
}
template <typename T> void v04() {
  T v = vp_any<T>("v");
  unsigned len = vp_pick(CAP + 1, "len");
  uint8_t* buf = (uint8_t*)vp_alloc(len ? len : 1, 1);   // writes beyond len are out of bounds
  uint8_t frame[CAP + 2]; for (unsigned i = 0; i < CAP + 2; ++i) frame[i] = 0x5A;
  unsigned need = vp_conc(ref_len(ref_num(v)));
  if (len == 0) {
    uint8_t x = 0x77; uint8_t* e = varint::encode(v, &x, &x);
    vp_check(e == &x && x == 0x77, "empty range: fails and writes nothing");
    vp_reach("end"); return;
  }
  uint8_t* e = varint::encode(v, buf, buf + len);
  uint8_t* f = varint::encode(v, frame + 1, frame + 1 + len);
  vp_check((e != buf) == (need <= len), "succeeds exactly when the encoding fits");
  if (need <= len) {
    vp_check(e == buf + need, "returns the position after the encoding");
    vp_check((std::size_t)(e - buf) == varint::size(v), "writes size() bytes");
    for (unsigned i = 0; i < len; ++i) if (i < need) vp_check(buf[i] == ref_byte(ref_num(v), i), "writes the encoding");
    vp_reach("fits");
  } else { vp_check(e == buf, "failure returns begin"); vp_reach("toolong"); }
  vp_check(f - frame - 1 == e - buf, "same result in a framed buffer");
  vp_check(frame[0] == 0x5A, "nothing is written before begin");
  for (unsigned i = 1 + len; i < CAP + 2; ++i) vp_check(frame[i] == 0x5A, "nothing is written at or after end");
  for (unsigned i = 0; i < len; ++i) if (need <= len && i >= need) vp_check(frame[1 + i] == 0x5A, "success writes exactly size() bytes");
  vp_reach("end");
}
template <typename S> void v05() {
  using U = typename std::make_unsigned<S>::type;
  S v = vp_any<S>("v"); U u = vp_any<U>("u");
  vp_check(varint::zig_zag_decode(varint::zig_zag_encode(v)) == v, "decode inverts encode");
  vp_check(varint::zig_zag_encode(varint::zig_zag_decode(u)) == u, "encode inverts decode");
  vp_check(varint::zig_zag_encode(v) == (U)ref_num(v), "0,-1,1,-2,... maps to 0,1,2,3,...");
  S w = vp_any<S>("w");
  // magnitude order: |v| <= |w| implies size(v) <= size(w), with magnitude of negatives counted as -v-1
  U mv = v < 0 ? (U)(-(v + 1)) : (U)v, mw = w < 0 ? (U)(-(w + 1)) : (U)w;
  if (mv < mw) vp_check(varint::zig_zag_encode(v) < varint::zig_zag_encode(w), "smaller magnitude maps to a smaller number");
  if (mv <= mw) vp_check(varint::size(v) <= varint::size(w) , "smaller magnitude never gets a longer encoding");
  vp_reach("end");
}
#define ALL(M) M(u8, uint8_t) M(u16, uint16_t) M(u32, uint32_t) M(u64, uint64_t) M(i8, int8_t) M(i16, int16_t) M(i32, int32_t) M(i64, int64_t)
#define E(n, T) VP_ENTRY h_v01_##n() { v01<T>(); } VP_ENTRY h_v02_##n() { v02<T>(); } VP_ENTRY h_v04_##n() { v04<T>(); } \
  VP_ENTRY h_v03_##n() { v03<T>(12); }
ALL(E)
VP_ENTRY h_v05_i8() { v05<int8_t>(); }
VP_ENTRY h_v05_i16() { v05<int16_t>(); }
VP_ENTRY h_v05_i32() { v05<int32_t>(); }
VP_ENTRY h_v05_i64() { v05<int64_t>(); }
VP_ENTRY h_v02w_u8() { v02w<uint8_t, uint16_t>(); v02w<uint8_t, uint64_t>(); }
VP_ENTRY h_v02w_u32() { v02w<uint16_t, uint32_t>(); v02w<uint32_t, uint64_t>(); }
VP_ENTRY h_v02w_i8() { v02w<int8_t, int16_t>(); v02w<int8_t, int64_t>(); }
VP_ENTRY h_v02w_i32() { v02w<int16_t, int32_t>(); v02w<int32_t, int64_t>(); }

// ---- V06: streams ----
template <typename A, typename B> void v06() {
  A a = vp_any<A>("a"); B b = vp_any<B>("b");
  uint8_t buf[24]; uint8_t* m = varint::encode(a, buf, buf + 24); uint8_t* e = varint::encode(b, m, buf + 24);
  vp_conc(m - buf); vp_conc(e - m);
  A x = 0; B y = 0;
  const uint8_t* p = varint::decode(x, (const uint8_t*)buf, (const uint8_t*)e);
  vp_check(p == m && x == a, "first value of a stream");
  const uint8_t* q = varint::decode(y, p, (const uint8_t*)e);
  vp_check(q == e && y == b, "second value of a stream, ending at the end");
  // cut the stream inside the second value
  std::size_t n = vp_conc(e - m);
  std::size_t cut = vp_pick((unsigned)n, "cut");
  const uint8_t* ce = m + cut;
  A x2 = 0; B y2 = 0;
  const uint8_t* p2 = varint::decode(x2, (const uint8_t*)buf, ce);
  vp_check(p2 == m && x2 == a, "values before the cut still decode");
  vp_check(varint::decode(y2, p2, ce) == p2, "the incomplete value fails");
  vp_reach("end");
}
template <typename A, typename B> void v06cb(unsigned capacity) {
  A a = vp_any<A>("a"); B b = vp_any<B>("b");
  uint8_t* mem = (uint8_t*)vp_alloc(capacity, 1);
  for (unsigned i = 0; i < capacity; ++i) mem[i] = 0;
  unsigned first = vp_pick(capacity, "first");
  embedded::circular_buffer_adapter<uint8_t> cb(mem, capacity, first, 0);
  std::size_t need = vp_conc(ref_len(ref_num(a)) + ref_len(ref_num(b)));
  vp_assume(need <= capacity);
  varint::encode(a, std::back_inserter(cb)); 
  std::size_t na = vp_conc(cb.size());
  vp_check(na == ref_len(ref_num(a)), "back inserter appends the first encoding");
  varint::encode(b, std::back_inserter(cb));
  vp_check(cb.size() == need, "back inserter appends both encodings");
  A x = 0; B y = 0;
  auto p = varint::decode(x, cb.begin(), cb.end());
  vp_check(p - cb.begin() == (std::ptrdiff_t)na, "position after the first value in the circular buffer");
  vp_check(x == a, "first value from the circular buffer");
  auto q = varint::decode(y, p, cb.end());
  vp_check(q == cb.end() && y == b, "second value from the circular buffer");
  // overwrite in place through mutable iterators with the bounded form
  A a2 = vp_any<A>("a2");
  auto r = varint::encode(a2, cb.begin(), cb.end());
  if (ref_len(ref_num(a2)) <= need) {
    vp_check(r - cb.begin() == (std::ptrdiff_t)ref_len(ref_num(a2)), "bounded encode through circular iterators");
    A x2 = 0; vp_check(varint::decode(x2, cb.begin(), cb.end()) == r && x2 == a2, "value written through circular iterators");
  } else vp_check(r == cb.begin(), "bounded encode fails if the circular range is too short");
  vp_reach("end");
}
VP_ENTRY h_v06_a() { v06<uint8_t, int16_t>(); }
VP_ENTRY h_v06_b() { v06<int32_t, uint8_t>(); }
VP_ENTRY h_v06_c() { v06<uint16_t, uint64_t>(); }
VP_ENTRY h_v06_d() { v06<int64_t, uint32_t>(); }
VP_ENTRY h_v06cb_a() { v06cb<uint8_t, uint16_t>(6); }
VP_ENTRY h_v06cb_b() { v06cb<int16_t, int8_t>(5); }
VP_ENTRY h_v06cb_c() { v06cb<uint32_t, int8_t>(8); }
