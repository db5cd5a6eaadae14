// C01..C07: circular_buffer_adapter and its iterators
#include "vp.h"
#include "embedded/circular_buffer_adapter.h"
template <typename T> using CB = embedded::circular_buffer_adapter<T>;
using std::size_t;
#ifndef MAXC
#define MAXC 4
#endif

// ---- reference: a deque as an array with a count, without any wrapping ----
template <typename T> struct model {
  T v[MAXC + 4]; size_t n;
  void push_back(T x) { for (unsigned i = 0; i < MAXC + 4; ++i) v[i] = sel<T>(i == n, x, v[i]); ++n; }
  void push_front(T x) { for (unsigned i = MAXC + 3; i > 0; --i) v[i] = v[i - 1]; v[0] = x; ++n; }
  void pop_back(size_t k = 1) { n -= k; }
  void pop_front(size_t k = 1) {
    for (unsigned r = 0; r < MAXC; ++r) { bool on = r < k; for (unsigned i = 0; i + 1 < MAXC + 4; ++i) v[i] = sel<T>(on, v[i + 1], v[i]); }
    n -= k;
  }
  void set(size_t p, T x) { for (unsigned i = 0; i < MAXC + 4; ++i) v[i] = sel<T>(i == p, x, v[i]); }
};
template <typename T> struct setup {
  unsigned cap; T* mem; size_t first, count; model<T> m;
  explicit setup(unsigned lo = 1, unsigned hi = MAXC) {
    cap = lo + vp_pick(hi - lo + 1, "cap");
    mem = (T*)vp_alloc(cap * sizeof(T), alignof(T));
    for (unsigned i = 0; i < cap; ++i) mem[i] = vp_any<T>("mem");
    first = vp_u8("first"); vp_assume(first < cap);
    count = vp_u8("count"); vp_assume(count <= cap);
    for (unsigned i = 0; i < MAXC + 4; ++i) m.v[i] = i < cap ? mem[slot(i)] : T(0);
    m.n = count;
  }
  size_t slot(size_t i) const { size_t s = first + i; return sel<size_t>(s >= cap, s - cap, s); }   // i <= cap
};

// everything a user can observe of the queue, at one arbitrary index
template <typename A, typename T> void observe(A const& cb, model<T> const& m, unsigned cap) {
  vp_check(cb.size() == m.n, "size");
  vp_check(cb.capacity() == cap, "capacity");
  vp_check(cb.remaining() == cap - m.n, "remaining");
  vp_check(cb.empty() == (m.n == 0), "empty");
  vp_check(cb.full() == (m.n == cap), "full");
  vp_check((cb.begin() == cb.end()) == (m.n == 0), "begin() == end() exactly when empty");
  size_t i = vp_u64("idx");
  if (i >= m.n) { vp_reach("no such index"); return; }
  vp_check(cb[i] == m.v[i], "operator[]");
  vp_check(*(cb.begin() + i) == m.v[i], "*(begin()+i)");
  vp_check(cb.front() == m.v[0], "front");
  vp_check(cb.back() == m.v[m.n - 1], "back");
  vp_reach("observed");
}
const unsigned NOPS = 18;
template <typename A, typename T> void op(A& cb, model<T>& m, unsigned cap, unsigned k) {
  T x = vp_any<T>("x");
  if (k < 8) vp_assume(m.n < cap);
  switch (k) {
    case 0: cb.push_back(static_cast<T const&>(x)); m.push_back(x); break;
    case 1: cb.push_back(std::move(x)); m.push_back(x); break;
    case 2: { auto& r = cb.emplace_back(x); m.push_back(x); vp_check(&r == &cb.back(), "emplace_back returns the new element"); break; }
    case 3: cb.push_front(static_cast<T const&>(x)); m.push_front(x); break;
    case 4: cb.push_front(std::move(x)); m.push_front(x); break;
    case 5: { auto& r = cb.emplace_front(x); m.push_front(x); vp_check(&r == &cb.front(), "emplace_front returns the new element"); break; }
    case 6: case 7: {     // an element of the queue itself is pushed
      size_t i = vp_u8("src"); vp_assume(i < m.n); T y = m.v[i];
      if (k == 6) { cb.push_back(cb[i]); m.push_back(y); } else { cb.push_front(cb[i]); m.push_front(y); }
      break; }
    case 8: vp_assume(m.n > 0); cb.pop_front(); m.pop_front(); break;
    case 9: vp_assume(m.n > 0); cb.pop_back(); m.pop_back(); break;
    case 10: { size_t c = vp_u64("cnt"); vp_assume(c <= m.n); cb.pop_front(c); m.pop_front(c); break; }
    case 11: { size_t c = vp_u64("cnt"); vp_assume(c <= m.n); cb.pop_back(c); m.pop_back(c); break; }
    case 12: cb.clear(); m.n = 0; break;
    case 13: { size_t i = vp_u64("wi"); vp_assume(i < m.n); cb[i] = x; m.set(i, x); break; }
    case 14: vp_assume(m.n > 0); cb.front() = x; m.set(0, x); break;
    case 15: vp_assume(m.n > 0); cb.back() = x; m.set(m.n - 1, x); break;
    case 16: { size_t i = vp_u64("wi"); vp_assume(i < m.n); *(cb.begin() + i) = x; m.set(i, x); break; }
    case 17: { size_t i = vp_u64("wi"); vp_assume(i < m.n); cb.at(i) = x; m.set(i, x); break; }
  }
}
template <typename T> void c01(unsigned steps, unsigned lo, unsigned hi) {
  setup<T> s(lo, hi);
  CB<T> cb(s.mem, s.cap, s.first, s.count);
  static const char* const N[] = {"op1", "op2", "op3"};
  for (unsigned k = 0; k < steps; ++k) op(cb, s.m, s.cap, vp_pick(NOPS, N[k]));
  observe(cb, s.m, s.cap);
}
VP_ENTRY h_c01_s1() { c01<uint16_t>(1, 1, MAXC); }
VP_ENTRY h_c01_s2() { c01<uint16_t>(2, 1, MAXC); }
VP_ENTRY h_c01_s3() { c01<uint16_t>(3, 1, 3); }
VP_ENTRY h_c01_u8() { c01<uint8_t>(1, 1, MAXC); }
VP_ENTRY h_c01_u64() { c01<uint64_t>(1, 1, MAXC); }
// read-only adapter and constructor forms see the same queue
VP_ENTRY h_c01_ctor() {
  { CB<uint16_t> d; vp_check(d.size() == 0 && d.capacity() == 0 && d.empty() && d.full() && d.remaining() == 0 && d.begin() == d.end() && d.cbegin() == d.cend(), "default-constructed adapter is empty with no room"); }
  setup<uint16_t> s;
  model<uint16_t> none = s.m; none.n = 0;
  switch (vp_pick(6, "form")) {
    case 0: { CB<uint16_t> a(s.mem, s.cap); observe(a, none, s.cap); break; }
    case 1: { CB<uint16_t> a(s.mem, s.mem + s.cap); observe(a, none, s.cap); break; }
    case 2: { CB<uint16_t> a(s.mem, s.mem + s.cap, s.mem + s.first, s.count); observe(a, s.m, s.cap); break; }
    case 3: { CB<uint16_t const> a(s.mem, s.cap, s.first, s.count); observe(a, s.m, s.cap); break; }
    case 4: { CB<uint16_t> a(s.mem, s.cap, s.first, s.count); CB<uint16_t> b(std::move(a)); observe(b, s.m, s.cap); break; }
    case 5: { CB<uint16_t> a(s.mem, s.cap, s.first, s.count); CB<uint16_t> b; b = std::move(a); observe(b, s.m, s.cap); break; }
  }
}

// ---- C02: frame ----
VP_ENTRY h_c02_step() {
  using T = uint16_t;
  setup<T> s; T old[MAXC]; for (unsigned i = 0; i < s.cap; ++i) old[i] = s.mem[i];
  CB<T> cb(s.mem, s.cap, s.first, s.count);
  size_t n = s.m.n, wi = 0;
  unsigned k = vp_pick(NOPS, "op1");
  model<T> m = s.m;
  // the one slot the operation may write, or none
  size_t slot = s.cap;
  T x = vp_any<T>("x");
  if (k < 6) vp_assume(n < s.cap);
  switch (k) {
    case 0: cb.push_back(static_cast<T const&>(x)); slot = s.slot(n); break;
    case 1: cb.push_back(std::move(x)); slot = s.slot(n); break;
    case 2: cb.emplace_back(x); slot = s.slot(n); break;
    case 3: cb.push_front(static_cast<T const&>(x)); slot = s.slot(s.cap - 1); break;
    case 4: cb.push_front(std::move(x)); slot = s.slot(s.cap - 1); break;
    case 5: cb.emplace_front(x); slot = s.slot(s.cap - 1); break;
    case 6: vp_assume(n > 0); (void)cb.front(); (void)cb.back(); break;
    case 7: { (void)cb.size(); (void)cb.full(); (void)cb.remaining(); for (auto e : cb) wi += e; for (auto r = cb.rbegin(); r != cb.rend(); ++r) wi += *r; break; }
    case 8: vp_assume(n > 0); cb.pop_front(); break;
    case 9: vp_assume(n > 0); cb.pop_back(); break;
    case 10: { size_t c = vp_u64("cnt"); vp_assume(c <= n); cb.pop_front(c); break; }
    case 11: { size_t c = vp_u64("cnt"); vp_assume(c <= n); cb.pop_back(c); break; }
    case 12: cb.clear(); break;
    case 13: wi = vp_u64("wi"); vp_assume(wi < n); cb[wi] = x; slot = s.slot(wi); break;
    case 14: vp_assume(n > 0); cb.front() = x; slot = s.slot(0); break;
    case 15: vp_assume(n > 0); cb.back() = x; slot = s.slot(n - 1); break;
    case 16: wi = vp_u64("wi"); vp_assume(wi < n); *(cb.begin() + wi) = x; slot = s.slot(wi); break;
    case 17: wi = vp_u64("wi"); if (wi < n) { cb.at(wi) = x; slot = s.slot(wi); } else { try { cb.at(wi) = x; vp_guard(false, "at() past the end throws"); } catch (std::out_of_range const&) {} } break;
  }
  for (unsigned j = 0; j < s.cap; ++j) vp_check(sel<size_t>(s.mem[j] == old[j], 1, j == slot), "an operation changes no slot but the one it adds or writes");
  vp_check(sel<size_t>(slot == s.cap, 1, s.mem[slot < s.cap ? slot : 0] == x), "the added or written value is in its slot");
  vp_reach("end");
}

// ---- C03: save and rebuild ----
template <typename T> void c03(unsigned lo, unsigned hi) {
  setup<T> s(lo, hi);
  CB<T> a(s.mem, s.cap, s.first, s.count);
  op(a, s.m, s.cap, vp_pick(NOPS, "op1"));
  size_t pos = a.raw_index(a.begin()), n = a.size();
  vp_check(pos < s.cap, "raw_index(begin()) is a slot");
  vp_check(a.raw_index(a.cbegin()) == pos, "raw_index of a const_iterator");
  vp_check(a.raw_index(a.cend()) == a.raw_index(a.end()), "raw_index of a const end");
  T* mem2 = (T*)vp_alloc(s.cap * sizeof(T), alignof(T));
  for (unsigned i = 0; i < s.cap; ++i) mem2[i] = s.mem[i];
  CB<T> b(mem2, s.cap, pos, n);
  model<T> m2 = s.m;
  vp_check(b.size() == n && b.raw_index(b.begin()) == pos && b.raw_index(b.end()) == a.raw_index(a.end()), "same position, size and end");
  observe(b, m2, s.cap);
}
VP_ENTRY h_c03_rebuild() { c03<uint16_t>(1, MAXC); }
// the same later operation on the original and the rebuilt adapter
VP_ENTRY h_c03_later() {
  using T = uint16_t;
  setup<T> s(1, 3);
  CB<T> a(s.mem, s.cap, s.first, s.count);
  op(a, s.m, s.cap, vp_pick(NOPS, "op1"));
  CB<T> b(s.mem, s.cap, a.raw_index(a.begin()), a.size());   // same storage: use it instead of the original
  op(b, s.m, s.cap, vp_pick(NOPS, "op2"));
  observe(b, s.m, s.cap);
}
VP_ENTRY h_c03_slots() {
  using T = uint16_t;
  setup<T> s; CB<T> a(s.mem, s.cap, s.first, s.count);
  size_t i = vp_u64("i"); vp_assume(i <= s.count);
  vp_check(a.raw_index(a.begin() + i) == s.slot(i), "raw_index is the slot of the i-th element");
  if (i < s.count) { vp_check(&a[i] == s.mem + a.raw_index(a.begin() + i), "the element lives in the slot raw_index names"); vp_reach("element"); }
  if (s.count < s.cap) {
    size_t e = a.raw_index(a.end()); a.push_back(7);
    vp_check(&a.back() == s.mem + e, "raw_index(end()) is the slot of the next push_back"); vp_reach("push");
  }
  vp_reach("end");
}

// ---- C04: iterator laws over every capacity (only addresses, no element is read) ----
struct big {   // any capacity up to 2^40, any start, any count
  size_t cap, first, n; uint8_t* mem;
#ifndef BIGBITS
#define BIGBITS 31
#endif
  static size_t num(const char* s) { return BIGBITS > 32 ? ((size_t)vp_u32(s) + ((size_t)vp_u8(s) << 32)) : BIGBITS > 16 ? vp_u32(s) : vp_u16(s); }
  big() { cap = num("cap"); vp_assume(cap > 0); vp_assume(cap <= ((size_t)1 << BIGBITS)); first = num("first"); vp_assume(first < cap); n = num("count"); vp_assume(n <= cap); mem = (uint8_t*)vp_phantom(); }
};
template <typename IT, typename MK> void laws(size_t n, MK make) {
  // make(i): iterator at position i, built from begin()
  size_t i = big::num("i"), j = big::num("j"); vp_assume(i <= n); vp_assume(j <= n);
  IT a = make(i), b = make(j);
  vp_check(a - b == (std::ptrdiff_t)(i - j), "it - it is the difference of positions");
  vp_check((a == b) == (i == j), "=="); vp_check((a != b) == (i != j), "!=");
  vp_check((a < b) == (i < j), "<"); vp_check((a > b) == (i > j), ">");
  vp_check((a <= b) == (i <= j), "<="); vp_check((a >= b) == (i >= j), ">=");
  vp_reach("compared");
}
template <typename IT, typename MK> void moves(size_t n, MK make) {
  size_t i = big::num("i"), j = big::num("j"); vp_assume(i <= n); vp_assume(j <= n);
  std::ptrdiff_t d = (std::ptrdiff_t)(j - i);
  IT a = make(i), b = make(j);
  switch (vp_pick(7, "move")) {
    case 0: vp_check(a + d == b, "it + n"); break;
    case 1: vp_check(d + a == b, "n + it"); break;
    case 2: vp_check(a - (-d) == b, "it - n"); break;
    case 3: { IT c = a; IT& r = (c += d); vp_check(c == b && &r == &c && a == make(i), "it += n"); break; }
    case 4: { IT c = a; IT& r = (c -= -d); vp_check(c == b && &r == &c, "it -= n"); break; }
    case 5: if (i < n) { IT c = a; IT& r = ++c; vp_check(c == make(i + 1) && &r == &c, "++it"); IT e = a; IT o = e++; vp_check(o == a && e == c, "it++"); } break;
    case 6: if (i > 0) { IT c = a; IT& r = --c; vp_check(c == make(i - 1) && &r == &c, "--it"); IT e = a; IT o = e--; vp_check(o == a && e == c, "it--"); } break;
  }
  vp_reach("moved");
}
#define LAWS(name, fn, EXPR, ITT) VP_ENTRY h_c04_##fn##_##name() { big s; CB<uint8_t> cb(s.mem, s.cap, s.first, s.n); using C = CB<uint8_t>; fn<C::ITT>(s.n, [&](size_t k) { return EXPR; }); }
LAWS(mut, laws, cb.begin() + (std::ptrdiff_t)k, iterator)
LAWS(mut, moves, cb.begin() + (std::ptrdiff_t)k, iterator)
LAWS(mute, laws, cb.end() - (std::ptrdiff_t)(s.n - k), iterator)
LAWS(const, laws, cb.cbegin() + (std::ptrdiff_t)k, const_iterator)
LAWS(const, moves, cb.cbegin() + (std::ptrdiff_t)k, const_iterator)
LAWS(rev, laws, cb.rbegin() + (std::ptrdiff_t)k, reverse_iterator)
LAWS(rev, moves, cb.rbegin() + (std::ptrdiff_t)k, reverse_iterator)
LAWS(crev, laws, cb.crbegin() + (std::ptrdiff_t)k, const_reverse_iterator)
LAWS(crev, moves, cb.crbegin() + (std::ptrdiff_t)k, const_reverse_iterator)
VP_ENTRY h_c04_slots() {    // element addresses and raw_index for every capacity
  big s; CB<uint8_t> cb(s.mem, s.cap, s.first, s.n);
  size_t i = vp_u64("i"); vp_assume(i <= s.n);
  size_t t = s.first + i, slot = t >= s.cap ? t - s.cap : t;
  auto it = cb.begin() + (std::ptrdiff_t)i; 
  vp_check(cb.raw_index(it) == slot, "raw_index");
  vp_check(cb.raw_index(CB<uint8_t>::const_iterator(it)) == slot, "raw_index (const)");
  vp_check((it == cb.end()) == (i == s.n), "end() is position size()");
  vp_check(cb.size() == s.n && cb.capacity() == s.cap && cb.remaining() == s.cap - s.n && cb.full() == (s.n == s.cap) && cb.empty() == (s.n == 0), "observers");
  if (i < s.n) {
    vp_check(&*it == s.mem + slot && &cb[i] == s.mem + slot && &cb.at(i) == s.mem + slot && it.operator->() == s.mem + slot, "address of the i-th element");
    vp_check(&cb.front() == s.mem + s.first, "address of front");
    size_t u = s.first + s.n - 1; vp_check(&cb.back() == s.mem + (u >= s.cap ? u - s.cap : u), "address of back");
    vp_reach("element");
  }
  vp_reach("end");
}
// dereferencing, indexing and traversal on real storage
template <typename T, typename A> void c04_walk(A const& cb, setup<T> const& s) {
  unsigned kind = vp_pick(8, "kind");
  size_t n = s.count, p = 0;
  if (kind == 0) for (auto it = cb.begin(); it != cb.end(); ++it, ++p) { vp_check(p < n, "stops after the last item"); vp_check(*it == s.m.v[p] && *it.operator->() == s.m.v[p], "forward traversal"); }
  if (kind == 1) for (auto it = cb.cbegin(); it != cb.cend(); it++, ++p) { vp_check(p < n, "stops after the last item"); vp_check(*it == s.m.v[p], "const forward traversal"); }
  if (kind == 2) for (auto it = cb.rbegin(); it != cb.rend(); ++it, ++p) { vp_check(p < n, "stops after the last item"); vp_check(*it == s.m.v[n - 1 - p], "reverse traversal"); }
  if (kind == 3) for (auto it = cb.crbegin(); it != cb.crend(); it++, ++p) { vp_check(p < n, "stops after the last item"); vp_check(*it == s.m.v[n - 1 - p], "const reverse traversal"); }
  if (kind == 4) for (auto it = cb.end(); it != cb.begin(); ++p) { vp_check(p < n, "stops at the first item"); --it; vp_check(*it == s.m.v[n - 1 - p], "backward traversal"); }
  if (kind == 5) for (auto it = cb.cend(); it != cb.cbegin(); ++p) { vp_check(p < n, "stops at the first item"); it--; vp_check(*it == s.m.v[n - 1 - p], "const backward traversal"); }
  if (kind < 6) { vp_check(p == n, "visits every item"); vp_reach("walked"); return; }
  size_t i = vp_u64("i"), j = vp_u64("j"); vp_assume(i <= n); vp_assume(j < n);
  std::ptrdiff_t d = (std::ptrdiff_t)(j - i);
  if (kind == 6) { vp_check((cb.begin() + i)[d] == s.m.v[j], "it[n]"); vp_check((cb.cbegin() + i)[d] == s.m.v[j], "const it[n]"); }
  else { vp_check((cb.rbegin() + i)[d] == s.m.v[n - 1 - j], "reverse it[n]"); vp_check((cb.crbegin() + i)[d] == s.m.v[n - 1 - j], "const reverse it[n]"); }
  vp_reach("indexed");
}
VP_ENTRY h_c04_walk() { setup<uint16_t> s; CB<uint16_t> cb(s.mem, s.cap, s.first, s.count); c04_walk<uint16_t>(cb, s); }
VP_ENTRY h_c04_walkc() { setup<uint16_t> s; CB<uint16_t const> cb(s.mem, s.cap, s.first, s.count); c04_walk<uint16_t>(cb, s); }
VP_ENTRY h_c04_write() {
  using T = uint16_t; setup<T> s; CB<T> cb(s.mem, s.cap, s.first, s.count);
  size_t i = vp_u64("i"); vp_assume(i < s.count); T x = vp_any<T>("x");
  switch (vp_pick(4, "how")) {
    case 0: *(cb.begin() + i) = x; break;
    case 1: *(cb.rbegin() + (s.count - 1 - i)) = x; break;
    case 2: cb.begin()[i] = x; break;
    case 3: *(cb.end() - (s.count - i)).operator->() = x; break;
  }
  s.m.set(i, x); observe(cb, s.m, s.cap);
}
// mixed mutable/const iterators
VP_ENTRY h_c04_mixed() {
  big s; CB<uint8_t> cb(s.mem, s.cap, s.first, s.n); using C = CB<uint8_t>;
  size_t i = vp_u64("i"), j = vp_u64("j"); vp_assume(i <= s.n); vp_assume(j <= s.n);
  C::iterator a = cb.begin() + (std::ptrdiff_t)i; C::const_iterator b = cb.cbegin() + (std::ptrdiff_t)j;
  C::const_iterator ca(a); C::const_iterator cc(b); C::const_iterator cd; cd = a; cc = b;
  vp_check((a == b) == (i == j) && (b == a) == (i == j) && (a != b) == (i != j) && (ca == a) && (cd == a) && (cc == b), "mixed ==");
  vp_check((a < b) == (i < j) && (b < a) == (j < i) && (a <= b) == (i <= j) && (a >= b) == (i >= j) && (b > a) == (j > i), "mixed order");
  vp_check(ca - b == (std::ptrdiff_t)(i - j), "converted iterator difference");
  vp_reach("end");
}

// ---- C05: bulk copies ----
template <typename T> void c05(unsigned lo, unsigned hi) {
  setup<T> s(lo, hi); CB<T> cb(s.mem, s.cap, s.first, s.count);
  T before[MAXC]; for (unsigned i = 0; i < s.cap; ++i) before[i] = s.mem[i];
  size_t n = s.count; unsigned kind = vp_pick(6, "kind"); size_t k = vp_pick(s.cap + 1, "k");
  T* a = (T*)vp_alloc(k * sizeof(T), alignof(T));   // caller array of exactly k items
  model<T> m = s.m; T src[MAXC + 1];
  for (size_t i = 0; i < k; ++i) a[i] = src[i] = vp_any<T>("a");
  size_t lo_slot = 0, cnt = 0;      // slots that may change: cnt slots from lo_slot on
  switch (kind) {
    case 0: vp_assume(n + k <= s.cap); cb.copy_in_back((T const*)a, k); for (size_t i = 0; i < k; ++i) m.push_back(src[i]); lo_slot = n; cnt = k; break;
    case 1: vp_assume(n + k <= s.cap); cb.copy_in_front((T const*)a, k); for (size_t i = k; i-- > 0;) m.push_front(src[i]); lo_slot = s.cap - k; cnt = k; break;
    case 2: vp_assume(k <= n); cb.copy_out_front(a, k); for (size_t i = 0; i < k; ++i) vp_check(a[i] == s.m.v[i], "copy_out_front reads the first items in order"); m.pop_front(k); break;
    case 3: vp_assume(k <= n); cb.copy_out_back(a, k); for (size_t i = 0; i < k; ++i) vp_check(a[i] == s.m.v[n - k + i], "copy_out_back reads the last items in order"); m.pop_back(k); break;
    case 4: case 5: {
      size_t f = vp_u8("from"); vp_assume(f + k <= n); vp_assume(n > 0);
      auto b = cb.begin() + f;
      if (kind == 4) { cb.copy_in(b, b + k, (T const*)a); for (size_t i = 0; i < k; ++i) m.set(f + i, src[i]); lo_slot = f; cnt = k; }
      else { cb.copy_out(b, b + k, a); for (size_t i = 0; i < k; ++i) vp_check(a[i] == s.m.v[f + i], "copy_out reads exactly the designated items"); }
      break; }
  }
  if (kind == 0 || kind == 1 || kind == 4) for (size_t i = 0; i < k; ++i) vp_check(a[i] == src[i], "the caller's source array is not changed");
  for (unsigned j = 0; j < s.cap; ++j) {
    // distance of slot j from the first slot that may change, around the ring
    size_t base = s.slot(lo_slot == s.cap ? 0 : lo_slot), d = sel<size_t>(j < base, j - base + s.cap, j - base);
    vp_check(sel<size_t>(s.mem[j] == before[j], 1, d < cnt), "only the designated slots are written");
  }
  observe(cb, m, s.cap);
}
VP_ENTRY h_c05_u8() { c05<uint8_t>(1, MAXC); }
VP_ENTRY h_c05_u32() { c05<uint32_t>(1, MAXC); }
VP_ENTRY h_c05_then() {     // a bulk copy followed by any operation
  using T = uint16_t; setup<T> s(1, 3); CB<T> cb(s.mem, s.cap, s.first, s.count);
  unsigned kind = vp_pick(4, "kind"); size_t k = vp_pick(s.cap + 1, "k"), n = s.count; T a[MAXC];
  for (size_t i = 0; i < k; ++i) a[i] = vp_any<T>("a");
  if (kind < 2) vp_assume(n + k <= s.cap); else vp_assume(k <= n);
  switch (kind) {
    case 0: cb.copy_in_back((T const*)a, k); for (size_t i = 0; i < k; ++i) s.m.push_back(a[i]); break;
    case 1: cb.copy_in_front((T const*)a, k); for (size_t i = k; i-- > 0;) s.m.push_front(a[i]); break;
    case 2: cb.copy_out_front(a, k); s.m.pop_front(k); break;
    case 3: cb.copy_out_back(a, k); s.m.pop_back(k); break;
  }
  op(cb, s.m, s.cap, vp_pick(NOPS, "op2"));
  observe(cb, s.m, s.cap);
}

// ---- C06 / C07: element lifetimes and throwing constructors ----
struct boom { int v; };
static unsigned char live[MAXC];     // shadow of the storage
static uint8_t* base; static size_t bytes; static long outside, events; static bool may_throw; static unsigned thrown;
struct elem {
  uint16_t v; uint16_t pad;
  static long slot(void const* p) { size_t d = (size_t)((uint8_t const*)p - base); return d < bytes ? (long)(d / sizeof(elem)) : -1; }
  void born() { ++events; long s = slot(this); if (s >= 0) { vp_guard(!live[s], "a slot is never constructed over a live object"); live[s] = 1; } else ++outside; }
  void maybe() { if (may_throw && slot(this) >= 0) { ++thrown; throw boom{7}; } }
  elem(uint16_t x) : v(x), pad(0) { maybe(); born(); }
  elem(uint16_t x, uint16_t y) : v((uint16_t)(x + y)), pad(0) { maybe(); born(); }
  elem(elem const& o) : v(o.v), pad(0) { maybe(); check_live(&o); born(); }
  elem(elem&& o) : v(o.v), pad(0) { maybe(); check_live(&o); o.v = 0xdead; born(); }
  elem& operator=(elem const&) = default;
  ~elem() { ++events; long s = slot(this); if (s >= 0) { vp_guard(live[s], "only a live object is destroyed"); live[s] = 0; } else --outside; }
  static void check_live(elem const* p) { long s = slot(p); if (s >= 0) vp_guard(live[s], "only a live object is copied from"); }
};
struct tracked {
  unsigned cap; elem* mem; size_t first, count; uint16_t val[MAXC];
  tracked() {
    cap = 1 + vp_pick(MAXC, "cap"); mem = (elem*)vp_alloc(cap * sizeof(elem), alignof(elem)); base = (uint8_t*)mem; bytes = cap * sizeof(elem); outside = events = 0; may_throw = false; thrown = 0;
    first = vp_u8("first"); vp_assume(first < cap); count = vp_u8("count"); vp_assume(count <= cap);
    for (unsigned i = 0; i < cap; ++i) { val[i] = vp_u16("val"); uint16_t* raw = (uint16_t*)(mem + i); raw[0] = val[i]; raw[1] = 0; }
    for (unsigned i = 0; i < cap; ++i) { size_t d = sel<size_t>(i < first, i - first + cap, i - first); live[i] = d < count; }
  }
  size_t slot(size_t i) const { size_t s = first + i; return sel<size_t>(s >= cap, s - cap, s); }
};
static void pushone(CB<elem>& cb, unsigned how, elem const& c, elem& r, uint16_t x) {
  switch (how) {
    case 0: cb.push_back(c); break;
    case 1: cb.push_back(std::move(r)); break;
    case 2: cb.emplace_back(x); break;
    case 3: cb.emplace_back(x, (uint16_t)1); break;
    case 4: cb.push_front(c); break;
    case 5: cb.push_front(std::move(r)); break;
    case 6: cb.emplace_front(x); break;
    case 7: cb.emplace_front(x, (uint16_t)1); break;
  }
}
// live set after the operation: the n items from slot f on; survivors keep their value
static void check_live_set(tracked const& t, size_t f, size_t n) {
  for (unsigned i = 0; i < t.cap; ++i) { size_t d = sel<size_t>(i < f, i - f + t.cap, i - f); vp_check((live[i] != 0) == (d < n), "exactly the items of the queue are alive"); }
}
VP_ENTRY h_c06_step() {
  tracked t; CB<elem> cb(t.mem, t.cap, t.first, t.count); size_t n = t.count;
  unsigned k = vp_pick(14, "op1"); uint16_t x = vp_u16("x");
  { elem c(x), r(x); long ev = events;
    size_t f = t.first, nn = n, add = t.cap; long expect = 0;
    if (k < 8) {
      vp_assume(n < t.cap); pushone(cb, k, c, r, x); expect = 1; nn = n + 1;
      if (k < 4) add = t.slot(n); else { add = t.slot(t.cap - 1); f = add; }
    } else switch (k) {
      case 8: vp_assume(n > 0); cb.pop_front(); expect = 1; nn = n - 1; f = t.slot(1); break;
      case 9: vp_assume(n > 0); cb.pop_back(); expect = 1; nn = n - 1; break;
      case 10: { size_t c2 = vp_u8("cnt"); vp_assume(c2 <= n); cb.pop_front(c2); expect = (long)c2; nn = n - c2; f = t.slot(c2); break; }
      case 11: { size_t c2 = vp_u8("cnt"); vp_assume(c2 <= n); cb.pop_back(c2); expect = (long)c2; nn = n - c2; break; }
      case 12: cb.clear(); expect = (long)n; nn = 0; break;
      case 13: { unsigned sum = 0; for (auto const& e : cb) sum += e.v; for (auto it = cb.crbegin(); it != cb.crend(); ++it) sum += it->v; if (n) { sum += cb.front().v + cb.back().v; cb[n - 1].v = cb[n - 1].v; } (void)sum; break; }
    }
    vp_check(events - ev == expect, "one construction or destruction per added or removed item, none otherwise");
    check_live_set(t, f, nn);
    vp_check(cb.size() == nn, "size");
    for (unsigned i = 0; i < t.cap; ++i) {
      size_t d = sel<size_t>(i < f, i - f + t.cap, i - f);
      uint16_t now = ((uint16_t*)(t.mem + i))[0];
      uint16_t want = i == add ? (uint16_t)((k & 3) == 3 ? x + 1 : x) : t.val[i];
      vp_check(sel<size_t>(d < nn, now == want, 1), "live items are untouched and the new one has its value");
    }
    vp_reach("end");
  }
  vp_check(outside == 0, "no leaked temporaries");
}
VP_ENTRY h_c06_two() {
  tracked t; CB<elem> cb(t.mem, t.cap, t.first, t.count); size_t n = t.count; uint16_t x = vp_u16("x");
  elem c(x), r(x);
  static const char* const N[] = {"op1", "op2"};
  for (int q = 0; q < 2; ++q) {
    switch (vp_pick(9, N[q])) {
      case 0: vp_assume(n < t.cap); cb.push_back(c); ++n; break;
      case 1: vp_assume(n < t.cap); cb.push_front(c); ++n; break;
      case 2: vp_assume(n < t.cap); cb.emplace_back(x); ++n; break;
      case 3: vp_assume(n < t.cap); cb.emplace_front(x); ++n; break;
      case 4: vp_assume(n > 0); cb.pop_front(); --n; break;
      case 5: vp_assume(n > 0); cb.pop_back(); --n; break;
      case 6: { size_t k = vp_u8("cnt"); vp_assume(k <= n); cb.pop_front(k); n -= k; break; }
      case 7: { size_t k = vp_u8("cnt"); vp_assume(k <= n); cb.pop_back(k); n -= k; break; }
      case 8: cb.clear(); n = 0; break;
    }
  }
  vp_check(cb.size() == n, "size");
  check_live_set(t, cb.raw_index(cb.begin()), n);
  cb.clear();
  for (unsigned i = 0; i < t.cap; ++i) vp_check(!live[i], "clear destroys every item");
  vp_reach("end");
}
VP_ENTRY h_c07_at() {
  setup<uint16_t> s; CB<uint16_t> cb(s.mem, s.cap, s.first, s.count); CB<uint16_t> const& cc = cb;
  size_t i = vp_u64("i"); bool threw = false; uint16_t got = 0;
  try { got = vp_pick(2, "const") ? cc.at(i) : cb.at(i); } catch (std::out_of_range const&) { threw = true; }
  vp_check(threw == (i >= s.count), "at() throws exactly when i >= size()");
  if (!threw) { vp_check(got == s.m.v[i], "at() returns the i-th item"); vp_reach("hit"); } else vp_reach("miss");
  observe(cb, s.m, s.cap);
}
VP_ENTRY h_c07_throw() {
  tracked t; CB<elem> cb(t.mem, t.cap, t.first, t.count); size_t n = t.count; vp_assume(n < t.cap);
  uint16_t x = vp_u16("x"); elem c(x), r(x);
  size_t pos = cb.raw_index(cb.begin()), epos = cb.raw_index(cb.end());
  may_throw = true; bool caught = false;
  try { pushone(cb, vp_pick(8, "how"), c, r, x); } catch (boom const& b) { caught = b.v == 7; }
  may_throw = false;
  vp_check(caught && thrown == 1, "the exception reaches the caller");
  vp_check(cb.size() == n && cb.empty() == (n == 0) && cb.remaining() == t.cap - n && cb.raw_index(cb.begin()) == pos && cb.raw_index(cb.end()) == epos, "size and position are unchanged");
  vp_check(c.v == x && r.v == x, "the arguments are unchanged");
  check_live_set(t, t.first, n);
  for (unsigned i = 0; i < t.cap; ++i) vp_check(((uint16_t*)(t.mem + i))[0] == t.val[i] || !live[i], "items are unchanged");
  if (n) { size_t i = vp_u8("i"); vp_assume(i < n); vp_check(cb[i].v == t.val[t.slot(i)] && cb.front().v == t.val[t.slot(0)] && cb.back().v == t.val[t.slot(n - 1)], "items are still reachable"); }
  // a later push still works
  if (vp_pick(2, "end")) { cb.push_back(c); vp_check(cb.back().v == x && cb.size() == n + 1, "a later push_back works"); }
  else { cb.push_front(c); vp_check(cb.front().v == x && cb.size() == n + 1, "a later push_front works"); }
  vp_reach("end");
}

// ---- arbitrary capacity (up to 2^BIGBITS), start and count, with contents ----
// One to two operations; what element i must be is computed on positions of the original queue.
struct bigq : big {
  size_t n0;                      // items before
  long shift = 0;                 // new position 0 is old position `shift`
  struct add { long pos; uint8_t v; } adds[8]; unsigned na = 0;   // positions in the old numbering
  bigq() { n0 = n; }
  size_t slot(long i) const { long s = (long)first + i, c = (long)cap; return (size_t)(s < 0 ? s + c : s >= c ? s - c : s); }
  void put(long p, uint8_t v) { adds[na++] = add{p, v}; }
  void push_back(uint8_t v) { put(shift + (long)n, v); ++n; }
  void push_front(uint8_t v) { --shift; put(shift, v); ++n; }
  void pop_front(size_t k = 1) { shift += (long)k; n -= k; }
  void pop_back(size_t k = 1) { n -= k; }
};
static void big_op(CB<uint8_t>& cb, bigq& q, unsigned k) {
  uint8_t x = vp_u8("x");
  if (k < 4) vp_assume(q.n < q.cap);
  switch (k) {
    case 0: cb.push_back(x); q.push_back(x); break;
    case 1: cb.emplace_back(x); q.push_back(x); break;
    case 2: cb.push_front(x); q.push_front(x); break;
    case 3: cb.emplace_front(x); q.push_front(x); break;
    case 4: vp_assume(q.n > 0); cb.pop_front(); q.pop_front(); break;
    case 5: vp_assume(q.n > 0); cb.pop_back(); q.pop_back(); break;
    case 6: { size_t c = big::num("cnt"); vp_assume(c <= q.n); cb.pop_front(c); q.pop_front(c); break; }
    case 7: { size_t c = big::num("cnt"); vp_assume(c <= q.n); cb.pop_back(c); q.pop_back(c); break; }
    case 8: { size_t i = big::num("wi"); vp_assume(i < q.n); cb[i] = x; q.put(q.shift + (long)i, x); break; }
    case 9: { size_t i = big::num("wi"); vp_assume(i < q.n); *(cb.begin() + (std::ptrdiff_t)i) = x; q.put(q.shift + (long)i, x); break; }
    case 10: case 11: case 12: case 13: {
      size_t m = vp_pick(4, "k"); uint8_t a[3] = {vp_u8("a"), vp_u8("a"), vp_u8("a")};
      if (k == 10) { vp_assume(q.n + m <= q.cap); cb.copy_in_back(a, m); for (size_t i = 0; i < m; ++i) q.push_back(a[i]); }
      if (k == 11) { vp_assume(q.n + m <= q.cap); cb.copy_in_front(a, m); for (size_t i = m; i-- > 0;) q.push_front(a[i]); }
      if (k == 12) { vp_assume(m <= q.n); cb.copy_out_front(a, m); q.pop_front(m); }
      if (k == 13) { vp_assume(m <= q.n); cb.copy_out_back(a, m); q.pop_back(m); }
      break; }
  }
}
static void big_observe(CB<uint8_t>& cb, bigq const& q, uint8_t const* before, size_t j) {
  vp_check(cb.size() == q.n && cb.capacity() == q.cap && cb.remaining() == q.cap - q.n, "size, capacity, remaining");
  vp_check(cb.empty() == (q.n == 0) && cb.full() == (q.n == q.cap), "empty, full");
  if (q.n == 0) { vp_reach("now empty"); return; }
  // the element at old position j (j any position in the queue now)
  long p = q.shift + (long)j;
  uint8_t want = *before;
  for (unsigned a = 0; a < q.na; ++a) want = sel<uint8_t>(q.adds[a].pos == p, q.adds[a].v, want);
  vp_check(cb[j] == want, "operator[]");
  vp_check(*(cb.begin() + (std::ptrdiff_t)j) == want, "*(begin()+i)");
  if (j == 0) vp_check(cb.front() == want, "front");
  if (j == q.n - 1) vp_check(cb.back() == want, "back");
  vp_reach("observed");
}
static void c01_big(unsigned steps) {
  bigq q; CB<uint8_t> cb(q.mem, q.cap, q.first, q.n);
  // one arbitrary position of the final queue, in old numbering; its initial contents
  static const char* const N[] = {"op1", "op2", "op3"};
  size_t obs = big::num("slot"); vp_assume(obs < q.cap);
  uint8_t before = q.mem[obs];
  for (unsigned k = 0; k < steps; ++k) big_op(cb, q, vp_pick(14, N[k]));
  // position in the final queue of the item that lives in slot obs
  size_t f = q.slot(q.shift), j = obs >= f ? obs - f : obs - f + q.cap;
  if (q.n > 0) vp_assume(j < q.n);
  big_observe(cb, q, &before, j);
}
VP_ENTRY h_c01_big1() { c01_big(1); }
VP_ENTRY h_c01_big2() { c01_big(2); }

// frame, arbitrary capacity: one arbitrary slot, one operation
VP_ENTRY h_c02_big() {
  bigq q; CB<uint8_t> cb(q.mem, q.cap, q.first, q.n);
  size_t obs = big::num("slot"); vp_assume(obs < 2 * q.cap);   // beyond the end too: never written
  uint8_t before = q.mem[obs];
  big_op(cb, q, vp_pick(14, "op1"));
  uint8_t now = q.mem[obs]; bool may = false; uint8_t want = before;
  for (unsigned a = 0; a < q.na; ++a) { bool here = q.slot(q.adds[a].pos) == obs; may = vp_or(may, here); want = sel<uint8_t>(here, q.adds[a].v, want); }
  vp_check(now == want, "a slot changes only by the item added or written there");
  vp_reach("end");
}
// rebuild from position and size, arbitrary capacity; then one operation
static void c03_big(unsigned later) {
  bigq q; CB<uint8_t> cb(q.mem, q.cap, q.first, q.n);
  size_t obs = big::num("slot"); vp_assume(obs < q.cap);
  uint8_t before = q.mem[obs];
  big_op(cb, q, vp_pick(14, "op1"));
  size_t pos = cb.raw_index(cb.begin());
  vp_check(pos < q.cap && cb.raw_index(cb.cbegin()) == pos, "raw_index(begin()) is a slot");
  if (q.n) vp_check(&cb.front() == q.mem + pos, "raw_index(begin()) is the slot of the front item");
  CB<uint8_t> re(q.mem, q.cap, pos, cb.size());
  vp_check(re.raw_index(re.begin()) == pos && re.raw_index(re.end()) == cb.raw_index(cb.end()) && re.size() == cb.size(), "same position, size and end");
  if (later) big_op(re, q, vp_pick(14, "op2"));
  // the queue may have restarted elsewhere after clear(): positions are those of the model
  size_t f = q.slot(q.shift), j = obs >= f ? obs - f : obs - f + q.cap;
  if (q.n > 0) vp_assume(j < q.n);
  big_observe(re, q, &before, j);
}
VP_ENTRY h_c03_big() { c03_big(0); }
VP_ENTRY h_c03_big2() { c03_big(1); }
// bulk copies, arbitrary capacity, up to 9 items
VP_ENTRY h_c05_big() {
  bigq q; CB<uint8_t> cb(q.mem, q.cap, q.first, q.n);
  const unsigned M = 9; unsigned kind = vp_pick(6, "kind"); size_t k = vp_pick(M + 1, "k"), n = q.n;
  uint8_t* a = (uint8_t*)vp_alloc(k, 1); uint8_t src[M];
  for (size_t i = 0; i < k; ++i) a[i] = src[i] = vp_u8("a");
  size_t obs = big::num("slot"); vp_assume(obs < 2 * q.cap); uint8_t before = q.mem[obs];
  size_t f = 0; bool in = false;
  if (kind < 2) vp_assume(n + k <= q.cap); else vp_assume(k <= n);
  if (kind == 0) f = n;
  if (kind == 1) f = q.cap - k;
  if (kind == 3) f = n - k;
  if (kind >= 4) { f = big::num("from"); vp_assume(f + k <= n); vp_assume(n > 0); }
  uint8_t seen[M]; for (size_t i = 0; i < k; ++i) seen[i] = q.mem[q.slot((long)(f + i >= q.cap ? f + i - q.cap : f + i))];
  auto b = cb.begin() + (kind >= 4 ? (std::ptrdiff_t)f : 0);
  switch (kind) {
    case 0: cb.copy_in_back((uint8_t const*)a, k); in = true; n += k; break;
    case 1: cb.copy_in_front((uint8_t const*)a, k); in = true; n += k; break;
    case 2: cb.copy_out_front(a, k); n -= k; break;
    case 3: cb.copy_out_back(a, k); n -= k; break;
    case 4: cb.copy_in(b, b + (std::ptrdiff_t)k, (uint8_t const*)a); in = true; break;
    case 5: cb.copy_out(b, b + (std::ptrdiff_t)k, a); break;
  }
  uint8_t want = before;
  for (size_t i = 0; i < k; ++i) {
    size_t s = q.slot((long)(f + i >= q.cap ? f + i - q.cap : f + i));
    if (in) want = sel<uint8_t>(s == obs, src[i], want);
    vp_check(a[i] == (in ? src[i] : seen[i]), "the caller's array is unchanged (in) or receives the designated items in order (out)");
  }
  vp_check(q.mem[obs] == want, "exactly the designated slots receive the items in order");
  vp_check(cb.size() == n && cb.capacity() == q.cap, "size");
  size_t first = kind == 1 ? q.slot((long)(f == q.cap ? 0 : f)) : kind == 2 ? q.slot((long)k) : q.first;
  vp_check(cb.raw_index(cb.begin()) == first, "position");
  if (n) { vp_check(&cb.front() == q.mem + first, "front"); vp_check(&cb.back() == q.mem + (first + n - 1 >= q.cap ? first + n - 1 - q.cap : first + n - 1), "back"); }
  if (kind < 4 && n < q.cap) {   // the next push continues where the copy left off
    uint8_t x = vp_u8("x"), e = n ? cb.front() : x; bool back = kind == 0 || kind == 2;
    if (back) { cb.push_back(x); vp_check(cb[n] == x && cb.back() == x && cb.front() == e, "a later push_back continues at the end"); }
    else { cb.push_front(x); vp_check(cb[0] == x && cb.front() == x && (n == 0 || cb[1] == e), "a later push_front continues at the start"); }
    if (kind == 2 && n + 1 < q.cap) { uint8_t y = vp_u8("y"); cb.push_front(y); vp_check(cb.front() == y && cb[n + 1] == x && cb.size() == n + 2, "and at the other end"); }
    if (kind == 3 && n + 1 < q.cap) { uint8_t y = vp_u8("y"); cb.push_back(y); vp_check(cb.back() == y && cb[0] == x && cb.size() == n + 2, "and at the other end"); }
  }
  vp_reach("end");
}
