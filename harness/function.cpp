// F01..F06: function<>; M01: move_wrapper; L01: lock_guard
#include "vp.h"
#include "embedded/function.h"
using embedded::function;
using std::size_t;
using std::uintptr_t;

// ---- capacities and alignments ----
template <size_t C, size_t A> struct cfg { static const size_t cap = C, al = A; };
template <typename F> void configs(F f) {
  switch (vp_pick(12, "cfg")) {
    case 0: f(cfg<24, 8>{}); break;
    case 1: f(cfg<8, 8>{}); break;
    case 2: f(cfg<1, 1>{}); break;
    case 3: f(cfg<5, 1>{}); break;
    case 4: f(cfg<6, 2>{}); break;
    case 5: f(cfg<12, 4>{}); break;
    case 6: f(cfg<16, 16>{}); break;
    case 7: f(cfg<32, 32>{}); break;
    case 8: f(cfg<64, 64>{}); break;
    case 9: f(cfg<48, 16>{}); break;
    case 10: f(cfg<40, 8>{}); break;
    case 11: f(cfg<9, 8>{}); break;
  }
}
// a wrapper in storage of its own, between guard bytes
template <typename F> struct place {
  static const size_t G = 16;
  size_t off; uint8_t* raw; uint8_t g[2 * G]; F* p;
  place() {
    off = alignof(F) > G ? alignof(F) : G;
    raw = (uint8_t*)vp_alloc(off + sizeof(F) + G, alignof(F) > G ? alignof(F) : G);
    for (unsigned i = 0; i < G; ++i) { g[i] = raw[off - G + i] = vp_u8("guard"); g[G + i] = raw[off + sizeof(F) + i] = vp_u8("guard"); }
    p = reinterpret_cast<F*>(raw + off);
  }
  F& operator*() const { return *p; }
  F* operator->() const { return p; }
  bool holds(void const* q, size_t n) const { return (uintptr_t)q >= (uintptr_t)p && (uintptr_t)q + n <= (uintptr_t)p + sizeof(F); }
  void check() const { for (unsigned i = 0; i < G; ++i) vp_check(vp_and(raw[off - G + i] == g[i], raw[off + sizeof(F) + i] == g[G + i]), "nothing outside the wrapper is written"); }
};

// ---- F01: forwarding ----
static unsigned calls; static uint32_t seen; static int const* seen_ref; static void const* self_seen;
static uint32_t free_fn(uint32_t a, uint8_t b) { ++calls; seen = a; return a * 3 + b; }
struct functor { uint32_t k; uint32_t operator()(uint32_t a, uint8_t b) { ++calls; seen = a; return (a ^ k) + b; } };
struct only_move { uint32_t v; only_move(uint32_t x) noexcept : v(x) {} only_move(only_move&& o) noexcept : v(o.v) { o.v = 0xdeadbeef; } only_move& operator=(only_move&& o) noexcept { v = o.v; o.v = 0xdeadbeef; return *this; } };
struct obj { uint32_t x; uint32_t add(uint32_t y) { ++calls; return x += y; } uint32_t get(uint8_t y) const { ++calls; return x + y; } uint32_t both(uint32_t y, uint8_t z) & { ++calls; return (x ^ y) + z; } };
// move the wrapper along a chain of further wrappers, then call the last one
template <typename F, typename K> void chain(F f, K k) {
  switch (vp_pick(5, "moves")) {
    case 0: k(f); break;
    case 1: { F a(std::move(f)); k(a); break; }
    case 2: { F a; a = std::move(f); k(a); break; }
    case 3: { F a(std::move(f)); F b; b = std::move(a); F c(std::move(b)); k(c); break; }
    case 4: { F a(std::move(f)); f = std::move(a); k(f); break; }
  }
}
VP_ENTRY h_f01_value() {
  calls = 0; uint32_t a = vp_u32("a"), k = vp_u32("k"), l = vp_u32("l"); uint8_t b = vp_u8("b");
  unsigned kind = vp_pick(6, "kind"); configs([&](auto c) {
    using F = function<uint32_t(uint32_t, uint8_t), decltype(c)::cap, decltype(c)::al>;
    const size_t C = decltype(c)::cap, A = decltype(c)::al;
    uint32_t want = 0; unsigned n = 1;
    auto call = [&](F& f) { vp_check((bool)f, "holds a target"); uint32_t r = f(a, b); vp_check(r == want, "the result is returned unchanged"); vp_check(calls == n, "exactly one invocation");
      uint32_t r2 = f(a, b); vp_check(r2 == want && calls == 2 * n, "again"); vp_reach("called"); };
    if constexpr (C >= 8 && A % 8 == 0) {
      if (kind == 0) { want = a * 3 + b; chain(F(&free_fn), call); vp_check(seen == a, "argument"); return; }
      if (kind == 1) { want = a * 3 + b; F f(free_fn); chain(std::move(f), call); return; }
      if (kind == 2) { uint32_t x = k; want = a + b + x; auto lam = [&x](uint32_t p, uint8_t q) { ++calls; return p + q + x; }; F f; f = lam; chain(std::move(f), call); return; }
    }
    if constexpr (C >= 4 && A % 4 == 0) {
      if (kind == 3) { functor t{k}; want = (a ^ k) + b; chain(F(t), call); return; }
      if (kind == 4) { functor t{k}; want = (a ^ k) + b; F f; f = std::move(t); chain(std::move(f), call); return; }
    }
    if constexpr (C >= 24 && A % 8 == 0) {
      if (kind == 5) { uint64_t y = l; want = (uint32_t)(k + y + a - b); chain(F([k, y, pp = &calls](uint32_t p, uint8_t q) mutable { ++*pp; return (uint32_t)(k + y + p - q); }), call); return; }
    }
    if (kind == 0) { n = 0; want = a + b; chain(F([](uint32_t p, uint8_t q) { return p + q; }), call); }
  });
}
VP_ENTRY h_f01_capture() {     // every byte of a captured state takes part, whatever the configuration
  configs([&](auto c) {
    const size_t C = decltype(c)::cap, A = decltype(c)::al;
    struct alignas(A) st { uint8_t b[A > C ? 1 : (C / A) * A]; uint32_t operator()(uint32_t i) { return b[i]; } };
    if constexpr (sizeof(st) <= C) {
      st s; for (auto& x : s.b) x = vp_u8("s");
      using F = function<uint32_t(uint32_t), C, A>;
      uint32_t i = vp_pick(sizeof(s.b), "i");
      chain(F(s), [&](F& f) { vp_check(f(i) == s.b[i], "captured state reaches the call"); vp_reach("called"); });
    }
  });
}
VP_ENTRY h_f01_refs() {
  uint32_t v = vp_u32("v"), w = vp_u32("w"); calls = 0;
  switch (vp_pick(8, "kind")) {
    case 0: { using F = function<uint32_t&(uint32_t&)>; uint32_t x = v; chain(F([](uint32_t& r) -> uint32_t& { ++calls; r += 1; return r; }), [&](F& f) { uint32_t& r = f(x); vp_check(&r == &x && x == v + 1 && calls == 1, "lvalue references stay references"); }); break; }
    case 1: { using F = function<only_move(only_move)>; only_move m(v); chain(F([w](only_move q) { ++calls; q.v ^= w; return q; }), [&](F& f) { only_move r = f(std::move(m)); vp_check(r.v == (v ^ w) && calls == 1, "move-only arguments and results are moved through"); }); break; }
    case 2: { using F = function<uint32_t(only_move&&)>; only_move m(v); void const* at = nullptr; chain(F([&at](only_move&& q) { ++calls; at = &q; return q.v; }), [&](F& f) { uint32_t r = f(std::move(m)); vp_check(r == v && at == &m && m.v == v && calls == 1, "rvalue references stay references"); }); break; }
    case 3: { using F = function<void const*(uint32_t const&)>; uint32_t x = v; chain(F([](uint32_t const& r) { ++calls; return (void const*)&r; }), [&](F& f) { vp_check(f(x) == &x && calls == 1, "const references stay references"); }); break; }
    case 4: { using F = function<void(uint32_t, uint32_t*)>; uint32_t out = 0; chain(F([w](uint32_t q, uint32_t* o) { ++calls; *o = q - w; }), [&](F& f) { f(v, &out); vp_check(out == v - w && calls == 1, "void result"); }); break; }
    case 5: { using F = function<uint32_t&()>; functor t{v}; chain(F([&t]() -> uint32_t& { ++calls; return t.k; }), [&](F& f) { uint32_t& r = f(); r ^= w; vp_check(t.k == (v ^ w) && calls == 1, "reference results"); }); break; }
    case 6: { using F = function<uint64_t(uint8_t, uint16_t, uint32_t, uint64_t, int8_t)>; uint64_t q = vp_u64("q"); int8_t s = (int8_t)vp_u8("s");
      chain(F([](uint8_t a, uint16_t b, uint32_t c, uint64_t d, int8_t e) { ++calls; return (uint64_t)a * 3 + (uint64_t)b * 5 + c * 7ull + d * 11 + (uint64_t)(int64_t)e; }),
        [&](F& f) { vp_check(f((uint8_t)v, (uint16_t)w, v, q, s) == (uint64_t)(uint8_t)v * 3 + (uint64_t)(uint16_t)w * 5 + v * 7ull + q * 11 + (uint64_t)(int64_t)s && calls == 1, "argument order"); }); break; }
    case 7: { using F = function<int64_t(int8_t)>; int8_t s = (int8_t)vp_u8("s"); chain(F([](int32_t x) -> int16_t { ++calls; return (int16_t)(x * 2); }), [&](F& f) { vp_check(f(s) == s * 2 && calls == 1, "argument and result conversions"); }); break; }
  }
  vp_reach("end");
}
VP_ENTRY h_f01_members() {
  calls = 0; uint32_t x = vp_u32("x"), y = vp_u32("y"); uint8_t z = vp_u8("z"); obj o{x};
  switch (vp_pick(9, "kind")) {
    case 0: { using F = function<uint32_t(obj&, uint32_t)>; chain(F(&obj::add), [&](F& f) { vp_check(f(o, y) == x + y && o.x == x + y && calls == 1, "member function on a reference"); }); break; }
    case 1: { using F = function<uint32_t(obj*, uint32_t)>; chain(F(&obj::add), [&](F& f) { vp_check(f(&o, y) == x + y && o.x == x + y && calls == 1, "member function on a pointer"); }); break; }
    case 2: { using F = function<uint32_t(obj const&, uint8_t)>; chain(F(&obj::get), [&](F& f) { vp_check(f(o, z) == x + z && calls == 1, "const member function"); }); break; }
    case 3: { using F = function<uint32_t&(obj&)>; chain(F(&obj::x), [&](F& f) { uint32_t& r = f(o); vp_check(&r == &o.x, "data member by reference"); r = y; vp_check(o.x == y, "written"); }); break; }
    case 4: { using F = function<uint32_t(obj const*)>; chain(F(&obj::x), [&](F& f) { vp_check(f(&o) == x, "data member through a pointer"); }); break; }
    case 5: { using F = function<uint32_t(obj, uint8_t)>; chain(F(&obj::get), [&](F& f) { vp_check(f(o, z) == x + z && calls == 1 && o.x == x, "object by value"); }); break; }
    case 6: { using F = function<uint32_t(obj&, uint32_t, uint8_t)>; F f; f = &obj::both; chain(std::move(f), [&](F& g) { vp_check(g(o, y, z) == (x ^ y) + z && calls == 1, "assigned member function pointer"); }); break; }
    case 7: { using F = function<uint32_t(obj&), 16, 8>; F f([](obj&) { return 0u; }); f = &obj::x; chain(std::move(f), [&](F& g) { vp_check(g(o) == x, "assigned data member pointer replaces the target"); }); break; }
    case 8: { functor t{x}; using F = function<uint32_t(uint32_t, uint8_t)>; chain(F(std::ref(t)), [&](F& f) { vp_check(f(y, z) == (y ^ x) + z && calls == 1, "reference wrapper calls the original"); t.k = 0; vp_check(f(y, z) == y + z, "not a copy"); }); break; }
  }
  vp_reach("end");
}
VP_ENTRY h_f01_state() {       // the target keeps its state between calls and across moves
  uint32_t v = vp_u32("v"), d = vp_u32("d");
  using F = function<uint32_t(uint32_t)>;
  F f([v](uint32_t q) mutable { v += q; return v; });
  vp_check(f(d) == v + d, "first call");
  chain(std::move(f), [&](F& g) { vp_check(g(d) == v + d + d, "second call, moved"); vp_check(g(1) == v + d + d + 1, "third call"); vp_reach("called"); });
}

VP_ENTRY h_f01_again() {       // a call made while a call of the same wrapper is in progress
  uint32_t v = vp_u32("v"), d = vp_u32("d"), e = vp_u32("e");
  switch (vp_pick(4, "kind")) {
    case 0: { using F = function<uint32_t(uint32_t)>; F* self = nullptr; unsigned depth = 0, held = 0; unsigned const most = vp_pick(4, "depth");
      struct rec { F** self; unsigned* depth; unsigned* held; unsigned most; } r{&self, &depth, &held, most}; rec* pr = &r;
      chain(F([pr](uint32_t q) -> uint32_t { *pr->held += (bool)**pr->self; if (*pr->depth == pr->most) return q; ++*pr->depth; uint32_t n = (**pr->self)(q * 3 + *pr->depth); return n ^ q; }), [&](F& f) {
        self = &f; for (unsigned round = 0; round < 2; ++round) { depth = held = 0; uint32_t q[5]; q[0] = v; for (unsigned i = 1; i <= most; ++i) q[i] = q[i - 1] * 3 + i;
          uint32_t want = q[most]; for (unsigned i = most; i-- > 0;) want ^= q[i];
          vp_check(f(v) == want && depth == most, "every nested call is forwarded"); vp_check(held == most + 1 && (bool)f, "the wrapper holds its target during the call too"); } }); break; }
    case 1: { using F = function<void(uint32_t)>; struct rec { F* self; uint32_t sum; unsigned n; } r{nullptr, v, 0};
      chain(F([p = &r](uint32_t q) { ++p->n; p->sum += q; if (p->n % 3) (*p->self)(q ^ p->n); }), [&](F& f) { r.self = &f; f(d); vp_check(r.n == 3 && r.sum == v + d + (d ^ 1) + (d ^ 1 ^ 2), "nested calls without a result"); f(e); vp_check(r.n == 6 && (bool)f, "and again"); }); break; }
    case 2: { using F = function<uint32_t(uint32_t)>; F g; F* one = nullptr; unsigned n = 0;      // two wrappers that call each other
      chain(F([&g, &n](uint32_t q) { ++n; return q < 5 ? q + 100 : g(q / 2) + 1; }), [&](F& f) { one = &f; g = [&one, &n](uint32_t q) { ++n; return q < 5 ? q + 200 : (*one)(q / 2) ^ 1; };
        uint32_t q = v & 31, w = q < 5 ? q + 100 : (q / 2 < 5 ? q / 2 + 200 : (q / 4 < 5 ? q / 4 + 100 : (q / 8 + 200) + 1) ^ 1) + 1; vp_check(f(q) == w, "two wrappers calling each other"); }); break; }
    case 3: { using F = function<uint32_t(uint32_t)>; F g([d](uint32_t q) { return q + d; }); bool empty = false;   // a target that moves another wrapper in the middle
      chain(F([&g, &empty, e](uint32_t q) { F h(std::move(g)); empty = !g; uint32_t r = h(q); g = std::move(h); return r ^ e; }), [&](F& f) { vp_check(f(v) == ((v + d) ^ e) && empty && (bool)g, "a wrapper moved during a call of another one"); vp_check(f(d) == ((d + d) ^ e), "and again"); }); break; }
  }
  vp_reach("end");
}

// ---- F02: ownership ----
struct shadow { void const* at[32]; bool live[32]; unsigned n; unsigned created, dead;
  int find(void const* p) const { for (unsigned i = 0; i < n; ++i) if (at[i] == p) return (int)i; return -1; }
  void born(void const* p) { ++created; int i = find(p); if (i < 0) { i = (int)n++; at[i] = p; } else vp_guard(!live[i], "never constructed over a live object"); live[i] = true; }
  void die(void const* p) { ++dead; int i = find(p); vp_guard(i >= 0 && live[i], "destroyed exactly once"); live[i] = false; }
  void use(void const* p) const { int i = find(p); vp_guard(i >= 0 && live[i], "only live objects are used"); }
  unsigned alive() const { unsigned c = 0; for (unsigned i = 0; i < n; ++i) c += live[i]; return c; } };
static shadow sh;
struct tgt { uint32_t v;
  explicit tgt(uint32_t x) noexcept : v(x) { sh.born(this); }
  tgt(tgt const& o) noexcept : v(o.v) { sh.use(&o); sh.born(this); }
  tgt(tgt&& o) noexcept : v(o.v) { sh.use(&o); o.v = 0xdeadbeef; sh.born(this); }
  ~tgt() { sh.die(this); }
  uint32_t operator()(uint32_t q) { sh.use(this); v += q; return v; } };
struct tgt2 { uint64_t pad; uint32_t v;        // another type in the same wrapper
  explicit tgt2(uint32_t x) noexcept : pad(0x1122334455667788ull), v(x) { sh.born(this); }
  tgt2(tgt2&& o) noexcept : pad(o.pad), v(o.v) { sh.use(&o); o.v = 0xdeadbeef; o.pad = 0; sh.born(this); }
  ~tgt2() { sh.die(this); }
  uint32_t operator()(uint32_t q) { sh.use(this); v ^= q; return pad == 0x1122334455667788ull ? v : ~v; } };
static void f02_seq(unsigned steps) {
  using F = function<uint32_t(uint32_t)>;
  sh = shadow{};
  struct hold { bool full; unsigned type; uint32_t v; } s[2] = {{false, 0, 0}, {false, 0, 0}};
  { F w0, w1; F* w[2] = {&w0, &w1};
    static const char* const N[] = {"op1", "op2", "op3", "op4"};
    for (unsigned k = 0; k < steps; ++k) {
      unsigned op = vp_pick(19, N[k]); unsigned i = op & 1, j = 1 - i; uint32_t x = vp_u32("x"); unsigned dead = sh.dead, alive = sh.alive();
      switch (op >> 1) {
        case 0: *w[i] = tgt(x); s[i] = {true, 0, x}; break;
        case 1: { tgt t(x); *w[i] = t; vp_check(t.v == x, "an lvalue target is copied"); s[i] = {true, 0, x}; break; }
        case 2: *w[i] = tgt2(x); s[i] = {true, 1, x}; break;
        case 3: *w[i] = std::move(*w[j]); s[i] = s[j]; s[j].full = false; break;
        case 4: *w[i] = nullptr; if (s[i].full) vp_check(sh.dead >= dead + 1 && sh.alive() == alive - 1, "clearing destroys the target before it returns"); s[i].full = false; break;
        case 5: if (s[i].full) { uint32_t r = (*w[i])(x); s[i].v = s[i].type ? s[i].v ^ x : s[i].v + x; vp_check(r == s[i].v, "the held target runs with its state"); } break;
        case 6: { F t(std::move(*w[i])); vp_check(!*w[i], "moved from"); if (s[i].full) { uint32_t r = t(x); s[i].v = s[i].type ? s[i].v ^ x : s[i].v + x; vp_check(r == s[i].v, "state moved along"); } *w[i] = std::move(t); break; }
        case 7: w[i]->~F(); new (w[i]) F(tgt(x)); s[i] = {true, 0, x}; break;
        case 8: if (i) { F& self = w0; w0 = std::move(self); vp_check((bool)w0 == s[0].full, "self-assignment keeps the target"); } else { std::swap(w0, w1); std::swap(s[0], s[1]); } break;
        case 9: { tgt const t(x); *w[0] = t; s[0] = {true, 0, x}; break; }
      }
      vp_check((bool)w0 == s[0].full && (bool)w1 == s[1].full, "emptiness follows the moves");
      vp_check(sh.alive() == (unsigned)s[0].full + (unsigned)s[1].full, "one live target per full wrapper");
    }
    uint32_t q = vp_u32("q");
    for (unsigned i = 0; i < 2; ++i) if (s[i].full) { vp_check((*w[i])(q) == (s[i].type ? s[i].v ^ q : s[i].v + q), "each wrapper holds its own target"); vp_reach("full"); }
  }
  vp_check(sh.alive() == 0 && sh.created == sh.dead, "every object is destroyed exactly once");
  vp_reach("end");
}
VP_ENTRY h_f02_2() { f02_seq(2); }
VP_ENTRY h_f02_3() { f02_seq(3); }
VP_ENTRY h_f02_4() { f02_seq(4); }
// targets whose relocation is not a copy of their bytes, or that tell a copy from a move
struct selfp { uint32_t v; selfp* me; explicit selfp(uint32_t x) noexcept : v(x), me(this) {} selfp(selfp const& o) noexcept : v(o.v), me(this) {} selfp(selfp&& o) noexcept : v(o.v), me(this) { o.v = 0xdeadbeef; o.me = nullptr; }
  uint32_t operator()(uint32_t q) { me->v += q; return me == this ? v : ~v; } };
struct selfd : selfp { using selfp::selfp; selfd(selfd&&) = default; ~selfd() { me = nullptr; v = 0xdeadbeef; } };
static unsigned copies, transfers;
struct counted { uint32_t v; explicit counted(uint32_t x) noexcept : v(x) {} counted(counted const& o) noexcept : v(o.v) { ++copies; } counted(counted&& o) noexcept : v(o.v) { ++transfers; o.v = 0xdeadbeef; } uint32_t operator()(uint32_t q) { v += q; return v; } };
struct mutcopy { uint32_t v; explicit mutcopy(uint32_t x) noexcept : v(x) {} mutcopy(mutcopy& o) noexcept : v(o.v) {} mutcopy(mutcopy const& o) noexcept : v(o.v ^ 0x55) {} mutcopy(mutcopy&& o) noexcept : v(o.v) { o.v = 0; } uint32_t operator()(uint32_t q) { v += q; return v; } };
VP_ENTRY h_f02_kinds() {
  uint32_t v = vp_u32("v"), q = vp_u32("q"), r = vp_u32("r"); copies = transfers = 0; unsigned made = 0;
  auto use = [&](auto& f) { vp_check((bool)f, "holds its target"); vp_check(f(q) == v + q && f(r) == v + q + r, "the target arrives with its state"); vp_reach("called"); };
  using F = function<uint32_t(uint32_t)>; using G = function<uint32_t(uint32_t), 64, 16>;
  switch (vp_pick(10, "kind")) {
    case 0: { selfp t(v); chain(F(t), use); vp_check(t.v == v && t.me == &t, "an lvalue target is copied"); break; }
    case 1: { selfp t(v); chain(G(std::move(t)), use); break; }
    case 2: chain(F(selfd(v)), use); break;
    case 3: { F f; f = selfd(v); F g(selfp(1)); g = std::move(f); vp_check(!f, "moved from"); use(g); break; }
    case 4: { counted t(v); F f(t); made = copies; chain(std::move(f), use); vp_check(made == 1 && copies == 1, "moves of the wrapper never copy the target"); break; }
    case 5: { chain(F(counted(v)), use); vp_check(copies == 0, "an rvalue target is never copied"); break; }
    case 6: { F f; counted t(v); f = std::move(t); chain(std::move(f), use); vp_check(copies == 0, "an assigned rvalue target is never copied"); break; }
    case 7: { uint8_t b = (uint8_t)v; v = b; auto t = [b](uint32_t x) mutable { static_assert(sizeof(b) == 1, ""); b = (uint8_t)b; return b + x; }; using H = function<uint32_t(uint32_t), 1, 1>; chain(H(t), [&](H& f) { vp_check(f(q) == v + q && f(r) == v + r, "smallest storage"); vp_reach("called"); }); break; }
    case 8: { mutcopy t(v); F f(t); use(f); break; }
    case 9: { F a{selfp(v)}, b{selfd(v)}; std::swap(a, b); F c(std::move(a)); use(c); chain(std::move(b), use); break; }
  }
}
VP_ENTRY h_f02_cfg() {        // moves of a counted target in every configuration
  configs([&](auto c) {
    const size_t C = decltype(c)::cap, A = decltype(c)::al;
    if constexpr (C >= 4 && A >= 4) {
      sh = shadow{}; uint32_t v = vp_u32("v");
      { using F = function<uint32_t(uint32_t), C, A>;
        F a{tgt(v)}; vp_check(sh.alive() == 1, "one target");
        F b(std::move(a)); vp_check(sh.alive() == 1 && !a && b, "moved by construction");
        F d; d = std::move(b); vp_check(sh.alive() == 1 && !b && d, "moved by assignment");
        vp_check(d(1) == v + 1, "state"); 
        d = tgt(v + 9); vp_check(sh.alive() == 1 && d(0) == v + 9, "replaced");
        if (vp_pick(2, "clear")) { d = nullptr; vp_check(sh.alive() == 0 && !d, "cleared"); } }
      vp_check(sh.alive() == 0 && sh.created == sh.dead, "every object is destroyed exactly once"); vp_reach("end");
    }
  });
}

// ---- F03: empty wrappers ----
static unsigned f03_side;
VP_ENTRY h_f03() {
  f03_side = 0; unsigned how = vp_pick(12, "how"); configs([&](auto c) {
    const size_t C = decltype(c)::cap, A = decltype(c)::al;
    using F = function<uint32_t(uint32_t), C, A>;
    uint32_t v = vp_u32("v");
    auto small = [](uint32_t q) { ++f03_side; return q ^ 5; };
    F f; F other;
    uint32_t (obj::*pm)(uint32_t) = nullptr; uint32_t obj::*pd = nullptr; (void)pm; (void)pd;
    switch (how) {
      case 0: break;
      case 1: { F g(nullptr); vp_check(!g, "built from nullptr"); f = std::move(g); break; }
      case 2: f = small; vp_check((bool)f, "holds a target"); f = nullptr; break;
      case 3: f = small; { F g(std::move(f)); vp_check((bool)g && g(v) == (v ^ 5), "the target moved"); } break;
      case 4: f = small; { F g; g = std::move(f); vp_check((bool)g && g(v) == (v ^ 5), "the target moved"); } break;
      case 5: f = small; f = F(); break;
      case 6: f = small; f = std::move(other); break;
      case 7: f = nullptr; f = nullptr; break;
      case 8: { F g; f = std::move(g); F h(std::move(f)); vp_check(!h, "moving an empty wrapper gives an empty one"); break; }
      case 9: case 10: case 11: break;
    }
    f03_side = 0;
    bool threw = false;
    vp_check(!f, "empty"); vp_check(!other, "empty");
    try { f(v); } catch (std::bad_function_call const&) { threw = true; }
    vp_check(threw && f03_side == 0, "calling an empty wrapper throws bad_function_call and invokes nothing");
    vp_check(!f, "still empty");
    threw = false; try { f(v); } catch (std::bad_function_call const&) { threw = true; } vp_check(threw, "throws again");
    f = small; vp_check((bool)f && f(v) == (v ^ 5) && f03_side == 1, "usable afterwards");
    vp_reach("end");
  });
}
VP_ENTRY h_f03_members() {
  uint32_t (obj::*pm)(uint32_t) = vp_pick(2, "null") ? nullptr : &obj::add; bool null = pm == nullptr; uint32_t obj::*pd = null ? nullptr : &obj::x;
  uint32_t x = vp_u32("x"), y = vp_u32("y"); obj o{x}; bool threw = false;
  switch (vp_pick(6, "how")) {
    case 0: { function<uint32_t(obj&, uint32_t)> f(pm); vp_check((bool)f == !null, "member function pointer"); try { uint32_t r = f(o, y); vp_check(r == x + y, "result"); } catch (std::bad_function_call const&) { threw = true; } break; }
    case 1: { function<uint32_t(obj&)> f(pd); vp_check((bool)f == !null, "data member pointer"); try { uint32_t r = f(o); vp_check(r == x, "result"); } catch (std::bad_function_call const&) { threw = true; } break; }
    case 2: { function<uint32_t(obj&, uint32_t)> f([](obj&, uint32_t) { return 1u; }); f = pm; vp_check((bool)f == !null, "assigned member function pointer"); try { uint32_t r = f(o, y); vp_check(r == x + y, "result"); } catch (std::bad_function_call const&) { threw = true; } break; }
    case 3: { function<uint32_t(obj&)> f([](obj&) { return 1u; }); f = pd; vp_check((bool)f == !null, "assigned data member pointer"); try { uint32_t r = f(o); vp_check(r == x, "result"); } catch (std::bad_function_call const&) { threw = true; } break; }
    case 4: { function<uint32_t(obj&, uint32_t), 16, 16> f; f = pm; vp_check((bool)f == !null, "assigned to an empty wrapper"); try { uint32_t r = f(o, y); vp_check(r == x + y, "result"); } catch (std::bad_function_call const&) { threw = true; } break; }
    case 5: { function<uint32_t(obj const&) const> f(pd); vp_check((bool)f == !null, "const signature"); try { uint32_t r = f(o); vp_check(r == x, "result"); } catch (std::bad_function_call const&) { threw = true; } break; }
  }
  vp_check(threw == null, "throws exactly when the pointer was null"); vp_check(null ? o.x == x : true, "nothing invoked");
  vp_reach("end");
}
VP_ENTRY h_f03_const() {
  using F = function<uint32_t(uint32_t) const>; uint32_t v = vp_u32("v"); bool threw = false;
  F f; F const& cf = f; vp_check(!cf, "empty");
  try { cf(v); } catch (std::bad_function_call const&) { threw = true; } vp_check(threw, "throws");
  f = [v](uint32_t q) { return q + v; }; vp_check((bool)cf && cf(3) == v + 3, "call");
  F g(std::move(f)); threw = false; try { cf(v); } catch (std::bad_function_call const&) { threw = true; } vp_check(threw && !cf && g(1) == v + 1, "moved from");
  vp_reach("end");
}

// ---- F04: const signatures ----
struct both { uint32_t v; uint32_t operator()(uint32_t q) { v = 0; return q ^ 0xffffffffu; } uint32_t operator()(uint32_t q) const { return q + v; } };
struct both2 { uint32_t v; uint32_t* flag; uint32_t operator()(uint32_t q) { *flag = 1; return q; } uint32_t operator()(uint32_t q) const { *flag = 2; return q + v; } };
struct constonly { uint32_t v; uint32_t operator()(uint32_t q) const { return q + v; } };
VP_ENTRY h_f04() {
  uint32_t v = vp_u32("v"), q = vp_u32("q");
  switch (vp_pick(8, "kind")) {
    case 0: { using F = function<uint32_t(uint32_t) const>; chain(F(both{v}), [&](F& f) { F const& c = f; vp_check(c(q) == q + v, "a const signature invokes the const call operator"); vp_check(c(q) == q + v && f(q) == q + v, "and never modifies the target"); }); break; }
    case 1: { using F = function<uint32_t(uint32_t)>; chain(F(both{v}), [&](F& f) { vp_check(f(q) == (q ^ 0xffffffffu), "a non-const signature invokes the non-const call operator"); }); break; }
    case 2: { using F = function<uint32_t(uint32_t) const, 16, 16>; uint32_t fl = 0; chain(F(both2{v, &fl}), [&](F& f) { vp_check(f(q) == q + v && fl == 2, "const signature (16,16)"); }); break; }
    case 3: { using F = function<uint32_t(uint32_t), 16, 8>; uint32_t fl = 0; chain(F(both2{v, &fl}), [&](F& f) { vp_check(f(q) == q && fl == 1, "non-const signature"); }); break; }
    case 4: { using F = function<uint32_t(uint32_t) const>; F const f(constonly{v}); vp_check(f(q) == q + v && f(q) == q + v, "const wrapper"); break; }
    case 5: { using F = function<uint32_t(uint32_t)>; chain(F(constonly{v}), [&](F& f) { vp_check(f(q) == q + v, "const-only target in a non-const wrapper"); }); break; }
    case 6: { functor t{v}; using F = function<uint32_t(uint32_t, uint8_t) const>; F const f(std::ref(t)); vp_check(f(q, 1) == (q ^ v) + 1, "reference wrapper in a const wrapper"); break; }
    case 7: { using F = function<uint32_t(uint32_t) const, 64, 32>; F const f([v](uint32_t p) { return p ^ v; }); vp_check(f(q) == (q ^ v), "lambda"); break; }
  }
  vp_reach("end");
}
template <typename F, typename A, typename = void> struct callable : std::false_type {};
template <typename F, typename A> struct callable<F, A, decltype(void(std::declval<F>()(std::declval<A>())))> : std::true_type {};
VP_ENTRY h_f04_types() {     // calling through const is offered exactly by const signatures
  vp_check(callable<function<uint32_t(uint32_t) const> const&, uint32_t>::value, "const wrapper with const signature is callable");
  vp_check(!callable<function<uint32_t(uint32_t)> const&, uint32_t>::value, "const wrapper with non-const signature is not");
  auto mut = [x = 1u](uint32_t q) mutable { return x += q; };
  vp_check(!std::is_constructible<function<uint32_t(uint32_t) const>, decltype(mut)>::value, "a const signature does not accept a target without const call operator");
  vp_check(std::is_constructible<function<uint32_t(uint32_t)>, decltype(mut)>::value, "a non-const one does");
  vp_check(!std::is_copy_constructible<function<uint32_t(uint32_t)>>::value && !std::is_copy_assignable<function<uint32_t(uint32_t)>>::value, "move-only");
  vp_check(std::is_nothrow_move_constructible<function<uint32_t(uint32_t)>>::value && std::is_nothrow_move_assignable<function<uint32_t(uint32_t)>>::value, "nothrow moves");
  vp_reach("end");
}

// ---- F05: in place, aligned, no allocation, no stray writes ----
template <size_t N, size_t A> struct alignas(A) blob { uint8_t b[N];
  blob() = default;
  void const* operator()(unsigned i, uint8_t* out) { *out = b[i]; b[i] = (uint8_t)(b[i] + 1); return this; } };
VP_ENTRY h_f05() {
  unsigned how = vp_pick(4, "how"); configs([&](auto c) {
    const size_t C = decltype(c)::cap, A = decltype(c)::al;
    using T = blob<(C / A) * A, A>;
    static_assert(sizeof(T) <= C, "");
    using F = function<void const*(unsigned, uint8_t*), C, A>;
    unsigned h0 = vp_heap_count();
    T t; for (auto& x : t.b) x = vp_u8("b");
    unsigned i = vp_pick(sizeof(t.b), "i"); uint8_t out = 0;
    place<F> p, q;
    vp_check(alignof(F) >= A && sizeof(F) >= C + sizeof(void*), "room for the target");
    new (p.p) F(t);
    void const* at = (*p)(i, &out);
    vp_check(out == t.b[i], "target state");
    vp_check(p.holds(at, sizeof(T)), "the target lives inside the wrapper"); vp_check((uintptr_t)at % A == 0, "aligned as requested");
    p.check();
    if (how & 1) new (q.p) F(std::move(*p)); else { new (q.p) F(); *q = std::move(*p); }
    p.check(); q.check();
    at = (*q)(i, &out);
    vp_check(out == (uint8_t)(t.b[i] + 1), "state moved"); vp_check(q.holds(at, sizeof(T)) && (uintptr_t)at % A == 0, "inside the new wrapper, aligned");
    for (unsigned k = 0; k < sizeof(t.b); ++k) vp_check(((uint8_t const*)at)[k] == (uint8_t)(t.b[k] + (k == i ? 2 : 0)), "every byte of the state moved");
    if (how & 2) { *q = nullptr; *p = t; } 
    q.check(); p.check();
    p->~F(); q->~F(); p.check(); q.check();
    vp_check(vp_heap_count() == h0, "no allocation");
    vp_reach("end");
  });
}
// a wrapper as a member between other data, and in arrays
VP_ENTRY h_f05_member() {
  configs([&](auto c) {
    const size_t C = decltype(c)::cap, A = decltype(c)::al;
    using F = function<uint32_t(uint32_t), C, A>;
    struct { uint8_t a; F f[2]; uint8_t z; } s;
    uint8_t a = s.a = vp_u8("a"), z = s.z = vp_u8("z"); unsigned h0 = vp_heap_count();
    uint8_t k = vp_u8("k"), l = vp_u8("l");
    s.f[0] = [k](uint32_t q) { return q + k; }; s.f[1] = [l](uint32_t q) { return q ^ l; };
    vp_check(s.f[0](1) == 1u + k && s.f[1](1) == (1u ^ l), "independent neighbours");
    s.f[0] = std::move(s.f[1]); vp_check(s.f[0](7) == (7u ^ l) && !s.f[1], "moved between neighbours");
    s.f[1] = [k](uint32_t q) { return q - k; }; vp_check(s.f[0](7) == (7u ^ l) && s.f[1](7) == 7u - k, "independent");
    vp_check(s.a == a && s.z == z && vp_heap_count() == h0, "members next to it are untouched, nothing allocated");
    vp_reach("end");
  });
}

// ---- F06: throwing targets ----
struct err1 { uint32_t v; }; struct err2 { uint8_t a; uint32_t v; };
struct thrower { uint32_t v; explicit thrower(uint32_t x) noexcept : v(x) { sh.born(this); } thrower(thrower&& o) noexcept : v(o.v) { sh.use(&o); o.v = 0; sh.born(this); } ~thrower() { sh.die(this); }
  uint32_t operator()(uint32_t q) { sh.use(this); v += q; if (q > 100) throw err1{v}; if (q > 50) throw err2{9, v}; return v; } };
VP_ENTRY h_f06() {
  sh = shadow{}; uint32_t v = vp_u32("v"), q = vp_u32("q"), r = vp_u32("r");
  unsigned after = vp_pick(5, "after");
  { auto body = [&](auto c) {
      using F = function<uint32_t(uint32_t), decltype(c)::cap, decltype(c)::al>;
      F f{thrower(v)}; int got = 0; uint32_t val = 0;
      try { val = f(q); } catch (err1 const& e) { got = 1; val = e.v; } catch (err2 const& e) { got = 2; val = e.v; vp_check(e.a == 9, "exception value"); }
      vp_check(got == (q > 100 ? 1 : q > 50 ? 2 : 0), "the exception thrown reaches the caller"); vp_check(val == v + q, "with its value");
      vp_check((bool)f && sh.alive() == 1, "still holds its target");
      F g;
      if (after == 1) { g = std::move(f); vp_check(!f && sh.alive() == 1, "can be moved"); } else if (after == 2) { f = nullptr; vp_check(!f && sh.alive() == 0, "can be cleared"); }
      else if (after == 3) { f = thrower(r); v = r; q = 0; vp_check(sh.alive() == 1, "can be replaced"); }
      if (after == 4) return;      // destroyed right after
      if (after != 2) { F& h = after == 1 ? g : f; val = 0; got = 0; uint32_t w = vp_u32("w");
        try { val = h(w); } catch (err1 const& e) { got = 1; val = e.v; } catch (err2 const& e) { got = 2; val = e.v; }
        vp_check(val == v + q + w && got == (w > 100 ? 1 : w > 50 ? 2 : 0), "later calls work as before"); }
      vp_reach("end");
    };
    switch (vp_pick(3, "cfg")) { case 0: body(cfg<24, 8>{}); break; case 1: body(cfg<4, 4>{}); break; case 2: body(cfg<16, 16>{}); break; } }
  vp_check(sh.alive() == 0 && sh.created == sh.dead, "every object is destroyed exactly once");
}
VP_ENTRY h_f06_void() {
  uint32_t v = vp_u32("v"); unsigned k = 0; bool caught = false;
  function<void(uint32_t)> f([&k](uint32_t x) { ++k; if (x & 1) throw std::out_of_range("odd"); });
  function<void(uint32_t) const> g([&k](uint32_t x) { ++k; if (x & 2) throw 7; });
  try { f(v); } catch (std::out_of_range const&) { caught = true; }
  vp_check(caught == ((v & 1) != 0) && k == 1 && f, "void target");
  int got = 0; try { g(v); } catch (int e) { got = e; }
  vp_check(got == ((v & 2) ? 7 : 0) && k == 2 && g, "const void target");
  bool thr = false; try { f(1); } catch (std::exception const&) { thr = true; } vp_check(thr && k == 3, "catch by base class");
  vp_reach("end");
}
// every shape of signature and of exception lets the exception through
struct big { uint64_t w[4]; }; struct base { virtual ~base() {} virtual uint32_t id() const { return 1; } uint32_t v = 0; }; struct derived : base { uint32_t id() const override { return 2; } explicit derived(uint32_t x) { v = x; } };
static void boom(unsigned kind, uint32_t v) { switch (kind) { case 0: return; case 1: throw (int)v; case 2: throw derived(v); case 3: throw err2{(uint8_t)v, v}; case 4: throw std::bad_function_call(); } }
struct mthrow { uint32_t v; unsigned kind; uint32_t run() { boom(kind, v); return v; } uint32_t crun(uint32_t q) const { boom(kind, v); return v + q; } };
VP_ENTRY h_f06_sig() {
  unsigned kind = vp_pick(5, "exc"); uint32_t v = vp_u32("v"), q = vp_u32("q"); unsigned runs = 0;
  auto expect = [&](auto& f, auto call) {
    for (unsigned again = 0; again < 2; ++again) {
      unsigned got = 0; uint32_t val = v;
      try { call(); } catch (int e) { got = 1; val = (uint32_t)e; } catch (base& e) { got = e.id() == 2 ? 2 : 9; val = e.v; } catch (err2 const& e) { got = 3; val = e.v; vp_check(e.a == (uint8_t)v, "exception value"); } catch (std::bad_function_call const&) { got = 4; }
      vp_check(got == kind && val == v, "the target's exception reaches the caller unchanged"); vp_check((bool)f, "the target is still held");
    }
    vp_reach("end");
  };
  switch (vp_pick(12, "sig")) {
    case 0: { function<void(), 40> f([&] { ++runs; boom(kind, v); }); expect(f, [&] { f(); }); vp_check(runs == 2, "invoked each time"); break; }
    case 1: { function<uint32_t(), 40> f([&] { ++runs; boom(kind, v); return q; }); expect(f, [&] { vp_check(f() == q, "result"); }); vp_check(runs == 2, "invoked each time"); break; }
    case 2: { function<void() const, 40> f([&] { ++runs; boom(kind, v); }); expect(f, [&] { f(); }); vp_check(runs == 2, "invoked each time"); break; }
    case 3: { function<uint32_t&(uint32_t&), 40> f([&](uint32_t& r) -> uint32_t& { boom(kind, v); return r; }); expect(f, [&] { vp_check(&f(q) == &q, "result"); }); break; }
    case 4: { function<big(big, uint32_t), 40> f([&](big b, uint32_t x) { boom(kind, v); b.w[3] += x; return b; }); expect(f, [&] { vp_check(f(big{{1, 2, 3, 4}}, q).w[3] == 4ull + q, "result"); }); break; }
    case 5: { function<uint32_t(only_move), 40> f([&](only_move m) { boom(kind, v); return m.v; }); expect(f, [&] { vp_check(f(only_move(q)) == q, "result"); }); break; }
    case 6: { mthrow m{v, kind}; function<uint32_t(mthrow&)> f(&mthrow::run); expect(f, [&] { vp_check(f(m) == v, "result"); }); break; }
    case 7: { mthrow m{v, kind}; function<uint32_t(mthrow const*, uint32_t) const> f(&mthrow::crun); expect(f, [&] { vp_check(f(&m, q) == v + q, "result"); }); break; }
    case 8: { auto t = [&](uint8_t a, uint16_t b, uint32_t c, uint64_t d) { boom(kind, v); return (uint64_t)a + b + c + d; }; function<uint64_t(uint8_t, uint16_t, uint32_t, uint64_t), 64, 32> f(t); expect(f, [&] { vp_check(f(1, 2, q, 4) == 7ull + q, "result"); }); break; }
    case 9: { function<void(unsigned, uint32_t)> f(&boom); expect(f, [&] { f(kind, v); }); break; }
    case 10: { auto t = [&](uint32_t x) { boom(kind, v); return x; }; function<uint32_t(uint32_t)> g(std::ref(t)); function<uint32_t(uint32_t)> f; f = std::move(g); expect(f, [&] { vp_check(f(q) == q, "result"); }); break; }
    case 11: { function<uint64_t(uint32_t) const, 40> f([&](uint32_t x) { boom(kind, v); return x; }); expect(f, [&] { vp_check(f(q) == q, "result"); }); break; }
  }
}
