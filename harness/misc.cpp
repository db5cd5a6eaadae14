// M01: move_wrapper; L01: lock_guard
#include "vp.h"
#include "embedded/move_wrapper.h"
#include "embedded/mutex.h"
using embedded::lock_guard;
using embedded::move_wrapper;

// ---- M01 ----
static unsigned copies, moves, born, dead; static const void* alive_at[16]; static unsigned n_alive; static bool mthrow;
static int where(void const* p) { for (unsigned i = 0; i < n_alive; ++i) if (alive_at[i] == p) return (int)i; return -1; }
static void reset() { copies = moves = born = dead = n_alive = 0; mthrow = false; }
static void enter(void const* p) { ++born; vp_guard(where(p) < 0, "no construction over a live object"); alive_at[n_alive++] = p; }
static void leave(void const* p) { ++dead; int i = where(p); vp_guard(i >= 0, "destroyed exactly once"); alive_at[i] = alive_at[--n_alive]; }
struct boom { uint32_t v; };
struct val {       // both copyable and movable, so that a copy would compile
  uint32_t v; uint8_t pad[9]; bool held;
  val() noexcept : v(0), held(false) { enter(this); }
  explicit val(uint32_t x) : v(x), held(true) { for (unsigned i = 0; i < 9; ++i) pad[i] = (uint8_t)(x + i); enter(this); }
  val(val const& o) : v(o.v), held(o.held) { for (unsigned i = 0; i < 9; ++i) pad[i] = o.pad[i]; ++copies; enter(this); }
  val(val&& o) : v(o.v), held(o.held) { if (mthrow) throw boom{o.v}; for (unsigned i = 0; i < 9; ++i) { pad[i] = o.pad[i]; o.pad[i] = 0xee; } o.v = 0; o.held = false; ++moves; enter(this); }
  val& operator=(val const& o) { v = o.v; held = o.held; ++copies; return *this; }
  val& operator=(val&& o) { v = o.v; held = o.held; o.v = 0; o.held = false; ++moves; return *this; }
  ~val() { leave(this); }
  bool is(uint32_t x) const { bool ok = vp_and(held, v == x); for (unsigned i = 0; i < 9; ++i) ok = vp_and(ok, pad[i] == (uint8_t)(x + i)); return ok; }
};
using W = move_wrapper<val>;
static void m01(unsigned steps) {
  reset(); uint32_t x = vp_u32("x");
  {
    val v(x); W a(std::move(v)); vp_check(!v.held && (*a).is(x), "the given value is moved in");
    alignas(W) unsigned char buf[4][sizeof(W)]; W* chain[5]; chain[0] = &a; unsigned n = 1, owner = 0;
    static const char* const N[] = {"op1", "op2", "op3"}; static const char* const S[] = {"src1", "src2", "src3"};
    for (unsigned k = 0; k < steps; ++k) {
      unsigned src = vp_pick(n, S[k]); unsigned m0 = moves, b0 = born; W* w = reinterpret_cast<W*>(buf[k]);
      switch (vp_pick(3, N[k])) {
        case 0: new (w) W(*chain[src]); break;                                   // copy of a mutable wrapper
        case 1: new (w) W(static_cast<W const&>(*chain[src])); break;            // copy of a const wrapper
        case 2: new (w) W(std::move(*chain[src])); break;
      }
      vp_check(moves == m0 + 1 && born == b0 + 1, "one move per new wrapper");
      if (src == owner) owner = n;
      chain[n++] = w;
      for (unsigned i = 0; i < n; ++i) vp_check((**chain[i]).held == (i == owner), "exactly one wrapper holds the value");
    }
    W& o = *chain[owner]; W const& c = o;
    vp_check((*o).is(x) && (*c).is(x) && o->is(x) && c->is(x), "the value is unchanged");
    vp_check(&*o == &*c && o.operator->() == &*o && c.operator->() == &*o, "every form of dereferencing reaches the one value");
    vp_check((unsigned char*)&*o >= (unsigned char*)&o && (unsigned char*)(&*o + 1) <= (unsigned char*)(&o + 1), "held inside the wrapper");
    uint32_t y = vp_u32("y"); o->v = y; vp_check((*c).v == y, "writes reach the held value"); (*o).v = y + 1; vp_check(c->v == y + 1, "writes reach the held value");
    val out(std::move(*o)); vp_check(out.held && out.v == y + 1, "the value can be taken out");
    vp_check(copies == 0, "the value is never copied");
    for (unsigned i = n; i-- > 1;) chain[i]->~W();
    vp_reach("end");
  }
  vp_check(born == dead && n_alive == 0, "every object is destroyed exactly once");
}
VP_ENTRY h_m01_2() { m01(2); }
VP_ENTRY h_m01_3() { m01(3); }
VP_ENTRY h_m01_lambda() {       // the purpose: capturing a move-only value in a copyable closure
  struct mo { uint32_t v; mo(uint32_t q) : v(q) {} mo(mo&& o) noexcept : v(o.v) { o.v = 0; } mo(mo const&) = delete; };
  uint32_t x = vp_u32("x"), y = vp_u32("y"); mo m(x);
  move_wrapper<mo> w(std::move(m)); vp_check(m.v == 0 && w->v == x, "moved in");
  auto f = [w](uint32_t q) mutable { w->v += q; return (*w).v; };
  vp_check(w->v == 0, "the closure holds the value");
  auto g = f; vp_check(f(0) == 0, "moved on by copying the closure");
  vp_check(g(y) == x + y && g(1) == x + y + 1, "state");
  auto h = std::move(g); vp_check(h(0) == x + y + 1, "moved");
  vp_reach("end");
}
VP_ENTRY h_m01_throw() {        // a throwing move constructor: the exception reaches the caller, nothing is lost
  reset(); uint32_t x = vp_u32("x");
  { val v(x); unsigned how = vp_pick(4, "how"); bool caught = false; uint32_t got = 0;
    if (how == 0) { mthrow = true; try { W w(std::move(v)); } catch (boom const& b) { caught = true; got = b.v; } mthrow = false; vp_check(v.is(x), "the source keeps its value"); }
    else { W a(std::move(v)); mthrow = true;
      try { if (how == 1) { W b(a); } else if (how == 2) { W b(static_cast<W const&>(a)); } else { W b(std::move(a)); } } catch (boom const& b) { caught = true; got = b.v; }
      mthrow = false; vp_check((*a).is(x), "the source keeps its value"); W c(a); vp_check((*c).is(x), "and can be moved later"); }
    vp_check(caught && got == x && copies == 0, "the exception reaches the caller"); }
  vp_check(born == dead && n_alive == 0, "every object is destroyed exactly once"); vp_reach("end");
}

// ---- L01 ----
struct mtx; struct rec { mtx const* m; bool lock; };
static rec lg[16]; static unsigned nlg; static unsigned data_;
struct mtx { unsigned held = 0, locks = 0, unlocks = 0; bool fail = false; uint32_t code = 0;
  void lock() { if (fail) throw boom{code}; vp_guard(held == 0, "not locked twice"); ++held; ++locks; lg[nlg++] = rec{this, true}; }
  void unlock() { vp_guard(held == 1, "unlocked only while locked"); --held; ++unlocks; lg[nlg++] = rec{this, false}; } 
  mtx() = default; mtx(mtx const&) = delete; };
static uint32_t leave_by(mtx& m, unsigned how, uint32_t a) {
  if (how == 0) { lock_guard<mtx> g(m); vp_check(m.held == 1, "locked before the guarded code runs"); data_ += a; }
  else if (how == 1) { lock_guard<mtx> g(m); vp_check(m.held == 1, "locked before the guarded code runs"); return data_ ^ a; }
  else if (how == 2) { for (unsigned i = 0; i < 3; ++i) { lock_guard<mtx> g(m); vp_check(m.held == 1, "locked before the guarded code runs"); if (i == (a & 3)) break; if (i & 1) continue; ++data_; } }
  else if (how == 3) { lock_guard<mtx> g(m); vp_check(m.held == 1, "locked before the guarded code runs"); if (a & 1) throw boom{a}; ++data_; }
  else if (how == 4) { lock_guard<mtx> g(m); [&] { if (a > 9) throw std::out_of_range("x"); }(); vp_check(m.held == 1, "still locked"); }
  else if (how == 5) { bool again = (a & 1) != 0; for (unsigned i = 0; i < 2; ++i) { lock_guard<mtx> g(m); vp_check(m.held == 1, "locked before the guarded code runs"); if (!again) goto out; } out:; }
  else if (how == 6) { alignas(lock_guard<mtx>) unsigned char b[sizeof(lock_guard<mtx>)]; auto* g = new (b) lock_guard<mtx>(m); vp_check(m.held == 1 && m.unlocks == 0, "locked until the guard is destroyed"); g->~lock_guard<mtx>(); }
  return 0;
}
VP_ENTRY h_l01_paths() {
  nlg = 0; data_ = vp_u32("data"); uint32_t a = vp_u32("a"); mtx m, other; unsigned how = vp_pick(7, "how"); bool thrown = false;
  try { leave_by(m, how, a); } catch (boom const& b) { thrown = true; vp_check(how == 3 && b.v == a, "the exception passes through"); } catch (std::out_of_range const&) { thrown = true; vp_check(how == 4, "the exception passes through"); }
  vp_check(thrown == ((how == 3 && (a & 1)) || (how == 4 && a > 9)), "exceptions come from the guarded code only");
  unsigned want = how == 2 ? ((a & 3) < 2 ? (a & 3) + 1 : 3) : how == 5 ? ((a & 1) ? 2 : 1) : 1;
  vp_check(m.held == 0 && m.locks == want && m.unlocks == want, "locked and unlocked once per guard");
  vp_check(other.locks == 0 && other.unlocks == 0, "no other mutex is touched");
  vp_check(nlg == 2 * want, "no further lock operations"); vp_reach("end");
}
VP_ENTRY h_l01_fail() {
  nlg = 0; mtx m; m.fail = vp_bool("fail"); m.code = vp_u32("code"); bool fail = m.fail, ran = false, caught = false;
  try { lock_guard<mtx> g(m); ran = true; } catch (boom const& b) { caught = true; vp_check(b.v == m.code, "the exception reaches the caller"); }
  vp_check(ran == !fail && caught == fail, "guarded code runs only when locked");
  vp_check(m.held == 0 && m.locks == (fail ? 0u : 1u) && m.unlocks == (fail ? 0u : 1u), "a mutex that could not be locked is not unlocked");
  m.fail = false; { lock_guard<mtx> g(m); vp_check(m.held == 1, "usable later"); } vp_check(m.held == 0, "released");
  vp_reach("end");
}
VP_ENTRY h_l01_nested() {
  nlg = 0; mtx m[3]; unsigned f = vp_pick(4, "fail"); if (f < 3) { m[f].fail = true; m[f].code = f; } uint32_t a = vp_u32("a"); unsigned depth = 0; bool caught = false;
  try { lock_guard<mtx> g0(m[0]); depth = 1; { lock_guard<mtx> g1(m[1]); depth = 2; if (a & 1) throw boom{100}; lock_guard<mtx> g2(m[2]); depth = 3; if (a & 2) throw boom{101}; vp_check(m[0].held && m[1].held && m[2].held, "all held"); } vp_check(m[0].held == 1 && !m[1].held && !m[2].held, "inner ones released"); } catch (boom const&) { caught = true; }
  bool th1 = f >= 2 && (a & 1);
  unsigned locked = f == 0 ? 0 : f == 1 ? 1 : (th1 || f == 2) ? 2 : 3;
  vp_check(depth == locked && caught == (f < 3 || (a & 3) != 0), "control flow");
  vp_check(nlg == 2 * locked, "one lock and one unlock per guard");
  for (unsigned i = 0; i < locked; ++i) { vp_check(lg[i].m == &m[i] && lg[i].lock, "locked in order"); vp_check(lg[2 * locked - 1 - i].m == &m[i] && !lg[2 * locked - 1 - i].lock, "released in reverse order"); }
  for (auto& q : m) vp_check(q.held == 0, "all released");
  vp_reach("end");
}
