// Native runtime for the vp_* interface: replays one counterexample.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <new>
#include <string>
#include <vector>
#include <exception>
#include <sys/mman.h>
namespace {
struct In { std::string name, kind, val; };
std::vector<In> ins, contents; size_t pos = 0; unsigned heap = 0;
// the next unused input of this name (compilers differ in the order in which they evaluate arguments)
const In& next(const char* name) {
  std::string n = name; for (auto& ch : n) if (ch == ' ') ch = '_'; if (n.empty()) n = "_";
  while (pos < ins.size() && ins[pos].kind.empty()) ++pos;
  for (size_t i = pos; i < ins.size(); ++i) if (!ins[i].kind.empty() && ins[i].name == n) { ins[i].kind.clear(); return ins[i]; }
  std::printf("REPLAY-END %s\n", name); std::fflush(stdout); _Exit(44);
}
uint64_t nexti(const char* n) { return std::strtoull(next(n).val.c_str(), nullptr, 10); }
}
extern "C" {
uint8_t vp_u8(const char* n) { return (uint8_t)nexti(n); }
uint16_t vp_u16(const char* n) { return (uint16_t)nexti(n); }
uint32_t vp_u32(const char* n) { return (uint32_t)nexti(n); }
uint64_t vp_u64(const char* n) { return nexti(n); }
bool vp_bool(const char* n) { return nexti(n) != 0; }
double vp_real(const char* n, double, double) { return std::strtod(next(n).val.c_str(), nullptr); }
unsigned vp_pick(unsigned, const char* n) { return (unsigned)nexti(n); }
void vp_assume(bool c) { if (!c) { std::printf("REPLAY-ASSUME\n"); std::fflush(stdout); _Exit(43); } }
void vp_check(bool c, const char* l) { if (!c) { std::printf("VP_FAIL %s\n", l); std::fflush(stdout); _Exit(42); } }
void vp_guard(bool c, const char* l) { vp_check(c, l); }
void vp_near(double a, double b, double tol, const char* l) {
  if (!(std::fabs(a - b) <= tol)) { std::printf("VP_FAIL %s: %.17g vs %.17g (tol %g)\n", l, a, b, tol); std::fflush(stdout); _Exit(42); }
}
void vp_reach(const char*) {}
uint64_t vp_sel(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool vp_and(bool a, bool b) { return a && b; }
bool vp_or(bool a, bool b) { return a || b; }
uint64_t vp_conc(uint64_t v) { return v; }
void* vp_alloc(size_t n, size_t align) { void* p = nullptr; if (align < sizeof(void*)) align = sizeof(void*); if (posix_memalign(&p, align, n)) _Exit(45); return p; }
void* vp_phantom() {
  void* p = MAP_FAILED;
  for (int b = 46; p == MAP_FAILED && b > 30; --b) p = mmap(nullptr, (size_t)1 << b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _Exit(45);
  for (auto& c : contents) { uint64_t v = std::strtoull(c.val.c_str(), nullptr, 10); std::memcpy((char*)p + std::strtoull(c.name.c_str(), nullptr, 10), &v, std::atoi(c.kind.c_str() + 2)); }
  return p;
}
void vp_retire(void*) {}
unsigned vp_heap_count() { return heap; }
void vp_replay_main();
}
void* operator new(size_t n) { ++heap; void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { ++heap; void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
int main(int argc, char** argv) {
  std::FILE* f = std::fopen(argv[1], "r"); if (!f) return 46;
  char a[256], b[64], c[256];
  while (std::fscanf(f, "%255s %63s %255s", a, b, c) == 3) (std::strncmp(b, "ph", 2) ? ins : contents).push_back({a, b, c});
  std::fclose(f);
  vp_replay_main();
  std::printf("REPLAY-OK\n");
  return 0;
}
