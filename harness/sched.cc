#include "sched.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}

namespace {
constexpr u32 MAXPTS = 1 << 16, MAXNEW = 4096;
struct Shared {
  int status, overflowed; u32 npts[2], pts[2][MAXPTS]; u32 nnew; u64 fresh[MAXNEW]; u64 steps[2];
  char res[2][1 << 18], after[1 << 15], err[4096];
};
Shared* sh = nullptr;
bool active = false;
__thread int tid = -1;
__thread int inside = 0; // in the scheduler itself
char* arena[2]; size_t used[2]; constexpr size_t ARENA = 256u << 20;
char *stack_lo[2], *stack_hi[2];
sem_t sem[2];
bool finished[2];
u64 step_[2];
std::vector<u32> plan; size_t plan_pos; int plan_owner;
const sched::Locations* known;
std::vector<u64> known_sorted;

// shadow of 8-byte granules
struct Ent { u64 g; u8 rm[2], wm[2]; u8 rcm[2], wcm[2]; u32 rc[2], wc[2]; void *rpc[2], *wpc[2]; };
constexpr u32 SHB = 22, SH = 1u << SHB; Ent* shadow; u32 nshadow;
Ent* ent(u64 g) {
  u32 i = (u32(((g >> 6) * 0x9e3779b97f4a7c15ull) >> (64 - SHB)) + u32(g & 63)) & (SH - 1); // neighbours stay together: fewer pages
  for (;; i = (i + 1) & (SH - 1)) { if (shadow[i].g == g) return &shadow[i]; if (!shadow[i].g) { if (nshadow > SH / 4 * 3) return nullptr; nshadow++; shadow[i].g = g; return &shadow[i]; } }
}
u32 vc[2][2];
struct Sync { u64 a; u32 c[2]; };
constexpr u32 SY = 1 << 14; Sync* syncs; u32 nsync;
Sync* syn(u64 a) {
  u32 i = u32((a * 0x9e3779b97f4a7c15ull) >> 50);
  for (;; i = (i + 1) & (SY - 1)) { if (syncs[i].a == a) return &syncs[i]; if (!syncs[i].a) { if (nsync > SY / 4 * 3) return nullptr; nsync++; syncs[i].a = a; return &syncs[i]; } }
}
bool overflowed = false;
void acquire(const volatile void* p) { if (Sync* s = syn(u64(p))) for (int k = 0; k < 2; k++) { if (s->c[k] > vc[tid][k]) vc[tid][k] = s->c[k]; } else overflowed = true; }
void release(const volatile void* p) { if (Sync* s = syn(u64(p))) for (int k = 0; k < 2; k++) { if (vc[tid][k] > s->c[k]) s->c[k] = vc[tid][k]; } else overflowed = true; vc[tid][tid]++; }

void note(const char* m) { if (!sh->err[0]) snprintf(sh->err, sizeof sh->err, "%s", m); }
std::string where(void* pc) {
  Dl_info i; char b[64]; snprintf(b, 64, "%p", pc);
  if (!dladdr(pc, &i) || !i.dli_sname) return b;
  int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); std::string r = d ? d : i.dli_sname; std::free(d); if (r.size() > 160) r.resize(160); return r;
}
struct Race { void *pc1, *pc2; bool w1, w2; u64 g; } race_{}; bool have_race = false;

void hand_over() { int me = tid, o = 1 - me; sem_post(&sem[o]); while (sem_wait(&sem[me]) && errno == EINTR) {} }
void blocked_yield(int& spins) { // the running thread cannot continue
  int o = 1 - tid;
  if (finished[o] || ++spins > 100000) { note("deadlock: a thread waits for something the other one never does"); sh->status = 2; _exit(0); }
  hand_over();
}
u64 own_loads = 0;

void access(const volatile void* p, size_t n, bool w, bool atomic, void* pc) {
  if (tid < 0 || inside || !active) return;
  const char* a = (const char*)p;
  if (a >= stack_lo[tid] && a < stack_hi[tid]) return;
  inside = 1;
  u64 g0 = u64(a) >> 3, g1 = (u64(a) + (n ? n : 1) - 1) >> 3;
  u64 st = ++step_[tid];
  bool point = false;
  if (!known_sorted.empty() && g1 - g0 < 100000) {
    auto lo = std::lower_bound(known_sorted.begin(), known_sorted.end(), g0);
    point = lo != known_sorted.end() && *lo <= g1;
  }
  if (point && sh->npts[tid] < MAXPTS) sh->pts[tid][sh->npts[tid]++] = u32(st);
  if (plan_pos < plan.size() && plan_owner == tid && plan[plan_pos] == st) { plan_pos++; plan_owner = 1 - tid; if (!finished[1 - tid]) hand_over(); }
  int o = 1 - tid;
  for (u64 g = g0; g <= g1; g++) {
    u8 m = 0xff; if (g == g0) m &= u8(0xff << (u64(a) & 7)); if (g == g1) m &= u8(0xff >> (7 - ((u64(a) + (n ? n : 1) - 1) & 7)));
    Ent* e = ent(g); if (!e) { overflowed = true; break; }
    if ((m & e->wm[o]) || (w && (m & e->rm[o]))) if (!std::binary_search(known_sorted.begin(), known_sorted.end(), g)) { bool dup = false; for (u32 k = 0; k < sh->nnew; k++) dup |= sh->fresh[k] == g; if (!dup && sh->nnew < MAXNEW) sh->fresh[sh->nnew++] = g; }
    (w ? e->wm : e->rm)[tid] |= m;
    if (!atomic) {
      if ((m & e->wcm[o]) && e->wc[o] > vc[tid][o] && !have_race) { have_race = true; race_ = {e->wpc[o], pc, true, w, g}; }
      if (w && (m & e->rcm[o]) && e->rc[o] > vc[tid][o] && !have_race) { have_race = true; race_ = {e->rpc[o], pc, false, w, g}; }
      auto& cm = w ? e->wcm[tid] : e->rcm[tid]; auto& c = w ? e->wc[tid] : e->rc[tid]; auto& q = w ? e->wpc[tid] : e->rpc[tid];
      if (c == vc[tid][tid]) cm |= m; else { c = vc[tid][tid]; cm = m; } q = pc;
    }
  }
  inside = 0;
}
void at_before(const volatile void* p, size_t n, bool w, void* pc) { access(p, n, w, true, pc); }
void at_after(const volatile void* p, bool w) {
  if (tid < 0 || inside || !active) return;
  acquire(p); if (w) { release(p); own_loads = 0; }
  else if (++own_loads > 50000) { own_loads = 0; inside = 1; if (!finished[1 - tid]) { static u32 turns; if (++turns > 2000) { note("livelock: both threads keep polling"); sh->status = 2; _exit(0); } hand_over(); } inside = 0; } // a polling loop
}
void* bump(size_t n, size_t al = 16) {
  size_t at = (used[tid] + 16 + al - 1) / al * al;
  if (at + n > ARENA) { static const char m[] = "arena exhausted\n"; (void)!write(2, m, sizeof m); abort(); }
  used[tid] = at + n; *(size_t*)(arena[tid] + at - 8) = n; return arena[tid] + at;
}
bool in_arena(const void* p) { return arena[0] && ((const char*)p >= arena[0] && (const char*)p < arena[0] + 2 * ARENA); }
} // namespace

#define PC __builtin_return_address(0)
extern "C" {
void* malloc(size_t n) { return tid >= 0 && active ? bump(n) : __libc_malloc(n); }
void free(void* p) { if (p && !in_arena(p)) __libc_free(p); }
void* calloc(size_t a, size_t b) { if (tid >= 0 && active) { void* p = bump(a * b); memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) {
  if (in_arena(p) || (tid >= 0 && active)) { if (p && !in_arena(p)) return __libc_realloc(p, n); void* q = tid >= 0 && active ? bump(n) : __libc_malloc(n); if (p) { size_t o = *((size_t*)p - 1); memcpy(q, p, o < n ? o : n); } return q; }
  return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { return tid >= 0 && active ? bump(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }

void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access(a, n, false, false, PC); } void __tsan_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { access(a, n, false, false, PC); } void __tsan_unaligned_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, false, false, PC); } void __tsan_volatile_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_read_write##n(void* a) { access(a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, false, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
// The counters of shared_ptr are changed with memory_order_acq_rel (4) by +1 or -1, and use and weak count are read together with
// memory_order_acquire (2). That orders the accesses of the last owner after those of all others, and is not taken to order anything else:
// otherwise whatever a thread did before it last copied a shared handle would count as synchronized with the other thread.
static bool counting(u64 v, int mo, size_t n) { return n == 4 && mo == 4 && (u32(v) == 1 || u32(v) == u32(-1)); }
static bool counts(u64 r, int mo, size_t n) { u64 lo = u32(r), hi = r >> 32; return n == 8 && mo == 2 && lo && hi && lo < 1000000 && hi < 1000000 && !(lo == 1 && hi == 1); }
static void counted(const volatile void* p, bool down, bool last) { if (tid < 0 || inside || !active) return; if (last) acquire(p); if (down) { release(p); own_loads = 0; } }
#define AT(T, n) \
  T __tsan_atomic##n##_load(const volatile T* a, int mo) { at_before(a, sizeof(T), false, PC); T r = __atomic_load_n(a, 5); if (!counts(r, mo, sizeof(T))) at_after(a, false); return r; } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { at_before(a, sizeof(T), true, PC); __atomic_store_n(a, v, 5); at_after(a, true); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { at_before(a, sizeof(T), true, PC); T r = __atomic_exchange_n(a, v, 5); at_after(a, true); return r; } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { at_before(a, sizeof(T), true, PC); T r = __atomic_fetch_add(a, v, 5); if (counting(v, mo, sizeof(T))) counted(a, v != 1, T(r + v) == 0); else at_after(a, true); return r; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { at_before(a, sizeof(T), true, PC); T r = __atomic_fetch_sub(a, v, 5); at_after(a, true); return r; } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { at_before(a, sizeof(T), true, PC); T r = __atomic_fetch_and(a, v, 5); at_after(a, true); return r; } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { at_before(a, sizeof(T), true, PC); T r = __atomic_fetch_or(a, v, 5); at_after(a, true); return r; } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { at_before(a, sizeof(T), true, PC); T r = __atomic_fetch_xor(a, v, 5); at_after(a, true); return r; } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { at_before(a, sizeof(T), true, PC); T r = __atomic_fetch_nand(a, v, 5); at_after(a, true); return r; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { at_before(a, sizeof(T), true, PC); bool r = __atomic_compare_exchange_n(a, c, v, false, 5, 5); at_after(a, r); return r; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { at_before(a, sizeof(T), true, PC); bool r = __atomic_compare_exchange_n(a, c, v, false, 5, 5); at_after(a, r); return r; } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { at_before(a, sizeof(T), true, PC); bool r = __atomic_compare_exchange_n(a, &c, v, false, 5, 5); at_after(a, r); return c; }
AT(u8, 8) AT(std::uint16_t, 16) AT(u32, 32) AT(u64, 64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// bulk memory functions called by the instrumented objects
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access(d, n, true, false, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n) { access(a, n, false, false, PC); access(b, n, false, false, PC); } return __real_memcmp(a, b, n); }

// red-black trees: the out-of-line parts live in libstdc++.so
void* __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(void*); void* __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void*); void* __real__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(void*);
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*); void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
void* __wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(void* x) { access(x, 32, false, false, PC); return __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(x); }
void* __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void* x) { access(x, 32, false, false, PC); return __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
void* __wrap__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(void* x) { access(x, 32, false, false, PC); return __real__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h) { access(x, 32, true, false, PC); access(p, 32, true, false, PC); access(h, 32, true, false, PC); __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h); }
void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* x, void* h) { access(x, 32, true, false, PC); access(h, 32, true, false, PC); return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(x, h); }

// locks
static void lock_with(void* m, int (*tr)(void*), void* pc) { int spins = 0; access(m, 1, true, true, pc); inside = 1; while (tr(m) == EBUSY) blocked_yield(spins); inside = 0; acquire(m); }
int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*); if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (tid < 0 || !active || inside) return real(m);
  lock_with(m, [](void* q) { return pthread_mutex_trylock((pthread_mutex_t*)q); }, PC); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*); if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  if (tid >= 0 && active && !inside) { access(m, 1, true, true, PC); release(m); }
  return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  static int (*real)(pthread_rwlock_t*); if (!real) real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock");
  if (tid < 0 || !active || inside) return real(m);
  lock_with(m, [](void* q) { return pthread_rwlock_tryrdlock((pthread_rwlock_t*)q); }, PC); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  static int (*real)(pthread_rwlock_t*); if (!real) real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock");
  if (tid < 0 || !active || inside) return real(m);
  lock_with(m, [](void* q) { return pthread_rwlock_trywrlock((pthread_rwlock_t*)q); }, PC); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  static int (*real)(pthread_rwlock_t*); if (!real) real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_unlock");
  if (tid >= 0 && active && !inside) { access(m, 1, true, true, PC); release(m); }
  return real(m);
}
int pthread_once(pthread_once_t* c, void (*f)()) {
  auto* s = (volatile int*)c; bool on = tid >= 0 && active && !inside; int spins = 0;
  if (on) access(c, 4, true, true, PC);
  while (*s == 1) { if (!on) { sched_yield(); continue; } inside = 1; blocked_yield(spins); inside = 0; }
  if (*s == 2) { if (on) acquire(c); return 0; }
  *s = 1;
  try { f(); } catch (...) { *s = 0; throw; }
  if (on) release(c);
  *s = 2; return 0;
}
int __cxa_guard_acquire(long long* gp) {
  u8* g = (u8*)gp;
  bool on = tid >= 0 && active && !inside; int spins = 0;
  if (on) access(g, 1, true, true, PC);
  while (!g[0] && g[1]) { if (!on) { sched_yield(); continue; } inside = 1; blocked_yield(spins); inside = 0; }
  if (g[0]) { if (on) acquire(g); return 0; }
  g[1] = 1; return 1;
}
void __cxa_guard_release(long long* gp) { u8* g = (u8*)gp; bool on = tid >= 0 && active && !inside; if (on) { access(g, 1, true, true, PC); release(g); } g[1] = 0; __atomic_store_n(g, 1, 5); }
void __cxa_guard_abort(long long* g) { ((u8*)g)[1] = 0; }
} // extern "C"

namespace sched {
namespace {
const std::function<std::string()>* body[2]; std::string out[2];
void* thread_main(void* k) {
  int me = int(long(k));
  pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  stack_lo[me] = (char*)lo; stack_hi[me] = (char*)lo + sz;
  static pthread_barrier_t* unused = nullptr; (void)unused;
  while (sem_wait(&sem[me]) && errno == EINTR) {}
  tid = me;
  try { out[me] = (*body[me])(); } catch (const std::exception& e) { out[me] = std::string("exception escaped: ") + e.what(); } catch (...) { out[me] = "exception escaped"; }
  inside = 1; finished[me] = true; tid = -1;
  if (!finished[1 - me]) sem_post(&sem[1 - me]);
  return nullptr;
}
} // namespace

Run run(int start, const std::vector<std::uint32_t>& switches, const std::function<std::string()>& a, const std::function<std::string()>& b, const std::function<std::string()>& after, Locations& shared, const std::function<void()>& warm) {
  if (!sh) {
    auto map = [](size_t n, int fl) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, fl | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; };
    sh = (Shared*)map(sizeof(Shared), MAP_SHARED);
    arena[0] = (char*)map(2 * ARENA, MAP_PRIVATE); arena[1] = arena[0] + ARENA;
    shadow = (Ent*)map(sizeof(Ent) * SH, MAP_PRIVATE); syncs = (Sync*)map(sizeof(Sync) * SY, MAP_PRIVATE);
  }
  sh->status = sh->overflowed = 0; sh->npts[0] = sh->npts[1] = 0; sh->nnew = 0; sh->err[0] = 0; sh->steps[0] = sh->steps[1] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    rlimit r{30, 30}; setrlimit(RLIMIT_CPU, &r);
    plan = switches; plan_pos = 0; plan_owner = start; known_sorted.assign(shared.begin(), shared.end());
    vc[0][0] = vc[1][1] = 1; body[0] = &a; body[1] = &b;
    sem_init(&sem[0], 0, 0); sem_init(&sem[1], 0, 0);
    if (warm) warm();
    active = true;
    pthread_t t[2]; for (long k = 0; k < 2; k++) pthread_create(&t[k], nullptr, thread_main, (void*)k);
    // both must know their stacks before the first access is looked at
    for (int k = 0; k < 2; k++) while (!__atomic_load_n(&stack_hi[k], __ATOMIC_ACQUIRE)) usleep(20);
    sem_post(&sem[start]);
    for (auto& x : t) pthread_join(x, nullptr);
    active = false;
    auto put = [](char* d, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; };
    put(sh->res[0], sizeof sh->res[0], out[0]); put(sh->res[1], sizeof sh->res[1], out[1]); put(sh->after, sizeof sh->after, after());
    sh->steps[0] = step_[0]; sh->steps[1] = step_[1]; sh->overflowed = overflowed;
    if (have_race) { std::string m = std::string("unsynchronized conflicting accesses: a ") + (race_.w1 ? "write" : "read") + " in " + where(race_.pc1) + " and a " + (race_.w2 ? "write" : "read") + " in " + where(race_.pc2); note(m.c_str()); }
    sh->status = 1; _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  Run o; o.overflowed = sh->overflowed; o.error = sh->err; o.ok = sh->status == 1;
  if (!o.ok && o.error.empty()) o.error = WIFSIGNALED(st) ? std::string(WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "hang: " : "crash: ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
  if (o.ok) { o.result[0] = sh->res[0]; o.result[1] = sh->res[1]; o.after = sh->after; }
  for (int k = 0; k < 2; k++) { o.points[k].assign(sh->pts[k], sh->pts[k] + sh->npts[k]); o.steps[k] = sh->steps[k]; }
  for (u32 k = 0; k < sh->nnew; k++) o.grew |= shared.insert(sh->fresh[k]).second;
  return o;
}
} // namespace sched
