// Compiler instrumentation hooks (-fsanitize=thread, own runtime) and the allocator seam.

struct Slot { u64 pcw; u32 clk; u16 tid; u8 mask, wr; }; // pcw: program counter
static Slot* shadow; static const u64 SHCELLS = 1ull << 31;
static u32 race_rr;
static const u16 DEAD = 0xffff; // owner of bytes that are not (any more) part of an allocation
static std::unordered_set<u64>* race_seen;
static inline Slot* cell(uintptr_t a) { return shadow + (((a >> 3) & (SHCELLS - 1)) << 2); }
static void race_init() {
  if (shadow) return;
  shadow = (Slot*)mmap(nullptr, SHCELLS * 4 * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shadow == MAP_FAILED) { perror("shadow"); _exit(99); }
  race_seen = new std::unordered_set<u64>();
}
static void race_report(uintptr_t a, Slot& o, uintptr_t pc, bool w, int size) {
  G g; u64 k = mixh(o.pcw, pc);
  if (!race_seen->insert(k).second) return;
  if (sh->nrace < 64) { RaceRep& r = sh->race[sh->nrace++]; r.addr = a; r.pc1 = o.pcw; r.pc2 = pc; r.t1 = o.tid; r.t2 = self->id; r.w1 = o.wr; r.w2 = w; r.size = size; }
}
static void race_one(uintptr_t a8, u8 mask, bool w, uintptr_t pc, uintptr_t a, int size) {
  Slot* s = cell(a8); int put = -1; u32 clk = self->vc[self->id]; u16 me = (u16)self->id;
  for (int i = 0; i < 4; i++) {
    Slot& o = s[i];
    if (!o.clk) { if (put < 0) put = i; continue; }
    if (o.tid == DEAD) { if (o.mask & mask) race_report(a, o, pc, w, size); continue; }
    if (o.tid == me) { if (o.mask == mask && o.wr == (u8)w) { if (o.clk == clk) return; put = i; } else if ((o.mask & ~mask) == 0 && o.wr <= (u8)w) put = i; continue; }
    if ((o.mask & mask) && (o.wr || w) && o.clk > self->vc[o.tid]) race_report(a, o, pc, w, size);
  }
  if (put < 0) put = race_rr++ & 3;
  Slot& o = s[put]; o.pcw = pc; o.clk = clk; o.tid = me; o.mask = mask; o.wr = w;
}
static __attribute__((noinline)) void race_access(uintptr_t a, int size, bool w, uintptr_t pc) {
  if (!self || in_sim) return;
  if (!self->is_main && a >= self->slo && a < self->shi) return; // own stack (and static TLS)
  uintptr_t end = a + size;
  for (uintptr_t p = a & ~7ull; p < end; p += 8) {
    uintptr_t lo = p < a ? a : p, hi = p + 8 < end ? p + 8 : end;
    u8 mask = (u8)(((1u << (hi - p)) - 1) & ~((1u << (lo - p)) - 1));
    race_one(p, mask, w, pc, a, size);
  }
}
static void shadow_clear(uintptr_t a, size_t n) {
  if (n > (64 << 20)) { // large: drop the pages
    uintptr_t lo = (uintptr_t)cell(a & ~7ull), hi = lo + ((n + 15) / 8) * 4 * sizeof(Slot);
    lo = (lo + 4095) & ~4095ull; hi &= ~4095ull; if (hi > lo) madvise((void*)lo, hi - lo, MADV_DONTNEED);
    return;
  }
  for (uintptr_t p = a & ~7ull; p < a + n; p += 8) { Slot* s = cell(p); s[0].clk = s[1].clk = s[2].clk = s[3].clk = 0; }
}
static void shadow_kill(uintptr_t a, size_t n, uintptr_t pc) {
  if (n > (64 << 20)) return;
  for (uintptr_t p = a & ~7ull, e = a + n; p < e; p += 8) {
    u8 mask = 0xff; if (p < a) mask &= (u8)(0xff << (a - p)); if (p + 8 > e) mask &= (u8)(0xff >> (p + 8 - e));
    Slot* s = cell(p); if (mask == 0xff) s[1].clk = s[2].clk = s[3].clk = 0;
    s[0].pcw = pc; s[0].clk = 1; s[0].tid = DEAD; s[0].mask = mask; s[0].wr = 2;
  }
}
static void shadow_live(uintptr_t a, size_t n) { // keep what is known of the accesses
  if (n > (64 << 20)) return;
  for (uintptr_t p = a & ~7ull; p < a + n; p += 8) for (Slot* s = cell(p), *e = s + 4; s < e; s++) if (s->tid == DEAD) s->clk = 0;
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define TICK() do { if (__builtin_expect(--cd <= 0, 0)) mem_expire(); } while (0)
#define ACC(a, n, w) do { TICK(); if (__builtin_expect(g_race, 0)) race_access((uintptr_t)(a), n, w, PC); } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* a) { ACC(a, N, false); } void __tsan_write##N(void* a) { ACC(a, N, true); } \
  void __tsan_unaligned_read##N(void* a) { ACC(a, N, false); } void __tsan_unaligned_write##N(void* a) { ACC(a, N, true); } \
  void __tsan_volatile_read##N(void* a) { ACC(a, N, false); } void __tsan_volatile_write##N(void* a) { ACC(a, N, true); } \
  void __tsan_unaligned_volatile_read##N(void* a) { ACC(a, N, false); } void __tsan_unaligned_volatile_write##N(void* a) { ACC(a, N, true); } \
  void __tsan_read##N##_pc(void* a, void*) { ACC(a, N, false); } void __tsan_write##N##_pc(void* a, void*) { ACC(a, N, true); } \
  void __tsan_read_write##N(void* a) { ACC(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* nv) { if (*p != nv) ACC(p, 8, true); }
void __tsan_vptr_read(void** p) { ACC(p, 8, false); }
void __tsan_read_range(void* a, size_t n) { ACC(a, (int)n, false); }
void __tsan_write_range(void* a, size_t n) { ACC(a, (int)n, true); }
}
// calls into libraries without instrumentation: the accesses their arguments stand for (see tools/libcalls.py)
static bool shared_stream(uintptr_t a) {
  for (std::ios* s : {(std::ios*)&std::cerr, (std::ios*)&std::cout, (std::ios*)&std::clog, (std::ios*)&std::cin}) if (a == (uintptr_t)s) return true;
  return false;
}
extern "C" {
u8 sim_libcall_on; // written before the first thread starts
void sim_libcall(const char* d, const uintptr_t* r, uintptr_t pc) {
  if (!self || in_sim) return;
  for (int i = 0; d[i] && i < 6; i++) {
    uintptr_t a = r[i]; if (d[i] == '.' || a < 4096) continue;
    switch (d[i]) {
      case 'w': case 'r': race_access(a, 8, d[i] == 'w', pc); break;
      case 'S': case 's': race_access(a, 16, d[i] == 'S', pc); break;
      case 'n': case 'p': race_access(a, 32, d[i] == 'n', pc); break;
      case 'D': case 'd': if (r[2] && r[2] < (1u << 30)) race_access(a, (int)r[2], d[i] == 'D', pc); break;
      case 'o': { uintptr_t ios = a + *(long*)(*(uintptr_t*)a - 24); if (!shared_stream(ios)) race_access(ios, 8, true, pc); break; }
    }
  }
}
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_pre(const volatile void* a, int mo, bool load, bool store) {
  if (!self || in_sim || !g_race) return; G g;
  if (load) { if (acq(mo)) hb_acquire((const void*)a); else hb_relaxed_load((const void*)a); }
  if (store) { if (rel(mo)) hb_release((const void*)a); else hb_relaxed_store((const void*)a); }
}
extern "C" {
#define ATOM(B, TT) \
  TT __tsan_atomic##B##_load(const volatile TT* a, int mo) { TICK(); at_pre(a, mo, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile TT* a, TT v, int mo) { TICK(); at_pre(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  TT __tsan_atomic##B##_exchange(volatile TT* a, TT v, int mo) { TICK(); at_pre(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  TT __tsan_atomic##B##_fetch_add(volatile TT* a, TT v, int mo) { TICK(); at_pre(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  TT __tsan_atomic##B##_fetch_sub(volatile TT* a, TT v, int mo) { TICK(); at_pre(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  TT __tsan_atomic##B##_fetch_and(volatile TT* a, TT v, int mo) { TICK(); at_pre(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  TT __tsan_atomic##B##_fetch_or(volatile TT* a, TT v, int mo) { TICK(); at_pre(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  TT __tsan_atomic##B##_fetch_xor(volatile TT* a, TT v, int mo) { TICK(); at_pre(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  TT __tsan_atomic##B##_fetch_nand(volatile TT* a, TT v, int mo) { TICK(); at_pre(a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile TT* a, TT* c, TT v, int mo, int fmo) { TICK(); TT e = *c; bool ok = __atomic_load_n(a, __ATOMIC_SEQ_CST) == e; at_pre(a, ok ? mo : fmo, true, ok); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile TT* a, TT* c, TT v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
  TT __tsan_atomic##B##_compare_exchange_val(volatile TT* a, TT c, TT v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo) { TICK(); if (!self || in_sim || !g_race) return; G g; hb_fence(acq(mo), rel(mo)); }
void __tsan_atomic_signal_fence(int) {}
}

// ---------- allocator
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
size_t malloc_usable_size(void*);
}
static __thread int in_alloc;
static inline bool alloc_hook() { return g_on && self && !in_sim && !in_alloc; }
static bool alloc_fails() {
  sh->allocs++; self->na++;
  if (P.replay) { if (lookup(K_ALLOC, self->na)) { fired(K_ALLOC); return true; } return false; }
  if (P.allocord && sh->allocs >= P.allocord && sh->allocs < P.allocord + P.alloclen) { logdev(K_ALLOC, self->na, 1); fired(K_ALLOC); return true; }
  return false;
}
// with race detection every allocation is followed by at least 16 bytes that nobody may touch
static inline size_t padded(size_t n) { return __builtin_expect(g_race, 0) && n < (1ull << 40) ? n + 16 : n; }
static inline void* fresh(void* p, size_t n, uintptr_t pc) {
  if (p && __builtin_expect(g_race, 0)) { ++in_alloc; size_t u = malloc_usable_size(p); shadow_clear((uintptr_t)p, u); if (u > n) shadow_kill((uintptr_t)p + n, u - n, pc); --in_alloc; }
  return p;
}
static inline void dead(void* p, size_t u, uintptr_t pc) { if (u < (120 << 10)) shadow_kill((uintptr_t)p, u, pc); else shadow_clear((uintptr_t)p, u); }
extern "C" {
void* malloc(size_t n) { if (alloc_hook() && alloc_fails()) { errno = ENOMEM; return nullptr; } return fresh(__libc_malloc(padded(n)), n, PC); }
void free(void* p) { if (!p) return; if (__builtin_expect(g_race, 0)) dead(p, malloc_usable_size(p), PC); __libc_free(p); }
void* calloc(size_t a, size_t b) { if (alloc_hook() && alloc_fails()) { errno = ENOMEM; return nullptr; } size_t n; if (!g_race || __builtin_mul_overflow(a, b, &n)) return __libc_calloc(a, b); return fresh(__libc_calloc(1, padded(n)), n, PC); }
void* realloc(void* p, size_t n) {
  if (alloc_hook() && alloc_fails()) { errno = ENOMEM; return nullptr; }
  if (!__builtin_expect(g_race, 0) || !n) return __libc_realloc(p, n);
  size_t u = p ? malloc_usable_size(p) : 0; void* q = __libc_realloc(p, padded(n));
  if (!q) return q;
  if (q != p) { if (p) dead(p, u, PC); return fresh(q, n, PC); }
  shadow_live((uintptr_t)q, n); u = malloc_usable_size(q); if (u > n) { shadow_live((uintptr_t)q + n, u - n); shadow_kill((uintptr_t)q + n, u - n, PC); }
  return q;
}
void* memalign(size_t a, size_t n) { if (alloc_hook() && alloc_fails()) { errno = ENOMEM; return nullptr; } return fresh(__libc_memalign(a, padded(n)), n, PC); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
