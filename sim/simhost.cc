// Deterministic simulator host: loads the programs under test as shared objects, runs each execution
// in a forked child under a token-passing scheduler that decides every interleaving, delay and fault.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <atomic>
#include <deque>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <poll.h>
#include "sim.hh"

// ---------- the real functions
static long real_syscall6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long sc(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { long r = real_syscall6(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
static int real_openat(int d, const char* p, int fl, mode_t m) { return (int)sc(SYS_openat, d, (long)p, fl, m); }
static ssize_t real_write(int fd, const void* b, size_t n) { return sc(SYS_write, fd, (long)b, n); }
static ssize_t real_read(int fd, void* b, size_t n) { return sc(SYS_read, fd, (long)b, n); }
static ssize_t real_writev(int fd, const struct iovec* v, int c) { return sc(SYS_writev, fd, (long)v, c); }
static ssize_t real_readv(int fd, const struct iovec* v, int c) { return sc(SYS_readv, fd, (long)v, c); }
static ssize_t real_pwrite(int fd, const void* b, size_t n, off_t o) { return sc(SYS_pwrite64, fd, (long)b, n, o); }
static int real_close(int fd) { return (int)sc(SYS_close, fd); }
static int real_fsync(int fd) { return (int)sc(SYS_fsync, fd); }
static off_t real_lseek(int fd, off_t o, int w) { return sc(SYS_lseek, fd, o, w); }
static int real_rename(const char* a, const char* b) { return (int)sc(SYS_rename, (long)a, (long)b); }
static int real_link(const char* a, const char* b) { return (int)sc(SYS_link, (long)a, (long)b); }
static int real_unlink(const char* a) { return (int)sc(SYS_unlink, (long)a); }
static int real_unlinkat(int d, const char* a, int f) { return (int)sc(SYS_unlinkat, d, (long)a, f); }
static int real_rmdir(const char* a) { return (int)sc(SYS_rmdir, (long)a); }
static int real_mkdir(const char* a, mode_t m) { return (int)sc(SYS_mkdir, (long)a, m); }
static int real_truncate(const char* a, off_t n) { return (int)sc(SYS_truncate, (long)a, n); }
static int real_ftruncate(int fd, off_t n) { return (int)sc(SYS_ftruncate, fd, n); }
static ssize_t real_sendfile(int o, int i, off_t* p, size_t n) { return sc(SYS_sendfile, o, i, (long)p, n); }
static int real_stat(const char* p, struct stat* s) { return (int)sc(SYS_stat, (long)p, (long)s); }
static int real_lstat(const char* p, struct stat* s) { return (int)sc(SYS_lstat, (long)p, (long)s); }
static int real_statx(int d, const char* p, int fl, unsigned m, struct statx* s) { return (int)sc(SYS_statx, d, (long)p, fl, m, (long)s); }
static int real_access(const char* p, int m) { return (int)sc(SYS_access, (long)p, m); }
[[noreturn]] static void real_exit_now() { while (true) real_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0); }
#define REAL(R, NAME, ARGS) typedef R (*NAME##_realfn_t) ARGS; static NAME##_realfn_t p_##NAME; static inline NAME##_realfn_t get_##NAME() { if (!p_##NAME) p_##NAME = (NAME##_realfn_t)dlsym(RTLD_NEXT, #NAME); return p_##NAME; }
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**)) REAL(int, pthread_detach, (pthread_t))
REAL(int, pthread_mutex_lock, (pthread_mutex_t*)) REAL(int, pthread_mutex_trylock, (pthread_mutex_t*)) REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*)) REAL(int, pthread_cond_signal, (pthread_cond_t*)) REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*)) REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
REAL(int, pthread_once, (pthread_once_t*, void (*)()))
REAL(int, clock_gettime, (clockid_t, struct timespec*)) REAL(int, nanosleep, (const struct timespec*, struct timespec*)) REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*))
REAL(FILE*, fopen, (const char*, const char*)) REAL(FILE*, fdopen, (int, const char*)) REAL(int, fclose, (FILE*)) REAL(int, fileno, (FILE*))
REAL(DIR*, opendir, (const char*)) REAL(DIR*, fdopendir, (int)) REAL(int, closedir, (DIR*)) REAL(struct dirent64*, readdir64, (DIR*))
REAL(int, __cxa_guard_acquire, (void*)) REAL(void, __cxa_guard_release, (void*)) REAL(void, __cxa_guard_abort, (void*))
REAL(int, sem_wait, (sem_t*)) REAL(int, sem_post, (sem_t*)) REAL(int, sem_trywait, (sem_t*))
REAL(int, gettimeofday, (struct timeval*, void*))
static FILE* real_fopen(const char* a, const char* b) { return get_fopen()(a, b); }
static FILE* real_fdopen(int a, const char* b) { return get_fdopen()(a, b); }
static int real_fclose(FILE* f) { return get_fclose()(f); }
static int real_fileno(FILE* f) { return get_fileno()(f); }
static DIR* real_opendir(const char* p) { return get_opendir()(p); }
static DIR* real_fdopendir(int f) { return get_fdopendir()(f); }
static int real_closedir(DIR* d) { return get_closedir()(d); }
static struct dirent64* real_readdir64(DIR* d) { return get_readdir64()(d); }
static int real_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { return get_pthread_create()(t, a, f, x); }

static std::atomic<u32> ready_word;
static void futex_ready() { ready_word.store(1); real_syscall6(SYS_futex, (long)&ready_word, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void wait_ready(bool*) { while (!ready_word.load()) real_syscall6(SYS_futex, (long)&ready_word, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); ready_word.store(0); }

#include "core.inc"
#include "mem.inc"
#include "lib.inc"
#include "fs.inc"
#include "mpi.inc"

// ---------- pthread interface
static Thr* find_thread(pthread_t t) { for (int i = nT - 1; i >= 0; i--) if (T[i]->created && pthread_equal(T[i]->real, t)) return T[i]; return nullptr; }
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  if (!SIMCTX) return real_pthread_create(t, a, f, x);
  G g; point(0x01);
  static u64 ord; ++ord; i64 fail = 0;
  if (P.replay) fail = lookup(K_THREAD, self->n); else if (P.thrord && ord >= P.thrord && ord < P.thrord + P.thrlen) { fail = 1; logdev(K_THREAD, self->n, 1); }
  if (fail) { fired(K_THREAD); return EAGAIN; }
  lib_guard();
  Thr* n = new_thread(self->rank, false, f, x);
  int ds = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &ds); n->detached = ds == PTHREAD_CREATE_DETACHED;
  int r = start_thread_(n); if (r) return r;
  *t = n->real; sh->lastwork = sh->now; H(0x02, n->id);
  point(0x03); return 0;
}
int pthread_join(pthread_t t, void** ret) {
  if (!SIMCTX) return get_pthread_join()(t, ret);
  G g; Thr* o = find_thread(t); if (!o) return ESRCH; if (o == self) return EDEADLK;
  point(0x04); while (o->st != S_DONE) block(o, W_JOIN, INF);
  hb_acquire(o); if (ret) *ret = o->ret; return 0;
}
int pthread_detach(pthread_t t) { if (!SIMCTX) return get_pthread_detach()(t); G g; Thr* o = find_thread(t); if (o) o->detached = true; return o ? 0 : ESRCH; }
int pthread_timedjoin_np(pthread_t t, void** ret, const struct timespec* ts) { G g; Thr* o = find_thread(t); if (!o) return ESRCH; point(0x04); u64 w = abs_to_wake(CLOCK_REALTIME, ts); while (o->st != S_DONE) { if (sh->now >= w) return ETIMEDOUT; block(o, W_JOIN, w); } hb_acquire(o); if (ret) *ret = o->ret; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!SIMCTX) return get_pthread_mutex_lock()(m); G g; return mtx_lock(m, INF, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!SIMCTX) return get_pthread_mutex_trylock()(m); G g; return mtx_lock(m, INF, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!SIMCTX) return get_pthread_mutex_unlock()(m); G g; return mtx_unlock(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { G g; return mtx_lock(m, abs_to_wake(CLOCK_REALTIME, ts), false); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { G g; return mtx_lock(m, abs_to_wake(c, ts), false); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!SIMCTX) return get_pthread_cond_wait()(c, m); G g; return cnd_wait(c, m, INF, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!SIMCTX) return get_pthread_cond_timedwait()(c, m, ts); G g; return cnd_wait(c, m, abs_to_wake(CLOCK_REALTIME, ts), true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { G g; return cnd_wait(c, m, abs_to_wake(k, ts), k == CLOCK_REALTIME); }
int pthread_cond_signal(pthread_cond_t* c) { if (!SIMCTX) return get_pthread_cond_signal()(c); G g; cnd_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!SIMCTX) return get_pthread_cond_broadcast()(c); G g; cnd_signal(c, true); return 0; }
// rwlock: __readers counts readers, __cur_writer holds the writer
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!SIMCTX) return get_pthread_rwlock_rdlock()(l); G g; point(0x13); auto& d = l->__data; while (d.__cur_writer) block(l, W_RW, INF); d.__readers++; hb_acquire(l); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!SIMCTX) return get_pthread_rwlock_wrlock()(l); G g; point(0x14); auto& d = l->__data; while (d.__cur_writer || d.__readers) block(l, W_RW, INF); d.__cur_writer = self->id + 1; hb_acquire(l); hb_acquire((char*)l + 1); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!SIMCTX) return get_pthread_rwlock_tryrdlock()(l); G g; point(0x13); auto& d = l->__data; if (d.__cur_writer) return EBUSY; d.__readers++; hb_acquire(l); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!SIMCTX) return get_pthread_rwlock_trywrlock()(l); G g; point(0x14); auto& d = l->__data; if (d.__cur_writer || d.__readers) return EBUSY; d.__cur_writer = self->id + 1; hb_acquire(l); hb_acquire((char*)l + 1); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!SIMCTX) return get_pthread_rwlock_unlock()(l); G g; auto& d = l->__data; if (d.__cur_writer == self->id + 1) { d.__cur_writer = 0; hb_release(l); } else { if (d.__readers) d.__readers--; hb_release((char*)l + 1); } wake_all(l, W_RW); point(0x15); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!SIMCTX) return get_pthread_once()(o, f);
  { G g; point(0x16); while (*o == 1) block(o, W_ONCE, INF); if (*o == 2) { hb_acquire(o); return 0; } *o = 1; }
  try { f(); } catch (...) { G g; *o = 0; wake_all(o, W_ONCE); throw; }
  G g; *o = 2; hb_release(o); wake_all(o, W_ONCE); return 0;
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { G g; point(0x13); u64 w = abs_to_wake(CLOCK_REALTIME, ts); auto& d = l->__data; while (d.__cur_writer) { if (sh->now >= w) return ETIMEDOUT; block(l, W_RW, w); } d.__readers++; hb_acquire(l); return 0; }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { G g; point(0x14); u64 w = abs_to_wake(CLOCK_REALTIME, ts); auto& d = l->__data; while (d.__cur_writer || d.__readers) { if (sh->now >= w) return ETIMEDOUT; block(l, W_RW, w); } d.__cur_writer = self->id + 1; hb_acquire(l); hb_acquire((char*)l + 1); return 0; }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { G g; point(0x13); u64 w = abs_to_wake(c, ts); auto& d = l->__data; while (d.__cur_writer) { if (sh->now >= w) return ETIMEDOUT; block(l, W_RW, w); } d.__readers++; hb_acquire(l); return 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { G g; point(0x14); u64 w = abs_to_wake(c, ts); auto& d = l->__data; while (d.__cur_writer || d.__readers) { if (sh->now >= w) return ETIMEDOUT; block(l, W_RW, w); } d.__cur_writer = self->id + 1; hb_acquire(l); hb_acquire((char*)l + 1); return 0; }
struct SimBarrier { u32 count, waiting, gen; };
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { auto* s = (SimBarrier*)b; s->count = n; s->waiting = s->gen = 0; return 0; }
int pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
int pthread_barrier_wait(pthread_barrier_t* b) { G g; point(0x1d); auto* s = (SimBarrier*)b; hb_release(b); u32 gen = s->gen; if (++s->waiting == s->count) { s->waiting = 0; s->gen++; hb_acquire(b); wake_all(b, W_SEM); return PTHREAD_BARRIER_SERIAL_THREAD; } while (s->gen == gen) block(b, W_SEM, INF); hb_acquire(b); return 0; }
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) { G g; point(0x1e); while (*l) block((const void*)l, W_MUTEX, INF); *l = 1; hb_acquire((const void*)l); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) { G g; point(0x1e); if (*l) return EBUSY; *l = 1; hb_acquire((const void*)l); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { G g; hb_release((const void*)l); *l = 0; wake_all((const void*)l, W_MUTEX); point(0x1f); return 0; }
int sem_timedwait(sem_t* s, const struct timespec* ts) { G g; point(0x17); u64 w = abs_to_wake(CLOCK_REALTIME, ts); int* v = (int*)s; while (*v <= 0) { if (sh->now >= w) { errno = ETIMEDOUT; return -1; } block(s, W_SEM, w); } --*v; hb_acquire(s); return 0; }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { G g; point(0x17); u64 w = abs_to_wake(c, ts); int* v = (int*)s; while (*v <= 0) { if (sh->now >= w) { errno = ETIMEDOUT; return -1; } block(s, W_SEM, w); } --*v; hb_acquire(s); return 0; }
int sem_wait(sem_t* s) { if (!SIMCTX) return get_sem_wait()(s); G g; point(0x17); int* v = (int*)s; while (*v <= 0) block(s, W_SEM, INF); --*v; hb_acquire(s); return 0; }
int sem_trywait(sem_t* s) { if (!SIMCTX) return get_sem_trywait()(s); G g; point(0x17); int* v = (int*)s; if (*v <= 0) { errno = EAGAIN; return -1; } --*v; hb_acquire(s); return 0; }
int sem_post(sem_t* s) { if (!SIMCTX) return get_sem_post()(s); G g; hb_release(s); ++*(int*)s; wake_all(s, W_SEM); point(0x18); return 0; }
int __cxa_guard_acquire(void* q) {
  if (!SIMCTX) return get___cxa_guard_acquire()(q);
  G g; volatile u8* b = (volatile u8*)q; point(0x19); while (b[1]) block(q, W_GUARD, INF);
  if (b[0]) { hb_acquire(q); return 0; } b[1] = 1; return 1;
}
void __cxa_guard_release(void* q) { if (!SIMCTX) return get___cxa_guard_release()(q); G g; volatile u8* b = (volatile u8*)q; hb_release(q); b[0] = 1; b[1] = 0; wake_all(q, W_GUARD); }
void __cxa_guard_abort(void* q) { if (!SIMCTX) return get___cxa_guard_abort()(q); G g; volatile u8* b = (volatile u8*)q; b[1] = 0; wake_all(q, W_GUARD); }
int sched_yield() noexcept { if (!SIMCTX) return (int)sc(SYS_sched_yield); G g; point(0x1a); poll_idle(false); maybe_switch(false); new_slice(); return 0; }

long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
  if (SIMCTX) {
    G g;
    if (n == SYS_futex) {
      int op = (int)a[1] & FUTEX_CMD_MASK; u32* w = (u32*)a[0];
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        point(0x1b); if (*w != (u32)a[2]) { errno = EAGAIN; return -1; }
        u64 wk = INF; if (a[3]) { const struct timespec* ts = (const struct timespec*)a[3]; wk = op == FUTEX_WAIT ? sh->now + ts->tv_sec * 1000000000ull + ts->tv_nsec : abs_to_wake((int)a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); }
        block(w, W_FUTEX, wk); if (self->timedout) { errno = ETIMEDOUT; return -1; } hb_acquire(w); return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { hb_release(w); long k = 0; for (int i = 0; i < nT && k < a[2]; i++) if (T[i]->st == S_BLOCKED && T[i]->wk == W_FUTEX && T[i]->wobj == w) { wake_thread(T[i]); k++; } point(0x1c); return k; }
    }
    if (n == SYS_getrandom) { u8* b = (u8*)a[0]; for (long i = 0; i < a[1]; i++) b[i] = (u8)mixh(P.rdseed, 0x1000 + sh->rdraws++); return a[1]; }
    if (n == SYS_copy_file_range) { errno = ENOSYS; return -1; }
  }
  return sc(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ---------- clocks and sleeping
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (!SIMCTX) return get_clock_gettime()(c, ts);
  G g; clock_point(); u64 t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? (u64)rt_now() : (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) ? sh->now : mono_now();
  ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull; return 0;
}
int gettimeofday(struct timeval* tv, void* z) noexcept { if (!SIMCTX) return get_gettimeofday()(tv, z); struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* r) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (r) *r = ts.tv_sec; return ts.tv_sec; }
int timespec_get(struct timespec* ts, int b) { clock_gettime(CLOCK_REALTIME, ts); return b; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (!SIMCTX) return get_nanosleep()(a, b); G g; sim_sleep((u64)a->tv_sec * 1000000000ull + a->tv_nsec); if (b) b->tv_sec = b->tv_nsec = 0; return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
  if (!SIMCTX) return get_clock_nanosleep()(c, fl, a, b);
  G g; u64 ns; if (fl & TIMER_ABSTIME) { u64 w = abs_to_wake(c, a); ns = w - sh->now; } else ns = (u64)a->tv_sec * 1000000000ull + a->tv_nsec;
  sim_sleep(ns); return 0;
}
int usleep(useconds_t u) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts = {(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) { if (SIMCTX && n == 0 && tv) { G g; sim_sleep((u64)tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull); return 0; } return (int)sc(SYS_select, n, (long)r, (long)w, (long)e, (long)tv); }
int poll(struct pollfd* f, nfds_t n, int to) { if (SIMCTX && n == 0) { G g; sim_sleep((u64)(to < 0 ? 0 : to) * 1000000ull); return 0; } return (int)sc(SYS_poll, (long)f, n, to); }
int get_nprocs() noexcept { return SIMCTX ? P.ncpu : 8; }
int get_nprocs_conf() noexcept { return get_nprocs(); }
unsigned int arc4random() noexcept { return (unsigned)mixh(P.rdseed, 0x2000 + sh->rdraws++); }
int getentropy(void* b, size_t n) noexcept { for (size_t i = 0; i < n; i++) ((u8*)b)[i] = (u8)mixh(P.rdseed, 0x3000 + sh->rdraws++); return 0; }
ssize_t getrandom(void* b, size_t n, unsigned) { getentropy(b, n); return (ssize_t)n; }
unsigned _ZNSt13random_device9_M_getvalEv(void*) {
  G g; if (self) point(0x50);
  u64 k = sh->rdraws++; if (P.rdmod && k < 8 * P.rdmod) k %= P.rdmod; // rdmod makes the sequence repeat for some rounds: colliding draws
  return (unsigned)mixh(P.rdseed, k);
}
// ---------- process exit
[[noreturn]] void abort() noexcept { if (SIMCTX) { ++in_sim; rank_exit(134, true, sh->finalized[self->rank]); } signal(SIGABRT, SIG_DFL); raise(SIGABRT); while (true) real_exit_now(); }
[[noreturn]] void exit(int c) noexcept { if (SIMCTX) { ++in_sim; rank_exit(c, false, sh->finalized[self->rank]); } fflush(stdout); _exit(c); }
[[noreturn]] void _exit(int c) { if (SIMCTX) { ++in_sim; rank_exit(c, false, sh->finalized[self->rank]); } while (true) real_syscall6(SYS_exit_group, c, 0, 0, 0, 0, 0); }
[[noreturn]] void _Exit(int c) noexcept { _exit(c); }
[[noreturn]] void quick_exit(int c) noexcept { _exit(c); }
}

// ---------- running one execution
static std::unordered_map<std::string, int (*)(int, char**)> libs;
struct MainArg { int (*fn)(int, char**); };
static void* rank_main(void* a) {
  auto fn = (int (*)(int, char**))a;
  int argc; char** argv;
  { G g; auto& A = P.rargs[self->rank].empty() ? P.args : P.rargs[self->rank]; argc = (int)A.size(); argv = (char**)calloc(argc + 1, sizeof(char*)); for (int i = 0; i < argc; i++) argv[i] = strdup(A[i].c_str());
    if (P.startdelay[self->rank]) block(nullptr, W_SLEEP, sh->now + P.startdelay[self->rank]); }
  return (void*)(intptr_t)fn(argc, argv);
}
static void on_crash(int sig, siginfo_t* si, void* uc) {
  if (sig == SIGSEGV && lib_fault(si, (ucontext_t*)uc)) return;
  if (sig == SIGTRAP && lib_nopen) { lib_step((ucontext_t*)uc); return; }
  if (sig == SIGABRT) abort();   // raised inside the C library (assert)
  sh->status = ST_CRASH; sh->crash_sig = sig; sh->crash_pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  real_exit_now();
}
static bool read_plan(const std::string& f) {
  std::ifstream in(f); if (!in) return false; std::string line;
  P = Plan();
  while (std::getline(in, line)) {
    size_t sp = line.find(' '); std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
    auto u = [&] { return (u64)strtoull(v.c_str(), 0, 10); }; auto d = [&] { return strtod(v.c_str(), 0); };
    std::istringstream is(v);
    if (k == "prog") P.prog = v; else if (k == "nranks") P.nranks = (int)u(); else if (k == "lib") P.libs.push_back(v); else if (k == "arg") P.args.push_back(v);
    else if (k == "extras") P.extras = (int)u(); else if (k == "rarg") { int r; is >> r; is.get(); std::string rest; std::getline(is, rest); P.rargs[r % MAXR].push_back(rest); } else if (k == "startdelay") { int r; is >> r; is >> P.startdelay[r % MAXR]; }
    else if (k == "cwd") P.cwd = v; else if (k == "root") P.root = v; else if (k == "seed") P.seed = u(); else if (k == "cseed") P.cseed = u(); else if (k == "devfile") { P.replay = true; P.devfile = v; }
    else if (k == "strat") P.strat = (int)u(); else if (k == "psw") P.psw = d(); else if (k == "gap") P.gap = u(); else if (k == "pctk") P.pctk = (int)u(); else if (k == "plen") P.plen = u(); else if (k == "quantum") P.quantum = u();
    else if (k == "cmem") P.cmem = u(); else if (k == "csync") P.csync = u(); else if (k == "speedvar") P.speedvar = (int)u(); else if (k == "pspur") P.pspur = d(); else if (k == "pstall") P.pstall = d(); else if (k == "stallmax") P.stallmax = u(); else if (k == "scode") is >> P.scode >> P.pscode;
    else if (k == "pover") P.pover = d(); else if (k == "overmax") P.overmax = u(); else if (k == "pclock") P.pclock = d(); else if (k == "clockmax") P.clockmax = u(); else if (k == "tbase") P.tbase = u(); else if (k == "skew") P.skew = u();
    else if (k == "eager") P.eager = u(); else if (k == "prdv") P.prdv = d(); else if (k == "dbase") P.dbase = u(); else if (k == "djit") P.djit = u(); else if (k == "mpirand") P.mpirand = u();
    else if (k == "fault") { FsFault x; is >> x.cls >> x.ord >> x.len >> x.err; P.faults.push_back(x); } else if (k == "fprob") { FsProb x; is >> x.cls >> x.p >> x.err; P.fprobs.push_back(x); }
    else if (k == "diskcap") P.diskcap = (i64)u(); else if (k == "pshortr") P.pshortr = d(); else if (k == "pshortw") P.pshortw = d(); else if (k == "shuffle") P.shuffle = u();
    else if (k == "alloc") is >> P.allocord >> P.alloclen; else if (k == "thrfail") is >> P.thrord >> P.thrlen; else if (k == "rdseed") P.rdseed = u(); else if (k == "rdmod") P.rdmod = u();
    else if (k == "killpt") P.killpt = u(); else if (k == "killop") is >> P.killop >> P.killmode >> P.killlen; else if (k == "killtime") P.killtime = u(); else if (k == "killrank") is >> P.killrank >> P.killdelay; else if (k == "killdelay") P.killdelay = u();
    else if (k == "wspeed") P.wspeed = u(); else if (k == "par") P.par = u(); else if (k == "race") P.race = u(); else if (k == "busy") P.busy = sh->wantbusy = u(); else if (k == "stepcap") P.stepcap = u(); else if (k == "livecap") P.livecap = u(); else if (k == "ncpu") P.ncpu = (int)u();
    else if (k[0] == '#' || k.empty()) {} else { fprintf(stderr, "unknown plan key %s\n", k.c_str()); return false; }
  }
  if (P.replay) {
    FILE* f = real_fopen(P.devfile.c_str(), "rb"); if (!f) return false; Dev dv;
    while (fread(&dv, sizeof dv, 1, f) == 1) { if (dv.tid >= MAXT) continue; replay_map[dkey(dv.tid, dv.kind, dv.n)] = dv.val; if (dv.kind == K_SWITCH) replay_sw[dv.tid].push_back(dv.n); }
    real_fclose(f); for (auto& v : replay_sw) std::sort(v.begin(), v.end());
  }
  return true;
}
extern "C" char __libc_single_threaded;
static void child(const std::string& plan, const std::string& out) {
  if (!read_plan(plan)) { snprintf(sh->msg, sizeof sh->msg, "bad plan"); sh->status = ST_LIMIT; _exit(0); }
  int lf = real_openat(AT_FDCWD, (out + ".log").c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
  dup2(lf, 1); dup2(lf, 2); int nul = real_openat(AT_FDCWD, "/dev/null", O_RDONLY, 0); dup2(nul, 0);
  for (int i = 3; i < 1024; i++) real_close(i);
  if (chdir(P.cwd.c_str())) {}
  stack_t ss; ss.ss_size = 1 << 16; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, 0);
  u64 x = P.seed; rs[0] = splitmix(x); rs[1] = splitmix(x);
  fmap = new std::unordered_map<FILE*, int>(); dmap = new std::unordered_map<DIR*, DirList>(); dtypes = new std::unordered_map<void*, size_t>(); comms = new std::unordered_map<void*, int>();
  fmap->reserve(64); dmap->reserve(64);
  g_race = P.race; sim_libcall_on = g_race ? 1 : 0; if (g_race) race_init();
  lib_init();
  changes_left = P.strat == 2 ? P.pctk : 0; next_change = P.strat == 2 ? 1 + rndn(P.plen) : 0;
  if (P.strat == 2) { next_change = 1 + rndn(2 * P.plen / (P.pctk + 1) + 1); }
  __libc_single_threaded = 0;
  sh->nranks = P.nranks + P.extras; sh->hash = 0x1234;
  for (int r = 0; r < P.nranks + P.extras; r++) {
    auto it = libs.find(P.libs[r < (int)P.libs.size() ? r : 0]);
    if (it == libs.end()) { snprintf(sh->msg, sizeof sh->msg, "no such library"); sh->status = ST_LIMIT; _exit(0); }
    Thr* t = new_thread(r, true, rank_main, (void*)it->second);
    if (start_thread_(t)) { snprintf(sh->msg, sizeof sh->msg, "cannot create thread"); sh->status = ST_LIMIT; _exit(0); }
  }
  pthread_key_create(&exit_key, exit_key_dtor);
  g_on = true;
  T[0]->st = S_RUN; unpark(T[0]);
  while (true) pause();
}
static const char* const STN[] = {"none", "exit", "deadlock", "noprogress", "stepcap", "killed", "crash", "limit", "timeout", "jobkill"};
static void jstr(FILE* f, const char* k, const char* v) { fprintf(f, "%s ", k); for (; *v; v++) fputc(*v == '\n' ? ' ' : *v, f); fputc('\n', f); }
static void write_result(const std::string& out) {
  FILE* f = real_fopen((out + ".res").c_str(), "w");
  fprintf(f, "status %s\n", STN[sh->status]);
  for (int i = 0; i < sh->nranks; i++) fprintf(f, "rank %d %d %d %d %d\n", i, sh->exited[i], sh->exit_code[i], sh->aborted[i], sh->finalized[i]);
  fprintf(f, "points %llu\nnow %llu\nhash %016llx\nswitches %llu\nfsops %llu\nmemacc %llu\nsyncops %llu\nallocs %llu\nnthreads %llu\nmsgs %llu\nshortio %llu\ntimejumps %llu\nndev %u\ndevover %u\nmaxbusy %llu\ntorn %llu\nlibwrites %llu\n",
    (unsigned long long)sh->points, (unsigned long long)sh->now, (unsigned long long)sh->hash, (unsigned long long)sh->switches, (unsigned long long)sh->fsops, (unsigned long long)sh->memacc, (unsigned long long)sh->syncops, (unsigned long long)sh->allocs, (unsigned long long)sh->nthreads, (unsigned long long)sh->msgs, (unsigned long long)sh->shortio, (unsigned long long)sh->timejumps, sh->ndev, sh->devover, (unsigned long long)sh->maxbusy, (unsigned long long)sh->torn, (unsigned long long)sh->libwrites);
  fprintf(f, "fired"); for (int i = 0; i < K_NKINDS; i++) fprintf(f, " %llu", (unsigned long long)sh->fired[i]); fprintf(f, "\nfsfired"); for (int i = 0; i < F_NCLASS; i++) fprintf(f, " %llu", (unsigned long long)sh->fsfired[i]); fprintf(f, "\nfscount"); for (int i = 0; i < F_NCLASS; i++) fprintf(f, " %llu", (unsigned long long)sh->fscount[i]); fprintf(f, "\n");
  jstr(f, "mpierr", sh->mpierr); jstr(f, "msg", sh->msg); jstr(f, "where", sh->where);
  auto sym = [&](u64 pc) { Dl_info di; char b[512]; if (dladdr((void*)pc, &di)) snprintf(b, sizeof b, "%s+0x%llx %s", di.dli_fname, (unsigned long long)(pc - (u64)di.dli_fbase), di.dli_sname ? di.dli_sname : "?"); else snprintf(b, sizeof b, "? 0 ?"); return std::string(b); };
  for (u32 i = 0; i < sh->nrace; i++) { RaceRep& r = sh->race[i]; fprintf(f, "race %s %d %d | %s %d %d | %d\n", r.w1 == 2 ? "outside" : r.w1 ? "write" : "read", r.t1, 0, r.w2 ? "write" : "read", r.t2, 0, r.size); fprintf(f, "racepc %s\nracepc %s\n", sym(r.pc1).c_str(), sym(r.pc2).c_str()); }
  for (u64 i = 0; i < sh->nworkers; i++) fprintf(f, "speed %llu\n", (unsigned long long)sh->workerspeed[i]);
  if (sh->wantbusy) for (u64 i = 0; i < sh->nbusy; i++) fprintf(f, "busy %llu %llu\n", (unsigned long long)sh->busyend[i], (unsigned long long)sh->busydur[i]);
  if (sh->status == ST_CRASH) fprintf(f, "crash %d %s\n", sh->crash_sig, sym(sh->crash_pc).c_str());
  real_fclose(f);
  f = real_fopen((out + ".dev").c_str(), "wb"); fwrite(sh->dev, sizeof(Dev), sh->ndev, f); real_fclose(f);
  f = real_fopen((out + ".jnl").c_str(), "wb"); fwrite(sh->jnl, 1, sh->njnl, f); real_fclose(f);
}
static void reset_shared() {
  u64 dv = sh->ndev * sizeof(Dev), jn = sh->njnl;
  memset((void*)sh, 0, offsetof(Shared, dev));
  (void)dv; (void)jn;
}
int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(ADDR_NO_RANDOMIZE); if (!getenv("SIM_NOREEXEC")) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; size_t eq = a.find('='); std::string name = a.substr(0, eq), file = a.substr(eq + 1);
    void* h = dlopen(file.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen %s: %s\n", file.c_str(), dlerror()); return 3; }
    void* m = dlsym(h, "hycu_main"); if (!m) { fprintf(stderr, "no hycu_main in %s\n", file.c_str()); return 3; }
    libs[name] = (int (*)(int, char**))m;
  }
  // resolve real functions before forking
  get_pthread_create(); get_pthread_join(); get_pthread_mutex_lock(); get_pthread_mutex_unlock(); get_pthread_mutex_trylock(); get_pthread_cond_wait(); get_pthread_cond_signal(); get_pthread_cond_broadcast(); get_pthread_once(); get_clock_gettime(); get_fopen(); get_fdopen(); get_fclose(); get_fileno(); get_opendir(); get_fdopendir(); get_closedir(); get_readdir64(); get___cxa_guard_acquire(); get___cxa_guard_release(); get___cxa_guard_abort(); get_sem_wait(); get_sem_post(); get_pthread_detach(); get_pthread_cond_timedwait(); get_nanosleep(); get_clock_nanosleep(); get_gettimeofday();
  printf("READY\n"); fflush(stdout);
  char line[8192];
  while (fgets(line, sizeof line, stdin)) {
    char cmd[16], plan[3000], out[3000]; unsigned limit = 60;
    if (sscanf(line, "%15s %2999s %2999s %u", cmd, plan, out, &limit) < 3) { printf("ERR\n"); fflush(stdout); continue; }
    reset_shared();
    pid_t pid = fork();
    if (pid == 0) child(plan, out);
    int ws = 0; bool to = false;
    struct timespec t0, t1; get_clock_gettime()(CLOCK_MONOTONIC, &t0);
    sigset_t ch; sigemptyset(&ch); sigaddset(&ch, SIGCHLD); 
    while (true) {
      pid_t r = waitpid(pid, &ws, WNOHANG); if (r == pid) break;
      struct timespec w = {0, 2000000}; sigprocmask(SIG_BLOCK, &ch, 0); siginfo_t si; if (sigtimedwait(&ch, &si, &w) < 0 && errno != EAGAIN) {}
      get_clock_gettime()(CLOCK_MONOTONIC, &t1);
      if (!to && t1.tv_sec - t0.tv_sec > (long)limit) { to = true; kill(pid, SIGKILL); }
    }
    if (to) sh->status = ST_TIMEOUT;
    else if (WIFSIGNALED(ws) && sh->status == ST_NONE) { sh->status = ST_CRASH; sh->crash_sig = WTERMSIG(ws); }
    write_result(out);
    printf("DONE %s\n", STN[sh->status]); fflush(stdout);
  }
  return 0;
}
