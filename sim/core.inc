// Scheduler, simulated time, synchronisation primitives. Included into simhost.cc.

enum St : u8 { S_READY, S_RUN, S_BLOCKED, S_DONE, S_DEAD };
enum WK : u8 { W_NONE, W_MUTEX, W_COND, W_SLEEP, W_JOIN, W_ONCE, W_GUARD, W_FUTEX, W_RW, W_SEM, W_MPI };
static const char* const WKNAME[] = {"-", "mutex", "cond", "sleep", "join", "once", "guard", "futex", "rwlock", "sem", "mpi"};

struct Thr {
  int id, rank; St st; WK wk; bool timedout, is_main, detached, rtwait, signaled;
  const void* wobj; u64 wake, stall;
  u64 n;          // instrumentation points passed by this thread (memory accesses + sync operations)
  u64 pre_n;      // next memory-level preemption opportunity (record mode)
  u64 na;         // allocations
  u64 busy0, acc0, idle0, sync0, polled, polln, since; i64 prio; u64 speed, vr;
  std::atomic<u32> go;
  pthread_t real; bool created; pid_t ktid;
  void* (*fn)(void*); void* arg; void* ret;
  uintptr_t slo, shi;
  u32 vc[MAXT], relf[MAXT], acqp[MAXT]; bool has_relf, has_acqp; // clocks: own, at the last release fence, of relaxed loads
};

struct FsFault { int cls; u64 ord, len; int err; };
struct FsProb { int cls; double p; int err; };
struct Plan {
  std::string prog; int nranks = 1, extras = 0; std::vector<std::string> rargs[MAXR]; u64 startdelay[MAXR] = {0}; std::vector<std::string> libs, args; std::string cwd = "/", root;
  u64 seed = 1, cseed = 1; bool replay = false; std::string devfile;
  int strat = 0; double psw = 0; u64 gap = 0; int pctk = 3; u64 plen = 100000; u64 quantum = 300000;
  u64 cmem = 1, csync = 1000; int speedvar = 0; u64 wspeed = 1; bool par = false;
  double pspur = 0, pstall = 0, pover = 0, pclock = 0; u64 stallmax = 0, overmax = 0; u64 scode = 0; double pscode = 0; u64 clockmax = 0; // scode: the kind of operation before which stalls are frequent
  bool busy = false; u64 tbase = 1700000000ull; u64 skew = 0;
  u64 eager = INF; double prdv = 0; u64 dbase = 1000, djit = 0; bool mpirand = false;
  std::vector<FsFault> faults; std::vector<FsProb> fprobs; i64 diskcap = -1; double pshortr = 0, pshortw = 0;
  bool shuffle = false;
  u64 allocord = 0, alloclen = 0; u64 thrord = 0, thrlen = 0;
  u64 rdseed = 1; u64 rdmod = 0;
  u64 killpt = 0, killop = 0, killtime = 0; int killmode = 0; u64 killlen = 0; int killrank = -1; u64 killdelay = 0;
  bool race = false; u64 stepcap = 2000000000ull, livecap = 7200ull * 1000000000ull; int ncpu = 4;
  bool nosnap = false;
};
static Plan P;
static Shared* sh;
static Thr* T[MAXT]; static int nT;
static __thread Thr* self; static __thread int in_sim;
static i64 cd = INT64_MAX, slice_ = INT64_MAX;
static bool g_on = false, g_race = false;
static u64 qused, next_change, idle_step, epoch = 1;
static void happened() { epoch++; idle_step = 0; } // something that a polling thread may be waiting for
static const u64 SPIN = 20000000; // points without synchronisation before a thread counts as waiting for memory to change
static int changes_left; static i64 low_prio = -1;
static u64 job_kill_at = INF; static i64 rt_off[MAXR];
static pid_t reap_tid = 0;

struct G { G() { ++in_sim; } ~G() { --in_sim; } };

// ---------- randomness and hashing
static u64 rs[2];
static u64 splitmix(u64& x) { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static u64 mixh(u64 a, u64 b) { u64 x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull); return splitmix(x); }
static u64 rnd() { u64 a = rs[0], b = rs[1], r = a + b; b ^= a; rs[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); rs[1] = (b << 37) | (b >> 27); return r; }
static double rndf() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static u64 rndn(u64 n) { return n ? rnd() % n : 0; }
static u64 rnd_log(u64 max) { if (max < 2) return max; double e = rndf() * __builtin_log((double)max); u64 v = (u64)__builtin_exp(e); return v < 1 ? 1 : v > max ? max : v; }
static u64 rnd_exp(u64 mean) { double u = rndf(); if (u < 1e-12) u = 1e-12; double v = -__builtin_log(u) * (double)mean; return v < 1 ? 1 : (u64)v; }
static inline void H(u64 a, u64 b) { sh->hash = mixh(sh->hash ^ a, b); }

// ---------- deviations
static std::unordered_map<u64, i64> replay_map;
static std::vector<u64> replay_sw[MAXT];
static u64 dkey(int tid, u8 kind, u64 n) { return (n << 16) ^ ((u64)tid << 5) ^ kind; }
static i64 lookup(u8 kind, u64 n) { auto it = replay_map.find(dkey(self->id, kind, n)); return it == replay_map.end() ? 0 : it->second; }
static u32 nspur;
static void calm_down() { // enough disturbance for one run: everything benign from here on
  P.strat = 0; P.pspur = P.pscode = P.pstall = P.pover = P.pclock = P.prdv = P.pshortr = P.pshortw = 0; P.djit = 0; P.mpirand = false; P.shuffle = false; P.fprobs.clear(); changes_left = 0;
}
static void logdev(u8 kind, u64 n, i64 val) {
  if (sh->ndev >= 300000 && P.strat != 3) calm_down();
  if (sh->ndev >= (u32)MAXDEV) { sh->devover = 1; return; }
  Dev& d = sh->dev[sh->ndev++]; d.n = n; d.val = val; d.tid = self->id; d.kind = kind;
}
static inline void fired(u8 kind) { sh->fired[kind]++; }

// ---------- ending a run
static void describe() {
  char* p = sh->where; size_t left = sizeof sh->where - 1;
  for (int i = 0; i < nT; i++) {
    Thr* t = T[i];
    int k = snprintf(p, left, "thread %d rank %d%s: %s", t->id, t->rank, t->is_main ? " (initial)" : "",
      t->st == S_RUN ? "running" : t->st == S_READY ? (t->stall > sh->now ? "stalled" : "ready") : t->st == S_DONE ? "finished" : t->st == S_DEAD ? "dead" : "blocked on ");
    if (k < 0 || (size_t)k >= left) break; p += k; left -= k;
    k = snprintf(p, left, "%s%s; ", t->st == S_BLOCKED ? WKNAME[t->wk] : "", t->st == S_BLOCKED && t->wake != INF ? " (timed)" : "");
    if (k < 0 || (size_t)k >= left) break; p += k; left -= k;
  }
}
static void account();
[[noreturn]] static void finish(int status) {
  if (self) account();
  describe(); sh->status = status; sh->nthreads = nT;
  real_exit_now();
}
static inline void check_limits() {
  if (P.killpt && P.killrank < 0 && sh->points >= P.killpt) finish(ST_KILLED);
  if (sh->points >= P.stepcap) finish(ST_STEPCAP);
  if (sh->now >= job_kill_at) finish(ST_JOBKILL);
  if (P.killtime && sh->now >= P.killtime && P.killrank < 0) finish(ST_KILLED);
}

// ---------- parking
static void futex_wait(std::atomic<u32>* a, u32 v) { real_syscall6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(std::atomic<u32>* a) { real_syscall6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void unpark(Thr* t) { t->go.store(1); futex_wake(&t->go); }
static void park(Thr* t) {
  while (!t->go.load()) futex_wait(&t->go, 0);
  t->go.store(0);
  if (reap_tid) { // wait until the kernel thread that handed over is really gone
    pid_t r = reap_tid; reap_tid = 0; pid_t me = getpid();
    while (real_syscall6(SYS_tgkill, me, r, 0, 0, 0, 0) == 0) real_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  }
}

// ---------- accounting and slices
static const u64 WAKE = 200;
static u64 par_k = 1; // working threads that share the time, where each is to have a processor of its own
static void account() {
  i64 used = slice_ - cd; slice_ = cd;
  if (used > 0) {
    self->n += used; sh->points += used; sh->memacc += used; qused += used;
    // what a thread does right after waiting takes hardly any time, however long its packages take
    u64 d = self->n - used - self->acc0, cheap = d < WAKE ? WAKE - d : 0; if (cheap > (u64)used) cheap = used;
    u64 c = cheap * (P.cmem < 10 ? P.cmem : 10) + ((u64)used - cheap) * P.cmem * self->speed;
    sh->now += c / par_k; self->vr += c;
  }
}
static void new_slice() {
  if (P.par) { par_k = 0; if (!self->is_main) for (int i = 0; i < nT; i++) if (!T[i]->is_main && (T[i] == self || (T[i]->st == S_READY && T[i]->stall <= sh->now))) par_k++; if (!par_k) par_k = 1; }
  u64 len = 1ull << 40;
  auto lim = [&](u64 x) { if (x < 1) x = 1; if (x < len) len = x; };
  u64 c = P.cmem * self->speed; if (!c) c = 1;
  if (P.killpt) lim(P.killpt > sh->points ? P.killpt - sh->points : 1);
  if (P.killtime) lim(P.killtime > sh->now ? (P.killtime - sh->now) / c + 1 : 1);
  lim(P.stepcap > sh->points ? P.stepcap - sh->points : 1);
  if (job_kill_at != INF) lim(job_kill_at > sh->now ? (job_kill_at - sh->now) / c + 1 : 1);
  lim(P.quantum > qused ? P.quantum - qused : 1);
  if (P.strat != 3) { u64 e = self->sync0 + SPIN; lim(e > self->n ? e - self->n : SPIN); }
  if (P.replay) {
    auto& v = replay_sw[self->id];
    auto it = std::upper_bound(v.begin(), v.end(), self->n);
    if (it != v.end()) lim(*it - self->n);
  } else {
    if (P.strat == 1 && P.gap) { if (self->pre_n <= self->n) self->pre_n = self->n + rnd_exp(P.gap); lim(self->pre_n - self->n); }
    if (P.strat == 2 && changes_left > 0) lim(next_change > sh->points ? next_change - sh->points : 1);
    if (P.strat) { // sleepers that wake up may preempt
      u64 w = INF; for (int i = 0; i < nT; i++) { if (T[i]->st == S_BLOCKED && T[i]->wake < w) w = T[i]->wake; if (T[i]->st == S_READY && T[i]->stall > sh->now && T[i]->stall < w) w = T[i]->stall; }
      if (w != INF) lim(w > sh->now ? (w - sh->now) / c + 1 : 1);
    }
  }
  cd = slice_ = (i64)len;
}
static inline bool is_ready(Thr* t) { return t->st == S_READY && t->stall <= sh->now; }
static void wake_sleepers() {
  for (int i = 0; i < nT; i++) { Thr* t = T[i]; if (t->st == S_BLOCKED && t->wake <= sh->now) { happened(); t->st = S_READY; t->timedout = true; t->since = sh->points; } }
}
static Thr* cyclic_ready(int after) { for (int k = 1; k <= nT; k++) { Thr* t = T[(after + k) % nT]; if (is_ready(t)) return t; } return nullptr; }
static int collect(Thr** a) { int c = 0; for (int i = 0; i < nT; i++) if (is_ready(T[i])) a[c++] = T[i]; return c; }
// the thread of highest priority, or one that has not been let run for long, which then keeps running for a while
static u64 guard_until;
static Thr* top_prio(Thr** a, int c, Thr* plus) {
  if (plus && sh->points < guard_until) return plus;
  u64 lim = P.quantum * 10 > 100000 ? P.quantum * 10 : 100000;
  for (int i = 0; i < c; i++) if (sh->points > a[i]->since + lim) { guard_until = sh->points + lim / 10; return a[i]; }
  guard_until = 0;
  Thr* b = plus; for (int i = 0; i < c; i++) if (!b || a[i]->prio > b->prio) b = a[i]; return b;
}

// fair share: main threads that wake up go first unless they take too much, then the thread that has run least
static u64 minvr;
static const u64 main_bonus = 1000000000;
static Thr* fairest(Thr* plus) {
  Thr* b = plus, *m = nullptr;
  for (int i = 0; i < nT; i++) if (T[i] != plus && is_ready(T[i])) {
    if (T[i]->timedout && T[i]->is_main && !m) m = T[i];
    if (!b || T[i]->vr < b->vr) b = T[i];
  }
  if (m && m->vr <= b->vr + main_bonus) return m;
  if (b && b->vr > minvr) minvr = b->vr;
  return b;
}
static void resumed() {
  if (P.strat == 3 && self->vr < minvr) self->vr = minvr;
  if (self->signaled) { self->signaled = false; if (!self->is_main) sh->lastwork = sh->now; }
}
static void switch_to(Thr* nx) {
  sh->switches++; H(0x51, (u64)self->id << 32 ^ nx->id << 1); H(self->n, 7);
  qused = 0; nx->st = S_RUN; Thr* me = self; unpark(nx); park(me);
  me->st = S_RUN; // set by the waker already
}
// the current thread can go on: perhaps preempt it
static void maybe_switch(bool mem) {
  wake_sleepers();
  Thr* def = self;
  if (qused >= P.quantum) { qused = 0; Thr* t = cyclic_ready(self->id); if (t) def = t; }
  Thr* nx = def;
  if (P.replay) {
    i64 v = lookup(K_SWITCH, self->n);
    if (v > 0 && v <= nT && (T[v - 1] == self || is_ready(T[v - 1]))) nx = T[v - 1];
  } else if (P.strat == 1) {
    Thr* a[MAXT]; int c = collect(a);
    bool doit = mem ? (P.gap && self->n >= self->pre_n) : rndf() < P.psw;
    if (mem && P.gap && self->n >= self->pre_n) self->pre_n = self->n + rnd_exp(P.gap);
    if (c && doit) nx = a[rndn(c)];
  } else if (P.strat == 2) {
    if (changes_left > 0 && sh->points >= next_change) { self->prio = low_prio--; changes_left--; next_change = sh->points + 1 + rndn(P.plen / (P.pctk + 1) * 2 + 1); }
    Thr* a[MAXT]; int c = collect(a); nx = top_prio(a, c, self);
    if (def != self && nx == self) { nx = def; } // do not let one thread run for ever
  } else if (P.strat == 3) {
    if (def != self) nx = fairest(self);
    else for (int i = 0; i < nT; i++) if (is_ready(T[i]) && T[i]->timedout && T[i] != self && T[i]->is_main && T[i]->vr <= self->vr + main_bonus) { nx = T[i]; break; }
  }
  if (!P.replay && nx != def) { logdev(K_SWITCH, self->n, nx->id + 1); fired(K_SWITCH); }
  if (nx != self) { self->st = S_READY; self->since = sh->points; switch_to(nx); }
}
static u64 next_event() { // when something happens although nobody runs
  u64 t = job_kill_at;
  if (P.killtime && P.killrank < 0 && P.killtime < t) t = P.killtime;
  for (int i = 0; i < nT; i++) { if (T[i]->st == S_BLOCKED && T[i]->wake < t) t = T[i]->wake; if (T[i]->st == S_READY && T[i]->stall > sh->now && T[i]->stall < t) t = T[i]->stall; }
  return t;
}
static void check_progress() {
  u64 lw = sh->lastwork; for (int i = 0; i < nT; i++) if (T[i]->st == S_READY && T[i]->stall > lw) lw = T[i]->stall;
  if (sh->now > lw && sh->now - lw > P.livecap) finish(ST_NOPROGRESS);
}
static Thr* pick_blocked() {
  while (true) {
    wake_sleepers();
    Thr* def = cyclic_ready(self->id);
    if (def) {
      Thr* nx = def;
      if (P.replay) { i64 v = lookup(K_PICK, self->n); if (v > 0 && v <= nT && is_ready(T[v - 1])) nx = T[v - 1]; }
      else {
        Thr* a[MAXT]; int c = collect(a);
        if (P.strat == 1) nx = a[rndn(c)];
        else if (P.strat == 2) nx = top_prio(a, c, nullptr);
        else if (P.strat == 3) nx = fairest(nullptr);
        if (nx != def) { logdev(K_PICK, self->n, nx->id + 1); fired(K_PICK); }
      }
      return nx;
    }
    u64 t = next_event();
    if (t == INF) finish(ST_DEADLOCK);
    if (t > sh->now) { sh->now = t; sh->timejumps++; }
    check_limits(); check_progress();
  }
}
static void reschedule_blocked() { // self is not runnable now
  Thr* nx = pick_blocked();
  if (nx == self) { self->st = S_RUN; qused = 0; } else switch_to(nx);
}
static void block(const void* o, WK k, u64 wake) {
  account(); self->n++; sh->points++; sh->syncops++;
  if (!self->is_main && self->n - self->acc0 > 3000) sh->lastwork = sh->now;
  u64 b = sh->now - self->busy0; if (!self->is_main && b > sh->maxbusy) sh->maxbusy = b;
  bool idle = k == W_COND || k == W_SLEEP || k == W_FUTEX || k == W_SEM;
  if (idle && !self->is_main && sh->nbusy < 8192) { sh->busyend[sh->nbusy] = sh->now; sh->busydur[sh->nbusy++] = sh->now - self->idle0; }
  H(0xb0 + k, (u64)self->id << 40 ^ self->n);
  self->st = S_BLOCKED; self->wobj = o; self->wk = k; self->wake = wake; self->timedout = false;
  reschedule_blocked();
  self->wk = W_NONE; self->wobj = nullptr; self->wake = INF; self->rtwait = false;
  self->busy0 = sh->now; self->acc0 = self->sync0 = self->polln = self->n; happened(); if (idle) self->idle0 = sh->now; resumed();
  check_limits(); new_slice();
}
static void wake_thread(Thr* t) { if (t->st == S_BLOCKED) { happened(); t->st = S_READY; t->since = sh->points; t->signaled = true; t->timedout = false; } }
static void wake_all(const void* o, WK k) { for (int i = 0; i < nT; i++) if (T[i]->st == S_BLOCKED && T[i]->wobj == o && T[i]->wk == k) wake_thread(T[i]); }

static void stall_self(u64 d) {
  self->stall = sh->now + d; self->st = S_READY; self->timedout = false;
  self->wobj = nullptr; reschedule_blocked(); self->stall = 0;
}
static void kill_rank_now();
// the current thread only waits for others by polling: if nobody else can run, time passes until something happens
static u64 next_arrivals();
static void poll_idle(bool jump_only) {
  wake_sleepers();
  if (!jump_only) {
    if (self->n - self->polln > 3000) sh->lastwork = sh->now;
    self->polln = self->acc0 = self->n;
  }
  self->polled = epoch;
  // others that can run hold this up, unless they only poll, too, and nothing has happened since
  for (int i = 0; i < nT; i++) if (T[i] != self && is_ready(T[i]) && !(T[i]->polled == epoch && T[i]->n - T[i]->polln < 2000)) { qused = P.quantum; return; }
  u64 t = next_event(), h = next_arrivals(); if (h < t) t = h;
  if (t == INF) { if (jump_only) return; idle_step = !idle_step ? 1000 : idle_step < 500000000 ? idle_step * 2 : idle_step; t = sh->now + idle_step; }
  else happened();
  if (t > sh->now) { sh->now = t; sh->timejumps++; }
  qused = P.quantum; check_limits(); check_progress(); wake_sleepers();
}
// a synchronisation-level point of the current thread
static void point(u64 code) {
  account(); self->n++; sh->points++; sh->syncops++; qused++; self->sync0 = self->n;
  sh->now += P.csync * self->speed / par_k; self->vr += P.csync * self->speed;
  H(code, (u64)self->id << 40 ^ self->n);
  check_limits();
  if (P.killrank >= 0 && P.killpt && sh->points >= P.killpt) kill_rank_now();
  i64 st = 0;
  if (P.replay) st = lookup(K_STALL, self->n);
  else if ((P.pstall > 0 && rndf() < P.pstall) || (P.pscode > 0 && code == P.scode && rndf() < P.pscode)) { st = (i64)rnd_log(P.stallmax); logdev(K_STALL, self->n, st); }
  if (st > 0) { fired(K_STALL); stall_self((u64)st); check_limits(); }
  else maybe_switch(false);
  new_slice();
}
static void mem_expire() {
  if (!self) { cd = slice_ = INT64_MAX; return; }
  if (in_sim) { account(); cd = slice_ = 1 << 20; return; }
  G g; account(); check_limits();
  if (P.strat != 3 && self->n - self->sync0 >= SPIN) { self->sync0 = self->n; poll_idle(true); }
  maybe_switch(true);
  new_slice();
}

// ---------- happens-before
struct VC { u32 n; u32* c; };
static std::unordered_map<uintptr_t, VC> vcs;
static VC* vcof(const void* p) { VC& v = vcs[(uintptr_t)p]; if (v.n < (u32)nT) { u32 m = (nT + 7) & ~7; v.c = (u32*)realloc(v.c, m * sizeof(u32)); for (u32 i = v.n; i < m; i++) v.c[i] = 0; v.n = m; } return &v; }
static void vc_max(u32* a, const VC& v) { for (int i = 0; i < nT && i < (int)v.n; i++) if (v.c[i] > a[i]) a[i] = v.c[i]; }
static void hb_acquire(const void* p) { if (!g_race) return; auto it = vcs.find((uintptr_t)p); if (it != vcs.end()) vc_max(self->vc, it->second); }
static void hb_release(const void* p) { if (!g_race) return; VC* v = vcof(p); for (int i = 0; i < nT; i++) if (self->vc[i] > v->c[i]) v->c[i] = self->vc[i]; self->vc[self->id]++; }
static void hb_relaxed_load(const void* p) { auto it = vcs.find((uintptr_t)p); if (it != vcs.end()) { self->has_acqp = true; vc_max(self->acqp, it->second); } }
static void hb_relaxed_store(const void* p) { if (!self->has_relf) return; VC* v = vcof(p); for (int i = 0; i < nT; i++) if (self->relf[i] > v->c[i]) v->c[i] = self->relf[i]; }
static void hb_fence(bool a, bool r) {
  if (a && self->has_acqp) for (int i = 0; i < nT; i++) if (self->acqp[i] > self->vc[i]) self->vc[i] = self->acqp[i];
  if (r) { self->has_relf = true; memcpy(self->relf, self->vc, nT * sizeof(u32)); self->vc[self->id]++; }
}

// ---------- threads
static pthread_key_t exit_key;
static void thread_gone(Thr* me) { // last thing a simulated thread does
  G g; self = me; in_sim = 1;
  account(); me->n++; sh->lastwork = sh->now;
  hb_release(me); me->st = S_DONE; H(0xd0, me->id);
  wake_all(me, W_JOIN);
  Thr* nx = pick_blocked();
  sh->switches++; qused = 0; nx->st = S_RUN; reap_tid = me->ktid; self = nullptr; unpark(nx);
}
static void exit_key_dtor(void* v) {
  Thr* me = (Thr*)((uintptr_t)v & ~7ull); u64 k = (uintptr_t)v & 7;
  if (k < 2) pthread_setspecific(exit_key, (void*)((uintptr_t)me | (k + 1))); else thread_gone(me);
}
static void rank_exit(int code, bool aborted, bool finalized);
static void* trampoline(void* a) {
  Thr* t = (Thr*)a; in_sim = 1; self = t; t->ktid = (pid_t)real_syscall6(SYS_gettid, 0, 0, 0, 0, 0, 0);
  pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  t->slo = (uintptr_t)lo; t->shi = t->slo + sz;
  t->created = true; std::atomic_thread_fence(std::memory_order_seq_cst); futex_ready();
  self = nullptr; park(t); self = t;
  pthread_setspecific(exit_key, t);
  t->st = S_RUN; t->busy0 = t->idle0 = sh->now; if (!t->is_main) sh->lastwork = sh->now;
  new_slice(); in_sim = 0;
  void* r = t->fn(t->arg);
  in_sim = 1; t->ret = r;
  if (t->is_main) rank_exit((int)(intptr_t)r, false, sh->finalized[t->rank]);
  in_sim = 0;
  return r;
}
static Thr* new_thread(int rank, bool is_main, void* (*fn)(void*), void* arg) {
  if (nT >= MAXT) { snprintf(sh->msg, sizeof sh->msg, "too many threads"); finish(ST_LIMIT); }
  Thr* t = new (aligned_alloc(64, (sizeof(Thr) + 63) & ~63ull)) Thr();
  memset((void*)t, 0, sizeof *t);
  t->id = nT; t->rank = rank; t->is_main = is_main; t->fn = fn; t->arg = arg; t->wake = INF; t->st = S_READY; t->since = sh->points;
  t->prio = (i64)(1000 + (P.replay ? 0 : rndn(1000000))); t->speed = 1;
  if (!is_main) t->speed = P.wspeed;
  if (P.speedvar) t->speed *= 1ull << (mixh(P.cseed, t->id) % (P.speedvar + 1));
  if (!is_main && P.par && sh->nworkers < 64) sh->workerspeed[sh->nworkers++] = t->speed / P.wspeed;
  if (self) for (int i = 0; i < MAXT; i++) t->vc[i] = self->vc[i];
  t->vc[t->id] = 1; if (self) self->vc[self->id]++;
  return t;
}
static int start_thread_(Thr* t) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
  int r = real_pthread_create(&t->real, &at, trampoline, t); pthread_attr_destroy(&at);
  if (r) return r;
  T[nT++] = t; wait_ready(&t->created);
  return 0;
}

// ---------- mutexes etc. (state lives in the pthread objects themselves)
static int mtx_lock(pthread_mutex_t* m, u64 wake, bool tryonly) {
  point(tryonly ? 0x12 : 0x10);
  auto& d = m->__data; int kind = d.__kind & 3;
  if (d.__owner == self->id + 1) {
    if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { d.__count++; return 0; }
    if (tryonly) return EBUSY;
    if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
  }
  while (d.__owner) {
    if (tryonly) return EBUSY;
    if (wake != INF && sh->now >= wake) return ETIMEDOUT;
    block(m, W_MUTEX, wake);
  }
  d.__owner = self->id + 1; d.__lock = 1; d.__count = 1;
  hb_acquire(m);
  return 0;
}
static void mtx_release(pthread_mutex_t* m) { // no scheduling point
  auto& d = m->__data;
  hb_release(m); d.__owner = 0; d.__lock = 0; d.__count = 0;
  wake_all(m, W_MUTEX);
}
static int mtx_unlock(pthread_mutex_t* m) {
  auto& d = m->__data;
  if (d.__owner != self->id + 1 && (d.__kind & 3) != PTHREAD_MUTEX_NORMAL) return EPERM;
  if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && d.__count > 1) { d.__count--; return 0; }
  mtx_release(m); point(0x11); return 0;
}
static int cnd_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 wake, bool rt) {
  point(0x20);
  if (wake != INF && wake <= sh->now) { mtx_release(m); point(0x22); mtx_lock(m, INF, false); return ETIMEDOUT; }
  mtx_release(m);
  i64 sp = 0;
  if (P.replay) sp = lookup(K_SPURIOUS, self->n);
  else if (P.pspur > 0 && nspur < 3000 && rndf() < P.pspur) { nspur++; sp = 1 + (i64)rnd_log(1000000000ull); logdev(K_SPURIOUS, self->n, sp); }
  u64 w = wake; if (sp > 0) { fired(K_SPURIOUS); u64 s = sh->now + (u64)sp; if (s < w) w = s; else sp = 0; }
  self->rtwait = rt;
  block(c, W_COND, w);
  bool to = self->timedout && sp <= 0;
  mtx_lock(m, INF, false);
  return to ? ETIMEDOUT : 0;
}
static void cnd_signal(pthread_cond_t* c, bool all) {
  point(all ? 0x24 : 0x23); 
  if (all) { wake_all(c, W_COND); }
  else {
    Thr* a[MAXT]; int k = 0;
    for (int i = 0; i < nT; i++) if (T[i]->st == S_BLOCKED && T[i]->wk == W_COND && T[i]->wobj == c) a[k++] = T[i];
    if (k) {
      int ix = 0;
      if (k > 1) { if (P.replay) { ix = (int)lookup(K_NOTIFY, self->n); if (ix >= k) ix = 0; } else if (P.strat) { ix = (int)rndn(k); if (ix) { logdev(K_NOTIFY, self->n, ix); fired(K_NOTIFY); } } }
      wake_thread(a[ix]);
    }
  }
  point(0x25);
}

// ---------- clocks
static i64 rt_now() { return (i64)(P.tbase * 1000000000ull + sh->now) + rt_off[self->rank] + (i64)(P.skew * self->rank); }
static u64 mono_now() { return 1000000000000ull + sh->now + self->rank * 777000000ull; }
static void clock_point() {
  point(0x30);
  i64 j = 0;
  if (P.replay) j = lookup(K_CLOCK, self->n);
  else if (P.pclock > 0 && rndf() < P.pclock) { j = (i64)rnd_log(P.clockmax); if (rnd() & 1) j = -j; logdev(K_CLOCK, self->n, j); }
  if (j) {
    fired(K_CLOCK); rt_off[self->rank] += j;
    for (int i = 0; i < nT; i++) if (T[i]->st == S_BLOCKED && T[i]->rtwait && T[i]->wake != INF && T[i]->rank == self->rank) {
      i64 w = (i64)T[i]->wake - j; T[i]->wake = w < (i64)sh->now ? sh->now : (u64)w;
    }
  }
}
static u64 abs_to_wake(clockid_t ck, const struct timespec* ts) {
  i64 t = ts->tv_sec > 9000000000ll ? INT64_MAX : (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  i64 cur = ck == CLOCK_REALTIME ? rt_now() : (i64)mono_now();
  i64 d = t - cur; if (d < 0) d = 0;
  if (d > 4000000000000000000ll) return INF - 1;
  return sh->now + (u64)d;
}
static void sim_sleep(u64 ns) {
  point(0x40);
  i64 ov = 0;
  if (P.replay) ov = lookup(K_OVERSLEEP, self->n);
  else if (P.pover > 0 && rndf() < P.pover) { ov = (i64)rnd_log(P.overmax); logdev(K_OVERSLEEP, self->n, ov); }
  if (ov > 0) { fired(K_OVERSLEEP); ns += (u64)ov; }
  block(nullptr, W_SLEEP, sh->now + ns);
}

// ---------- ends of ranks
static void retire_rank(int rank) { for (int i = 0; i < nT; i++) if (T[i]->rank == rank && T[i]->st != S_DONE) T[i]->st = S_DEAD; }
static void go_away() { // the current thread never runs again
  Thr* nx = pick_blocked(); Thr* me = self; sh->switches++; nx->st = S_RUN; unpark(nx);
  while (true) park(me);
}
static void rank_exit(int code, bool aborted, bool finalized) {
  account(); int r = self->rank;
  sh->exited[r] = 1; sh->exit_code[r] = code; sh->aborted[r] = aborted; H(0xe0 + r, code);
  if (P.prog != "mpi" && !P.extras) finish(ST_EXIT);
  retire_rank(r);
  bool all = true, bad = false;
  for (int i = 0; i < P.nranks + P.extras; i++) if (!sh->exited[i]) all = false;
  if (all) finish(ST_EXIT);
  if (P.prog == "mpi") for (int i = 0; i < P.nranks; i++) { if (!sh->exited[i]) all = false; else if (sh->aborted[i] || sh->exit_code[i] || !sh->finalized[i]) bad = true; }
  if (bad && job_kill_at == INF) job_kill_at = sh->now + P.killdelay;
  go_away();
}
static void kill_rank_now() {
  int r = P.killrank; P.killpt = 0; P.killrank = -1;
  if (r >= P.nranks || sh->exited[r]) return;
  sh->exited[r] = 1; sh->exit_code[r] = 137; sh->aborted[r] = 1; retire_rank(r);
  job_kill_at = sh->now + P.killdelay; fired(K_RANKKILL);
  if (self->rank == r) go_away();
}
