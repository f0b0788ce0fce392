// Deterministic simulator: shared declarations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <pthread.h>
#include <atomic>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

static const u64 INF = ~0ull;
static const int MAXT = 1000;         // threads per run
static const int MAXR = 9;           // MPI ranks per run
static const int MAXDEV = 1 << 20;   // logged decisions per run
static const u64 MAXJ = 64ull << 20; // bytes of journal per run

// kinds of decisions (deviations from the benign default)
enum Kind : u8 {
  K_SWITCH = 1, K_PICK, K_SPURIOUS, K_NOTIFY, K_STALL, K_CLOCK, K_FS, K_ALLOC, K_THREAD,
  K_NETDELAY, K_RENDEZVOUS, K_MPIPICK, K_READDIR, K_OVERSLEEP, K_RANKKILL, K_NKINDS
};
// classes of file operations
enum FsClass : u8 {
  F_OPENW = 0, F_OPENR, F_WRITE, F_CLOSE, F_FSYNC, F_RENAME, F_UNLINK, F_MKDIR, F_READ, F_OPENDIR,
  F_READDIR, F_STAT, F_TRUNC, F_NCLASS
};
enum Status : int {
  ST_NONE = 0, ST_EXIT, ST_DEADLOCK, ST_NOPROGRESS, ST_STEPCAP, ST_KILLED, ST_CRASH, ST_LIMIT, ST_TIMEOUT, ST_JOBKILL
};

struct Dev { u64 n; i64 val; u16 tid; u8 kind; u8 pad[5]; };

struct RaceRep { u64 addr, pc1, pc2; int t1, t2, w1, w2, size; };

struct Shared {
  int status; int crash_sig; u64 crash_pc;
  int nranks; int exit_code[MAXR]; u8 exited[MAXR], aborted[MAXR], finalized[MAXR];
  u64 points, now, hash, switches, fsops, memacc, syncops, allocs, nthreads;
  u64 fired[K_NKINDS]; u64 fsfired[F_NCLASS]; u64 fscount[F_NCLASS]; u64 shortio, timejumps, msgs, rdraws, torn, libwrites;
  u64 maxbusy, lastwork, handhash, nworkers, workerspeed[64];
  u32 ndev; u32 devover; u64 njnl; u32 nrace; RaceRep race[64];
  char mpierr[1024]; char msg[2048];
  char where[8192];
  u64 wantbusy, nbusy, busyend[8192], busydur[8192];
  Dev dev[MAXDEV];
  char jnl[MAXJ];
};
