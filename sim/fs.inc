// File seam: real files below the scratch root, every operation journalled, delayed, failed or cut short by decision.

struct Fd { bool on, wr, dir, dsync; u32 h; std::string* path; };
static Fd fds[1024]; static u32 next_h;
static std::unordered_map<FILE*, int>* fmap;
struct DirList { std::vector<struct dirent64> e; size_t pos; };
static std::unordered_map<DIR*, DirList>* dmap;

static std::string abspath(const char* p) { std::string s = p[0] == '/' ? p : P.cwd + "/" + p; 
  std::string o; size_t i = 0; // lexically, without // . and ..
  while (i < s.size()) {
    size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string c = s.substr(i, j - i); i = j + 1;
    if (c.empty() || c == ".") continue;
    if (c == "..") { size_t k = o.rfind('/'); o = k == std::string::npos ? "" : o.substr(0, k); continue; }
    o += '/'; o += c;
  }
  return o.empty() ? "/" : o; }
static bool tracked(const std::string& p) { return !P.root.empty() && p.compare(0, P.root.size(), P.root) == 0 && (p.size() == P.root.size() || p[P.root.size()] == '/'); }
static bool tracked_fd(int fd) { return fd >= 0 && fd < 1024 && fds[fd].on; }
static std::string relp(const std::string& p) { return p.size() > P.root.size() ? p.substr(P.root.size() + 1) : ""; }

static void jnl(char type, u32 h, u64 off, const char* d1, size_t l1, const char* d2 = nullptr, size_t l2 = 0) {
  size_t need = 45 + l1 + l2;
  if (sh->njnl + need > MAXJ) { snprintf(sh->msg, sizeof sh->msg, "journal overflow"); finish(ST_LIMIT); }
  char* p = sh->jnl + sh->njnl; u32 a = (u32)l1, b = (u32)l2; u64 op = sh->fsops;
  p[0] = type; memcpy(p + 1, &h, 4); memcpy(p + 5, &off, 8); memcpy(p + 13, &sh->points, 8); memcpy(p + 21, &sh->now, 8); memcpy(p + 29, &op, 8); memcpy(p + 37, &a, 4); memcpy(p + 41, &b, 4);
  if (l1) memcpy(p + 45, d1, l1);
  if (l2) memcpy(p + 45 + l1, d2, l2);
  sh->njnl += need;
  u64 x = 0; for (size_t i = 0; i < l1; i++) x = x * 1099511628211ull + (u8)d1[i];
  for (size_t i = 0; i < l2; i++) x = x * 1099511628211ull + (u8)d2[i];
  H(0xf000 + type, x);
}
static void jnl1(char type, u32 h, u64 off, const std::string& a, const std::string& b = "") { jnl(type, h, off, a.data(), a.size(), b.data(), b.size()); }

// decides whether this operation fails; >0 errno, <0 -(short count), 0 fine
static i64 fs_decide(FsClass c, u64 size) {
  u64 ord = ++sh->fscount[c]; i64 v = 0;
  if (P.replay) v = lookup(K_FS, self->n);
  else {
    for (auto& f : P.faults) if (f.cls == (int)c && ord >= f.ord && ord < f.ord + f.len) v = f.err;
    if (!v) for (auto& f : P.fprobs) if (f.cls == (int)c && rndf() < f.p) v = f.err;
    if (!v && c == F_WRITE && P.diskcap >= 0 && (u64)P.diskcap < size) v = P.diskcap > 0 ? -P.diskcap : ENOSPC;
    if (!v && size > 1 && ((c == F_READ && P.pshortr > 0 && rndf() < P.pshortr) || (c == F_WRITE && P.pshortw > 0 && rndf() < P.pshortw))) v = -(i64)(1 + rndn(rnd() & 1 ? size - 1 : size - 1 < 16 ? size - 1 : 16));
    if (v) logdev(K_FS, self->n, v);
  }
  if (v > 0) { fired(K_FS); sh->fsfired[c]++; }
  if (v < 0) sh->shortio++;
  return v;
}
static void mut_before() { // a mutating operation is about to happen
  sh->fsops++; sh->lastwork = sh->now;
  if (P.killop && sh->fsops == P.killop && P.killmode == 0) finish(ST_KILLED);
}
static void mut_after() { if (P.killop && sh->fsops == P.killop && P.killmode != 0) finish(ST_KILLED); }

static int do_open(int dirfd, const char* path, int flags, mode_t mode) {
  std::string ap; bool tr;
  { if (dirfd != AT_FDCWD && path[0] != '/') { if (tracked_fd(dirfd)) ap = abspath((*fds[dirfd].path + "/" + path).c_str()); else return real_openat(dirfd, path, flags, mode); } else ap = abspath(path); tr = tracked(ap); }
  if (!tr) return real_openat(AT_FDCWD, path, flags, mode);
  if ((flags & O_TMPFILE) == O_TMPFILE) { errno = EOPNOTSUPP; return -1; }
  bool wr = (flags & O_ACCMODE) != O_RDONLY, isdir = flags & O_DIRECTORY;
  point(wr ? 0x61 : 0x60);
  i64 v = fs_decide(wr ? F_OPENW : isdir ? F_OPENDIR : F_OPENR, 0);
  if (v > 0) { errno = (int)v; return -1; }
  if (wr) mut_before();
  struct stat st; bool existed = real_stat(ap.c_str(), &st) == 0; u64 sz = existed ? st.st_size : 0;
  int fd = real_openat(AT_FDCWD, ap.c_str(), flags, mode);
  if (fd < 0) return fd;
  if (fd >= 1024) { real_close(fd); errno = EMFILE; return -1; }
  real_stat(ap.c_str(), &st); if (S_ISDIR(st.st_mode)) isdir = true;
  delete fds[fd].path; fds[fd] = Fd{true, wr, isdir, (flags & (O_SYNC | O_DSYNC)) != 0, ++next_h, new std::string(ap)};
  if (wr) { jnl1('O', fds[fd].h, (existed ? 1 : 0) | (flags & O_TRUNC ? 2 : 0) | (flags & O_APPEND ? 4 : 0) | (sz << 8), relp(ap)); mut_after(); }
  else jnl1('o', fds[fd].h, existed, relp(ap));
  return fd;
}
static ssize_t do_write(int fd, const void* buf, size_t n) {
  point(0x62);
  i64 v = fs_decide(F_WRITE, n);
  if (v > 0) { errno = (int)v; return -1; }
  if (v < 0) n = (size_t)-v < n ? (size_t)-v : n;
  mut_before();
  bool torn = P.killop && sh->fsops == P.killop && P.killmode == 2 && n > 0;
  if (torn) { n = P.killlen % (n + 1); sh->torn++; }
  off_t off = real_lseek(fd, 0, SEEK_CUR);
  { struct stat st; int fl = fcntl(fd, F_GETFL); if ((fl & O_APPEND) && fstat(fd, &st) == 0) off = st.st_size; }
  ssize_t r = n ? real_write(fd, buf, n) : 0;
  if (r > 0) { jnl('W', fds[fd].h, off < 0 ? 0 : off, (const char*)buf, r); if (P.diskcap >= 0 && !P.replay) P.diskcap -= r; if (fds[fd].dsync && !torn) jnl1('S', fds[fd].h, 0, relp(*fds[fd].path)); }
  mut_after();
  return r;
}
static ssize_t do_read(int fd, void* buf, size_t n) {
  point(0x63);
  i64 v = fs_decide(F_READ, n);
  if (v > 0) { errno = (int)v; return -1; }
  if (v < 0) n = (size_t)-v < n ? (size_t)-v : n;
  return real_read(fd, buf, n);
}
static int do_close(int fd) {
  if (!tracked_fd(fd)) return real_close(fd);
  point(0x64);
  i64 v = 0; bool wr = fds[fd].wr;
  if (wr) { v = fs_decide(F_CLOSE, 0); mut_before(); }
  int r = real_close(fd); u32 h = fds[fd].h; fds[fd].on = false;
  if (wr) { jnl1('C', h, v > 0 ? v : 0, ""); mut_after(); }
  if (v > 0) { errno = (int)v; return -1; }
  return r;
}
static int do_fsync(int fd, int (*rf)(int)) {
  if (!tracked_fd(fd)) return rf(fd);
  point(0x65); i64 v = fs_decide(F_FSYNC, 0);
  if (v > 0) { errno = (int)v; return -1; }
  mut_before(); jnl1('S', fds[fd].h, fds[fd].dir, relp(*fds[fd].path)); mut_after();
  return 0;
}
template <class F> static int path_op(FsClass c, char type, u64 code, const std::string& a, const std::string& b, F f) {
  point(code); i64 v = fs_decide(c, 0);
  if (v > 0) { errno = (int)v; return -1; }
  mut_before(); int r = f(); int e = errno;
  if (r == 0) jnl1(type, 0, 0, relp(a), b.empty() ? b : relp(b));
  mut_after(); errno = e; return r;
}
#define SIMCTX (g_on && self && !in_sim)
static std::string at_path(int dirfd, const char* p) { return dirfd == AT_FDCWD || p[0] == '/' ? abspath(p) : tracked_fd(dirfd) ? abspath((*fds[dirfd].path + "/" + p).c_str()) : std::string(p); }
extern "C" {
int open(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } if (!SIMCTX) return real_openat(AT_FDCWD, p, fl, m); G g; return do_open(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } if (!SIMCTX) return real_openat(AT_FDCWD, p, fl, m); G g; return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } if (!SIMCTX) return real_openat(d, p, fl, m); G g; return do_open(d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } if (!SIMCTX) return real_openat(d, p, fl, m); G g; return do_open(d, p, fl, m); }
int __openat64_2(int d, const char* p, int fl) { if (!SIMCTX) return real_openat(d, p, fl, 0); G g; return do_open(d, p, fl, 0); }
int __openat_2(int d, const char* p, int fl) { if (!SIMCTX) return real_openat(d, p, fl, 0); G g; return do_open(d, p, fl, 0); }
int __open64_2(const char* p, int fl) { if (!SIMCTX) return real_openat(AT_FDCWD, p, fl, 0); G g; return do_open(AT_FDCWD, p, fl, 0); }
int __open_2(const char* p, int fl) { if (!SIMCTX) return real_openat(AT_FDCWD, p, fl, 0); G g; return do_open(AT_FDCWD, p, fl, 0); }
int creat(const char* p, mode_t m) { if (!SIMCTX) return real_openat(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); G g; return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return creat(p, m); }
ssize_t write(int fd, const void* b, size_t n) { if (!SIMCTX || !tracked_fd(fd)) return real_write(fd, b, n); G g; return do_write(fd, b, n); }
ssize_t read(int fd, void* b, size_t n) { if (!SIMCTX || !tracked_fd(fd)) return real_read(fd, b, n); G g; return do_read(fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!SIMCTX || !tracked_fd(fd)) return real_writev(fd, v, c); G g;
  std::string s; for (int i = 0; i < c; i++) s.append((char*)v[i].iov_base, v[i].iov_len); return do_write(fd, s.data(), s.size());
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!SIMCTX || !tracked_fd(fd)) return real_readv(fd, v, c); G g;
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!SIMCTX || !tracked_fd(fd)) return real_pwrite(fd, b, n, o); G g;
  off_t c = real_lseek(fd, 0, SEEK_CUR); real_lseek(fd, o, SEEK_SET); ssize_t r = do_write(fd, b, n); int e = errno; real_lseek(fd, c, SEEK_SET); errno = e; return r;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (!SIMCTX || !tracked_fd(fd)) return sc(SYS_pread64, fd, (long)b, n, o); G g;
  off_t c = real_lseek(fd, 0, SEEK_CUR); real_lseek(fd, o, SEEK_SET); ssize_t r = do_read(fd, b, n); int e = errno; real_lseek(fd, c, SEEK_SET); errno = e; return r;
}
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
int dup(int fd) { int r = (int)sc(SYS_dup, fd); if (SIMCTX && r >= 0 && r < 1024 && tracked_fd(fd)) { G g; delete fds[r].path; fds[r] = fds[fd]; fds[r].path = new std::string(*fds[fd].path); } return r; }
int dup2(int a, int b) { if (!SIMCTX) return (int)sc(SYS_dup2, a, b); if (a != b && tracked_fd(b)) close(b); int r = (int)sc(SYS_dup2, a, b); if (r >= 0 && r < 1024 && a != b && tracked_fd(a)) { G g; delete fds[r].path; fds[r] = fds[a]; fds[r].path = new std::string(*fds[a].path); } return r; }
int flock(int fd, int op) { if (!SIMCTX) return (int)sc(SYS_flock, fd, op); G g; while (true) { point(0x6e); int r = (int)sc(SYS_flock, fd, op | LOCK_NB); if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) return r; block(nullptr, W_SLEEP, sh->now + 1000000); } }
int close(int fd) { if (!SIMCTX) return real_close(fd); G g; return do_close(fd); }
int fsync(int fd) { if (!SIMCTX) return real_fsync(fd); G g; return do_fsync(fd, real_fsync); }
int fdatasync(int fd) { if (!SIMCTX) return real_fsync(fd); G g; return do_fsync(fd, real_fsync); }
void sync() { if (!SIMCTX) return; G g; point(0x66); mut_before(); jnl1('A', 0, 0, ""); mut_after(); }
int syncfs(int) { sync(); return 0; }
int rename(const char* a, const char* b) { if (!SIMCTX) return real_rename(a, b); G g; std::string x = abspath(a), y = abspath(b); if (!tracked(x) && !tracked(y)) return real_rename(a, b); return path_op(F_RENAME, 'R', 0x67, x, y, [&] { return real_rename(a, b); }); }
int renameat(int d1, const char* a, int d2, const char* b) { if (!SIMCTX) return syscall(SYS_renameat, d1, a, d2, b); std::string x = at_path(d1, a), y = at_path(d2, b); return rename(x.c_str(), y.c_str()); }
int renameat2(int d1, const char* a, int d2, const char* b, unsigned fl) {
  if (!SIMCTX) return (int)sc(SYS_renameat2, d1, (long)a, d2, (long)b, fl); if (!fl) return renameat(d1, a, d2, b);
  G g; std::string x = at_path(d1, a), y = at_path(d2, b); if (!tracked(x) && !tracked(y)) return (int)sc(SYS_renameat2, d1, (long)a, d2, (long)b, fl);
  if (fl != 1) { errno = EINVAL; return -1; } return path_op(F_RENAME, 'R', 0x67, x, y, [&] { return (int)sc(SYS_renameat2, AT_FDCWD, (long)x.c_str(), AT_FDCWD, (long)y.c_str(), fl); });
}
int unlink(const char* a) { if (!SIMCTX) return real_unlink(a); G g; std::string x = abspath(a); if (!tracked(x)) return real_unlink(a); return path_op(F_UNLINK, 'U', 0x68, x, "", [&] { return real_unlink(a); }); }
int rmdir(const char* a) { if (!SIMCTX) return real_rmdir(a); G g; std::string x = abspath(a); if (!tracked(x)) return real_rmdir(a); return path_op(F_UNLINK, 'D', 0x69, x, "", [&] { return real_rmdir(a); }); }
int remove(const char* a) { struct stat st; if (real_lstat(a, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(a); return unlink(a); }
int unlinkat(int d, const char* a, int fl) { if (!SIMCTX) return real_unlinkat(d, a, fl); std::string x; { G g; x = at_path(d, a); } return fl & AT_REMOVEDIR ? rmdir(x.c_str()) : unlink(x.c_str()); }
int mkdir(const char* a, mode_t m) { if (!SIMCTX) return real_mkdir(a, m); G g; std::string x = abspath(a); if (!tracked(x)) return real_mkdir(a, m); return path_op(F_MKDIR, 'M', 0x6a, x, "", [&] { return real_mkdir(a, m); }); }
int link(const char* a, const char* b) { if (!SIMCTX) return real_link(a, b); G g; std::string x = abspath(a), y = abspath(b); if (!tracked(x) && !tracked(y)) return real_link(a, b); return path_op(F_RENAME, 'L', 0x6b, x, y, [&] { return real_link(a, b); }); }
int linkat(int d1, const char* a, int d2, const char* b, int fl) { if (!SIMCTX) return (int)sc(SYS_linkat, d1, (long)a, d2, (long)b, fl); std::string x, y; { G g; x = at_path(d1, a); y = at_path(d2, b); } return link(x.c_str(), y.c_str()); }
int mkdirat(int d, const char* a, mode_t m) { if (!SIMCTX) return (int)sc(SYS_mkdirat, d, (long)a, m); std::string x; { G g; x = at_path(d, a); } return mkdir(x.c_str(), m); }
int mkostemps(char* t, int suf, int fl) {
  size_t n = strlen(t); if ((int)n < suf + 6) { errno = EINVAL; return -1; }
  for (int k = 0; k < 100; k++) { u64 v; if (SIMCTX) { G g; v = mixh(P.rdseed, 0x5000 + sh->rdraws++); } else v = mixh((u64)t, k + getpid() * 1000ull);
    for (int i = 0; i < 6; i++) { t[n - suf - 6 + i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[v % 62]; v /= 62; }
    int fd = open(t, O_RDWR | O_CREAT | O_EXCL | (fl & ~O_ACCMODE), 0600); if (fd >= 0 || errno != EEXIST) return fd; }
  errno = EEXIST; return -1;
}
int mkostemps64(char* t, int s, int f) { return mkostemps(t, s, f); }
int mkstemp(char* t) { return mkostemps(t, 0, 0); }
int mkstemp64(char* t) { return mkostemps(t, 0, 0); }
int mkostemp(char* t, int f) { return mkostemps(t, 0, f); }
int mkostemp64(char* t, int f) { return mkostemps(t, 0, f); }
int mkstemps(char* t, int s) { return mkostemps(t, s, 0); }
int mkstemps64(char* t, int s) { return mkostemps(t, s, 0); }
int truncate(const char* a, off_t n) { if (!SIMCTX) return real_truncate(a, n); G g; std::string x = abspath(a); if (!tracked(x)) return real_truncate(a, n); point(0x6c); i64 v = fs_decide(F_TRUNC, 0); if (v > 0) { errno = (int)v; return -1; } mut_before(); int r = real_truncate(a, n); if (!r) jnl1('t', 0, n, relp(x)); mut_after(); return r; }
int truncate64(const char* a, off_t n) { return truncate(a, n); }
int ftruncate(int fd, off_t n) { if (!SIMCTX || !tracked_fd(fd)) return real_ftruncate(fd, n); G g; point(0x6d); i64 v = fs_decide(F_TRUNC, 0); if (v > 0) { errno = (int)v; return -1; } mut_before(); int r = real_ftruncate(fd, n); if (!r) jnl1('T', fds[fd].h, n, ""); mut_after(); return r; }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fallocate(int fd, int mode, off_t o, off_t n) {
  if (!SIMCTX || !tracked_fd(fd)) return (int)sc(SYS_fallocate, fd, mode, o, n);
  if (mode & ~1) { errno = EOPNOTSUPP; return -1; }
  struct stat st; if (fstat(fd, &st)) return -1; if ((mode & 1) || st.st_size >= o + n) { G g; point(0x6d); i64 v = fs_decide(F_WRITE, 0); if (v > 0) { errno = (int)v; return -1; } return 0; }
  return ftruncate(fd, o + n);
}
int fallocate64(int fd, int m, off_t o, off_t n) { return fallocate(fd, m, o, n); }
int posix_fallocate(int fd, off_t o, off_t n) { int e = errno, r = fallocate(fd, 0, o, n) ? errno : 0; errno = e; return r; }
int posix_fallocate64(int fd, off_t o, off_t n) { return posix_fallocate(fd, o, n); }
ssize_t sendfile(int o, int i, off_t* off, size_t n) { if (!SIMCTX) return real_sendfile(o, i, off, n); errno = EINVAL; return -1; }
ssize_t sendfile64(int o, int i, off_t* off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int, off64_t*, int, off64_t*, size_t, unsigned) { errno = ENOSYS; return -1; }

// stdio streams used by the C++ library: an unbuffered cookie over the tracked descriptor
static ssize_t ck_read(void* c, char* b, size_t n) { return read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { // goes on after short writes, as the C library does
  size_t k = 0; while (k < n) { ssize_t r = write((int)(intptr_t)c, b + k, n - k); if (r < 0) break; k += r; } return k;
}
static int ck_seek(void* c, off64_t* o, int w) { off_t r = real_lseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { return close((int)(intptr_t)c); }
FILE* fopen(const char* p, const char* mode) {
  if (!SIMCTX) return real_fopen(p, mode);
  int fd;
  { G g; if (!tracked(abspath(p))) return real_fopen(p, mode);
    int fl = 0; bool plus = strchr(mode, '+');
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY; else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(mode, 'x')) fl |= O_EXCL;
    fd = do_open(AT_FDCWD, p, fl, 0666); if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
    if (!f) { real_close(fd); fds[fd].on = false; return nullptr; }
    (*fmap)[f] = fd; return f; }
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
FILE* fdopen(int fd, const char* mode) {
  if (!SIMCTX || !tracked_fd(fd)) return real_fdopen(fd, mode);
  G g; cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; FILE* f = fopencookie((void*)(intptr_t)fd, mode, io); if (f) (*fmap)[f] = fd; return f;
}
int fileno(FILE* f) noexcept { if (SIMCTX && fmap) { auto it = fmap->find(f); if (it != fmap->end()) return it->second; } return real_fileno(f); }
int fclose(FILE* f) { if (SIMCTX && fmap) { G g; fmap->erase(f); } return real_fclose(f); }

// directories: entries in a simulated order
static DIR* dir_setup(DIR* d, const std::string& path) {
  DirList l; l.pos = 0; struct dirent64* e; while ((e = real_readdir64(d))) l.e.push_back(*e);
  std::sort(l.e.begin(), l.e.end(), [](const dirent64& a, const dirent64& b) { return strcmp(a.d_name, b.d_name) < 0; });
  i64 s = 0; if (P.replay) s = lookup(K_READDIR, self->n); else if (P.shuffle) { s = 1 + (i64)rndn(1 << 30); logdev(K_READDIR, self->n, s); }
  if (s) { fired(K_READDIR); u64 x = s; for (size_t i = l.e.size(); i > 1; i--) std::swap(l.e[i - 1], l.e[splitmix(x) % i]); }
  (*dmap)[d] = std::move(l); return d;
}
DIR* opendir(const char* p) {
  if (!SIMCTX) return real_opendir(p);
  G g; std::string ap = abspath(p); if (!tracked(ap)) return real_opendir(p);
  point(0x70); i64 v = fs_decide(F_OPENDIR, 0); if (v > 0) { errno = (int)v; return nullptr; }
  DIR* d = real_opendir(p); if (!d) return d;
  int fd = dirfd(d); if (fd >= 0 && fd < 1024) { delete fds[fd].path; fds[fd] = Fd{true, false, true, false, ++next_h, new std::string(ap)}; jnl1('o', fds[fd].h, 1, relp(ap)); }
  return dir_setup(d, ap);
}
DIR* fdopendir(int fd) {
  if (!SIMCTX || !tracked_fd(fd)) return real_fdopendir(fd);
  G g; point(0x71); std::string ap = *fds[fd].path; DIR* d = real_fdopendir(fd); if (!d) return d; return dir_setup(d, ap);
}
struct dirent64* readdir64(DIR* d) {
  if (!SIMCTX) return real_readdir64(d);
  G g; auto it = dmap->find(d); if (it == dmap->end()) return real_readdir64(d);
  point(0x72); i64 v = fs_decide(F_READDIR, 0); if (v > 0) { errno = (int)v; return nullptr; }
  if (it->second.pos >= it->second.e.size()) return nullptr;
  return &it->second.e[it->second.pos++];
}
struct dirent* readdir(DIR* d) { return (struct dirent*)readdir64(d); }
int closedir(DIR* d) { if (SIMCTX) { G g; if (dmap->erase(d)) { int fd = dirfd(d); if (fd >= 0 && fd < 1024) fds[fd].on = false; } } return real_closedir(d); }
void rewinddir(DIR* d) { if (SIMCTX) { G g; auto it = dmap->find(d); if (it != dmap->end()) { it->second.pos = 0; return; } } static void (*f)(DIR*); if (!f) f = (void (*)(DIR*))dlsym(RTLD_NEXT, "rewinddir"); f(d); }

static bool stat_fails(const char* p) {
  G g; if (!tracked(abspath(p))) return false;
  point(0x73); i64 v = fs_decide(F_STAT, 0); if (v > 0) { errno = (int)v; return true; } return false;
}
int stat(const char* p, struct stat* s) { if (SIMCTX && stat_fails(p)) return -1; return real_stat(p, s); }
int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
int lstat(const char* p, struct stat* s) { if (SIMCTX && stat_fails(p)) return -1; return real_lstat(p, s); }
int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
int statx(int d, const char* p, int fl, unsigned m, struct statx* s) { if (SIMCTX && p && p[0] && (d == AT_FDCWD || p[0] == '/') && stat_fails(p)) return -1; return real_statx(d, p, fl, m, s); }
int fstatat(int d, const char* p, struct stat* s, int fl) { if (SIMCTX && p && p[0]) { std::string x; { G g; x = at_path(d, p); } if (stat_fails(x.c_str())) return -1; } return (int)sc(SYS_newfstatat, d, (long)p, (long)s, fl); }
int fstatat64(int d, const char* p, struct stat64* s, int fl) { return fstatat(d, p, (struct stat*)s, fl); }
int faccessat(int d, const char* p, int m, int fl) { std::string x; if (SIMCTX) { { G g; x = at_path(d, p); } if (stat_fails(x.c_str())) return -1; } return (int)sc(SYS_faccessat, d, (long)p, m, fl); }
int access(const char* p, int m) { if (SIMCTX && stat_fails(p)) return -1; return real_access(p, m); }
}
