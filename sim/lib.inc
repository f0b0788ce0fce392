// Static memory of FLINT and GMP, which are not instrumented. Once a program of one process has a second thread this memory is
// write-protected: a write by a thread then traps, is a point where the thread may be preempted, and is carried out as a single
// step. With race detection the page is closed altogether from then on, and every access to it is recorded.
#include <link.h>
struct LibRegion { uintptr_t lo, hi; };
static LibRegion libreg[4]; static int nlibreg; static bool lib_guarded;
static std::unordered_map<uintptr_t, bool>* lib_hot;
static __thread uintptr_t lib_open[8]; static __thread int lib_nopen;
static int lib_phdr(struct dl_phdr_info* i, size_t, void*) {
  const char* b = strrchr(i->dlpi_name, '/'); b = b ? b + 1 : i->dlpi_name;
  if (strncmp(b, "libflint", 8) && strncmp(b, "libgmp.", 7)) return 0;
  uintptr_t lo = 0, hi = 0, relro = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { lo = i->dlpi_addr + p.p_vaddr; hi = lo + p.p_memsz; }
    if (p.p_type == PT_GNU_RELRO) relro = i->dlpi_addr + p.p_vaddr + p.p_memsz;
  }
  if (relro > lo) lo = relro;
  lo = (lo + 4095) & ~4095ull; hi = (hi + 4095) & ~4095ull;
  if (hi > lo && nlibreg < 4) libreg[nlibreg++] = {lo, hi};
  return 0;
}
static void lib_prot(uintptr_t a, size_t n, int prot) { real_syscall6(SYS_mprotect, a, n, prot, 0, 0, 0); }
static void lib_init() { lib_hot = new std::unordered_map<uintptr_t, bool>(); dl_iterate_phdr(lib_phdr, nullptr); }
static void lib_guard() { // the process gets its second thread
  if (lib_guarded || P.nranks + P.extras != 1) return;
  lib_guarded = true;
  for (int i = 0; i < nlibreg; i++) lib_prot(libreg[i].lo, libreg[i].hi - libreg[i].lo, PROT_READ);
}
static bool lib_fault(siginfo_t* si, ucontext_t* uc) {
  if (!lib_guarded) return false;
  uintptr_t a = (uintptr_t)si->si_addr; bool in = false;
  for (int i = 0; i < nlibreg; i++) in |= a >= libreg[i].lo && a < libreg[i].hi;
  if (!in || lib_nopen == 8) return false;
  int err = errno; bool skip = false, w = uc->uc_mcontext.gregs[REG_ERR] & 2; uintptr_t page = a & ~4095ull;
  if (w) { // every thread sets the same page size here when it allocates its first block, and only uses it afterwards
    Dl_info di; ++in_sim; bool same = dladdr((void*)uc->uc_mcontext.gregs[REG_RIP], &di) && di.dli_sname && !strcmp(di.dli_sname, "_fmpz_new_mpz"); --in_sim;
    if (same) { w = false; skip = true; }
  }
  if (self && !in_sim && !skip && (w || lib_hot->count(page))) {
    if (g_race) race_access(a, 1, w, uc->uc_mcontext.gregs[REG_RIP]);
    if (w && sh->libwrites++ % 4 == 0) { G g; cd--; account(); check_limits(); maybe_switch(false); new_slice(); }
  }
  if (w && g_race) { ++in_sim; (*lib_hot)[page] = true; --in_sim; }
  lib_prot(page, 4096, PROT_READ | PROT_WRITE); lib_open[lib_nopen++] = page;
  uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
  errno = err;
  return true;
}
static void lib_step(ucontext_t* uc) {
  for (int i = 0; i < lib_nopen; i++) lib_prot(lib_open[i], 4096, lib_hot->count(lib_open[i]) ? PROT_NONE : PROT_READ);
  lib_nopen = 0; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ull;
}
