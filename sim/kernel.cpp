#include "kernel.hpp"
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <algorithm>

Kernel K;
const char *sysName[] = {"open","close","read","write","lseek","fsync","lockf","ftruncate","stat","access","realpath","unlink","rename","usleep","clock","malloc","opstart","other"};
const char *faultName[] = {"none","kill","kill_after","torn_write_kill","power_loss","power_loss_torn","write_eio","write_enospc","short_write","read_eio","short_read",
  "fsync_eio","open_error","close_eio","lock_error","eintr","malloc_null","stall","clock_jump","truncate_eio","rename_eio","unlink_eio","stat_eio","disk_full"};
int faultByName(const char *n) { for (int i = 0; i < F_COUNT; i++) if (!strcmp(n, faultName[i])) return i; return -1; }

u64 hbytes(const void *p, size_t n, u64 h) {
  const u8 *b = (const u8 *)p; size_t i = 0;
  for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, b + i, 8); h = (h ^ v) * 0x9ddfea08eb382d69ULL; h ^= h >> 29; }
  for (; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}

// ------------------------------------------------------------------ context switch
extern "C" void sim_switch(void **from, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void coEntry() {
  Proc *p = K.procs[K.cur];
  K.bodies[p->id](p);
  p->st = P_DONE;
  K.bOp = p->curOp; K.bSys = 1000000;
  for (;;) K.yieldMain();
}

void Kernel::yieldMain() { Proc *p = procs[cur]; p->savedErrno = errno; sim_switch(&p->ctx.sp, mainCtx.sp); errno = p->savedErrno; }
void Kernel::switchTo(Proc *p) {
  if (lastRun != p->id) { st.switches++; hash = mix64(hash, 0x5157 + p->id); }
  lastRun = p->id; cur = p->id; p->st = P_READY; errno = p->savedErrno;
  sim_switch(&mainCtx.sp, p->ctx.sp);
  cur = -1;
}

// ------------------------------------------------------------------ allocator
static const u32 AMAGIC = 0xA110C8ED, FMAGIC = 0xF2EEF2EE;
struct AHdr { u32 magic; u32 cls; u64 size; u64 csize; u64 pad; };
static int sizeClass(size_t n, size_t &csize) {
  if (n < 64) n = 64;
  int lg = 63 - __builtin_clzll(n); size_t base = (size_t)1 << lg; size_t stepv = base / 4; int sub = (int)((n - base + stepv - 1) / stepv);
  if (sub == 4) { lg++; sub = 0; base <<= 1; stepv = base / 4; }
  csize = base + sub * stepv; csize = (csize + 15) & ~(size_t)15; return lg * 4 + sub;
}
void Arena::reset() {
  top = 0; live = 0; seq = 0; liveBytes = 0; freeList.assign(64 * 4, {});
}
static const u64 allocStop = getenv("DSSSIM_ALLOC") ? strtoull(getenv("DSSSIM_ALLOC"), nullptr, 10) : 0; // debugging aid: break here
extern "C" __attribute__((noinline)) void allocStopped() { asm volatile(""); }
void Arena::dump(u64 from) { for (size_t at = 0; at < top;) { AHdr *h = (AHdr *)(base + at); if (h->magic == AMAGIC && h->pad > from) fprintf(stderr, "live block %llu size %llu\n", (unsigned long long)h->pad, (unsigned long long)h->size); at += h->csize; } }
static void heapFail(const char *m) { K.fail("HEAP", m); K.procs[K.cur]->st = P_DEAD; for (;;) K.yieldMain(); }
void *Arena::alloc(size_t n, bool zero) {
  size_t cs; int c = sizeClass(n + sizeof(AHdr) + 16, cs); u8 *b;
  if (!freeList[c].empty()) {
    b = freeList[c].back(); freeList[c].pop_back(); AHdr *h = (AHdr *)b;
    size_t chk = std::min<size_t>(h->size, 128); u8 *q = b + sizeof(AHdr);
    for (size_t i = 0; i < chk; i++) if (q[i] != 0xDD) heapFail("write to freed memory");
  } else {
    if (top + cs > cap) return nullptr;
    b = base + top; top += cs; if (top > dirty) dirty = top;
  }
  AHdr *h = (AHdr *)b; h->magic = AMAGIC; h->cls = c; h->size = n; h->csize = cs; h->pad = ++seq; if (seq == allocStop) allocStopped();
  memset(b + sizeof(AHdr), zero ? 0 : fill, n); memset(b + sizeof(AHdr) + n, 0xC9, 16);
  live++; liveBytes += n; return b + sizeof(AHdr);
}
static void checkBlock(Arena &a, void *p) {
  if (!a.owns(p)) heapFail("free of a pointer not from the allocator");
  AHdr *h = (AHdr *)((u8 *)p - sizeof(AHdr));
  if ((u8 *)h < a.base || ((u64)p & 15)) heapFail("free of an invalid pointer");
  if (h->magic == FMAGIC) heapFail("double free");
  if (h->magic != AMAGIC) heapFail("free of an invalid pointer");
  u8 *t = (u8 *)p + h->size; for (int i = 0; i < 16; i++) if (t[i] != 0xC9) heapFail("heap buffer overflow");
}
void Arena::dealloc(void *p) {
  if (!p) return; checkBlock(*this, p); AHdr *h = (AHdr *)((u8 *)p - sizeof(AHdr));
  live--; liveBytes -= h->size; h->magic = FMAGIC; memset(p, 0xDD, std::min<size_t>(h->size, 4096)); freeList[h->cls].push_back((u8 *)h);
}
size_t Arena::room(const void *p) { if (!owns((void *)p)) return SIZE_MAX; const AHdr *h = (const AHdr *)((const u8 *)p - sizeof(AHdr)); if ((const u8 *)h >= base && ((size_t)p & 7) == 0 && h->magic == AMAGIC) return h->size; return (size_t)(base + top - (const u8 *)p); } // bytes a caller may read at p
size_t Arena::sizeOf(void *p) { checkBlock(*this, p); return ((AHdr *)((u8 *)p - sizeof(AHdr)))->size; }

// ------------------------------------------------------------------ boot / images
static struct sim_hooks HK;
static void installHooks();
static void sigHandler(int sig, siginfo_t *si, void *uc) {
  if (sig == SIGVTALRM) {
    static u64 last = ~0ULL, lastRun = 0, same = 0;
    if (K.cur < 0) { last = ~0ULL; return; }
    if (last != K.step || lastRun != K.runNo) { last = K.step; lastRun = K.runNo; same = 0; return; }
    if (++same < 2) return;
    K.fail("HANG", "no system call for several CPU seconds inside the library");
  } else {
    ucontext_t *u = (ucontext_t *)uc; u64 pc = (u64)u->uc_mcontext.gregs[16];
    if (K.cur < 0) { dprintf(2, "SIMULATOR CRASH sig %d pc %llx addr %p\n", sig, (unsigned long long)pc, si->si_addr); _exit(3); }
    // a null pointer used after an allocation failed ends the program: what it leaves behind is judged like a kill
    if (sig == SIGSEGV && K.procs[K.cur]->noMem && (u64)si->si_addr + 65536 < (1u << 24)) { Proc *p = K.procs[K.cur]; K.killsDone++; K.st.probes["program ended by a null pointer after a failed allocation"]++; p->st = P_DEAD; K.bOp = p->curOp; K.bSys = p->sysIdx; for (;;) { void *d; sim_switch(&d, K.mainCtx.sp); } }
    char b[300]; Dl_info di; const char *sym = "?"; 
    if (dladdr((void *)pc, &di) && di.dli_sname) sym = di.dli_sname;
    snprintf(b, sizeof b, "signal %d in %s", sig, sym);
    // walk a few guest return addresses is not attempted: replay under gdb instead
    K.fail("CRASH", b);
  }
  K.procs[K.cur]->st = P_DEAD; K.bOp = K.procs[K.cur]->curOp; K.bSys = 999999;
  for (;;) { void *d; sim_switch(&d, K.mainCtx.sp); }
}

struct PhCtx { const char *name; u64 base; u8 *lo, *hi, *tlo, *thi; };
static int phcb(struct dl_phdr_info *i, size_t, void *v) {
  PhCtx *c = (PhCtx *)v; if (i->dlpi_addr != c->base) return 0;
  u64 relroEnd = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) relroEnd = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ULL;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
    u64 a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, e = a + i->dlpi_phdr[k].p_memsz;
    if (i->dlpi_phdr[k].p_flags & PF_W) { if (relroEnd > a) a = relroEnd; if (e > a) { c->lo = (u8 *)a; c->hi = (u8 *)e; } }
    if (i->dlpi_phdr[k].p_flags & PF_X) { c->tlo = (u8 *)a; c->thi = (u8 *)e; }
  }
  return 1;
}

void Kernel::boot(const std::vector<std::string> &libs) {
  installHooks();
  int id = 0;
  for (auto &l : libs) {
    Proc *p = new Proc; p->id = id;
    p->dl = dlopen(l.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!p->dl) { fprintf(stderr, "dlopen %s: %s\n", l.c_str(), dlerror()); exit(3); }
    struct link_map *lm; dlinfo(p->dl, RTLD_DI_LINKMAP, &lm);
    PhCtx c; memset(&c, 0, sizeof c); c.base = lm->l_addr; dl_iterate_phdr(phcb, &c);
    p->dataBase = c.lo; p->dataSize = c.hi - c.lo; p->textLo = c.tlo; p->textHi = c.thi;
    struct sim_hooks **hp = (struct sim_hooks **)dlsym(p->dl, "sim_guest_hooks");
    if (!hp || !p->dataBase) { fprintf(stderr, "bad library image\n"); exit(3); }
    *hp = &HK;
    p->dataSnap.assign(p->dataBase, p->dataBase + p->dataSize);
    p->stackSize = 16 << 20;
    p->stack = (u8 *)mmap((void *)(0x200000000000ULL + (u64)id * 0x10000000ULL), p->stackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    mprotect(p->stack, 65536, PROT_NONE);
    p->arena.cap = 1ULL << 30;
    p->arena.base = (u8 *)mmap((void *)(0x100000000000ULL + (u64)id * 0x400000000ULL), p->arena.cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    p->arena.reset();
    procs.push_back(p); id++;
  }
  static u8 alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = sigHandler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}; for (int s : sigs) sigaction(s, &sa, nullptr);
  struct itimerval it; it.it_interval.tv_sec = 4; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

void Kernel::resetImage(Proc *p) {
  memcpy(p->dataBase, p->dataSnap.data(), p->dataSize);
  p->arena.fill = fill; p->arena.reset();
  for (auto f : p->files) delete f; p->files.clear();
  p->fds.clear(); memset(p->ifltab, 0, sizeof p->ifltab); memset(p->slotState, 0, sizeof p->slotState); memset(p->slotFile, 0, sizeof p->slotFile); memset(p->slotRaw, 0, sizeof p->slotRaw);
  p->armKind = 0; p->stickyKind = 0; p->savedErrno = 0; p->waitIno.reset(); p->console.clear();
}

void Kernel::resetRun(u64 seed) {
  for (auto p : procs) { resetImage(p); madvise(p->stack + 65536, p->stackSize - 65536, MADV_DONTNEED); p->st = P_IDLE; p->incarnation = 0; p->curOp = -1; p->sysIdx = 0; p->simpid = 0; p->nsys = 0; p->nw = 0; p->echo = false;
    if (p->arena.dirty > (4u << 20)) madvise(p->arena.base, p->arena.dirty + 4096, MADV_DONTNEED); else if (p->arena.dirty) memset(p->arena.base, 0, p->arena.dirty); p->arena.dirty = 0; }
  for (auto &x : wrote) x.clear(); cur = -1; now = 1000000; realBase = 1577836800LL * 1000000; realSkew = 0; step = 0; runNo++; hash = 1469598103934665603ULL; dir.clear(); dirDur.clear(); meta.clear(); track = false; inoNext = 1; diskCap = -1; diskUsed = 0; roPaths.clear();
  replay = false; rs = Rng(mix64(seed, 1)); rf = Rng(mix64(seed, 2)); rp = Rng(mix64(seed, 3)); preemptP = turnP = 0; faultsOn = true; tick = 7; powerMode = 0; schedLog.clear(); faultLog.clear(); rFaults.clear(); rSched.clear(); rSchedB.clear(); rSchedList.clear();
  st = Stats(); vio = Violation(); forcedNext = -1; lastRun = -1; powerPending = false; bodies.clear(); onKilled = nullptr; onPower = nullptr; bOp = bSys = -1; maxSteps = 400000; blkCount.clear();
}

void Kernel::startProc(Proc *p, std::function<void(Proc *)> body) {
  resetImage(p); if (p->incarnation) st.restarts++; p->incarnation++; p->simpid = 1000 + p->id * 100 + p->incarnation; p->fds.resize(3);
  for (int i = 0; i < 3; i++) p->fds[i].used = true;
  bodies[p->id] = body;
  u64 *sp = (u64 *)(p->stack + p->stackSize - 256); sp = (u64 *)((u64)sp & ~63ULL);
  *--sp = 0; *--sp = (u64)&coEntry; for (int i = 0; i < 6; i++) *--sp = 0;
  p->ctx.sp = sp; p->st = P_READY;
}

void Kernel::fail(const std::string &cls, const std::string &msg) {
  if (vio.set) return; vio.set = true; vio.cls = cls; vio.msg = msg; vio.op = cur >= 0 ? procs[cur]->curOp : -1;
  // an operation on a record that a killed writer left half written is not judged beyond this point
  if ((noprobeBits & 4) && killsDone && (cls == "HEAP" || cls == "CRASH" || cls == "ABORT")) { vio.quiet = true; vio.cls = "damaged-" + cls; } // progress only: what a kill damages is judged elsewhere
  if (cur >= 0 && procs[cur]->damaged && (cls == "HEAP" || cls == "CRASH" || cls == "ABORT" || cls == "HANG" || cls == "NOPROGRESS")) { vio.quiet = true; vio.cls = "damaged-" + cls; }
  hash = mix64(hash, hstr(cls.c_str()));
  if (traceOut) fprintf(traceOut, "!! VIOLATION %s: %s (op %d)\n", cls.c_str(), msg.c_str(), vio.op);
}

void Kernel::log(int k, u64 a, u64 b, i64 r) {
  hash = mix64(hash ^ (u64)k * 1315423911ULL ^ (u64)(cur + 1) << 40, a * 31 + b * 17 + (u64)r);
  if (traceOut) { Proc *p = me(); fprintf(traceOut, "%8llu t=%lld p%d op%d.%d %s %llx %llx -> %lld\n", (unsigned long long)step, (long long)now, cur, p ? p->curOp : -1, p ? p->sysIdx : -1, sysName[k], (unsigned long long)a, (unsigned long long)b, (long long)r); }
}

bool Kernel::eligible(int kind, Sys s) {
  switch (kind) {
    case F_KILL: case F_POWER: return s != S_MALLOC && s != S_CLOCK && s != S_LSEEK && s != S_STAT && s != S_ACCESS && s != S_REALPATH;
    case F_KILL_AFTER: return s == S_WRITE || s == S_FSYNC || s == S_FTRUNC || s == S_UNLINK || s == S_RENAME || s == S_LOCKF || s == S_OPEN;
    case F_TORN_KILL: case F_POWER_TORN: return s == S_WRITE;
    case F_W_EIO: case F_W_ENOSPC: case F_W_SHORT: case F_DISKFULL: return s == S_WRITE;
    case F_R_EIO: case F_R_SHORT: return s == S_READ;
    case F_FSYNC_EIO: return s == S_FSYNC;
    case F_OPEN_ERR: return s == S_OPEN;
    case F_CLOSE_EIO: return s == S_CLOSE;
    case F_LOCK_ERR: return s == S_LOCKF;
    case F_EINTR: return s == S_READ || s == S_WRITE || s == S_LOCKF || s == S_FSYNC || s == S_OPEN;
    case F_MALLOC: return s == S_MALLOC;
    case F_STALL: return s != S_MALLOC && s != S_LSEEK && s != S_CLOCK;
    case F_CLOCK_JUMP: return s == S_CLOCK || s == S_WRITE || s == S_LOCKF || s == S_OPSTART;
    case F_TRUNC_EIO: return s == S_FTRUNC;
    case F_RENAME_EIO: return s == S_RENAME;
    case F_UNLINK_EIO: return s == S_UNLINK;
    case F_STAT_EIO: return s == S_STAT || s == S_ACCESS || s == S_REALPATH;
  }
  return false;
}

int Kernel::point(Sys k, u64 a, u64 b) {
  (void)a; (void)b; Proc *p = me(); if (!p) return 0;
  p->sysIdx++; p->nsys++; if (k == S_WRITE || k == S_FTRUNC || k == S_UNLINK || k == S_RENAME) p->nw++; step++; st.steps++; st.sys[k]++; now += tick;
  if (step > maxSteps) { fail("NOPROGRESS", "step budget exhausted: an operation makes no progress"); p->st = P_DEAD; for (;;) yieldMain(); }
  if (k != S_MALLOC) {
    int nxt = -1;
    if (replay) { auto it = rSched.find({p->curOp, p->sysIdx}); if (it != rSched.end()) nxt = it->second; }
    else if (double pp = k == S_OPSTART && turnP > 0 ? turnP : preemptP; pp > 0 && rs.chance(pp)) {
      int c[8], n = 0; for (auto q : procs) if (q != p && (q->st == P_READY || (q->st == P_SLEEP && q->wake <= now)) && n < 8) c[n++] = q->id;
      if (n) nxt = c[rs.below(n)];
    }
    if (nxt >= 0 && nxt != p->id && (procs[nxt]->st == P_READY || (procs[nxt]->st == P_SLEEP && procs[nxt]->wake <= now))) {
      schedLog.push_back({p->curOp, p->sysIdx, 0, nxt}); forcedNext = nxt; p->st = P_READY; yieldMain();
    }
  }
  if (!faultsOn) return 0;
  int f = 0; u64 arg = 0;
  if (replay && !rFaults.empty()) { auto it = rFaults.find({p->curOp, p->sysIdx}); if (it != rFaults.end()) { f = it->second.kind; arg = it->second.arg; } }
  else if (p->stickyKind && eligible(p->stickyKind, k)) { f = p->stickyKind; arg = p->armArg; }
  else if (p->armKind && eligible(p->armKind, k)) { if (p->armCount-- <= 0) { f = p->armKind; arg = p->armArg; p->armKind = 0; if (arg & (1ULL << 63)) p->stickyKind = f; } }
  if (f && !eligible(f, k)) f = 0;
  if (!f) return 0;
  st.faults[f]++; faultLog.push_back({p->curOp, p->sysIdx, f, arg}); fArg = arg; hash = mix64(hash, f * 7919 + arg);
  if (traceOut) fprintf(traceOut, "   -- fault %s at p%d op%d.%d (%s) arg %llx\n", faultName[f], p->id, p->curOp, p->sysIdx, sysName[k], (unsigned long long)arg);
  switch (f) {
    case F_KILL: killsDone++; p->st = P_DEAD; bOp = p->curOp; bSys = p->sysIdx; for (;;) yieldMain();
    case F_POWER: powerPending = true; powerArg = arg; p->st = P_DEAD; bOp = p->curOp; bSys = p->sysIdx; for (;;) yieldMain();
    case F_STALL: p->st = P_SLEEP; p->wake = now + 1000 + (i64)((arg & 0xffffffff) % 20000000); bOp = p->curOp; bSys = p->sysIdx; yieldMain(); return 0;
    case F_CLOCK_JUMP: { Rng r(arg); i64 mag = (i64)(r.below(4) == 0 ? r.below(400LL * 86400) : r.below(7200)) * 1000000; realSkew += r.below(2) || (arg >> 62 & 1) ? mag : -mag; return 0; }
    case F_DISKFULL: diskCap = diskUsed + (i64)(arg & 0xfff); return 0; // until the operation ends
  }
  return f;
}
static void dieNow() { K.killsDone++; Proc *p = K.me(); p->st = P_DEAD; K.bOp = p->curOp; K.bSys = p->sysIdx; for (;;) K.yieldMain(); }
static void powerNow(u64 arg) { K.powerPending = true; K.powerArg = arg; dieNow(); }

void Kernel::beginOp(int opid) { Proc *p = me(); p->noMem = false; p->curOp = opid; p->sysIdx = 0; p->stickyKind = 0; point(S_OPSTART); }
void Kernel::endOp() { Proc *p = me(); p->armKind = 0; p->stickyKind = 0; if (diskCap != diskCap0) diskCap = diskCap0; }

static bool lockConflict(Inode *i, i64 s, i64 e, int proc, int *holder = nullptr, bool shared = false) {
  for (auto &l : i->locks) if (l.proc != proc && l.s < e && s < l.e && !(shared && l.shared)) { if (holder) *holder = l.proc; return true; }
  return false;
}
static void lockRemove(Inode *i, i64 s, i64 e, int proc) {
  std::vector<LockRec> out;
  for (auto &l : i->locks) {
    if (l.proc != proc || l.e <= s || e <= l.s) { out.push_back(l); continue; }
    if (l.s < s) out.push_back({l.s, s, proc, l.shared});
    if (e < l.e) out.push_back({e, l.e, proc, l.shared});
  }
  i->locks.swap(out);
}
static void dropLocks(Inode *i, int proc) { std::vector<LockRec> out; for (auto &l : i->locks) if (l.proc != proc) out.push_back(l); i->locks.swap(out); }

void Kernel::killProc(Proc *p) {
  for (auto &f : p->fds) if (f.used && f.ino) dropLocks(f.ino.get(), p->id);
  p->fds.clear(); for (auto f : p->files) delete f; p->files.clear(); p->waitIno.reset(); p->armKind = p->stickyKind = 0;
  memset(p->slotState, 0, sizeof p->slotState);
}
bool Kernel::openOthers(const std::string &path, int proc) { auto it = dir.find(path); if (it == dir.end()) return false; for (auto p : procs) if (p->id != proc) for (auto &f : p->fds) if (f.used && f.ino == it->second) return true; return false; }
int Kernel::openCount(const std::string &path) { int n = 0; auto it = dir.find(path); if (it == dir.end()) return 0; for (auto p : procs) for (auto &f : p->fds) if (f.used && f.ino == it->second) n++; return n; }

// a process that has been blocked since before 'since' by a lock this process still holds on the file (-1 none)
int Kernel::handoverMissed(int proc, const std::string &path, u64 since) { auto it = dir.find(path); if (it == dir.end()) return -1; for (auto q : procs) if (q->id != proc && q->st == P_BLOCKED && q->waitIno == it->second && q->blkStep < since) for (auto &l : it->second->locks) if (l.proc == proc && l.s < q->waitE && q->waitS < l.e) return q->id; return -1; }
bool Kernel::droppedSince(int proc, const std::string &path, u64 since) { auto it = dir.find(path); if (it == dir.end()) return true; auto d = it->second->drop.find(proc); return d != it->second->drop.end() && d->second >= since; } // closing any descriptor of a file drops all locks the process has on it
int Kernel::locksHeld(int proc, const std::string &path) { int n = 0; auto it = dir.find(path); if (it != dir.end()) for (auto &l : it->second->locks) if (l.proc == proc) n++; return n; }

int Kernel::pickNext(bool) {
  int c[16], n = 0; for (auto q : procs) if (q->st == P_READY && n < 16) c[n++] = q->id;
  if (!n) return -1; if (n == 1) return c[0];
  int cnt = ++blkCount[{bOp, bSys}];
  if (replay) { for (auto &e : rSchedList) if (e.op == bOp && e.sys == bSys && e.blk == cnt) { if (procs[e.next]->st == P_READY) { schedLog.push_back(e); return e.next; } } return c[0]; }
  int r = c[rs.below(n)]; schedLog.push_back({bOp, bSys, cnt, r}); return r;
}

void Kernel::run(std::function<bool()> until) {
  for (;;) {
    if (powerPending) {
      powerPending = false; u64 arg = powerArg;
      std::vector<int> inflight;
      for (auto p : procs) if (p->st == P_READY || p->st == P_BLOCKED || p->st == P_SLEEP || p->st == P_DEAD) { if (p->st != P_DEAD) p->st = P_DEAD; }
      for (auto p : procs) killProc(p);
      powerLoss(arg);
      if (onPower) onPower();
    }
    for (auto p : procs) if (p->st == P_DEAD) { p->st = P_IDLE; killProc(p); if (!vio.set && onKilled) onKilled(p->id); }
    if (vio.set) return;
    if (until && until()) return;
    for (auto p : procs) {
      if (p->st == P_SLEEP && p->wake <= now) p->st = P_READY;
      if (p->st == P_BLOCKED && !lockConflict(p->waitIno.get(), p->waitS, p->waitE, p->id)) { p->st = P_READY; }
    }
    int nx = -1;
    if (forcedNext >= 0) { if (procs[forcedNext]->st == P_READY) nx = forcedNext; forcedNext = -1; }
    if (nx < 0) nx = pickNext(true);
    if (nx < 0) {
      i64 w = -1; bool blocked = false;
      for (auto p : procs) { if (p->st == P_SLEEP && (w < 0 || p->wake < w)) w = p->wake; if (p->st == P_BLOCKED) blocked = true; }
      if (w >= 0) { now = w; continue; }
      if (blocked) { fail("DEADLOCK", "every process is blocked waiting for a file lock"); continue; }
      return;
    }
    switchTo(procs[nx]);
  }
}

// ------------------------------------------------------------------ file system
void Kernel::metaAdd(int t, const std::string &a, const std::string &b, InodeP i) { if (track) meta.push_back({t, a, b, i}); }
static void applyPend(std::vector<u8> &d, const PendOp &o) {
  if (o.type == 1) { d.resize(o.off, 0); return; }
  if ((i64)d.size() < o.off + (i64)o.data.size()) d.resize(o.off + o.data.size(), 0);
  memcpy(d.data() + o.off, o.data.data(), o.data.size());
}
static void applyMeta(std::map<std::string, InodeP> &d, const Kernel::MetaOp &m) {
  if (m.t == 0) d[m.a] = m.ino; else if (m.t == 1) d.erase(m.a); else { d.erase(m.a); d[m.b] = m.ino; }
}
void Kernel::syncInode(Inode *i) {
  if (!track) return;
  for (auto &o : i->pend) applyPend(i->dur, o); i->pend.clear();
  for (auto &m : meta) applyMeta(dirDur, m); meta.clear();
}
void Kernel::powerLoss(u64 arg) {
  Rng r(mix64(arg, 77)); int mode = powerMode ? powerMode : (int)(1 + r.below(3)); // 1: nothing beyond the synced image, 2: ordered prefix, 3: arbitrary subset
  if (traceOut) fprintf(traceOut, "   -- power loss mode %d\n", mode);
  // metadata journal: a prefix commits
  size_t mc = mode == 1 ? 0 : r.below(meta.size() + 1); if (mode >= 2 && r.below(3) == 0) mc = meta.size();
  std::map<std::string, InodeP> nd = dirDur; for (size_t i = 0; i < mc; i++) applyMeta(nd, meta[i]);
  std::set<Inode *> seen; std::vector<InodeP> all; for (auto &e : nd) if (seen.insert(e.second.get()).second) all.push_back(e.second);
  for (auto &ino : all) {
    std::vector<u8> img = ino->dur; size_t n = ino->pend.size(), g = mode == 1 ? 0 : r.below(n + 1);
    for (size_t i = 0; i < g; i++) applyPend(img, ino->pend[i]);
    if (mode == 3) for (size_t i = g; i < n; i++) {
      PendOp &o = ino->pend[i]; if (o.type == 1) { if (r.below(2)) applyPend(img, o); continue; }
      i64 s = o.off, e = o.off + (i64)o.data.size();
      for (i64 b = s; b < e;) { i64 be = std::min(e, (b / 512 + 1) * 512); if (r.below(2)) { PendOp q; q.type = 0; q.off = b; q.data.assign(o.data.begin() + (b - s), o.data.begin() + (be - s)); applyPend(img, q); } b = be; }
    }
    if (mode == 2 && g < n && ino->pend[g].type == 0 && r.below(2)) { PendOp o = ino->pend[g]; i64 cut = o.off + (i64)r.below(o.data.size()); cut = cut / 512 * 512; if (cut > o.off) { o.data.resize(cut - o.off); applyPend(img, o); } }
    ino->data = img; ino->dur = img; ino->pend.clear(); ino->locks.clear();
  }
  dir = nd; dirDur = nd; meta.clear(); diskUsed = 0; for (auto &e : dir) diskUsed += e.second->data.size();
  hash = mix64(hash, 0xBADB0);
}

static OpenFile *ofd(int fd) { Proc *p = K.me(); if (fd < 0 || fd >= (int)p->fds.size() || !p->fds[fd].used) return nullptr; return &p->fds[fd]; }
static int failE(int e) { errno = e; return -1; }
static bool dirOk(const std::string &p) { size_t s = p.rfind('/'); if (s == std::string::npos) return true; std::string d = p.substr(0, s); return d == "/d" || d == "/tmp" || d == "." || d.empty(); }
static std::string norm(const char *p) { std::string s(p); if (s.rfind("./", 0) == 0) s = s.substr(2); return s; }

static int do_open(const char *path, int flags, bool pt = true) {
  if (pt) { int f = K.point(S_OPEN, hstr(path), flags); if (f == F_OPEN_ERR) { Rng r(K.fArg); int es[] = {EMFILE, EACCES, EIO, ENFILE}; int e = es[r.below(4)]; K.log(S_OPEN, hstr(path), flags, -e); return failE(e); } if (f == F_EINTR) { K.log(S_OPEN, 0, 0, -EINTR); return failE(EINTR); }
    if (f == F_KILL_AFTER) { /* create then die */ do_open(path, flags, false); dieNow(); } }
  std::string s = norm(path); auto it = K.dir.find(s); int acc = flags & O_ACCMODE;
  if (it == K.dir.end()) {
    if (!(flags & O_CREAT) || !dirOk(s)) { K.log(S_OPEN, hstr(path), flags, -ENOENT); return failE(ENOENT); }
    if (K.diskCap >= 0 && K.diskUsed >= K.diskCap && K.diskCap == 0) return failE(ENOSPC);
    InodeP n = std::make_shared<Inode>(); n->id = K.inoNext++; K.dir[s] = n; K.metaAdd(0, s, "", n); it = K.dir.find(s);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) return failE(EEXIST);
  if (acc != O_RDONLY && K.roPaths.count(s)) { K.log(S_OPEN, hstr(path), flags, -EACCES); return failE(EACCES); }
  InodeP n = it->second;
  if ((flags & O_TRUNC) && acc != O_RDONLY) { K.noteWrite(s); K.diskUsed -= n->data.size(); n->data.clear(); n->wgen++; if (K.track) { PendOp o; o.type = 1; o.off = 0; n->pend.push_back(o); } }
  Proc *p = K.me(); int fd = -1; for (size_t i = 3; i < p->fds.size(); i++) if (!p->fds[i].used) { fd = (int)i; break; }
  if (fd < 0) { fd = (int)p->fds.size(); p->fds.emplace_back(); }
  OpenFile &o = p->fds[fd]; o.used = true; o.ino = n; o.pos = 0; o.flags = flags; o.path = s;
  K.log(S_OPEN, hstr(path), flags, fd); return fd;
}
static int h_open(const char *p, int fl, int) { return do_open(p, fl); }
static int h_close(int fd) {
  int f = K.point(S_CLOSE, fd); OpenFile *o = ofd(fd); if (!o) { K.log(S_CLOSE, fd, 0, -EBADF); return failE(EBADF); }
  if (o->ino) { dropLocks(o->ino.get(), K.cur); o->ino->drop[K.cur] = K.step; } o->ino.reset(); o->used = false; 
  K.log(S_CLOSE, fd, 0, f ? -EIO : 0); if (f == F_CLOSE_EIO) return failE(EIO); return 0;
}
static ssize_t do_read(int fd, void *buf, size_t n, i64 *pp) {
  int f = K.point(S_READ, fd, n); OpenFile *o = ofd(fd); if (!o || !o->ino) return failE(EBADF); if ((o->flags & O_ACCMODE) == O_WRONLY) return failE(EBADF);
  if (f == F_R_EIO) { K.log(S_READ, fd, n, -EIO); return failE(EIO); } if (f == F_EINTR) { K.log(S_READ, fd, n, -EINTR); return failE(EINTR); }
  i64 pos = pp ? *pp : o->pos; i64 sz = (i64)o->ino->data.size(); i64 k = pos >= sz ? 0 : std::min<i64>(n, sz - pos);
  if (f == F_R_SHORT && k > 0) k = (i64)Rng(K.fArg).below(k);
  if (k > 0) memcpy(buf, o->ino->data.data() + pos, k); if (!pp) o->pos = pos + k;
  K.log(S_READ, (u64)pos, n, k); return k;
}
static ssize_t rawWrite(OpenFile *o, const void *buf, size_t n, i64 pos) {
  Inode *i = o->ino.get(); if (pos < 0) return failE(EINVAL); i64 sz = i->data.size(), end = pos + (i64)n; if (pos > (256LL << 20) || n > (256u << 20)) return failE(EFBIG); // the simulated file system takes no bigger files

  if (end > sz) {
    i64 grow = end - sz; if (K.diskCap >= 0 && K.diskUsed + grow > K.diskCap) { i64 room = K.diskCap - K.diskUsed; if (room < 0) room = 0; end = sz + room; if (end <= pos) return n ? failE(ENOSPC) : 0; n = end - pos; K.st.probes["disk_full_short"]++; }
    if (end > sz) { i->data.resize(end, 0); K.diskUsed += end - sz; }
  }
  memcpy(i->data.data() + pos, buf, n); i->wgen++; K.noteWrite(o->path);
  if (K.track && n) { PendOp p; p.type = 0; p.off = pos; p.data.assign((const u8 *)buf, (const u8 *)buf + n); i->pend.push_back(std::move(p)); }
  return n;
}
static ssize_t do_write(int fd, const void *buf, size_t n, i64 *pp) {
  if (fd == 1 || fd == 2) return n;
  int f = K.point(S_WRITE, fd, n); OpenFile *o = ofd(fd); if (!o || !o->ino) return failE(EBADF); if ((o->flags & O_ACCMODE) == O_RDONLY) { K.log(S_WRITE, fd, n, -EBADF); return failE(EBADF); }
  i64 pos = pp ? *pp : ((o->flags & O_APPEND) ? (i64)o->ino->data.size() : o->pos);
  if (f == F_W_EIO) { K.log(S_WRITE, pos, n, -EIO); return failE(EIO); } if (f == F_W_ENOSPC) { K.log(S_WRITE, pos, n, -ENOSPC); return failE(ENOSPC); } if (f == F_EINTR) { K.log(S_WRITE, pos, n, -EINTR); return failE(EINTR); }
  size_t m = n; if (f == F_W_SHORT || f == F_TORN_KILL || f == F_POWER_TORN) { m = n ? Rng(K.fArg).below(n) : 0; if (f == F_TORN_KILL || f == F_W_SHORT) { i64 e = (pos + (i64)m) & ~(i64)4095; m = e > pos ? (size_t)(e - pos) : 0; } else m &= ~(size_t)511; if (f == F_W_SHORT && m == 0) { K.log(S_WRITE, pos, n, -ENOSPC); return failE(ENOSPC); } }
  ssize_t r = rawWrite(o, buf, m, pos); if (r > 0 && !pp) o->pos = pos + r;
  K.log(S_WRITE, (u64)pos, hbytes(buf, n), r);
  if (f == F_TORN_KILL || f == F_KILL_AFTER) dieNow(); if (f == F_POWER_TORN) powerNow(K.fArg);
  return r;
}
static ssize_t h_read(int fd, void *b, size_t n) { return do_read(fd, b, n, nullptr); }
static ssize_t h_write(int fd, const void *b, size_t n) { return do_write(fd, b, n, nullptr); }
static ssize_t h_pread(int fd, void *b, size_t n, off_t o) { i64 p = o; return do_read(fd, b, n, &p); }
static ssize_t h_pwrite(int fd, const void *b, size_t n, off_t o) { i64 p = o; return do_write(fd, b, n, &p); }
static off_t h_lseek(int fd, off_t off, int wh) {
  K.point(S_LSEEK); OpenFile *o = ofd(fd); if (!o || !o->ino) return failE(EBADF);
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (i64)o->ino->data.size(); if (b + off < 0) return failE(EINVAL); o->pos = b + off; return o->pos;
}
static int h_fsync(int fd) {
  int f = K.point(S_FSYNC, fd); OpenFile *o = ofd(fd); if (!o || !o->ino) return failE(EBADF);
  if (f == F_FSYNC_EIO) { K.log(S_FSYNC, fd, 0, -EIO); return failE(EIO); } if (f == F_EINTR) { return failE(EINTR); }
  K.syncInode(o->ino.get()); K.now += 300; K.log(S_FSYNC, fd, 0, 0); if (f == F_KILL_AFTER) dieNow(); return 0;
}
static int lockRange(OpenFile *o, i64 s, i64 e, int cmd, int f, bool shared = false) { // cmd as lockf
  Proc *p = K.me(); InodeP keep = o->ino; Inode *i = keep.get();
  if (cmd == F_TEST) { int r = lockConflict(i, s, e, p->id, nullptr, true) ? -1 : 0; K.log(S_LOCKF, s, cmd, r); /* as the C library: tests for a write lock */ if (r) return failE(EACCES); return 0; }
  if (cmd == F_ULOCK) { lockRemove(i, s, e, p->id); K.log(S_LOCKF, s, cmd, 0); if (f == F_KILL_AFTER) dieNow(); return 0; }
  if (!shared && (o->flags & O_ACCMODE) == O_RDONLY) { K.log(S_LOCKF, s, cmd, -EBADF); return failE(EBADF); }
  for (;;) {
    if (!lockConflict(i, s, e, p->id, nullptr, shared)) break;
    if (cmd == F_TLOCK) { K.log(S_LOCKF, s, cmd, -1); return failE(EAGAIN); }
    // deadlock detection through the waits-for graph
    { std::set<int> seen; std::vector<int> q; for (auto &l : i->locks) if (l.proc != p->id && l.s < e && s < l.e) q.push_back(l.proc);
      bool dl = false; while (!q.empty()) { int h = q.back(); q.pop_back(); if (h == p->id) { dl = true; break; } if (!seen.insert(h).second) continue; Proc *hp = K.procs[h]; if (hp->st == P_BLOCKED && hp->waitIno) for (auto &l : hp->waitIno->locks) if (l.proc != h && l.s < hp->waitE && hp->waitS < l.e) q.push_back(l.proc); }
      if (dl) { K.log(S_LOCKF, s, cmd, -EDEADLK); K.probe("edeadlk"); return failE(EDEADLK); } }
    K.st.lockWaits++; p->waits++; p->blkStep = K.step; p->waitIno = keep; p->waitS = s; p->waitE = e; p->st = P_BLOCKED; K.bOp = p->curOp; K.bSys = p->sysIdx; K.yieldMain(); p->waitIno.reset();
  }
  lockRemove(i, s, e, p->id); i->locks.push_back({s, e, p->id, shared}); K.log(S_LOCKF, s, cmd, 0); if (f == F_KILL_AFTER) dieNow(); return 0;
}
static int h_lockf(int fd, int cmd, off_t len) {
  int f = K.point(S_LOCKF, fd, cmd); OpenFile *o = ofd(fd); if (!o || !o->ino) return failE(EBADF);
  if (f == F_LOCK_ERR) { K.log(S_LOCKF, o->pos, cmd, -ENOLCK); return failE(ENOLCK); } if (f == F_EINTR) { K.log(S_LOCKF, o->pos, cmd, -EINTR); return failE(EINTR); }
  i64 s = o->pos, e = len == 0 ? INT64_MAX : s + len; if (len < 0) { e = s; s = s + len; }
  return lockRange(o, s, e, cmd, f);
}
static int h_fcntl(int fd, int cmd, void *arg) {
  if (cmd == F_GETLK || cmd == F_SETLK || cmd == F_SETLKW) {
    int f = K.point(S_LOCKF, fd, cmd); OpenFile *o = ofd(fd); if (!o || !o->ino) return failE(EBADF);
    if (f == F_LOCK_ERR) return failE(ENOLCK); if (f == F_EINTR) return failE(EINTR);
    struct flock *fl = (struct flock *)arg; i64 b = fl->l_whence == SEEK_SET ? 0 : fl->l_whence == SEEK_CUR ? o->pos : (i64)o->ino->data.size();
    i64 s = b + fl->l_start, e = fl->l_len == 0 ? INT64_MAX : s + fl->l_len;
    if (cmd == F_GETLK) { int h; if (lockConflict(o->ino.get(), s, e, K.cur, &h, fl->l_type == F_RDLCK)) { fl->l_type = F_WRLCK; fl->l_whence = SEEK_SET; fl->l_start = s; fl->l_len = 8; fl->l_pid = K.procs[h]->simpid; } else fl->l_type = F_UNLCK; return 0; }
    if (fl->l_type == F_UNLCK) return lockRange(o, s, e, F_ULOCK, f);
    return lockRange(o, s, e, cmd == F_SETLKW ? F_LOCK : F_TLOCK, f, fl->l_type == F_RDLCK);
  }
  return 0;
}
static int truncIno(InodeP i, i64 len) { K.diskUsed += len - (i64)i->data.size(); i->data.resize(len, 0); i->wgen++; if (K.track) { PendOp o; o.type = 1; o.off = len; i->pend.push_back(o); } return 0; }
static int h_ftruncate(int fd, off_t len) { int f = K.point(S_FTRUNC, fd, len); OpenFile *o = ofd(fd); if (!o || !o->ino) return failE(EBADF); if (f == F_TRUNC_EIO) { K.log(S_FTRUNC, fd, len, -EIO); return failE(EIO); } if (len < 0 || len > (256LL << 20)) return failE(len < 0 ? EINVAL : EFBIG); K.noteWrite(o->path); truncIno(o->ino, len); K.log(S_FTRUNC, fd, len, 0); if (f == F_KILL_AFTER) dieNow(); return 0; }
static int h_truncate(const char *p, off_t len) { int f = K.point(S_FTRUNC, 0, len); auto it = K.dir.find(norm(p)); if (it == K.dir.end()) return failE(ENOENT); if (f == F_TRUNC_EIO) return failE(EIO); if (len < 0 || len > (256LL << 20)) return failE(len < 0 ? EINVAL : EFBIG); K.noteWrite(norm(p)); return truncIno(it->second, len); }
static void fillStat(Inode *i, struct stat *s) { memset(s, 0, sizeof *s); s->st_size = i->data.size(); s->st_mode = S_IFREG | 0644; s->st_nlink = 1; s->st_ino = i->id; s->st_blksize = 4096; s->st_mtime = (K.realBase + K.now + K.realSkew) / 1000000; }
static int h_stat(const char *p, struct stat *s) { int f = K.point(S_STAT, hstr(p)); if (f == F_STAT_EIO) { K.log(S_STAT, hstr(p), 0, -EIO); return failE(EIO); } auto it = K.dir.find(norm(p)); if (it == K.dir.end()) { K.log(S_STAT, hstr(p), 0, -ENOENT); return failE(ENOENT); } fillStat(it->second.get(), s); K.log(S_STAT, hstr(p), s->st_size, 0); return 0; }
static int h_fstat(int fd, struct stat *s) { K.point(S_STAT); OpenFile *o = ofd(fd); if (!o || !o->ino) return failE(EBADF); fillStat(o->ino.get(), s); return 0; }
static int h_access(const char *p, int m) { int f = K.point(S_ACCESS); if (f == F_STAT_EIO) return failE(EIO); std::string s = norm(p); if (!K.dir.count(s)) return failE(ENOENT); if ((m & W_OK) && K.roPaths.count(s)) return failE(EACCES); return 0; }
static void *h_malloc(size_t n);
static char *h_realpath(const char *p, char *r) {
  int f = K.point(S_REALPATH); if (f == F_STAT_EIO) { errno = EIO; return nullptr; } std::string s = norm(p); if (!K.dir.count(s) && s != "/d" && s != "/tmp") { errno = ENOENT; return nullptr; }
  if (!r) { r = (char *)h_malloc(4096); if (!r) { errno = ENOMEM; return nullptr; } } strcpy(r, s.c_str()); return r;
}
static int h_unlink(const char *p) { int f = K.point(S_UNLINK, hstr(p)); if (f == F_UNLINK_EIO) { K.log(S_UNLINK, hstr(p), 0, -EIO); return failE(EIO); } std::string s = norm(p); auto it = K.dir.find(s); if (it == K.dir.end()) { K.log(S_UNLINK, hstr(p), 0, -ENOENT); return failE(ENOENT); } K.noteWrite(s); K.diskUsed -= it->second->data.size(); K.metaAdd(1, s, "", it->second); K.dir.erase(it); K.log(S_UNLINK, hstr(p), 0, 0); if (f == F_KILL_AFTER) dieNow(); return 0; }
static int h_rename(const char *a, const char *b) { int f = K.point(S_RENAME, hstr(a), hstr(b)); if (f == F_RENAME_EIO) { K.log(S_RENAME, hstr(a), hstr(b), -EIO); return failE(EIO); } std::string x = norm(a), y = norm(b); auto it = K.dir.find(x); if (it == K.dir.end()) return failE(ENOENT); if (!dirOk(y)) return failE(ENOENT); K.noteWrite(x); K.noteWrite(y); InodeP i = it->second; auto jt = K.dir.find(y); if (jt != K.dir.end()) K.diskUsed -= jt->second->data.size(); K.dir.erase(it); K.dir[y] = i; K.metaAdd(2, x, y, i); K.log(S_RENAME, hstr(a), hstr(b), 0); if (f == F_KILL_AFTER) dieNow(); return 0; }
static int h_mkstemp(char *t) { size_t n = strlen(t); static int c = 0; char b[8]; snprintf(b, sizeof b, "%06d", (int)(K.step % 1000000)); (void)c; if (n >= 6) memcpy(t + n - 6, b, 6); return do_open(t, O_RDWR | O_CREAT | O_EXCL); }
static int h_usleep(unsigned long us) { int f = K.point(S_USLEEP, us); (void)f; Proc *p = K.me(); p->waits++; p->st = P_SLEEP; p->wake = K.now + (i64)us; K.bOp = p->curOp; K.bSys = p->sysIdx; K.yieldMain(); K.log(S_USLEEP, us, 0, 0); return 0; }
int hooksUsleep(unsigned long us) { return h_usleep(us); }
static int h_clock(int clk, struct timespec *t) { K.point(S_CLOCK); i64 v = clk == 0 ? K.realBase + K.now + K.realSkew : K.now; t->tv_sec = v / 1000000; t->tv_nsec = (v % 1000000) * 1000; return 0; }
static int h_getpid(void) { return K.me()->simpid; }
static char *h_getenv(const char *) { return nullptr; }
static bool mallocFault() { int f = K.point(S_MALLOC); if (f == F_MALLOC) K.me()->noMem = true; return f == F_MALLOC; }
static void *h_malloc(size_t n) { if (mallocFault() || n > (size_t)1 << 40) { errno = ENOMEM; return nullptr; } void *p = K.me()->arena.alloc(n, false); if (!p) errno = ENOMEM; return p; }
static void *h_calloc(size_t a, size_t b) { if (mallocFault()) { errno = ENOMEM; return nullptr; } if (b && a > ((size_t)1 << 40) / b) { errno = ENOMEM; return nullptr; } void *p = K.me()->arena.alloc(a * b, true); if (!p) errno = ENOMEM; return p; }
static void h_free(void *p) { if (p) K.me()->arena.dealloc(p); }
static void *h_realloc(void *o, size_t n) { if (mallocFault() || n > (size_t)1 << 40) { errno = ENOMEM; return nullptr; } Arena &A = K.me()->arena; void *p = A.alloc(n, false); if (!p) return nullptr; if (o) { memcpy(p, o, std::min(n, A.sizeOf(o))); A.dealloc(o); } return p; }
static void h_die(const char *w) { if (K.me()->noMem) dieNow(); K.fail("ABORT", std::string("library aborted: ") + w); K.me()->st = P_DEAD; for (;;) K.yieldMain(); }
static int h_rand(void) { return (int)(K.rp.next() >> 33); }
// stdio
static SimFILE *sf(void *f) { SimFILE *s = (SimFILE *)f; for (auto x : K.me()->files) if (x == s) return s; return nullptr; }
static void h_console(const char *t) { Proc *p = K.me(); if (p && p->echo) fputs(t, stderr); if (p && p->console.size() < 20000) p->console += t; }
static void *mkFile(int fd) { SimFILE *s = new SimFILE; s->magic = 1; s->fd = fd; s->eof = s->err = s->wr = false; s->rpos = 0; K.me()->files.push_back(s); return s; }
static void *h_fopen(const char *p, const char *m) { int fl; if (m[0] == 'r') fl = strchr(m, '+') ? O_RDWR : O_RDONLY; else if (m[0] == 'w') fl = (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; else fl = O_WRONLY | O_CREAT | O_APPEND; int fd = do_open(p, fl); if (fd < 0) return nullptr; return mkFile(fd); }
static void *h_fdopen(int fd, const char *) { return mkFile(fd); }
static int fl(SimFILE *s) { size_t o = 0; while (o < s->wbuf.size()) { ssize_t r = do_write(s->fd, s->wbuf.data() + o, s->wbuf.size() - o, nullptr); if (r <= 0) { s->err = true; s->wbuf.clear(); return -1; } o += r; } s->wbuf.clear(); return 0; }
static int h_fclose(void *f) { SimFILE *s = sf(f); if (!s) return 0; int r = fl(s); if (h_close(s->fd)) r = -1; auto &v = K.me()->files; v.erase(std::find(v.begin(), v.end(), s)); delete s; return r; }
static size_t h_fread(void *b, size_t sz, size_t n, void *f) { SimFILE *s = sf(f); if (!s) return 0; size_t want = sz * n, got = 0; while (got < want) { if (s->rpos < s->rbuf.size()) { size_t k = std::min(want - got, s->rbuf.size() - s->rpos); memcpy((u8 *)b + got, s->rbuf.data() + s->rpos, k); s->rpos += k; got += k; continue; } s->rbuf.resize(4096); s->rpos = 0; ssize_t r = do_read(s->fd, s->rbuf.data(), 4096, nullptr); if (r <= 0) { s->rbuf.clear(); if (r == 0) s->eof = true; else s->err = true; break; } s->rbuf.resize(r); } return sz ? got / sz : 0; }
static size_t h_fwrite(const void *b, size_t sz, size_t n, void *f) { if (f == stdout || f == stderr) { std::string t((const char *)b, std::min<size_t>(sz * n, 2000)); h_console(t.c_str()); return n; } SimFILE *s = sf(f); if (!s) return 0; s->wbuf.insert(s->wbuf.end(), (const u8 *)b, (const u8 *)b + sz * n); if (s->wbuf.size() >= 4096 && fl(s)) return 0; return n; }
static int h_fgetc(void *f) { u8 c; return h_fread(&c, 1, 1, f) == 1 ? c : -1; }
static char *h_fgets(char *b, int n, void *f) { int i = 0; while (i < n - 1) { int c = h_fgetc(f); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return nullptr; b[i] = 0; return b; }
static int h_feof(void *f) { SimFILE *s = sf(f); return s ? s->eof : 0; }
static int h_ferror(void *f) { SimFILE *s = sf(f); return s ? s->err : 0; }
static int h_fflush(void *f) { SimFILE *s = sf(f); return s ? fl(s) : 0; }
static int h_fseek(void *f, long o, int w) { SimFILE *s = sf(f); if (!s) return -1; fl(s); if (w == SEEK_CUR) o -= (long)(s->rbuf.size() - s->rpos); s->rbuf.clear(); s->rpos = 0; s->eof = false; return h_lseek(s->fd, o, w) < 0 ? -1 : 0; }
static long h_ftell(void *f) { SimFILE *s = sf(f); if (!s) return -1; OpenFile *o = ofd(s->fd); return o ? (long)(o->pos - (i64)(s->rbuf.size() - s->rpos) + (i64)s->wbuf.size()) : -1; }
static int h_fileno(void *f) { if (f == stdout) return 1; if (f == stderr) return 2; SimFILE *s = sf(f); return s ? s->fd : -1; }

static void installHooks() {
  HK = {h_open, h_close, h_read, h_write, h_pread, h_pwrite, h_lseek, h_fsync, h_lockf, h_fcntl, h_ftruncate, h_truncate, h_stat, h_fstat, h_access, h_realpath, h_unlink, h_rename, h_mkstemp, h_usleep, h_clock, h_getpid, h_getenv,
        h_malloc, h_calloc, h_realloc, h_free, h_die, h_rand, h_fopen, h_fdopen, h_fclose, h_fread, h_fwrite, h_fgets, h_fgetc, h_feof, h_ferror, h_fflush, h_fseek, h_ftell, h_fileno, h_console};
}
