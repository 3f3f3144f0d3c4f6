// Deterministic simulator kernel: simulated processes (coroutines), clock, scheduler,
// in-memory file system with a durable image, POSIX record locks, allocator, faults.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include "simhooks.h"
typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef uint32_t u32;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
static inline u64 mix64(u64 a, u64 b) { Rng r(a ^ (b * 0xd6e8feb86659fd93ULL)); r.next(); return r.next(); }
static inline u64 hstr(const char *s) { u64 h = 1469598103934665603ULL; while (*s) h = (h ^ (u8)*s++) * 1099511628211ULL; return h; }
u64 hbytes(const void *p, size_t n, u64 h = 1469598103934665603ULL);

enum Sys { S_OPEN, S_CLOSE, S_READ, S_WRITE, S_LSEEK, S_FSYNC, S_LOCKF, S_FTRUNC, S_STAT, S_ACCESS, S_REALPATH,
           S_UNLINK, S_RENAME, S_USLEEP, S_CLOCK, S_MALLOC, S_OPSTART, S_OTHER, S_COUNT };
extern const char *sysName[];

enum Fault { F_NONE, F_KILL, F_KILL_AFTER, F_TORN_KILL, F_POWER, F_POWER_TORN, F_W_EIO, F_W_ENOSPC, F_W_SHORT, F_R_EIO, F_R_SHORT,
             F_FSYNC_EIO, F_OPEN_ERR, F_CLOSE_EIO, F_LOCK_ERR, F_EINTR, F_MALLOC, F_STALL, F_CLOCK_JUMP, F_TRUNC_EIO,
             F_RENAME_EIO, F_UNLINK_EIO, F_STAT_EIO, F_DISKFULL, F_COUNT };
extern const char *faultName[];
int faultByName(const char *);

struct Inode;
struct PendOp { int type; i64 off; std::vector<u8> data; }; // 0 write, 1 truncate(off)
struct LockRec { i64 s, e; int proc; bool shared = false; };
struct Inode {
  u64 id; std::vector<u8> data; std::vector<u8> dur; std::vector<PendOp> pend; std::vector<LockRec> locks; std::map<int, u64> drop;
  bool readonly = false; u64 wgen = 0;
};
typedef std::shared_ptr<Inode> InodeP;
struct OpenFile { InodeP ino; i64 pos; int flags; std::string path; bool used = false; };
struct SimFILE { u32 magic; int fd; bool eof, err, wr; std::vector<u8> wbuf; std::vector<u8> rbuf; size_t rpos; };

struct Arena {
  u8 *base = nullptr; size_t cap = 0, top = 0, dirty = 0; u8 fill = 0xA5;
  u64 live = 0, liveBytes = 0, seq = 0; std::vector<std::vector<u8 *>> freeList;
  void reset(); void *alloc(size_t n, bool zero); void dealloc(void *p); size_t sizeOf(void *p); size_t room(const void *p); void dump(u64 from); bool owns(void *p) { return (u8 *)p >= base && (u8 *)p < base + cap; }
};

struct Ctx { void *sp; };
struct Api;
enum PState { P_IDLE, P_READY, P_BLOCKED, P_SLEEP, P_DEAD, P_DONE };
struct Op;
struct Proc {
  int id; PState st = P_IDLE; Ctx ctx; u8 *stack = nullptr; size_t stackSize = 0;
  void *dl = nullptr; Api *api = nullptr; u8 *dataBase = nullptr; size_t dataSize = 0; std::vector<u8> dataSnap; u8 *textLo = nullptr, *textHi = nullptr;
  Arena arena; std::vector<OpenFile> fds; std::vector<SimFILE *> files; i64 wake = 0; int simpid = 0; int incarnation = 0;
  InodeP waitIno; i64 waitS = 0, waitE = 0; // lock being waited for
  int savedErrno = 0;
  int curOp = -1; int sysIdx = 0; // key of the current point
  // armed fault (generation mode)
  int armKind = 0; i64 armCount = 0; u64 armArg = 0; int stickyKind = 0; u64 nsys = 0, nw = 0; int waits = 0; u64 blkStep = 0; bool damaged = false, noMem = false;
  std::string console; bool echo = false;
  long long ifltab[6][500]; int slotState[6]; int slotFile[6]; int slotMode[6]; u64 slotStep[6]; // library handles of this process (0 closed)
  int slotRaw[6]; // guest-visible misc
  void *uscratch = nullptr;
};

struct SchedEv { int op; int sys; int blk; int next; };
struct FaultEv { int op; int sys; int kind; u64 arg; };

struct Stats {
  u64 faults[F_COUNT] = {0}; u64 armed[F_COUNT] = {0}; u64 sys[S_COUNT] = {0}; u64 switches = 0; u64 lockWaits = 0; u64 steps = 0; u64 simUs = 0; u64 restarts = 0;
  std::map<std::string, u64> probes;
};

struct Violation { bool set = false; bool quiet = false; std::string cls; std::string msg; int op = -1; };

struct Kernel {
  std::vector<Proc *> procs; int cur = -1; Ctx mainCtx; i64 now = 0; i64 realBase = 0; i64 realSkew = 0;
  std::map<std::string, u64> wrote[8]; u64 wroteBy(int proc, const std::string &s) { auto it = wrote[proc & 7].find(s); return it == wrote[proc & 7].end() ? 0 : it->second; } void noteWrite(const std::string &s) { if (cur >= 0) wrote[cur & 7][s]++; }
  u64 step = 0, runNo = 0, maxSteps = 400000; int noprobeBits = 0, killsDone = 0; u64 hash = 0; bool tracing = false; FILE *traceOut = nullptr;
  // FS
  std::map<std::string, InodeP> dir, dirDur; struct MetaOp { int t; std::string a, b; InodeP ino; }; std::vector<MetaOp> meta; bool track = false; bool durableDefault = true; u64 inoNext = 1; i64 diskCap = -1, diskCap0 = -1; i64 diskUsed = 0;
  std::set<std::string> roPaths;
  // decisions
  bool replay = false; Rng rs, rf, rp; double preemptP = 0, turnP = 0; bool faultsOn = true; i64 tick = 7; u8 fill = 0xA5; int powerMode = 0;
  std::vector<SchedEv> schedLog; std::vector<FaultEv> faultLog; // recorded (or given, in replay)
  std::map<std::pair<int,int>, int> blkCount; std::vector<SchedEv> rSchedList;
  std::map<std::pair<int,int>, FaultEv> rFaults; std::map<std::pair<int,int>, int> rSched, rSchedB;
  Stats st; Violation vio;
  int forcedNext = -1; int lastRun = -1; bool powerPending = false; u64 powerArg = 0; u64 progressStep = 0;
  // callbacks
  std::function<void(int proc)> onKilled; // called in main context when a process was killed (in-flight op is proc->curOp)
  std::function<void()> onPower;
  void boot(const std::vector<std::string> &libs);           // once per OS process
  void resetRun(u64 seed);
  void startProc(Proc *p, std::function<void(Proc *)> body);   // fresh incarnation
  void run(std::function<bool()> until = nullptr);
  void fail(const std::string &cls, const std::string &msg); // record first violation
  void beginOp(int opid); void endOp();
  void killProc(Proc *p);
  void powerLoss(u64 arg);
  void resetImage(Proc *p);
  std::map<int, std::function<void(Proc *)>> bodies;
  // used by hooks
  int point(Sys k, u64 a = 0, u64 b = 0); // returns fault kind to apply (0 none); may switch
  void block(PState s); void switchTo(Proc *p); void yieldMain();
  void log(int k, u64 a, u64 b, i64 r);
  u64 fArg = 0;
  bool eligible(int kind, Sys s);
  Proc *me() { return cur >= 0 ? procs[cur] : nullptr; }
  void syncInode(Inode *i); void metaAdd(int t, const std::string &a, const std::string &b, InodeP i);
  std::vector<u8> *fileData(const std::string &p) { auto it = dir.find(p); return it == dir.end() ? nullptr : &it->second->data; }
  int openCount(const std::string &path); bool openOthers(const std::string &path, int proc); int handoverMissed(int proc, const std::string &path, u64 since); int locksHeld(int proc, const std::string &path); bool droppedSince(int proc, const std::string &path, u64 since);
  void probe(const char *n) { st.probes[n]++; }
  int pickNext(bool blk);
  int bOp = -1, bSys = -1; // key of the last blocking point
};
extern Kernel K;
int hooksUsleep(unsigned long us);
