// Runner and command line of the simulator.
#include "host.hpp"
#include <sys/personality.h>
#include <sys/resource.h>
#include <unistd.h>
#include <limits.h>
#include <time.h>
#include <algorithm>
Case *CUR = nullptr;
extern void opsReset(int proc); extern bool leakMode;
// ---------------------------------------------------------------- case text
static std::string esc(const std::string &s) { std::string r; char b[4]; for (unsigned char c : s) { if (c <= ' ' || c == '%' || c == '=' || c > 126) { snprintf(b, sizeof b, "%%%02X", c); r += b; } else r += (char)c; } return r.empty() ? "-" : r; }
static std::string unesc(const std::string &s) { if (s == "-") return ""; std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else r += s[i]; } return r; }
std::string caseToText(const Case &c) {
  char b[600]; std::string t; const Cfg &g = c.cfg;
  t += "# replay file of the hec-dss deterministic simulator: run 'dsssim replay FILE'\n";
  snprintf(b, sizeof b, "case prop=%s seed=%llu replay=%d\n", c.prop.c_str(), (unsigned long long)c.seed, c.replaySched ? 1 : 0); t += b;
  snprintf(b, sizeof b, "cfg nproc=%d nfiles=%d hash=%d bin=%d mode=%d reclaim=%d track=%d preempt=%.6f fill=%d power=%d lin=%d mlvl=%d disk=%lld ro=%d maxsteps=%d leak=%d noprobe=%d legacy=%d turn=%.4f\n", g.nproc, g.nfiles, g.hash, g.bin, g.defMode, g.reclaim, g.track, g.preempt, g.fill, g.powerMode, g.lin, g.mlvl, (long long)g.diskCap, g.ro, g.maxSteps, g.leak, g.noprobe, g.legacy, g.turn); t += b;
  for (auto &o : c.ops) {
    snprintf(b, sizeof b, "op id=%d phase=%d proc=%d do=%s file=%d file2=%d slot=%d mode=%d capi=%d", o.id, o.phase, o.proc, opName[o.code], o.file, o.file2, o.slot, o.mode, o.capi); t += b;
    if (!o.path.empty()) t += " path=" + esc(o.path); if (!o.path2.empty()) t += " path2=" + esc(o.path2);
    if (o.code == OP_STORE || o.code == OP_READ) { snprintf(b, sizeof b, " kind=%d v=%llu n=%d n2=%d n3=%d flags=%d", o.sp.kind, (unsigned long long)o.sp.v, o.sp.n, o.sp.n2, o.sp.n3, o.sp.flags); t += b; }
    for (int i = 0; i < 4; i++) if (o.a[i]) { snprintf(b, sizeof b, " a%d=%lld", i, (long long)o.a[i]); t += b; }
    if (o.arm) { snprintf(b, sizeof b, " fault=%s after=%lld arg=%llu", faultName[o.arm], (long long)o.armCount, (unsigned long long)o.armArg); t += b; }
    t += "\n";
  }
  for (auto &s : c.sched) { snprintf(b, sizeof b, "sched op=%d sys=%d blk=%d next=%d\n", s.op, s.sys, s.blk, s.next); t += b; }
  return t;
}
bool caseFromText(const std::string &t, Case &c) {
  c = Case(); size_t i = 0; bool got = false;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); std::string l = t.substr(i, e - i); i = e + 1; if (l.empty() || l[0] == '#') continue;
    std::vector<std::string> w; size_t p = 0; while (p < l.size()) { size_t q = l.find(' ', p); if (q == std::string::npos) q = l.size(); if (q > p) w.push_back(l.substr(p, q - p)); p = q + 1; }
    if (w.empty()) continue; std::map<std::string, std::string> kv; for (size_t k = 1; k < w.size(); k++) { size_t q = w[k].find('='); if (q != std::string::npos) kv[w[k].substr(0, q)] = w[k].substr(q + 1); }
    auto I = [&](const char *k) { auto it = kv.find(k); return it == kv.end() ? 0LL : strtoll(it->second.c_str(), 0, 10); }; auto U = [&](const char *k) { auto it = kv.find(k); return it == kv.end() ? 0ULL : strtoull(it->second.c_str(), 0, 10); };
    if (w[0] == "case") { c.prop = kv["prop"]; c.seed = U("seed"); c.replaySched = I("replay"); got = true; }
    else if (w[0] == "cfg") { Cfg &g = c.cfg; g.nproc = I("nproc"); g.nfiles = I("nfiles"); g.hash = I("hash"); g.bin = I("bin"); g.defMode = I("mode"); g.reclaim = I("reclaim"); g.track = I("track"); g.preempt = atof(kv["preempt"].c_str()); g.fill = I("fill"); g.powerMode = I("power"); g.lin = I("lin"); g.mlvl = I("mlvl"); g.diskCap = I("disk"); g.ro = I("ro"); g.maxSteps = I("maxsteps"); g.leak = I("leak"); g.noprobe = I("noprobe"); g.legacy = I("legacy"); g.turn = kv.count("turn") ? atof(kv["turn"].c_str()) : 0; }
    else if (w[0] == "op") {
      Op o; o.id = I("id"); o.phase = I("phase"); o.proc = I("proc"); o.file = I("file"); o.file2 = I("file2"); o.slot = I("slot"); o.mode = I("mode"); o.capi = I("capi"); o.code = -1; for (int k = 0; k < OP_LAST; k++) if (kv["do"] == opName[k]) o.code = k; if (o.code < 0) return false;
      if (kv.count("path")) o.path = unesc(kv["path"]); if (kv.count("path2")) o.path2 = unesc(kv["path2"]); o.sp.kind = I("kind"); o.sp.v = U("v"); o.sp.n = I("n"); o.sp.n2 = I("n2"); o.sp.n3 = I("n3"); o.sp.flags = I("flags"); char nm[3] = "a0"; for (int k = 0; k < 4; k++) { nm[1] = '0' + k; o.a[k] = I(nm); }
      if (kv.count("fault")) { o.arm = faultByName(kv["fault"].c_str()); if (o.arm < 0) return false; o.armCount = I("after"); o.armArg = U("arg"); } c.ops.push_back(o); }
    else if (w[0] == "sched") c.sched.push_back({(int)I("op"), (int)I("sys"), (int)I("blk"), (int)I("next")});
    else return false;
  }
  return got;
}
// ---------------------------------------------------------------- one run
static bool benign(int k) { return k == F_STALL || k == F_CLOCK_JUMP; }
RunResult runCase(Case &c, FILE *trace) {
  RunResult R; CUR = &c;
  for (auto &o : c.ops) { Op n; n.id = o.id; n.proc = o.proc; n.phase = o.phase; n.slot = o.slot; n.code = o.code; n.file = o.file; n.file2 = o.file2; n.mode = o.mode; n.capi = o.capi; n.path = o.path; n.path2 = o.path2; n.sp = o.sp; for (int i = 0; i < 4; i++) n.a[i] = o.a[i]; n.arm = o.arm; n.armCount = o.armCount; n.armArg = o.armArg; o = n; }
  K.resetRun(c.seed); K.noprobeBits = c.cfg.noprobe; K.killsDone = 0; K.traceOut = trace; K.fill = (u8)c.cfg.fill; K.preemptP = c.replaySched ? 0 : c.cfg.preempt; K.turnP = c.replaySched ? 0 : c.cfg.turn; K.track = c.cfg.track; K.powerMode = c.cfg.powerMode; K.diskCap = K.diskCap0 = c.cfg.diskCap; K.maxSteps = (u64)c.cfg.maxSteps;
  if (c.replaySched) { K.replay = true; for (auto &s : c.sched) { if (s.blk == 0) K.rSched[{s.op, s.sys}] = s.next; else K.rSchedList.push_back(s); } }
  Oracle *O = newOracle(&c); u64 shape = 1469598103934665603ULL; int maxPhase = 0; for (auto &o : c.ops) maxPhase = std::max(maxPhase, o.phase);
  for (int ph = 0; ph <= maxPhase && !K.vio.set; ph++) {
    std::vector<std::vector<int>> q(4); for (size_t i = 0; i < c.ops.size(); i++) if (c.ops[i].phase == ph) q[c.ops[i].proc & 3].push_back((int)i); std::vector<size_t> nx(4, 0); if (ph > 0 && c.cfg.ro) for (int f = 0; f < 4; f++) if (c.cfg.ro >> f & 1) K.roPaths.insert(fileName(f));
    std::function<void(Proc *)> body = [&](Proc *p) {
      p->echo = trace != nullptr && getenv("DSSSIM_CONSOLE"); p->api->zset("mlvl", "", trace && getenv("DSSSIM_CONSOLE") ? 5 : c.cfg.mlvl);
      auto &L = q[p->id];
      while (nx[p->id] < L.size()) {
        if (K.vio.set) { p->st = P_DONE; for (;;) K.yieldMain(); }
        Op &op = c.ops[L[nx[p->id]++]]; p->armKind = op.arm; p->armCount = op.armCount; p->armArg = op.armArg; op.started = true; op.tInv = K.step; p->nw = 0; p->waits = 0; op.nowInv = K.now; K.beginOp(op.id); if (K.vio.set) continue; op.tInv = K.step;
        size_t fl0 = K.faultLog.size(); int tf = op.code == OP_COPYREC || op.code == OP_COPYFILE ? op.file2 : op.file; u64 fw0 = tf >= 0 ? K.wroteBy(p->id, fileName(tf)) : 0; oracleBegin(O, op); p->damaged = op.dmg; execOp(p, op); p->damaged = false; K.endOp(); op.tRet = ++K.step; op.done = true; op.nwrites = p->nw; if (tf >= 0) op.fwrites = K.wroteBy(p->id, fileName(tf)) - fw0; op.waits = p->waits; for (size_t i = 0; i < K.faultLog.size(); i++) if (K.faultLog[i].op == op.id && !benign(K.faultLog[i].kind)) { op.faulted = true; op.faultKind = K.faultLog[i].kind; } (void)fl0;
        R.ops++; if (op.status >= 0) R.okops++; shape = mix64(shape, (u64)op.code * 131 + (u64)(op.status == 0) + (u64)op.proc * 7); K.hash = mix64(K.hash, hbytes(op.out.data(), op.out.size()) ^ (u64)(op.status + 77)); for (auto &s : op.list) K.hash = mix64(K.hash, hstr(s.c_str())); for (auto &v : op.vals) { u64 d; memcpy(&d, &v.v, 8); K.hash = mix64(K.hash, d ^ (u64)v.t * 31 + v.q * 7 + v.n); } for (auto x : op.nums) K.hash = mix64(K.hash, (u64)x);
        if (trace) fprintf(trace, "   == p%d op%d %s %s %s file%d -> status %d%s%s %s\n", p->id, op.id, opName[op.code], op.path.c_str(), op.path2.c_str(), op.file, op.status, op.faulted ? " faulted" : "", op.openFail ? " open failed" : "", op.out.substr(0, 200).c_str());
        oracleDone(O, op);
        if (op.code == OP_EXIT) { p->curOp = -1; p->st = P_DEAD; for (;;) K.yieldMain(); }
        if (op.code == OP_POWER) { p->curOp = -1; K.powerPending = true; K.powerArg = (u64)op.a[0]; p->st = P_DEAD; for (;;) K.yieldMain(); }
      }
    };
    auto lost = [&](int pid, bool power) { for (auto i : q[pid]) { Op &op = c.ops[i]; if (op.started && !op.done && !op.killed) { op.killed = true; op.powered = power; op.nwrites = K.procs[pid]->nw; op.tRet = ++K.step; shape = mix64(shape, 0xDEAD + op.code * 31 + (K.faultLog.empty() ? 0 : K.faultLog.back().sys)); if (trace) fprintf(trace, "   == p%d op%d %s killed after %llu writes\n", pid, op.id, opName[op.code], (unsigned long long)op.nwrites); oracleKilled(O, op, power); } } };
    K.onPower = [&]() { for (int p = 0; p < 4; p++) lost(p, true); oraclePower(O); };
    K.onKilled = [&](int pid) { lost(pid, false); if (nx[pid] < q[pid].size()) { opsReset(pid); K.startProc(K.procs[pid], body); } };
    leakMode = c.cfg.leak;
    for (int p = 0; p < 4; p++) if (!q[p].empty()) { opsReset(p); K.startProc(K.procs[p], body); }
    K.run();
    if (!K.vio.set) for (auto p : K.procs) { if (p->st == P_DONE || p->st == P_IDLE) { p->st = P_IDLE; } }
    for (auto p : K.procs) K.killProc(p);
    oraclePhaseEnd(O, ph);
  }
  if (!K.vio.set) oracleEnd(O); freeOracle(O);
  for (auto &e : K.schedLog) shape = mix64(shape, (u64)e.op << 20 ^ (u64)e.sys << 3 ^ (u64)e.next); for (auto &f : K.faultLog) { shape = mix64(shape, (u64)f.kind * 977 + (u64)f.sys); }
  R.v = K.vio; if (R.v.quiet) { R.v = Violation(); K.st.probes["abandoned"]++; } R.hash = mix64(K.hash, hstr(K.vio.cls.c_str())); R.shape = shape; K.st.simUs = (u64)K.now; R.st = K.st; R.sched = K.schedLog; R.simUs = (u64)K.now; return R;
}
// ---------------------------------------------------------------- command line
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jesc(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r; }
static void initProcs() { char self[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; std::string d(self); d = d.substr(0, d.rfind('/')); std::vector<std::string> l; for (int i = 0; i < 4; i++) l.push_back(d + "/libdss" + std::to_string(i) + ".so"); K.boot(l); for (auto p : K.procs) loadApi(p); }
int main(int argc, char **argv) {
  if (!getenv("DSSSIM_CHILD")) { personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)); setenv("DSSSIM_CHILD", "1", 1); setenv("LD_BIND_NOW", "1", 1); execv("/proc/self/exe", argv); perror("exec"); return 2; }
  { u64 can = 0x5ad0c0ffee00ULL; asm volatile("movq %0, %%fs:0x28" ::"r"(can)); }
  setvbuf(stdout, nullptr, _IOLBF, 0); initProcs();
  std::string cmd = argc > 1 ? argv[1] : ""; std::map<std::string, std::string> kv; for (int i = 2; i < argc; i++) { std::string a = argv[i]; size_t q = a.find('='); if (q != std::string::npos) kv[a.substr(0, q)] = a.substr(q + 1); }
  auto num = [&](const char *k, u64 d) { return kv.count(k) ? strtoull(kv[k].c_str(), 0, 10) : d; };
  if (cmd == "gen") { Case c = generate(kv["prop"], num("seed", 1)); fputs(caseToText(c).c_str(), stdout); return 0; }
  if (cmd == "replay" || cmd == "trace") {
    FILE *f = argc > 2 && argv[2][0] != '-' ? fopen(argv[2], "r") : stdin; if (!f) { perror("open"); return 2; } std::string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); Case c; if (!caseFromText(t, c)) { fprintf(stderr, "bad replay file\n"); return 2; }
    RunResult r = runCase(c, cmd == "trace" ? stdout : nullptr);
    if (kv.count("save")) { Case d = c; d.sched = r.sched; d.replaySched = true; FILE *o = fopen(kv["save"].c_str(), "w"); if (o) { fputs(caseToText(d).c_str(), o); fclose(o); } }
    printf("{\"type\":\"replay\",\"cls\":\"%s\",\"msg\":\"%s\",\"op\":%d,\"hash\":\"%016llx\"}\n", r.v.set ? r.v.cls.c_str() : "", jesc(r.v.msg).c_str(), r.v.op, (unsigned long long)r.hash); return r.v.set ? 1 : 0; }
  if (cmd == "run" || cmd == "batch") {
    std::string prop = kv["prop"], outd = kv.count("out") ? kv["out"] : "/tmp"; u64 s0 = num("start", 1), cnt = num("count", 1000000), stride = num("stride", 1), det = num("det", 16), lim = num("fails", 40); double secs = kv.count("secs") ? atof(kv["secs"].c_str()) : 10, t0 = wall(); int verb = (int)num("verbose", 0);
    FILE *cs = kv.count("cur") ? fopen(kv["cur"].c_str(), "w") : nullptr; int csfd = cs ? fileno(cs) : -1;
    Stats T; u64 runs = 0, ops = 0, okops = 0, simUs = 0, detRuns = 0, detBad = 0, fails = 0; std::set<u64> shapes; std::map<std::string, u64> opc; u64 faultRuns = 0; std::map<std::string, u64> clsCount;
    for (u64 i = 0; i < cnt; i++) {
      if (wall() - t0 > secs) break; u64 seed = s0 + i * stride; if (csfd >= 0) { char sb[24]; snprintf(sb, sizeof sb, "%020llu\n", (unsigned long long)seed); if (pwrite(csfd, sb, 21, 0) < 0) {} } Case c = generate(prop, seed); RunResult r = runCase(c, nullptr); runs++; ops += r.ops; okops += r.okops; simUs += r.simUs; shapes.insert(r.shape); bool fk = false;
      for (int k = 0; k < F_COUNT; k++) { T.faults[k] += r.st.faults[k]; if (r.st.faults[k]) fk = true; } faultRuns += fk; for (int k = 0; k < S_COUNT; k++) T.sys[k] += r.st.sys[k]; T.switches += r.st.switches; T.lockWaits += r.st.lockWaits; T.steps += r.st.steps; T.restarts += r.st.restarts; for (auto &p : r.st.probes) T.probes[p.first] += p.second; for (auto &o : c.ops) if (o.done) opc[opName[o.code]]++;
      if (verb) printf("seed %llu ops %d hash %016llx %s %s\n", (unsigned long long)seed, r.ops, (unsigned long long)r.hash, r.v.set ? r.v.cls.c_str() : "ok", r.v.msg.c_str());
      if (det && (runs % det == 1 || r.v.set)) { Case d = generate(prop, seed); RunResult r2 = runCase(d, nullptr); detRuns++; if (r2.hash != r.hash) { detBad++; printf("{\"type\":\"nondet\",\"seed\":%llu,\"first\":\"%s\",\"second\":\"%s\"}\n", (unsigned long long)seed, r.v.cls.c_str(), r2.v.cls.c_str()); } }
      if (r.v.set) { fails++; clsCount[r.v.cls]++; Case d = generate(prop, seed); d.sched = r.sched; d.replaySched = true; char fn[300]; snprintf(fn, sizeof fn, "%s/%s_%llu.case", outd.c_str(), prop.c_str(), (unsigned long long)seed); FILE *o = fopen(fn, "w"); if (o) { fputs(caseToText(d).c_str(), o); fclose(o); } printf("{\"type\":\"fail\",\"seed\":%llu,\"cls\":\"%s\",\"msg\":\"%s\",\"op\":%d,\"file\":\"%s\",\"hash\":\"%016llx\"}\n", (unsigned long long)seed, r.v.cls.c_str(), jesc(r.v.msg).c_str(), r.v.op, fn, (unsigned long long)r.hash); if (fails >= lim) break; }
    }
    printf("{\"type\":\"stats\",\"runs\":%llu,\"ops\":%llu,\"okops\":%llu,\"sim_us\":%llu,\"wall\":%.3f,\"switches\":%llu,\"lock_waits\":%llu,\"steps\":%llu,\"restarts\":%llu,\"det_runs\":%llu,\"det_bad\":%llu,\"fails\":%llu,\"fault_runs\":%llu,\"faults\":{", (unsigned long long)runs, (unsigned long long)ops, (unsigned long long)okops, (unsigned long long)simUs, wall() - t0, (unsigned long long)T.switches, (unsigned long long)T.lockWaits, (unsigned long long)T.steps, (unsigned long long)T.restarts, (unsigned long long)detRuns, (unsigned long long)detBad, (unsigned long long)fails, (unsigned long long)faultRuns);
    bool first = true; for (int k = 1; k < F_COUNT; k++) if (T.faults[k]) { printf("%s\"%s\":%llu", first ? "" : ",", faultName[k], (unsigned long long)T.faults[k]); first = false; } printf("},\"sys\":{"); first = true; for (int k = 0; k < S_COUNT; k++) if (T.sys[k]) { printf("%s\"%s\":%llu", first ? "" : ",", sysName[k], (unsigned long long)T.sys[k]); first = false; } printf("},\"probes\":{"); first = true; for (auto &p : T.probes) { printf("%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second); first = false; } printf("},\"opcounts\":{"); first = true; for (auto &p : opc) { printf("%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second); first = false; } printf("}}\n");
    FILE *sf = kv.count("shapes") ? fopen(kv["shapes"].c_str(), "wb") : nullptr; if (sf) { for (u64 s : shapes) fwrite(&s, 8, 1, sf); fclose(sf); }
    return fails ? 1 : 0;
  }
  fprintf(stderr, "usage: dsssim gen|run|replay|trace ...\n"); return 2;
}
