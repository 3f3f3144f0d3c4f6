// Executable reference model: per record a set of possible values; every observation must agree with
// one of them and narrows the set. Faulted or killed updates widen the set of the records they touch only.
#include "host.hpp"
#include <algorithm>
#include <math.h>
enum { V_ABSENT, V_PRESENT, V_DELETED, V_ANY, V_ALIAS };
typedef std::map<i64, TsVal> TsMap;
typedef std::shared_ptr<const TsMap> TsP;
struct Val {
  int st = V_ABSENT; std::string content; TsP ts; int type = 0; std::string target;
  bool operator==(const Val &o) const { if (st != o.st) return false; if (st != V_PRESENT && st != V_DELETED) return target == o.target; if (content != o.content) return false; if (!!ts != !!o.ts) return false; if (!ts || ts == o.ts) return true; if (ts->size() != o.ts->size()) return false; auto a = ts->begin(), b = o.ts->begin(); for (; a != ts->end(); ++a, ++b) if (a->first != b->first || a->second.v != b->second.v || a->second.miss != b->second.miss || a->second.q != b->second.q || a->second.n != b->second.n || a->second.c != b->second.c) return false; return true; }
};
typedef std::vector<Val> Poss;
static Val absentV() { return Val(); }
static Val anyV() { Val v; v.st = V_ANY; return v; }
static void addV(Poss &p, const Val &v) { for (auto &x : p) if (x == v) return; if (p.size() > 24) { p.assign(1, anyV()); return; } p.push_back(v); }
static bool isAny(const Poss &p) { for (auto &v : p) if (v.st == V_ANY) return true; return false; }
static bool sure(const Poss &p, int st) { for (auto &v : p) if (v.st != st) return false; return !p.empty(); }
static bool could(const Poss &p, int st) { for (auto &v : p) if (v.st == st || v.st == V_ANY) return true; return false; }
struct Rcd { Poss p; std::string path; u64 lastW = 0; int inflight = 0; i64 wLo = 0, wHi = 0, bLo = 0; bool shared = false, hurt = false; u64 delSeq = 0; Poss ghosts; }; // hurt: an update of it was under way when power was lost
struct FileM { std::map<std::string, Rcd> r; bool dirty = false; bool touched = false; bool unknownFile = false; bool anyUsed = false; bool born = false, half = false, torn = false; int anyAbsent = 0; i64 lastWriteLo = 0; i64 fwLo = 0, fwHi = 0; u64 seq = 0; };
struct HistOp { int op; u64 inv, ret; };
struct Mark { bool set = false, own = false; int crc = 0; std::string pat; u64 tInv = 0; i64 hi = 0; std::map<std::string, Val> snap; std::set<std::string> some; }; // a change query started on a handle
struct Oracle {
  bool damaged = false; std::map<int, std::vector<u8>> foreign; // files that are no DSS files (any more): what they contain
  Case *c; FileM f[4]; bool taint[4][6]; // handle tainted by a fault
  std::map<int, std::set<std::string>> touch; // op id -> keys touched (file|key)
  std::map<std::pair<int, std::string>, std::vector<int>> hist; // shared keys: op indices
  std::map<std::pair<int, int>, Mark> what;
  std::map<std::string, u64> pendingFiles;
  int ro[4]; std::map<int, std::vector<std::pair<u64, u64>>> cyc; // blocks and bytes of memory held each time everything was closed
  bool readsOff = false;
};
static void V(const char *cls, Op &op, const std::string &m) {
  char b[200]; snprintf(b, sizeof b, "op %d %s p%d file %d status %d: ", op.id, opName[op.code], op.proc, op.file, op.status); K.fail(cls, std::string(b) + m);
}
static std::string desc(const Val &v) {
  static const char *n[] = {"absent", "present", "deleted", "any", "alias"}; std::string s = n[v.st]; if (v.st == V_PRESENT || v.st == V_DELETED) { if (v.ts) { char b[60]; snprintf(b, sizeof b, "(ts %zu values)", v.ts->size()); s += b; } else s += "(" + v.content.substr(0, 160) + ")"; } return s; }
static std::string desc(const Poss &p) { std::string s = "{"; for (size_t i = 0; i < p.size() && i < 4; i++) s += (i ? " | " : "") + desc(p[i]); return s + "}"; }
static Rcd &rec(FileM &f, const std::string &path) { std::string k = keyOf(path); auto it = f.r.find(k); if (it == f.r.end()) { Rcd r; r.p.push_back(f.unknownFile ? anyV() : absentV()); r.path = path; r.shared = false; it = f.r.emplace(k, r).first; } return it->second; }
static bool tsKind(const std::string &path) { int k = kindOfPath(path); return k == KD_TSR || k == KD_TSI; }
static bool sharedKey(const Oracle *o, const std::string &path) { return o->c->cfg.lin && upper(part(path, 1)).compare(0, 3, "SHR") == 0 && !tsKind(path); }
static bool missNotes = false; // the case stores missing values: a slot may hold a note without a value
Oracle *newOracle(Case *c) { Oracle *o = new Oracle; o->c = c; missNotes = false; for (auto &x : c->ops) if (x.code == OP_STORE && (x.sp.flags & FL_MISS)) missNotes = true; memset(o->taint, 0, sizeof o->taint); memset(o->ro, 0, sizeof o->ro); for (int i = 0; i < 4; i++) o->ro[i] = (c->cfg.ro >> i) & 1; return o; }
void freeOracle(Oracle *o) { delete o; }

// ---- time series blocks
static void tsBlocks(const Op &op, std::map<std::string, std::vector<TsVal>> &out) { for (auto &v : tsValues(op)) out[withPart(op.path, 3, tsDPart(op.path, v.t))].push_back(v); }
static std::vector<std::string> tsWindowBlocks(const std::string &path, i64 t0, i64 t1) {
  std::vector<std::string> r; i64 t = t0; for (int guard = 0; guard < 3000; guard++) { std::string d = withPart(path, 3, tsDPart(path, t)); if (r.empty() || r.back() != d) r.push_back(d); if (t >= t1) break; // advance to the next block
    i64 step = 86400; i64 iv = tsInterval(path); if (iv < 0 || iv >= 86400) step = 86400 * 20; t = std::min(t1, t + step); }
  return r;
}
// result of storing the new values (all belonging to one block) over an old state
static void tsApply(const Op &op, const Val &old, const std::vector<TsVal> &nv, Poss &out) {
  bool reg = kindOfPath(op.path) == KD_TSR; int fl = (int)op.a[1]; TsMap m; if (old.st == V_PRESENT && old.ts) m = *old.ts; bool existed = old.st == V_PRESENT; bool allMissIn = true; for (auto &x : nv) if (!x.miss) allMissIn = false;
  if (reg) {
    for (auto x : nv) {
      auto it = m.find(x.t); bool oldMiss = it == m.end();
      if (fl == 1) { if (!oldMiss) continue; } else if (fl == 4) { if (x.miss) continue; }
      if (!(op.sp.flags & (FL_CNOTE | FL_INOTE)) && !x.miss) x.c = (!oldMiss && !it->second.c.empty()) || (oldMiss && missNotes) ? "?" : ""; // storing a value without a note may keep the note that is there
      if (x.miss) m.erase(x.t); else m[x.t] = x;
    }
    Val v; v.type = old.type ? old.type : typeCode(KD_TSR, op.path, op.sp.flags); v.ts = std::make_shared<TsMap>(m); v.st = V_PRESENT;
    if (m.empty()) { addV(out, v); Val d; d.st = V_DELETED; d.ts = v.ts; addV(out, d); if (existed) { d.ts = old.ts; addV(out, d); } if (!existed) addV(out, old); } else addV(out, v);
  } else {
    if (fl == 1 && !nv.empty()) { i64 a = op.a[4], b = op.a[5]; for (auto it = m.begin(); it != m.end();) { if (it->first >= a && it->first <= b) it = m.erase(it); else ++it; } }
    for (auto &x : nv) m[x.t] = x; Val v; v.st = V_PRESENT; v.ts = std::make_shared<TsMap>(m); v.type = old.type ? old.type : typeCode(KD_TSI, op.path, op.sp.flags); addV(out, v);
  }
  (void)allMissIn;
}
static std::string locPath(const std::string &p) { return "/" + part(p, 0) + "/" + part(p, 1) + "/Location Info////"; }
// records touched by an update
static void touched(const Oracle *o, const Op &op, std::vector<std::pair<int, std::string>> &out) {
  switch (op.code) {
  case OP_STORE: if (tsKind(op.path)) { std::map<std::string, std::vector<TsVal>> b; tsBlocks(op, b); if (kindOfPath(op.path) == KD_TSI && op.a[1] == 1 && !b.empty()) { auto v = tsValues(op); for (auto &p : tsWindowBlocks(op.path, v.front().t, v.back().t)) b[p]; } for (auto &e : b) out.push_back({op.file, e.first}); } else out.push_back({op.file, op.path}); break;
  case OP_DELETE: case OP_UNDELETE: case OP_ALIASRM: out.push_back({op.file, op.path}); break;
  case OP_RENAME: out.push_back({op.file, op.path}); out.push_back({op.file, op.path2}); break;
  case OP_DUP: case OP_ALIASADD: out.push_back({op.file, op.path2}); break;
  case OP_COPYREC: out.push_back({op.file2, op.path2}); { std::string lp = locPath(op.path); if (keyOf(lp) != keyOf(op.path2)) { auto it = o->f[op.file].r.find(keyOf(lp)); if (it != o->f[op.file].r.end() && could(it->second.p, V_PRESENT)) out.push_back({op.file2, lp}); } } break;
  case OP_TXTFILE: break;
  case OP_COPYFILE: for (auto &e : o->f[op.file].r) out.push_back({op.file2, e.second.path}); break;
  case OP_UNDELALL: case OP_SQUEEZE: for (auto &e : o->f[op.file].r) out.push_back({op.file, e.second.path}); break;
  }
}
static bool isUpdate(int code) { switch (code) { case OP_STORE: case OP_DELETE: case OP_UNDELETE: case OP_UNDELALL: case OP_RENAME: case OP_DUP: case OP_COPYREC: case OP_COPYFILE: case OP_SQUEEZE: case OP_ALIASADD: case OP_ALIASRM: return true; } return false; }
// next states of the touched records when the update completes successfully; false when the success itself is impossible
static void widen(Oracle *o, Op &op, bool any);
static bool applyOk(Oracle *o, Op &op, std::string &why) {
  FileM &F = o->f[op.file]; const Case &c = *o->c; (void)c;
  auto ghost = [&](Rcd &r, bool present) { for (auto v : r.p) if (v.st == V_DELETED || (v.st == V_PRESENT && (present || (op.code == OP_STORE && !v.ts && v.type != typeCode(op.sp.kind, op.path, op.sp.flags))))) { v.st = V_DELETED; addV(r.ghosts, v); } else if (v.st == V_ANY) addV(r.ghosts, v); }; // deleted contents that may stay behind the new entry
  auto setP = [&](int file, const std::string &path, const Poss &p) { Rcd &r = rec(o->f[file], path); ghost(r, op.code == OP_RENAME && keyOf(op.path) != keyOf(op.path2)); r.p = p; r.path = path; if (isAny(p)) o->f[file].anyUsed = true; };
  switch (op.code) {
  case OP_STORE: {
    if (tsKind(op.path)) {
      std::map<std::string, std::vector<TsVal>> b; tsBlocks(op, b); auto all = tsValues(op); op.a[4] = all.empty() ? 0 : all.front().t; op.a[5] = all.empty() ? 0 : all.back().t;
      if (kindOfPath(op.path) == KD_TSI && op.a[1] == 1 && !all.empty()) for (auto &p : tsWindowBlocks(op.path, op.a[4], op.a[5])) if (could(rec(F, p).p, V_PRESENT)) b[p];
      for (auto &e : b) { Rcd &r = rec(F, e.first); Poss n; for (auto &v : r.p) { if (v.st == V_ANY) addV(n, v); else tsApply(op, v, e.second, n); } setP(op.file, e.first, n); }
      break; }
    Val v; v.st = V_PRESENT; v.content = expectContent(op.sp, op.path); v.type = typeCode(op.sp.kind, op.path, op.sp.flags);
    if (op.sp.kind == KD_LOC && op.a[1] == 0) { Rcd &r = rec(F, op.path); Poss n; for (auto &x : r.p) { if (x.st == V_PRESENT) addV(n, x); else if (x.st == V_ANY) { addV(n, x); addV(n, v); } else addV(n, v); } setP(op.file, op.path, n); break; }
    setP(op.file, op.path, {v}); break; }
  case OP_DELETE: { Rcd &r = rec(F, op.path); Poss n; for (auto &v : r.p) { if (v.st == V_PRESENT) { Val d = v; d.st = V_DELETED; addV(n, d); } else if (v.st == V_ANY) { addV(n, v); } } if (n.empty()) { why = "delete reported success for a record that is not there " + desc(r.p); return false; } r.p = n; r.delSeq = F.seq; break; }
  case OP_UNDELETE: { Rcd &r = rec(F, op.path); Poss n; bool reused = c.cfg.reclaim >= 2 || F.seq > r.delSeq; for (auto &v : r.p) { if (v.st == V_DELETED) { Val d = v; d.st = V_PRESENT; addV(n, d); if (reused) for (auto g : r.ghosts) { if (g.st == V_DELETED) g.st = V_PRESENT; addV(n, g); } } else if (v.st == V_ANY) addV(n, v); } if (n.empty()) { why = "undelete reported success for a record that was not deleted " + desc(r.p); return false; } r.p = n; break; }
  case OP_UNDELALL: for (auto &e : F.r) { Poss n; for (auto v : e.second.p) { if (v.st == V_DELETED) { if (c.cfg.reclaim >= 2 || F.seq > e.second.delSeq) { addV(n, v); for (auto g : e.second.ghosts) { if (g.st == V_DELETED) g.st = V_PRESENT; addV(n, g); } } v.st = V_PRESENT; } addV(n, v); } e.second.p = n; } break;
  case OP_RENAME: {
    if (keyOf(op.path) == keyOf(op.path2)) { Rcd &r = rec(F, op.path); if (!could(r.p, V_PRESENT)) { why = "rename of a record that is not there succeeded"; return false; } Poss n; for (auto &v : r.p) if (v.st == V_PRESENT || v.st == V_ANY) addV(n, v); setP(op.file, op.path2, n); break; }
    Rcd &r = rec(F, op.path); Poss n; for (auto &v : r.p) if (v.st == V_PRESENT || v.st == V_ANY) addV(n, v); if (n.empty()) { why = "rename of a record that is not there succeeded " + desc(r.p); return false; }
    bool any = isAny(n); setP(op.file, op.path2, n); Poss a; if (any) addV(a, anyV()); else { addV(a, absentV()); for (auto &v : r.ghosts) addV(a, v); } rec(F, op.path).p = a; break; }
  case OP_DUP: case OP_COPYREC: {
    int tf = op.code == OP_DUP ? op.file : op.file2; Rcd &r = rec(F, op.path); Poss n; for (auto &v : r.p) if (v.st == V_PRESENT || v.st == V_ANY) addV(n, v); if (n.empty()) { why = "copy of a record that is not there succeeded " + desc(r.p); return false; } setP(tf, op.path2, n);
    if (op.code == OP_COPYREC) { // the location of the record goes along unless the destination has one
      std::string lp = locPath(op.path); auto it = F.r.find(keyOf(lp)); if (it != F.r.end() && could(it->second.p, V_PRESENT)) { Rcd &d = rec(o->f[tf], lp); Poss m; for (auto &y : d.p) { if (y.st == V_PRESENT) { addV(m, y); continue; } for (auto &x : it->second.p) { if (x.st == V_PRESENT || x.st == V_ANY) addV(m, x); else addV(m, y); } if (y.st == V_ANY) addV(m, y); } d.p = m; d.path = lp; } }
    break; }
  case OP_COPYFILE: for (auto &e : F.r) { Rcd s = e.second; Rcd &d = rec(o->f[op.file2], s.path); Poss n; for (auto &v : s.p) { if (v.st == V_PRESENT) addV(n, v); else if (v.st == V_ANY) addV(n, v); else for (auto &w : d.p) addV(n, w); } d.p = n; d.path = s.path; } break;
  case OP_SQUEEZE: for (auto &e : F.r) { e.second.ghosts.clear(); Poss n; for (auto v : e.second.p) { if (v.st == V_DELETED) { addV(n, absentV()); if (op.a[0]) addV(n, v); } else if (v.st == V_ALIAS) addV(n, anyV()); else addV(n, v); } e.second.p = n; } break;
  case OP_ALIASADD: { Rcd &r = rec(F, op.path); if (!could(r.p, V_PRESENT)) { why = "alias to a missing record succeeded"; return false; } Val v; v.st = V_ALIAS; v.target = op.path; setP(op.file, op.path2, {v}); break; }
  case OP_ALIASRM: { Rcd &r = rec(F, op.path); if (!could(r.p, V_ALIAS)) { why = "removal of a missing alias succeeded"; return false; } Poss n; n.push_back(isAny(r.p) ? anyV() : absentV()); r.p = n; break; }
  }
  return true;
}
// is a failure status of this update legitimate without any fault?
static bool failureOk(Oracle *o, Op &op, bool modifiesOnFail, std::string &why) {
  FileM &F = o->f[op.file]; (void)modifiesOnFail; auto pr = [&](const std::string &p) -> Rcd & { return rec(F, p); };
  auto keep = [&](const std::string &p, std::function<bool(const Val &)> f) { Rcd &r = pr(p); Poss n; for (auto &v : r.p) if (v.st == V_ANY || f(v)) addV(n, v); if (n.empty()) { why = "refused although the record is " + desc(r.p); return false; } r.p = n; return true; };
  if (oracleDamaged(o, op)) { widen(o, op, true); return true; }
  switch (op.code) {
  case OP_STORE: {
    if (tsKind(op.path)) return (why = "store refused", false);
    int ty = typeCode(op.sp.kind, op.path, op.sp.flags); return keep(op.path, [&](const Val &v) { return (v.st == V_PRESENT || v.st == V_DELETED) && v.type != ty; }); }
  case OP_DELETE: return keep(op.path, [](const Val &v) { return v.st != V_PRESENT; });
  case OP_UNDELETE: if (o->c->cfg.reclaim >= 2 || F.seq > pr(op.path).delSeq) { Rcd &r = pr(op.path); bool d = false; for (auto &v : r.p) if (v.st == V_DELETED) d = true; if (d) return true; } return keep(op.path, [](const Val &v) { return v.st != V_DELETED; });
  case OP_DUP: case OP_COPYREC: { FileM &T = o->f[op.code == OP_DUP ? op.file : op.file2]; Rcd &s = pr(op.path), &d = rec(T, op.path2); for (auto &a : s.p) for (auto &b : d.p) if (a.st == V_ANY || b.st == V_ANY || (a.st == V_PRESENT && (b.st == V_PRESENT || b.st == V_DELETED) && a.type != b.type)) return true; }
  case OP_RENAME: return keep(op.path, [](const Val &v) { return v.st != V_PRESENT; });
  case OP_ALIASADD: { Rcd &a = pr(op.path), &b = pr(op.path2); if (!sure(a.p, V_PRESENT)) return true; if (could(b.p, V_PRESENT) || could(b.p, V_ALIAS)) return true; why = "alias refused"; return false; }
  case OP_ALIASRM: return keep(op.path, [](const Val &v) { return v.st != V_ALIAS; });
  case OP_UNDELALL: return true;
  case OP_SQUEEZE: if (op.shared) return true; break; // refused: another program has the file open
  case OP_COPYFILE: { FileM &T = o->f[op.file2]; bool mis = false; for (auto &e : F.r) for (auto &a : e.second.p) for (auto &b : rec(T, e.second.path).p) if (a.st == V_ANY || b.st == V_ANY || (a.st == V_PRESENT && (b.st == V_PRESENT || b.st == V_DELETED) && a.type != b.type)) mis = true; if (mis) { bool dt = T.dirty, df = F.dirty; widen(o, op, false); T.dirty = dt; F.dirty = df; return true; } why = "copy of the file refused"; return false; }
  }
  why = "refused"; return false;
}
static bool readOnlyOpen(Oracle *o, Op &op) { int tf = op.code == OP_COPYREC || op.code == OP_COPYFILE ? op.file2 : op.file; return (op.phase > 0 && o->ro[tf]) || op.hmode == 1; }
// another program asks for exclusive access to the file in this phase: whoever does not get in may say so
static bool sameRecs(const std::map<std::string, Rcd> &a, const std::map<std::string, Rcd> &b) { // doing nothing is one of the possible effects
  static const Poss none = {Val()};
  for (auto &e : b) { auto it = a.find(e.first); bool f = false; for (auto &x : it == a.end() ? none : it->second.p) for (auto &y : e.second.p) f |= x == y; if (!f) return false; } return true; }
static bool othersHave(Oracle *o, Op &op, int tf, bool exclusive) {
  for (auto q : K.procs) if (q->id != op.proc && (q->st == P_READY || q->st == P_SLEEP || q->st == P_BLOCKED || q->st == P_DONE)) for (int s = 0; s < 6; s++) if (q->slotState[s] && q->slotFile[s] == tf && (!exclusive || q->slotMode[s] == 4)) return true;
  for (auto &x : o->c->ops) if (x.proc != op.proc && x.phase == op.phase && x.tInv && (!x.done || x.tRet >= op.tInv) && (x.file == tf || ((x.code == OP_COPYREC || x.code == OP_COPYFILE) && x.file2 == tf)) && (!exclusive || x.mode == 4)) return true;
  return false;
}
// refused because of the access mode, and rightly so
static bool accessRefusal(Oracle *o, Op &op) {
  bool copy = op.code == OP_COPYREC || op.code == OP_COPYFILE; int tf = copy ? op.file2 : op.file;
  if (op.mode == 1 && (!o->f[op.file].born || (copy && !o->f[op.file2].born))) return true;   // nothing to open for reading
  if (op.mode == 4 && (othersHave(o, op, op.file, false) || (copy && othersHave(o, op, tf, false)))) return true; // no exclusive access
  return (isUpdate(op.code) || op.code == OP_OPEN) && othersHave(o, op, tf, true); // somebody else has it
}
static void checkAccess(Oracle *o, Op &op) {
  if (((op.code == OP_OPEN && op.status == 0) || op.opened) && op.mode == 4 && op.code != OP_COPYREC && op.code != OP_COPYFILE && !op.openFail && !op.faulted && !(op.phase > 0 && o->ro[op.file]))
    for (auto q : K.procs) if (q->id != op.proc && (q->st == P_READY || q->st == P_SLEEP || q->st == P_BLOCKED || q->st == P_DONE)) {
      bool leaving = false; for (auto &x : o->c->ops) leaving |= x.proc == q->id && x.id == q->curOp && !x.done && x.code != OP_SLEEP && q->sysIdx > 1; // in the middle of something, perhaps of closing the file
      for (int s = 0; s < 6 && !leaving; s++) if (q->slotState[s] && q->slotFile[s] == op.file && q->slotMode[s] != 1 && q->slotStep[s] < op.tInv && !K.droppedSince(q->id, fileName(op.file), q->slotStep[s])) return V("EXCLUSIVE", op, "exclusive access was given while another program had the file open"); }
  if (op.code == OP_CORRUPT || op.code == OP_RECOVER || op.code == OP_SLEEP || op.code == OP_POWER || op.code == OP_EXIT || !op.fwrites) return; int tf = op.code == OP_COPYREC || op.code == OP_COPYFILE ? op.file2 : op.file;
  if ((op.phase > 0 && o->ro[tf]) || op.hmode == 1 || (op.code == OP_OPEN && op.mode == 1) || ((op.opened || op.openFail) && op.mode == 1 && tf == op.file)) return V("READONLY", op, "wrote to the file although it was opened for reading only");
  for (auto q : K.procs) if (q->id != op.proc && (q->st == P_READY || q->st == P_SLEEP || q->st == P_BLOCKED || q->st == P_DONE)) for (int s = 0; s < 6; s++) if (q->slotState[s] && q->slotFile[s] == tf && q->slotMode[s] == 4 && q->slotStep[s] < op.tInv) return V("EXCLUSIVE", op, "wrote to the file while another program had it open for exclusive access");
}

// does the observed window agree with one possibility of a block
static bool tsMatch(const Val &v, const std::vector<const TsVal *> &obs, bool reg, i64 t0, i64 t1, bool ck, const Op &op) {
  if (v.st == V_ANY) return true; static const TsMap empty; const TsMap &m = v.st == V_PRESENT && v.ts ? *v.ts : empty; size_t cnt = 0;
  for (auto x : obs) {
    auto it = m.find(x->t); if (reg) { if (it == m.end()) { if (!x->miss) return false; continue; } if (x->miss) return false; }
    else { if (it == m.end()) return false; cnt++; if (it->second.miss != x->miss) return false; if (x->miss) continue; }
    const TsVal &e = it->second; if (e.v != x->v) return false; if (op.hasQ && e.q != x->q) return false; if (!op.hasQ && e.q && ck && op.capi && op.a[3]) return false; if (op.hasN && e.n != x->n) return false; if (op.hasC && e.c != x->c && e.c != "?") return false;
    if (!op.capi && !op.hasQ && e.q) return false; if (!op.capi && !op.hasN && e.n) return false; if (!op.capi && !op.hasC && !e.c.empty() && e.c != "?") return false;
  }
  if (!reg) { size_t exp = 0; for (auto it = m.lower_bound(t0); it != m.end() && it->first <= t1; ++it) exp++; if (exp != cnt) return false; }
  return true;
}
// the record (for a time series: any block of the data set) may have been left half written
static std::string setOf(const std::string &path) { return tsKind(path) ? keyOf(withPart(path, 3, "")) : keyOf(path); }
static bool damagedRec(Oracle *o, int file, const std::string &path) {
  FileM &F = o->f[file]; if (!F.anyUsed) return false; std::string s = setOf(path); for (auto &e : F.r) if (isAny(e.second.p) && setOf(e.second.path) == s) return true; return false;
}
bool oracleDamaged(Oracle *o, Op &op) {
  if (op.file < 0) return false; if (op.code == OP_COPYFILE || op.code == OP_SQUEEZE) { FileM &F = o->f[op.file]; if (F.anyUsed) for (auto &e : F.r) if (isAny(e.second.p)) return true; return false; }
  if (!op.path.empty() && op.path[0] == '/' && damagedRec(o, op.file, op.path)) return true; if (!op.path2.empty() && op.path2[0] == '/' && damagedRec(o, op.code == OP_COPYREC ? op.file2 : op.file, op.path2)) return true; return false;
}
static bool concurrentWrite(Oracle *o, Op &op, Rcd &r) { return r.inflight > 0 || r.lastW >= op.tInv || (sharedKey(o, r.path) && o->hist.count({op.file, keyOf(r.path)})); }
static void checkTsRead(Oracle *o, Op &op) {
  bool reg = kindOfPath(op.path) == KD_TSR; i64 iv = tsInterval(op.path); i64 t0 = reg ? tsSlotTime(iv, op.a[0]) : op.a[0], t1 = reg ? tsSlotTime(iv, op.a[0] + op.sp.n - 1) : op.a[0] + 60 * (i64)op.sp.n; FileM &F = o->f[op.file];
  std::vector<std::string> bl = tsWindowBlocks(op.path, t0, t1); std::map<std::string, std::vector<const TsVal *>> obs; for (auto &b : bl) obs[b];
  if (damagedRec(o, op.file, op.path)) return;
  if (op.status == 0 || op.status == 1) { i64 last = INT64_MIN; for (auto &v : op.vals) { if (v.t <= last) { for (auto &b : bl) if (concurrentWrite(o, op, rec(F, b))) return; return V("TSREAD", op, op.path + " times not increasing"); } last = v.t; if (v.t < t0 || v.t > t1) { if (v.miss) continue; for (auto &b : bl) if (concurrentWrite(o, op, rec(F, b))) return; char b[80]; snprintf(b, sizeof b, " returned a value at %lld outside the window [%lld,%lld]", (long long)v.t, (long long)t0, (long long)t1); return V("TSREAD", op, op.path + b); } obs[withPart(op.path, 3, tsDPart(op.path, v.t))].push_back(&v); }
    if (reg && op.status == 0 && !op.capi) { if ((int)op.vals.size() != op.sp.n) { char b[80]; snprintf(b, sizeof b, " returned %zu of %d values", op.vals.size(), op.sp.n); return V("TSREAD", op, op.path + b); } } 
    if (reg && op.status == 0 && op.capi && (int)op.vals.size() < op.sp.n) { char b[80]; snprintf(b, sizeof b, " returned %zu of %d values", op.vals.size(), op.sp.n); return V("TSREAD", op, op.path + b); } }
  bool seriesBusy = false; if (!reg && !(o->c->cfg.noprobe & 2)) for (auto &e : obs) if (concurrentWrite(o, op, rec(F, e.first))) seriesBusy = true;
  for (auto &e : obs) {
    Rcd &r = rec(F, e.first); if (concurrentWrite(o, op, r)) continue; Poss n;
    if (seriesBusy) continue; // another block is being written: known finding irreg-two-pass, and the half written block's times may fall anywhere
    for (auto &v : r.p) { if (op.status == 0 || op.status == 1) { if (tsMatch(v, e.second, reg, t0, t1, true, op)) addV(n, v); } else { bool has = false; if (v.st == V_PRESENT && v.ts) for (auto it = v.ts->lower_bound(t0); it != v.ts->end() && it->first <= t1; ++it) if (!it->second.miss) has = true; if (!has) addV(n, v); } }
    if (n.empty()) {
      std::string m = e.first + " does not match " + desc(r.p); char b[300]; int shown = 0; const Val &v = r.p[0];
      if (op.status == 0 || op.status == 1) { snprintf(b, sizeof b, "; observed %zu values, hasQ=%d hasN=%d hasC=%d", e.second.size(), op.hasQ, op.hasN, op.hasC); m += b; for (auto x : e.second) { static const TsMap em; const TsMap &mm = v.ts && v.st == V_PRESENT ? *v.ts : em; auto it = mm.find(x->t); bool em2 = it == mm.end() || it->second.miss; double ev = em2 ? 0 : it->second.v; bool bad = (em2 != x->miss) || (!em2 && ev != x->v) || (!em2 && (it->second.q != x->q || it->second.n != x->n || it->second.c != x->c)); if (bad && shown++ < 3) { snprintf(b, sizeof b, "; t=%lld got %s%.9g q%d n%d c'%s' expected %s%.9g q%d n%d c'%s'", (long long)x->t, x->miss ? "missing " : "", x->v, x->q, x->n, x->c.c_str(), em2 ? "missing " : "", ev, it == mm.end() ? 0 : it->second.q, it == mm.end() ? 0 : it->second.n, it == mm.end() ? "" : it->second.c.c_str()); m += b; } } }
      return V("TSREAD", op, m); }
    r.p = n;
  }
  if (op.status == 0) { bool some = false; for (auto &v : op.vals) some |= !v.miss; for (auto &e : obs) if (concurrentWrite(o, op, rec(F, e.first))) some = false; if (some && op.out != tsUnits()) return V("TSREAD", op, op.path + " units and type are " + op.out + " instead of " + tsUnits()); }
}
static void checkRead(Oracle *o, Op &op) {
  if (tsKind(op.path)) return checkTsRead(o, op);
  FileM &F = o->f[op.file]; Rcd *r = &rec(F, op.path); if (concurrentWrite(o, op, *r)) return; Poss n;
  for (auto v : r->p) {
    const Poss *src = nullptr; Poss one{v}; if (v.st == V_ALIAS) { Rcd &t = rec(F, v.target); if (concurrentWrite(o, op, t)) return; src = &t.p; } else src = &one; bool ok = false;
    for (auto &w : *src) { if (w.st == V_ANY) ok = true; else if (op.status == 0) { if (w.st == V_PRESENT && w.content == op.out) ok = true; } else { if (w.st != V_PRESENT) ok = true; else if (op.status == -17) ok = ok; } }
    if (ok) addV(n, v);
  }
  if (op.capi && op.status == -17 && kindOfPath(op.path) == KD_TEXT) return; // documented "buffer too small"
  if (n.empty()) return V("READ", op, op.path + (op.status == 0 ? " returned " + op.out.substr(0, 200) : std::string(" failed")) + " but the record is " + desc(r->p));
  r->p = n;
}
static bool multiProc(Oracle *o, int phase) { int first = -1; for (auto &x : o->c->ops) if (x.phase == phase) { if (first < 0) first = x.proc; else if (x.proc != first) return true; } return false; }
static bool pathMatch(const std::string &pat, const std::string &path) { if (pat.empty()) return true; for (int k = 0; k < 6; k++) { std::string w = upper(part(pat, k)), x = upper(part(path, k)); if (w == "*") continue; bool pre = !w.empty() && w.back() == '*', suf = !w.empty() && w[0] == '*'; std::string core = w.substr(suf ? 1 : 0, w.size() - (pre ? 1 : 0) - (suf ? 1 : 0)); if (pre && suf) { if (x.find(core) == std::string::npos) return false; } else if (pre) { if (x.compare(0, core.size(), core)) return false; } else if (suf) { if (x.size() < core.size() || x.compare(x.size() - core.size(), core.size(), core)) return false; } else if (x != w) return false; } return true; }
static void checkCatalog(Oracle *o, Op &op) {
  FileM &F = o->f[op.file]; if (op.status < 0) return V("CATALOG", op, "catalog failed"); if (!op.capi && op.status != (int)op.list.size()) { if (op.status != 0 || !op.list.empty()) return V("CATALOG", op, "count differs from the list"); }
  for (auto &x : op.list) { int n = 0; for (char c : x) n += c == '/'; if (n != 7 || x[0] != '/' || x.back() != '/') return V("CATALOG", op, "lists something that is not a pathname: '" + x + "'"); }
  std::map<std::string, int> seen; std::map<std::string, i64> ty; for (size_t i = 0; i < op.list.size(); i++) { std::string k = keyOf(op.list[i]); if (seen[k]++ && !rec(F, op.list[i]).hurt && !concurrentWrite(o, op, rec(F, op.list[i]))) return V("CATALOG", op, "lists " + op.list[i] + " twice"); ty[k] = i < op.nums.size() ? op.nums[i] : 0; if (!F.r.count(k) && !F.unknownFile) return V("CATALOG", op, "lists a path that was never written: " + op.list[i]); }
  if (op.a[0] == 1) for (size_t i = 1; i < op.list.size(); i++) {} // ordering is checked through the library's own comparison below
  auto match = [&](const std::string &path) { return pathMatch(op.path, path); };
  // the list is sized from the record count at the start: each record being added meanwhile may displace one other
  int slack = 0; for (auto &e : F.r) if (concurrentWrite(o, op, e.second)) slack++; const int slack0 = slack;
  for (auto &e : F.r) {
    Rcd &r = e.second; bool in = seen.count(e.first) != 0; if (concurrentWrite(o, op, r)) continue; if (!match(e.first)) { if (in) return V("CATALOG", op, "lists " + e.first + " which does not match the pattern " + op.path); continue; }
    Poss n; for (auto &v : r.p) { if (v.st == V_ANY) addV(n, v); else if (v.st == V_ALIAS) { addV(n, v); } else if (in) { if (v.st == V_PRESENT && (ty[e.first] <= 0 || !v.type || ty[e.first] == v.type || op.code != OP_CATALOG)) addV(n, v); } else { if (v.st != V_PRESENT) addV(n, v); } }
    if (!in && slack0 > 0) { if (n.empty() && slack-- <= 0) {} else continue; }
    if (n.empty()) { char b[60]; snprintf(b, sizeof b, " (type %lld, expected %d)", (long long)ty[e.first], r.p[0].type); return V("CATALOG", op, e.first + (in ? " is listed" + std::string(b) : std::string(" is not listed")) + " but the record is " + desc(r.p)); }
    r.p = n;
  }
  // sorted order: parts compared in the order A B C F E D as the catalog documents is not assumed; only that equal requests give equal lists
}
// quality and notes kept beside missing values are part of the data, but not of the model's content
static bool missStored(Oracle *o, const std::string &key) { for (auto &x : o->c->ops) if (x.code == OP_STORE && tsKind(x.path) && (x.sp.flags & FL_MISS)) return true; (void)key; return (o->c->cfg.noprobe & 32) != 0; } // (odd content: the user header of a block comes and goes with the stores)
static bool dataDiffers(const std::string &key, const Val &a, const Val &b) { int k = kindOfPath(key); if (a.ts && b.ts) { if (a.ts->empty() || b.ts->empty()) return false; auto x = a.ts->begin(), y = b.ts->begin(); return a.ts->size() == b.ts->size() && (x->first != y->first || x->second.v != y->second.v); } return (k == KD_ARRAY || k == KD_PD || k == KD_RAW || k == KD_TEXT) && a.content != b.content; }
// the list of changed records against what was written since the mark
static void checkWhat(Oracle *o, Op &op, int slot) {
  FileM &F = o->f[op.file]; if (op.status < 0) return V("WHAT", op, "the change query failed"); if (op.status != (int)op.list.size()) return V("WHAT", op, "count differs from the list");
  Mark &m = o->what[{op.proc, slot}]; if (!m.set) { if (!op.list.empty()) V("WHAT", op, "lists changes although no start was set"); return; } if (op.st2) return; // own structure but none set
  std::map<std::string, int> seen; for (auto &x : op.list) { std::string k = keyOf(x); if (seen[k]++ && !rec(F, x).hurt && !concurrentWrite(o, op, rec(F, x))) return V("WHAT", op, "lists " + x + " twice"); if (!F.r.count(k) && !F.unknownFile) return V("WHAT", op, "lists a path that was never written: " + x); }
  bool conc = false; for (auto &e : F.r) if (concurrentWrite(o, op, e.second)) conc = true;
  for (auto &e : F.r) {
    Rcd &r = e.second; bool in = seen.count(e.first) != 0; if (concurrentWrite(o, op, r)) continue; if (in && !pathMatch(m.pat, e.first)) return V("WHAT", op, "lists " + e.first + " which does not match the pattern " + m.pat); if (!pathMatch(m.pat, e.first)) continue;
    if (in && !could(r.p, V_PRESENT) && !could(r.p, V_ALIAS)) return V("WHAT", op, "lists " + e.first + " but the record is " + desc(r.p));
    auto it = m.snap.find(e.first); bool known = it != m.snap.end() && r.p.size() == 1 && r.p[0].st != V_ANY;
    if (in && !F.dirty && r.lastW < m.tInv && it != m.snap.end()) return V("WHAT", op, "lists " + e.first + " which was not written since");
    bool crc = m.crc && !m.some.empty();
    if (in && crc && known && !F.dirty && it->second == r.p[0] && !(tsKind(e.first) && missStored(o, e.first))) return V("WHAT", op, "lists " + e.first + " whose content is what it was");
    if (!in && !F.dirty && !conc && sure(r.p, V_PRESENT) && r.bLo > m.hi && (!m.crc || (known && (it->second.st != V_PRESENT || dataDiffers(e.first, it->second, r.p[0]))))) return V("WHAT", op, "does not list " + e.first + " which was written since");
  }
}
static void checkCount(Oracle *o, Op &op) {
  FileM &F = o->f[op.file]; i64 lo = 0, hi = 0; for (auto &e : F.r) { if (concurrentWrite(o, op, e.second)) { hi++; continue; } if (sure(e.second.p, V_PRESENT)) { lo++; hi++; } else if (could(e.second.p, V_PRESENT) ) hi++; else if (could(e.second.p, V_ALIAS)) hi++; }
  if (F.dirty || F.unknownFile) return; if (multiProc(o, op.phase)) return; /* the count comes from the copy of the header this handle holds */ i64 x = op.nums.empty() ? -1 : op.nums[0]; if (x < lo || x > hi) { char b[100]; snprintf(b, sizeof b, "record count %lld outside [%lld,%lld]", (long long)x, (long long)lo, (long long)hi); V("COUNT", op, b); }
}
static void checkLwt(Oracle *o, Op &op, Rcd &r, i64 w, bool dir = false) {
  FileM &F = o->f[op.file]; if (concurrentWrite(o, op, r) || F.dirty || !sure(r.p, V_PRESENT) || !r.wHi || K.vio.set) return; i64 lo = dir ? r.bLo : r.wLo, hi = r.wHi; if (dir && !lo) return;
  if (w < lo || w > hi) { char b[140]; snprintf(b, sizeof b, " last write time%s %lld outside [%lld,%lld]", dir ? " in the catalog" : "", (long long)w, (long long)lo, (long long)hi); V("LWT", op, r.path + b); }
}
static void checkReadLwt(Oracle *o, Op &op) {
  if (!op.lwt || op.status != 0 || K.vio.set) return; FileM &F = o->f[op.file]; if (!tsKind(op.path)) return checkLwt(o, op, rec(F, op.path), op.lwt);
  // a series reports the time of one of the records it came from
  std::string tk = tsKey(op.path); i64 lo = INT64_MAX, hi = 0; for (auto &e : F.r) if (tsKind(e.second.path) && tsKey(e.second.path) == tk) { Rcd &r = e.second; if (concurrentWrite(o, op, r) || isAny(r.p) || could(r.p, V_ALIAS)) return; if (!could(r.p, V_PRESENT)) continue; if (!r.wHi) return; lo = std::min(lo, r.wLo); hi = std::max(hi, r.wHi); }
  if (F.dirty || !hi) return; if (op.lwt < lo || op.lwt > hi) { char b[140]; snprintf(b, sizeof b, " last write time of the series %lld outside [%lld,%lld]", (long long)op.lwt, (long long)lo, (long long)hi); V("LWT", op, op.path + b); }
}
static int curType(const Poss &p, bool &certain) { int t = 0; certain = true; for (auto &v : p) { if (v.st != V_PRESENT) { certain = false; return 0; } if (t && t != v.type) { certain = false; return 0; } t = v.type; } if (!t) certain = false; return t; }

// updates that may take a directory entry of the file (a deleted record's entry can then be gone)
static void seqBump(Oracle *o, const Op &op, const std::vector<std::pair<int, std::string>> &t) { if (op.code != OP_DELETE && op.code != OP_UNDELETE && op.code != OP_UNDELALL && op.code != OP_ALIASRM) for (auto &e : t) o->f[e.first].seq++; }
void oracleBegin(Oracle *o, Op &op) {
  if (isUpdate(op.code)) { std::vector<std::pair<int, std::string>> t; touched(o, op, t); for (auto &e : t) rec(o->f[e.first], e.second).inflight++; seqBump(o, op, t); }
  op.simInv = (K.realBase + K.now + K.realSkew) / 1000; op.dmg = oracleDamaged(o, op);
}
static void finishUpdate(Oracle *o, Op &op, const std::vector<std::pair<int, std::string>> &t, u64 step) {
  for (auto &e : t) { Rcd &r = rec(o->f[e.first], e.second); if (r.inflight > 0) r.inflight--; r.lastW = std::max(r.lastW, step); if (r.hurt && !isAny(r.p)) { addV(r.p, anyV()); o->f[e.first].anyUsed = true; } }
  seqBump(o, op, t);
}
static void widen(Oracle *o, Op &op, bool any) {
  // old states, new states and (when something reached the disk part way) anything, for the touched records only
  std::vector<std::pair<int, std::string>> t; touched(o, op, t); std::map<std::pair<int, std::string>, Poss> old; for (auto &e : t) old[{e.first, keyOf(e.second)}] = rec(o->f[e.first], e.second).p;
  std::string why; bool ok = applyOk(o, op, why); (void)ok; for (auto &e : t) { Rcd &r = rec(o->f[e.first], e.second); for (auto &v : old[{e.first, keyOf(e.second)}]) addV(r.p, v); if (any) { addV(r.p, anyV()); o->f[e.first].anyUsed = true; } }
  o->f[op.file].dirty = true; if (op.code == OP_COPYREC || op.code == OP_COPYFILE) o->f[op.file2].dirty = true;
}
// another program has an update of the same file under way during this operation
static bool overlapsUpdate(Oracle *o, const Op &op) {
  for (auto &x : o->c->ops) if (x.proc != op.proc && x.started && isUpdate(x.code) && (x.file == op.file || ((x.code == OP_COPYREC || x.code == OP_COPYFILE) && x.file2 == op.file)) && x.phase == op.phase && (!x.done || x.tRet >= op.tInv)) return true;
  return false;
}
// progress: programs in multi-user mode keep no lock between operations, a single writer hands over when asked
// what a program holds when it has closed everything: nothing but a constant amount of memory
static void checkLeak(Oracle *o, Op &op) {
  if (!o->c->cfg.leak || op.code != OP_CLOSE || op.st2) return; Proc *p = K.procs[op.proc]; for (int i = 0; i < 6; i++) if (p->slotState[i]) return;
  int nf = 0; for (size_t i = 3; i < p->fds.size(); i++) nf += p->fds[i].used; char b[200]; if (nf || !p->files.empty()) { snprintf(b, sizeof b, "%d descriptors and %zu streams are open after everything was closed", nf, p->files.size()); return V("LEAK", op, b); }
  if (!o->pendingFiles.count("tmp")) for (auto &e : K.dir) if (e.first.compare(0, 5, "/tmp/") == 0 && e.first != "/tmp/x.txt") return V("LEAK", op, "a temporary file remains: " + e.first);
  static const bool dumpIt = getenv("DSSSIM_LEAKS"); static u64 lastSeq; if (p->arena.seq < lastSeq) lastSeq = 0; if (dumpIt) { fprintf(stderr, "-- close op %d, blocks since the last close:\n", op.id); p->arena.dump(lastSeq); lastSeq = p->arena.seq; }
  auto &v = o->cyc[op.proc]; v.push_back({p->arena.live, p->arena.liveBytes}); size_t n = v.size(); if (n >= 4 && v[n - 1].first > v[n - 2].first && v[n - 2].first > v[n - 3].first && v[n - 3].first > v[n - 4].first) { snprintf(b, sizeof b, "memory held after closing grows with every repetition: %llu, %llu, %llu blocks (%llu bytes more each time)", (unsigned long long)v[n - 3].first, (unsigned long long)v[n - 2].first, (unsigned long long)v[n - 1].first, (unsigned long long)(v[n - 1].second - v[n - 2].second)); return V("LEAK", op, b); }
}
static void checkForeign(Oracle *o, Op &op) {
  auto &foreign = o->foreign; auto now = [&](int f) -> std::vector<u8> { auto it = K.dir.find(fileName(f)); return it == K.dir.end() ? std::vector<u8>() : it->second->data; };
  if (op.code == OP_CORRUPT) { o->damaged = true; if (op.st2 == 7) foreign[op.file] = now(op.file); else foreign.erase(op.file); return; }
  if (op.code == OP_SLEEP || op.code == OP_EXIT) return; bool copy = op.code == OP_COPYREC || op.code == OP_COPYFILE; auto it = foreign.find(op.file); if (it == foreign.end() && copy) it = foreign.find(op.file2); if (it == foreign.end()) return;
  if (now(it->first) != it->second) return V("FOREIGN", op, "a file that is not a DSS file was changed");
  if (op.code == OP_CLOSE) return; if (!op.openFail && op.status == 0) return V("FOREIGN", op, "a file that is not a DSS file was accepted"); K.probe("foreign file refused");
}
static void checkProgress(Oracle *o, Op &op) {
  const Case &c = *o->c; if (op.code == OP_SLEEP || op.code == OP_POWER || op.code == OP_EXIT || op.faulted) return; bool stalls = false, excl = false, allMulti = true, alone = true;
  for (auto &x : c.ops) { if (x.arm == F_STALL) stalls = true; if (x.phase != op.phase || x.proc == op.proc) continue; if (x.mode == 4) excl = true; if (x.mode != 2) allMulti = false; if (x.started && x.code != OP_SLEEP && (!(x.done || x.killed) || x.tRet >= op.tInv)) alone = false; }
  if (op.waits) K.probe("ops_that_waited"); char b[160];
  if (op.waits && alone && allMulti && !o->damaged) { snprintf(b, sizeof b, "waited %d times for a lock although no other program was doing anything", op.waits); return V("LOCKKEPT", op, b); }
  if (!stalls && !excl && allMulti && K.now - op.nowInv > 30000000) { snprintf(b, sizeof b, "took %lld simulated seconds", (long long)((K.now - op.nowInv) / 1000000)); return V("SLOW", op, b); }
  checkLeak(o, op); if (K.vio.set) return;
  if (op.code == OP_CLOSE && op.status == 0 && K.locksHeld(op.proc, fileName(op.file))) return V("LOCKKEPT", op, "locks remain after close");
  if (((isUpdate(op.code) && op.code != OP_UNDELALL && op.code != OP_COPYFILE) || op.code == OP_READ || op.code == OP_EXISTS) && op.status == 0 && op.mode != 4) { int q = K.handoverMissed(op.proc, fileName(op.file), op.tInv); if (q >= 0) { snprintf(b, sizeof b, "the lock was not handed over to program %d, which had been waiting since before this operation began", q); return V("HANDOVER", op, b); } }
}
void oracleDone(Oracle *o, Op &op) {
  if (K.vio.set) return; checkProgress(o, op); if (!K.vio.set) checkForeign(o, op); if (!K.vio.set && !(o->c->cfg.noprobe & 4)) checkAccess(o, op); if (K.vio.set || (o->c->cfg.noprobe & 4)) return; op.simRet = (K.realBase + K.now + K.realSkew) / 1000; std::vector<std::pair<int, std::string>> t; if (isUpdate(op.code)) touched(o, op, t);
  int slot = op.slot >= 0 ? op.slot : op.file; bool &tn = o->taint[op.proc][slot]; bool tn2 = (op.code == OP_COPYREC || op.code == OP_COPYFILE) && o->taint[op.proc][op.file2]; bool tainted = tn || tn2 || op.faulted;
  if (isUpdate(op.code) || op.code == OP_OPEN || op.opened) { o->f[op.file].fwHi = std::max(o->f[op.file].fwHi, op.simRet); if (op.code == OP_COPYREC || op.code == OP_COPYFILE) o->f[op.file2].fwHi = std::max(o->f[op.file2].fwHi, op.simRet); }
  if (op.code == OP_STORE && op.status == 0 && !((op.sp.kind == KD_LOC && op.a[1] == 0) || (kindOfPath(op.path) == KD_TSR && op.a[1]))) o->f[op.file].fwLo = std::max(o->f[op.file].fwLo, op.simInv);
  if (op.code == OP_OPEN || op.opened) { if (op.status == 0 && !op.openFail && !op.faulted) tn = false; }
  if (op.dmg && op.status < 0) tn = true; // a severe error met on a half written record stays with the handle
  if (op.faulted) { tn = true; if (op.code == OP_COPYREC || op.code == OP_COPYFILE) o->taint[op.proc][op.file2] = true; }
  FileM &F = o->f[op.file]; bool sh = sharedKey(o, op.path);
  if (op.code == OP_RECOVER) { F.torn = false; return; } if (F.torn) return; // only after the interrupted squeeze was cleared up
  bool copying = op.code == OP_COPYREC || op.code == OP_COPYFILE; if (((F.half || (copying && o->f[op.file2].half)) && op.openFail) || (F.half && op.code == OP_OPEN && op.status != 0)) { finishUpdate(o, op, t, K.step); return; } // its creation was interrupted: it may be refused
  if (op.faulted && !F.born) F.half = true; if (op.faulted && copying && !o->f[op.file2].born) o->f[op.file2].half = true;
  if ((op.code == OP_OPEN || op.opened) && !op.faulted && !op.openFail && op.status >= 0) { F.born = true; F.half = false; }
  if (op.openFail) {
    finishUpdate(o, op, t, K.step); if (op.faulted) return;
    if (F.unknownFile || F.dirty == 2) return; const Cfg &g = o->c->cfg; if (g.noprobe & 1) return;
    if (accessRefusal(o, op)) return; V("OPENFAIL", op, "the file cannot be opened"); return; }
  // readers take no lock: one that meets a half-made update of another program may fail and say so (never return wrong data)
  if (!isUpdate(op.code) && op.code != OP_OPEN && op.code != OP_CLOSE && op.status < -1000 && overlapsUpdate(o, op)) { if (op.status <= -800000000) tn = true; return; }
  if (!op.self.empty() && !tainted) return V("CAPI", op, op.path + ": " + op.self);
  switch (op.code) {
  case OP_OPEN: if (op.status != 0 && !op.faulted && !op.st2) { if ((op.phase > 0 && o->ro[op.file] && op.mode >= 2) || op.mode == 3 || F.unknownFile || (o->c->cfg.noprobe & 1) || accessRefusal(o, op)) break; V("OPENFAIL", op, "the file cannot be opened"); } break;
  case OP_CLOSE: if (op.status != 0 && !tainted) V("CLOSE", op, "close failed"); tn = false; break;
  case OP_STORE: case OP_DELETE: case OP_UNDELETE: case OP_UNDELALL: case OP_RENAME: case OP_DUP: case OP_COPYREC: case OP_COPYFILE: case OP_SQUEEZE: case OP_ALIASADD: case OP_ALIASRM: {
    bool ok = op.status == 0 || (op.code == OP_UNDELALL && op.status >= 0);
    if (sh) { o->hist[{op.file, keyOf(op.path)}].push_back(op.id); if (tainted && !ok && op.nwrites) widen(o, op, true); finishUpdate(o, op, t, K.step); if (!ok && !tainted && op.code == OP_STORE) V("REFUSED", op, op.path + " store refused"); return; }
    std::string why;
    if (ok) { if (readOnlyOpen(o, op)) { std::map<std::string, Rcd> r0[2] = {o->f[op.file].r, o->f[op.file2].r}; bool un = op.code == OP_UNDELALL && overlapsUpdate(o, op); if (!un && (op.code == OP_SQUEEZE || !applyOk(o, op, why) || !sameRecs(r0[0], o->f[op.file].r) || !sameRecs(r0[1], o->f[op.file2].r))) V("READONLY", op, "an update through a read-only handle reported success"); else { o->f[op.file2].r = r0[1]; o->f[op.file].r = r0[0]; } } else if (!applyOk(o, op, why)) { if (!tainted) V("UPDATE", op, op.path + " " + why); else widen(o, op, true); } else if (op.faulted && (op.code == OP_SQUEEZE)) { /* success despite fault must be right */ } }
    else if (tainted && op.code == OP_SQUEEZE) { auto d = o->f[op.file].dirty; widen(o, op, false); o->f[op.file].dirty = d; o->pendingFiles["tmp"] = 1; if (o->c->cfg.noprobe & 16) o->f[op.file].torn = true; }
    else if (tainted) widen(o, op, op.nwrites > 0);
    else if (readOnlyOpen(o, op)) {}
    else if (!(op.status != 0 && accessRefusal(o, op)) && !failureOk(o, op, false, why)) V("REFUSED", op, op.path + " " + why);
    if (op.faulted && op.nwrites && !ok && op.code != OP_SQUEEZE) for (auto &e : t) rec(o->f[e.first], e.second).hurt = true;
    finishUpdate(o, op, t, K.step);
    for (auto &e : t) { Rcd &r = rec(o->f[e.first], e.second); r.bLo = 0; if (ok && (op.code == OP_COPYREC || op.code == OP_DUP) && keyOf(e.second) == keyOf(op.path2)) r.bLo = op.simInv; if (ok && op.code == OP_STORE && !((op.sp.kind == KD_LOC && op.a[1] == 0) || (kindOfPath(op.path) == KD_TSR && op.a[1]))) r.bLo = op.simInv; if (!ok && (op.code == OP_COPYREC || op.code == OP_COPYFILE)) { if (op.nwrites || op.fwrites) r.wLo = r.wHi = 0; continue; } if (ok && (op.code == OP_COPYREC || op.code == OP_COPYFILE)) { r.wLo = 0; r.wHi = op.code == OP_COPYREC && keyOf(e.second) != keyOf(op.path2) ? 0 : op.simRet; continue; } if (ok) { bool keepLo = op.code == OP_DELETE || op.code == OP_UNDELETE || op.code == OP_UNDELALL || op.code == OP_RENAME || op.code == OP_SQUEEZE; if (op.code == OP_STORE && ((op.sp.kind == KD_LOC && op.a[1] == 0) || (kindOfPath(op.path) == KD_TSR && op.a[1]))) keepLo = true; if (!keepLo || !r.wHi || op.code == OP_RENAME || op.code == OP_UNDELETE || op.code == OP_UNDELALL) r.wLo = keepLo ? 0 : op.simInv; r.wHi = op.simRet; } else if (tainted) { r.wLo = std::min(r.wLo, op.simInv); r.wHi = std::max(r.wHi, op.simRet); } }
    break; }
  case OP_READ: if (sh) { o->hist[{op.file, keyOf(op.path)}].push_back(op.id); return; } if (tainted && op.status != 0) break; checkRead(o, op); checkReadLwt(o, op); break;
  case OP_CATALOG: if (tainted && op.status < 0) break; checkCatalog(o, op); if (!sh && op.a[0] != 1) for (size_t i = 0; i < op.lw.size() && i < op.list.size(); i++) if (!sharedKey(o, op.list[i])) checkLwt(o, op, rec(F, op.list[i]), op.lw[i], true); break;
  case OP_COUNT_: if (tainted) break; checkCount(o, op); break;
  case OP_CHECKFILE: for (auto &e : F.r) if (concurrentWrite(o, op, e.second)) return; /* not a snapshot */ if (op.status != 0 && !tainted && !F.dirty) V("CHECKFILE", op, "the integrity checker reports damage"); break;
  case OP_EXISTS: { if (sh) return; Rcd &r = rec(F, op.path); if (tainted && op.status != 0) break; if (concurrentWrite(o, op, r)) break; Poss n; for (auto &v : r.p) { bool in = op.status == 0; if (v.st == V_ANY || (v.st == V_ALIAS) || (v.st == V_PRESENT) == in) addV(n, v); } if (n.empty()) return V("EXISTS", op, op.path + " existence check wrong, record is " + desc(r.p)); r.p = n; break; }
  case OP_DTYPE: { if (sh) return; Rcd &r = rec(F, op.path); if (tainted && op.status < 0) break; if (concurrentWrite(o, op, r)) break; bool ce; int ty = curType(r.p, ce); if (ce && op.status != ty) { char b[80]; snprintf(b, sizeof b, " type %d expected %d", op.status, ty); return V("TYPE", op, op.path + b); } if (sure(r.p, V_ABSENT) && op.status > 0 && !tsKind(op.path)) return V("TYPE", op, op.path + " has a type although absent"); break; }
  case OP_BASICS: { if (sh) return; Rcd &r = rec(F, op.path); if (concurrentWrite(o, op, r)) break; bool ce; int ty = curType(r.p, ce); if (op.status == 0 && ce && op.nums[0] != ty) return V("TYPE", op, op.path + " record basics give a wrong type"); if (op.status != 0 && !tainted && sure(r.p, V_PRESENT)) return V("TYPE", op, op.path + " record basics not found"); if (op.status == 0) checkLwt(o, op, r, op.nums[8]); break; }
  case OP_LWT: { if (sh || tainted) break; if (!op.path.empty()) { checkLwt(o, op, rec(F, op.path), op.nums[0]); break; } if (overlapsUpdate(o, op) || F.dirty || !F.fwHi) break; if (op.nums[0] < F.fwLo || op.nums[0] > F.fwHi) { char b[140]; snprintf(b, sizeof b, "last write time of the file %lld outside [%lld,%lld]", (long long)op.nums[0], (long long)F.fwLo, (long long)F.fwHi); return V("LWT", op, b); } break; }
  case OP_WHATSET: { if (op.status < 0 && !tainted) return V("WHAT", op, "cannot set the change mark"); Mark &m = o->what[{op.proc, slot}]; m = Mark(); if (op.status < 0) break; m.set = true; m.own = op.a[1]; m.crc = (int)op.a[0]; m.pat = op.path; m.tInv = op.tInv; m.hi = overlapsUpdate(o, op) || !F.fwHi ? op.simRet : std::min(F.fwHi, op.simRet); for (auto &e : F.r) { if (concurrentWrite(o, op, e.second)) continue; if (e.second.p.size() == 1 && e.second.p[0].st != V_ANY) m.snap[e.first] = e.second.p[0]; } for (auto &e : F.r) if (could(e.second.p, V_PRESENT) || could(e.second.p, V_ALIAS)) m.some.insert(e.first); break; }
  case OP_WHATCHG: if (!tainted || op.status >= 0) checkWhat(o, op, slot); break;
  case OP_TSRANGE: { if (tainted) break; std::string tk = tsKey(op.path); i64 lo = INT64_MAX, hi = INT64_MIN; bool unsure = false, notes = false, irr = kindOfPath(op.path) == KD_TSI; { bool moved = false, same = false, other = false; for (auto &x : o->c->ops) { if (x.code == OP_RENAME || x.code == OP_DUP || x.code == OP_COPYREC) moved = true; if (x.code == OP_STORE && (x.sp.flags & FL_MISS) && (x.sp.flags & (FL_QUAL | FL_INOTE | FL_CNOTE)) && tsKind(x.path)) (tsKey(x.path) == tk ? same : other) = true; } if (same || (moved && other)) notes = true; } for (auto &e : F.r) if (tsKind(e.second.path) && tsKey(e.second.path) == tk) { if (concurrentWrite(o, op, e.second) || e.second.p.size() > 1 || isAny(e.second.p)) { unsure = true; break; } const Val &v = e.second.p[0]; if (v.st == V_PRESENT && v.ts) { bool anyVal = false; for (auto &x : *v.ts) if (irr || !x.second.miss) anyVal = true; if (!anyVal) notes = irr ? (unsure = true) : true; } if (v.st == V_PRESENT && v.ts) for (auto &x : *v.ts) { if (x.second.q || x.second.n || !x.second.c.empty()) notes = true; if (!irr && x.second.miss) continue; lo = std::min(lo, x.first); hi = std::max(hi, x.first); } }
    if (unsure || op.a[0] == 0) break; if (hi == INT64_MIN) { break; } if (op.status != 0) return V("TSRANGE", op, op.path + " range not found"); if (notes && !irr ? op.nums[0] > lo || op.nums[1] < hi : op.nums[0] != lo || op.nums[1] != hi) { char b[140]; snprintf(b, sizeof b, " range %lld..%lld expected %lld..%lld", (long long)op.nums[0], (long long)op.nums[1], (long long)lo, (long long)hi); return V("TSRANGE", op, op.path + b); } break; }
  }
}
void oracleKilled(Oracle *o, Op &op, bool power) {
  o->cyc.erase(op.proc); if (op.code == OP_SQUEEZE || op.code == OP_CATALOG) o->pendingFiles["tmp"] = 1;
  { i64 now = (K.realBase + K.now + K.realSkew) / 1000; for (auto &F : o->f) F.fwHi = std::max(F.fwHi, now); }
  if (op.file >= 0 && !o->f[op.file].born) o->f[op.file].half = true;
  if ((op.code == OP_COPYFILE || op.code == OP_COPYREC) && !o->f[op.file2].born) o->f[op.file2].half = true;
  if (op.code == OP_SQUEEZE && (o->c->cfg.noprobe & 16)) o->f[op.file].torn = true;
  std::vector<std::pair<int, std::string>> t; if (isUpdate(op.code)) { touched(o, op, t); if (op.code != OP_SQUEEZE) { if (sharedKey(o, op.path)) { o->hist[{op.file, keyOf(op.path)}].push_back(op.id); } else { widen(o, op, op.nwrites > 0); if (power && op.nwrites) for (auto &e : t) rec(o->f[e.first], e.second).hurt = true; } } else { auto save = o->f[op.file].r; std::string why; bool d = o->f[op.file].dirty; widen(o, op, false); o->f[op.file].dirty = d; } finishUpdate(o, op, t, K.step); for (auto &e : t) { Rcd &r = rec(o->f[e.first], e.second); r.wHi = std::max(r.wHi, (K.realBase + K.now + K.realSkew) / 1000); r.wLo = std::min(r.wLo, op.simInv); } }
  for (int i = 0; i < 6; i++) o->taint[op.proc][i] = false;
}
void oraclePower(Oracle *o) { memset(o->taint, 0, sizeof o->taint); }

// ---- per-key linearizability of shared records (Wing & Gong search)
struct LinOp { int id; u64 inv, ret; int code; int status; bool killed; bool optional; Val nv; std::string out; };
struct LinState { Val v; };
static bool linSearch(const std::vector<LinOp> &ops, u64 doneMask, const Val &cur, std::set<std::string> &memo, Poss &finals, int &budget) {
  if (--budget < 0) return true; u64 full = ops.size() >= 64 ? ~0ULL : ((1ULL << ops.size()) - 1); bool rest = false; for (size_t i = 0; i < ops.size(); i++) if (!(doneMask >> i & 1) && !ops[i].optional) rest = true;
  bool found = false; if (!rest) { addV(finals, cur); found = true; } if (doneMask == full) return found;
  char key[40]; snprintf(key, sizeof key, "%llx|", (unsigned long long)doneMask); if (!memo.insert(std::string(key) + desc(cur)).second) return found;
  u64 minRet = ~0ULL; for (size_t i = 0; i < ops.size(); i++) if (!(doneMask >> i & 1) && !ops[i].optional) minRet = std::min(minRet, ops[i].ret);
  for (size_t i = 0; i < ops.size(); i++) if (!(doneMask >> i & 1) && ops[i].inv <= minRet) {
    const LinOp &x = ops[i]; Val nv = cur; bool ok = true; bool anyc = cur.st == V_ANY;
    if (x.code == OP_STORE) nv = x.nv; 
    else if (x.code == OP_DELETE) { if (x.killed) { if (cur.st == V_PRESENT) nv.st = V_DELETED; } else if (x.status == 0) { if (cur.st == V_PRESENT) nv.st = V_DELETED; else if (!anyc) ok = false; } else if (cur.st == V_PRESENT) ok = false; }
    else if (x.code == OP_UNDELETE) { if (x.killed) { if (cur.st == V_DELETED) nv.st = V_PRESENT; } else if (x.status == 0) { if (cur.st == V_DELETED) nv.st = V_PRESENT; else if (!anyc) ok = false; } else if (cur.st == V_DELETED) ok = false; }
    else if (x.code == OP_READ) { if (!anyc) { if (x.status == 0) ok = cur.st == V_PRESENT && cur.content == x.out; else ok = cur.st != V_PRESENT; } }
    if (ok && linSearch(ops, doneMask | 1ULL << i, nv, memo, finals, budget)) found = true;
  }
  return found;
}
void oraclePhaseEnd(Oracle *o, int phase) {
  (void)phase; if (K.vio.set || (o->c->cfg.noprobe & 4)) return;
  for (auto &h : o->hist) {
    std::vector<LinOp> ops; bool any = false; std::vector<std::pair<u64, u64>> wr; Case &c = *o->c;
    for (int id : h.second) { Op *op = nullptr; for (auto &x : c.ops) if (x.id == id) op = &x; if (!op) continue; if (op->code != OP_READ) wr.push_back({op->tInv, op->killed ? ~0ULL >> 1 : op->tRet}); if (op->killed && op->nwrites) any = true; if (op->faulted && op->status) any = true; }
    if (any) { rec(o->f[h.first.first], c.ops.empty() ? "" : h.first.second).p.assign(1, anyV()); continue; }
    for (int id : h.second) {
      Op *op = nullptr; for (auto &x : c.ops) if (x.id == id) op = &x; if (!op) continue; LinOp l; l.id = id; l.inv = op->tInv; l.ret = op->killed ? ~0ULL >> 1 : op->tRet; l.code = op->code; l.status = op->status; l.killed = op->killed; l.optional = op->killed; l.out = op->out;
      if (op->code == OP_READ) { bool ov = false; for (auto &w : wr) if (w.first <= l.ret && l.inv <= w.second) ov = true; if (ov || op->killed || (op->faulted && op->status)) continue; }
      if (op->code == OP_STORE) { l.nv.st = V_PRESENT; l.nv.content = expectContent(op->sp, op->path); l.nv.type = typeCode(op->sp.kind, op->path, op->sp.flags); if (!op->killed && op->status) continue; }
      ops.push_back(l);
    }
    if (ops.size() > 40) continue; Rcd &r = rec(o->f[h.first.first], h.first.second); Poss fin; bool ok = false; int budget = 200000; for (auto &v : r.p) { std::set<std::string> memo; if (linSearch(ops, 0, v, memo, fin, budget)) ok = true; }
    if (budget < 0) { K.probe("lin_budget"); r.p.assign(1, anyV()); continue; }
    K.probe("lin_keys_checked"); if (!ok) { std::string m = "no order of the operations on " + h.first.second + " explains the results:"; char b[120]; for (auto &l : ops) { snprintf(b, sizeof b, " [op%d %s st%d %llu-%llu]", l.id, opName[l.code], l.status, (unsigned long long)l.inv, (unsigned long long)l.ret); m += b; } K.fail("LINEAR", m); return; }
    r.p = fin; for (auto &id : h.second) for (auto &x : c.ops) if (x.id == id && x.code == OP_STORE) r.path = x.path;
  }
  o->hist.clear();
}
void oracleEnd(Oracle *o) { (void)o; }
