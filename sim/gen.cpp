// Seeded generation of programs, schedules and fault placements for each property.
#include "host.hpp"
#include <algorithm>
struct G {
  Rng r; Case c; int nid = 0; std::vector<std::string> pool; u64 vseq = 1; int big = 0; double capiP = 0; bool tsDbl = true; int tsRange = 2500; int flagsMask = -1, mixNotes = 0; bool aliases = false, small = false;
  G(u64 seed) : r(mix64(seed, 0x6e6e)) {}
  int pick(std::initializer_list<int> w) { int t = 0; for (int x : w) t += x; int k = (int)r.below(t), i = 0; for (int x : w) { if (k < x) return i; k -= x; i++; } return 0; }
  Op &add(int code, int file = 0, const std::string &path = "", int proc = 0, int phase = 0) { Op o; o.id = nid++; o.code = code; o.file = file; o.path = path; o.proc = proc; o.phase = phase; c.ops.push_back(o); return c.ops.back(); }
  std::string rs(int lo, int hi, const char *cs = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") { int n = (int)r.range(lo, hi); std::string s; for (int i = 0; i < n; i++) s += cs[r.below(strlen(cs))]; return s; }
  std::string newPath(int kind, int idx, const std::string &bpre = "B") {
    static const char *pre[] = {"TX", "TB", "AR", "PD", "GR", "TN", "LC", "RW", "SR", "SI"}; std::string a = pre[kind] + (r.chance(0.3) ? rs(0, 12) : ""), b = bpre + std::to_string(idx) + (r.chance(0.3) ? rs(0, 20) : ""), cc = r.chance(0.5) ? "FLOW" : "C" + rs(0, 10), f = r.chance(0.5) ? "" : rs(1, 24);
    if (kind == KD_LOC) return "/" + a + "/" + b + "/LOCATION INFO////";
    if (kind == KD_GRID) { if (r.chance(0.5)) return "/" + a + "/" + b + "/" + cc + "/01JAN2000:0100/01JAN2000:0200/" + f + "/"; return "/" + a + "/" + b + "/" + cc + "///" + f + "/"; }
    if (kind == KD_TSR) { static const char *iv[] = {"1HOUR", "15Minute", "1DAY", "6HOUR", "1Month", "5Minute", "1HOUR", "30Minute", "12HOUR", "1Minute"}; return "/" + a + "/" + b + "/" + cc + "//" + iv[r.below(10)] + "/" + f + "/"; }
    if (kind == KD_TSI) { static const char *iv[] = {"IR-DAY", "IR-MONTH", "IR-YEAR", "IR-DECADE", "IR-MONTH"}; return "/" + a + "/" + b + "/" + cc + "//" + iv[r.below(5)] + "/" + f + "/"; }
    std::string d = r.chance(0.3) ? rs(1, 10, "DEFGH") : "", e = r.chance(0.3) ? rs(1, 10, "QRSTU") : ""; return "/" + a + "/" + b + "/" + cc + "/" + d + "/" + e + "/" + f + "/";
  }
  int size(int lim) { if (small) return (int)r.range(1, 12); switch (r.below(8)) { case 0: return 1; case 1: return (int)r.range(1, 4); case 2: case 3: return (int)r.range(1, 40); case 4: case 5: return (int)r.range(1, 300); case 6: return (int)r.range(1, std::min(lim, 2500)); default: return big ? (int)r.range(1, lim) : (int)r.range(1, 120); } }
  Spec spec(const std::string &path) {
    Spec s; s.kind = kindOfPath(path); s.v = ++vseq; u64 ph = hstr(upper(withPart(path, 3, "")).c_str());
    switch (s.kind) {
    case KD_TEXT: s.n = size(20000); break;
    case KD_TABLE: s.n = (int)r.range(1, 30); s.n2 = (int)r.range(2, 9); if (r.chance(0.5)) s.flags |= FL_LAB; if (r.chance(0.2)) s.flags |= FL_UH; break;
    case KD_ARRAY: if (r.chance(0.6)) s.n = size(9000); if (r.chance(0.6)) s.n2 = size(6000); if (r.chance(0.6)) s.n3 = size(4000); break;
    case KD_PD: s.n = 1 + size(1500); s.n2 = (int)r.range(1, 6); if (ph & 1) s.flags |= FL_DBL; if (r.chance(0.5)) s.flags |= FL_LAB; if (r.chance(0.15)) s.flags |= FL_UH; break;
    case KD_GRID: s.n = (int)r.range(1, 40); s.n2 = (int)r.range(1, 40); s.n3 = (int)r.range(1, 12); s.flags |= FL_COMP; if (r.chance(0.5)) s.flags |= FL_REP; break;
    case KD_TIN: s.n = (int)r.range(1, 60); s.n2 = (int)r.range(1, 120); break;
    case KD_LOC: s.n = (int)r.range(1, 200); break;
    case KD_RAW: s.n = r.chance(0.7) ? size(6000) : 0; s.n2 = r.chance(0.4) ? size(3000) : 0; s.n3 = r.chance(0.4) ? size(900) : 0; break;
    case KD_TSR: case KD_TSI: s.n = s.kind == KD_TSR ? std::max(1, size(1500)) : std::max(1, std::min(size(400), 400)); if (ph & 1) s.flags |= FL_DBL; if ((ph >> 1) % 3 == 0) s.flags |= FL_QUAL; { int nt = (ph >> 4) % 5; if (nt == 0) s.flags |= FL_INOTE; else if (nt == 1) s.flags |= FL_CNOTE; } if (r.chance(0.35)) { s.flags |= FL_MISS; s.n3 = (int)r.range(1, 6); } if (r.chance(0.3)) s.flags |= FL_REP; s.n2 = r.chance(0.5) ? 3 : (int)r.range(1, 700); if (mixNotes && r.chance(0.3)) s.flags &= ~(mixNotes & (r.chance(0.5) ? FL_QUAL : FL_INOTE | FL_CNOTE)); s.flags &= flagsMask; break;
    }
    return s;
  }
  i64 tsBase(const std::string &path) { i64 iv = tsInterval(path); if (iv < 0) return r.range(-30, 200); return r.range(-200, tsRange); }
  void storeArgs(Op &o) {
    int k = kindOfPath(o.path); if (k == KD_TSR) { o.a[0] = tsBase(o.path); i64 iv = tsInterval(o.path); int mx = iv < 0 ? 150 : iv <= 300 ? 900 : 1500; if (o.sp.n > mx) o.sp.n = mx; if (r.chance(0.4)) { static const int f[] = {0, 0, 1, 2, 3, 4}; o.a[1] = f[r.below(6)]; } }
    else if (k == KD_TSI) { o.a[0] = 60 * r.range(-2000, 100000); if (r.chance(0.3)) o.a[1] = 1; }
    else if (k == KD_LOC) o.a[1] = r.chance(0.85) ? 1 : 0;
  }
  Op &store(int file, const std::string &path, int proc = 0, int phase = 0) { Op &o = add(OP_STORE, file, path, proc, phase); o.sp = spec(path); storeArgs(o); o.capi = r.chance(capiP); return o; }
  Op &read(int file, const std::string &path, int proc = 0, int phase = 0) {
    Op &o = add(OP_READ, file, path, proc, phase); int k = kindOfPath(path); o.sp.kind = k; o.capi = r.chance(capiP);
    if (k == KD_TSR) { o.a[0] = tsBase(path); i64 iv = tsInterval(path); o.sp.n = std::max(1, std::min(size(1500), iv < 0 ? 150 : iv <= 300 ? 900 : 1500)); o.a[2] = 2; o.a[3] = r.below(2); }
    else if (k == KD_TSI) { o.a[0] = 60 * r.range(-3000, 100000); o.sp.n = (int)r.range(1, r.chance(0.5) ? 3000 : 90000); o.a[2] = 2; o.a[3] = r.below(2); }
    return o;
  }
  void audit(int file, int phase, int mode = 0, bool check = true) {
    Op &o = add(OP_OPEN, file, "", 0, phase); o.mode = mode; if (check) add(OP_CHECKFILE, file, "", 0, phase); add(OP_CATALOG, file, "", 0, phase).a[0] = r.below(2); add(OP_COUNT_, file, "", 0, phase);
    for (auto &p : pool) { int k = kindOfPath(p); Op &x = add(OP_READ, file, p, 0, phase); x.sp.kind = k; if (k == KD_TSR) { i64 iv = tsInterval(p); x.a[0] = iv < 0 ? -40 : -210; x.sp.n = iv < 0 ? 400 : tsRange + 1740; x.a[2] = 2; } else if (k == KD_TSI) { x.a[0] = -60 * 3000; x.sp.n = 110000 + 400 * 710; x.a[2] = 2; } }
    add(OP_CLOSE, file, "", 0, phase);
  }
  std::string blockPath(const std::string &p) { int k = kindOfPath(p); if (k == KD_TSR) { i64 iv = tsInterval(p); return withPart(p, 3, tsDPart(p, tsSlotTime(iv, tsBase(p)))); } if (k == KD_TSI) return withPart(p, 3, tsDPart(p, 60 * r.range(-2000, 100000))); return p; }
  std::string recPath() { return blockPath(pool[r.below(pool.size())]); }
  void locSiblings() { size_t n = pool.size(); for (size_t i = 0; i < n; i++) if (kindOfPath(pool[i]) != KD_LOC && r.chance(0.2)) pool.push_back("/" + part(pool[i], 0) + "/" + part(pool[i], 1) + "/LOCATION INFO////"); }
  void mkPool(int n, std::initializer_list<int> kindW, const std::string &bp = "B") { for (int i = 0; i < n; i++) pool.push_back(newPath(pick(kindW), (int)pool.size(), bp)); }
  // pathnames that agree in both hash codes of the directory (table hash and path hash): "AP" and "B1" give the same
  // path hash, and an even number of substitutions at the same bit phase cancels in the table hash
  void collide(int nfam, std::initializer_list<int> kindW) {
    int mh = c.cfg.hash ? c.cfg.hash : 8192, ib = 0; while ((1 << ib) < mh) ib++; int d = 2; while (d * 8 % ib) d++; if (d < 3) d = 3 + (int)r.below(4) * (ib == 4); while (d * 8 % ib) d++;
    for (int f = 0; f < nfam; f++) {
      std::string q = newPath(pick(kindW), (int)pool.size()); if (kindOfPath(q) == KD_LOC) continue; int k = (int)r.below(9); std::string a{'A', (char)('P' + k)}, b{'B', (char)('1' + k)}, f1 = rs(d - 2, d - 2), f2 = rs(d - 2, d - 2), pre = "F" + std::to_string(f); static const int cp[] = {0, 1, 1, 2, 5, 5}; int part_ = cp[r.below(6)]; if (r.chance(0.3)) for (int k2 : {0, 1, 2}) if (k2 != part_ && r.chance(0.7)) q = withPart(q, k2, part(q, k2) + rs(15, 45));
      for (int m = 0; m < 4; m++) { bool s0 = m == 1 || m == 2, s1 = m == 1 || m == 3, s2 = m == 2 || m == 3; pool.push_back(withPart(q, part_, pre + (s0 ? b : a) + f1 + (s1 ? b : a) + f2 + (s2 ? b : a))); }
    } }
  std::string sibling(const std::string &p) { // a path another record of the same kind can move to
    std::vector<std::string> s; auto cls = [](const std::string &x) { u64 h = hstr(upper(withPart(x, 3, "")).c_str()); int nt = (h >> 4) % 5; return (int)(h & 1) + 2 * ((h >> 1) % 3 == 0) + 4 * (nt < 2 ? nt : 2); }; std::string pd = kindOfPath(p) >= KD_TSR ? withPart(p, 3, "") : p; for (auto &q : pool) if (kindOfPath(q) == kindOfPath(p) && (kindOfPath(p) < KD_TSR || (cls(q) == cls(p) && part(q, 4) == part(p, 4)))) s.push_back(q); if (s.empty()) return p; std::string q = s[r.below(s.size())]; int k = kindOfPath(p);
    if (k == KD_TSR || k == KD_TSI) { u64 a = hstr(upper(withPart(p, 3, "")).c_str()); (void)a; q = withPart(q, 3, part(p, 3)); q = withPart(q, 4, part(p, 4)); } return q; }
};
static void cfgFile(G &g) { static const int hs[] = {0, 0, 16, 32, 128, 512, 1024}; g.c.cfg.hash = hs[g.r.below(7)]; if (g.c.cfg.hash) g.c.cfg.bin = (int)g.r.range(0, 1) * (int)g.r.range(80, 250); g.c.cfg.reclaim = g.r.chance(0.3) ? (int)g.r.range(1, 3) : 0; g.c.cfg.fill = g.r.chance(0.5) ? 0xA5 : g.r.chance(0.5) ? 0 : 0xFF; }
static int step(G &g, int file, int proc, int phase, std::initializer_list<int> w) {
  // store read delete undelete rename dup catalog close exit basics dtype exists lwt count check squeeze undelall tsrange
  int k = g.pick(w); Rng &r = g.r; std::string p = g.pool[r.below(g.pool.size())];
  switch (k) {
  case 0: g.store(file, p, proc, phase); break; case 1: g.read(file, p, proc, phase); break;
  case 2: g.add(OP_DELETE, file, g.blockPath(p), proc, phase).capi = r.chance(g.capiP); break; case 3: g.add(OP_UNDELETE, file, g.blockPath(p), proc, phase); break;
  case 4: { if (kindOfPath(p) == KD_LOC) break; std::string b = g.blockPath(p), q = g.sibling(b); if (q == b) break; Op &o = g.add(OP_RENAME, file, b, proc, phase); o.path2 = q; if ((kindOfPath(b) == KD_TSR || kindOfPath(b) == KD_TSI) && r.chance(0.3)) o.a[0] = (i64)r.range(1, 5); break; }
  case 5: { if (kindOfPath(p) == KD_LOC) break; std::string b = g.blockPath(p), q = g.sibling(b); if (keyOf(q) == keyOf(b)) break; g.add(OP_DUP, file, b, proc, phase).path2 = q; break; }
  case 6: { Op &o = g.add(OP_CATALOG, file, "", proc, phase); o.a[0] = r.below(2); o.capi = r.chance(g.capiP); if (r.chance(0.3)) { static const char *w2[] = {"/*/*/*/*/*/*/", "/TX*/*/*/*/*/*/", "/*/B1*/*/*/*/*/", "/AR*/*/*/*/*/*/", "/*/*/FLOW/*/*/*/"}; o.path = w2[r.below(5)]; } break; }
  case 7: g.add(OP_CLOSE, file, "", proc, phase); break; case 8: g.add(OP_EXIT, file, "", proc, phase); break;
  case 9: g.add(OP_BASICS, file, g.blockPath(p), proc, phase); break; case 10: g.add(OP_DTYPE, file, g.blockPath(p), proc, phase).capi = r.chance(g.capiP); break; case 11: g.add(OP_EXISTS, file, g.blockPath(p), proc, phase); break; case 12: g.add(OP_LWT, file, g.blockPath(p), proc, phase); break;
  case 13: g.add(OP_COUNT_, file, "", proc, phase).capi = r.chance(g.capiP); break; case 14: g.add(OP_CHECKFILE, file, "", proc, phase); break; case 15: { Op &o = g.add(OP_SQUEEZE, file, "", proc, phase); o.a[1] = r.below(2); break; } case 16: g.add(OP_UNDELALL, file, "", proc, phase); break;
  case 17: { if (kindOfPath(p) == KD_TSR || kindOfPath(p) == KD_TSI) { Op &o = g.add(OP_TSRANGE, file, p, proc, phase); o.a[0] = 1; o.capi = g.capiP > 0 && r.chance(g.capiP); } break; }
  }
  return k;
}
// several processes on one file: phase 0 creates it, phase 1 runs concurrently, phase 2 is the audit by a fresh process
static void concurrent(G &g, std::initializer_list<int> w, bool kills, bool wild = false) {
  Rng &r = g.r; Cfg &cf = g.c.cfg; cf.nproc = (int)r.range(2, r.chance(0.3) ? 4 : 3); cf.lin = true; static const double pr[] = {0.002, 0.01, 0.03, 0.1, 0.3}; cf.preempt = pr[r.below(5)]; static const int md[] = {0, 2, 2, 3}; int mm = (int)r.below(3), m1 = md[r.below(4)]; cf.maxSteps = 3000000;
  if (r.chance(0.4)) { cf.hash = 16 << r.below(3); cf.bin = (int)r.range(0, 1) * (int)r.range(60, 200); } g.small = r.chance(0.6);
  std::vector<std::string> shr; std::vector<std::vector<std::string>> own((size_t)cf.nproc); int ns = (int)r.range(0, 3); static const std::initializer_list<int> kw = {6, 2, 4, 3, 1, 1, 0, 3, 3, 2}, kws = {5, 1, 4, 0, 0, 0, 0, 3, 0, 0};
  for (int i = 0; i < ns; i++) { shr.push_back(g.newPath(g.pick(kws), i, "SHR")); }
  for (int p = 0; p < cf.nproc; p++) { int n = (int)r.range(1, 5); for (int i = 0; i < n; i++) own[p].push_back(g.newPath(g.pick(kw), i, "P" + std::to_string(p) + "B")); }
  for (auto &x : shr) g.pool.push_back(x); for (auto &o : own) for (auto &x : o) g.pool.push_back(x); std::vector<std::string> all = g.pool;
  bool cps = !wild && !kills && cf.nproc <= 3 && r.chance(0.2); if (cps) { cf.nfiles = 1 + cf.nproc; for (int p = 0; p < cf.nproc; p++) { int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) g.store(1 + p, own[p][r.below(own[p].size())]); g.add(OP_CLOSE, 1 + p); } } // each has a file of its own to copy into the shared one
  if (wild) { for (auto &o : own) o = all; cf.nfiles = 2; } // only progress is judged: everybody works on everything
  { Op &o = g.add(OP_OPEN, 0); o.mode = m1; } int n0 = (int)r.range(0, 10); for (int i = 0; i < n0; i++) g.store(0, all[r.below(all.size())]); if (r.chance(0.2)) g.add(OP_DELETE, 0, g.recPath());
  std::vector<int> mode(4); for (auto &m : mode) m = mm == 0 ? m1 : mm == 1 ? 2 : md[r.below(4)];
  for (int p = 0; p < cf.nproc; p++) {
    int n = (int)r.range(4, 22); { Op &o = g.add(OP_OPEN, 0, "", p, 1); o.mode = mode[p]; }
    for (int i = 0; i < n; i++) {
      size_t at = g.c.ops.size();
      if (!shr.empty() && r.chance(0.35)) { std::string q = shr[r.below(shr.size())]; int k = g.pick({5, 5, 1}); if (k == 0) g.store(0, q, p, 1); else if (k == 1) g.read(0, q, p, 1); else g.add(OP_DELETE, 0, q, p, 1); }
      else if (r.chance(0.15)) { g.read(0, all[r.below(all.size())], p, 1); }
      else if (wild && r.chance(0.12)) { std::string a = g.recPath(); if (r.chance(0.5)) { Op &o = g.add(OP_COPYREC, 0, a, p, 1); o.file2 = 1; o.path2 = a; } else { Op &o = g.add(OP_COPYFILE, r.below(2), "", p, 1); o.file2 = 1 - o.file; } }
      else if (cps && r.chance(0.06)) { Op &o = g.add(OP_COPYFILE, 1 + p, "", p, 1); o.file2 = 0; }
      else if (cps && r.chance(0.06)) { std::string a = own[p][r.below(own[p].size())]; Op &o = g.add(OP_COPYREC, 1 + p, a, p, 1); o.file2 = 0; o.path2 = a; }
      else { g.pool = own[p]; step(g, 0, p, 1, w); g.pool = all; }
      for (size_t k = at; k < g.c.ops.size(); k++) { Op &o = g.c.ops[k]; o.mode = mode[p]; if (r.chance(0.01)) { o.arm = F_STALL; o.armCount = (i64)r.below(12); o.armArg = r.below(8000000); } if (kills && r.chance(0.03)) { o.arm = r.chance(0.3) ? F_TORN_KILL : F_KILL; o.armCount = (i64)r.below(14); o.armArg = r.next() >> 1; } }
      if (r.chance(0.03)) { Op &o = g.add(OP_SLEEP, 0, "", p, 1); o.a[0] = (i64)r.below(3000000); }
    }
    if (wild) g.add(OP_CLOSE, 1, "", p, 1);
    g.add(OP_CLOSE, 0, "", p, 1);
  }
  g.audit(0, 2);
}
// programs taking turns on one file with their handles open: what one finished, the others must see
static void turns(G &g) {
  Rng &r = g.r; Cfg &cf = g.c.cfg; cf.nproc = (int)r.range(2, 3); static const double tp[] = {0.2, 0.5, 0.9}, pr[] = {0, 0, 0.003, 0.03}; cf.turn = tp[r.below(3)]; cf.preempt = pr[r.below(4)]; cf.maxSteps = 3000000; static const int md[] = {0, 2, 2, 3, 1, 1};
  if (r.chance(0.6)) { cf.hash = 16 << r.below(3); cf.bin = r.chance(0.5) ? (int)r.range(60, 200) : 0; } g.small = r.chance(0.6);
  static const std::initializer_list<int> kw = {6, 2, 4, 3, 1, 1, 2, 3, 3, 3}; std::vector<std::vector<std::string>> own(4); int rdOnly = r.chance(0.4) ? 1 : 0;
  for (int p = rdOnly; p < cf.nproc; p++) { int n = (int)r.range(1, 6); for (int i = 0; i < n; i++) own[p].push_back(g.newPath(g.pick(kw), i, "P" + std::to_string(p) + "B")); }
  for (auto &o : own) for (auto &x : o) g.pool.push_back(x); std::vector<std::string> all = g.pool; int mode[4], m0 = r.chance(0.5) ? 2 : 0; for (int p = 0; p < 4; p++) { mode[p] = r.chance(0.5) ? m0 : own[p].empty() ? md[r.below(6)] : md[r.below(4)]; }
  { Op &o = g.add(OP_OPEN, 0); o.mode = m0; } int n0 = (int)r.range(0, 10); for (int i = 0; i < n0; i++) g.store(0, all[r.below(all.size())]); if (r.chance(0.3)) g.add(OP_DELETE, 0, g.recPath());
  std::string last; for (int p = 0; p < cf.nproc; p++) {
    int n = (int)r.range(6, 30); { Op &o = g.add(OP_OPEN, 0, "", p, 1); o.mode = mode[p]; } bool writer = !own[p].empty() && mode[p] != 1; double wr = writer ? 0.3 + 0.1 * (double)r.below(5) : 0; std::string hot = all[r.below(all.size())];
    for (int i = 0; i < n; i++) {
      size_t at = g.c.ops.size();
      if (writer && r.chance(wr)) { g.pool = own[p]; step(g, 0, p, 1, {40, 0, 18, 4, 6, 4, 0, 2, 0, 0, 0, 0, 0, 0, 0, cf.preempt > 0 ? 0 : 3}); g.pool = all; }
      else { if (r.chance(0.5)) g.pool = {hot}; step(g, 0, p, 1, {0, 40, 0, 0, 0, 0, 5, 1, 1, 4, 6, 12, 2, 1, 1, 0, 0, 2}); g.pool = all; }
      for (size_t k = at; k < g.c.ops.size(); k++) g.c.ops[k].mode = mode[p];
    }
    g.add(OP_CLOSE, 0, "", p, 1);
  }
  g.audit(0, 2);
}
Case generate(const std::string &prop, u64 seed) {
  G g(mix64(seed, hstr(prop.c_str()))); g.c.prop = prop; g.c.seed = seed; Rng &r = g.r; Cfg &cf = g.c.cfg; cfgFile(g); g.big = r.chance(0.15); if (mix64(seed, 99) % 3 == 0) cf.noprobe |= 32; if ((prop == "P01" || prop == "P02" || prop == "P03") && mix64(seed, 98) % 4 == 0) g.capiP = 0.4;
  if ((prop == "P02" || prop == "P03" || prop == "P04" || prop == "P05" || prop == "P07") && mix64(seed, 71) % 3 == 0) g.mixNotes = FL_QUAL | FL_INOTE | FL_CNOTE; // some stores leave out quality or notes
  if (prop == "P01") { g.mkPool((int)r.range(2, 9), {4, 2, 4, 4, 2, 2, 2, 4, 0, 0}); int n = (int)r.range(5, 40); for (int i = 0; i < n; i++) step(g, 0, 0, 0, {50, 40, 0, 0, 0, 0, 0, 4, 1}); g.audit(0, 1); }
  else if (prop == "P02") { g.mkPool((int)r.range(1, 3), {0, 0, 0, 0, 0, 0, 0, 0, 1, 0}); int n = (int)r.range(4, 30); for (int i = 0; i < n; i++) step(g, 0, 0, 0, {50, 35, 4, 3, 0, 0, 1, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0, 4}); g.audit(0, 1); }
  else if (prop == "P03") { g.mkPool((int)r.range(1, 3), {0, 0, 0, 0, 0, 0, 0, 0, 0, 1}); int n = (int)r.range(4, 30); for (int i = 0; i < n; i++) step(g, 0, 0, 0, {50, 35, 4, 3, 0, 0, 1, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0, 4}); g.audit(0, 1); }
  else if (prop == "P06") { g.mkPool((int)r.range(3, 12), {4, 2, 4, 3, 2, 1, 2, 3, 3, 2}); int n = (int)r.range(8, 60); for (int i = 0; i < n; i++) step(g, 0, 0, 0, {30, 14, 12, 8, 8, 8, 3, 4, 1, 1, 1, 2, 0, 2, 1, 0, 1}); g.audit(0, 1); }
  else if (prop == "P05") { // crowded directory: few hash slots, small bins, many paths
    static const int hs[] = {16, 16, 32, 128}; cf.hash = hs[r.below(4)]; cf.bin = r.chance(0.3) ? 0 : (int)r.range(50, 140); g.small = true;
    g.mkPool((int)r.range(20, 110), {8, 1, 2, 1, 0, 0, 2, 2, 0, 0}); if (r.chance(0.5)) { g.pool.resize(5 + r.below(g.pool.size() - 5)); g.collide((int)r.range(1, 5), {8, 1, 2, 1, 0, 0, 0, 2, 0, 0}); } int n = (int)r.range(30, 160); for (int i = 0; i < n; i++) step(g, 0, 0, 0, {60, 10, 14, 4, 8, 4, 3, 3, 1, 1, 1, 2, 1, 2, 2, 0, 1}); g.audit(0, 1); }
  else if (prop == "P04") { // space reuse on, records of every kind growing and shrinking
    cf.reclaim = r.chance(0.15) ? 1 : (int)r.range(2, 3); g.big = r.chance(0.3); g.small = r.chance(0.2); g.mkPool((int)r.range(3, 14), {4, 2, 4, 3, 1, 1, 1, 3, 2, 2}); int n = (int)r.range(10, 80); for (int i = 0; i < n; i++) step(g, 0, 0, 0, {52, 14, 14, 3, 5, 5, 1, 4, 1, 0, 0, 1, 0, 1, 1, 0, 0}); g.audit(0, 1); }
  else if (prop == "P07") { g.big = r.chance(0.2); g.small = r.chance(0.4); if (r.chance(0.3)) cf.reclaim = 2; g.mkPool((int)r.range(2, 30), {4, 2, 4, 3, 1, 1, 2, 3, 2, 2}); int rounds = (int)r.range(1, 3);
    for (int k = 0; k < rounds; k++) { int n = (int)r.range(5, 40); for (int i = 0; i < n; i++) step(g, 0, 0, 0, {50, 6, 16, 2, 4, 3, 1, 4, 1, 0, 0, 1, 0, 1, 1, 0, 0}); Op &o = g.add(OP_SQUEEZE, 0); if (r.chance(0.3)) { g.c.ops.pop_back(); g.add(OP_CLOSE, 0); Op &q = g.add(OP_SQUEEZE, 0); q.capi = true; } else { o.a[0] = 0; o.a[1] = r.below(2); } g.add(OP_COUNT_, 0); g.add(OP_CHECKFILE, 0); g.add(OP_CATALOG, 0).a[0] = 1; int m = (int)r.range(0, 20); for (int i = 0; i < m; i++) step(g, 0, 0, 0, {30, 40, 6, 2, 2, 2, 1, 2, 1, 0, 1, 1, 1, 1, 1, 0, 0}); } g.audit(0, 1); }
  else if (prop == "P08") { cf.nfiles = 2; g.big = r.chance(0.2); g.mkPool((int)r.range(2, 16), {4, 2, 4, 3, 1, 1, 2, 3, 2, 2}); if (r.chance(0.4)) g.locSiblings(); int n = (int)r.range(8, 50);
    for (int i = 0; i < n; i++) { int f = r.chance(0.3) ? 1 : 0; if (r.chance(0.12)) { std::string p = g.recPath(), q = r.chance(0.6) ? p : g.sibling(p); Op &o = g.add(OP_COPYREC, f, p); o.file2 = 1 - f; o.path2 = q; } else if (r.chance(0.05)) { Op &o = g.add(OP_COPYFILE, f); o.file2 = 1 - f; } else step(g, f, 0, 0, {50, 16, 8, 2, 3, 3, 1, 3, 1, 0, 0, 1, 0, 1, 1, 0, 0}); }
    g.add(OP_COPYFILE, 0).file2 = 1; g.audit(0, 1); g.audit(1, 1); }
  else if (prop == "P10") { // several writers on one file, records of their own plus records they all update
    concurrent(g, {42, 16, 8, 3, 2, 2, 2, 3, 1, 1, 1, 2, 0, 1}, false); }
  else if (prop == "P11") { if (r.chance(0.35)) turns(g); else concurrent(g, {42, 12, 10, 3, 3, 3, 2, 8, 3, 1, 1, 2, 0, 1, 1}, r.chance(0.6), r.chance(0.4)); if (r.chance(0.6)) for (auto &o : g.c.ops) if (o.phase == 1 && o.mode != 1) o.mode = 2; cf.noprobe |= 4; if (cf.reclaim > 1) cf.reclaim = 1; }
  else if (prop == "P12") turns(g);
  else if (prop == "P14") { // one program after another is killed part way
    g.small = r.chance(0.6); g.big = r.chance(0.1); if (r.chance(0.4)) { cf.hash = 16 << r.below(3); cf.bin = (int)r.range(0, 1) * (int)r.range(60, 200); } cf.reclaim = r.chance(0.3) ? 1 : 0; cf.defMode = r.chance(0.5) ? 2 : 0;
    g.mkPool((int)r.range(2, 14), {5, 2, 4, 3, 1, 1, 2, 3, 3, 2}); if (r.chance(0.9)) { Op &o = g.add(OP_OPEN, 0); o.mode = cf.defMode; } int n0 = (int)r.range(0, 10); for (int i = 0; i < n0; i++) g.store(0, g.pool[r.below(g.pool.size())]); int rounds = (int)r.range(1, 4), ph = 0;
    for (int k = 0; k < rounds; k++) { if (r.chance(0.5)) ph++; int n = (int)r.range(1, 8); size_t at = g.c.ops.size(); for (int i = 0; i < n; i++) step(g, 0, 0, ph, {50, 8, 10, 3, 4, 4, 1, 3, 1, 0, 0, 1, 0, 0, 0, 0, 1}); if (g.c.ops.size() > at) { Op &o = g.c.ops.back(); if (o.code != OP_CLOSE && o.code != OP_EXIT) { int q = (int)r.below(3); o.arm = q == 0 ? F_KILL : q == 1 ? F_KILL_AFTER : F_TORN_KILL; o.armCount = (i64)r.below((q ? 8 : 20) << (r.chance(0.3) ? r.below(4) : 0)); o.armArg = r.next() >> 1; } } n = (int)r.range(0, 6); for (int i = 0; i < n; i++) step(g, 0, 0, ph, {50, 30, 8, 3, 3, 3, 2, 3, 1, 1, 1, 2, 0, 0, 0, 0, 0}); }
    for (auto &o : g.c.ops) if (o.mode == 0) o.mode = cf.defMode; g.audit(0, ph + 1); }
  else if (prop == "P15") { // the machine stops: what was not synchronised is lost, in any order
    cf.track = true; cf.powerMode = (int)r.below(4); g.small = r.chance(0.6); g.big = r.chance(0.1); cf.nproc = r.chance(0.3) ? 2 : 1; if (cf.nproc > 1) { cf.turn = 0.5; cf.preempt = r.chance(0.5) ? 0.01 : 0; cf.maxSteps = 3000000; } if (r.chance(0.4)) { cf.hash = 16 << r.below(3); cf.bin = (int)r.range(0, 1) * (int)r.range(60, 200); } cf.reclaim = r.chance(0.3) ? 1 : 0; cf.defMode = 2;
    std::vector<std::vector<std::string>> own((size_t)cf.nproc); for (int p = 0; p < cf.nproc; p++) { int n = (int)r.range(2, 10); for (int i = 0; i < n; i++) own[p].push_back(g.newPath(g.pick({5, 2, 4, 3, 1, 1, 2, 3, 3, 2}), i, "P" + std::to_string(p) + "B")); } for (auto &o : own) for (auto &x : o) g.pool.push_back(x); std::vector<std::string> all = g.pool;
    if (cf.nproc > 1 || r.chance(0.9)) g.add(OP_OPEN, 0); int n0 = (int)r.range(0, 10), ph = 0; for (int i = 0; i < n0; i++) g.store(0, all[r.below(all.size())]); if (cf.nproc > 1 || r.chance(0.5)) ph++; int rounds = (int)r.range(1, 4);
    for (int k = 0; k < rounds; k++) { int w = (int)r.below((u64)cf.nproc); for (int p = 0; p < cf.nproc; p++) { g.pool = own[p]; int n = (int)r.range(1, 10); size_t at = g.c.ops.size(); for (int i = 0; i < n; i++) step(g, 0, p, ph, {50, 8, 10, 3, 4, 4, 1, 3, 0, 0, 0, 1, 0, 0, 0, 0, 0}); if (p == w && g.c.ops.size() > at) { Op &o = g.c.ops[at + r.below(g.c.ops.size() - at)]; int q = (int)r.below(3); o.arm = q == 0 ? F_POWER_TORN : F_POWER; o.armCount = (i64)r.below((q ? 20 : 8) << (r.chance(0.3) ? r.below(4) : 0)); o.armArg = r.next() >> 2; if (r.chance(0.2)) { o.arm = 0; int id = o.id; (void)id; g.add(OP_POWER, 0, "", p, ph).a[0] = (i64)(r.next() >> 2); } } } ph++; g.pool = all; }
    for (auto &o : g.c.ops) if (o.mode == 0) o.mode = 2; g.audit(0, ph); for (auto &o : g.c.ops) if (o.mode == 0) o.mode = 2; }
  else if (prop == "P13") { // handles in every access mode, files without write permission
    cf.nproc = r.chance(0.5) ? 1 : (int)r.range(2, 3); if (cf.nproc > 1) { static const double tp[] = {0.2, 0.5, 0.9}, pr[] = {0, 0.003, 0.03}; cf.turn = tp[r.below(3)]; cf.preempt = pr[r.below(3)]; cf.maxSteps = 3000000; } cf.nfiles = r.chance(0.3) ? 2 : 1; g.small = r.chance(0.6); if (r.chance(0.3)) cf.ro = (int)r.range(1, cf.nfiles == 2 ? 3 : 1);
    std::vector<std::vector<std::string>> own((size_t)cf.nproc); for (int p = 0; p < cf.nproc; p++) { int n = (int)r.range(1, 5); static const std::initializer_list<int> kw = {5, 2, 4, 3, 1, 1, 2, 3, 3, 2}; for (int i = 0; i < n; i++) own[p].push_back(g.newPath(g.pick(kw), i, "P" + std::to_string(p) + "B")); }
    for (auto &o : own) for (auto &x : o) g.pool.push_back(x); std::vector<std::string> all = g.pool;
    if (cf.nproc > 1 || r.chance(0.95)) { for (int f = 0; f < cf.nfiles; f++) { int n0 = (int)r.range(0, 8); Op &o = g.add(OP_OPEN, f); o.mode = r.chance(0.5) ? 2 : 0; for (int i = 0; i < n0; i++) g.store(f, all[r.below(all.size())]); if (r.chance(0.3)) g.add(OP_DELETE, f, g.recPath()); g.add(OP_CLOSE, f); } } else cf.ro = 0;
    static const int md[] = {1, 1, 1, 0, 2, 3, 4}; for (int p = 0; p < cf.nproc; p++) { int ns = (int)r.range(1, 3); for (int s = 0; s < ns; s++) {
      int m = md[r.below(7)]; size_t at = g.c.ops.size(); g.add(OP_OPEN, 0, "", p, 1); int n = (int)r.range(2, 10); bool two = cf.nfiles == 2 && p == 0;
      for (int i = 0; i < n; i++) { if (two && r.chance(0.25)) { g.pool = own[p]; if (cf.nproc == 1 && r.chance(0.2)) { g.add(OP_COPYFILE, r.below(2), "", p, 1); } else { Op &o = g.add(OP_COPYREC, r.below(2), g.recPath(), p, 1); o.path2 = o.path; } g.c.ops.back().file2 = 1 - g.c.ops.back().file; g.pool = all; continue; }
        if (r.chance(0.65)) { g.pool = own[p]; step(g, 0, p, 1, {40, 0, 15, 6, 6, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, cf.nproc > 1 ? 0 : 2, cf.nproc > 1 ? 0 : 2}); g.pool = all; } else step(g, 0, p, 1, {0, 40, 0, 0, 0, 0, 8, 0, 1, 3, 3, 8, 1, 2, 2, 0, 0, 1}); }
      g.add(OP_CLOSE, 0, "", p, 1); for (size_t k = at; k < g.c.ops.size(); k++) if (g.c.ops[k].file == 0) g.c.ops[k].mode = m; } }
    g.audit(0, 2); if (cf.nfiles == 2) g.audit(1, 2); if (cf.ro) for (auto &o : g.c.ops) if (o.phase == 2 && (cf.ro >> o.file & 1)) o.mode = 1; }
  else if (prop == "P16" || prop == "P17") { // system calls (P17: allocations) fail once or for the rest of an operation
    bool mem = prop == "P17"; if (mem) g.capiP = 0.15;
    g.small = r.chance(0.6); g.big = r.chance(0.1); if (r.chance(0.4)) { cf.hash = 16 << r.below(3); cf.bin = (int)r.range(0, 1) * (int)r.range(60, 200); } cf.reclaim = r.chance(0.3) ? 1 : 0; cf.defMode = r.chance(0.5) ? 2 : 0;
    if (mem) g.mkPool((int)r.range(2, 8), {4, 2, 3, 3, 1, 1, 2, 2, 7, 5}); else g.mkPool((int)r.range(2, 10), {5, 2, 4, 3, 1, 1, 2, 3, 3, 2}); if (r.chance(0.9)) { Op &o = g.add(OP_OPEN, 0); o.mode = cf.defMode; } int n0 = (int)r.range(0, 10); for (int i = 0; i < n0; i++) g.store(0, g.pool[r.below(g.pool.size())]);
    static const int fk[] = {F_W_EIO, F_W_ENOSPC, F_W_SHORT, F_R_EIO, F_R_SHORT, F_FSYNC_EIO, F_OPEN_ERR, F_CLOSE_EIO, F_LOCK_ERR, F_EINTR, F_DISKFULL, F_STAT_EIO}; int ph = 0; u64 mask = r.next() | r.next();
    int n = (int)r.range(3, 24); double pf = 0.05 + 0.3 * r.unit(); for (int i = 0; i < n; i++) { size_t at = g.c.ops.size(); if (mem && r.chance(0.2)) g.read(0, g.pool[r.below(g.pool.size())], 0, ph); else step(g, 0, 0, ph, {50, 25, 10, 4, 4, 4, 4, 6, 1, 1, 1, 2, 0, 1, 1, 0, 1}); if (r.chance(0.05)) ph++; if (g.c.ops.size() > at && r.chance(pf) && !(g.c.ops.back().code == OP_CATALOG && g.c.ops.back().a[0] == 1)) { Op &o = g.c.ops.back(); int k = mem ? (int)F_MALLOC : fk[r.below(12)]; if (!mem && !(mask >> k & 1)) k = F_W_EIO; o.arm = k; o.armCount = (i64)r.below((o.code == OP_READ || k == F_OPEN_ERR || k == F_CLOSE_EIO || k == F_FSYNC_EIO ? 4 : 12) << (r.chance(mem ? 0.6 : 0.3) ? r.below(4) : 0)); if (mem && o.code == OP_READ && r.chance(0.6)) o.armCount = (i64)r.below(20); o.armArg = (r.next() >> 1) | (r.chance(0.4) ? 1ULL << 63 : 0); double z = r.unit(); if (o.code == OP_CLOSE || o.code == OP_EXIT) ; else if (z < 0.3) g.add(OP_CLOSE, 0, "", 0, ph); else if (z < 0.7) { g.add(OP_EXIT, 0, "", 0, ph); ph++; } } }
    for (auto &o : g.c.ops) { if (o.mode == 0) o.mode = cf.defMode; if (mem && o.code == OP_READ && kindOfPath(o.path) == KD_PD) o.capi = 0; } g.audit(0, ph + 1); }
  else if (prop == "P18") { // squeezes and file copies are killed or hit by errors; the next program puts the squeezed copy in place when the original is not whole
    cf.noprobe |= 16; g.small = r.chance(0.5); g.big = r.chance(0.2); if (r.chance(0.5)) { cf.hash = 16 << r.below(3); cf.bin = (int)r.range(0, 1) * (int)r.range(60, 200); } cf.reclaim = r.chance(0.3) ? (int)r.range(2, 3) : 0; cf.defMode = r.chance(0.3) ? (int)r.range(2, 3) : 0; cf.nfiles = r.chance(0.35) ? 2 : 1;
    g.mkPool((int)r.range(1, 20), {5, 2, 4, 3, 1, 1, 2, 3, 3, 2}); int rounds = (int)r.range(1, 3), ph = 0;
    static const int fk[] = {F_KILL, F_KILL, F_KILL, F_KILL_AFTER, F_TORN_KILL, F_W_EIO, F_W_ENOSPC, F_W_SHORT, F_R_EIO, F_R_SHORT, F_FSYNC_EIO, F_OPEN_ERR, F_CLOSE_EIO, F_LOCK_ERR, F_EINTR, F_DISKFULL, F_STAT_EIO, F_TRUNC_EIO, F_RENAME_EIO, F_UNLINK_EIO, F_MALLOC};
    for (int k = 0; k < rounds; k++) { g.add(OP_OPEN, 0, "", 0, ph); int n = (int)r.range(2, 30); for (int i = 0; i < n; i++) step(g, 0, 0, ph, {60, 3, 18, 2, 4, 3, 0, 2, 1}); if (cf.nfiles == 2 && r.chance(0.5)) { int m = (int)r.range(1, 6); for (int i = 0; i < m; i++) step(g, 1, 0, ph, {60, 3, 18}); } if (r.chance(0.5)) { g.add(OP_EXIT, 0, "", 0, ph); ph++; }
      bool copy = cf.nfiles == 2 && r.chance(0.5), capi = !copy && r.chance(0.3); if (capi) g.add(OP_CLOSE, 0, "", 0, ph); else g.add(OP_OPEN, 0, "", 0, ph); Op &o = g.add(copy ? OP_COPYFILE : OP_SQUEEZE, 0, "", 0, ph); o.capi = capi; o.a[0] = r.chance(0.15); o.a[1] = r.below(2); if (copy) o.file2 = 1;
      if (r.chance(0.85)) { int f = fk[r.below(21)]; o.arm = f; bool few = f == F_OPEN_ERR || f == F_CLOSE_EIO || f == F_FSYNC_EIO || f == F_TRUNC_EIO || f == F_RENAME_EIO || f == F_UNLINK_EIO || f == F_STAT_EIO; o.armCount = (i64)r.below(few ? 5 : 16 << r.below(6)); o.armArg = (r.next() >> 1) | (r.chance(0.4) ? 1ULL << 63 : 0); }
      if (r.chance(0.3)) { int m = (int)r.range(1, 5); for (int i = 0; i < m; i++) step(g, 0, 0, ph, {0, 10, 0, 0, 0, 0, 2}); }
      g.add(OP_EXIT, 0, "", 0, ph); ph++; g.add(OP_RECOVER, 0, "", 0, ph); if (r.chance(0.5)) { g.audit(0, ph); ph++; } }
    for (auto &o : g.c.ops) if (o.mode == 0) o.mode = cf.defMode; g.audit(0, ph + 1); if (cf.nfiles == 2) g.audit(1, ph + 1); }
  else if (prop == "P19") { // the same operations again and again, on one file or on a fresh file each time
    cf.leak = 1; g.small = r.chance(0.7); if (r.chance(0.4)) { cf.hash = 16 << r.below(3); cf.bin = (int)r.range(0, 1) * (int)r.range(60, 200); } bool fresh = r.chance(0.5); cf.nfiles = 4; bool wild = r.chance(0.5); if (wild) { cf.noprobe |= 4; g.capiP = 0.4; } cf.defMode = r.chance(0.3) ? 2 : 0; g.mkPool((int)r.range(1, 5), {4, 2, 4, 3, 2, 2, 2, 3, 3, 3}); if (r.chance(0.3)) g.locSiblings();
    if (!fresh) { int n0 = (int)r.range(0, 6); for (int i = 0; i < n0; i++) g.store(0, g.pool[r.below(g.pool.size())]); g.add(OP_CLOSE, 0); }
    size_t at = g.c.ops.size(); int n = (int)r.range(1, 8); g.add(OP_OPEN, 0, "", 0, 1); for (int i = 0; i < n; i++) { if (wild && r.chance(0.45)) { const std::string q = g.recPath(), w = g.recPath(); int kd = (int)r.below(10);
          switch (r.below(14)) { case 0: case 1: { Op &o = g.read(0, q, 0, 1); o.code = OP_READAS; o.sp.kind = kindOfPath(w); break; } case 2: g.store(0, w, 0, 1).path = q; break; case 12: case 13: { Op &o = g.store(0, q, 0, 1); o.sp.flags ^= (int)r.below(16); break; } case 3: g.add(OP_ALIASADD, 0, q, 0, 1).path2 = "/AL/" + std::to_string(r.below(9)) + "/////"; break; case 4: g.add(OP_ALIASRM, 0, "/AL/" + std::to_string(r.below(9)) + "/////", 0, 1); break;
            case 5: case 6: if (!fresh) { Op &o = g.add(r.chance(0.5) ? OP_COPYREC : OP_COPYFILE, 0, q, 0, 1); o.path2 = r.chance(0.5) ? q : w; o.file2 = 3; if (o.code == OP_COPYFILE) o.path = o.path2 = ""; Op &z = g.add(OP_CLOSE, 3, "", 0, 1); z.slot = 3; } break; case 7: g.add(OP_TXTFILE, 0, q, 0, 1); break; case 8: { Op &o = g.add(OP_OPEN, 0, "", 0, 1); o.slot = 4; o.mode = (int)r.below(5); Op &z = g.add(OP_CLOSE, 0, "", 0, 1); z.slot = 4; break; }
            case 9: g.add(OP_TSRANGE, 0, r.chance(0.5) ? q : g.blockPath(q), 0, 1).a[0] = r.below(2); break; case 10: { Op &o = g.read(0, q, 0, 1); o.a[2] = r.below(3); o.sp.n = 1; o.capi = 1; break; } default: { Op &o = g.add(OP_READ, 0, "/ZZ/NOT/THERE/" + std::to_string(kd) + "///", 0, 1); o.code = OP_READAS; o.sp.kind = kd; o.capi = r.chance(0.3); o.sp.n = 10; o.a[2] = 2; } } continue; }
        if (r.chance(0.06)) { Op &o = g.add(OP_WHATSET, 0, "", 0, 1); o.a[0] = r.below(2); } else if (r.chance(0.06)) g.add(OP_WHATCHG, 0, "", 0, 1); else step(g, 0, 0, 1, {30, 30, 8, 3, 5, 5, 8, 0, 0, 4, 4, 4, 3, 2, 2, 3, 2, 4}); } g.add(OP_CLOSE, 0, "", 0, 1); for (size_t k = at; k < g.c.ops.size(); k++) g.c.ops[k].phase = 1;
    std::vector<Op> cyc(g.c.ops.begin() + (long)at, g.c.ops.end()); for (int c = 1; c < (fresh ? 4 : 5); c++) for (auto &x : cyc) { Op &o = g.add(x.code, fresh ? c : 0, x.path, 0, 1); int id = o.id, f = o.file; o = x; o.id = id; o.file = x.file == 3 && !fresh ? 3 : f; }
    for (auto &o : g.c.ops) if (o.mode == 0) o.mode = cf.defMode; }
  else if (prop == "P09") { // last write times and change queries, some with a clock that jumps forward
    bool multi = r.chance(0.5); g.small = r.chance(0.7); static const std::initializer_list<int> kw = {5, 2, 4, 3, 1, 1, 2, 4, 3, 2}; cf.nproc = multi ? (int)r.range(2, 3) : 1; if (multi) { static const double tp[] = {0.2, 0.5, 0.9}, pr[] = {0, 0.003, 0.03}; cf.turn = tp[r.below(3)]; cf.preempt = pr[r.below(3)]; cf.maxSteps = 3000000; } else if (r.chance(0.2)) cf.nfiles = 2;
    std::vector<std::vector<std::string>> own((size_t)cf.nproc); for (int p = 0; p < cf.nproc; p++) { int n = (int)r.range(1, multi ? 5 : 9); for (int i = 0; i < n; i++) own[p].push_back(g.newPath(g.pick(kw), i, "P" + std::to_string(p) + "B")); }
    for (auto &o : own) for (auto &x : o) g.pool.push_back(x); if (!multi && r.chance(0.3)) { g.collide(1, {8, 1, 2, 1, 0, 0, 0, 2, 0, 0}); own[0] = g.pool; } std::vector<std::string> all = g.pool; int md = r.chance(0.5) ? 2 : 0;
    { Op &o = g.add(OP_OPEN, 0); o.mode = md; } int n0 = (int)r.range(0, 10); for (int i = 0; i < n0; i++) g.store(0, all[r.below(all.size())]); if (r.chance(0.3)) g.add(OP_DELETE, 0, g.recPath());
    for (int p = 0; p < cf.nproc; p++) { int n = (int)r.range(6, 40); size_t at = g.c.ops.size(); g.add(OP_OPEN, 0, "", p, 1);
      for (int i = 0; i < n; i++) { int k = g.pick({12, 20, 30, 14, 8, 8, 2}); int f = cf.nfiles == 2 && r.chance(0.25) ? 1 : 0;
        if (k == 0) { Op &o = g.add(OP_WHATSET, f, "", p, 1); o.a[0] = r.chance(0.5); o.a[1] = r.chance(0.4); if (r.chance(0.3)) { static const char *w2[] = {"/*/*/*/*/*/*/", "/TX*/*/*/*/*/*/", "/*/P0B1*/*/*/*/*/", "/AR*/*/*/*/*/*/", "/*/*/FLOW/*/*/*/"}; o.path = w2[r.below(5)]; } }
        else if (k == 1) g.add(OP_WHATCHG, f, "", p, 1);
        else if (k == 2) { g.pool = own[p]; size_t was = g.c.ops.size(); std::string q = g.pool[r.below(g.pool.size())]; if (r.chance(0.25)) for (size_t j = was; j-- > 0;) if (g.c.ops[j].code == OP_STORE && g.c.ops[j].path == q && g.c.ops[j].file == f) { Op y = g.c.ops[j]; Op &o = g.add(OP_STORE, f, q, p, 1); o.sp = y.sp; for (int z = 0; z < 6; z++) o.a[z] = y.a[z]; o.capi = y.capi; break; } if (g.c.ops.size() == was) g.store(f, q, p, 1); g.pool = all; }
        else if (k == 3) { g.pool = own[p]; if (cf.nfiles == 2 && r.chance(0.4)) { Op &o = g.add(OP_COPYREC, f, g.recPath(), p, 1); o.path2 = o.path; o.file2 = 1 - f; } else step(g, f, p, 1, {0, 0, 18, 6, 6, 6, 0, 3, 0, 0, 0, 0, 0, 0, 0, multi ? 0 : 2, multi ? 0 : 1}); g.pool = all; }
        else if (k == 4) step(g, f, p, 1, {0, 20, 0, 0, 0, 0, 8, 0, 0, 8, 0, 0, 8, 0, 0, 0, 0, 0}); else if (k == 5) { if (r.chance(0.4)) g.add(OP_LWT, f, "", p, 1); else g.add(OP_SLEEP, 0, "", p, 1).a[0] = (i64)r.below(r.chance(0.5) ? 3000 : 3000000); } else { Op &o = g.add(OP_SLEEP, 0, "", p, 1); o.a[0] = 1500; o.arm = F_CLOCK_JUMP; o.armArg = (r.next() >> 2) | (1ULL << 62); }
        if (r.chance(0.02) && g.c.ops.size()) { Op &o = g.c.ops.back(); if (o.arm == 0) { o.arm = r.chance(0.5) ? F_STALL : F_CLOCK_JUMP; o.armCount = (i64)r.below(6); o.armArg = o.arm == F_STALL ? r.below(8000000) : (r.next() >> 2) | (1ULL << 62); } } }
      g.add(OP_WHATCHG, 0, "", p, 1); g.add(OP_CLOSE, 0, "", p, 1); for (size_t k = at; k < g.c.ops.size(); k++) g.c.ops[k].mode = md; }
    g.audit(0, 2); }
  else if (prop == "P20") { // the exported C interface, mixed with the library's own functions on the same records
    cf.noprobe |= 8; g.capiP = 0.65; g.small = r.chance(0.4); int f = r.chance(0.3) ? 1 : 0; if (f) g.mkPool((int)r.range(1, 3), {0, 0, 0, 0, 0, 0, 0, 0, 3, 2}); else g.mkPool((int)r.range(2, 9), {4, 1, 4, 4, 4, 0, 3, 1, 3, 3}); int ss = (int)r.range(1, 3);
    for (int k = 0; k < ss; k++) { g.add(OP_OPEN, 0).capi = r.chance(0.7); int n = (int)r.range(3, 20); for (int i = 0; i < n; i++) step(g, 0, 0, 0, {46, 40, 5, 2, 2, 2, 8, 1, 1, 1, 4, 2, 0, 3, 1, 0, 0, f ? 6 : 3}); g.add(OP_CLOSE, 0); }
    if (r.chance(0.1)) g.add(OP_SQUEEZE, 0).capi = true; g.audit(0, 1); for (auto &o : g.c.ops) if (o.phase == 1 && o.code == OP_READ) o.capi = r.chance(0.5); }
  else if (prop == "P21") { // a file is damaged, or replaced by something else, between two sessions
    cf.noprobe |= 4; cf.maxSteps = 3000000; g.capiP = 0.15; g.small = r.chance(0.8); if (r.chance(0.6)) { cf.hash = 16 << r.below(3); cf.bin = (int)r.range(0, 1) * (int)r.range(60, 200); } cf.reclaim = r.chance(0.3) ? (int)r.range(2, 3) : 0; g.mkPool((int)r.range(1, 10), {4, 2, 4, 4, 2, 2, 2, 1, 3, 3}); int n = (int)r.range(1, 25); for (int i = 0; i < n; i++) step(g, 0, 0, 0, {50, 0, 8, 3, 4, 2, 0, 4});
    int ph = 1, m = (int)r.range(1, 3); for (int k = 0; k < m; k++, ph++) { Op &o = g.add(OP_CORRUPT, 0, "", 0, ph); o.a[0] = r.below(13); o.a[1] = r.below(1 << 30); o.a[2] = r.below(3); if (r.chance(0.3)) g.add(OP_OPEN, 0, "", 0, ph).capi = r.chance(0.5); bool wr = r.chance(0.5); int q = (int)r.range(1, 12); for (int i = 0; i < q; i++) if (wr) step(g, 0, 0, ph, {20, 30, 6, 3, 4, 3, 10, 0, 0, 3, 4, 3, 3, 2, 6, 1, 3, 5}); else step(g, 0, 0, ph, {0, 30, 0, 0, 0, 0, 10, 0, 0, 3, 4, 3, 3, 2, 8, 0, 0, 5}); if (r.chance(0.5)) g.audit(0, ph); g.add(OP_CLOSE, 0, "", 0, ph); } }
  else { g.mkPool(3, {1}); for (int i = 0; i < 10; i++) step(g, 0, 0, 0, {1, 1}); g.audit(0, 1); }
  return g.c;
}
