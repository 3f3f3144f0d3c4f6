// Execution of one operation against the guest library, content generation and canonical forms.
#include "host.hpp"
#include <dlfcn.h>
#include <math.h>
#include <limits.h>
const char *kindName[] = {"text", "table", "array", "paired", "grid", "tin", "location", "raw", "tsreg", "tsirr"};
const char *opName[] = {"open", "close", "store", "read", "delete", "undelete", "undelall", "rename", "dup", "copyrec", "copyfile", "squeeze", "catalog", "checkfile",
  "exists", "dtype", "aliasadd", "aliasrm", "setfile", "whatset", "whatchg", "lwt", "count", "sleep", "power", "exit", "audit", "basics", "tsrange", "txtfile", "corrupt", "fileinfo", "readas", "recover"};
void loadApi(Proc *p) {
  Api *a = new Api; p->api = a;
#define X(n) a->n = (decltype(a->n))dlsym(p->dl, #n); if (!a->n) { fprintf(stderr, "symbol %s missing\n", #n); exit(2); }
  API_LIST(X)
#undef X
}
std::string fileName(int f) { static const char *n[] = {"/d/a.dss", "/d/b.dss", "/d/c.dss", "/d/e.dss"}; return n[f & 3]; }
u64 hv(u64 v, u64 i) { return mix64(v * 0x9e3779b97f4a7c15ULL + 17, i); }
std::string upper(const std::string &s) { std::string r = s; for (auto &c : r) c = toupper(c); return r; }
std::string part(const std::string &path, int k) {
  size_t i = 1; for (int j = 0; j < k; j++) { size_t q = path.find('/', i); if (q == std::string::npos) return ""; i = q + 1; }
  size_t q = path.find('/', i); return q == std::string::npos ? path.substr(i) : path.substr(i, q - i);
}
std::string withPart(const std::string &path, int k, const std::string &v) {
  std::string r = "/"; for (int j = 0; j < 6; j++) r += (j == k ? v : part(path, j)) + "/"; return r;
}
int kindOfPath(const std::string &path) {
  if (upper(part(path, 2)) == "LOCATION INFO") return KD_LOC;
  static const char *pre[] = {"TX", "TB", "AR", "PD", "GR", "TN", "LC", "RW", "SR", "SI"}; std::string a = upper(part(path, 0)).substr(0, 2);
  for (int i = 0; i < KD_COUNT; i++) if (a == pre[i]) return i;
  return KD_RAW;
}
std::string keyOf(const std::string &path) {
  if (kindOfPath(path) == KD_LOC) return "/" + upper(part(path, 0)) + "/" + upper(part(path, 1)) + "/LOCATION INFO////";
  return upper(path);
}
std::string tsKey(const std::string &path) { return upper(withPart(path, 3, "")); }
// ---- calendar
static i64 daysCivil(int y, int m, int d) { y -= m <= 2; i64 era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (i64)doe - 719468 - 10957; }
static void civil(i64 z, int &y, int &m, int &d) { z += 719468 + 10957; i64 era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; i64 yy = (i64)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp + (mp < 10 ? 3 : -9); y = (int)(yy + (m <= 2)); }
static const int JUL2000 = 36525;
static i64 fdiv(i64 a, i64 b) { i64 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static std::string dateStr(i64 day) { int y, m, d; civil(day, y, m, d); static const char *mn[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}; char b[40]; snprintf(b, sizeof b, "%02d%s%04d", d, mn[m - 1], y); return b; }
static void hecTime(i64 t, std::string &date, std::string &time) { // 00:00 is written as 24:00 of the day before
  i64 day = fdiv(t, 86400), s = t - day * 86400; if (s == 0) { day--; s = 86400; } char b[40];
  if (s % 60) snprintf(b, sizeof b, "%02d:%02d:%02d", (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60)); else snprintf(b, sizeof b, "%02d%02d", (int)(s / 3600), (int)(s / 60 % 60)); date = dateStr(day); time = b;
}
i64 tsInterval(const std::string &path) {
  std::string e = upper(part(path, 4)); if (e.compare(0, 3, "IR-") == 0) return 0; if (e == "1MON" || e == "1MONTH") return -1;
  i64 n = atoi(e.c_str()); if (e.find("SECOND") != std::string::npos) return n; if (e.find("MIN") != std::string::npos) return n * 60; if (e.find("HOUR") != std::string::npos) return n * 3600; if (e.find("DAY") != std::string::npos) return n * 86400; return 3600;
}
i64 tsSlotTime(i64 iv, i64 k) { if (iv > 0) return k * iv; i64 mth = 24000 + k + 1; return daysCivil((int)(mth / 12), (int)(mth % 12) + 1, 1) * 86400; }
i64 tsSlotIndex(i64 iv, i64 t, bool up) { if (iv > 0) { i64 q = fdiv(t, iv); return up && q * iv != t ? q + 1 : q; } i64 k = t / 86400 / 31 - 3; while (tsSlotTime(iv, k) < t) k++; if (!up && tsSlotTime(iv, k) != t) k--; return k; }
std::string tsDPart(const std::string &path, i64 t) {
  i64 day = fdiv(t - 1, 86400); int y, m, d; civil(day, y, m, d); std::string e = upper(part(path, 4)); int blk; i64 iv = tsInterval(path);
  if (iv == 0) blk = e == "IR-DAY" ? 0 : e == "IR-MONTH" ? 1 : e == "IR-YEAR" ? 2 : e == "IR-DECADE" ? 3 : 4; else if (iv < 0) blk = 3; else blk = iv < 900 ? 0 : iv < 86400 ? 1 : iv < 604800 ? 2 : 3;
  if (blk >= 1) d = 1; if (blk >= 2) m = 1; if (blk >= 3) y = y / 10 * 10; if (blk >= 4) y = y / 100 * 100; return dateStr(daysCivil(y, m, d));
}
static bool odd() { return CUR && (CUR->cfg.noprobe & 32); } // unusual but legal content
static double tsValue(u64 v, i64 i, bool dbl) { u64 h = hv(v, (u64)i); if (odd() && (h >> 40) % 24 == 0) { static const float f[] = {0.0f, -0.0f, INFINITY, -INFINITY, 1e-42f, -1e-40f, 3.402823466e+38F, -3.3e38f, 1.17549435e-38f, 16777217.0f, -1.0f, 3e-20f}; static const double x[] = {0.0, -0.0, INFINITY, -INFINITY, 1e-310, 1.0 / 3, 9007199254740993.0, 1e300, 3.402823466e+38, 4.9e-324, -1e-300, 123456.789e-7}; return dbl ? x[(h >> 50) % 12] : (double)f[(h >> 50) % 12]; } if (dbl) return (double)(i64)(h % 2000000000001ULL - 1000000000000LL) / 1048576.0 + 1e-7 * (h % 97); return ((i64)(h % 400001) - 200000) / 16.0; }
std::vector<TsVal> tsValues(const Op &op) {
  std::vector<TsVal> r; const Spec &s = op.sp; i64 iv = tsInterval(op.path); bool dbl = s.flags & FL_DBL; i64 t = op.a[0]; i64 k0 = iv ? op.a[0] : 0; int run = 0; double last = 0;
  for (int i = 0; i < s.n; i++) {
    TsVal x; x.t = iv ? tsSlotTime(iv, k0 + i) : t; u64 h = hv(s.v + 7777, (u64)i);
    if (!iv) t += 60 * (1 + (i64)(h % (u64)(s.n2 > 0 ? s.n2 : 1)));
    x.miss = (s.flags & FL_MISS) && (s.n3 > 1 ? (hv(s.v + 5, (u64)i / 7) % (u64)s.n3) == 0 : s.n3 == 1);
    if ((s.flags & FL_REP) && run > 0) { x.v = last; run--; } else { x.v = tsValue(s.v, i, dbl); if (s.flags & FL_REP) run = (int)(h >> 20) % 12; } last = x.v;
    x.q = (s.flags & FL_QUAL) ? (int)((h >> 8) % 1000 + 1) : 0; x.n = (s.flags & FL_INOTE) ? (int)((h >> 18) % 5000 + 1) : 0;
    if (s.flags & FL_CNOTE) { int L = (int)((h >> 30) % 9); if (L) x.c = "n" + std::string((size_t)L, (char)('a' + (h >> 34) % 26)); }
    if (x.miss) { x.v = 0; }
    r.push_back(x);
  }
  return r;
}
// ---- record content
static std::string bytesOf(const void *p, size_t n) { Proc *me = K.me(); if (me && n > me->arena.room(p)) return "(length beyond the returned buffer)"; return std::string((const char *)p, n); }
static std::string gText(u64 v, int n) { std::string s; s.reserve(n); int md = odd() ? (int)(hv(v, 999) % 6) : 0;
  if (md) { for (int i = 0; (int)s.size() < n; i++) { u64 h = hv(v, i); int left = n - (int)s.size(); if (md == 1) s += h % 3 ? ' ' : (char)('a' + h / 3 % 26); else if (md == 2 && left >= 3 && h % 4 == 0) { static const char *u[] = {"\xC3\xA9", "\xC2\xB0", "\xE2\x82\xAC"}; s += u[h / 4 % 3]; } else if (md == 3) s += "\t\r\n\x01 \x7f/,"[h % 8]; else if (md == 4) s += ' '; else s += (char)(32 + h % 95); } return s; } for (int i = 0; i < n; i++) { u64 h = hv(v, i); s += h % 61 == 0 && i + 1 < n ? '\n' : (char)(33 + h % 90); } return s; }
static std::string gStr(u64 v, int tag, int maxLen) { u64 h = hv(v, 1000003u + tag); int n = 1 + (int)(h % maxLen); std::string s; u64 md = odd() ? hv(v, 2000003u + tag) : 7;
  switch (md % 9) { case 0: return s; case 1: case 2: case 3: for (int i = 0; i < n; i++) s += (char)(32 + hv(v, 50000u + tag * 1000 + i) % 95); if (md % 9 == 1) s.back() = ' '; if (md % 9 == 2) s[0] = ' '; return s; case 5: for (int i = 0; (int)s.size() + 3 < n; i++) { static const char *u[] = {"\xC3\xA9", "\xC2\xB0", "m", " ", "\xE2\x82\xAC"}; s += u[hv(v, 50000u + tag * 1000 + i) % 5]; } s += "\xC2\xB3"; return s; case 4: for (int i = 0; i < n; i++) s += (char)('a' + hv(v, 50000u + tag * 1000 + i) % 26); return s; } for (int i = 0; i < n; i++) s += (char)('A' + hv(v, 50000u + tag * 1000 + i) % 26); return s; }
static std::string gInts(u64 v, int n) { std::string s; s.resize((size_t)n * 4); int *p = (int *)&s[0]; for (int i = 0; i < n; i++) p[i] = (int)(hv(v, i) >> 9); if (odd()) { static const int f[] = {0, -1, INT_MIN, INT_MAX, -97531, -97532, -97534, -97536, -97538, -97539, -97537, -97535}; for (int i = 0; i < n; i++) { u64 h = hv(v + 31, i); if (h % 11 == 0) { p[i] = f[(h >> 8) % 12]; if (h & 0x1000000 && i + 1 < n) p[i + 1] = p[i] < 0 && p[i] != -97534 ? -1 : 0, i++; } } } return s; }
static std::string gFloats(u64 v, int n) { std::string s; s.resize((size_t)n * 4); float *p = (float *)&s[0]; for (int i = 0; i < n; i++) p[i] = (float)((i64)(hv(v, i) % 400001) - 200000) / 16.0f; if (odd()) { static const unsigned f[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 1, 0xff7fffffu, 0x7f7fffffu, 0xc4614000u, 0xc4618000u}; unsigned *q = (unsigned *)p; for (int i = 0; i < n; i++) { u64 h = hv(v + 33, i); if (h % 13 == 0) q[i] = f[(h >> 8) % 10]; } } return s; }
static std::string gDoubles(u64 v, int n) { std::string s; s.resize((size_t)n * 8); double *p = (double *)&s[0]; for (int i = 0; i < n; i++) p[i] = tsValue(v, i, true); if (odd()) { i64 *q = (i64 *)p; for (int i = 0; i < n; i++) { u64 h = hv(v + 35, i); if (h % 17 == 0) q[i] = -97528 - (i64)((h >> 8) % 16), q[i] -= q[i] == -97534; else if (h % 17 == 1) q[i] = 0x7ff8000000000000LL; } } return s; }
static std::string gI(int x) { return bytesOf(&x, 4); }
static std::string gF(float x) { return bytesOf(&x, 4); }
static std::string gD(double x) { return bytesOf(&x, 8); }
Rec genRec(const Spec &s, const std::string &path) {
  Rec r; u64 v = s.v; int n = s.n, n2 = s.n2, n3 = s.n3;
  switch (s.kind) {
  case KD_TEXT: r["text"] = gText(v, n < 1 ? 1 : n); break;
  case KD_TABLE: {
    int rows = n < 1 ? 1 : n, cols = n2 < 2 ? 2 : n2; std::string t; for (int i = 0; i < rows * cols; i++) { t += gStr(v, i, 12); t += '\0'; } r["table"] = t; r["rows"] = gI(rows); r["cols"] = gI(cols);
    if (s.flags & FL_LAB) { std::string l; for (int i = 0; i < cols; i++) { l += gStr(v, 9000 + i, 10); l += '\0'; } r["labels"] = l; } if (s.flags & FL_UH) r["uh"] = gInts(v + 3, 2 + 2 * (int)(v % 5)); break; }
  case KD_ARRAY: if (n > 0) r["ints"] = gInts(v, n); if (n2 > 0) r["floats"] = gFloats(v + 1, n2); if (n3 > 0) r["doubles"] = gDoubles(v + 2, n3); if (!n && !n2 && !n3) r["ints"] = gInts(v, 1); break;
  case KD_PD: {
    int no = n < 2 ? 2 : n, nc = n2 < 1 ? 1 : n2; bool d = s.flags & FL_DBL; r["no"] = gI(no); r["nc"] = gI(nc); r["ord"] = d ? gDoubles(v, no) : gFloats(v, no); r["val"] = d ? gDoubles(v + 1, no * nc) : gFloats(v + 1, no * nc);
    r["ui"] = gStr(v, 1, 8); r["ti"] = gStr(v, 2, 5); r["ud"] = gStr(v, 3, 8); r["td"] = gStr(v, 4, 5); if (s.flags & FL_LAB) { std::string l; for (int i = 0; i < nc; i++) { l += gStr(v, 10 + i, 12); l += '\0'; } r["labels"] = l; }
    if (s.flags & FL_UH) r["uh"] = gInts(v + 3, 2 + 2 * (int)(v % 5)); break; }
  case KD_GRID: {
    int x = n < 1 ? 1 : n, y = n2 < 1 ? 1 : n2, nr = n3 < 1 ? 1 : n3; r["x"] = gI(x); r["y"] = gI(y); r["nr"] = gI(nr); r["llx"] = gI((int)(hv(v, 1) % 5000)); r["lly"] = gI((int)(hv(v, 2) % 5000)); r["dt"] = gI((int)(hv(v, 3) % 4)); r["comp"] = gI(s.flags & FL_COMP ? 26 : 1);
    r["srst"] = gI((int)(hv(v, 4) % 4)); r["tzo"] = gI((int)(hv(v, 5) % 9) * 60); r["isi"] = gI((int)(hv(v, 6) & 1)); r["ist"] = gI((int)(hv(v, 7) & 1)); r["type"] = gI(typeCode(KD_GRID, path, s.flags)); r["units"] = gStr(v, 1, 9); r["src"] = gStr(v, 2, 12); r["srs"] = gStr(v, 3, 10); r["def"] = gStr(v, 4, 60); r["tz"] = gStr(v, 5, 5);
    r["cs"] = gF(100.5f + v % 50); r["x0"] = gF(1.25f * (v % 77)); r["y0"] = gF(-2.5f * (v % 31)); r["nul"] = gF(-901.0f); r["max"] = gF(200000.0f + v % 9); r["min"] = gF(-200000.0f - v % 9); r["mean"] = gF(3.5f + v % 13);
    r["rl"] = gFloats(v + 9, nr); r["rn"] = gInts(v + 10, nr); r["data"] = gFloats(v, x * y); if (s.flags & FL_REP) { float *f = (float *)&r["data"][0]; for (int i = 0; i < x * y; i++) if (hv(v, i) % 5) f[i] = -901.0f; } break; }
  case KD_TIN: {
    int np = n < 1 ? 1 : n, ct = n2 < 1 ? 1 : n2; r["np"] = gI(np); r["ct"] = gI(ct); r["srs"] = gStr(v, 1, 30); r["srsn"] = gStr(v, 2, 12); r["srsu"] = gStr(v, 3, 8); r["units"] = gStr(v, 4, 8); r["type"] = gStr(v, 5, 6); r["tz"] = gStr(v, 6, 5); r["srst"] = gI((int)(v % 5));
    r["lims"] = gFloats(v + 77, 8); r["xs"] = gFloats(v + 1, np); r["ys"] = gFloats(v + 2, np); r["zs"] = gFloats(v + 3, np); r["pt"] = gInts(v + 4, np); r["nc"] = gInts(v + 5, np); r["to"] = gInts(v + 6, ct); std::string l; for (int i = 0; i < np; i++) { l += gStr(v, 100 + i, 7); l += '\0'; } r["lab"] = l; break; }
  case KD_LOC: r["x"] = gD(tsValue(v, 1, true)); r["y"] = gD(tsValue(v, 2, true)); r["z"] = gD(tsValue(v, 3, true)); r["cs"] = gI(1 + (int)(v % 5)); r["cid"] = gI((int)(hv(v, 4) % 60) + 1); r["hu"] = gI((int)(hv(v, 5) % 4) + 1); r["hd"] = gI((int)(hv(v, 6) % 4) + 1); r["vu"] = gI((int)(hv(v, 7) % 2) + 1); r["vd"] = gI((int)(hv(v, 8) % 2) + 1); r["tz"] = gStr(v, 1, 20); r["sup"] = gText(v + 1, n < 1 ? 1 : n); break;
  case KD_RAW: { static const char *nm[] = {"ih", "h2", "uh", "v1", "v2", "v3"}; int c[6] = {(int)(v % 13), (int)(hv(v, 1) % 9), 2 * (int)(hv(v, 2) % 4), n, n2, n3}; if (!c[3] && !c[4] && !c[5]) c[3] = 1; for (int i = 0; i < 6; i++) if (c[i] > 0) r[nm[i]] = gInts(v + i, c[i]); break; }
  }
  return r;
}
static std::string canonOf(int kind, const Rec &r);
std::string canon(int kind, const Rec &r) {
  if (odd()) { static const char *trim[] = {"units", "src", "srs", "def", "tz", "srsn", "srsu", "type", "ui", "ti", "ud", "td", "sup"}; Rec c = r; for (auto k : trim) { auto it = c.find(k); if (it == c.end() || (kind == KD_GRID && !strcmp(k, "type"))) continue; while (!it->second.empty() && it->second.back() == ' ') it->second.pop_back(); it->second.erase(0, it->second.find_first_not_of(' ') == std::string::npos ? 0 : it->second.find_first_not_of(' ')); } return canonOf(kind, c); } // blanks around a name are not kept
  return canonOf(kind, r); }
static std::string canonOf(int kind, const Rec &r) {
  if (getenv("DSSDUMP")) { for (auto &e : r) { fprintf(stderr, "  %s[%zu]=", e.first.c_str(), e.second.size()); for (size_t i = 0; i < e.second.size() && i < 48; i++) { unsigned char c = (unsigned char)e.second[i]; if (c >= 32 && c < 127) fputc(c, stderr); else fprintf(stderr, "\\x%02x", c); } fputc('\n', stderr); } fputs(" --\n", stderr); }
  std::string s = std::string(kindName[kind]) + ":"; char b[96];
  for (auto &e : r) { if (e.second.size() == 4) { snprintf(b, sizeof b, " %s=%x", e.first.c_str(), *(const unsigned *)e.second.data()); } else snprintf(b, sizeof b, " %s[%zu]=%08x", e.first.c_str(), e.second.size(), (u32)hbytes(e.second.data(), e.second.size())); s += b; }
  return s;
}
std::string expectContent(const Spec &s, const std::string &path) { return canon(s.kind, genRec(s, path)); }
int typeCode(int kind, const std::string &path, int flags) {
  switch (kind) {
  case KD_TEXT: return DATA_TYPE_TEXT; case KD_TABLE: return DATA_TYPE_TEXT_TABLE; case KD_ARRAY: return DATA_TYPE_ARRAY; case KD_PD: return flags & FL_DBL ? DATA_TYPE_PDD : DATA_TYPE_PD;
  case KD_GRID: { std::string d = part(path, 3); return d.size() > 12 ? DATA_TYPE_UGT : DATA_TYPE_UG; } case KD_TIN: return DATA_TYPE_SPATIAL_TIN; case KD_LOC: return DATA_TYPE_LOCATION; case KD_RAW: return 10;
  case KD_TSR: return flags & FL_DBL ? DATA_TYPE_RTD : DATA_TYPE_RTS; case KD_TSI: return flags & FL_DBL ? DATA_TYPE_ITD : DATA_TYPE_ITS;
  }
  return 0;
}
// ---- guest helpers
struct GB { // guest-arena buffers released at scope end (canary-checked by the simulated allocator)
  Proc *p; std::vector<void *> v; GB(Proc *pp) : p(pp) {} ~GB() { for (auto x : v) p->arena.dealloc(x); }
  void *put(const std::string &s) { return put(s.data(), s.size()); }
  void *put(const void *d, size_t n) { void *x = p->arena.alloc(n ? n : 1, false); memcpy(x, d, n); v.push_back(x); return x; }
  char *str(const std::string &s) { return (char *)put(s.c_str(), s.size() + 1); }
  void *room(size_t n) { void *x = p->arena.alloc(n ? n : 1, true); v.push_back(x); return x; }
};
static char *leak(Proc *p, const std::string &s, bool z) { char *x = (char *)p->arena.alloc(s.size() + (z ? 1 : 0), true); memcpy(x, s.data(), s.size()); return x; }
static void *hnd[4][6];

static long long *H(Proc *p, int slot) { return (long long *)hnd[p->id][slot]; }
static std::string cs(const char *s) { return s ? std::string(s) : std::string(); }
static void put4(Rec &r, const char *k, const void *p, size_t n) { r[k] = p ? bytesOf(p, n * 4) : std::string(); if (r[k].empty()) r.erase(k); }
static int ival(const Rec &r, const char *k) { auto it = r.find(k); return it == r.end() ? 0 : *(const int *)it->second.data(); }
static float fval(const Rec &r, const char *k) { auto it = r.find(k); return it == r.end() ? 0 : *(const float *)it->second.data(); }
static double dval(const Rec &r, const char *k) { auto it = r.find(k); return it == r.end() ? 0 : *(const double *)it->second.data(); }
static bool has(const Rec &r, const char *k) { return r.count(k) != 0; }
static const std::string &sv(const Rec &r, const char *k) { static std::string e; auto it = r.find(k); return it == r.end() ? e : it->second; }

// units, type and user header of every series of a case
std::string tsUnits() { if (!odd()) return "CFS|INST-VAL"; u64 s = mix64(CUR->seed, 5); static const char *u[] = {"CFS", "M", "KCFS-HRS", "a b", "Deg F/day per 1000", "%", "ft", ""}; static const char *t[] = {"INST-VAL", "PER-AVER", "PER-CUM", "INST-CUM"}; return std::string(u[s % 8]) + "|" + t[s / 8 % 4]; }
// the D and E parts of a series are not changed by a rename, whatever the new name says
static std::string otherDE(const std::string &p, i64 how) { std::vector<std::string> q; std::string cur; for (char c : p.substr(1)) { if (c == '/') { q.push_back(cur); cur.clear(); } else cur += c; } if (q.size() != 6) return p; if (how == 1 || how == 3) q[3] = ""; if (how == 2 || how == 3) q[4] = ""; if (how == 4) q[3] = "01Feb1990"; if (how == 5) q[4] = "1Day"; std::string s = "/"; for (auto &x : q) s += x + "/"; return s; }
static std::string tsHeader() { if (!odd() || mix64(CUR->seed, 6) % 3) return ""; return gInts(CUR->seed + 3, 2 + 2 * (int)(CUR->seed % 7)); }
static int doStore(Proc *p, Op &op, const Spec &s, const std::string &path, long long *h) {
  Api &A = *p->api; GB g(p); Rec r = genRec(s, path); char *cp = g.str(path); int st = -9999; dss_file *D = (dss_file *)h;
  switch (s.kind) {
  case KD_TEXT: {
    std::string t = sv(r, "text"); if (op.capi) return A.hec_dss_textStore(D, cp, g.str(t), (int)t.size() + (s.v % 3 != 0));
    zStructText *z = A.zstructTextNew(cp); z->textString = g.str(t); z->numberTextChars = (int)t.size() + 1; st = A.ztextStore(h, z); A.zstructFree(z); break; }
  case KD_TABLE: {
    zStructText *z = A.zstructTextNew(cp); z->textTable = (char *)g.put(sv(r, "table")); z->numberTableChars = (int)sv(r, "table").size(); z->numberRows = ival(r, "rows"); z->numberColumns = ival(r, "cols");
    if (has(r, "labels")) { z->labels = (char *)g.put(sv(r, "labels")); z->numberLabelChars = (int)sv(r, "labels").size(); } if (has(r, "uh")) { z->userHeader = (int *)g.put(sv(r, "uh")); z->userHeaderNumber = (int)sv(r, "uh").size() / 4; }
    st = A.ztextStore(h, z); A.zstructFree(z); break; }
  case KD_ARRAY: {
    int ni = (int)sv(r, "ints").size() / 4, nf = (int)sv(r, "floats").size() / 4, nd = (int)sv(r, "doubles").size() / 8; int *pi = ni ? (int *)g.put(sv(r, "ints")) : 0; float *pf = nf ? (float *)g.put(sv(r, "floats")) : 0; double *pd = nd ? (double *)g.put(sv(r, "doubles")) : 0;
    if (op.capi) return A.hec_dss_arrayStore(D, cp, pi, ni, pf, nf, pd, nd);
    zStructArray *z = A.zstructArrayNew(cp); z->intArray = pi; z->numberIntArray = ni; z->floatArray = pf; z->numberFloatArray = nf; z->doubleArray = pd; z->numberDoubleArray = nd; st = A.zarrayStore(h, z); A.zstructFree(z); break; }
  case KD_PD: {
    bool d = s.flags & FL_DBL; int no = ival(r, "no"), nc = ival(r, "nc"); char *ui = g.str(sv(r, "ui")), *ti = g.str(sv(r, "ti")), *ud = g.str(sv(r, "ud")), *td = g.str(sv(r, "td")); void *o = g.put(sv(r, "ord")), *v = g.put(sv(r, "val"));
    if (op.capi && d && !has(r, "uh")) return A.hec_dss_pdStore(D, cp, (double *)o, no, (double *)v, no * nc, no, nc, ui, ti, ud, td, has(r, "labels") ? (char *)g.put(sv(r, "labels")) : 0, (int)sv(r, "labels").size(), g.str("UTC"));
    zStructPairedData *z = d ? A.zstructPdNewDoubles(cp, (double *)o, (double *)v, no, nc, ui, ti, ud, td) : A.zstructPdNewFloats(cp, (float *)o, (float *)v, no, nc, ui, ti, ud, td);
    if (has(r, "labels")) { z->labels = (char *)g.put(sv(r, "labels")); z->labelsLength = (int)sv(r, "labels").size(); } if (has(r, "uh")) { z->userHeader = (int *)g.put(sv(r, "uh")); z->userHeaderNumber = (int)sv(r, "uh").size() / 4; }
    st = A.zpdStore(h, z, 0); A.zstructFree(z); break; }
  case KD_GRID: {
    if (op.capi && ival(r, "comp") == 26)
      return A.hec_dss_gridStore(D, cp, ival(r, "type"), ival(r, "dt"), ival(r, "llx"), ival(r, "lly"), ival(r, "x"), ival(r, "y"), ival(r, "nr"), ival(r, "srst"), ival(r, "tzo"), ival(r, "isi"), ival(r, "ist"), 0, g.str(sv(r, "units")), g.str(sv(r, "src")), g.str(sv(r, "srs")), g.str(sv(r, "def")), g.str(sv(r, "tz")), fval(r, "cs"), fval(r, "x0"), fval(r, "y0"), fval(r, "nul"), fval(r, "max"), fval(r, "min"), fval(r, "mean"), (float *)g.put(sv(r, "rl")), (int *)g.put(sv(r, "rn")), (float *)g.put(sv(r, "data")));
    zStructSpatialGrid *z = A.zstructSpatialGridNew(cp); z->_type = ival(r, "type"); z->_version = 1; z->_dataType = ival(r, "dt"); z->_lowerLeftCellX = ival(r, "llx"); z->_lowerLeftCellY = ival(r, "lly"); z->_numberOfCellsX = ival(r, "x"); z->_numberOfCellsY = ival(r, "y"); z->_cellSize = fval(r, "cs"); z->_compressionMethod = ival(r, "comp");
    z->_srsDefinitionType = ival(r, "srst"); z->_xCoordOfGridCellZero = fval(r, "x0"); z->_yCoordOfGridCellZero = fval(r, "y0"); z->_nullValue = fval(r, "nul"); z->_timeZoneRawOffset = ival(r, "tzo"); z->_isInterval = ival(r, "isi"); z->_isTimeStamped = ival(r, "ist"); z->_numberOfRanges = ival(r, "nr"); z->_storageDataType = GRID_FLOAT;
    z->_dataUnits = leak(p, sv(r, "units"), true); z->_dataSource = leak(p, sv(r, "src"), true); z->_srsName = leak(p, sv(r, "srs"), true); z->_srsDefinition = leak(p, sv(r, "def"), true); z->_timeZoneID = leak(p, sv(r, "tz"), true);
    z->_maxDataValue = leak(p, sv(r, "max"), false); z->_minDataValue = leak(p, sv(r, "min"), false); z->_meanDataValue = leak(p, sv(r, "mean"), false); z->_rangeLimitTable = leak(p, sv(r, "rl"), false); z->_numberEqualOrExceedingRangeLimit = (int *)leak(p, sv(r, "rn"), false); z->_data = leak(p, sv(r, "data"), false);
    st = A.zspatialGridStore(h, z); A.zstructFree(z); break; }
  case KD_TIN: {
    zStructSpatialTin *z = A.zstructSpatialTinNew(cp); const float *l = (const float *)sv(r, "lims").data(); z->SpatialReferenceSystem = g.str(sv(r, "srs")); z->SRSType = ival(r, "srst"); z->SRSName = g.str(sv(r, "srsn")); z->SRSUnits = g.str(sv(r, "srsu")); z->units = g.str(sv(r, "units")); z->type = g.str(sv(r, "type")); z->timeZoneName = g.str(sv(r, "tz"));
    z->minXCoordinate = l[0]; z->maxXCoordinate = l[1]; z->minYCoordinate = l[2]; z->maxYCoordinate = l[3]; z->minValue = l[4]; z->meanValue = l[5]; z->maxValue = l[6]; z->slendernessRatio = l[7]; z->numberPoints = ival(r, "np"); z->connectTableLen = ival(r, "ct"); z->pointLabelLen = (int)sv(r, "lab").size();
    z->xCoordinate = (float *)g.put(sv(r, "xs")); z->yCoordinate = (float *)g.put(sv(r, "ys")); z->value = (float *)g.put(sv(r, "zs")); z->pointType = (int *)g.put(sv(r, "pt")); z->numberConnections = (int *)g.put(sv(r, "nc")); z->connectTo = (int *)g.put(sv(r, "to")); z->pointLabel = (char *)g.put(sv(r, "lab"));
    st = A.zspatialTinStore(h, z); A.zstructFree(z); break; }
  case KD_LOC: {
    if (op.capi) return A.hec_dss_locationStore(D, cp, dval(r, "x"), dval(r, "y"), dval(r, "z"), ival(r, "cs"), ival(r, "cid"), ival(r, "hu"), ival(r, "hd"), ival(r, "vu"), ival(r, "vd"), g.str(sv(r, "tz")), g.str(sv(r, "sup")), (int)op.a[1]);
    zStructLocation *z = A.zstructLocationNew(cp); z->xOrdinate = dval(r, "x"); z->yOrdinate = dval(r, "y"); z->zOrdinate = dval(r, "z"); z->coordinateSystem = ival(r, "cs"); z->coordinateID = ival(r, "cid"); z->horizontalUnits = ival(r, "hu"); z->horizontalDatum = ival(r, "hd"); z->verticalUnits = ival(r, "vu"); z->verticalDatum = ival(r, "vd"); z->timeZoneName = g.str(sv(r, "tz")); z->supplemental = g.str(sv(r, "sup"));
    st = A.zlocationStore(h, z, (int)op.a[1]); A.zstructFree(z); break; }
  case KD_RAW: {
    zStructTransfer *z = A.zstructTransferNew(cp, 0); z->dataType = typeCode(KD_RAW, path, 0); int **ptr[] = {&z->internalHeader, &z->header2, &z->userHeader, &z->values1, &z->values2, &z->values3}; int *num[] = {&z->internalHeaderNumber, &z->header2Number, &z->userHeaderNumber, &z->values1Number, &z->values2Number, &z->values3Number}; static const char *nm[] = {"ih", "h2", "uh", "v1", "v2", "v3"};
    for (int i = 0; i < 6; i++) if (has(r, nm[i])) { *ptr[i] = (int *)g.put(sv(r, nm[i])); *num[i] = (int)sv(r, nm[i]).size() / 4; }
    z->numberValues = z->logicalNumberValues = z->values1Number; st = A.zwrite(h, z); A.zstructFree(z); break; }
  case KD_TSR: case KD_TSI: {
    std::vector<TsVal> v = tsValues(op); int n = (int)v.size(); bool d = s.flags & FL_DBL; i64 iv = tsInterval(path); std::string sd, stm; hecTime(n ? v[0].t : 0, sd, stm); char *csd = g.str(sd), *cst = g.str(stm); std::string ut = tsUnits(), uh = tsHeader(); char *un = g.str(ut.substr(0, ut.find('|'))), *ty = g.str(ut.substr(ut.find('|') + 1));
    std::vector<double> dv(n); std::vector<float> fv(n); std::vector<int> q(n), no(n), tm(n); std::string cn; i64 base = n ? fdiv(v[0].t, 86400) : 0; if (s.v % 3 == 1) base -= (i64)(s.v % 40);
    for (int i = 0; i < n; i++) { double x = v[i].miss ? (double)-3.402823466e+38F : v[i].v; dv[i] = x; fv[i] = v[i].miss ? -3.402823466e+38F : (float)x; q[i] = v[i].q; no[i] = v[i].n; cn += v[i].c; cn += '\0'; tm[i] = (int)((v[i].t - base * 86400) / 60); }
    if (op.capi && !(s.flags & (FL_INOTE | FL_CNOTE))) {
      int nq = s.flags & FL_QUAL ? n : 0; int *pq = nq ? (int *)g.put(q.data(), 4 * (size_t)n) : 0;
      if (iv) return A.hec_dss_tsStoreRegular(D, cp, csd, cst, (double *)g.put(dv.data(), 8 * (size_t)n), n, pq, nq, d ? 0 : 1, un, ty, g.str("UTC"), (int)op.a[1]);
      return A.hec_dss_tsStoreIregular(D, cp, g.str(dateStr(base)), (int *)g.put(tm.data(), 4 * (size_t)n), 60, (double *)g.put(dv.data(), 8 * (size_t)n), n, pq, nq, d ? 0 : 1, un, ty, g.str("UTC"), (int)op.a[1]);
    }
    zStructTimeSeries *z;
    if (iv) z = d ? A.zstructTsNewRegDoubles(cp, (double *)g.put(dv.data(), 8 * (size_t)n), n, csd, cst, un, ty) : A.zstructTsNewRegFloats(cp, (float *)g.put(fv.data(), 4 * (size_t)n), n, csd, cst, un, ty);
    else { int *ptm = (int *)g.put(tm.data(), 4 * (size_t)n); char *bd = g.str(dateStr(base)); z = d ? A.zstructTsNewIrregDoubles(cp, (double *)g.put(dv.data(), 8 * (size_t)n), n, ptm, 60, bd, un, ty) : A.zstructTsNewIrregFloats(cp, (float *)g.put(fv.data(), 4 * (size_t)n), n, ptm, 60, bd, un, ty); }
    if (s.flags & FL_QUAL) { z->quality = (int *)g.put(q.data(), 4 * (size_t)n); z->qualityElementSize = 1; }
    if (s.flags & FL_INOTE) { z->inotes = (int *)g.put(no.data(), 4 * (size_t)n); z->inoteElementSize = 1; } else if (s.flags & FL_CNOTE) { z->cnotes = (char *)g.put(cn); z->cnotesLengthTotal = (int)cn.size(); }
    if (!uh.empty() && s.v % 4) { z->userHeader = (int *)g.put(uh); z->userHeaderNumber = (int)uh.size() / 4; }
    st = A.ztsStore(h, z, (int)op.a[1]); A.zstructFree(z); break; }
  }
  return st;
}
static int doRead(Proc *p, Op &op, int kind, const std::string &path, long long *h, std::string &out) {
  Api &A = *p->api; GB g(p); char *cp = g.str(path); Rec r; int st = -9999; dss_file *D = (dss_file *)h;
  switch (kind) {
  case KD_TEXT: case KD_TABLE: {
    if (op.capi && kind == KD_TEXT) { int cap = (int)op.a[2] > 0 ? (int)op.a[2] : 6000; char *b = (char *)g.room((size_t)cap); st = A.hec_dss_textRetrieve(D, cp, b, cap); if (st == 0) { b[cap - 1] = b[cap - 1]; r["text"] = std::string(b, strnlen(b, (size_t)cap)); } break; }
    zStructText *z = A.zstructTextNew(cp); st = A.ztextRetrieve(h, z);
    if (st == 0) { if (z->textString) r["text"] = cs(z->textString); if (z->textTable) { r["table"] = bytesOf(z->textTable, (size_t)z->numberTableChars); r["rows"] = gI(z->numberRows); r["cols"] = gI(z->numberColumns); } if (z->labels && z->numberLabelChars) r["labels"] = bytesOf(z->labels, (size_t)z->numberLabelChars); put4(r, "uh", z->userHeader, z->userHeader ? (size_t)z->userHeaderNumber : 0); }
    A.zstructFree(z); break; }
  case KD_ARRAY: {
    if (op.capi) {
      int ni = 0, nf = 0, nd = 0; st = A.hec_dss_arrayRetrieveInfo(D, cp, &ni, &nf, &nd); if (st) break; int *pi = (int *)g.room(4 * (size_t)ni); float *pf = (float *)g.room(4 * (size_t)nf); double *pd = (double *)g.room(8 * (size_t)nd);
      st = A.hec_dss_arrayRetrieve(D, cp, pi, ni, pf, nf, pd, nd); if (st == 0) { put4(r, "ints", pi, ni); put4(r, "floats", pf, nf); put4(r, "doubles", pd, 2 * (size_t)nd); } break; }
    zStructArray *z = A.zstructArrayNew(cp); st = A.zarrayRetrieve(h, z); if (st == 0) { put4(r, "ints", z->intArray, z->numberIntArray); put4(r, "floats", z->floatArray, z->numberFloatArray); put4(r, "doubles", z->doubleArray, 2 * (size_t)z->numberDoubleArray); op.lwt = z->lastWrittenTime; } A.zstructFree(z); break; }
  case KD_PD: {
    if (op.capi && !(CUR->cfg.noprobe & (8 | 32)) && CUR->prop != "P01") {
      int no = 0, nc = 0, ll = 0; char ui[64] = "", ti[64] = "", ud[64] = "", td[64] = "", tz[64] = ""; st = A.hec_dss_pdRetrieveInfo(D, cp, &no, &nc, ui, 64, ud, 64, ti, 64, td, 64, &ll); if (st) break; if (no < 0 || nc < 0 || no > 1000000 || nc > 10000) { r["bad"] = "x"; break; }
      double *o = (double *)g.room(8 * (size_t)no), *v = (double *)g.room(8 * (size_t)no * nc); char *lb = (char *)g.room((size_t)ll); char ui2[64] = "", ti2[64] = "", ud2[64] = "", td2[64] = ""; st = A.hec_dss_pdRetrieve(D, cp, o, no, v, no * nc, &no, &nc, ui2, 64, ti2, 64, ud2, 64, td2, 64, lb, ll, tz, 64);
      if (st == 0) { r["no"] = gI(no); r["nc"] = gI(nc); r["ord"] = bytesOf(o, 8 * (size_t)no); r["val"] = bytesOf(v, 8 * (size_t)no * nc); r["ui"] = ui2; r["ti"] = ti2; r["ud"] = ud2; r["td"] = td2; if (strcmp(ui, ui2) || strcmp(ud, ud2) || strcmp(ti, ti2) || strcmp(td, td2)) r["infodiff"] = "1"; if (ll > 0) r["labels"] = bytesOf(lb, (size_t)ll);}
      break; }
    zStructPairedData *z = A.zstructPdNew(cp); st = A.zpdRetrieve(h, z, 0);
    if (st == 0) {
      int no = z->numberOrdinates, nc = z->numberCurves; r["no"] = gI(no); r["nc"] = gI(nc); if (z->doubleOrdinates) { r["ord"] = bytesOf(z->doubleOrdinates, 8 * (size_t)no); r["val"] = z->doubleValues ? bytesOf(z->doubleValues, 8 * (size_t)no * nc) : ""; } else if (z->floatOrdinates) { r["ord"] = bytesOf(z->floatOrdinates, 4 * (size_t)no); r["val"] = z->floatValues ? bytesOf(z->floatValues, 4 * (size_t)no * nc) : ""; }
      r["ui"] = cs(z->unitsIndependent); r["ti"] = cs(z->typeIndependent); r["ud"] = cs(z->unitsDependent); r["td"] = cs(z->typeDependent); if (z->labels && z->labelsLength > 0) r["labels"] = bytesOf(z->labels, (size_t)z->labelsLength); put4(r, "uh", z->userHeader, z->userHeader ? (size_t)z->userHeaderNumber : 0); }
    A.zstructFree(z); break; }
  case KD_GRID: {
    zStructSpatialGrid *z = A.zstructSpatialGridNew(cp); st = A.zspatialGridRetrieve(h, z, 1);
    if (st == 0) {
      size_t nr = (size_t)z->_numberOfRanges, nx = (size_t)z->_numberOfCellsX, ny = (size_t)z->_numberOfCellsY; r["x"] = gI((int)nx); r["y"] = gI((int)ny); r["nr"] = gI((int)nr); r["llx"] = gI(z->_lowerLeftCellX); r["lly"] = gI(z->_lowerLeftCellY); r["dt"] = gI(z->_dataType); r["comp"] = gI(z->_compressionMethod); r["srst"] = gI(z->_srsDefinitionType); r["tzo"] = gI(z->_timeZoneRawOffset); r["isi"] = gI(z->_isInterval); r["ist"] = gI(z->_isTimeStamped); r["type"] = gI(z->_type);
      r["units"] = cs(z->_dataUnits); r["src"] = cs(z->_dataSource); r["srs"] = cs(z->_srsName); r["def"] = cs(z->_srsDefinition); r["tz"] = cs(z->_timeZoneID); r["cs"] = gF(z->_cellSize); r["x0"] = gF(z->_xCoordOfGridCellZero); r["y0"] = gF(z->_yCoordOfGridCellZero); r["nul"] = gF(z->_nullValue); r["max"] = z->_maxDataValue ? gF(*(float *)z->_maxDataValue) : ""; r["min"] = z->_minDataValue ? gF(*(float *)z->_minDataValue) : ""; r["mean"] = z->_meanDataValue ? gF(*(float *)z->_meanDataValue) : "";
      put4(r, "rl", z->_rangeLimitTable, nr); put4(r, "rn", z->_numberEqualOrExceedingRangeLimit, nr); if (nx * ny < 4000000) put4(r, "data", z->_data, nx * ny); 
      if (op.capi) { // the flat retrieval interface must agree with the structure interface
        int v[11] = {0}; char s1[100] = "", s2[100] = "", s3[100] = "", s4[200] = "", s5[100] = ""; float f[7] = {0}; float *rl = (float *)g.room(4 * nr), *dt = (float *)g.room(4 * nx * ny); int *rn = (int *)g.room(4 * nr);
        int st2 = A.hec_dss_gridRetrieve(D, cp, 1, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9, v + 10, s1, 100, s2, 100, s3, 100, s4, 200, s5, 100, f, f + 1, f + 2, f + 3, f + 4, f + 5, f + 6, rl, (int)nr, rn, dt, (int)(nx * ny));
        if (st2) { st = st2; } else { r["type"] = gI(v[0]); r["dt"] = gI(v[1]); r["llx"] = gI(v[2]); r["lly"] = gI(v[3]); r["x"] = gI(v[4]); r["y"] = gI(v[5]); r["nr"] = gI(v[6]); r["srst"] = gI(v[7]); r["tzo"] = gI(v[8]); r["isi"] = gI(v[9]); r["ist"] = gI(v[10]); r["units"] = s1; r["src"] = s2; r["srs"] = s3; r["def"] = s4; r["tz"] = s5; r["cs"] = gF(f[0]); r["x0"] = gF(f[1]); r["y0"] = gF(f[2]); r["nul"] = gF(f[3]); r["max"] = gF(f[4]); r["min"] = gF(f[5]); r["mean"] = gF(f[6]); put4(r, "rl", rl, nr); put4(r, "rn", rn, nr); put4(r, "data", dt, nx * ny); }
      } }
    A.zstructFree(z); break; }
  case KD_TIN: {
    zStructSpatialTin *z = A.zstructSpatialTinNew(cp); st = A.zspatialTinRetrieve(h, z, 1);
    if (st == 0) {
      size_t np = (size_t)z->numberPoints; r["np"] = gI((int)np); r["ct"] = gI(z->connectTableLen); r["srs"] = cs(z->SpatialReferenceSystem); r["srsn"] = cs(z->SRSName); r["srsu"] = cs(z->SRSUnits); r["units"] = cs(z->units); r["type"] = cs(z->type); r["tz"] = cs(z->timeZoneName); r["srst"] = gI(z->SRSType);
      float l[8] = {z->minXCoordinate, z->maxXCoordinate, z->minYCoordinate, z->maxYCoordinate, z->minValue, z->meanValue, z->maxValue, z->slendernessRatio}; r["lims"] = bytesOf(l, 32); put4(r, "xs", z->xCoordinate, np); put4(r, "ys", z->yCoordinate, np); put4(r, "zs", z->value, np); put4(r, "pt", z->pointType, np); put4(r, "nc", z->numberConnections, np); put4(r, "to", z->connectTo, (size_t)z->connectTableLen); if (z->pointLabel) r["lab"] = bytesOf(z->pointLabel, (size_t)z->pointLabelLen); }
    A.zstructFree(z); break; }
  case KD_LOC: {
    if (op.capi) {
      double x = 0, y = 0, zz = 0; int v[6] = {0}; char *tz = (char *)g.room(200), *su = (char *)g.room(9000); st = A.hec_dss_locationRetrieve(D, cp, &x, &y, &zz, v, v + 1, v + 2, v + 3, v + 4, v + 5, tz, 200, su, 9000);
      if (st == 0) { r["x"] = gD(x); r["y"] = gD(y); r["z"] = gD(zz); r["cs"] = gI(v[0]); r["cid"] = gI(v[1]); r["hu"] = gI(v[2]); r["hd"] = gI(v[3]); r["vu"] = gI(v[4]); r["vd"] = gI(v[5]); r["tz"] = tz; r["sup"] = su; } break; }
    zStructLocation *z = A.zstructLocationNew(cp); st = A.zlocationRetrieve(h, z);
    if (st == 0) { r["x"] = gD(z->xOrdinate); r["y"] = gD(z->yOrdinate); r["z"] = gD(z->zOrdinate); r["cs"] = gI(z->coordinateSystem); r["cid"] = gI(z->coordinateID); r["hu"] = gI(z->horizontalUnits); r["hd"] = gI(z->horizontalDatum); r["vu"] = gI(z->verticalUnits); r["vd"] = gI(z->verticalDatum); r["tz"] = cs(z->timeZoneName); r["sup"] = cs(z->supplemental); }
    A.zstructFree(z); break; }
  case KD_RAW: {
    zStructTransfer *z = A.zstructTransferNew(cp, 1); st = A.zread(h, z); if (st == 0) { put4(r, "ih", z->internalHeader, z->internalHeaderNumber); put4(r, "h2", z->header2, z->header2Number); put4(r, "uh", z->userHeader, z->userHeaderNumber); put4(r, "v1", z->values1, z->values1Number); put4(r, "v2", z->values2, z->values2Number); put4(r, "v3", z->values3, z->values3Number); op.nums.push_back(z->dataType); op.lwt = z->lastWrittenTime; }
    A.zstructFree(z); break; }
  }
  if (st == 0) out = canon(kind, r);
  return st;
}
static int doReadTs(Proc *p, Op &op, long long *h) {
  Api &A = *p->api; GB g(p); char *cp = g.str(op.path); i64 iv = tsInterval(op.path); i64 t0 = iv ? tsSlotTime(iv, op.a[0]) : op.a[0], t1 = iv ? tsSlotTime(iv, op.a[0] + op.sp.n - 1) : op.a[0] + 60 * (i64)op.sp.n; std::string d0, m0, d1, m1; hecTime(t0, d0, m0); hecTime(t1, d1, m1); int st;
  auto isMiss = [](double x) { return x == (double)-3.402823466e+38F || x == -901.0 || x == -902.0; };
  if (op.capi) {
    int cap = op.sp.n + 40, nq = 0, num = 0; if (iv == 0) { int ns = 0; cap = 6000; (void)ns; } std::vector<double> dummy; int *tm = (int *)g.room(4 * (size_t)cap); double *v = (double *)g.room(8 * (size_t)cap); int *q = (int *)g.room(4 * (size_t)cap); int jb = 0, gr = 0; char un[40] = "", ty[40] = "", tz[40] = ""; nq = op.a[3] ? 1 : 0;
    st = A.hec_dss_tsRetrieve((dss_file *)h, cp, g.str(d0), g.str(m0), g.str(d1), g.str(m1), tm, v, cap, &num, q, nq, &jb, &gr, un, 40, ty, 40, tz, 40);
    if (st == 0) for (int i = 0; i < num; i++) { TsVal x; x.t = (i64)(jb - JUL2000) * 86400 + (i64)tm[i] * gr; x.v = v[i]; x.miss = isMiss(v[i]); if (x.miss) x.v = 0; if (nq) { x.q = q[i]; op.hasQ = true; } op.vals.push_back(x); }
    if (st == 0) op.out = std::string(un) + "|" + ty;
    return st;
  }
  zStructTimeSeries *z = A.zstructTsNewTimes(cp, g.str(d0), g.str(m0), g.str(d1), g.str(m1)); st = A.ztsRetrieve(h, z, 0, (int)op.a[2], 1);
  if (st == 0) {
    op.hasQ = z->quality != 0 && z->qualityElementSize > 0; op.hasN = z->inotes != 0 && z->inoteElementSize > 0; op.hasC = z->cnotes != 0 && z->cnotesLengthTotal > 0; int cpos = 0; i64 k0 = 0;
    if (iv) k0 = tsSlotIndex(iv, (i64)(z->startJulianDate - JUL2000) * 86400 + z->startTimeSeconds, true);
    for (int i = 0; i < z->numberValues; i++) {
      TsVal x; if (iv) x.t = tsSlotTime(iv, k0 + i); else x.t = z->times ? (i64)(z->julianBaseDate - JUL2000) * 86400 + (i64)z->times[i] * z->timeGranularitySeconds : -1;
      double d = z->doubleValues ? z->doubleValues[i] : z->floatValues ? (double)z->floatValues[i] : NAN; x.v = d; x.miss = isMiss(d); if (x.miss) x.v = 0; if (op.hasQ) x.q = z->quality[i * z->qualityElementSize]; if (op.hasN) x.n = z->inotes[i * z->inoteElementSize];
      if (op.hasC && cpos < z->cnotesLengthTotal) { x.c = std::string(&z->cnotes[cpos], strnlen(&z->cnotes[cpos], (size_t)(z->cnotesLengthTotal - cpos))); cpos += (int)x.c.size() + 1; }
      op.vals.push_back(x);
    }
    op.lwt = z->lastWrittenTime; op.nums.push_back(z->timeIntervalSeconds); op.out = cs(z->units) + "|" + cs(z->type); if (z->userHeader && z->userHeaderNumber > 0 && odd()) { std::string w = tsHeader(), got = bytesOf(z->userHeader, 4 * (size_t)z->userHeaderNumber); if (got != w) op.out += "|user header differs"; }
  }
  A.zstructFree(z); return st;
}
// The exported C interface against the structures of the library, on the same record, with caller's buffers of any size.
static void capiSelf(Proc *p, Op &op, int kind, const std::string &path, long long *h) {
  if (!(CUR->cfg.noprobe & 8)) return; Api &A = *p->api; GB g(p); char *cp = g.str(path); dss_file *D = (dss_file *)h; Rng r(mix64((u64)op.id * 7919 + CUR->seed, hstr(path.c_str())));
  auto bad = [&](const std::string &s) { if (op.self.empty()) op.self = s; };
  struct B { char *b; int cap; }; auto buf = [&](int full) { int c = r.chance(0.3) ? full + 1 : r.chance(0.3) ? full : (int)r.range(0, full + 3); char *b = (char *)g.room((size_t)c); memset(b, 0x5A, c ? (size_t)c : 1); return B{b, c}; };
  auto same = [&](const char *nm, const B &b, const char *want) { std::string w = want ? want : ""; if (!want) { if (b.cap > 0 && (unsigned char)b.b[0] != 0x5A && b.b[0]) bad(std::string(nm) + ": something was written where nothing is stored"); return; } if (b.cap == 0) { if (b.b[0] != 0x5A) bad(std::string(nm) + ": written beyond a buffer of no size"); return; } std::string e = w.substr(0, (size_t)b.cap - 1); if (strnlen(b.b, (size_t)b.cap) == (size_t)b.cap) bad(std::string(nm) + ": not terminated within the buffer"); else if (e != b.b) bad(std::string(nm) + ": '" + std::string(b.b) + "' instead of '" + e + "'"); };
  auto eqi = [&](const char *nm, i64 a, i64 b) { if (a != b) bad(std::string(nm) + ": " + std::to_string(a) + " instead of " + std::to_string(b)); };
  auto arr = [&](const char *nm, const void *got, const void *want, size_t n) { if (n && (!want || memcmp(got, want, n))) bad(std::string(nm) + ": values differ"); };
  auto kept = [&](const char *nm, const void *x, size_t n) { for (size_t i = 0; i < n; i++) if (((const unsigned char *)x)[i] != 0x5A) { bad(std::string(nm) + ": written although refused"); return; } };
  auto room5a = [&](size_t n) { void *x = g.room(n); memset(x, 0x5A, n ? n : 1); return x; };
  { int t1 = A.hec_dss_dataType(D, cp), t2 = A.zdataType(h, cp); eqi("hec_dss_dataType", t1, t2); if (kind < KD_TSR) { zStructRecordBasics *rb = A.zstructRecordBasicsNew(cp); int st = A.zgetRecordBasics(h, rb), rt = A.hec_dss_recordType(D, cp); if (st == 0) eqi("hec_dss_recordType", rt, rb->recordType); else if (rt >= 0) bad("hec_dss_recordType: no error for a record that is not there"); A.zstructFree(rb); } }
  eqi("hec_dss_getVersion", A.hec_dss_getVersion(D), 7);
  switch (kind) {
  case KD_TEXT: {
    zStructText *z = A.zstructTextNew(cp); int st = A.ztextRetrieve(h, z); int n = st == 0 && z->textString ? z->numberTextChars : 0;
    for (int k = 0; k < 2; k++) { B b = buf(n); int s2 = A.hec_dss_textRetrieve(D, cp, b.b, b.cap);
      if (st != 0) { if (s2 == 0) bad("hec_dss_textRetrieve succeeds although the record cannot be read"); continue; }
      if (n > b.cap) { if (s2 == 0) bad("hec_dss_textRetrieve reports success with a buffer that is too small"); } else if (s2 != 0) bad("hec_dss_textRetrieve fails with a buffer that is large enough: " + std::to_string(s2));
      else if (z->textString) { size_t l = strnlen(z->textString, (size_t)n); if (memcmp(b.b, z->textString, l)) bad("hec_dss_textRetrieve: text differs"); else if ((int)l < b.cap && b.b[l] != 0) bad("hec_dss_textRetrieve: text is not terminated although there is room"); } }
    A.zstructFree(z); break; }
  case KD_ARRAY: {
    zStructArray *z = A.zstructArrayNew(cp); int st = A.zarrayRetrieve(h, z), ni = -5, nf = -5, nd = -5, s2 = A.hec_dss_arrayRetrieveInfo(D, cp, &ni, &nf, &nd); eqi("hec_dss_arrayRetrieveInfo status", s2, st);
    if (st == 0 && s2 == 0) { eqi("number of ints", ni, z->numberIntArray); eqi("number of floats", nf, z->numberFloatArray); eqi("number of doubles", nd, z->numberDoubleArray);
      for (int k = 0; k < 2; k++) { auto len = [&](int n) { return k == 0 ? n : r.chance(0.4) ? n : r.chance(0.4) ? 0 : (int)r.range(0, n + 4); }; int li = len(ni), lf = len(nf), ld = len(nd); int *pi = (int *)room5a(4 * (size_t)li); float *pf = (float *)room5a(4 * (size_t)lf); double *pd = (double *)room5a(8 * (size_t)ld); int s3 = A.hec_dss_arrayRetrieve(D, cp, li ? pi : 0, li, lf ? pf : 0, lf, ld ? pd : 0, ld);
        if (k == 0) { eqi("hec_dss_arrayRetrieve status", s3, 0); }
        if (s3 == 0) { if (li == ni) arr("ints", pi, z->intArray, 4 * (size_t)ni); if (lf == nf) arr("floats", pf, z->floatArray, 4 * (size_t)nf); if (ld == nd) arr("doubles", pd, z->doubleArray, 8 * (size_t)nd); } } }
    A.zstructFree(z); break; }
  case KD_PD: {
    zStructPairedData *z = A.zstructPdNew(cp); int st = A.zpdRetrieve(h, z, 2); int no = -5, nc = -5, ll = -5; const char *ui = st ? "" : z->unitsIndependent, *ti = st ? "" : z->typeIndependent, *ud = st ? "" : z->unitsDependent, *td = st ? "" : z->typeDependent, *tz = st ? "" : z->timeZoneName; auto L = [](const char *s) { return s ? (int)strlen(s) : 4; };
    B a = buf(L(ui)), b = buf(L(ud)), c = buf(L(ti)), d = buf(L(td)); int s2 = A.hec_dss_pdRetrieveInfo(D, cp, &no, &nc, a.b, a.cap, b.b, b.cap, c.b, c.cap, d.b, d.cap, &ll); if (st == 0 || s2 == 0) eqi("hec_dss_pdRetrieveInfo status", s2, st); else if (s2 == 0) bad("hec_dss_pdRetrieveInfo succeeds although the record cannot be read");
    if (st == 0 && s2 == 0) { eqi("number of ordinates", no, z->numberOrdinates); eqi("number of curves", nc, z->numberCurves); same("independent units", a, ui); same("dependent units", b, ud); same("independent type", c, ti); same("dependent type", d, td); eqi("length of labels", ll, z->labels ? z->labelsLength : 0); if (ll < 0 || ll > 1000000) break;
      for (int k = 0; k < 2; k++) { int lo = no, lv = no * nc, lb = ll; if (k) { if (r.chance(0.5)) lo = (int)r.range(0, no + 3); if (r.chance(0.5)) lv = (int)r.range(0, no * nc + 3); lb = (int)r.range(0, ll + 3); } double *o = (double *)room5a(8 * (size_t)lo), *v = (double *)room5a(8 * (size_t)lv); char *lab = (char *)room5a((size_t)lb); B a2 = buf(L(ui)), b2 = buf(L(ud)), c2 = buf(L(ti)), d2 = buf(L(td)), e2 = buf(L(tz)); int n2 = -5, m2 = -5;
        int s3 = A.hec_dss_pdRetrieve(D, cp, o, lo, v, lv, &n2, &m2, a2.b, a2.cap, c2.b, c2.cap, b2.b, b2.cap, d2.b, d2.cap, lab, lb, e2.b, e2.cap);
        if (lo != no || lv != no * nc) { if (s3 == 0) bad("hec_dss_pdRetrieve reports success with arrays of the wrong length"); kept("hec_dss_pdRetrieve ordinates", o, 8 * (size_t)lo); kept("hec_dss_pdRetrieve values", v, 8 * (size_t)lv); continue; }
        eqi("hec_dss_pdRetrieve status", s3, 0); if (s3) continue; eqi("ordinates", n2, no); eqi("curves", m2, nc); arr("ordinates", o, z->doubleOrdinates, 8 * (size_t)no); arr("values", v, z->doubleValues, 8 * (size_t)no * nc); same("independent units", a2, ui); same("dependent units", b2, ud); same("independent type", c2, ti); same("dependent type", d2, td); same("time zone", e2, tz); if (z->labels) { int m = std::min(lb, z->labelsLength); arr("labels", lab, z->labels, (size_t)m); } } }
    A.zstructFree(z); break; }
  case KD_GRID: {
    zStructSpatialGrid *z = A.zstructSpatialGridNew(cp); int st = A.zspatialGridRetrieve(h, z, 1); size_t nr = 1, nx = 1, ny = 1; if (st == 0) { nr = (size_t)z->_numberOfRanges; nx = (size_t)z->_numberOfCellsX; ny = (size_t)z->_numberOfCellsY; } if (nx * ny > 4000000) break; auto L = [](const char *s) { return s ? (int)strlen(s) : 4; };
    for (int k = 0; k < 2; k++) { int want = k == 0 ? 1 : (int)r.below(2); int v[11] = {0}; float f[7] = {0}; B a = buf(st ? 4 : L(z->_dataUnits)), b = buf(st ? 4 : L(z->_dataSource)), c = buf(st ? 4 : L(z->_srsName)), d = buf(st ? 4 : L(z->_srsDefinition)), e = buf(st ? 4 : L(z->_timeZoneID)); int cr = k == 0 ? (int)nr : (int)r.range(0, (i64)nr + 2), cd = k == 0 ? (int)(nx * ny) : (int)r.range(0, (i64)(nx * ny) + 3); float *rl = (float *)room5a(4 * (size_t)cr), *dt = (float *)room5a(4 * (size_t)cd); int *rn = (int *)room5a(4 * (size_t)cr);
      int s2 = A.hec_dss_gridRetrieve(D, cp, want, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9, v + 10, a.b, a.cap, b.b, b.cap, c.b, c.cap, d.b, d.cap, e.b, e.cap, f, f + 1, f + 2, f + 3, f + 4, f + 5, f + 6, rl, cr, rn, dt, cd);
      eqi("hec_dss_gridRetrieve status", s2, st); if (st || s2) continue; int w[11] = {z->_type, z->_dataType, z->_lowerLeftCellX, z->_lowerLeftCellY, z->_numberOfCellsX, z->_numberOfCellsY, z->_numberOfRanges, z->_srsDefinitionType, z->_timeZoneRawOffset, z->_isInterval, z->_isTimeStamped}; for (int i = 0; i < 11; i++) eqi("grid header field", v[i], w[i]);
      same("data units", a, z->_dataUnits); same("data source", b, z->_dataSource); same("srs name", c, z->_srsName); same("srs definition", d, z->_srsDefinition); same("time zone", e, z->_timeZoneID); float wf[4] = {z->_cellSize, z->_xCoordOfGridCellZero, z->_yCoordOfGridCellZero, z->_nullValue}; arr("cell size, origin, null value", f, wf, 16);
      if (want) { arr("maximum", f + 4, z->_maxDataValue, 4); arr("minimum", f + 5, z->_minDataValue, 4); arr("mean", f + 6, z->_meanDataValue, 4); arr("range limits", rl, z->_rangeLimitTable, 4 * std::min(nr, (size_t)cr)); arr("range counts", rn, z->_numberEqualOrExceedingRangeLimit, 4 * std::min(nr, (size_t)cr)); arr("grid data", dt, z->_data, 4 * std::min(nx * ny, (size_t)cd)); } }
    A.zstructFree(z); break; }
  case KD_LOC: {
    zStructLocation *z = A.zstructLocationNew(cp); int st = A.zlocationRetrieve(h, z); double x = 0, y = 0, zz = 0; int v[6] = {0}; B a = buf(st || !z->timeZoneName ? 4 : (int)strlen(z->timeZoneName)), b = buf(st || !z->supplemental ? 4 : (int)strlen(z->supplemental)); int s2 = A.hec_dss_locationRetrieve(D, cp, &x, &y, &zz, v, v + 1, v + 2, v + 3, v + 4, v + 5, a.b, a.cap, b.b, b.cap); eqi("hec_dss_locationRetrieve status", s2, st);
    if (st == 0 && s2 == 0) { int w[6] = {z->coordinateSystem, z->coordinateID, z->horizontalUnits, z->horizontalDatum, z->verticalUnits, z->verticalDatum}; for (int i = 0; i < 6; i++) eqi("location field", v[i], w[i]); arr("x", &x, &z->xOrdinate, 8); arr("y", &y, &z->yOrdinate, 8); arr("z", &zz, &z->zOrdinate, 8); same("time zone", a, z->timeZoneName); same("supplemental", b, z->supplemental); }
    A.zstructFree(z); break; }
  case KD_TSR: case KD_TSI: {
    i64 iv = tsInterval(path); i64 t0 = iv ? tsSlotTime(iv, op.a[0]) : op.a[0], t1 = iv ? tsSlotTime(iv, op.a[0] + op.sp.n - 1) : op.a[0] + 60 * (i64)op.sp.n; std::string d0, m0, d1, m1; hecTime(t0, d0, m0); hecTime(t1, d1, m1); char *c0 = g.str(d0), *e0 = g.str(m0), *c1 = g.str(d1), *e1 = g.str(m1); auto L = [](const char *s) { return s ? (int)strlen(s) : 4; };
    for (int k = 0; k < 3; k++) { // the window; the window with a client's arrays; everything (no window)
      bool all = k == 2; if (all && r.chance(0.6)) break; char *pa = all && r.chance(0.5) ? g.str(withPart(path, 3, tsDPart(path, t0))) : cp; zStructTimeSeries *z = all ? A.zstructTsNew(pa) : A.zstructTsNewTimes(cp, c0, e0, c1, e1); if (all) z->boolRetrieveAllTimes = 1; int st = A.ztsRetrieve(h, z, 0, 2, 1); int n = st == 0 ? z->numberValues : 0, cap = n + 3, nv = -5, qs = -5, num = -5, jb = 0, gr = 0; if (n < 0 || n > 1000000) { A.zstructFree(z); break; }
      if (!all) { int s2 = A.hec_dss_tsGetSizes(D, cp, c0, e0, c1, e1, &nv, &qs); if (st == 0 && s2 < 0) bad("hec_dss_tsGetSizes fails (" + std::to_string(s2) + ") for data that can be read"); if (st == 0 && s2 == 0) { int have = 0; for (int i = 0; i < n; i++) have += z->doubleValues[i] > -3.4e38; if (nv < have) bad("hec_dss_tsGetSizes announces " + std::to_string(nv) + " values, but there are " + std::to_string(have)); if (z->quality && qs < z->qualityElementSize) bad("hec_dss_tsGetSizes announces no quality where there is some"); if (nv >= n && nv < 100000 && k == 0) cap = nv; } }
      if (k == 1) cap = (int)r.range(0, n + 2); int nq = (int)r.below(2); int *tm = (int *)room5a(4 * (size_t)cap); double *v = (double *)room5a(8 * (size_t)cap); int *q = (int *)room5a(4 * (size_t)cap); B a = buf(st ? 4 : L(z->units)), b = buf(st ? 4 : L(z->type)), c = buf(st ? 4 : L(z->timeZoneName)); char *no1 = all && r.chance(0.5) ? g.str("") : 0;
      int s3 = A.hec_dss_tsRetrieve(D, pa, all ? no1 : c0, all ? no1 : e0, all ? no1 : c1, all ? no1 : e1, tm, v, cap, &num, nq ? q : 0, nq, &jb, &gr, a.b, a.cap, b.b, b.cap, c.b, c.cap); eqi(all ? "hec_dss_tsRetrieve status without a time window" : "hec_dss_tsRetrieve status", s3, st);
      if (st == 0 && s3 == 0) { int m = std::min(n, cap); eqi(all ? "number of values read without a time window" : "number of values read", num, m); if (num != m) m = 0; eqi("base date", jb, z->julianBaseDate); eqi("granularity", gr, z->timeGranularitySeconds); if (z->times) arr("times", tm, z->times, 4 * (size_t)m); arr("values", v, z->doubleValues, 8 * (size_t)m); if (nq) for (int i = 0; i < m; i++) eqi("quality", q[i], z->quality ? z->quality[i * z->qualityElementSize] : 0); same("units", a, z->units); same("type", b, z->type); same("time zone", c, z->timeZoneName); }
      if (k == 0 && st == 0) { std::string bp = withPart(path, 3, tsDPart(path, t0)); char *cb = g.str(bp); B a2 = buf(L(z->units)), b2 = buf(L(z->type)); int ex = A.zcheck(h, cb), s4 = A.hec_dss_tsRetrieveInfo(D, cb, a2.b, a2.cap, b2.b, b2.cap); if (ex == 0) { if (s4 != 0) bad("hec_dss_tsRetrieveInfo fails: " + std::to_string(s4)); else { std::string ut = tsUnits(), uu = ut.substr(0, ut.find("|")), uy = ut.substr(ut.find("|") + 1); same("units of the record", a2, uu.empty() ? 0 : uu.c_str()); same("type of the record", b2, uy.c_str()); } } else if (s4 == 0) bad("hec_dss_tsRetrieveInfo succeeds for a record that is not there"); }
      A.zstructFree(z); }
    break; }
  }
}
static void capiCatalog(Proc *p, Op &op, long long *h) { // fewer entries and shorter names than the file has
  Api &A = *p->api; GB g(p); Rng r(mix64((u64)op.id * 7919 + CUR->seed, 77)); zStructCatalog *c = A.zstructCatalogNew(); char *pat = op.path.empty() ? 0 : g.str(op.path); int st = A.zcatalog(h, pat, c, 0); auto bad = [&](const std::string &s) { if (op.self.empty()) op.self = s; }; int n = st >= 0 ? c->numberPathnames : 0;
  int cap = r.chance(0.5) ? n : (int)r.range(0, n + 2), item = r.chance(0.4) ? 400 : (int)r.range(1, 60); int *ty = (int *)g.room(4 * (size_t)cap); char *b = (char *)g.room((size_t)item * (size_t)cap); memset(b, 0x5A, (size_t)item * (size_t)cap); int s2 = A.hec_dss_catalog((dss_file *)h, b, ty, pat, cap, item);
  if ((st < 0) != (s2 < 0)) bad("hec_dss_catalog returns " + std::to_string(s2) + ", zcatalog " + std::to_string(st)); else if (st >= 0) { if (s2 != std::min(n, cap)) bad("hec_dss_catalog returns " + std::to_string(s2) + " of " + std::to_string(n) + " paths with room for " + std::to_string(cap)); else for (int i = 0; i < s2; i++) { std::string w = cs(c->pathnameList[i]).substr(0, (size_t)item - 1); if (strnlen(b + (size_t)item * i, (size_t)item) == (size_t)item || w != b + (size_t)item * i) bad("hec_dss_catalog: pathname differs: " + w); if (ty[i] != c->recordType[i]) bad("hec_dss_catalog: record type differs"); } }
  A.zstructFree(c); int rc = A.hec_dss_record_count((dss_file *)h); if (rc != (int)A.zinquire(h, "nrec")) bad("hec_dss_record_count"); int fv = A.hec_dss_getFileVersion(g.str(fileName(op.slot >= 0 ? op.file : op.file))); if (fv != 7) bad("hec_dss_getFileVersion: " + std::to_string(fv)); }
static int openFile(Proc *p, Op &op, int slot, int file, int mode, bool capi) {
  Api &A = *p->api; GB g(p); char *nm = g.str(fileName(file)); int st;
  if (capi) { dss_file *d = 0; st = A.hec_dss_open(nm, &d); if (st == 0) hnd[p->id][slot] = d; }
  else { memset(p->ifltab[slot], 0, sizeof p->ifltab[slot]); const Cfg &c = CUR->cfg; if (mode == 0 && !c.hash && !c.bin) st = A.hec_dss_zopen(p->ifltab[slot], nm); else st = A.zopenExtended(p->ifltab[slot], nm, 7, mode, 0, c.hash, c.bin); if (st == 0) hnd[p->id][slot] = p->ifltab[slot]; }
  if (st == 0) { p->slotState[slot] = capi ? 2 : 1; p->slotFile[slot] = file; p->slotMode[slot] = mode; p->slotStep[slot] = K.step; if (CUR->cfg.reclaim && mode != 1) A.zsetFile(H(p, slot), "recl", "", CUR->cfg.reclaim); }
  return st;
}
bool leakMode = false; // error messages kept for the user (at most ten) are not leaks: take them before counting
static int closeSlot(Proc *p, int slot) { Api &A = *p->api; int st; p->slotMode[slot] = p->slotMode[slot] == 4 ? 0 : p->slotMode[slot]; if (p->slotState[slot] == 2) st = A.hec_dss_close((dss_file *)H(p, slot)); else st = A.zclose(H(p, slot)); p->slotState[slot] = 0; if (leakMode) { static long long none[500]; A.zclearMessageAll(none); } return st; }
static void dumpCat(Proc *p, Op &op, zStructCatalog *c) { for (int i = 0; i < c->numberPathnames; i++) { op.list.push_back(c->pathnameList ? cs(c->pathnameList[i]) : "?"); op.nums.push_back(c->recordType ? c->recordType[i] : -1); op.lw.push_back(c->lastWriteTimeRecord ? c->lastWriteTimeRecord[i] : 0); } }
static std::map<std::pair<int, int>, zStructCatalog *> whatStart; static std::map<std::pair<int, int>, std::string> whatPat; static std::map<std::pair<int, int>, int> whatKind; // 1 mark in the handle, 2 mark in a structure of the caller
void opsReset(int proc) { for (auto &x : hnd[proc]) x = nullptr; for (auto it = whatStart.begin(); it != whatStart.end();) if (it->first.first == proc) it = whatStart.erase(it); else ++it; for (auto it = whatKind.begin(); it != whatKind.end();) if (it->first.first == proc) it = whatKind.erase(it); else ++it; }
// What the user does after a squeeze was interrupted: when the file is gone or only partly there, the squeezed copy takes its place; left-over copies go.
static bool wholeFile(const std::string &n) {
  auto it = K.dir.find(n); if (it == K.dir.end()) return false; auto &d = it->second->data; if (d.size() < 100 * 8 || memcmp(d.data(), "ZDSS", 4)) return false;
  i64 sz; memcpy(&sz, d.data() + 5 * 8, 8); return (i64)d.size() == (sz + 1) * 8;
}
static void recoverFile(Op &op) {
  std::string f = fileName(op.file), b = f.substr(3, f.size() - 7), t[2] = {"/tmp/" + b + "_squ.dss", "/d/" + b + "_squ.dss"}; op.status = 0; op.out = "original";
  if (!wholeFile(f)) { op.out = "nothing"; for (auto &x : t) if (wholeFile(x)) { K.dir[f] = K.dir[x]; op.out = x; break; } }
  for (auto &x : t) K.dir.erase(x); K.probe(("recovered from " + (op.out[0] == '/' ? std::string("the squeezed copy") : op.out)).c_str());
}
// What happens to a file outside the library: damaged bytes, lost or misplaced sectors, truncation, or a file that never was a DSS file.
static const char *dmgName[] = {"bits flipped", "bytes overwritten", "sector zeroed", "truncated", "word replaced", "garbage appended", "sector misplaced", "random file", "text file", "no DSS identifier", "other version", "header cut off", "empty file"};
static void damageFile(Op &op) {
  std::string f = fileName(op.file); op.status = 0; Rng r(mix64((u64)op.a[1], (u64)op.id)); int k = (int)op.a[0]; auto it = K.dir.find(f);
  if (it == K.dir.end()) { if (k < 7) { op.out = "nothing"; return; } K.dir[f] = std::make_shared<Inode>(); K.dir[f]->id = K.inoNext++; it = K.dir.find(f); }
  auto &d = it->second->data; auto word = [&](size_t w, i64 v) { if (d.size() >= 8 * w + 8) memcpy(&d[8 * w], &v, 8); }; size_t n = d.size(), W = n / 8; size_t lim = op.a[2] == 1 ? std::min<size_t>(n, 800) : n; if (k < 7 && n < 16) { op.out = "nothing"; return; }
  auto pos = [&]() { size_t at = r.below(lim); if (op.a[2] == 2) for (int i = 0; i < 200 && !d[at]; i++) at = r.below(lim); return at; };
  switch (k) {
  case 0: { int m = (int)r.range(1, 8); while (m--) d[pos()] ^= (u8)(1 << r.below(8)); break; }
  case 1: { size_t at = pos(), m = (size_t)r.range(1, r.chance(0.5) ? 16 : 600); for (size_t i = at; i < std::min(n, at + m); i++) d[i] = (u8)r.next(); break; }
  case 2: { size_t at = pos() / 512 * 512; for (size_t i = at; i < std::min(n, at + 512 * (size_t)r.range(1, 4)); i++) d[i] = 0; break; }
  case 3: d.resize(r.chance(0.3) ? n - r.below(std::min<size_t>(n, 800)) : r.below(n)); break;
  case 4: { int m = (int)r.range(1, 3); while (m--) { size_t w = pos() / 8; i64 old = 0; memcpy(&old, &d[8 * w], std::min<size_t>(8, n - 8 * w)); static const i64 ex[] = {0, -1, 1, 2, 7, 100, 0x7fffffffLL, -0x80000000LL, 0x80000000LL, 1LL << 40, 0x7fffffffffffffffLL, (i64)0x8000000000000000ULL, 0x7fffffff7fffffffLL, 0x100000001LL}; i64 v; switch (r.below(6)) { case 0: case 1: v = ex[r.below(14)]; break; case 2: v = (i64)r.below(W + 20); break; case 3: v = old + (i64)r.range(1, 40) - 20; break; case 4: v = old * 2; break; default: v = (i64)W - (i64)r.below(3); } word(w, v); } break; }
  case 5: { size_t m = (size_t)r.range(1, 3000); for (size_t i = 0; i < m; i++) d.push_back((u8)(op.a[1] & 1 ? 0 : r.next())); break; }
  case 6: { size_t S = n / 512; if (S < 2) break; size_t a = r.below(S), b = r.below(S); std::vector<u8> t(d.begin() + (long)(a * 512), d.begin() + (long)(a * 512 + 512)); std::copy(t.begin(), t.end(), d.begin() + (long)(b * 512)); break; }
  case 7: { d.resize(r.below(r.chance(0.5) ? 900 : 9000) + 1); for (auto &x : d) x = (u8)r.next(); if (d.size() > 3 && !memcmp(d.data(), "ZDSS", 4)) d[0] = 'A'; break; }
  case 8: { std::string s; int m = (int)r.range(1, 200); while (m--) s += r.chance(0.5) ? "Date,Time,Flow\r\n" : "01JAN2000, 2400, 12.50\n"; d.assign(s.begin(), s.end()); break; }
  case 9: if (n < 4) d.assign(900, 0); d[r.below(4)] = (u8)"AQz\x80\x01"[r.below(5)]; break;
  case 10: if (n < 800) { d.assign(900, 0); memcpy(d.data(), "ZDSS", 4); } d[16] = (u8)"4568A"[r.below(5)]; break;
  case 11: if (n < 800) { d.assign(900, 0); memcpy(d.data(), "ZDSS", 4); } d.resize(r.range(1, 799)); break;
  default: d.clear(); }
  if (k >= 7 && d.size() >= 32) op.st2 = 7; // less than that is an empty file to the library
  op.out = dmgName[std::min(k, 12)]; it->second->dur = d; K.probe(("damage: " + op.out).c_str());
}
void execOp(Proc *p, Op &op) {
  Api &A = *p->api; int slot = op.slot >= 0 ? op.slot : op.file; op.started = true; op.reads++; bool needs = !(op.code == OP_SLEEP || op.code == OP_POWER || op.code == OP_EXIT || op.code == OP_OPEN || op.code == OP_CLOSE || op.code == OP_CORRUPT || op.code == OP_RECOVER || (op.code == OP_SQUEEZE && op.capi));
  if (op.code == OP_SLEEP) { hooksUsleep((unsigned long)op.a[0]); op.status = 0; return; }
  if (op.code == OP_EXIT) { op.status = 0; return; }
  if (op.code == OP_RECOVER) { recoverFile(op); return; }
  if (op.code == OP_CORRUPT) { damageFile(op); return; }
  if (needs && !p->slotState[slot]) { int st = openFile(p, op, slot, op.file, op.mode ? op.mode : CUR->cfg.defMode, false); if (st) { op.openFail = true; op.status = st; return; } op.opened = true; }
  if (op.code == OP_COPYREC || op.code == OP_COPYFILE) { int s2 = op.file2; if (!p->slotState[s2]) { int st = openFile(p, op, s2, op.file2, CUR->cfg.defMode, false); if (st) { op.openFail = true; op.status = st; return; } op.opened = true; } }
  { int ts = op.code == OP_COPYREC || op.code == OP_COPYFILE ? op.file2 : slot; op.hmode = p->slotState[ts] ? p->slotMode[ts] : -1; }
  long long *h = H(p, slot); GB g(p); if (op.code == OP_SQUEEZE && K.openOthers(fileName(op.file), p->id)) op.shared = true;
  switch (op.code) {
  case OP_OPEN: if (p->slotState[slot]) { op.st2 = 1; op.status = 0; break; } op.status = openFile(p, op, slot, op.file, op.mode, op.capi); break;
  case OP_CLOSE: if (!p->slotState[slot]) { op.st2 = 1; op.status = 0; break; } op.status = closeSlot(p, slot); if (whatKind.count({p->id, slot}) && whatKind[{p->id, slot}] == 1) whatKind.erase({p->id, slot}); break;
  case OP_STORE: op.status = doStore(p, op, op.sp, op.path, h); break;
  case OP_READ: { int k = kindOfPath(op.path); if (k == KD_TSR || k == KD_TSI) op.status = doReadTs(p, op, h); else op.status = doRead(p, op, k, op.path, h, op.out); if (op.capi) capiSelf(p, op, k, op.path, h); break; }
  case OP_READAS: { if (op.sp.kind == KD_TSR || op.sp.kind == KD_TSI) op.status = doReadTs(p, op, h); else op.status = doRead(p, op, op.sp.kind, op.path, h, op.out); break; } // as data of another type
  case OP_DELETE: op.status = op.capi ? A.hec_dss_delete((dss_file *)h, g.str(op.path)) : A.zdelete(h, g.str(op.path)); break;
  case OP_UNDELETE: op.status = A.zundelete(h, g.str(op.path)); break;
  case OP_UNDELALL: op.status = A.zundeleteAll(h); break;
  case OP_RENAME: op.status = A.zrename(h, g.str(op.path), g.str(op.a[0] && (kindOfPath(op.path) == KD_TSR || kindOfPath(op.path) == KD_TSI) ? otherDE(op.path2, op.a[0]) : op.path2)); break;
  case OP_DUP: op.status = A.zduplicateRecord(h, g.str(op.path), g.str(op.path2)); break;
  case OP_COPYREC: op.status = A.zcopyRecord(h, H(p, op.file2), g.str(op.path), g.str(op.path2)); break;
  case OP_COPYFILE: op.status = A.zcopyFile(h, H(p, op.file2), 0); break;
  case OP_SQUEEZE: if (op.capi) { op.status = A.hec_dss_squeeze(g.str(fileName(op.file))); } else { op.status = A.zsqueeze7(h, (int)op.a[0], (int)op.a[1]); if (whatKind.count({p->id, slot}) && whatKind[{p->id, slot}] == 1) whatKind.erase({p->id, slot}); op.st2 = 0; } if (K.openOthers(fileName(op.file), p->id)) op.shared = true; break;
  case OP_CATALOG: {
    if (op.capi) { int cap = A.hec_dss_record_count((dss_file *)h) + 20; if (cap < 20 || cap > 100000) cap = 20; int *ty = (int *)g.room(4 * (size_t)cap); char *b = (char *)g.room(400 * (size_t)cap); op.status = A.hec_dss_catalog((dss_file *)h, b, ty, op.path.empty() ? 0 : g.str(op.path), cap, 400); for (int i = 0; i < op.status; i++) { op.list.push_back(cs(b + 400 * i)); op.nums.push_back(ty[i]); }
      if (CUR->cfg.noprobe & 8) capiCatalog(p, op, h); break; }
    zStructCatalog *c = A.zstructCatalogNew(); op.status = A.zcatalog(h, op.path.empty() ? 0 : g.str(op.path), c, (int)op.a[0]); if (op.status >= 0) dumpCat(p, op, c); A.zstructFree(c); break; }
  case OP_CHECKFILE: op.status = A.zcheckFile(h); break;
  case OP_EXISTS: op.status = A.zcheck(h, g.str(op.path)); break;
  case OP_DTYPE: op.status = op.capi ? A.hec_dss_dataType((dss_file *)h, g.str(op.path)) : A.zdataType(h, g.str(op.path)); break;
  case OP_ALIASADD: op.status = A.zaliasAdd(h, g.str(op.path), g.str(op.path2)); break;
  case OP_ALIASRM: op.status = A.zaliasRemove(h, g.str(op.path)); break;
  case OP_SETFILE: op.status = A.zsetFile(h, g.str(op.path), g.str(""), (int)op.a[0]); break;
  case OP_WHATSET: { std::pair<int, int> w{p->id, slot}; char *pat = op.path.empty() ? nullptr : g.str(op.path); zStructCatalog *&c = whatStart[w]; if (c) { A.zstructFree(c); c = nullptr; } if (op.a[1]) c = A.zstructCatalogNew(); whatKind[w] = op.a[1] ? 2 : 1; op.status = A.zwhatChangedSetStart(h, c, pat, (int)op.a[0]); if (op.a[1]) whatPat[w] = op.path; break; }
  case OP_WHATCHG: { std::pair<int, int> w{p->id, slot}; int kd = whatKind.count(w) ? whatKind[w] : 0; op.st2 = !kd; zStructCatalog *c = A.zstructCatalogNew(); if (kd == 2) op.status = A.zwhatChangedCompare(h, whatStart[w], c, whatPat[w].empty() ? nullptr : g.str(whatPat[w]), whatStart[w]->boolGetCRCvalues); else op.status = A.zwhatChanged(h, c); if (op.status >= 0) dumpCat(p, op, c); A.zstructFree(c); break; }
  case OP_LWT: op.nums.push_back((i64)(op.path.empty() ? A.zgetLastWriteTimeFile(h) : A.zgetLastWriteTimeRec(h, g.str(op.path)))); op.status = 0; break;
  case OP_COUNT_: op.nums.push_back(op.capi ? A.hec_dss_record_count((dss_file *)h) : A.zinquire(h, "nrec")); op.status = 0; break;
  case OP_BASICS: { zStructRecordBasics *b = A.zstructRecordBasicsNew(g.str(op.path)); op.status = A.zgetRecordBasics(h, b); if (op.status == 0) { op.nums = {b->recordType, b->values1Number, b->values2Number, b->values3Number, b->internalHeaderNumber, b->header2Number, b->userHeaderNumber, b->version, b->recLastWriteTimeMillis}; } A.zstructFree(b); break; }
  case OP_TSRANGE: { int v[4] = {0, 0, 0, 0}; op.status = op.capi ? A.hec_dss_tsGetDateTimeRange((dss_file *)h, g.str(op.path), (int)op.a[0], v, v + 1, v + 2, v + 3) : A.ztsGetDateTimeRange(h, g.str(op.path), (int)op.a[0], v, v + 1, v + 2, v + 3); if (op.status == 0) { op.nums = {(i64)(v[0] - JUL2000) * 86400 + v[1], (i64)(v[2] - JUL2000) * 86400 + v[3]}; } break; }
  case OP_TXTFILE: { // text import/export round trip: export the record to a text file, import it under another name
    char *fn = g.str("/tmp/x.txt"); op.status = A.ztextRetrieveToFile(h, g.str(op.path), fn); if (op.status == 0) { auto *d = K.fileData("/tmp/x.txt"); op.out = d ? std::string(d->begin(), d->end()) : "<none>"; } break; }
  case OP_FILEINFO: { int a = 0, b = 0, c = 0; char s[256] = ""; (void)s; op.nums.push_back(A.zfileError(h)); (void)a; (void)b; (void)c; op.status = 0; break; }
  default: op.status = 0;
  }
}
