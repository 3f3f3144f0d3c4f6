// Operations, oracle, generators: everything above the kernel.
#pragma once
#include "kernel.hpp"
extern "C" {
#include "heclib.h"
#include "hecdss.h"
#include "zdssKeys.h"
int zundeleteAll(long long *ifltab);
int zundeleteAll(long long *ifltab);
}
#define API_LIST(X) \
  X(hec_dss_zopen) X(zopenExtended) X(zclose) X(zclearMessageAll) X(zgetFileVersion) X(zset) X(zsetFile) X(zquery) X(zinquire) X(zdelete) X(zundelete) X(zrename) \
  X(zaliasAdd) X(zaliasRemove) X(zduplicateRecord) X(zcopyRecord) X(zcopyFile) X(zsqueeze7) X(zcatalog) X(zcheckFile) X(zcheck) X(zdataType) \
  X(zgetRecordBasics) X(zgetLastWriteTimeRec) X(zgetLastWriteTimeFile) X(zgetDataCRC) X(zwhatChangedSetStart) X(zwhatChanged) X(zwhatChangedCompare) X(zwrite) X(zread) \
  X(zstructTransferNew) X(zstructFree) X(zstructTextNew) X(ztextStore) X(ztextRetrieve) X(zstructArrayNew) X(zarrayStore) X(zarrayRetrieve) \
  X(zstructPdNew) X(zstructPdNewFloats) X(zstructPdNewDoubles) X(zpdStore) X(zpdRetrieve) X(zstructSpatialGridNew) X(zspatialGridStore) X(zspatialGridRetrieve) \
  X(zstructSpatialTinNew) X(zspatialTinStore) X(zspatialTinRetrieve) X(zstructLocationNew) X(zlocationStore) X(zlocationRetrieve) X(zstructCatalogNew) \
  X(zstructRecordBasicsNew) X(zstructTsNew) X(zstructTsNewTimes) X(zstructTsNewRegFloats) X(zstructTsNewRegDoubles) X(zstructTsNewIrregFloats) X(zstructTsNewIrregDoubles) \
  X(ztsStore) X(ztsRetrieve) X(ztsGetDateTimeRange) X(zerrorCheck) X(zfileError) X(zisError) X(zsetMessageLevel) X(zerror) X(zlocationPath) X(zsqueezeNeeded) X(zsqueeze) \
  X(ztextStoreFromFile) X(ztextRetrieveToFile) X(zcatalogFile) X(zfileAccessInfo) X(zcollectionCat) X(zundeleteAll) \
  X(hec_dss_open) X(hec_dss_close) X(hec_dss_record_count) X(hec_dss_catalog) X(hec_dss_dataType) X(hec_dss_recordType) X(hec_dss_tsGetSizes) X(hec_dss_tsRetrieve) \
  X(hec_dss_tsStoreRegular) X(hec_dss_tsStoreIregular) X(hec_dss_locationRetrieve) X(hec_dss_locationStore) X(hec_dss_pdRetrieveInfo) X(hec_dss_pdRetrieve) X(hec_dss_pdStore) \
  X(hec_dss_gridRetrieve) X(hec_dss_gridStore) X(hec_dss_arrayStore) X(hec_dss_arrayRetrieve) X(hec_dss_arrayRetrieveInfo) X(hec_dss_textStore) X(hec_dss_textRetrieve) \
  X(hec_dss_delete) X(hec_dss_squeeze) X(hec_dss_set_value) X(hec_dss_getVersion) X(hec_dss_tsGetDateTimeRange) X(hec_dss_tsRetrieveInfo) X(hec_dss_getFileVersion) X(hec_dss_numberPeriods)
struct Api {
#define X(n) decltype(&::n) n;
  API_LIST(X)
#undef X
};
void loadApi(Proc *p);

enum Kind { KD_TEXT, KD_TABLE, KD_ARRAY, KD_PD, KD_GRID, KD_TIN, KD_LOC, KD_RAW, KD_TSR, KD_TSI, KD_COUNT };
extern const char *kindName[];
// Spec flags
enum { FL_DBL = 1, FL_QUAL = 2, FL_INOTE = 4, FL_CNOTE = 8, FL_MISS = 16, FL_REP = 32, FL_UH = 128, FL_COMP = 256, FL_LAB = 512 };
struct Spec { int kind = 0; u64 v = 0; int n = 0, n2 = 0, n3 = 0; int flags = 0; };

enum OpCode { OP_OPEN, OP_CLOSE, OP_STORE, OP_READ, OP_DELETE, OP_UNDELETE, OP_UNDELALL, OP_RENAME, OP_DUP, OP_COPYREC, OP_COPYFILE, OP_SQUEEZE, OP_CATALOG, OP_CHECKFILE,
  OP_EXISTS, OP_DTYPE, OP_ALIASADD, OP_ALIASRM, OP_SETFILE, OP_WHATSET, OP_WHATCHG, OP_LWT, OP_COUNT_, OP_SLEEP, OP_POWER, OP_EXIT, OP_AUDIT, OP_BASICS, OP_TSRANGE, OP_TXTFILE, OP_CORRUPT, OP_FILEINFO, OP_READAS, OP_RECOVER, OP_LAST };
extern const char *opName[];
struct TsVal { i64 t = 0; double v = 0; int q = 0; int n = 0; bool miss = false; std::string c; };
struct Op {
  int id = 0, proc = 0, phase = 0, slot = -1, code = 0, file = 0, file2 = 0, mode = 0; bool capi = false; std::string path, path2; Spec sp; i64 a[6] = {0, 0, 0, 0, 0, 0};
  int arm = 0; i64 armCount = 0; u64 armArg = 0;
  // results
  bool started = false, done = false, killed = false, powered = false, opened = false, openFail = false, faulted = false, dmg = false; int status = 0, st2 = 0; std::string out; std::vector<std::string> list; std::vector<i64> nums, lw; i64 lwt = 0; std::vector<TsVal> vals; bool hasQ = false, hasN = false, hasC = false; int reads = 0;
  u64 tInv = 0, tRet = 0; int faultKind = 0; u64 nwrites = 0; u64 fwrites = 0; int hmode = -1; u64 hstep = 0; i64 simInv = 0, simRet = 0; bool durable = false, shared = false; int waits = 0; i64 nowInv = 0; std::string self; // first disagreement of the exported C interface with the library
};
struct Cfg {
  int nproc = 1, nfiles = 1; int hash = 0, bin = 0; int defMode = 0; int reclaim = 0; bool track = false; double preempt = 0, turn = 0; int fill = 0xA5; int powerMode = 0; bool lin = false; int mlvl = 1; i64 diskCap = -1; int ro = 0; int maxSteps = 400000;
  int leak = 0; int noprobe = 0; int legacy = 0;
};
struct Case { std::string prop; u64 seed = 0; Cfg cfg; std::vector<Op> ops; std::vector<SchedEv> sched; bool replaySched = false; };

std::string caseToText(const Case &c); bool caseFromText(const std::string &t, Case &c);
Case generate(const std::string &prop, u64 seed);
struct RunResult { Violation v; u64 hash = 0; u64 shape = 0; Stats st; int ops = 0, okops = 0; std::vector<SchedEv> sched; u64 simUs = 0; u64 nontriv = 0; };
RunResult runCase(Case &c, FILE *trace);

// content model
typedef std::map<std::string, std::string> Rec;
Rec genRec(const Spec &s, const std::string &path);
std::string canon(int kind, const Rec &r);
std::string expectContent(const Spec &s, const std::string &path);
u64 hv(u64 v, u64 i);
std::string upper(const std::string &s);
std::string part(const std::string &path, int k); // k = 0..5
std::string withPart(const std::string &path, int k, const std::string &v);
int kindOfPath(const std::string &path);
std::string keyOf(const std::string &path);   // normalised record key (upper case, location path folded)
// time series helpers (seconds since 01JAN2000 00:00)
i64 tsInterval(const std::string &path);      // seconds, 0 irregular, -1 month
i64 tsSlotTime(i64 iv, i64 k); i64 tsSlotIndex(i64 iv, i64 t, bool up);
std::string tsDPart(const std::string &path, i64 t); // D part of the record that holds the value at t
std::string tsKey(const std::string &path);   // path without D part, upper case
std::vector<TsVal> tsValues(const Op &op);    // what an OP_STORE of a time series writes
int typeCode(int kind, const std::string &path, int flags);
void execOp(Proc *p, Op &op);
std::string fileName(int f);

struct Oracle; // oracle.cpp
Oracle *newOracle(Case *c);
void oracleBegin(Oracle *o, Op &op);    // op invoked
bool oracleDamaged(Oracle *o, Op &op);   // the op works on a record that may be half written
void oracleDone(Oracle *o, Op &op);     // op completed (called in completion order)
void oracleKilled(Oracle *o, Op &op, bool power);   // in flight when its process died
void oraclePower(Oracle *o);            // whole machine lost power
void oraclePhaseEnd(Oracle *o, int phase);
void oracleEnd(Oracle *o);              // history checks
void freeOracle(Oracle *o);
extern Case *CUR;
std::string tsUnits();
