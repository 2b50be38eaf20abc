#pragma once
#include "engine.h"
// what a run covered and found; printed as JSON
struct Result {
   std::map<str, long> counts;
   std::vector<str> samples;
   std::vector<Finding> findings;
   std::vector<str> broken;     // rule instances that vanished: the analysis itself is broken
   void floor(const str &n, long v, long min) { counts[n] = v; if (v < min) broken.push_back(n + " = " + std::to_string(v) + " (expected at least " + std::to_string(min) + ")"); }
};
void runLock(Program &P, Result &R);
void runStatus(Program &P, Result &R);
void runPage(Program &P, Result &R);
void runExtent(Program &P, Result &R);
void runMemtable(Program &P, Result &R);
void runClose(Program &P, Result &R);
void runCache(Program &P, Result &R);

class PageMonitor : public Monitor {
public:
   std::set<str> implFiles; std::set<Function *> asyncFns; bool asyncInit = false;
   std::map<Function *, std::set<std::pair<int, std::vector<int64_t>>>> dpaths;
   bool inArray(V a);
   const Instruction *site(const CallBase *cb);
   void clobbered(State &s, V a, V oldv) override;
   std::map<str, std::set<const Instruction *>> sites;
   std::set<const Instruction *> untracked, arrayed, assumedClaims;
   unsigned long accesses = 0, writes = 0, escapes = 0;
   std::map<Function *, std::set<std::pair<int, std::vector<int64_t>>>> wpaths;
   std::map<std::pair<Function *, unsigned>, bool> readsMemo;
   std::set<str> rootTransfers, slotAcquires;
   str name() override { return "page"; }
   bool skip(Function *f) override;
   bool call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out) override;
   void load(State &s, V a, const Instruction *i) override;
   void store(State &s, V a, V val, const Instruction *i, uint64_t size) override;
   void placed(State &s, V a, V val, const Instruction *i) override;
   void opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args) override;
   void rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot) override;
   void prune(State &s, std::function<bool(V)> referenced) override;
   bool keepCell(const State &s, V a) override;
   bool released(State &s, V v) override;
   void symRedefined(State &s, V v, const Instruction *i) override;
private:
   void objsOf(State &s, V a, std::set<V> &out);
   ObjSt &obj(State &s, V p);
   void wrote(State &s, V a, const Instruction *i, const str &how);
   bool pathOf(V a, int &param, std::vector<int64_t> &offs);
   void pathWrite(State &s, V a);
   std::map<std::pair<Function *, unsigned>, bool> deepMemo;
   bool readsThrough(Function *f, unsigned i);
   bool reads(Function *f, unsigned i);
};

// mutexes, spin locks, condition-variable locks and batch reader/writer locks
class LockMonitor : public Monitor {
public:
   struct Ev { int m = 0; }; 
   std::map<str, std::set<const Instruction *>> sites;     // primitive -> call sites
   std::map<std::pair<str, str>, std::pair<const Instruction *, str>> order; // held -> acquired
   std::map<Function *, std::set<str>> acquires;           // transitive, by lock name
   std::map<Function *, std::map<str, std::pair<const Instruction *, str>>> wants; // guard -> example
   std::map<Function *, bool> blocking;
   struct Deferred { str held; const CallBase *cb; Function *callee, *root; std::shared_ptr<Trace> trace; };
   std::vector<Deferred> deferred; std::set<str> deferredKeys;
   struct RootEx { str key; int n; const Instruction *at, *exit; std::shared_ptr<Trace> trace; };
   std::map<Function *, std::vector<RootEx>> roots; std::map<Function *, int> rootExits; unsigned long callbacks = 0;
   std::set<const Instruction *> retires; std::set<str> tagsOf(V a, const Instruction *i);
   std::set<str> locks; unsigned long guarded = 0;
   std::set<Function *> prim;
   str name() override { return "lock"; }
   bool skip(Function *f) override;
   bool interesting(Function *f) override { return true; }
   bool call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out) override;
   bool atomic(State &s, const Instruction *i, V a, V ex, V nv, std::vector<std::pair<State, int>> &out) override;
   void load(State &s, V a, const Instruction *i) override { access(s, a, i, false); }
   void store(State &s, V a, V val, const Instruction *i, uint64_t size) override;
   void opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args) override;
   void rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot) override;
   bool keepCell(const State &s, V a) override { return true; }
   std::set<Function *> concurrent; void mkConcurrent();
   bool isBlocking(Function *f);
private:
   str lockName(V a, V idx, bool &multi);
   void acquire(State &s, const Instruction *i, const str &n, const str &mode);
   void release(State &s, const Instruction *i, const str &n, const str &mode);
   void access(State &s, V a, const Instruction *i, bool write);
   int held(State &s, const str &n, const str &mode) { auto it = s.cnt.find(n + "|" + mode); return it == s.cnt.end() ? 0 : it->second; }
   void bump(State &s, const str &n, const str &mode, int d, const Instruction *i);
   bool anyHeld(State &s, const str &n);
   bool satisfied(State &s, const str &guard);
   void edges(State &s, const Instruction *i, const str &n);
};

// failure statuses: looked at, and not turned into success
class StatusMonitor : public Monitor {
public:
   std::set<const Instruction *> sites, checked; std::map<Function *, int> memo; unsigned long returns = 0;
   str name() override { return "status"; }
   bool isStatus(Function *f); bool isBool(Function *f);
   std::set<Function *> canFail, prev; std::set<const Instruction *> cannot; bool mayFail(const CallBase *cb, Function *f); bool exempt(const str &callee, const Function *in);
   bool statusCall(const CallBase *cb, Function *f);
   std::map<Function *, unsigned> resParams; std::set<const Instruction *> callbacks; void setup(Program &P); V completion(State &s); void judgeCompletion(State &s);
   std::set<const Instruction *> osSites, resLoads; bool sizeChecked(State &s, V v);
   void load(State &s, V a, const Instruction *i) override;
   void loaded(State &s, V v, const Instruction *i) override;
   bool noInline(Function *f) override { return isStatus(f) || isBool(f); }
   void opaqueResult(State &s, const CallBase *cb, Function *f, V v) override;
   void assumed(State &s, const Instruction *br) override;
   void placed(State &s, V a, V val, const Instruction *i) override;
   void opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args) override;
   void symRedefined(State &s, V v, const Instruction *i) override;
   void rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot) override;
   bool keepCell(const State &s, V a) override { return true; }
};

// heap blocks and paired resources
void runHeap(Program &P, Result &R);
class HeapMonitor : public Monitor {
public:
   std::map<const Instruction *, int> kinds; std::map<const Instruction *, V> heaps;
   std::map<str, std::set<const Instruction *>> sites, relSites; unsigned long accesses = 0, obligations = 0; std::map<Function *, std::set<std::pair<int, str>>> acqTags, relTags; std::map<str, std::set<std::pair<int, const Instruction *>>> allocCls, freeCls; int heapClass(State &s, V h); void both(const Instruction *at, const str &key, const str &msg, State &s);
   str name() override { return "heap"; }
   bool provParts() override { return true; }
   bool noInline(Function *f) override;
   bool call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out) override;
   void load(State &s, V a, const Instruction *i) override;
   void store(State &s, V a, V val, const Instruction *i, uint64_t size) override;
   void placed(State &s, V a, V val, const Instruction *i) override;
   void opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args) override;
   void assumed(State &s, const Instruction *br) override;
   void rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot) override;
   void prune(State &s, std::function<bool(V)> referenced) override;
   bool released(State &s, V v) override;
   void clobbered(State &s, V addr, V oldv) override;
   void frameGone(State &s, unsigned ctx) override;
private:
   std::map<std::pair<Function *, unsigned>, bool> dmemo, mmemo;
   std::set<const Instruction *> views; void loaded(State &s, V val, const Instruction *i) override; void killViews(State &s, V base, int64_t o0, int64_t sz, const CallBase *cb); void staleView(State &s, const CallBase *cb, ObjSt &o);
   V addrKey(int kind, V p); void recordTag(std::map<Function *, std::set<std::pair<int, str>>> &m, int kind, V at);
   int kindOf(const Instruction *i); bool dead(State &s, V v); bool canBeNull(const str &n); std::set<V> provOf(State &s, V v); bool fromParam(V b);
   bool derefs(Function *f, unsigned i); bool movesOut(Function *f, unsigned i); str allocName(const Instruction *i); bool failure(State &s, Function *f, V ret);
   void access(State &s, V a, const Instruction *i, const char *how); void leak(State &s, V v, ObjSt &o, const Instruction *exit, const str &why);
   void acquire(State &s, V key, int kind, const Instruction *i, V heap); void release(State &s, V key, int kind, const CallBase *cb, V heap);
};
