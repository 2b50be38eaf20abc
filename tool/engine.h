// Path-sensitive abstract interpreter (property simulation): the abstract
// states that reach a block are partitioned by the monitor's typestate and
// joined inside each partition. Values are symbolic terms, branch conditions
// add facts (term == c, term != c); nothing is executed and no solver is used.
#pragma once
#include "common.h"
#include <unordered_map>
#include <optional>

struct Val;
typedef const Val *V;
enum VK : uint8_t { CONST, GLOB, PARAM, ALLOCA, OFF, ELEM, LOAD0, SYM, JOIN, OP, OLD, BYVAL };
enum { OP_EQ = 1000, OP_ULT, OP_SLT, OP_NOT };
struct Val {
   VK k; unsigned op = 0; int64_t c = 0; const void *p = nullptr; V a = nullptr, b = nullptr;
   unsigned ctx = 0; unsigned id = 0; uint64_t mask = 0; unsigned depth = 0;
   mutable std::vector<str> tags;
   void tag(const str &t) const { if (!t.empty() && std::find(tags.begin(), tags.end(), t) == tags.end()) tags.push_back(t); }
   bool hasTag(const str &t) const { return std::find(tags.begin(), tags.end(), t) != tags.end(); }
};
namespace std { template <> struct less<const Val *> { bool operator()(const Val *a, const Val *b) const { return a->id < b->id; } }; } // creation order: reproducible
struct Fact { bool eq = false; int64_t v = 0; std::set<int64_t> ne;
   bool operator==(const Fact &o) const { return eq == o.eq && v == o.v && ne == o.ne; } };

struct Trace { std::shared_ptr<Trace> prev; const Instruction *i = nullptr; const char *text = ""; int64_t c = 0; int n = 0; ~Trace();};

struct ObjSt {
   bool own = false; int ref = 0, claim = 0, lock = 0; bool written = false, dirty = false; int x = 0;
   const Instruction *acq = nullptr; 
   bool sameKey(const ObjSt &o) const { return own == o.own && ref == o.ref && claim == o.claim && lock == o.lock && written == o.written && dirty == o.dirty && x == o.x; }
};

struct State {
   std::map<V, V> mem;
   std::vector<std::map<const llvm::Value *, V>> regs; // one per frame
   std::map<V, Fact> facts;
   std::map<V, std::set<V>> prov;
   std::set<V> fresh;           // values known to differ from every older value
   std::set<str> written;       // tags possibly modified since entry
   std::set<V> escaped;         // allocas whose address escaped
   std::map<V, ObjSt> objs;     // monitor: tracked objects
   std::map<str, int> cnt;      // monitor: counters (locks, flags)
   std::map<str, const Instruction *> cntAt; // where last changed (not part of key)
   std::shared_ptr<Trace> trace;
};

class Engine;
struct FnSummary {
   bool analysed = false, neutral = true, budget = false;
   std::set<str> wants;  // monitor-defined requirement strings
   std::set<int> writesParam; // direct content written through param i
   std::set<int> writesNode;  // content of the node struct param i
   unsigned exits = 0, paths = 0;
};

class Monitor {
public:
   Engine *E = nullptr;
   virtual ~Monitor() {}
   virtual str name() = 0;
   // returns true when the call is modelled; out = resulting (state, value)
   virtual bool call(State &s, const CallBase *cb, const str &callee, const Slot *slot,
                     std::vector<V> &args, std::vector<std::pair<State, V>> &out) { return false; }
   virtual void load(State &s, V addr, const Instruction *i) {}
   virtual void loaded(State &s, V val, const Instruction *i) {}
   virtual void store(State &s, V addr, V val, const Instruction *i, uint64_t size) {}
   virtual void placed(State &s, V addr, V val, const Instruction *i) {}  // val now stored at addr
   virtual void opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args) {}
   virtual void opaqueResult(State &s, const CallBase *cb, Function *f, V v) {} // v: result of a call that was not followed
   virtual void assumed(State &s, const Instruction *br) {}
   virtual void rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot) {}
   virtual bool skip(Function *f) { return false; }        // not analysed (implementation side)
   virtual bool interesting(Function *f) { return true; }
   virtual void prune(State &s, std::function<bool(V)> referenced) {}
   virtual bool noInline(Function *f) { return false; }
   virtual bool forceInline(Function *f) { return false; }
   virtual void symRedefined(State &s, V v, const Instruction *i) {}
   virtual bool provParts() { return false; }
   virtual bool partitionLoopPhi() { return false; }
   virtual bool partitionPhi() { return true; }
   // atomic read-modify-write: true when modelled; out = (state, old value); for compare-and-swap ok tells the outcome
   virtual bool atomic(State &s, const Instruction *i, V addr, V expected, V nv, std::vector<std::pair<State, int>> &out) { return false; }
   virtual bool rmwOld(State &s, V addr, V oldv, const Instruction *i, std::vector<State> &out) { return false; } // old value of an update; true when split into out
   virtual void clobbered(State &s, V addr, V oldv) {}
   virtual bool released(State &s, V v) { return false; }
   virtual void frameGone(State &s, unsigned ctx) {} // an inlined frame was left
   virtual bool keepCell(const State &s, V addr) { return true; }
};

struct FnInfo {
   std::vector<const BasicBlock *> rpo;
   std::map<const BasicBlock *, int> idx;
   std::map<const BasicBlock *, std::set<const llvm::Value *>> liveIn;
   std::map<const BasicBlock *, std::set<const llvm::Value *>> deadAlloca; // dead on entry
   std::set<const BasicBlock *> loopHead, canReturn;
   std::set<const PHINode *> induction;
   std::set<str> switchTags;
   unsigned size = 0; bool loops = false;
};
struct ModSet {
   std::set<str> tags;                    // struct.field written through loaded / global pointers
   std::map<int, std::set<str>> ptags;    // ... written directly inside the object parameter i points to
   std::set<int> params;                  // untyped write through parameter i
   std::set<int> captures;                // parameter i may be stored in memory
};

class Engine {
public:
   Program &P;
   Monitor &M;
   std::map<Function *, FnSummary> sums;
   std::vector<Finding> findings;
   std::set<str> findKeys;
   std::set<Function *> nonNeutral;
   std::map<Function *, FnInfo> infos;
   std::map<Function *, ModSet> mods;
   std::vector<Function *> order;  // bottom up
   std::map<Function *, int> sccId; std::map<int, int> sccSize;
   Function *root = nullptr;
   std::vector<Function *> stack;
   std::vector<const CallBase *> callStack;
   bool resultIgnored(const CallBase *cb, const CallBase **where); // through forwarding wrappers
   unsigned smallLimit = 60;
   unsigned maxParts = 400;
   uint64_t steps = 0, stepLimit = 4000000; // per root
   bool overBudget = false; bool late();
   unsigned long totalSteps = 0, totalRoots = 0, totalExits = 0;
   std::vector<str> overBudgetFns;

   Engine(Program &p, Monitor &m);
   void run(std::function<bool(Function *)> filter = nullptr);
   void analyseRoot(Function *f);

   // ---- values
   V intern(Val v);
   V cst(int64_t c); V glob(const void *g); V param(Function *f, unsigned i);
   V off(V b, int64_t c); V elem(V b, V i, int64_t sz); V load0(V a);
   V sym(unsigned ctx, const void *i, V extra = nullptr); V op(unsigned o, V a, V b = nullptr);
   V old(V a, unsigned kind = 0); V mkJoin(unsigned ctx, const void *bb, V a, const void *slot);
   V cmp(CmpInst::Predicate p, V a, V b);
   V mkNot(V a);
   static V strip(V a) { while (a->k == OFF || a->k == ELEM) a = a->a; return a; }
   static int64_t offOf(V a) { return a->k == OFF ? a->c : 0; }
   static V baseOf(V a) { return a->k == OFF ? a->a : a; }
   bool contains(V t, V x);
   V subst(V t, V x, V y, std::map<V, V> &memo);
   bool referenced(const State &s, V x);
   void substState(State &s, V x, V y);
   V freshSym(State &s, const Instruction *i, V extra = nullptr);
   std::optional<int64_t> known(const State &s, V v);
   bool nonZero(const State &s, V v);
   bool isZero(const State &s, V v) { auto k = known(s, v); return k && *k == 0; }
   bool assume(State &s, V c, bool t);
   void setEq(State &s, V v, int64_t c);
   bool feasibleEq(const State &s, V v, int64_t c);
   V simplify(const State &s, V v);

   // ---- memory
   V eval(State &s, const llvm::Value *v);
   V gep(State &s, const GEPOperator *g);
   V loadMem(State &s, V addr, const Instruction *i, const str &tag);
   void storeMem(State &s, V addr, V val, const str &tag, Type *ty);
   void copyMem(State &s, V dst, V src, uint64_t n, const Instruction *i);
   void killRange(State &s, V dst, uint64_t n);
   void havoc(State &s, const CallBase *cb, const ModSet &m, std::vector<V> &args);
   void leafFields(Type *t, uint64_t base, std::vector<std::pair<uint64_t, Type *>> &out);
   Type *typeAt(V addr);
   bool keep(const State &s, V a);
   bool localAddr(V a) { V b = strip(a); return b->k == ALLOCA || b->k == BYVAL; }

   unsigned ctx() { return ctxId; }
   void report(const str &rule, const Instruction *at, const str &key, const str &msg, const State &s);
   void note(State &s, const Instruction *i, const char *t, int64_t c = 0);
   str describe(V v);
   const FnInfo &info(Function *f);
   bool isLocalFrameAddr(V a);
   str instKey(const Instruction *i); // function + callee-based stable key
   void mkMods();

   unsigned vid(const llvm::Value *v) { auto it = vids.find(v); return it != vids.end() ? it->second : (vids[v] = vids.size()); }
private:
   std::unordered_map<const llvm::Value *, unsigned> vids;
   std::unordered_map<uint64_t, std::vector<std::unique_ptr<Val>>> tab;
   unsigned nextId = 1, ctxId = 0;
   std::map<std::pair<unsigned, const void *>, unsigned> ctxIds; unsigned nextCtx = 1;
   struct Exit { State s; V ret; const Instruction *i; };
   std::vector<Exit> runFunction(Function *f, State s, unsigned myctx);
   void transfer(const Instruction *i, std::vector<State> &in, std::vector<State> &out, const DataLayout &dl);
   void doCall(const CallBase *cb, State s, std::vector<State> &out);
   str partKey(const State &s);
   bool join(State &into, State &from, unsigned ctx, const BasicBlock *bb);
   void gc(State &s, Function *f, const BasicBlock *bb);
   void computeOrder();
};
str baseName(const str &path);
