#pragma once
#include "monitors.h"
// Protocol rules: events (calls, operation-table calls, stores, atomic updates) along every path from the
// functions nobody calls directly; functions that contain events are followed into, everything else is opaque.
class OrderMonitor : public Monitor {
public:
   std::set<str> callEvents, slotEvents, storeTags, loadTags, casTags; // what makes a function worth following
   std::set<Function *> inl; std::map<str, std::set<const Instruction *>> sites; unsigned long checks = 0;
   bool allRoots = false;                                              // analyse every function, not only the uncalled ones
   str name() override { return "order"; }
   void prepare(Program &P); virtual bool rootWanted(Function *f) { return true; }
   bool noInline(Function *f) override { return callEvents.count(srcName(f)) || !inl.count(f); }
   bool forceInline(Function *f) override { return inl.count(f); }
   bool has(State &s, const str &f) { auto it = s.cnt.find(f); return it != s.cnt.end() && it->second; }
   void set(State &s, const str &f, const Instruction *i) { s.cnt[f] = 1; s.cntAt[f] = i; }
   void clr(State &s, const str &f) { s.cnt.erase(f); s.cntAt.erase(f); }
   void need(State &s, const str &f, const Instruction *i, const str &rule, const str &msg) { checks++; if (!has(s, f)) bad(s, i, rule, f, msg); }
   void never(State &s, const str &f, const Instruction *i, const str &rule, const str &msg) { checks++; if (has(s, f)) bad(s, i, rule, f, msg); }
   void due(State &s, const str &f, const Instruction *exit, const str &rule, const str &msg) { checks++; if (has(s, f)) bad(s, s.cntAt.count(f) ? s.cntAt[f] : exit, rule, f, msg + " (leaving at line " + std::to_string(lineOf(exit)) + ")"); }
   void bad(State &s, const Instruction *i, const str &rule, const str &f, const str &msg) { E->report(rule, i, srcName(i->getFunction()) + ":" + f, msg, s); }
   // rule sets override these
   virtual void evCall(State &s, const CallBase *cb, const str &n, std::vector<V> &args) {}
   virtual void evResult(State &s, const CallBase *cb, const str &n, V v) {}
   virtual bool evFork(State &s, const CallBase *cb, const str &n, std::vector<V> &args, std::vector<std::pair<State, V>> &out) { return false; }
   virtual void evStore(State &s, const str &tag, V a, V val, const Instruction *i) {}
   virtual void evLoad(State &s, const str &tag, V a, V val, const Instruction *i) {}
   virtual void evCas(State &s, const str &tag, int64_t from, int64_t to, const Instruction *i) {}
   virtual void evRmw(State &s, const str &tag, V a, V nv, const Instruction *i) {}
   virtual void evExit(Function *f, State &s, V ret, const Instruction *i) {}
   str eventName(const CallBase *cb, const str &callee, const Slot *sl);
   bool call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out) override;
   void opaqueResult(State &s, const CallBase *cb, Function *f, V v) override;
   void loaded(State &s, V val, const Instruction *i) override;
   void store(State &s, V a, V val, const Instruction *i, uint64_t size) override;
   bool atomic(State &s, const Instruction *i, V a, V ex, V nv, std::vector<std::pair<State, int>> &out) override;
   void rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot) override;
   bool keepCell(const State &s, V a) override { return true; }
   void go(Program &P, Result &R, const std::map<str, long> &floors);
};
