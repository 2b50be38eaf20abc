#include "order.h"
str OrderMonitor::eventName(const CallBase *cb, const str &callee, const Slot *sl)
{
   if (!callee.empty()) return callEvents.count(callee) ? callee : "";
   if (sl) { str n = sl->ops + "." + sl->field; if (slotEvents.count(n)) return n; }
   return "";
}
void OrderMonitor::prepare(Program &P)
{
   std::vector<Function *> wl;
   for (Function *f : P.funcs) {
      bool ev = false;
      for (auto &i : instructions(*f)) {
         if (auto *cb = dyn_cast<CallBase>(&i)) { Slot sl; bool h = P.slot(cb, sl); if (!eventName(cb, P.calleeName(cb), h ? &sl : nullptr).empty()) ev = true; }
         else if (auto *st = dyn_cast<StoreInst>(&i)) ev |= storeTags.count(P.tagOf(st->getPointerOperand()));
         else if (auto *ld = dyn_cast<LoadInst>(&i)) ev |= loadTags.count(P.tagOf(ld->getPointerOperand()));
         else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&i)) ev |= casTags.count(P.tagOf(cx->getPointerOperand()));
         else if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) ev |= casTags.count(P.tagOf(rm->getPointerOperand()));
         if (ev) break;
      }
      if (ev) wl.push_back(f);
   }
   while (!wl.empty()) {
      Function *f = wl.back(); wl.pop_back(); if (!inl.insert(f).second) continue;
      if (callEvents.count(srcName(f))) continue; // an event itself: callers see only the event
      for (auto *cb : P.callers[f]) wl.push_back(cb->getFunction());
   }
}
bool OrderMonitor::call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out)
{
   str n = eventName(cb, callee, sl); if (n.empty()) return false;
   sites[n].insert(cb);
   evCall(s, cb, n, args);
   return evFork(s, cb, n, args, out);
}
void OrderMonitor::opaqueResult(State &s, const CallBase *cb, Function *f, V v)
{
   Slot sl; bool h = !f && E->P.slot(cb, sl);
   str n = eventName(cb, E->P.calleeName(cb), h ? &sl : nullptr); if (!n.empty()) evResult(s, cb, n, v);
}
void OrderMonitor::loaded(State &s, V val, const Instruction *i)
{
   auto *l = dyn_cast<LoadInst>(i); if (!l) return; str t = E->P.tagOf(l->getPointerOperand());
   if (loadTags.count(t)) { sites["load " + t].insert(i); evLoad(s, t, E->eval(s, l->getPointerOperand()), val, i); }
}
void OrderMonitor::store(State &s, V a, V val, const Instruction *i, uint64_t size)
{
   auto *st = dyn_cast<StoreInst>(i); if (!st) return; str t = E->P.tagOf(st->getPointerOperand());
   if (storeTags.count(t)) { sites["store " + t].insert(i); evStore(s, t, a, val, i); }
}
bool OrderMonitor::atomic(State &s, const Instruction *i, V a, V ex, V nv, std::vector<std::pair<State, int>> &out)
{
   str t = E->P.tagOf(isa<AtomicRMWInst>(i) ? cast<AtomicRMWInst>(i)->getPointerOperand() : cast<AtomicCmpXchgInst>(i)->getPointerOperand());
   if (!casTags.count(t)) return false;
   sites["atomic " + t].insert(i);
   if (!ex) { evRmw(s, t, a, nv, i); return false; }
   auto f = E->known(s, ex), n = E->known(s, nv);
   State fail = s;
   evCas(s, t, f ? *f : -1, n ? *n : -1, i);
   out.push_back({s, 1}); out.push_back({fail, 0});
   return true;
}
void OrderMonitor::rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot) { evExit(f, s, ret, i); }
void OrderMonitor::go(Program &P, Result &R, const std::map<str, long> &floors)
{
   prepare(P);
   Engine En(P, *this); E = &En;
   En.run([&](Function *f) { return inl.count(f) && rootWanted(f) && (allRoots || P.callers[f].empty() || P.addrTaken.count(f)) && !callEvents.count(srcName(f)); });
   R.findings = En.findings;
   R.counts["functions_analysed"] = En.totalRoots; R.counts["functions_followed"] = inl.size(); R.counts["instructions_interpreted"] = En.totalSteps; R.counts["exits_checked"] = En.totalExits; R.counts["functions_over_budget"] = En.overBudgetFns.size(); R.counts["obligations_checked"] = checks;
   long n = 0; for (auto &k : sites) { R.counts["sites." + k.first] = k.second.size(); n += k.second.size(); for (auto *i : k.second) R.samples.push_back(k.first + " at " + fileOfInst(i) + ":" + std::to_string(lineOf(i))); }
   for (auto &f : floors) R.floor("sites." + f.first, sites.count(f.first) ? sites[f.first].size() : 0, f.second);
   if (checks == 0) R.broken.push_back("no obligation was checked");
   for (auto &o : En.overBudgetFns) R.samples.push_back("over budget: " + o);
}

// ---- memtable life cycle
class MemtableRules : public OrderMonitor {
   enum { READY = 1, FINALIZED, COMPACTED, COMPACTING, ASSIGNED, INCORPORATING, INCORPORATED };
   static const char *nm(int64_t x) { static const char *n[] = {"INVALID", "READY", "FINALIZED", "COMPACTED", "COMPACTING", "INCORPORATION_ASSIGNED", "INCORPORATING", "INCORPORATED"}; return x >= 0 && x < 8 ? n[x] : "?"; }
public:
   MemtableRules()
   {
      callEvents = {"platform_batch_rwlock_get", "btree_insert", "btree_pack", "routing_filter_add", "btree_dec_ref", "task_enqueue", "mini_release"};
      slotEvents = {"memtable_context.process"};
      casTags = {"memtable.state"}; loadTags = {"memtable.state"};
      storeTags = {"memtable.state", "memtable.root_addr", "memtable.generation", "memtable_context.generation", "memtable_context.generation_retired", "trunk_branch.root_addr", "trunk_compacted_memtable.req", "trunk_compacted_memtable.wait_start", "trunk_compact_bundle_req.fp_arr", "trunk_subbundle.state", "trunk_handle.root_addr"};
   }
   void evCas(State &s, const str &tag, int64_t o, int64_t n, const Instruction *i) override
   {
      checks++;
      if (o < 0 || n < 0) { bad(s, i, "memtable-transition", "unknown", "a memtable changes its state from or to a state that is not fixed in the code"); return; }
      static const std::set<std::pair<int64_t, int64_t>> ok = {{READY, FINALIZED}, {FINALIZED, COMPACTING}, {COMPACTING, COMPACTED}, {COMPACTED, ASSIGNED}, {ASSIGNED, INCORPORATING}, {INCORPORATING, INCORPORATED}, {INCORPORATED, READY}};
      if (!ok.count({o, n})) bad(s, i, "memtable-transition", str(nm(o)) + "->" + nm(n), str("a memtable goes from ") + nm(o) + " to " + nm(n) + ", which its life cycle does not allow");
      switch (n) {
      case FINALIZED: set(s, "hand-over", i); set(s, "generation-bump", i); break;
      case COMPACTING: for (auto *x : {"pack", "filter", "branch", "req", "released"}) clr(s, x); set(s, "compacting", i); clr(s, "published"); break;
      case COMPACTED:
         need(s, "pack", i, "memtable-publish", "the memtable is declared COMPACTED before its contents were packed into a branch");
         need(s, "filter", i, "memtable-publish", "the memtable is declared COMPACTED before the filter of its branch was built");
         need(s, "branch", i, "memtable-publish", "the memtable is declared COMPACTED before the root of its branch was recorded");
         need(s, "req", i, "memtable-publish", "the memtable is declared COMPACTED before its compaction request was recorded");
         need(s, "released", i, "memtable-publish", "the memtable is declared COMPACTED although the unused extents of its tree were not given back");
         clr(s, "compacting"); set(s, "published", i); break;
      case ASSIGNED: set(s, "assigned", i); clr(s, "published"); clr(s, "installed"); break;
      case INCORPORATED:
         need(s, "installed", i, "memtable-retire", "the memtable is declared INCORPORATED before its branch was installed in the new root");
         clr(s, "assigned"); clr(s, "installed"); clr(s, "root-switched");
         for (auto *x : {"retire", "drop-ref", "build-filter"}) set(s, x, i);
         break;
      case READY:
         need(s, "freed", i, "memtable-recycle", "the memtable is made READY again although its last reference is not known to be gone");
         need(s, "new-tree", i, "memtable-recycle", "the memtable is made READY again before it has a new tree");
         need(s, "new-generation", i, "memtable-recycle", "the memtable is made READY again before it has its next generation");
         clr(s, "freed"); clr(s, "new-tree"); clr(s, "new-generation"); set(s, "recycled", i);
         break;
      }
   }
   void evStore(State &s, const str &t, V a, V val, const Instruction *i) override
   {
      if (t == "memtable.state") { // initial state of a memtable that was just cleared
         auto k = E->known(s, val);
         checks++; if (!(k && *k == READY && cleared(i))) bad(s, i, "memtable-transition", "plain store", "the state of a memtable is overwritten instead of being exchanged for an expected one");
      } else if (t == "memtable.root_addr" || t == "memtable.generation") {
         never(s, "recycled", i, "memtable-recycle", "a memtable is changed after it was made READY for inserts");
         set(s, t == "memtable.root_addr" ? "new-tree" : "new-generation", i);
      } else if (t == "memtable_context.generation") {
         if (E->known(s, val)) return;
         need(s, "generation-bump", i, "memtable-transition", "the current generation is advanced although its memtable was not just finalized"); clr(s, "generation-bump");
      } else if (t == "memtable_context.generation_retired") {
         if (E->known(s, val)) return;
         need(s, "retire", i, "memtable-retire", "a generation is retired although its memtable was not just incorporated"); clr(s, "retire");
      } else if (t == "trunk_branch.root_addr") { if (has(s, "compacting")) set(s, "branch", i); }
      else if (t == "trunk_compacted_memtable.req" || t == "trunk_compacted_memtable.wait_start" || t == "trunk_compact_bundle_req.fp_arr") {
         if (t == "trunk_compacted_memtable.req" && has(s, "compacting")) set(s, "req", i);
         never(s, "published", i, "memtable-publish", "the compacted memtable is changed after it was declared COMPACTED");
      } else if (t == "trunk_subbundle.state") { if (has(s, "assigned")) set(s, "installed", i); }
      else if (t == "trunk_handle.root_addr") set(s, "root-switched", i);
   }
   bool cleared(const Instruction *st)
   {
      for (auto &i : instructions(*st->getFunction())) if (auto *m = dyn_cast<MemSetInst>(&i)) return true;
      return false;
   }
   void evLoad(State &s, const str &tag, V a, V val, const Instruction *i) override { ObjSt o; o.own = true; o.acq = i; s.objs[val] = o; }
   void assumed(State &s, const Instruction *br) override
   {
      for (auto &o : s.objs) { auto k = E->known(s, o.first); if (k && *k == READY) set(s, "ready", br); }
   }
   void evCall(State &s, const CallBase *cb, const str &n, std::vector<V> &args) override
   {
      if (n == "btree_insert") { // inserts go to a memtable that was seen READY
         need(s, "ready", cb, "memtable-transition", "a tuple is inserted into a memtable that was not seen to be READY since the insert lock was taken");
      }
      else if (n == "platform_batch_rwlock_get") { auto k = E->known(s, args[1]); if (!k || *k == 0) clr(s, "ready"); }
      else if (n == "btree_pack" && has(s, "compacting")) set(s, "pack", cb);
      else if (n == "routing_filter_add" && has(s, "compacting")) set(s, "filter", cb);
      else if (n == "mini_release" && has(s, "compacting")) set(s, "released", cb);
      else if (n == "memtable_context.process") { need(s, "hand-over", cb, "memtable-hand-over", "a memtable is handed to compaction although it was not just finalized"); clr(s, "hand-over"); }
      else if (n == "task_enqueue" || n == "task_perform_one") {
         for (unsigned k = 0; k < cb->arg_size(); k++) if (auto *f = dyn_cast<Function>(cb->getArgOperand(k)->stripPointerCasts())) {
            str fn = srcName(E->P.resolve(const_cast<Function *>(f)));
            if (fn.find("memtable_flush") != str::npos) clr(s, "hand-over");
            if (fn.find("build_filter") != str::npos) { if (has(s, "build-filter")) { never(s, "retire", cb, "memtable-retire", "the filter build is queued before the memtable's generation was retired"); } clr(s, "build-filter"); }
         }
      }
   }
   bool evFork(State &s, const CallBase *cb, const str &n, std::vector<V> &args, std::vector<std::pair<State, V>> &out) override
   {
      if (n != "btree_dec_ref") return false;
      auto ty = args.size() > 3 ? E->known(s, args[3]) : std::nullopt;
      if (!ty || *ty != pageMemtable) return false;
      if (has(s, "drop-ref")) {
         need(s, "root-switched", cb, "memtable-retire", "the reference to an incorporated memtable is dropped before the root that contains its branch was switched in");
         never(s, "retire", cb, "memtable-retire", "the reference to an incorporated memtable is dropped before its generation was retired");
         clr(s, "drop-ref");
      }
      clr(s, "recycled"); clr(s, "new-tree"); clr(s, "new-generation"); clr(s, "freed");
      if (Function *f = E->P.callee(cb)) if (!f->isDeclaration()) E->havoc(s, cb, E->mods[f], args);
      State t = s; set(t, "freed", cb);
      V v = E->freshSym(s, cb); E->setEq(s, v, 0); V w = E->freshSym(t, cb); E->setEq(t, w, 1);
      out.push_back({s, v}); out.push_back({t, w}); return true;
   }
   int64_t pageMemtable = 3;
   void evExit(Function *f, State &s, V ret, const Instruction *i) override
   {
      due(s, "hand-over", i, "memtable-hand-over", "a finalized memtable is never handed to compaction");
      due(s, "generation-bump", i, "memtable-transition", "a memtable is finalized but the current generation is not advanced");
      due(s, "assigned", i, "memtable-retire", "a memtable is claimed for incorporation but never incorporated");
      due(s, "compacting", i, "memtable-publish", "a memtable is left in state COMPACTING");
      due(s, "retire", i, "memtable-retire", "an incorporated memtable's generation is not retired");
      due(s, "drop-ref", i, "memtable-retire", "the reference the store holds on an incorporated memtable is not dropped");
      due(s, "build-filter", i, "memtable-retire", "the filter build of an incorporated memtable is not queued");
   }
};
void runMemtable(Program &P, Result &R)
{
   MemtableRules M;
   M.go(P, R, {{"atomic memtable.state", 1}, {"store memtable_context.generation", 1}, {"store memtable_context.generation_retired", 1}, {"btree_dec_ref", 1}, {"memtable_context.process", 1}, {"btree_pack", 1}, {"btree_insert", 1}});
}
