// Extents: claimed by one caller at a time, dropped by reference count, freed once and only after their cached pages are discarded
#include "order.h"
enum { K_DEC = 2101, K_FREED = 2102, K_CLAIM = 2103 };
class ExtentRules : public Monitor {
public:
   std::map<str, std::set<const Instruction *>> sites; std::set<Function *> claimers; unsigned long checks = 0;
   struct Late { str rule, key, msg; const Instruction *at; };
   str name() override { return "extent"; }
   bool top() { Function *f = E->root; return E->P.callers[f].empty() || E->P.addrTaken.count(f); }
   static V norm(V a) // the base of an extent does not depend on how often it is computed
   {
      while (a->k == OP && a->op == Instruction::And && a->a && a->b) { if (a->b->k == CONST) break; bool m = a->b->hasTag("allocator_config.extent_mask") || (a->b->a && a->b->a->hasTag("allocator_config.extent_mask")); bool m2 = a->a->hasTag("allocator_config.extent_mask") || (a->a->a && a->a->a->hasTag("allocator_config.extent_mask")); if (m) a = a->a; else if (m2) a = a->b; else break; }
      return a;
   }
   static bool unused(V a) { for (V x = a; x; x = (x->k == OFF || x->k == ELEM || x->k == LOAD0 || x->k == SYM || x->k == OLD) ? x->a : nullptr) if (x->hasTag("mini_allocator.next_extent")) return true; return false; }
   static bool isDec(V k) { return k->k == OP && k->op == K_DEC; }
   ObjSt *find(State &s, V key, V &k) { for (auto &o : s.objs) if (isDec(o.first) && o.first->a == key) { k = o.first; return &o.second; } return nullptr; }
   void look(State &s)
   {
      std::vector<std::pair<V, ObjSt>> up;
      for (auto &o : s.objs) if (isDec(o.first) && o.second.x == 1) {
         V r = o.first->b; auto k = E->known(s, r);
         if (k && *k == 1) { o.second.written = o.second.dirty = true; continue; }
         if (k) { o.second.dirty = true; continue; }
         if (!o.second.dirty) for (auto &f : s.facts) if (E->contains(f.first, r)) { o.second.dirty = true; break; }
      }
   }
   void assumed(State &s, const Instruction *br) override
   {
      look(s);
      for (auto it = s.objs.begin(); it != s.objs.end();) { bool k = false; if (it->second.x == 5) for (auto &f : s.facts) if (E->contains(f.first, it->first)) k = true; if (k) it = s.objs.erase(it); else ++it; } // the code knows which extent this is
   }
   const Instruction *site(const Instruction *cb) { for (auto i = E->callStack.rbegin(); i != E->callStack.rend() && fileOfInst(cb).rfind(".h") != str::npos; ++i) cb = *i; return cb; }
   void freed(State &s, V k, const Instruction *i) { V key = k->a; s.objs.erase(k); ObjSt o; o.own = true; o.x = 9; o.acq = i; Val v; v.k = OP; v.op = K_FREED; v.a = key; v.b = key; s.objs[E->op(K_FREED, key, key)] = o; }
   void use(State &s, const CallBase *cb, V key, const str &how)
   {
      for (auto &o : s.objs) if (o.first->k == OP && o.first->op == K_FREED && o.first->a == key) { E->report("extent-use-after-free", cb, srcName(cb->getFunction()), how + " an extent that was already given back (line " + std::to_string(lineOf(o.second.acq)) + ")", s); return; }
   }
   bool call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out) override
   {
      if (!sl) return false;
      str n = sl->ops + "." + sl->field, fn = srcName(cb->getFunction());
      if (n == "allocator_ops.dec_ref") {
         sites[n].insert(site(cb)); checks++; look(s);
         V key = norm(args[1]), k; use(s, cb, key, "drops a reference to");
         ObjSt *o = find(s, key, k);
         bool last = o && (o->x == 2 || (o->x == 1 && o->written));
         if (last) {
            if (o->x == 1 && !unused(key)) E->report("extent-not-discarded", cb, fn, "an extent is freed although its pages were not discarded from the cache", s);
            freed(s, k, cb); V v = E->freshSym(s, cb); E->setEq(s, v, 0); out.push_back({s, v}); return true;
         }
         if (o && !o->dirty) E->report("extent-ref-ignored", o->acq, fn, "nobody looks whether the dropped reference was the last one", s);
         if (o) s.objs.erase(k);
         V v = E->freshSym(s, cb); ObjSt d; d.x = 1; d.acq = cb; d.claim = E->callStack.size(); s.objs[E->op(K_DEC, key, v)] = d;
         out.push_back({s, v}); return true;
      }
      if (n == "cache_ops.extent_discard") {
         sites[n].insert(site(cb)); checks++; look(s);
         V key = norm(args[1]), k; use(s, cb, key, "discards");
         ObjSt *o = find(s, key, k);
         if (!o) {
            if (top()) E->report("extent-discard-early", cb, fn, "the pages of an extent are discarded although its last reference was not dropped before", s); else E->sums[E->root].neutral = false;
            ObjSt d; d.x = 2; d.acq = cb; d.claim = E->callStack.size(); s.objs[E->op(K_DEC, key, key)] = d; return false;
         }
         if (o->x == 2) { E->report("extent-discard-early", cb, fn, "the pages of an extent are discarded twice", s); return false; }
         if (!o->written) E->report("extent-discard-early", cb, fn, "the pages of an extent are discarded although others may still hold references to it", s);
         o->x = 2; return false;
      }
      if (n == "allocator_ops.alloc") {
         sites[n].insert(site(cb)); checks++;
         State f = s; V fv = E->freshSym(f, cb); f.facts[fv].ne.insert(0);
         V v = E->freshSym(s, cb); E->setEq(s, v, 0);
         V e = E->freshSym(s, cb, E->cst(7)); e->tag("extent"); E->storeMem(s, args[1], e, "", Type::getInt64Ty(cb->getContext()));
         if (args[1]->k == ALLOCA) { ObjSt o; o.x = 5; o.acq = cb; s.objs[e] = o; }
         out.push_back({f, fv}); out.push_back({s, v}); return true;
      }
      if (sl->ops == "cache_ops") for (V a : args) if (a->k != CONST) use(s, cb, norm(a), "uses");
      return false;
   }
   void keepAlloc(State &s, V val) { for (auto it = s.objs.begin(); it != s.objs.end();) if (it->second.x == 5 && (val == it->first || E->contains(val, it->first))) it = s.objs.erase(it); else ++it; }
   void placed(State &s, V a, V val, const Instruction *i) override { if (!E->localAddr(a)) keepAlloc(s, val); }
   void opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args) override { for (V a : args) keepAlloc(s, a); }
   void prune(State &s, std::function<bool(V)> referenced) override
   {
      for (auto it = s.objs.begin(); it != s.objs.end();) {
         V k = it->first; ObjSt &o = it->second;
         if (o.x == 9 && !referenced(k->a)) { it = s.objs.erase(it); continue; }
         if (isDec(k) && o.x == 1 && o.dirty && !o.written && !referenced(k->b)) { it = s.objs.erase(it); continue; }
         ++it;
      }
   }
   bool refCount(V a) { for (V x = a; x; x = (x->k == OFF || x->k == ELEM || x->k == LOAD0) ? x->a : nullptr) if (x != a && x->hasTag("rc_allocator.ref_count")) return true; return false; }
   void store(State &s, V a, V val, const Instruction *i, uint64_t size) override
   {
      auto *st = dyn_cast<StoreInst>(i); if (!st || !refCount(a) || !st->getValueOperand()->getType()->isIntegerTy(8)) return;
      checks++; E->report("extent-count-plain", i, srcName(i->getFunction()), "the reference count of an extent is overwritten without an atomic operation", s);
   }
   bool atomic(State &s, const Instruction *i, V a, V ex, V nv, std::vector<std::pair<State, int>> &out) override
   {
      if (!refCount(a)) return false;
      str fn = srcName(i->getFunction()); checks++;
      if (!ex) {
         sites["reference count update"].insert(i);
         auto *rm = cast<AtomicRMWInst>(i); auto k = E->known(s, nv);
         if ((rm->getOperation() == AtomicRMWInst::Add || rm->getOperation() == AtomicRMWInst::Sub) && k && (*k & 0xff) != 1 && (*k & 0xff) != 0) E->report("extent-count-step", i, fn, "the reference count of an extent changes by other than one", s);
         return false;
      }
      sites["extent claim"].insert(i); claimers.insert(E->root);
      auto f = E->known(s, ex), n = E->known(s, nv);
      if (!f || *f != 0) E->report("extent-claim", i, fn, "an extent is claimed although it is not free", s);
      if (!n || *n == 0) E->report("extent-claim", i, fn, "claiming an extent does not give it a reference", s);
      State fail = s;
      if (s.cnt["claim"]) E->report("extent-lost", i, fn, "a second extent is claimed while the first one is not handed out", s);
      s.cnt["claim"] = 1; s.cntAt["claim"] = i;
      out.push_back({s, 1}); out.push_back({fail, 0}); return true;
   }
   void rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot) override
   {
      look(s);
      bool claimed = s.cnt.count("claim") && s.cnt["claim"];
      if (claimed) sum.neutral = false;
      if (claimers.count(f)) {
         checks++;
         bool st = retTypeName(f) == "platform_status";
         if (st && ret) {
            if (claimed && E->nonZero(s, ret)) E->report("extent-lost", s.cntAt["claim"], srcName(f), srcName(f) + " claims an extent and then reports failure", s);
            if (!claimed && E->isZero(s, ret)) E->report("extent-claim", i, srcName(f), srcName(f) + " reports success on a path on which no extent was claimed", s);
         }
      }
      for (auto &o : s.objs) {
         if (o.second.x == 5) { if (ret && (ret == o.first || E->contains(ret, o.first))) continue; checks++; E->report("extent-lost", o.second.acq, srcName(o.second.acq->getFunction()), "an allocated extent is not recorded anywhere when " + srcName(f) + " returns (line " + std::to_string(lineOf(i)) + ")", s); continue; }
         if (!isDec(o.first)) continue;
         checks++;
         bool out = ret && (ret == o.first->b || E->contains(ret, o.first->b));
         if (o.second.x == 1 && !o.second.written && (o.second.dirty || out)) { if (out) sum.neutral = false; continue; }
         if (!isRoot && o.second.claim < 4) { sum.neutral = false; continue; }
         str fn = srcName(o.second.acq->getFunction());
         if (o.second.x == 1 && !o.second.dirty) E->report("extent-ref-ignored", o.second.acq, fn, "nobody looks whether the dropped reference was the last one", s);
         else E->report("extent-leak", o.second.acq, fn, str("the last reference to an extent is dropped but the extent is not freed when ") + srcName(f) + " returns (line " + std::to_string(lineOf(i)) + ")", s);
      }
   }
};
void runExtent(Program &P, Result &R)
{
   ExtentRules M; Engine E(P, M); M.E = &E; E.run();
   R.findings = E.findings;
   R.counts["functions_analysed"] = E.totalRoots; R.counts["instructions_interpreted"] = E.totalSteps; R.counts["exits_checked"] = E.totalExits; R.counts["functions_over_budget"] = E.overBudgetFns.size(); R.counts["obligations_checked"] = M.checks;
   for (auto &k : M.sites) { R.counts["sites." + k.first] = k.second.size(); for (auto *i : k.second) R.samples.push_back(k.first + " at " + fileOfInst(i) + ":" + std::to_string(lineOf(i))); }
   auto fl = [&](const str &n, long m) { R.floor("sites." + n, M.sites.count(n) ? M.sites[n].size() : 0, m); };
   fl("allocator_ops.dec_ref", 1); fl("cache_ops.extent_discard", 1); fl("allocator_ops.alloc", 1); fl("extent claim", 1); fl("reference count update", 1);
   for (auto &n : E.overBudgetFns) R.samples.push_back("over budget: " + n);
}
