// Page typestate: reference / claim / write lock balance of cache pages,
// content accesses only while held, content writes only under the write lock
// and marked dirty before it is released.
#include "monitors.h"

static const char *OPS = "cache_ops";

bool PageMonitor::skip(Function *f)
{
   // the cache implementation itself is the other side of the interface
   auto it = E->P.implOf.find(f);
   if (it != E->P.implOf.end()) for (auto &s : it->second) if (s.rfind("cache_ops.", 0) == 0 || s.rfind("cache_config_ops.", 0) == 0) return true;
   if (implFiles.empty())
      for (auto &kv : E->P.slotImpl) if (kv.first.rfind("cache_ops.", 0) == 0) for (Function *g : kv.second) implFiles.insert(fileOf(g));
   if (implFiles.count(fileOf(f))) return true;
   // asynchronous lookups keep their page inside a caller-owned context between
   // invocations; that hand-over is not followed
   if (!asyncInit) {
      asyncInit = true;
      std::vector<Function *> wl;
      for (Function *g : E->P.funcs) if (!implFiles.count(fileOf(g)))
         for (auto &i : instructions(*g)) if (auto *cb = dyn_cast<CallBase>(&i)) { Slot sl; if (E->P.slot(cb, sl) && sl.ops == OPS && (sl.field == "page_get_async" || sl.field == "page_async_done")) wl.push_back(g); }
      while (!wl.empty()) { Function *g = wl.back(); wl.pop_back(); if (!asyncFns.insert(g).second) continue; for (auto *cb : E->P.callers[g]) wl.push_back(cb->getFunction()); }
   }
   return asyncFns.count(f) > 0;
}
void PageMonitor::objsOf(State &s, V a, std::set<V> &out)
{
   V b = a;
   std::set<V> seen;
   std::function<void(V)> go = [&](V x) {
      x = Engine::strip(x);
      if (!seen.insert(x).second) return;
      if (x->k == LOAD0 && s.objs.count(x->a)) { out.insert(x->a); return; }
      auto it = s.prov.find(x);
      if (it != s.prov.end()) out.insert(it->second.begin(), it->second.end());
   };
   go(b);
}
bool PageMonitor::keepCell(const State &s, V a)
{
   V b = Engine::strip(a);
   return !(b->k == LOAD0 && s.objs.count(b->a));   // page contents are data
}
ObjSt &PageMonitor::obj(State &s, V p)
{
   auto it = s.objs.find(p);
   if (it != s.objs.end()) return it->second;
   ObjSt o; o.own = false;
   return s.objs[p] = o;
}
static str nm(Engine *E, const Instruction *i) { return E->instKey(i); }

const Instruction *PageMonitor::site(const CallBase *cb)
{  // the call site outside the inline wrappers of the interface header
   const Instruction *i = cb; str h = fileOfInst(cb);
   for (int k = (int)E->callStack.size() - 1; k >= 0 && fileOfInst(i) == h; k--) i = E->callStack[k];
   return i;
}
bool PageMonitor::call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out)
{
   if (!sl || sl->ops != OPS) return false;
   const str &f = sl->field;
   auto pageArg = [&]() { return args[1]; };
   if (f == "page_alloc") {
      sites[f].insert(site(cb));
      if (args[1]->k != CONST) s.fresh.insert(args[1]); // a newly allocated address
      V v = E->freshSym(s, cb);
      ObjSt o; o.own = true; o.ref = o.claim = o.lock = 1; o.dirty = true; o.acq = cb; s.objs[v] = o;
      s.facts[v].ne.insert(0); s.facts[E->load0(v)].ne.insert(0);
      E->note(s, cb, "alloc page");
      out.push_back({s, v}); return true;
   }
   if (f == "page_get") {
      sites[f].insert(site(cb));
      auto k = E->known(s, args[2]);
      if (!k || *k == 0) { State t = s; out.push_back({t, E->cst(0)}); }
      V v = E->freshSym(s, cb);
      ObjSt o; o.own = true; o.ref = 1; o.acq = cb; s.objs[v] = o;
      s.facts[v].ne.insert(0); s.facts[E->load0(v)].ne.insert(0);
      E->note(s, cb, "get page");
      out.push_back({s, v}); return true;
   }
   bool rel = f == "page_unget" || f == "page_unclaim" || f == "page_unlock" || f == "page_lock" || f == "page_mark_dirty" || f == "page_try_claim";
   if (!rel) return false;
   sites[f].insert(site(cb));
   V p = pageArg();
   if (p->k == CONST) {
      E->report("page-null", cb, nm(E, cb), "cache operation " + f + " on a null page handle (the handle was already released and cleared)", s);
      return true; // no continuation
   }
   if (!s.objs.count(p)) {
      int pi; std::vector<int64_t> offs;
      bool entry = (p->k == PARAM && p->p == E->root) || (p->k == LOAD0 && pathOf(p, pi, offs));
      if (!entry) { // a page whose identity is not known here (array element, asynchronous get)
         untracked.insert(cb);
         auto pr = s.prov.find(p);
         if (pr != s.prov.end()) for (V o : pr->second) { auto it = s.objs.find(o); if (it != s.objs.end()) it->second.x = 1; }
         if (f == "page_try_claim") { V r = E->freshSym(s, cb); out.push_back({s, r}); } else out.push_back({s, nullptr});
         return true;
      }
   }
   if (f == "page_try_claim") {
      State t = s;
      ObjSt &o = obj(s, p);
      if (o.own && o.ref <= 0) E->report("page-use-after-unget", cb, nm(E, cb), "page claimed after its reference was dropped", s);
      if (o.own && o.claim) E->report("page-protocol", cb, nm(E, cb), "page claimed twice", s);
      o.claim++;
      const CallBase *w = nullptr;
      if (E->resultIgnored(cb, &w)) { assumedClaims.insert(w); out.push_back({s, E->cst(1)}); return true; }
      E->note(s, cb, "claim ok"); E->note(t, cb, "claim failed");
      V r = E->freshSym(s, cb);
      V r2 = E->freshSym(t, cb);
      (void)r; (void)r2;
      out.push_back({s, E->cst(1)});
      out.push_back({t, E->cst(0)});
      return true;
   }
   ObjSt &o = obj(s, p);
   ObjSt before = o;
   auto rep = [&](const str &rule, const str &m) { E->report(rule, cb, nm(E, cb), m, s); };
   if (f == "page_unget") {
      if (o.own ? o.ref <= 0 : o.ref < 0) rep("page-protocol", "page reference dropped twice");
      if (o.own && (o.claim > 0 || o.lock > 0)) rep("page-protocol", str("page reference dropped while its ") + (o.lock > 0 ? "write lock" : "claim") + " is still held");
      if (!o.own && (o.claim > 0 || o.lock > 0)) rep("page-protocol", str("page reference dropped while its ") + (o.lock > 0 ? "write lock" : "claim") + " taken here is still held");
      o.ref--;
      if (o.own && o.ref == 0) { V d = E->load0(p); for (auto it = s.mem.begin(); it != s.mem.end();) it = E->contains(it->first, d) ? s.mem.erase(it) : std::next(it); }
      E->note(s, cb, "unget page");
   } else if (f == "page_unclaim") {
      if (o.own ? o.claim <= 0 : o.claim < 0) rep("page-protocol", "claim released that is not held");
      if (o.lock > 0) rep("page-protocol", "claim released while the write lock is held");
      if (o.own && o.ref <= 0) rep("page-use-after-unget", "claim released after the page reference was dropped");
      o.claim--;
   } else if (f == "page_lock") {
      if (o.own && o.ref <= 0) rep("page-use-after-unget", "page locked after its reference was dropped");
      if (o.own && o.claim <= 0) rep("page-protocol", "write lock taken without a claim");
      if (o.lock > 0) rep("page-protocol", "write lock taken twice");
      o.lock++; o.written = false; o.dirty = false;
      E->note(s, cb, "lock page");
   } else if (f == "page_unlock") {
      if (o.own ? o.lock <= 0 : o.lock < 0) rep("page-protocol", "write lock released that is not held");
      if (o.written && !o.dirty) rep("page-dirty", "page contents changed under the write lock but the page is not marked dirty before unlock; the change may never be written back");
      if (o.own && o.ref <= 0) rep("page-use-after-unget", "page unlocked after its reference was dropped");
      o.lock--; o.written = false; if (o.own) o.dirty = false;
      E->note(s, cb, "unlock page");
   } else { // mark_dirty
      if (o.own && o.lock <= 0) rep("page-write-unlocked", "page marked dirty without its write lock");
      o.dirty = true;
   }
   out.push_back({s, nullptr});
   return true;
}
void PageMonitor::load(State &s, V a, const Instruction *i)
{
   std::set<V> os; objsOf(s, a, os);
   if (os.empty()) return;
   accesses++;
   bool exact = os.size() == 1 && Engine::strip(a)->k == LOAD0;
   for (V p : os) {
      auto it = s.objs.find(p);
      if (it == s.objs.end()) continue;
      if (it->second.own ? it->second.ref <= 0 : it->second.ref < 0)
         E->report("page-use-after-unget", i, "read:" + srcName(i->getFunction()), "page contents read after the page reference was dropped", s);
   }
   (void)exact;
}
void PageMonitor::wrote(State &s, V a, const Instruction *i, const str &how)
{
   std::set<V> os; objsOf(s, a, os);
   bool exact = Engine::strip(a)->k == LOAD0;
   for (V p : os) {
      auto it = s.objs.find(p);
      if (it == s.objs.end()) continue;
      ObjSt &o = it->second;
      writes++;
      if (o.own ? o.ref <= 0 : o.ref < 0)
         E->report("page-use-after-unget", i, "write:" + srcName(i->getFunction()), "page contents written after the page reference was dropped" + how, s);
      else if (o.own && o.lock <= 0)
         E->report("page-write-unlocked", i, "write:" + srcName(i->getFunction()), "page contents written while the page's write lock is not held" + how, s);
      else if (!o.own && o.lock < 0)
         E->report("page-write-unlocked", i, "write:" + srcName(i->getFunction()), "page contents written after the page's write lock was released" + how, s);
      if (exact) o.written = true;
   }
   // requirement on the caller: contents reached from a parameter
   if (E->stack.size() >= 1) pathWrite(s, a);
}
// access path of an address below a parameter of the root: (param, derefs)
bool PageMonitor::pathOf(V a, int &param, std::vector<int64_t> &offs)
{
   V b = Engine::strip(a);
   if (b->k == PARAM && b->p == E->root) { param = b->c; return true; }
   if (b->k == LOAD0) {
      V c = b->a; int64_t o = Engine::offOf(c); V cb = Engine::baseOf(c);
      if (cb->k == ELEM) return false;
      if (!pathOf(cb, param, offs)) return false;
      offs.push_back(o);
      return offs.size() <= 3;
   }
   return false;
}
void PageMonitor::pathWrite(State &s, V a)
{
   int p; std::vector<int64_t> offs;
   if (!pathOf(a, p, offs)) return;
   // locked here by ourselves: no demand on the caller
   V b = Engine::strip(a);
   if (b->k == LOAD0) { auto it = s.objs.find(b->a); if (it != s.objs.end() && it->second.lock > 0) return; }
   wpaths[E->root].insert({p, offs});
}
void PageMonitor::store(State &s, V a, V val, const Instruction *i, uint64_t size)
{
   wrote(s, a, i, "");
}
bool PageMonitor::inArray(V a)
{
   V b = Engine::strip(a);
   if (b->k == ALLOCA) if (auto *al = dyn_cast<AllocaInst>((const llvm::Value *)b->p)) if (isa<ArrayType>(al->getAllocatedType())) return true;
   for (V x = a; x->k == OFF; x = x->a) for (auto &t : x->tags) {
      size_t d = t.find('.'); if (d == str::npos) continue;
      auto n = E->P.fieldNames.find(t.substr(0, d)); if (n == E->P.fieldNames.end()) continue;
      auto ft = E->P.fieldTypes.find(t.substr(0, d)); if (ft == E->P.fieldTypes.end()) continue;
      for (unsigned k = 0; k < n->second.size() && k < ft->second.size(); k++) if (n->second[k] == t.substr(d + 1) && ft->second[k])
         if (auto *c = dyn_cast<DICompositeType>(stripTypedef(ft->second[k]))) if (c->getTag() == dwarf::DW_TAG_array_type) return true;
   }
   return false;
}
void PageMonitor::placed(State &s, V a, V val, const Instruction *i)
{
   V vb = val;
   auto it = s.objs.find(vb);
   if (it != s.objs.end() && it->second.own) {
      bool arr = inArray(a); for (V x = a; x->k == OFF || x->k == ELEM; x = x->a) if (x->k == ELEM) arr = true;
      if (arr) { arrayed.insert(i); s.objs.erase(it); }   // handed to an array: followed no further
      else if (!E->localAddr(a)) it->second.x = 1;
   }
}
void PageMonitor::opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args)
{
   if (!f) {
      str n = E->P.calleeName(cb);
      if (n == "memmove" || n == "memcpy" || n == "memset") wrote(s, args[0], cb, "");
      if (n == "read" || n == "pread") wrote(s, args[1], cb, "");
      // callbacks and library functions may read what they are given
      if (!cb->getFunctionType()->isVarArg())
         for (unsigned i = 0; i < args.size(); i++) if (cb->getArgOperand(i)->getType()->isPointerTy()) load(s, args[i], cb);
      return;
   }
   auto w = wpaths.find(f);
   if (w != wpaths.end()) {
      auto paths = w->second;
      for (auto &p : paths) {
         if (p.first >= (int)args.size()) continue;
         V v = args[p.first]; bool ok = true;
         for (int64_t o : p.second) {
            V ad = E->off(v, o);
            auto it = s.mem.find(ad);
            if (it != s.mem.end()) v = it->second;
            else if (E->localAddr(ad)) { ok = false; break; }
            else v = E->load0(ad);
         }
         if (!ok) continue;
         wrote(s, v, cb, " (inside " + srcName(f) + ")");
      }
   }
   auto dpi = dpaths.find(f);
   if (dpi != dpaths.end()) for (auto &p : dpi->second) {
      if (p.first >= (int)args.size()) continue;
      V v = args[p.first]; bool ok = true;
      for (int64_t o : p.second) { V ad = E->off(v, o); auto it = s.mem.find(ad); if (it != s.mem.end()) v = it->second; else if (E->localAddr(ad)) { ok = false; break; } else v = E->load0(ad); }
      if (!ok) continue;
      V b = Engine::strip(v);
      if (b->k == LOAD0) { auto it = s.objs.find(b->a); if (it != s.objs.end()) it->second.dirty = true; }
   }
   // a released page handed to a callee by content pointer
   for (unsigned i = 0; i < args.size(); i++) {
      if (!cb->getArgOperand(i)->getType()->isPointerTy()) continue;
      if (reads(f, i)) load(s, args[i], cb);
      if (i < f->arg_size() && readsThrough(f, i)) {
         // pointers inside an aggregate the callee dereferences
         Type *bt = cb->getParamByValType(i); uint64_t n = bt ? E->P.mods[0]->getDataLayout().getTypeAllocSize(bt) : 64;
         std::vector<V> ps;
         for (auto &m : s.mem) if (Engine::baseOf(m.first) == Engine::baseOf(args[i])) { int64_t d = Engine::offOf(m.first) - Engine::offOf(args[i]); if (d >= 0 && (uint64_t)d < n) ps.push_back(m.second); }
         if (bt) for (V v : ps) if (v->k != CONST) load(s, v, cb);
      }
   }
}
bool PageMonitor::reads(Function *f, unsigned i)
{
   auto key = std::make_pair(f, i);
   auto it = readsMemo.find(key);
   if (it != readsMemo.end()) return it->second;
   readsMemo[key] = false;
   bool r = false;
   if (i < f->arg_size()) {
      std::function<bool(llvm::Value *)> walk = [&](llvm::Value *v) -> bool {
         for (auto *u : v->users()) {
            if (auto *l = dyn_cast<LoadInst>(u)) { if (l->getPointerOperand() == v) return true; }
            else if (isa<GetElementPtrInst>(u) || isa<BitCastInst>(u)) { if (walk(u)) return true; }
            else if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (mt->getRawSource() == v) return true; }
            else if (auto *c = dyn_cast<CallBase>(u)) {
               Function *g = E->P.callee(c);
               if (g && !g->isDeclaration()) { for (unsigned k = 0; k < c->arg_size(); k++) if (c->getArgOperand(k) == v && reads(g, k)) return true; }
            }
         }
         return false;
      };
      r = walk(f->getArg(i));
   }
   return readsMemo[key] = r;
}
// does f dereference a pointer stored inside the aggregate parameter i points to
bool PageMonitor::readsThrough(Function *f, unsigned i)
{
   auto key = std::make_pair(f, i);
   auto it = deepMemo.find(key);
   if (it != deepMemo.end()) return it->second;
   deepMemo[key] = false;
   std::set<const llvm::Value *> seen;
   std::function<bool(llvm::Value *)> ptrUse = [&](llvm::Value *v) -> bool { // v: pointer loaded from the aggregate
      if (!seen.insert(v).second) return false;
      for (auto *u : v->users()) {
         if (auto *l = dyn_cast<LoadInst>(u)) { if (l->getPointerOperand() == v) return true; }
         else if (isa<GetElementPtrInst>(u) || isa<CastInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) { if (ptrUse(u)) return true; }
         else if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (mt->getRawSource() == v) return true; }
         else if (auto *c = dyn_cast<CallBase>(u)) {
            Function *g = E->P.callee(c); str n = E->P.calleeName(c);
            if (n == "memcmp" || n == "memcpy" || n == "memmove") return true;
            if (g && !g->isDeclaration()) for (unsigned k = 0; k < c->arg_size(); k++) if (c->getArgOperand(k) == v && reads(g, k)) return true;
         }
      }
      return false;
   };
   std::function<bool(llvm::Value *)> agg = [&](llvm::Value *v) -> bool { // v: address inside (a copy of) the aggregate
      if (!seen.insert(v).second) return false;
      for (auto *u : v->users()) {
         if (auto *l = dyn_cast<LoadInst>(u)) { if (l->getType()->isPointerTy() && ptrUse(l)) return true; }
         else if (isa<GetElementPtrInst>(u) || isa<BitCastInst>(u)) { if (agg(u)) return true; }
         else if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (mt->getRawSource() == v) if (auto *al = dyn_cast<AllocaInst>(mt->getRawDest()->stripPointerCasts())) if (agg(al)) return true; }
         else if (auto *c = dyn_cast<CallBase>(u)) {
            Function *g = E->P.callee(c); Slot sl;
            if (!g && E->P.slot(c, sl) && sl.ops == "data_config") { for (unsigned k = 0; k < c->arg_size(); k++) if (c->getArgOperand(k) == v) return true; }
            if (g && !g->isDeclaration()) for (unsigned k = 0; k < c->arg_size(); k++) if (c->getArgOperand(k) == v && k < g->arg_size() && readsThrough(g, k)) return true;
         }
      }
      return false;
   };
   return deepMemo[key] = i < f->arg_size() && agg(f->getArg(i));
}
bool PageMonitor::released(State &s, V v)
{
   auto it = s.objs.find(v);
   return it != s.objs.end() && it->second.own && it->second.ref <= 0;
}
void PageMonitor::symRedefined(State &s, V v, const Instruction *i)
{
}
void PageMonitor::prune(State &s, std::function<bool(V)> referenced)
{
   for (auto it = s.objs.begin(); it != s.objs.end();) {
      ObjSt &o = it->second;
      if (o.own && !referenced(it->first)) {
         if (o.ref > 0 && o.x == 0 && o.acq) {
            if (getenv("SDB_DBG")) {
               fprintf(stderr, "prune obj %u root %s depth %zu\n", it->first->id, srcName(E->root).c_str(), E->stack.size());
               for (auto &r : s.regs) { for (auto &kv : r) fprintf(stderr, "   reg %s = %s\n", kv.first->getName().str().c_str(), E->describe(kv.second).c_str()); fprintf(stderr, "  --\n"); }
               for (auto &m : s.mem) fprintf(stderr, "  mem %s = %s\n", E->describe(m.first).c_str(), E->describe(m.second).c_str());
            }
            E->report("page-leak", o.acq, "leak:" + nm(E, o.acq), "page reference acquired here is lost without being released", s);
         }
         it = s.objs.erase(it); continue;
      }
      if (!o.own && o.ref == 0 && o.claim == 0 && o.lock == 0 && !o.written && !o.dirty && !referenced(it->first)) { it = s.objs.erase(it); continue; }
      ++it;
   }
}
void PageMonitor::rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot)
{
   for (auto &kv : s.objs) {
      V v = kv.first; ObjSt &o = kv.second;
      if (o.own) {
         if (o.ref <= 0) continue;
         bool viaRet = ret && E->contains(ret, v);
         V cell = nullptr; bool direct = false;
         for (auto &m : s.mem) if (m.second == v && !E->localAddr(m.first)) {
            cell = m.first;
            int p; std::vector<int64_t> offs;
            bool el = false; for (V x = m.first; x; x = (x->k == OFF || x->k == ELEM || x->k == LOAD0) ? x->a : nullptr) if (x->k == ELEM) el = true;
            V b = Engine::strip(m.first);
            if (!el && b->k == PARAM) direct = true;
            (void)p;
         }
         if (getenv("SDB_NEU")) fprintf(stderr, "NEU %s own ret %d cell %s\n", srcName(f).c_str(), viaRet, cell ? E->describe(cell).c_str() : "-");
         if (viaRet || direct) { sum.neutral = false; if (isRoot && viaRet) rootTransfers.insert(srcName(f)); if (isRoot && direct) {
               // stored into caller-visible memory: fine when it replaces a released page of the same slot
               V ext = E->load0(cell); auto e = s.objs.find(ext);
               if (e == s.objs.end() || e->second.ref >= 0) slotAcquires.insert(srcName(f));
            } }
         else if (o.x == 1) escapes++;
         else E->report("page-leak", o.acq, "leak:" + nm(E, o.acq), "page reference acquired here is still held when " + srcName(f) + " returns (line " + std::to_string(lineOf(i)) + ") and nothing can release it", s);
      } else {
         if (getenv("SDB_NEU") && (o.ref || o.claim || o.lock || o.dirty)) fprintf(stderr, "NEU %s ext %s ref %d claim %d lock %d dirty %d line %d\n", srcName(f).c_str(), E->describe(v).c_str(), o.ref, o.claim, o.lock, o.dirty, lineOf(i));
         if (o.ref || o.claim || o.lock) {
            sum.neutral = false;
            V b = Engine::strip(v); (void)b;
            if (o.ref < 0) for (auto &m : s.mem) if (m.second == v && !E->localAddr(m.first))
               E->report("page-stale-handle", i, "stale:" + srcName(f), "a caller-visible structure still points at a page whose reference was dropped", s);
            bool entry = E->P.addrTaken.count(f) || srcName(f).rfind("splinterdb_", 0) == 0; // an unused helper is nobody's entry point
            if (isRoot && entry && !(v->k == LOAD0)) E->report("page-unbalanced", i, "unbalanced:" + srcName(f), "caller's page hold changed on return", s);
         }
      }
   }
   // pages below a parameter that this function marks dirty on every exit
   std::set<std::pair<int, std::vector<int64_t>>> dp;
   for (auto &kv : s.objs) if (!kv.second.own && kv.second.dirty) { int p; std::vector<int64_t> o; if (pathOf(E->load0(kv.first), p, o)) dp.insert({p, o}); }
   auto it = dpaths.find(f);
   if (it == dpaths.end()) dpaths[f] = dp;
   else { std::set<std::pair<int, std::vector<int64_t>>> r; for (auto &x : it->second) if (dp.count(x)) r.insert(x); it->second = r; }
}
void PageMonitor::clobbered(State &s, V a, V oldv)
{
   auto it = s.objs.find(oldv);
   if (it != s.objs.end() && it->second.own && it->second.ref > 0) it->second.x = 1; // handed to the callee
}

void runPage(Program &P, Result &R)
{
   PageMonitor M; Engine E(P, M);
   E.run();
   R.findings = E.findings;
   R.counts["functions_analysed"] = E.totalRoots;
   R.counts["instructions_interpreted"] = E.totalSteps;
   R.counts["exits_checked"] = E.totalExits;
   R.counts["functions_over_budget"] = E.overBudgetFns.size();
   R.counts["page_content_accesses"] = M.accesses;
   R.counts["page_content_writes"] = M.writes;
   R.counts["async_functions_not_followed"] = M.asyncFns.size();
   R.floor("call_sites.page_get", M.sites["page_get"].size(), 10);
   R.floor("call_sites.page_alloc", M.sites["page_alloc"].size(), 4);
   R.floor("call_sites.page_unget", M.sites["page_unget"].size(), 15);
   R.floor("call_sites.page_try_claim", M.sites["page_try_claim"].size(), 4);
   R.floor("call_sites.page_unclaim", M.sites["page_unclaim"].size(), 4);
   R.floor("call_sites.page_lock", M.sites["page_lock"].size(), 4);
   R.floor("call_sites.page_unlock", M.sites["page_unlock"].size(), 5);
   R.floor("call_sites.page_mark_dirty", M.sites["page_mark_dirty"].size(), 2);
   R.counts["untracked_sites"] = M.untracked.size();
   for (auto &n : E.overBudgetFns) R.samples.push_back("over budget: " + n);
   for (auto *i : M.sites["page_get"]) if (R.samples.size() < 12) R.samples.push_back("acquire " + fileOfInst(i) + ":" + std::to_string(lineOf(i)) + " in " + srcName(i->getFunction()));
   for (auto *f : E.nonNeutral) if (R.samples.size() < 24) R.samples.push_back("hands pages to its caller: " + srcName(f));
}
