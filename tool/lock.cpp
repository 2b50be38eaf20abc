// Lock discipline: pairing, order, no blocking under a spin lock, guarded data.
#include "monitors.h"

// primitive -> (mode, +1 acquire / -1 release); by-name because these are the
// platform layer's interface
static str bare(const str &n) { str r = n.substr(0, n.find('|')); if (r.size() > 3 && r.substr(r.size() - 3) == "[*]") r = r.substr(0, r.size() - 3); return r; }
static bool many(const str &n) { return n[0] == '!' || n.find("[*]") != str::npos; }
struct Prim { const char *name, *mode; int d; };
static const Prim PRIMS[] = {
   {"platform_mutex_lock", "M", 1}, {"platform_mutex_unlock", "M", -1},
   {"platform_spin_lock", "S", 1}, {"platform_spin_unlock", "S", -1},
   {"platform_condvar_lock", "M", 1}, {"platform_condvar_unlock", "M", -1},
   {"platform_batch_rwlock_get", "R", 1}, {"platform_batch_rwlock_unget", "R", -1},
   {"platform_batch_rwlock_try_claim", "T", 0}, {"platform_batch_rwlock_claim_loop", "C", 1}, {"platform_batch_rwlock_unclaim", "C", -1},
   {"platform_batch_rwlock_lock", "W", 1}, {"platform_batch_rwlock_unlock", "W", -1},
   {"platform_batch_rwlock_full_unlock", "F", -1},
};
static const Prim *prim(const str &n) { for (auto &p : PRIMS) if (n == p.name) return &p; return nullptr; }

// what a field's accesses need. lock name -> mode: "R" any hold of the rw lock
// (read, claim or write), "W" the write lock, "M" the mutex.
struct Guard { const char *field; bool reads; const char *lock, *mode; const char *why; };
static const Guard GUARDS[] = {
   {"trunk_handle.root_addr", false, "trunk_handle.trunk_root_lock#0", "W", "the root pointer is only switched under the root write lock"},
   {"trunk_handle.root_addr", true, "trunk_handle.trunk_root_lock#0", "R", "the root pointer is only followed under the root lock, so that the root cannot be replaced and recycled in between"},
   {"memtable_context.generation", false, "memtable_context.rwlock#0", "W", "the active memtable is only switched while all inserters are drained"},
   {"memtable_context.generation", true, "memtable_context.rwlock#0 or memtable_context.rwlock#1", "R", "which memtables are live is only decided while none can be rotated in or retired"},
   {"memtable_context.generation_retired", true, "memtable_context.rwlock#0 or memtable_context.rwlock#1", "R", "which memtables are live is only decided while none can be rotated in or retired"},
   {"memtable_context.generation_retired", false, "memtable_context.rwlock#1", "W", "a memtable is only retired while all lookups are drained"},
   {"memtable_context.generation_to_incorporate", false, "memtable_context.incorporation_mutex", "M", "the order of incorporation is decided under the incorporation mutex"},
   {"task_queue.head", true, "task_group.cv", "M", "the task queue is only used under its group's lock"},
   {"task_queue.head", false, "task_group.cv", "M", "the task queue is only used under its group's lock"},
   {"task_queue.tail", true, "task_group.cv", "M", "the task queue is only used under its group's lock"},
   {"task_queue.tail", false, "task_group.cv", "M", "the task queue is only used under its group's lock"},
   {"srq.heap", true, "srq.mutex", "M", "the space reclamation queue is only used under its mutex"},
   {"srq.heap", false, "srq.mutex", "M", "the space reclamation queue is only used under its mutex"},
   {"srq.num_entries", false, "srq.mutex", "M", "the space reclamation queue is only used under its mutex"},
   {"srq.index", false, "srq.mutex", "M", "the space reclamation queue is only used under its mutex"},
   {"rc_allocator_meta_page.splinters", true, "rc_allocator.lock", "M", "the table of super blocks is only used under the allocator's mutex"},
   {"rc_allocator_meta_page.splinters", false, "rc_allocator.lock", "M", "the table of super blocks is only used under the allocator's mutex"},
   {"task_system.tid_bitmask", false, "task_system.tid_bitmask_lock", "S", "thread ids are handed out and returned under the id lock"},
   {"io_process_context.state", false, "laio_handle.ctx_lock", "S", "I/O contexts are handed out under the context lock"},
};

static const char *LOOKUP = "memtable_context.rwlock#1", *RETIRED = "memtable_context.generation_retired", *ROOT = "trunk_handle.root_addr";
// operations that are only allowed while a lock is held
static const Guard OPS[] = {
   {"btree_insert", false, "memtable_context.rwlock#0", "R", "a memtable only accepts inserts while it cannot be rotated out and compacted"},
   {"log_ops.write", false, "memtable_context.rwlock#0", "R", "an insert is logged before its memtable can be rotated out"},
   {"trunk_memtable_root_addr_for_lookup", false, "memtable_context.rwlock#1", "R", "a memtable is only read while it cannot be retired and recycled"},
   {"trunk_memtable_lookup", false, "memtable_context.rwlock#1", "R", "a memtable is only read while it cannot be retired and recycled"},
};
void LockMonitor::bump(State &s, const str &n, const str &mode, int d, const Instruction *i)
{
   str k = n + "|" + mode;
   if (n == LOOKUP && mode == "W") {
      if (d < 0 && s.cnt.count("!retired") && !s.cnt.count("!root"))
         E->report("lock-atomic", i, srcName(E->root) + ":retire", "lookups are let in again after a memtable was retired and before the root that contains its data was switched in: they see the data in neither", s);
      s.cnt.erase("!retired"); s.cnt.erase("!root");
   }
   int v = s.cnt[k] + d;
   if (v == 0) s.cnt.erase(k); else s.cnt[k] = v;
   s.cntAt[k] = i;
}
bool LockMonitor::anyHeld(State &s, const str &n) { return held(s, n, "R") > 0 || held(s, n, "C") > 0 || held(s, n, "W") > 0 || held(s, n, "M") > 0 || held(s, n, "S") > 0; }
bool LockMonitor::skip(Function *f)
{
   if (prim.empty()) for (Function *g : E->P.funcs) { str n = srcName(g); if (::prim(n) || n == "platform_condvar_wait" || n == "platform_condvar_broadcast" || n == "platform_condvar_signal") prim.insert(g); }
   return prim.count(f) > 0;
}
str LockMonitor::lockName(V a, V idx, bool &multi)
{
   multi = false;
   V x = a; str t;
   // one element of an array of locks: a loop index stands for all of them
   str el;
   for (V y = a; y && (y->k == OFF || y->k == ELEM || y->k == LOAD0); y = y->a) if (y->k == ELEM) { if (y->b->k == JOIN || y->b->k == SYM || y->b->k == OP) multi = true; }
   if (!x->tags.empty() && x->k != LOAD0) t = x->tags.back();
   else if (x->k == LOAD0 && !x->a->tags.empty()) t = x->a->tags.back();
   else if (x->k == ELEM) { V y = x; while (y->k == ELEM) y = y->a; if (!y->tags.empty()) t = y->tags.back(); }
   if (t.empty()) {
      if (x->k == PARAM) t = "arg" + std::to_string(x->c);
      else if (x->k == GLOB) t = ((const llvm::Value *)x->p)->getName().str();
      else t = "lock" + std::to_string(x->id);
   }
   if (idx) t += "#" + (idx->k == CONST ? std::to_string(idx->c) : idx->k == PARAM ? "arg" + std::to_string(idx->c) : str("?"));
   return t;
}
// is an acquisition in mode m held up, possibly through a waiting writer, by a holder in mode h?
static bool blockedBy(const str &m, const str &h)
{
   if (m == "R") return h == "W" || h == "R";
   if (m == "C") return h == "C" || h == "W";
   if (m == "W") return h == "R";
   return true;
}
void LockMonitor::edges(State &s, const Instruction *i, const str &n)
{
   if (n.rfind("arg", 0) == 0 || n.rfind("lock", 0) == 0) return;
   for (auto &c : s.cnt) if (c.second > 0 && c.first[0] != '!') {
      str h = c.first;
      if (bare(h) == bare(n) || h.rfind("arg", 0) == 0 || h.rfind("lock", 0) == 0) continue;
      auto k = std::make_pair(h, n);
      if (!order.count(k)) order[k] = {i, srcName(E->root)};
   }
}
void LockMonitor::acquire(State &s, const Instruction *i, const str &n, const str &mode)
{
   acquires[E->root].insert(n + "|" + mode); locks.insert(n);
   edges(s, i, n + "|" + mode);
   str key = srcName(i->getFunction()) + ":" + n;
   if (mode == "M" || mode == "S") {
      if (held(s, n, mode) > 0) E->report("lock-double", i, key, "lock " + n + " acquired while this thread already holds it", s);
   } else if (mode == "R") {
      if (held(s, n, "R") > 0) E->report("lock-double", i, key, "read lock " + n + " acquired while this thread already holds it: a writer that arrives in between blocks both", s);
      else if (held(s, n, "C") > 0 || held(s, n, "W") > 0) E->report("lock-double", i, key, "read lock " + n + " acquired while this thread holds its claim or write lock", s);
   } else if (mode == "W") {
      if (held(s, n, "W") > 0) E->report("lock-double", i, key, "write lock " + n + " acquired twice", s);
   }
   bump(s, n, mode, 1, i);
   E->note(s, i, "acquire");
}
void LockMonitor::release(State &s, const Instruction *i, const str &n, const str &mode)
{
   bump(s, n, mode, -1, i);
   E->note(s, i, "release");
}
bool LockMonitor::call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out)
{
   if (callee == "platform_condvar_wait") { // releases and re-acquires
      out.push_back({s, E->cst(0)}); return true;
   }
   str op = sl ? sl->ops + "." + sl->field : callee;
   for (auto &g : OPS) if (op == g.field) {
      guarded++; str gn = op + ":call";
      if (!satisfied(s, gn)) { auto &w = wants[E->root]; if (!w.count(gn)) w[gn] = {cb, srcName(cb->getFunction())}; }
   }
   const Prim *p = ::prim(callee);
   if (!p || args.empty()) return false;
   sites[callee].insert(cb);
   str m = p->mode; bool multi;
   V idx = (m == "M" || m == "S") ? nullptr : args.size() > 1 ? args[1] : nullptr;
   str n = lockName(args[0], idx, multi);
   if (multi) { // one of many instances, taken in a loop: held or not, without counting
      acquires[E->root].insert(n + "|" + m); locks.insert(n);
      str k = n + "[*]|" + m;
      if (p->d > 0) { edges(s, cb, n + "|" + m); s.cnt[k] = 1; } else s.cnt.erase(k);
      out.push_back({s, E->cst(0)}); return true;
   }
   str key = srcName(cb->getFunction()) + ":" + n;
   if (callee == "platform_batch_rwlock_unclaim") {
      if (held(s, n, "W") > 0) E->report("lock-unheld", cb, key, "claim on " + n + " released while its write lock is held", s);
      bump(s, n, "C", -1, cb); bump(s, n, "R", 1, cb);
      out.push_back({s, nullptr}); return true;
   }
   if (m == "T" || m == "C") {
      State f = s;
      if (held(s, n, "C") > 0) E->report("lock-double", cb, key, "claim on " + n + " taken while already held", s);
      // a successful claim replaces the read lock
      acquires[E->root].insert(n + "|C"); locks.insert(n);
      edges(s, cb, n + "|C");
      bump(s, n, "R", -1, cb); bump(s, n, "C", 1, cb);
      if (m == "C") { out.push_back({s, nullptr}); return true; }
      E->note(s, cb, "claim ok"); E->note(f, cb, "claim failed");
      out.push_back({s, E->cst(1)}); out.push_back({f, E->cst(0)});
      return true;
   }
   if (m == "F") { bump(s, n, "W", -1, cb); bump(s, n, "C", -1, cb); E->note(s, cb, "release"); out.push_back({s, nullptr}); return true; }
   if (p->d > 0) acquire(s, cb, n, m);
   else {
      if (m == "R" && (held(s, n, "C") > 0 || held(s, n, "W") > 0)) E->report("lock-unheld", cb, key, "read lock " + n + " released while this thread holds its claim or write lock instead", s);
      release(s, cb, n, m);
   }
   out.push_back({s, cb->getType()->isVoidTy() ? nullptr : E->cst(0)});
   return true;
}
// test-and-set locks and the batch lock of the mini allocator (sentinel value)
bool LockMonitor::atomic(State &s, const Instruction *i, V a, V ex, V nv, std::vector<std::pair<State, int>> &out)
{
   bool multi; 
   if (!ex) {
      auto *rm = cast<AtomicRMWInst>(i);
      if (rm->getOperation() != AtomicRMWInst::Xchg || nv->k != CONST || nv->c == 0) return false;
      str n = lockName(a, nullptr, multi);
      if (multi || n.rfind("lock", 0) == 0) return false;
      sites["test-and-set"].insert(i);
      State f = s;
      acquire(s, i, n, "S");
      out.push_back({s, 0}); out.push_back({f, 1});
      return true;
   }
   str t; for (V x = a; x->k == OFF || x->k == ELEM; x = x->a) if (!x->tags.empty()) { t = x->tags.back(); break; }
   if (t == "mini_allocator.next_addr" && nv->k == CONST) {
      sites["batch-lock"].insert(i);
      State f = s;
      acquire(s, i, t, "S");
      out.push_back({s, 1}); out.push_back({f, 0});
      return true;
   }
   return false;
}
std::set<str> LockMonitor::tagsOf(V a, const Instruction *i)
{
   std::set<str> ts;
   for (V x = a; x->k == OFF || x->k == ELEM; x = x->a) if (!x->tags.empty()) { ts.insert(x->tags.begin(), x->tags.end()); break; }
   const llvm::Value *op = nullptr; if (auto *l = dyn_cast<LoadInst>(i)) op = l->getPointerOperand(); else if (auto *st = dyn_cast<StoreInst>(i)) op = st->getPointerOperand();
   if (op) { str t = E->P.tagOf(op); if (!t.empty()) ts.insert(t); }
   return ts;
}
void LockMonitor::store(State &s, V a, V val, const Instruction *i, uint64_t size)
{
   access(s, a, i, true);
   { // retiring a memtable and switching the root have to look like one step to lookups
      auto ts = tagsOf(a, i);
      if (ts.count(RETIRED) && Engine::strip(a)->k != ALLOCA) { s.cnt["!retired"] = 1; s.cntAt["!retired"] = i; retires.insert(i); }
      if (ts.count(ROOT) && held(s, LOOKUP, "W") > 0) s.cnt["!root"] = 1;
   }
   if (auto *st = dyn_cast<StoreInst>(i)) {
      bool multi; 
      if (st->isAtomic() && val->k == CONST && val->c == 0) {
         str n = lockName(a, nullptr, multi);
         if (!multi && n.rfind("lock", 0) != 0) { release(s, i, n, "S"); sites["test-and-set-release"].insert(i); }
      }
      str t; for (V x = a; x->k == OFF || x->k == ELEM; x = x->a) if (!x->tags.empty()) { t = x->tags.back(); break; }
      if (t == "mini_allocator.next_addr" && (held(s, t, "S") > 0 || val->k != CONST)) {
         if (held(s, t, "S") > 0 || srcName(i->getFunction()).find("init") == str::npos) { release(s, i, t, "S"); sites["batch-unlock"].insert(i); }
      }
   }
}
static std::vector<std::pair<str, const Guard *>> &guards()
{
   static std::vector<std::pair<str, const Guard *>> v;
   if (v.empty()) { for (auto &g : GUARDS) v.push_back({str(g.field) + (g.reads ? ":read" : ":write"), &g}); for (auto &g : OPS) v.push_back({str(g.field) + ":call", &g}); }
   return v;
}
bool LockMonitor::satisfied(State &s, const str &guard)
{
   for (auto &gg : guards()) if (guard == gg.first) {
      const Guard &g = *gg.second;
      str m = g.mode;
      if (m == "R") { str l = g.lock; size_t k = l.find(" or "); if (k == str::npos) return anyHeld(s, l); return anyHeld(s, l.substr(0, k)) || anyHeld(s, l.substr(k + 4)); }
      return held(s, g.lock, m) > 0 || held(s, str(g.lock) + "[*]", m) > 0;
   }
   return true;
}
void LockMonitor::access(State &s, V a, const Instruction *i, bool write)
{
   auto ts = tagsOf(a, i);
   if (ts.empty()) return;
   for (auto &g : GUARDS) if (ts.count(g.field) && g.reads == !write) {
      guarded++;
      str gn = str(g.field) + (g.reads ? ":read" : ":write");
      if (satisfied(s, gn)) continue;
      V b = Engine::strip(a); if (b->k == ALLOCA) continue;
      if (!write && isa<LoadInst>(i) && str(g.field) == "trunk_handle.root_addr") { // compared with, but not followed
         bool cmp = true; for (auto *u : i->users()) if (!isa<ICmpInst>(u)) cmp = false;
         if (cmp) continue;
      }
      auto &w = wants[E->root];
      if (!w.count(gn)) w[gn] = {i, srcName(i->getFunction())};
   }
}
bool LockMonitor::isBlocking(Function *f)
{
   auto it = blocking.find(f);
   if (it != blocking.end()) return it->second;
   blocking[f] = false;
   static const std::set<str> B = {"pthread_cond_wait", "pthread_join", "io_getevents", "nanosleep", "clock_nanosleep", "usleep", "sleep", "pread", "pwrite", "fsync", "fdatasync", "pthread_mutex_lock"};
   bool r = false;
   for (auto &i : instructions(*f)) if (auto *cb = dyn_cast<CallBase>(&i)) {
      Function *g = E->P.callee(cb);
      if (g && g->isDeclaration() && B.count(srcName(g))) r = true;
      else if (g && !g->isDeclaration()) { if (isBlocking(g)) r = true; }
      else if (!g) for (Function *t : E->P.slotTargets(cb)) if (isBlocking(t)) r = true;
      if (r) break;
   }
   return blocking[f] = r;
}
void LockMonitor::opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args)
{
   std::vector<Function *> ts; if (f) ts.push_back(f); else { ts = E->P.slotTargets(cb); if (ts.empty()) { auto x = E->P.fieldTargets(cb); ts.assign(x.begin(), x.end()); std::sort(ts.begin(), ts.end(), [](Function *a, Function *b) { return srcName(a) < srcName(b); }); callbacks += ts.size(); } }
   for (Function *t : ts) {
      for (auto &c : s.cnt) if (c.second > 0 && c.first[0] != '!') {
         str k = c.first + "@" + std::to_string(E->vid(cb)) + "@" + std::to_string(E->vid(t));
         if (deferredKeys.insert(k).second) deferred.push_back({c.first, cb, t, E->root, s.trace});
      }
      for (auto &w : wants[t]) if (!satisfied(s, w.first)) { auto &m = wants[E->root]; if (!m.count(w.first)) m[w.first] = {w.second.first, w.second.second + " < " + srcName(cb->getFunction())}; }
   }
   for (auto &c : s.cnt) if (c.second > 0 && c.first.back() == 'S') {
      str n = c.first.substr(0, c.first.find('|'));
      if (n == "mini_allocator.next_addr") continue; // a sleeping lock built on a sentinel
      bool b = false; str who;
      if (!f && !E->P.calleeName(cb).empty()) { static const std::set<str> B = {"pthread_cond_wait", "io_getevents", "nanosleep", "clock_nanosleep", "usleep", "sleep", "pread", "pwrite", "fsync", "pthread_mutex_lock"}; b = B.count(E->P.calleeName(cb)); who = E->P.calleeName(cb); }
      for (Function *t : ts) if (isBlocking(t)) { b = true; who = srcName(t); }
      if (b) E->report("lock-block", cb, srcName(cb->getFunction()) + ":" + who, "calls " + who + ", which can block, while holding the spin lock " + n, s);
   }
}
void LockMonitor::mkConcurrent()
{
   if (!concurrent.empty()) return;
   for (Function *f : E->P.funcs) {
      auto it = E->P.implOf.find(f);
      bool slot = it != E->P.implOf.end();
      if (E->P.addrTaken.count(f) || slot) concurrent.insert(f);
      str n = srcName(f);
      if (n.rfind("splinterdb_", 0) == 0 && E->P.callers[f].empty()) concurrent.insert(f);
   }
   for (auto it = concurrent.begin(); it != concurrent.end();) {
      str n = srcName(*it);
      static const char *ex[] = {"create", "open", "close", "destroy", "deinit", "print", "stats", "dump", "mount", "unmount"};
      bool skip = false; for (auto *e : ex) if (n.find(e) != str::npos) skip = true;
      it = skip ? concurrent.erase(it) : std::next(it);
   }
}
void LockMonitor::rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot)
{
   if (isRoot) rootExits[f]++;
   for (auto &c : s.cnt) if (c.first[0] == '!') sum.neutral = false;
   for (auto &c : s.cnt) if (c.second != 0 && !many(c.first)) {
      sum.neutral = false;
      if (isRoot) roots[f].push_back({c.first, c.second, s.cntAt.count(c.first) ? s.cntAt[c.first] : i, i, s.trace});
   }
}
void runLock(Program &P, Result &R)
{
   LockMonitor M; Engine E(P, M);
   M.E = &E;
   E.run();
   M.mkConcurrent();
   // calls made while holding a lock: what can the callee, and the callbacks it runs, acquire?
   {
      std::map<Function *, std::set<Function *>> cg;
      for (Function *f : P.funcs) { cg[f] = P.callees[f]; for (auto &i : instructions(*f)) if (auto *cb = dyn_cast<CallBase>(&i)) for (Function *t : P.fieldTargets(cb)) cg[f].insert(t); }
      std::map<Function *, std::set<str>> memo;
      auto reach = [&](Function *f) -> std::set<str> & {
         auto it = memo.find(f); if (it != memo.end()) return it->second;
         auto &r = memo[f]; std::set<Function *> seen{f}; std::vector<Function *> wl{f};
         while (!wl.empty()) { Function *x = wl.back(); wl.pop_back(); if (M.prim.count(x)) continue; auto a = M.acquires.find(x); if (a != M.acquires.end()) r.insert(a->second.begin(), a->second.end()); for (Function *y : cg[x]) if (seen.insert(y).second) wl.push_back(y); }
         return r;
      };
      for (auto &d : M.deferred) for (auto &n : reach(d.callee)) {
         if (n.rfind("arg", 0) == 0 || n.rfind("lock", 0) == 0) continue;
         E.root = d.root; E.stack = {const_cast<Function *>(d.cb->getFunction())}; E.callStack.clear();
         State st; st.trace = d.trace;
         if (bare(n) != bare(d.held)) { auto k = std::make_pair(d.held, n); if (d.held.rfind("arg", 0) != 0 && d.held.rfind("lock", 0) != 0 && !M.order.count(k)) M.order[k] = {d.cb, srcName(d.root)}; }
         else if (!many(d.held) && blockedBy(n.substr(n.find('|') + 1), d.held.substr(d.held.find('|') + 1)))
            E.report("lock-double", d.cb, srcName(d.cb->getFunction()) + ":" + srcName(d.callee) + ":" + bare(n), "calls " + srcName(d.callee) + ", which acquires " + bare(n) + ", while this thread already holds it", st);
      }
   }
   for (auto &r : M.roots) {
      Function *f = r.first; 
      bool entry = P.addrTaken.count(f) || srcName(f).rfind("splinterdb_", 0) == 0;
      std::map<str, std::set<int>> how; std::map<str, int> n;
      for (auto &x : r.second) { how[x.key].insert(x.n); n[x.key]++; }
      for (auto &x : r.second) {
         // an unused helper that always does the same to its caller's lock is nobody's entry point
         if (!entry && how[x.key].size() == 1 && n[x.key] == M.rootExits[f]) continue;
         str ln = bare(x.key); State st; st.trace = x.trace;
         E.root = f; E.stack = {const_cast<Function *>(x.at->getFunction())}; E.callStack.clear();
         E.report(x.n > 0 ? "lock-leak" : "lock-unheld", x.at, srcName(f) + ":" + ln,
                  x.n > 0 ? "lock " + ln + " is still held when " + srcName(f) + " returns (line " + std::to_string(lineOf(x.exit)) + ")" : "lock " + ln + " is released on a path of " + srcName(f) + " that does not hold it", st);
      }
   }
   if (getenv("SDB_WANTS")) for (auto &w : M.wants) for (auto &x : w.second) fprintf(stderr, "WANTS %s %s %s conc=%d\n", srcName(w.first).c_str(), x.first.c_str(), x.second.second.c_str(), (int)M.concurrent.count(w.first));
   // guarded data reached without the lock from a concurrent entry point
   State empty;
   for (Function *f : M.concurrent) for (auto &w : M.wants[f]) {
      E.root = f; E.stack = {f}; E.callStack.clear();
      str why; for (auto &g : guards()) if (w.first == g.first) why = str("needs ") + g.second->lock + ": " + g.second->why;
      E.stack = {const_cast<Function *>(w.second.first->getFunction())};
      E.report("guarded-by", w.second.first, w.first + "@" + w.second.second.substr(0, w.second.second.find(" ")), w.first + " accessed in " + w.second.second + " < " + srcName(f) + " without the lock; " + why, empty);
   }
   // cycles in the acquisition order: each acquisition must be one the next holder can hold up
   typedef std::pair<str, str> Edge; auto mode = [](const str &x) { return x.substr(x.find('|') + 1); };
   for (auto &o : M.order) {
      std::map<Edge, Edge> par; std::vector<Edge> wl{o.first}; par[o.first] = {}; bool cyc = false; Edge last;
      while (!wl.empty() && !cyc) {
         Edge x = wl.back(); wl.pop_back();
         for (auto &y : M.order) if (bare(y.first.first) == bare(x.second) && blockedBy(mode(x.second), mode(y.first.first))) {
            if (bare(y.first.second) == bare(o.first.first) && blockedBy(mode(y.first.second), mode(o.first.first))) { cyc = true; last = y.first; }
            if (!par.count(y.first)) { par[y.first] = x; wl.push_back(y.first); }
         }
      }
      if (cyc) {
         E.root = const_cast<Function *>(o.second.first->getFunction()); E.stack.clear();
         str l = fileOfInst(M.order[last].first) + ":" + std::to_string(lineOf(M.order[last].first));
         E.report("lock-order", o.second.first, o.first.first + "->" + o.first.second, "lock " + o.first.second + " is acquired while holding " + o.first.first + " (in " + o.second.second + "), while " + last.second + " is acquired holding " + last.first + " (in " + M.order[last].second + ", " + l + ")", empty);
      }
   }
   R.findings = E.findings;
   R.counts["functions_analysed"] = E.totalRoots; R.counts["instructions_interpreted"] = E.totalSteps; R.counts["exits_checked"] = E.totalExits; R.counts["functions_over_budget"] = E.overBudgetFns.size();
   R.floor("locks", M.locks.size(), 8);
   long n = 0; for (auto &k : M.sites) { R.counts["call_sites." + k.first] = k.second.size(); n += k.second.size(); }
   R.floor("lock_call_sites", n, 40);
   R.floor("guarded_accesses", M.guarded, 20);
   R.floor("memtable_retirements", M.retires.size(), 1);
   R.floor("concurrent_entry_points", M.concurrent.size(), 20);
   R.counts["order_edges"] = M.order.size();
   for (auto &o : M.order) R.samples.push_back("order " + o.first.first + " -> " + o.first.second + " at " + fileOfInst(o.second.first) + ":" + std::to_string(lineOf(o.second.first)));
   for (auto &l : M.locks) R.samples.push_back("lock " + l);
   for (auto &n : E.overBudgetFns) R.samples.push_back("over budget: " + n);
   for (auto *f : E.nonNeutral) R.samples.push_back("changes its caller's locks: " + srcName(f));
}
