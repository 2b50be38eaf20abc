// Heap blocks and paired resources: released exactly once, by the matching
// function, not used afterwards, and unwound by a constructor that fails.
#include "monitors.h"

// object: own (acquired here), ref (1 live, 0 released), written (reachable from elsewhere), x kind (0 heap block)
static const std::set<str> ALLOC = {"platform_aligned_malloc", "platform_aligned_zalloc", "aligned_alloc", "malloc", "calloc"};
struct RKind { const char *name; bool byAddr; std::vector<std::pair<const char *, int>> acq, rel; bool status; bool strict; };
// byAddr: the resource lives in the storage argument N points to; otherwise it is the pointer returned (acq -1) or stored through argument N
static const std::vector<RKind> KINDS = {
   {"heap block", false, {}, {}, false, true},
   {"mutex", true, {{"platform_mutex_init", 0}}, {{"platform_mutex_destroy", 0}}, true, false},
   {"spin lock", true, {{"platform_spinlock_init", 0}}, {{"platform_spinlock_destroy", 0}}, true, false},
   {"condition variable", true, {{"platform_condvar_init", 0}}, {{"platform_condvar_destroy", 0}}, true, false},
   {"semaphore", true, {{"platform_semaphore_init", 0}}, {{"platform_semaphore_destroy", 0}}, true, false},
   {"page buffer", true, {{"platform_buffer_init", 0}}, {{"platform_buffer_deinit", 0}}, true, true},
   {"resizable buffer", true, {{"writable_buffer_init_with_buffer", 0}}, {{"writable_buffer_deinit", 0}}, false, true},
   {"btree iterator", true, {{"btree_iterator_init", 2}}, {{"btree_iterator_deinit", 0}}, false, true},
   {"range iterator", true, {{"trunk_range_iterator_init", 1}}, {{"trunk_range_iterator_deinit", 0}}, true, true},
   {"merge iterator", false, {{"merge_iterator_create", 5}}, {{"merge_iterator_destroy", 1}}, true, true},
   {"I/O handle", true, {{"io_handle_init", 0}}, {{"io_handle_deinit", 0}}, true, true},
   {"task system", false, {{"task_system_create", 2}}, {{"task_system_destroy", 1}}, true, true},
   {"allocator", true, {{"rc_allocator_init", 0}, {"rc_allocator_mount", 0}}, {{"rc_allocator_deinit", 0}, {"rc_allocator_unmount", 0}}, true, true},
   {"cache", true, {{"clockcache_init", 0}}, {{"clockcache_deinit", 0}}, true, true},
   {"trunk", false, {{"trunk_create", -1}, {"trunk_mount", -1}}, {{"trunk_destroy", 0}, {"trunk_unmount", 1000}}, false, true},
   {"memtable context", false, {{"memtable_context_create", -1}}, {{"memtable_context_destroy", 1}}, false, true},
   {"histogram", false, {{"platform_histo_create", 3}}, {{"platform_histo_destroy", 1}}, true, true},
   {"heap", false, {{"platform_heap_create", 3}}, {{"platform_heap_destroy", 0}}, true, true},
   {"instance", false, {{"splinterdb_create_or_open", 1}}, {{"splinterdb_close", 1000}}, true, true},
   {"iterator", false, {{"splinterdb_iterator_init", 1}}, {{"splinterdb_iterator_deinit", 0}}, true, true},
   {"lookup result", true, {{"splinterdb_lookup_result_init", 1}}, {{"splinterdb_lookup_result_deinit", 0}}, false, true},
   {"descriptor", false, {{"open", -1}}, {{"close", 0}}, false, true},
};
struct Act { int kind, arg; bool rel; };
static std::map<str, Act> &acts()
{
   static std::map<str, Act> m;
   if (m.empty()) for (unsigned k = 1; k < KINDS.size(); k++) {
      for (auto &a : KINDS[k].acq) m[a.first] = {(int)k, a.second, false};
      for (auto &a : KINDS[k].rel) m[a.first] = {(int)k, a.second, true};
   }
   return m;
}
static const int BUF = 6; // lock: 1 once it may own storage
static bool isAddrKey(V v) { return v->k == OP && v->op >= 9000 && v->op < 9100; }
int HeapMonitor::kindOf(const Instruction *i) { auto it = kinds.find(i); return it == kinds.end() ? 0 : it->second; }
// a resizable buffer owns its storage: what its functions allocate or free is the buffer's business
static const std::set<str> BUFSET = {"writable_buffer_resize", "writable_buffer_ensure_space"};
static bool bufferFn(const str &n) { return n.rfind("writable_buffer_", 0) == 0 && !acts().count(n); }
bool HeapMonitor::noInline(Function *f) { if (E->info(f).size > 460 && E->root != f) return true; return acts().count(srcName(f)) > 0 || (bufferFn(srcName(f)) && srcName(f).find("_init") == str::npos && srcName(f).find("ensure_space") != str::npos) || BUFSET.count(srcName(f)); }
bool HeapMonitor::dead(State &s, V v) { auto it = s.objs.find(v); return it != s.objs.end() && it->second.ref <= 0; }

void HeapMonitor::acquire(State &s, V key, int kind, const Instruction *i, V heap)
{
   if (isAddrKey(key)) for (V x = key->a; x->k == OFF || x->k == ELEM || x->k == LOAD0; x = x->a) if (x->k == ELEM) { recordTag(acqTags, kind, key->a); sites[KINDS[kind].name].insert(i); return; }
   auto it = s.objs.find(key);
   if (it != s.objs.end() && it->second.own && it->second.ref > 0 && isAddrKey(key) && !it->second.written)
      both(i, E->instKey(i), str(KINDS[kind].name) + " initialised again while the one initialised before (line " + std::to_string(lineOf(it->second.acq)) + ") is still held", s);
   kinds[i] = kind; if (heap) heaps[i] = heap;
   ObjSt o; o.own = true; o.ref = 1; o.acq = i; s.objs[key] = o;
   sites[KINDS[kind].name].insert(i);
}
void HeapMonitor::recordTag(std::map<Function *, std::set<std::pair<int, str>>> &m, int kind, V at)
{  // the field that holds the resource
   while (at->k == ELEM || (at->k == OFF && at->tags.empty())) { if (!at->tags.empty()) break; at = at->a; }
   str all; for (auto &t : at->tags) all += t + " "; if (!all.empty()) m[E->root].insert({kind, all});
}
static str tagStr(V at) { while (at->k == ELEM || (at->k == OFF && at->tags.empty())) { if (!at->tags.empty()) break; at = at->a; } str all; for (auto &t : at->tags) all += t + " "; return all; }
// size of the structure parameter i points to, from the debug information
static int64_t pointeeSize(Function *f, unsigned i, bool twice)
{
   if (!f || !f->getSubprogram() || !f->getSubprogram()->getType()) return 0;
   auto ta = f->getSubprogram()->getType()->getTypeArray(); if (i + 1 >= ta.size()) return 0;
   DIType *t = ta[i + 1];
   for (int k = 0; k < (twice ? 2 : 1); k++) { t = stripTypedef(t); auto *d = dyn_cast_or_null<DIDerivedType>(t); if (!d || d->getTag() != dwarf::DW_TAG_pointer_type) return 0; t = d->getBaseType(); }
   while (t && (isa<DIDerivedType>(t)) && t->getSizeInBits() == 0) t = cast<DIDerivedType>(t)->getBaseType();
   t = t ? stripTypedef(t) : nullptr; return t ? t->getSizeInBits() / 8 : 0;
}
int HeapMonitor::heapClass(State &s, V h) { if (E->isZero(s, h)) return 0; if (h->k == LOAD0 || h->k == PARAM) return 1; return -1; }
void HeapMonitor::release(State &s, V key, int kind, const CallBase *cb, V heap)
{
   if (kind == 0 && heap) {
      str where; if (key->k == LOAD0 && key->a->k != PARAM) where = tagStr(key->a);
      auto it = acts().find(srcName(E->root));
      if (it != acts().end() && it->second.rel && !KINDS[it->second.kind].byAddr && (key->k == PARAM || (key->k == LOAD0 && key->a->k == PARAM && (int)key->a->c == it->second.arg % 1000))) if (!(key->k == PARAM && (int)key->c != it->second.arg)) where = str("the ") + KINDS[it->second.kind].name;
      if (!where.empty()) freeCls[where].insert({heapClass(s, heap), cb});
   }
   relSites[KINDS[kind].name].insert(cb);
   { V x = isAddrKey(key) ? Engine::strip(key->a) : key;   // one of the pointers kept in a local array: taken to be each of them
     if (x->k == SYM && x->a && x->a->k == ELEM && E->localAddr(x->a)) {
        V al = Engine::strip(x->a); int64_t in = isAddrKey(key) ? Engine::offOf(key->a) : 0; std::vector<V> each;
        for (auto &m : s.mem) if (Engine::strip(m.first) == al) each.push_back(isAddrKey(key) ? addrKey(kind, E->off(m.second, in)) : m.second);
        for (V e : each) { V at = isAddrKey(e) ? e->a : e->k == LOAD0 ? e->a : nullptr; if (at) recordTag(relTags, kind, at); if (s.objs.erase(e) == 0 && Engine::strip(at ? at : e)->k == PARAM) { ObjSt o; o.own = false; o.ref = 0; o.acq = cb; kinds[cb] = kind; s.objs[e] = o; } }
        return; } }
   { V at = isAddrKey(key) ? key->a : key->k == LOAD0 ? key->a : nullptr; if (at) recordTag(relTags, kind, at); }
   str callName = E->P.calleeName(cb);
   if (kind != 0 && isAddrKey(key)) {
      int64_t sz = 64; if (kind != BUF) { auto it = acts().find(callName); if (it != acts().end()) { int64_t z = pointeeSize(E->P.callee(cb), it->second.arg % 1000, false); if (z > 0) sz = z; } }
      killViews(s, Engine::baseOf(key->a), Engine::offOf(key->a), sz, cb);
   }
   // everything the released structure holds goes with it
   if (kind != 0) {
      V base = isAddrKey(key) ? key->a : key; V root = Engine::baseOf(base); int64_t o0 = Engine::offOf(base);
      int64_t sz = INT64_MAX / 2; { auto it = acts().find(callName); if (it != acts().end()) { int64_t z = pointeeSize(E->P.callee(cb), it->second.arg % 1000, !isAddrKey(key) && it->second.arg >= 1000); if (z > 0) sz = z; } }
      auto under = [&](V a) { V x = a; while (true) { if (Engine::baseOf(x) == root && Engine::offOf(x) >= o0 && Engine::offOf(x) < o0 + sz) return true; if (x->k == ELEM || x->k == LOAD0 || x->k == OFF) x = x->a; else return false; } };
      std::set<V> gone;
      for (auto &p : s.objs) if (p.first != key && p.second.own && p.second.ref > 0) {
         if (isAddrKey(p.first)) { if (kindOf(p.second.acq) != kind && under(p.first->a)) gone.insert(p.first); continue; }
         if (!under(p.first)) for (auto &m : s.mem) if (m.second == p.first && under(m.first) && p.first != root) { gone.insert(p.first); break; }
      }
      for (V g : gone) s.objs.erase(g);
   }
   { V x = isAddrKey(key) ? key->a : key; while (x->k == OFF || x->k == ELEM || x->k == LOAD0) { if (x->k == ELEM) return; x = x->a; } if (!(isAddrKey(key) && (x->k == ALLOCA || x->k == BYVAL)) && x->k != PARAM && !s.objs.count(key)) return; }
   auto it = s.objs.find(key);
   if (kind == BUF && it != s.objs.end()) { s.objs.erase(it); return; } // idempotent
   if (kind == BUF && Engine::strip(key->a)->k != PARAM) return;
   if (it == s.objs.end()) { ObjSt o; o.own = false; o.ref = 0; o.acq = cb; kinds[cb] = kind; s.objs[key] = o; return; }
   ObjSt &o = it->second;
   if (o.ref <= 0) { E->report("double-release", cb, E->instKey(cb), str(KINDS[kind].name) + " released twice (first at line " + std::to_string(o.own ? 0 : lineOf(o.acq)) + ")", s); return; }
   int k0 = kindOf(o.acq);
   if (k0 != kind && !(k0 == 0 && !KINDS[kind].byAddr)) E->report("release-mismatch", cb, E->instKey(cb), str(KINDS[k0].name) + " acquired at line " + std::to_string(lineOf(o.acq)) + " is released as a " + KINDS[kind].name, s);
   if (kind == 0 && heap) { auto h = heaps.find(o.acq); if (h != heaps.end()) {
      bool a0 = E->isZero(s, h->second), b0 = E->isZero(s, heap);
      if (h->second->k != SYM && heap->k != SYM && a0 != b0 && h->second->k != JOIN && heap->k != JOIN)
         E->report("release-mismatch", cb, E->instKey(cb), "memory allocated from " + str(a0 ? "the process heap" : "a configured heap") + " is freed to " + (b0 ? "the process heap" : "a configured heap"), s); } }
   o.ref = 0;
   // what the freed block owned
   if (!isAddrKey(key)) {
      for (auto it2 = s.objs.begin(); it2 != s.objs.end();) {
         if (isAddrKey(it2->first) && Engine::strip(it2->first->a) == key) {
            if (it2->second.own && it2->second.ref > 0 && (kindOf(it2->second.acq) != BUF || (it2->second.lock && !it2->second.written)) && KINDS[kindOf(it2->second.acq)].strict)
               both(cb, E->instKey(cb), "freed while the " + str(KINDS[kindOf(it2->second.acq)].name) + " inside it (initialised at line " + std::to_string(lineOf(it2->second.acq)) + ") is still held", s);
            it2 = s.objs.erase(it2); continue;
         }
         ++it2;
      }
      for (auto &p : s.objs) if (p.second.own && p.second.ref > 0 && !p.second.written && !isAddrKey(p.first) && p.first != key) {
         bool inside = false, other = false;
         for (auto &m : s.mem) if (Engine::strip(m.second) == p.first || E->contains(m.second, p.first)) { if (Engine::strip(m.first) == key) inside = true; else other = true; }
         for (auto &r : s.regs) for (auto &kv : r) if (E->contains(kv.second, p.first)) other = true;
         for (auto &pr : s.prov) for (V q : pr.second) if (q == p.first) other = true;
         if (inside && !other) both(cb, E->instKey(cb), "freed while it holds the only pointer to a " + str(KINDS[kindOf(p.second.acq)].name) + " acquired at line " + std::to_string(lineOf(p.second.acq)), s);
      }
      for (auto it2 = s.mem.begin(); it2 != s.mem.end();) if (Engine::strip(it2->first) == key) it2 = s.mem.erase(it2); else ++it2;
   } 
}
// pointers into the storage of resizable buffers under base (bytes o0..o0+sz) are dead: the buffer was released or may have moved
enum { OP_VIEW = 9600 };
static const char *VIEW = "writable_buffer.buffer";
void HeapMonitor::loaded(State &s, V val, const Instruction *i)
{
   auto *l = dyn_cast<LoadInst>(i); if (!l || val->k == CONST || E->localAddr(val) || E->P.tagOf(l->getPointerOperand()) != VIEW || val->k == GLOB) return;
   V a = E->eval(s, l->getPointerOperand()); s.prov[val].insert(E->op(OP_VIEW, a)); views.insert(i);
}
void HeapMonitor::staleView(State &s, const CallBase *cb, ObjSt &o) { E->report("use-after-release", cb, "view:" + E->instKey(cb), "a pointer into a resizable buffer is used after the buffer was released or resized (line " + std::to_string(lineOf(o.acq)) + ")", s); }
void HeapMonitor::killViews(State &s, V base, int64_t o0, int64_t sz, const CallBase *cb)
{
   auto under = [&](V a) { for (V x = a;; x = x->a) { if (Engine::baseOf(x) == base && Engine::offOf(x) >= o0 && Engine::offOf(x) < o0 + sz) return true; if (x->k != ELEM && x->k != LOAD0 && x->k != OFF) return false; } };
   std::set<V> views;
   for (auto &m : s.mem) if (m.first->hasTag(VIEW) && under(m.first) && (m.second->k == SYM || m.second->k == LOAD0)) views.insert(m.second);
   for (auto &p : s.prov) for (V q : p.second) if (q->k == OP && q->op == OP_VIEW && under(q->a)) { views.insert(p.first); break; }
   for (V v : views) { if (s.objs.count(v) || E->isZero(s, v)) continue; ObjSt o; o.own = false; o.ref = 0; o.x = 77; o.acq = cb; kinds[cb] = BUF; s.objs[v] = o; }
   for (auto it = s.mem.begin(); it != s.mem.end();) if (it->first->hasTag(VIEW) && under(it->first)) it = s.mem.erase(it); else ++it;
   s.written.insert(VIEW);
}
bool HeapMonitor::call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out)
{
   str n = callee; if (n.empty() && !sl) n = E->P.calleeName(cb);
   for (unsigned k = 0; k < cb->arg_size() && k < args.size(); k++) { // a key or slice handed on by value
      auto *ty = cb->getArgOperand(k)->getType(); if (!ty->isPointerTy()) continue;
      auto src = [](V v) { v = Engine::strip(v); while (v->k == OP && v->op >= 3000 && v->op < 4000 && v->a) v = v->a; return v; };
      V b = Engine::strip(args[k]); auto st = s.objs.find(src(args[k]));
      if (st != s.objs.end() && st->second.x == 77 && n.rfind("llvm.", 0) != 0) staleView(s, cb, st->second);
      if (cb->isByValArgument(k)) for (auto &m : s.mem) if (Engine::strip(m.first) == b) { auto o = s.objs.find(src(m.second)); if (o != s.objs.end() && o->second.x == 77) { staleView(s, cb, o->second); break; } }
   }
   if (ALLOC.count(n)) {
      V heap = n.rfind("platform_", 0) == 0 ? args[0] : nullptr;
      V v = E->freshSym(s, cb); s.fresh.insert(v);
      acquire(s, v, 0, cb, heap); E->note(s, cb, "allocate");
      out.push_back({s, v}); return true;
   }
   if (n == "platform_free_from_heap" || n == "free" || n == "platform_shm_free") {
      V p = n == "free" ? args[0] : args[1]; V heap = n == "free" ? nullptr : args[0];
      if (E->isZero(s, p)) { out.push_back({s, nullptr}); return true; }
      V b = Engine::strip(p);
      if (b != p && s.objs.count(b) && s.objs[b].own && kindOf(s.objs[b].acq) == 0) E->report("release-mismatch", cb, E->instKey(cb), "a pointer into the middle of a block is freed", s);
      if (p->k == ALLOCA || p->k == BYVAL || p->k == GLOB) E->report("release-mismatch", cb, E->instKey(cb), "storage that is not on the heap is freed", s);
      E->note(s, cb, "free");
      if (!s.objs.count(p)) for (V q : provOf(s, p)) { auto it = s.objs.find(q); if (it != s.objs.end()) it->second.written = true; }
      release(s, p, 0, cb, heap);
      out.push_back({s, nullptr}); return true;
   }
   if (n == "platform_realloc" || n == "realloc") {
      V p = n == "realloc" ? args[0] : args[2];
      State t = s;
      if (!E->isZero(s, p)) { release(s, p, 0, cb, nullptr); }
      V v = E->freshSym(s, cb); s.facts[v].ne.insert(0); acquire(s, v, 0, cb, nullptr);
      E->note(t, cb, "realloc failed");
      out.push_back({s, v}); out.push_back({t, E->cst(0)}); return true;
   }
   if (BUFSET.count(n)) { // success: the buffer may own storage from now on
      State t = s;
      auto o = s.objs.find(addrKey(BUF, args[0])); if (o != s.objs.end() && o->second.own) o->second.lock = 1;
      killViews(s, Engine::baseOf(args[0]), Engine::offOf(args[0]), 64, cb);
      if (declRetTypeName(cb) == "platform_status" || retTypeName(E->P.callee(cb)) == "platform_status") { V f = E->freshSym(t, cb); t.facts[f].ne.insert(0); out.push_back({s, E->cst(0)}); out.push_back({t, f}); return true; }
      V v = E->freshSym(s, cb); out.push_back({s, v}); return true;
   }
   auto it = acts().find(n);
   if (it == acts().end()) return false;
   const Act &a = it->second; const RKind &k = KINDS[a.kind];
   if ((int)args.size() <= (a.arg >= 1000 ? a.arg - 1000 : std::max(a.arg, 0))) return false;
   bool hasRet = !cb->getType()->isVoidTy();
   if (a.rel) {
      V key = nullptr;
      int ai = a.arg >= 1000 ? a.arg - 1000 : a.arg;
      V p = args[ai];
      if (dead(s, Engine::strip(p)) && (k.byAddr || a.arg != 0)) { E->report("use-after-release", cb, E->instKey(cb), "the " + str(k.name) + " is released after the memory it lives in", s); }
      if (k.byAddr) key = addrKey(a.kind, p);
      else {
         Function *f = E->P.callee(cb); auto stars = [](const str &t) { return std::count(t.begin(), t.end(), '*'); }; bool ind = a.arg >= 1000 || (f && ai < (int)f->arg_size() && stars(paramTypeName(f, ai)) > 1) || n == "platform_heap_destroy" || n == "platform_histo_destroy";
         if (ind) { auto m = s.mem.find(p); key = m != s.mem.end() ? m->second : E->load0(p); } else key = p;
      }
      E->note(s, cb, "release");
      if (!(key->k == CONST) && !(key->k == JOIN)) release(s, key, a.kind, cb, nullptr);
      else for (V q : provOf(s, key)) { auto o = s.objs.find(q); if (o != s.objs.end()) o->second.written = true; }
      if (!k.byAddr && a.arg != 0 && hasRet == false && s.mem.count(p)) s.mem[p] = E->cst(0);
      if (!hasRet) out.push_back({s, nullptr}); else { V v = E->freshSym(s, cb); out.push_back({s, v}); }
      return true;
   }
   State t = s;
   if (k.byAddr) {
      V p = args[a.arg];
      if (E->localAddr(p) && n != "platform_mutex_init") { // contents are now the callee's
         V b = Engine::baseOf(p); int64_t o = Engine::offOf(p);
         for (auto it2 = s.mem.begin(); it2 != s.mem.end();) if (Engine::baseOf(it2->first) == b && Engine::offOf(it2->first) >= o) it2 = s.mem.erase(it2); else ++it2;
      }
      if (a.kind == BUF) { for (int64_t o = 0; o < 64; o += 8) s.mem.erase(E->off(p, o)); auto it3 = s.objs.find(addrKey(BUF, p)); if (it3 != s.objs.end() && (!it3->second.lock || !it3->second.own)) s.objs.erase(it3); }
      acquire(s, addrKey(a.kind, p), a.kind, cb, nullptr);
   } else if (a.arg == -1) {
      V v = E->freshSym(s, cb); acquire(s, v, a.kind, cb, nullptr);
      if (n == "open") { State f2 = s; s.facts[v].ne.insert(-1); s.facts[E->op(OP_SLT, v, E->cst(0))] = Fact{true, 0, {}}; s.facts[E->op(OP_SLT, E->cst(-1), v)] = Fact{true, 1, {}};
         f2.objs.erase(v); out.push_back({s, v}); out.push_back({f2, E->cst(-1)}); return true; }
      s.facts[v].ne.insert(0);
      E->note(s, cb, "acquire"); E->note(t, cb, "acquire failed");
      out.push_back({s, v}); if (canBeNull(n)) out.push_back({t, E->cst(0)});
      return true;
   } else {
      V p = args[a.arg]; V v = E->freshSym(s, cb); s.facts[v].ne.insert(0); acquire(s, v, a.kind, cb, nullptr);
      str tg = p->tags.empty() ? "" : p->tags.back();
      E->storeMem(s, p, v, tg, nullptr);
      if (!E->localAddr(p)) placed(s, p, v, cb);
   }
   if (hasRet && k.status) {
      E->note(s, cb, "acquire"); E->note(t, cb, "acquire failed");
      if (!k.byAddr && a.arg >= 0) { str tg = args[a.arg]->tags.empty() ? "" : args[a.arg]->tags.back(); V z = E->sym(0, cb, args[a.arg]); (void)z; }
      out.push_back({s, E->cst(0)});
      V f = E->freshSym(t, cb); t.facts[f].ne.insert(0); out.push_back({t, f});
   } else if (hasRet) { V f = E->sym(0, cb); out.push_back({s, f}); }
   else out.push_back({s, nullptr});
   return true;
}
// a leak inside a constructor or destructor is also a failure to unwind or to tear down
void HeapMonitor::both(const Instruction *at, const str &key, const str &msg, State &s)
{
   E->report("resource-leak", at, key, msg, s);
   auto it = acts().find(srcName(E->root)); if (it != acts().end()) E->report(it->second.rel ? "teardown-incomplete" : "failed-init-leak", at, key, msg, s);
}
V HeapMonitor::addrKey(int kind, V p) { Val v; v.k = OP; v.op = 9000 + kind; v.a = p; return E->intern(v); }
bool HeapMonitor::canBeNull(const str &n) { return true; }
std::set<V> HeapMonitor::provOf(State &s, V v)
{
   std::set<V> r; auto it = s.prov.find(v); if (it != s.prov.end()) r = it->second; return r;
}
void HeapMonitor::access(State &s, V a, const Instruction *i, const char *how)
{
   V b = Engine::strip(a);
   accesses++;
   if (b->k == CONST && (b->c == 0) && fileOfInst(i).find("platform") == str::npos) {
      // reported when the null was put there in this function: a constant operand or a cell cleared by a free
      const llvm::Value *p = nullptr;
      if (auto *l = dyn_cast<LoadInst>(i)) p = l->getPointerOperand(); else if (auto *st = dyn_cast<StoreInst>(i)) p = st->getPointerOperand();
      while (p) { p = p->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand(); else break; }
      bool lit = p && isa<ConstantPointerNull>(p);
      if (p) if (auto *l = dyn_cast<LoadInst>(p)) {
         str tg = E->P.tagOf(l->getPointerOperand());
         if (!tg.empty()) for (auto &ins : instructions(const_cast<Function *>(i->getFunction()))) if (auto *st = dyn_cast<StoreInst>(&ins)) if (isa<ConstantPointerNull>(st->getValueOperand()) && E->P.tagOf(st->getPointerOperand()) == tg) lit = true;
      }
      if (lit) E->report("null-pointer", i, str(how) + ":" + srcName(i->getFunction()), str(how) + " through a pointer that is null here", s);
      return;
   }
   auto it = s.objs.find(b);
   if (it == s.objs.end()) return;
   ObjSt &o = it->second;
   if (o.ref <= 0) { E->report("use-after-release", i, str(how) + ":" + srcName(i->getFunction()), str(how) + " of memory that was released", s); return; }
   if (o.own && kindOf(o.acq) == 0 && !E->nonZero(s, b)) {
      E->report("unchecked-allocation", o.acq, E->instKey(o.acq) + ":" + allocName(o.acq), "the block allocated here is used (line " + std::to_string(lineOf(i)) + ") without a check that the allocation succeeded", s);
      s.facts[b].ne.insert(0);
   }
}
str HeapMonitor::allocName(const Instruction *i)
{
   auto *cb = dyn_cast<CallBase>(i); if (!cb || cb->arg_size() < 4) return "";
   if (auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(3)->stripPointerCasts())) if (g->hasInitializer()) if (auto *c = dyn_cast<ConstantDataArray>(g->getInitializer())) if (c->isCString()) return c->getAsCString().str();
   return "";
}
void HeapMonitor::load(State &s, V a, const Instruction *i) { access(s, a, i, "read"); }
void HeapMonitor::store(State &s, V a, V val, const Instruction *i, uint64_t size) { access(s, a, i, "write"); }
void HeapMonitor::placed(State &s, V a, V val, const Instruction *i)
{
   V v = s.objs.count(val) ? val : Engine::strip(val);
   auto it = s.objs.find(v);
   if (it == s.objs.end() || !it->second.own) return;
   if (v == val && kindOf(it->second.acq) == 0) { auto h = heaps.find(it->second.acq); str w = tagStr(a); if (h != heaps.end() && heapClass(s, h->second) >= 0 && !w.empty()) allocCls[w].insert({heapClass(s, h->second), it->second.acq}); }
   bool el = false; for (V x = a; x->k == OFF || x->k == ELEM; x = x->a) if (x->k == ELEM) el = true;
   V b = Engine::strip(a);
   if (el || b->k == GLOB) it->second.written = true;
   if (b->k == LOAD0 || b->k == SYM || b->k == JOIN || b->k == OLD) { auto h = s.objs.find(b); if (h == s.objs.end() || !h->second.own || h->second.written) { if (!fromParam(b)) it->second.written = true; } }
   if (!E->keep(s, a)) it->second.written = true;
}
bool HeapMonitor::fromParam(V b) { b = Engine::strip(b); while (b->k == LOAD0) b = Engine::strip(b->a); return b->k == PARAM; }
bool HeapMonitor::derefs(Function *f, unsigned i)
{
   auto key = std::make_pair(f, i); auto it = dmemo.find(key); if (it != dmemo.end()) return it->second;
   dmemo[key] = false; bool r = false;
   if (i < f->arg_size()) for (auto &ins : f->getEntryBlock()) {
      const llvm::Value *p = nullptr;
      if (auto *l = dyn_cast<LoadInst>(&ins)) p = l->getPointerOperand(); else if (auto *st = dyn_cast<StoreInst>(&ins)) p = st->getPointerOperand();
      else if (auto *cb = dyn_cast<CallBase>(&ins)) { Function *g = E->P.callee(cb); if (g && !g->isDeclaration()) for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->getArgOperand(k)->stripPointerCasts() == f->getArg(i) && derefs(g, k)) r = true; }
      if (!p) continue; p = p->stripPointerCasts(); while (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand()->stripPointerCasts();
      if (p == f->getArg(i)) r = true;
   }
   return dmemo[key] = r;
}
void HeapMonitor::opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args)
{
   std::vector<Function *> ts; if (f) ts.push_back(f); else { ts = E->P.slotTargets(cb); if (ts.empty()) { auto x = E->P.fieldTargets(cb); ts.assign(x.begin(), x.end()); } }
   str n = f ? "" : E->P.calleeName(cb);
   static const std::set<str> harmless = {"memset", "memcpy", "memmove", "memcmp", "strlen", "snprintf", "fprintf", "printf", "strcmp", "strncmp", "pread", "pwrite", "read", "write", "qsort", "strerror"};
   for (unsigned i = 0; i < args.size(); i++) {
      if (!cb->getArgOperand(i)->getType()->isPointerTy()) continue;
      V v = args[i]; auto it = s.objs.find(v); if (it == s.objs.end()) it = s.objs.find(Engine::strip(v));
      bool d = false; if (f) d = derefs(f, i); else if (n == "memset" || n == "memcpy" || n == "memmove") d = i < 2;
      if (d && (it != s.objs.end() || false)) access(s, v, cb, "use");
      if (it != s.objs.end() && it->second.ref <= 0 && f && !d && !isAddrKey(it->first)) { /* only handed on */ }
      // a callee that rewrites the aggregate a buffer lives in decides about the buffer
      if (f) { auto &md = E->mods[f]; bool wr = md.params.count(i) && v == Engine::strip(v); auto pt = md.ptags.find(i); if (pt != md.ptags.end()) for (auto &tg : pt->second) if (tg.rfind("writable_buffer.", 0) == 0) wr = true;
         if (wr) { V b0 = Engine::strip(v); for (auto &o : s.objs) if (isAddrKey(o.first) && kindOf(o.second.acq) == BUF && Engine::strip(o.first->a) == b0 && o.first->a != v) { o.second.written = true; if (getenv("SDB_NEUWHY")) fprintf(stderr, "BUFW %s %d\n", srcName(f).c_str(), i); } } }
      bool cap = false;
      if (!ts.empty()) { for (Function *t : ts) if (E->mods[t].captures.count(i)) cap = true; }
      else if (!harmless.count(n)) cap = true;
      if (it != s.objs.end() && it->second.own && cap) it->second.written = true;
      // a capturing callee may also keep what a local aggregate points to
      if (E->localAddr(v) && (cap || (ts.empty() && !harmless.count(n)))) for (auto &m : s.mem) if (Engine::strip(m.first) == Engine::strip(v)) { auto o = s.objs.find(Engine::strip(m.second)); if (o != s.objs.end()) o->second.written = true; }
   }
   // a callee that stores pointers found inside its arguments is not followed into them: what an argument aggregate holds may move
   if (f) for (unsigned i = 0; i < args.size(); i++) if (cb->getArgOperand(i)->getType()->isPointerTy() && E->localAddr(args[i]))
      if (movesOut(f, i)) for (auto &m : s.mem) if (Engine::strip(m.first) == Engine::strip(args[i])) { auto o = s.objs.find(Engine::strip(m.second)); if (o != s.objs.end()) o->second.written = true; }
}
bool HeapMonitor::movesOut(Function *f, unsigned i)
{  // a pointer loaded from parameter i is stored somewhere
   auto key = std::make_pair(f, i); auto it = mmemo.find(key); if (it != mmemo.end()) return it->second;
   mmemo[key] = false; bool r = false;
   if (i >= f->arg_size()) return false;
   std::function<void(const llvm::Value *, bool)> walk = [&](const llvm::Value *v, bool loaded) {
      for (auto *u : v->users()) {
         if (isa<GetElementPtrInst>(u) || isa<CastInst>(u) || isa<PHINode>(u)) { if (!isa<PHINode>(u)) walk(cast<llvm::Value>(u), loaded); }
         else if (auto *l = dyn_cast<LoadInst>(u)) { if (!loaded && l->getType()->isPointerTy()) walk(l, true); }
         else if (auto *st = dyn_cast<StoreInst>(u)) { if (loaded && st->getValueOperand() == v) r = true; }
         else if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (!loaded && mt->getRawSource() == v) r = true; }
         else if (auto *cb = dyn_cast<CallBase>(u)) {
            Function *g = E->P.callee(cb);
            for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->getArgOperand(k) == v) {
               if (g && !g->isDeclaration()) { if (loaded ? E->mods[g].captures.count(k) > 0 : movesOut(g, k)) r = true; }
               else if (!g || !loaded) {}
            }
         }
      }
   };
   walk(f->getArg(i), false);
   return mmemo[key] = r;
}
void HeapMonitor::assumed(State &s, const Instruction *br)
{
   for (auto it = s.objs.begin(); it != s.objs.end();) if (it->second.own && it->second.ref > 0 && E->isZero(s, it->first)) it = s.objs.erase(it); else ++it;
}
bool HeapMonitor::released(State &s, V v) { auto it = s.objs.find(v); return it != s.objs.end() && it->second.ref <= 0; }
void HeapMonitor::clobbered(State &s, V a, V oldv) {
   // a discriminating field next to a buffer becomes unknown: whether the buffer is live does too
   if (E->localAddr(a) && E->known(s, oldv) && !a->tags.empty()) for (auto &o : s.objs) if (isAddrKey(o.first) && kindOf(o.second.acq) == BUF && Engine::strip(o.first->a) == Engine::strip(a)) o.second.written = true;
   auto it = s.objs.find(Engine::strip(oldv)); if (it != s.objs.end() && it->second.own && it->second.ref > 0) it->second.written = true; }
void HeapMonitor::frameGone(State &s, unsigned ctx)
{
   for (auto it = s.objs.begin(); it != s.objs.end();) {
      if (isAddrKey(it->first)) { V b = Engine::strip(it->first->a); if ((b->k == ALLOCA || b->k == BYVAL) && b->ctx == ctx) { it = s.objs.erase(it); continue; } }
      ++it;
   }
}
void HeapMonitor::prune(State &s, std::function<bool(V)> referenced)
{
   for (auto it = s.objs.begin(); it != s.objs.end();) {
      ObjSt &o = it->second;
      if (isAddrKey(it->first)) { V b = Engine::strip(it->first->a); auto h = s.objs.find(b); if (h != s.objs.end() && h->second.written && kindOf(o.acq) == BUF) { recordTag(acqTags, BUF, it->first->a); it = s.objs.erase(it); continue; } if (b->k == SYM || b->k == OLD || b->k == JOIN) if (!referenced(b) && !s.objs.count(b)) { it = s.objs.erase(it); continue; } ++it; continue; }
      if (o.own && o.written && it->first->k == OLD) { it = s.objs.erase(it); continue; } // an earlier block that is owned elsewhere
      if (!referenced(it->first)) {
         if (o.own && o.ref > 0 && !o.written && !E->isZero(s, it->first)) leak(s, it->first, o, nullptr, "the last pointer to it is lost");
         it = s.objs.erase(it); continue;
      }
      ++it;
   }
}
void HeapMonitor::leak(State &s, V v, ObjSt &o, const Instruction *exit, const str &why)
{
   int k = kindOf(o.acq);
   both(o.acq, "leak:" + E->instKey(o.acq) + (k ? "" : ":" + allocName(o.acq)), str(KINDS[k].name) + " acquired here is never released: " + why + (exit ? " (return at line " + std::to_string(lineOf(exit)) + ")" : ""), s);
}
bool HeapMonitor::failure(State &s, Function *f, V ret)
{
   if (!ret) return false;
   str t = retTypeName(f);
   if (f->getReturnType()->isPointerTy()) return E->isZero(s, ret);
   if (t == "platform_status" || srcName(f).rfind("splinterdb_", 0) == 0) return E->nonZero(s, ret);
   return false;
}
void HeapMonitor::rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot)
{
   // what can be reached after the return
   std::set<V> reach; bool ch = true;
   auto holds = [&](V t, V o) { if (E->contains(t, o)) return true; auto p = s.prov.find(Engine::strip(t)); return p != s.prov.end() && p->second.count(o) > 0; };
   bool fail = failure(s, f, ret);
   std::map<V, V> cellOf;
   while (ch) {
      ch = false;
      for (auto &kv : s.objs) {
         V v = kv.first; if (!kv.second.own || kv.second.ref <= 0 || isAddrKey(v) || reach.count(v)) continue;
         bool r = kv.second.written || (ret && holds(ret, v));
         if (!r) for (auto &m : s.mem) if (holds(m.second, v)) {
            V b = Engine::strip(m.first); if (b->k == ALLOCA || b->k == BYVAL) continue;
            auto h = s.objs.find(b); bool trackedOwner = h != s.objs.end() && h->second.own;
            if (!trackedOwner || reach.count(b)) { r = true; if (!trackedOwner) cellOf[v] = m.first; break; }
         }
         if (r) { reach.insert(v); ch = true; }
      }
   }
   V product = nullptr;
   { auto it = acts().find(srcName(f));
     if (it != acts().end() && !it->second.rel && !KINDS[it->second.kind].byAddr && !fail) {
        V made = it->second.arg == -1 ? ret : nullptr; if (it->second.arg >= 0) { auto m = s.mem.find(E->param(f, it->second.arg)); if (m != s.mem.end()) made = m->second; }
        product = made;
        if (made) { auto o = s.objs.find(made); if (o != s.objs.end() && kindOf(o->second.acq) == 0) { auto h = heaps.find(o->second.acq); if (h != heaps.end() && heapClass(s, h->second) >= 0) allocCls[str("the ") + KINDS[it->second.kind].name].insert({heapClass(s, h->second), o->second.acq}); } }
     } }
   if (!fail) for (auto &kv : s.objs) if (kv.second.own && kv.second.ref > 0) {
      int k = kindOf(kv.second.acq); if (!KINDS[k].strict) continue;
      if (isAddrKey(kv.first)) { recordTag(acqTags, k, kv.first->a); continue; }
      if (kv.first != product) for (auto &m : s.mem) if (m.second == kv.first && !E->localAddr(m.first)) recordTag(acqTags, k, m.first);
   }
   if (bufferFn(srcName(f)) || srcName(f) == "writable_buffer_deinit") return;
   for (auto &kv : s.objs) {
      V v = kv.first; ObjSt &o = kv.second; int k = kindOf(o.acq);
      if (getenv("SDB_NEUWHY") && srcName(f) == getenv("SDB_NEUWHY")) fprintf(stderr, "  exit %d obj %s kind %s own %d ref %d written %d lock %d acq %d\n", lineOf(i), E->describe(v).c_str(), KINDS[k].name, o.own, o.ref, o.written, o.lock, lineOf(o.acq));
      if (!o.own) { if (o.ref <= 0 && o.x != 77) sum.neutral = false; continue; }
      if (o.ref <= 0 || (k == BUF && (!o.lock || o.written))) continue;
      obligations++;
      if (isAddrKey(v)) {
         V b = Engine::strip(v->a);
         if (b->k == ALLOCA || b->k == BYVAL) { if (b->ctx == 0 && KINDS[k].strict) leak(s, v, o, i, "it lives in a local variable"); continue; }
         auto h = s.objs.find(b);
         if (h != s.objs.end() && h->second.own) { if (!reach.count(b)) { if (h->second.ref > 0) leak(s, v, o, i, "its holder is unreachable"); } else if (!h->second.written) sum.neutral = false; continue; }
         sum.neutral = false;
         if (fail) E->report("failed-init-leak", o.acq, "init:" + srcName(f) + ":" + E->instKey(o.acq), srcName(f) + " reports a failure (line " + std::to_string(lineOf(i)) + ") but leaves the " + KINDS[k].name + " initialised here in place", s);
         continue;
      }
      if (!reach.count(v)) { leak(s, v, o, i, "nothing refers to it when " + srcName(f) + " returns"); continue; }
      if (!o.written) sum.neutral = false;
      if (fail && !o.written) E->report("failed-init-leak", o.acq, "init:" + srcName(f) + ":" + E->instKey(o.acq) + (k ? "" : ":" + allocName(o.acq)), srcName(f) + " reports a failure (line " + std::to_string(lineOf(i)) + ") but leaves the " + KINDS[k].name + " acquired here attached to its argument", s);
   }
}
void runHeap(Program &P, Result &R)
{
   HeapMonitor M; Engine E(P, M); E.stepLimit = getenv("SDB_LIM") ? atol(getenv("SDB_LIM")) : 600000; E.run();
   // teardown completeness: what a constructor leaves in place, the matching teardown releases
   unsigned pairs = 0;
   for (auto &k : KINDS) for (auto &a : k.acq) for (auto *f : P.named(a.first)) {
      std::set<std::pair<int, str>> rel; bool any = false;
      for (auto &r : k.rel) for (auto *g : P.named(r.first)) {
         any = true; std::set<Function *> seen; std::vector<Function *> wl{g};
         while (!wl.empty()) { Function *h = wl.back(); wl.pop_back(); if (!seen.insert(h).second) continue; auto x = M.relTags.find(h); if (x != M.relTags.end()) rel.insert(x->second.begin(), x->second.end()); for (Function *c : P.directCallees[h]) wl.push_back(c); }
      }
      if (!any) continue;
      for (auto &t : M.acqTags[f]) {
         if (t.first == (int)(&k - &KINDS[0])) continue;
         pairs++;
         bool ok = false; auto words = [](const str &z) { std::set<str> r; size_t p = 0; while (p < z.size()) { size_t e = z.find(' ', p); r.insert(z.substr(p, e - p)); p = e + 1; } return r; };
         auto mine = words(t.second);
         for (auto &x : rel) if (x.first == t.first || t.first == 0 || x.first == 0) { auto his = words(x.second); bool in1 = true, in2 = true; for (auto &w : his) if (!mine.count(w)) in1 = false; for (auto &w : mine) if (!his.count(w)) in2 = false; if (in1 || in2) ok = true; }
         if (ok) continue;
         Finding x; x.rule = "teardown-incomplete"; x.file = fileOf(f); x.func = srcName(f); x.line = 0; x.key = str(a.first) + ":" + t.second;
         x.msg = str(a.first) + " leaves a " + KINDS[t.first].name + " in " + t.second + " which " + k.rel[0].first + " never releases";
         E.findings.push_back(x);
      }
   }
   // a block goes back to the heap it came from: by the field that holds it, or by constructor and destructor
   unsigned hp = 0;
   for (auto &fc : M.freeCls) {
      auto ac = M.allocCls.find(fc.first); if (ac == M.allocCls.end()) continue;
      std::set<int> a; for (auto &x : ac->second) a.insert(x.first);
      for (auto &x : fc.second) { hp++; if (x.first < 0 || a.count(x.first)) continue;
         Finding y; y.rule = "release-mismatch"; y.file = fileOfInst(x.second); y.func = srcName(const_cast<Function *>(x.second->getFunction())); y.line = lineOf(x.second); y.key = "heap:" + fc.first;
         y.msg = fc.first + " is allocated from " + (x.first ? "the process heap" : "a configured heap") + " (line " + std::to_string(lineOf(ac->second.begin()->second)) + ") but freed to " + (x.first ? "a configured heap" : "the process heap");
         E.findings.push_back(y); }
   }
   for (auto &k : KINDS) { str w = str("the ") + k.name; if (!M.allocCls.count(w)) continue; hp++; if (M.freeCls.count(w)) continue;
      Finding y; y.rule = "teardown-incomplete"; y.func = k.rel[0].first; for (auto *g : P.named(k.rel[0].first)) y.file = fileOf(g); y.key = "free:" + w; y.msg = str(k.rel[0].first) + " does not free " + w + " that " + k.acq[0].first + " allocated"; E.findings.push_back(y); }
   R.counts["heap_pairs"] = hp;
   R.counts["teardown_obligations"] = pairs;
   R.findings = E.findings;
   R.counts["functions_analysed"] = E.totalRoots; R.counts["instructions_interpreted"] = E.totalSteps; R.counts["exits_checked"] = E.totalExits; R.counts["functions_over_budget"] = E.overBudgetFns.size();
   R.counts["memory_accesses"] = M.accesses; R.counts["release_obligations_at_exits"] = M.obligations;
   for (auto &k : M.sites) R.counts["acquired." + k.first] = k.second.size();
   for (auto &k : M.relSites) R.counts["released." + k.first] = k.second.size();
   R.floor("acquired.heap block", M.sites["heap block"].size(), 20);
   R.floor("released.heap block", M.relSites["heap block"].size(), 20);
   R.floor("acquired.resizable buffer", M.sites["resizable buffer"].size(), 1);
   for (auto &n : E.overBudgetFns) R.samples.push_back("over budget: " + n);
   if (getenv("SDB_NEU")) for (auto *f : E.nonNeutral) fprintf(stderr, "NEU %u %s\n", E.info(f).size, srcName(f).c_str());
}
