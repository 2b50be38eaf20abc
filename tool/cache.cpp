// The page cache: frames are reused, locked, loaded and written back by the protocol of the status word.
// Every access to a frame's status, reader counts, pins, disk address and lookup slot is an event; the rules say
// what a path must have established about the frame before the next step may be taken.
#include "order.h"
enum { K_STAT = 3200, K_DA, K_ADDR, K_PUB, K_DATA, K_RC, K_PIN };
class CacheRules : public Monitor {
   enum : int { FREE = 1, ACCESSED = 2, CLEAN = 4, WBACK = 8, LOADING = 16, WLOCK = 32, CLAIMED = 64 };
   enum : int { REF = 1, FREE0 = 2, WL0 = 4, LOAD0_ = 8, VALID = 16, ADDR = 32, CL = 64, WL = 128, WB0 = 256, RD0 = 512, CLEAN1 = 1024, PIN0 = 2048, UNMAP = 4096, ACLR = 8192, OWN = 16384, PUB = 32768, READ = 65536, LOADSET = 131072, WBSET = 262144, WRITTEN = 524288, CLEANSET = 1 << 20, DADDR = 1 << 21, FREED = 1 << 22, LOOKED = 1 << 23, RDBAD = 1 << 24, WLSEEN = 1 << 25, DIRTIED = 1 << 26, UNCL = 1 << 27, UNWL = 1 << 28, PINNED = 1 << 29 };
   std::map<str, int64_t> enums;
public:
   std::map<str, std::set<const Instruction *>> sites; unsigned long checks = 0; std::set<Function *> inl, readCb, writeCb, submits; std::set<int64_t> flushFrom;
   str name() override { return "cache"; }
   bool keepCell(const State &s, V a) override { return true; }
   bool top() { Function *f = E->root; return E->P.callers[f].empty() || E->P.addrTaken.count(f); }
   bool impl(const char *slot) { return E->root && E->P.implOf.count(E->root) && E->P.implOf[E->root].count(slot); }
   bool partitionPhi() override { return true; }
   bool partitionLoopPhi() override { return true; }
   bool noInline(Function *f) override { return !inl.count(f) && (!inCache(f) || E->info(f).size > 60); }
   bool forceInline(Function *f) override { return submits.count(f) && impl("cache_ops.flush"); }
   bool has(State &s, const str &f) { auto it = s.cnt.find(f); return it != s.cnt.end() && it->second; }
   void set(State &s, const str &f, const Instruction *i) { s.cnt[f] = 1; s.cntAt[f] = i; }
   void clr(State &s, const str &f) { s.cnt.erase(f); s.cntAt.erase(f); }
   // a requirement that fails in a helper is judged where the helper is used
   void bad(State &s, const Instruction *i, const str &rule, const str &key, const str &msg)
   {
      if (has(s, "init")) return;
      if (!top()) { if (getenv("SDB_NEU")) fprintf(stderr, "NEU %s needs %s %s\n", srcName(E->root).c_str(), rule.c_str(), key.c_str()); E->sums[E->root].neutral = false; return; }
      E->report(rule, i, srcName(i->getFunction()) + ":" + key, msg, s);
   }
   // ---- which frame an address belongs to
   static const Val *frame(V a)
   {
      while (a && a->k == OFF) a = a->a;
      if (!a) return nullptr;
      if (a->k == ELEM) return frameIdx(a->b);
      return a;
   }
   static const Val *frameIdx(V i)
   {
      if (i->k == OP && (i->op == Instruction::SDiv || i->op == Instruction::UDiv) && i->a->k == OP && i->a->op == Instruction::Sub) return frame(i->a->a);
      return i;
   }
   static V inCount(V a) // refcount / pincount elements: the number of the frame is divided by the cache line capacity
   {
      if (!a) return nullptr;
      if (a->k == OP && a->op == Instruction::UDiv) return frameIdx(a->a);
      if (a->k == ELEM) return inCount(a->b);
      if (a->k == OP) { if (V r = inCount(a->a)) return r; if (a->b) return inCount(a->b); }
      return nullptr;
   }
   str ptag(const llvm::Value *p) // also elements of arrays that a field points to
   {
      str t = E->P.tagOf(p); if (!t.empty()) return t;
      while (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand();
      if (auto *l = dyn_cast<LoadInst>(p)) { str u = E->P.tagOf(l->getPointerOperand()); return u.empty() ? "" : u + "[]"; }
      return "";
   }
   static bool relevant(const str &t) { return t == "clockcache_entry.status" || t == "page_handle.disk_addr" || t == "clockcache.lookup[]" || t == "clockcache.refcount[]" || t == "clockcache.pincount[]"; }
   static bool inCache(const Function *f) { return fileOf(f).find("clockcache") != str::npos; }
   ObjSt &obj(State &s, V k)
   {
      auto it = s.objs.find(k); if (it != s.objs.end()) return it->second;
      ObjSt o;
      if (top()) {
         int b = 0;
         if (impl("cache_ops.page_unget") || impl("cache_ops.page_try_claim")) b = REF;
         if (impl("cache_ops.page_unclaim") || impl("cache_ops.page_lock")) b = REF | CL;
         if (impl("cache_ops.page_unlock") || impl("cache_ops.page_mark_dirty") || impl("cache_ops.page_pin")) b = REF | CL | WL;
         V r = k; while (r->k == OFF || r->k == ELEM || r->k == LOAD0) r = r->a;
         if (r->k == PARAM) { o.x = b; o.lock = b; }
      }
      return s.objs[k] = o;
   }
   bool is(State &s, V k, int bits) { return (obj(s, k).x & bits) == bits; }
   void on(State &s, V k, int bits) { obj(s, k).x |= bits; }
   void off(State &s, V k, int bits) { obj(s, k).x &= ~bits; }
   void drop(State &s, V k, unsigned kind) { for (auto it = s.objs.begin(); it != s.objs.end();) if (it->first->k == OP && it->first->op == kind && it->first->b == k) it = s.objs.erase(it); else ++it; }
   void mark(State &s, unsigned kind, V v, V k, int snap) { ObjSt o; o.x = snap; s.objs[E->op(kind, v, k)] = o; }
   bool known(State &s, unsigned kind, V k, std::function<bool(V)> p) { for (auto &o : s.objs) if (o.first->k == OP && o.first->op == kind && o.first->b == k && p(o.first->a)) return true; return false; }
   void need(State &s, V k, int bit, const Instruction *i, const str &rule, const str &key, const str &msg) { checks++; if (!is(s, k, bit)) bad(s, i, rule, key, msg); }
   // ---- shared memory is read afresh every time
   void load(State &s, V a, const Instruction *i) override
   {
      auto *l = dyn_cast<LoadInst>(i); if (!l) return;
      str t = ptag(l->getPointerOperand());
      if (relevant(t)) { s.mem.erase(a); s.written.insert(t); a->tag(t); }
   }
   void loaded(State &s, V v, const Instruction *i) override
   {
      auto *l = dyn_cast<LoadInst>(i); if (!l || !inCache(i->getFunction())) return;
      str t = ptag(l->getPointerOperand()); V a = E->eval(s, l->getPointerOperand());
      if (t == "page_handle.data") { mark(s, K_DATA, v, frame(a), 0); return; }
      if (!relevant(t)) return;
      if (getenv("SDB_DBG")) fprintf(stderr, "LD %s line %d addr kind %d %s -> frame %s\n", t.c_str(), lineOf(i), a->k, E->describe(a).c_str(), frame(a) ? E->describe(frame(a)).c_str() : "-");
      sites["load " + t].insert(i);
      if (t == "clockcache_entry.status") { V k = frame(a); mark(s, K_STAT, v, k, obj(s, k).x | (1 << 30)); }
      else if (t == "page_handle.disk_addr") { V k = frame(a); mark(s, K_DA, v, k, obj(s, k).x | (1 << 30)); mark(s, K_ADDR, v, k, 0); }
      else if (t == "clockcache.lookup[]") { V k = v; s.objs.erase(k); on(s, k, LOOKED); if (impl("cache_ops.extent_discard")) set(s, "discard-due", i); }
      else if (t == "clockcache.refcount[]") {
         V k = inCount(a); if (!k) return;
         if (!is(s, k, WL)) return;
         if (known(s, K_RC, k, [&](V x) { return x->k != OP || x->a != a; })) on(s, k, RDBAD);
         drop(s, k, K_RC); mark(s, K_RC, E->op(K_RC, a, v), k, 0); on(s, k, RD0);
      } else if (t == "clockcache.pincount[]") { V k = inCount(a); if (k) mark(s, K_PIN, v, k, obj(s, k).x); }
   }
   void symRedefined(State &s, V v, const Instruction *i) override
   {
      std::vector<std::pair<V, ObjSt>> gone;
      for (auto &o : s.objs) if (o.first == v) gone.push_back(o);
      for (auto &g : gone) {
         leaveFrame(s, g.first, g.second, i);
         bool live = g.second.ref || (g.second.x & (CL | WL | OWN));
         if (!live) { for (auto it = s.objs.begin(); it != s.objs.end();) if (it->first == v || (it->first->k == OP && it->first->op >= K_STAT && it->first->op <= K_PIN && it->first->b == v)) it = s.objs.erase(it); else ++it; }
      }
   }
   bool released(State &s, V v) override { auto it = s.objs.find(v); return it == s.objs.end() || (!it->second.ref && !(it->second.x & (CL | WL | OWN))); }
   void leaveFrame(State &s, V k, ObjSt &o, const Instruction *i)
   {
      if ((o.x & (WBSET | LOOKED)) == (WBSET | LOOKED)) { checks++; if (!(o.x & ADDR)) bad(s, i, "writeback-wrong-page", "addr", "a frame found by address is written back although it was not verified, once in writeback, that it still holds that page"); }
   }
   static bool helper(V t) { return t->k == OP && t->op >= K_STAT && t->op <= K_PIN; }
   void prune(State &s, std::function<bool(V)> used) override
   {
      for (auto it = s.objs.begin(); it != s.objs.end();) {
         V t = it->first; if (!helper(t) || t->op == K_ADDR || t->op == K_PUB || t->op == K_DATA) { ++it; continue; }
         V v = t->op == K_RC ? t->a->b : t->a;
         if (used(v)) { ++it; continue; }
         if (t->op == K_RC) { auto f = s.objs.find(t->b); if (f != s.objs.end()) f->second.x |= RDBAD; }
         it = s.objs.erase(it);
      }
      std::vector<V> dead;
      for (auto &o : s.objs) if (!helper(o.first)) { const ObjSt &b = o.second; if (!b.ref && !b.claim && !(b.x & (CL | WL | OWN | WBSET | LOADSET | REF | DIRTIED | UNCL | UNWL | PINNED | CLEANSET | WRITTEN)) && !used(o.first)) dead.push_back(o.first); }
      for (V k : dead) for (auto it = s.objs.begin(); it != s.objs.end();) it = (it->first == k || (helper(it->first) && it->first->b == k)) ? s.objs.erase(it) : std::next(it);
   }
   // ---- what the conditions say
   void statusBits(State &s, V v, int &zero, int &one)
   {
      zero = one = 0;
      if (auto k = E->known(s, v)) { one = *k & 127; zero = ~*k & 127; return; }
      for (auto &f : s.facts) {
         V t = f.first; int64_t m = 0;
         if (t->k == OP && t->op == Instruction::And && t->a == v && t->b->k == CONST) m = t->b->c;
         else if (t->k == OP && t->op == Instruction::And && t->b == v && t->a->k == CONST) m = t->a->c;
         else continue;
         m &= 127;
         if (f.second.eq) { zero |= m & ~f.second.v; one |= m & f.second.v; }
         else if (f.second.ne.count(0) && m && !(m & (m - 1))) one |= m;
      }
   }
   void assumed(State &s, const Instruction *br) override
   {
      std::vector<std::pair<V, int>> add; std::vector<V> del, addrs; std::vector<std::pair<V, V>> eqs;
      for (auto &o : s.objs) {
         V t = o.first; if (t->k != OP || t->op < K_STAT || t->op > K_PIN) {
            if ((o.second.x & LOOKED) && has(s, "discard-due")) { auto k = E->known(s, t); if (k && (uint32_t)*k == 0xffffffffu) clr(s, "discard-due"); }
            continue;
         }
         V k = t->b; int sn = o.second.x;
         if (t->op == K_STAT) {
            int z, n; statusBits(s, t->a, z, n); int b = 0, cur = obj(s, k).x;
            if ((sn & REF) && (cur & REF)) { if (z & FREE) b |= FREE0; if (z & WLOCK) b |= WL0; if (z & LOADING) b |= LOAD0_; if ((z & FREE) && (z & LOADING)) b |= VALID; }
            if ((sn & WL) && (cur & WL)) { if (z & WBACK) b |= WB0; if ((n & CLEAN) && (z & LOADING)) b |= CLEAN1; }
            if (n & CLEAN) set(s, "clean-seen", br);
            if (b) add.push_back({k, b});
         } else if (t->op == K_DA) {
            auto c = E->known(s, t->a);
            if (c && *c == -1) { add.push_back({k, UNMAP | ACLR}); continue; }
            for (auto &f : s.facts) if (f.second.eq && f.second.v == 1 && f.first->k == OP && f.first->op == OP_EQ && (f.first->a == t->a || f.first->b == t->a)) {
               V y = f.first->a == t->a ? f.first->b : f.first->a; if (y->k == CONST) continue;
               int cur = obj(s, k).x; bool ok = ((sn & VALID) && (cur & VALID)) || ((sn & WBSET) && (cur & WBSET)) || ((sn & LOAD0_) && (cur & REF) && impl("cache_ops.extent_discard"));
               if (ok) { add.push_back({k, ADDR}); eqs.push_back({y, k}); }
            } else if (f.second.eq && f.second.v == 0 && f.first->k == OP && f.first->op == OP_EQ && (f.first->a == t->a || f.first->b == t->a)) set(s, "mismatch", br);
         } else if (t->op == K_RC) {
            V a = t->a->a, v = t->a->b; auto c = E->known(s, v);
            bool ok = c && *c == 0;
            if (!ok) for (auto &f : s.facts) {
               if (!(f.second.eq && f.second.v == 0 && f.first->k == OP && (f.first->op == OP_ULT || f.first->op == OP_SLT) && f.first->a->k == CONST && f.first->a->c == 1 && f.first->b == v)) continue;
               for (auto &g : s.facts) if (g.second.eq && g.second.v == 1 && g.first->k == OP && g.first->op == OP_EQ && own(g.first, a)) ok = true; // at most our own
            }
            if (ok) del.push_back(t);
         } else if (t->op == K_PIN) { auto c = E->known(s, t->a); if (c && *c == 0 && (sn & WL)) add.push_back({k, PIN0}); }
      }
      for (auto &p : add) on(s, p.first, p.second);
      for (V d : del) s.objs.erase(d);
      for (auto &e : eqs) mark(s, K_ADDR, e.first, e.second, 0);
   }
   bool own(V eq, V addr) // the counter that is read is the one of this thread
   {
      for (int k = 0; k < 2; k++) { V m = k ? eq->b : eq->a, o = k ? eq->a : eq->b; if (m->k == OP && m->op == Instruction::URem && E->contains(addr, o)) return true; }
      return false;
   }
   // ---- updates of the status word
   void cas(State &s, V k, int64_t from, int64_t to, const Instruction *i)
   {
      checks++;
      if (from & FREE) {
         if (!(to & WLOCK) || !(to & CLAIMED) || (to & FREE)) bad(s, i, "frame-claim", "alloc", "a free frame is taken without locking it");
         s.objs.erase(k); on(s, k, OWN); return;
      }
      if (to & WBACK) {
         if ((from & ~ACCESSED) || to != (from | WBACK)) bad(s, i, "writeback-state", "cas", "a frame is put into writeback from a state in which it is not dirty, unlocked and unclaimed");
         on(s, k, WBSET); off(s, k, ADDR | WRITTEN | CLEANSET); set(s, "wb-due", i);
         if (impl("cache_ops.flush")) flushFrom.insert(from);
         return;
      }
      bad(s, i, "writeback-state", "cas-other", "the state of a frame is exchanged in a way its protocol does not know");
   }
   void setBits(State &s, V k, int64_t m, const Instruction *i)
   {
      if (m & WLOCK) {
         need(s, k, CL, i, "lock-without-claim", "set", "a frame is write locked without its claim");
         off(s, k, WB0 | RD0 | RDBAD | CLEAN1 | PIN0); on(s, k, WL); drop(s, k, K_RC); for (auto &o : s.objs) if (o.first->k == OP && o.first->op == K_STAT && o.first->b == k) o.second.x &= ~WL;
      }
      if (m & CLEAN) {
         checks++;
         if (writeCb.count(E->root)) on(s, k, CLEANSET);
         else { if (!(obj(s, k).x & WRITTEN) || !(obj(s, k).x & WBSET)) bad(s, i, "writeback-unwritten", "clean", "a frame is marked clean although it was not written while it was in writeback"); on(s, k, CLEANSET); }
      }
      if (m & (FREE | LOADING | WBACK)) { checks++; bad(s, i, "writeback-state", "set", "a frame is put into writeback, loading or free by a bit that is simply set"); }
   }
   void clearBits(State &s, V k, int64_t m, const Instruction *i)
   {
      int x = obj(s, k).x;
      if (m & WBACK) {
         checks++;
         if (writeCb.count(E->root)) { if (!(x & CLEANSET)) bad(s, i, "writeback-unwritten", "order", "writeback of a frame ends before the frame is marked clean"); on(s, k, WRITTEN); set(s, "completed", i); }
         else if (!(x & WBSET)) bad(s, i, "writeback-state", "clear", "writeback of a frame is ended by someone who did not start it");
         else if ((x & WRITTEN) && !(x & CLEANSET)) bad(s, i, "writeback-unwritten", "order", "writeback of a frame ends before the frame is marked clean");
         else if (!(x & WRITTEN) && ((x & ADDR) || !has(s, "mismatch"))) bad(s, i, "writeback-unwritten", "lost", "writeback of a frame ends although the frame was not written");
         off(s, k, WBSET | CLEANSET | WRITTEN); clr(s, "mismatch"); bool any = false; for (auto &o : s.objs) if (o.first->k != OP || o.first->op < K_STAT) any |= (o.second.x & WBSET) != 0; if (!any) clr(s, "wb-due");
      }
      if (m & LOADING) {
         checks++;
         if (readCb.count(E->root)) set(s, "completed", i);
         else if (!(x & READ)) bad(s, i, "load-incomplete", "clear", "a frame is declared loaded before it was read from disk");
         off(s, k, LOADSET);
      }
      if (m & CLEAN) { need(s, k, WL, i, "dirty-unlocked", "mark", "a page is marked dirty without its write lock"); on(s, k, DIRTIED); }
      if (m & WLOCK) { need(s, k, WL, i, "lock-without-claim", "clear", "a write lock is released that is not held"); off(s, k, WL | WB0 | RD0 | CLEAN1 | PIN0); on(s, k, UNWL); }
      if (m & CLAIMED) {
         need(s, k, CL, i, "lock-without-claim", "unclaim", "a claim is released that is not held"); checks++;
         if (is(s, k, WL) && !impl("cache_ops.page_unclaim")) bad(s, i, "lock-without-claim", "unclaim-locked", "a claim is released while the frame is still write locked");
         off(s, k, CL); on(s, k, UNCL);
      }
      if (m & FREE) { checks++; bad(s, i, "frame-claim", "clear", "a frame is taken from the free state without an exchange"); }
   }
   bool atomic(State &s, const Instruction *i, V a, V ex, V nv, std::vector<std::pair<State, int>> &out) override
   {
      if (!inCache(i->getFunction())) return false;
      auto *rm = dyn_cast<AtomicRMWInst>(i); str t = ptag(rm ? rm->getPointerOperand() : cast<AtomicCmpXchgInst>(i)->getPointerOperand());
      if (!relevant(t)) return false;
      sites["atomic " + t].insert(i);
      auto n = E->known(s, nv);
      if (t == "clockcache_entry.status") {
         V k = frame(a);
         if (!rm) {
            auto f = E->known(s, ex); if (!f || !n) { bad(s, i, "writeback-state", "unknown", "the state of a frame is exchanged from or to a value that is not fixed in the code"); return false; }
            State t2 = s; cas(s, k, *f, *n, i); out.push_back({s, 1}); out.push_back({t2, 0}); return true;
         }
         if (!n) { E->sums[E->root].neutral = false; if (top()) bad(s, i, "writeback-state", "unknown", "bits of a frame's state are changed that are not fixed in the code"); return false; }
         if (rm->getOperation() == AtomicRMWInst::Or) { if (*n & CLAIMED) {} setBits(s, k, *n, i); }
         else if (rm->getOperation() == AtomicRMWInst::And) clearBits(s, k, ~*n & 127, i);
         else bad(s, i, "writeback-state", "op", "the state of a frame is changed by an operation its protocol does not know");
         return false;
      }
      if (t == "clockcache.lookup[]") {
         if (rm) return false;
         auto f = E->known(s, ex); V k = nv; checks++;
         if (!f || (uint32_t)*f != 0xffffffffu) bad(s, i, "frame-mapping", "cas", "a page is mapped to a frame although another frame may hold it");
         State t2 = s; publish(s, k, a, i); out.push_back({s, 1}); out.push_back({t2, 0}); return true;
      }
      if (t == "clockcache.refcount[]") {
         V k = inCount(a); if (!k) { bad(s, i, "ref-count", "which", "a reader count is changed that belongs to no frame"); return false; }
         bool inc = rm && rm->getOperation() == AtomicRMWInst::Add, dec = rm && rm->getOperation() == AtomicRMWInst::Sub; auto c = n ? *n : 0;
         if (c == -1 || c == 255 || c == 65535) std::swap(inc, dec);
         if (getenv("SDB_RC")) fprintf(stderr, "RC %s %s frame %u %s ref %d x %x\n", srcName(E->root).c_str(), inc ? "inc" : "dec", k->id, E->describe(k).c_str(), obj(s, k).ref, obj(s, k).x);
         checks++; if (!inc && !dec) bad(s, i, "ref-count", "op", "a reader count is not counted up or down by one");
         ObjSt &o = obj(s, k);
         if (inc) { o.ref++; o.x |= REF; o.x &= ~(FREE0 | WL0 | LOAD0_ | VALID | ADDR); }
         else {
            checks++; if (!(o.x & REF)) bad(s, i, "ref-count", "drop", "a reference to a frame is dropped that is not held");
            obj(s, k).ref--; int x = obj(s, k).x;
            if ((x & WL) && !(x & FREED)) bad(s, i, "ref-count", "locked", "the reference to a frame is dropped while the frame is still write locked");
            if ((x & CL) && !(x & FREED) && !top()) E->sums[E->root].neutral = false;
            off(s, k, REF | FREE0 | WL0 | LOAD0_ | VALID | (is(s, k, WBSET) ? 0 : ADDR)); drop(s, k, K_STAT);
         }
         return false;
      }
      if (t == "clockcache.pincount[]") { V k = inCount(a); if (k) { on(s, k, PINNED); if (rm && rm->getOperation() == AtomicRMWInst::Add) obj(s, k).claim++; else if (rm && rm->getOperation() == AtomicRMWInst::Sub) obj(s, k).claim--; } }
      return false;
   }
   bool rmwOld(State &s, V a, V v, const Instruction *i, std::vector<State> &out) override
   {
      auto *rm = cast<AtomicRMWInst>(i); if (!inCache(i->getFunction()) || ptag(rm->getPointerOperand()) != "clockcache_entry.status") return false;
      auto n = E->known(s, E->simplify(s, E->eval(s, rm->getValOperand())));
      if (!n || rm->getOperation() != AtomicRMWInst::Or || !(*n & CLAIMED)) return false;
      V k = frame(a); State t = s;
      for (int z = 0; z < 2; z++) { State &q = z ? t : s; E->setEq(q, E->op(Instruction::And, v, E->cst(CLAIMED)), z ? CLAIMED : 0); E->setEq(q, E->op(Instruction::And, E->cst(CLAIMED), v), z ? CLAIMED : 0); }
      on(s, k, CL); set(s, "claimed", i); set(t, "claim-lost", i);
      out.push_back(s); out.push_back(t); return true;
   }
   void publish(State &s, V k, V slot, const Instruction *i)
   {
      checks++; if (!is(s, k, OWN)) bad(s, i, "frame-mapping", "publish", "a page is mapped to a frame that was not just taken from the free ones");
      V idx = slot->k == ELEM ? slot->b : slot; mark(s, K_PUB, idx, k, 0); on(s, k, PUB); off(s, k, UNMAP);
   }
   void store(State &s, V a, V v, const Instruction *i, uint64_t size) override
   {
      auto *st = dyn_cast<StoreInst>(i); if (!st || !inCache(i->getFunction())) return;
      str t = ptag(st->getPointerOperand());
      if (t == "clockcache.entry") { set(s, "init", i); return; }
      if (!relevant(t)) return;
      sites["store " + t].insert(i);
      if (t == "clockcache_entry.status") {
         V k = frame(a); auto n = E->known(s, v);
         if (!n) { if (!top() || !is(s, k, OWN)) { if (!top()) E->sums[E->root].neutral = false; else bad(s, i, "frame-claim", "overwrite", "the state of a frame is overwritten"); } return; }
         if (*n & FREE) { freed(s, k, i); return; }
         need(s, k, OWN, i, "frame-claim", "overwrite", "the state of a frame is overwritten by someone who did not take it from the free ones");
         if (*n & LOADING) { on(s, k, LOADSET); set(s, "load-due", i); }
         else if (!(*n & WLOCK)) bad(s, i, "frame-claim", "unlocked", "a frame without a page is left unlocked and not loading");
         if (*n & WLOCK) on(s, k, WL | CL);
      } else if (t == "clockcache.lookup[]") {
         V idx = a->k == ELEM ? a->b : a; auto n = E->known(s, v);
         if (n && (uint32_t)*n == 0xffffffffu) {
            bool hit = false; std::vector<V> ks;
            for (auto &o : s.objs) if (o.first->k == OP && o.first->op == K_ADDR && E->contains(idx, o.first->a)) ks.push_back(o.first->b);
            for (auto &o : s.objs) if (o.first->k == OP && o.first->op == K_PUB && o.first->a == idx) ks.push_back(o.first->b);
            for (V k : ks) { int x = obj(s, k).x; if (!((x & OWN) || ((x & WL) && (x & WB0)))) continue; hit = true; on(s, k, UNMAP); off(s, k, PUB); }
            checks++; if (!hit) bad(s, i, "frame-mapping", "unmap", "a page is unmapped from a frame that is not write locked or does not hold it");
         } else publish(s, v, a, i);
      } else if (t == "page_handle.disk_addr") {
         V k = frame(a); auto n = E->known(s, v); checks++;
         if (!is(s, k, OWN) && !is(s, k, WL)) bad(s, i, "frame-mapping", "disk-addr", "the disk address of a frame is changed by someone who does not own the frame");
         drop(s, k, K_ADDR);
         if (n && *n == -1) { on(s, k, ACLR); off(s, k, DADDR); }
         else { on(s, k, DADDR); off(s, k, ACLR); mark(s, K_ADDR, v, k, 0); }
      }
   }
   void freed(State &s, V k, const Instruction *i)
   {
      int x = obj(s, k).x; checks++;
      if (x & OWN) {
         if ((x & PUB) && !(x & UNMAP)) bad(s, i, "frame-mapping", "free-mapped", "a frame is given back while its page is still mapped to it");
         if (x & DADDR) bad(s, i, "frame-mapping", "free-addr", "a frame is given back while it still carries a disk address");
      } else {
         const str w = "a frame is reused ";
         if (!(x & REF)) bad(s, i, "evict-in-use", "ref", w + "by someone who does not hold it");
         if (!(x & CL)) bad(s, i, "evict-in-use", "claim", w + "without its claim");
         if (!(x & WL)) bad(s, i, "evict-in-use", "lock", w + "without its write lock");
         else {
            if (!(x & WB0)) bad(s, i, "evict-in-use", "writeback", w + "although it may be in writeback");
            if (!(x & RD0) || (x & RDBAD) || known(s, K_RC, k, [](V) { return true; })) bad(s, i, "evict-in-use", "readers", w + "although it may have readers");
            if (impl("cache_ops.extent_discard")) { if (!(x & ADDR)) bad(s, i, "evict-in-use", "wrong-page", "a page is discarded although the frame may hold another page"); }
            else {
               if (!(x & CLEAN1)) bad(s, i, "evict-dirty", "clean", w + "although, under the write lock, its page was not seen to be clean and loaded");
               if (!(x & PIN0)) bad(s, i, "evict-in-use", "pin", w + "although, under the write lock, it was not seen to be unpinned");
            }
         }
         if (!(x & UNMAP)) bad(s, i, "frame-mapping", "free-mapped", w + "while its page is still mapped to it");
         if (!(x & ACLR)) bad(s, i, "frame-mapping", "free-addr", w + "while it still carries its disk address");
      }
      off(s, k, OWN | CL | WL | PUB | LOADSET); on(s, k, FREED); clr(s, "discard-due");
      bool any = false; for (auto &o : s.objs) if (o.first->k != OP || o.first->op < K_STAT) any |= (o.second.x & LOADSET) != 0; if (!any) clr(s, "load-due");
   }
   // ---- input and output
   void page(State &s, const CallBase *cb, V buf, V addr, int want, const str &what)
   {
      for (auto &o : s.objs) {
         if (o.first->k == OP && o.first->op >= K_STAT && o.first->op <= K_PIN) continue;
         if (!(o.second.x & want)) continue; V k = o.first; checks++;
         if (buf && !known(s, K_DATA, k, [&](V x) { return x == buf; })) bad(s, cb, what, "buffer", "a page is moved between disk and a buffer that is not the frame's own");
         if (addr && !known(s, K_ADDR, k, [&](V x) { return x == addr; })) bad(s, cb, what, "addr", "a page is moved between its frame and another disk address than its own");
         return;
      }
   }
   void all(State &s, int have, int put) { std::vector<V> ks; for (auto &o : s.objs) if (!(o.first->k == OP && o.first->op >= K_STAT && o.first->op <= K_PIN) && (o.second.x & have)) ks.push_back(o.first); for (V k : ks) on(s, k, put); }
   bool call(State &s, const CallBase *cb, const str &callee, const Slot *sl, std::vector<V> &args, std::vector<std::pair<State, V>> &out) override
   {
      if (!sl || !inCache(cb->getFunction())) return false; str n = sl->ops + "." + sl->field;
      if (sl->ops != "io_ops") return false;
      sites[n].insert(cb);
      if (n == "io_ops.read") { page(s, cb, args[1], args[3], LOADSET, "load-wrong-page"); all(s, LOADSET, READ); clr(s, "load-due"); }
      else if (n == "io_ops.write") { page(s, cb, args[1], args[3], WBSET, "writeback-wrong-page"); all(s, WBSET, WRITTEN); if (has(s, "wb-due")) set(s, "submitted", cb); clr(s, "wb-due"); }
      else if (n == "io_ops.read_async") { auto c = E->known(s, args[3]); if (c && *c == 1) page(s, cb, nullptr, args[4], LOADSET, "load-wrong-page"); all(s, LOADSET, READ); clr(s, "load-due"); cbCheck(s, cb, readCb, "read"); }
      else if (n == "io_ops.write_async") {
         auto c = E->known(s, args[3]); if (c && *c == 1) page(s, cb, nullptr, args[4], WBSET, "writeback-wrong-page");
         for (auto &o : s.objs) if (!(o.first->k == OP && o.first->op >= K_STAT && o.first->op <= K_PIN)) leaveFrame(s, o.first, o.second, cb);
         all(s, WBSET, WRITTEN); std::vector<V> ks; for (auto &o : s.objs) if (!(o.first->k == OP && o.first->op >= K_STAT && o.first->op <= K_PIN) && (o.second.x & WBSET)) ks.push_back(o.first);
         for (V k : ks) off(s, k, WBSET | WRITTEN);
         clr(s, "wb-due"); set(s, "submitted", cb); set(s, "in-flight", cb); cbCheck(s, cb, writeCb, "write");
      } else if (n == "io_ops.wait_all") { clr(s, "in-flight"); set(s, "waited", cb); }
      return false;
   }
   void cbCheck(State &s, const CallBase *cb, std::set<Function *> &cbs, const char *w)
   {
      checks++; auto *f = dyn_cast<Function>(cb->getArgOperand(2)->stripPointerCasts());
      if (!f || !cbs.count(E->P.resolve(const_cast<Function *>(f)))) bad(s, cb, "io-callback", w, str("an asynchronous ") + w + " is completed by a function that is not known to complete one");
   }
   void opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args) override
   {
      if (f && submits.count(f)) set(s, "in-flight", cb);
   }
   // ---- what the caller of an operation relies on
   void rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot) override
   {
      if (has(s, "init")) return;
      bool t = top();
      auto frames = [&](std::function<void(V, ObjSt &)> fn) { for (auto &o : s.objs) if (!(o.first->k == OP && o.first->op >= K_STAT && o.first->op <= K_PIN)) fn(o.first, o.second); };
      if (!t) {
         if (getenv("SDB_NEU")) frames([&](V k, ObjSt &o) { fprintf(stderr, "NEU %s line %d frame %s ref %d x %x\n", srcName(f).c_str(), lineOf(i), E->describe(k).c_str(), o.ref, o.x); });
         frames([&](V k, ObjSt &o) { if (o.ref || o.claim || (o.x & (CL | WL | OWN | WBSET | LOADSET | UNCL | UNWL | DIRTIED | CLEANSET | PINNED))) sum.neutral = false; if ((o.x & (FREE0 | WL0 | LOAD0_ | ADDR | REF))) sum.neutral = false; });
         for (auto *c : {"wb-due", "load-due", "completed"}) if (has(s, c)) sum.neutral = false;
         if (ret) for (auto &o : s.objs) if (E->contains(ret, o.first) && (o.second.x & (LOOKED | OWN))) sum.neutral = false;
         return;
      }
      str fn = srcName(f);
      auto fail = [&](const str &rule, const str &key, const str &msg) { bad(s, i, rule, key, msg); };
      auto r = ret ? E->known(s, ret) : std::nullopt;
      V kept = nullptr; int x = 0; frames([&](V k, ObjSt &o) { if (o.ref > 0) { kept = k; x = o.x; } });
      int refs = 0; frames([&](V k, ObjSt &o) { refs += o.ref; });
      checks++;
      bool get = impl("cache_ops.page_get"), ga = impl("cache_ops.page_get_async"), al = impl("cache_ops.page_alloc");
      if (get || ga || al) {
         bool given = al || (get && !(r && *r == 0)) || (ga && !(r && (*r == enums["async_locked"] || *r == enums["async_no_reqs"])));
         if (refs != (given ? 1 : 0)) { fail("ref-count", fn, given ? "a page is handed out without exactly one reference to its frame" : "a reference to a frame is kept although no page is handed out"); return; }
         if (!given) { frames([&](V k, ObjSt &o) { if (o.x & (OWN | PUB)) fail("frame-leak", fn, "a frame is neither used nor given back"); }); }
         else {
            if (ret && !ga) { V k = frame(ret); if (k != kept) fail("get-wrong-page", fn + ":frame", "the page that is handed out is not the one whose frame was referenced"); }
            bool map = known(s, K_PUB, kept, [&](V idx) { return known(s, K_ADDR, kept, [&](V y) { return E->contains(idx, y); }); });
            if (al) {
               if (!(x & OWN) || !(x & WL)) fail("get-wrong-page", fn + ":alloc", "a new page is handed out without its write lock");
               if (!(x & PUB) || !(x & DADDR) || !map) fail("frame-mapping", fn + ":alloc", "a new page is handed out that is not mapped to its frame under its own address");
            } else if (x & OWN) {
               if (!(x & PUB) || !(x & DADDR) || !map) fail("frame-mapping", fn + ":load", "a page is handed out that is not mapped to its frame under its own address");
               if (!(x & READ)) fail("load-incomplete", fn, "a page is handed out although no read from disk was issued for it");
               else if (get && (x & LOADSET)) fail("load-incomplete", fn + ":loading", "a page is handed out that is still marked as loading");
               if (ga && r && *r != enums["async_io_started"]) fail("load-incomplete", fn + ":async", "a page is handed out as present although its read was only started");
            } else {
               if (!(x & FREE0) || !(x & WL0)) fail("read-lock", fn, "a page is handed out although, after the reference was taken, its frame may be free or write locked");
               if (!(x & VALID)) fail("get-wrong-page", fn + ":loaded", "a page is handed out although, after the reference was taken, its frame was not seen to be in use and loaded");
               else if (!(x & ADDR)) fail("get-wrong-page", fn + ":addr", "a page is handed out although it was not verified, once loaded, that its frame holds the requested page");
               if (ga && r && *r != enums["async_success"]) fail("get-wrong-page", fn + ":async", "a cached page is handed out as not yet loaded");
            }
         }
      } else if (impl("cache_ops.page_unget")) { if (refs != -1) fail("ref-count", fn, "releasing a page does not drop exactly one reference to its frame"); }
      else if (refs != 0) fail("ref-count", fn, "an operation changes the number of references to a frame");
      else frames([&](V k, ObjSt &o) { if (o.ref) fail("ref-count", fn, "an operation changes the number of references to a frame"); });
      bool lk = impl("cache_ops.page_lock"), tc = impl("cache_ops.page_try_claim"), uc = impl("cache_ops.page_unclaim"), ul = impl("cache_ops.page_unlock"), md = impl("cache_ops.page_mark_dirty"), pi = impl("cache_ops.page_pin"), up = impl("cache_ops.page_unpin");
      int did = 0, pins = 0;
      frames([&](V k, ObjSt &o) {
         did |= o.x & (UNCL | UNWL | DIRTIED); pins += o.claim;
         int held = o.x & (CL | WL); if (o.x & OWN) held = 0;
         int base = o.lock & (CL | WL);
         checks++;
         if (lk) { if (!(held & WL)) fail("write-lock", fn, "locking a page does not lock its frame"); else if (!(o.x & WB0)) fail("write-lock", fn + ":writeback", "a page is locked although its frame may be in writeback"); else if (!(o.x & RD0) || (o.x & RDBAD) || known(s, K_RC, k, [](V) { return true; })) fail("write-lock", fn + ":readers", "a page is locked although its frame may have readers"); }
         else if (tc) { if (r && ((*r != 0) != ((held & CL) != 0))) fail("claim-result", fn, *r ? "a claim is reported as taken that another thread holds" : "a claim is taken but reported as refused"); if (!r) fail("claim-result", fn + ":unknown", "whether a claim was taken is not what is reported"); }
         else if (uc) { if (held & CL) fail("claim-result", fn, "releasing a claim does not clear it"); }
         else if (ul) { if (held & WL) fail("write-lock", fn, "releasing a write lock does not clear it"); if (!(held & CL)) fail("write-lock", fn + ":claim", "releasing a write lock also gives up the claim"); }
         else if (held != base) fail("lock-kept", fn, "a claim or write lock taken on a frame is not released");
         if ((o.x & OWN) && !(get || ga || al) && !(o.x & READ)) fail("frame-leak", fn, "a frame is neither used nor given back");
      });
      checks += 4;
      if (md && !(did & DIRTIED)) fail("dirty-lost", fn, "marking a page dirty does not clear the clean mark of its frame");
      if (!md && (did & DIRTIED)) fail("dirty-lost", fn + ":other", "a page is marked dirty by an operation that does not change it");
      if (pi && pins != 1) fail("pin-count", fn, "pinning a page does not count its pin up by one");
      if (up && pins != -1) fail("pin-count", fn, "unpinning a page does not count its pin down by one");
      if (has(s, "wb-due")) bad(s, s.cntAt.count("wb-due") && s.cntAt["wb-due"] ? s.cntAt["wb-due"] : i, "writeback-unwritten", "due", "a frame is put into writeback but never written (leaving at line " + std::to_string(lineOf(i)) + ")");
      if (has(s, "discard-due")) fail("discard-missed", fn, "an extent's pages are discarded but a cached page of it is left in the cache");
      if (impl("cache_ops.page_sync") && !has(s, "submitted") && !has(s, "clean-seen")) fail("sync-skipped", fn, "a page that is to be synced is neither written nor seen to be clean");
      if (impl("cache_ops.flush")) { if (has(s, "in-flight")) fail("flush-unfinished", fn, "a flush returns before the writes it started are complete"); if (!has(s, "waited")) fail("flush-unfinished", fn + ":wait", "a flush does not wait for the writes that are under way"); }
      if (readCb.count(f) && !has(s, "completed")) fail("load-incomplete", fn, "a completed read does not mark the frame as loaded");
      if (writeCb.count(f) && !has(s, "completed")) fail("writeback-unwritten", fn, "a completed write does not end the writeback of the frame");
   }
   void setup(Program &P)
   {
      std::vector<Function *> wl;
      for (Function *f : P.funcs) {
         if (!inCache(f)) continue;
         for (auto &i : instructions(*f)) {
            str t; if (auto *st = dyn_cast<StoreInst>(&i)) t = tagq(P, st->getPointerOperand()); else if (auto *ld = dyn_cast<LoadInst>(&i)) t = tagq(P, ld->getPointerOperand()); else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&i)) t = tagq(P, cx->getPointerOperand()); else if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) t = tagq(P, rm->getPointerOperand());
            if (relevant(t)) wl.push_back(f);
            if (auto *cb = dyn_cast<CallBase>(&i)) { Slot sl; if (P.slot(cb, sl) && sl.ops == "io_ops") {
               if (sl.field == "wait_all" || sl.field == "cleanup") wl.push_back(f);
               if (sl.field == "read_async" || sl.field == "write_async") if (auto *g = dyn_cast<Function>(cb->getArgOperand(2)->stripPointerCasts())) (sl.field == "read_async" ? readCb : writeCb).insert(P.resolve(const_cast<Function *>(g)));
               if (sl.field == "write_async") { std::vector<Function *> w{f}; while (!w.empty()) { Function *h = w.back(); w.pop_back(); if (submits.insert(h).second) for (auto *c : P.callers[h]) w.push_back(c->getFunction()); } }
            } }
         }
      }
      while (!wl.empty()) { Function *f = wl.back(); wl.pop_back(); if (!inl.insert(f).second) continue; for (auto *cb : P.callers[f]) if (inCache(cb->getFunction())) wl.push_back(cb->getFunction()); }
      DebugInfoFinder df; for (auto &m : P.mods) df.processModule(*m);
      for (auto *ty : df.types()) if (auto *ct = dyn_cast<DICompositeType>(ty)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *e : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) enums[en->getName().str()] = en->getValue().getSExtValue();
   }
   static str tagq(Program &P, const llvm::Value *p)
   {
      str t = P.tagOf(p); if (!t.empty()) return t;
      while (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand();
      if (auto *l = dyn_cast<LoadInst>(p)) { str u = P.tagOf(l->getPointerOperand()); return u.empty() ? "" : u + "[]"; }
      return "";
   }
};
void runCache(Program &P, Result &R)
{
   CacheRules M; M.setup(P); Engine En(P, M); M.E = &En;
   En.run([&](Function *f) { return M.inl.count(f) && (!getenv("SDB_ROOT") || srcName(f) == getenv("SDB_ROOT")); });
   // findings in helpers count only if the helper is not followed into from its callers
   for (auto &f : En.findings) R.findings.push_back(f);
   R.counts["functions_analysed"] = En.totalRoots; R.counts["instructions_interpreted"] = En.totalSteps; R.counts["exits_checked"] = En.totalExits; R.counts["obligations_checked"] = M.checks; R.counts["functions_over_budget"] = En.overBudgetFns.size();
   for (auto &k : M.sites) { R.counts["sites." + k.first] = k.second.size(); for (auto *i : k.second) R.samples.push_back(k.first + " at " + fileOfInst(i) + ":" + std::to_string(lineOf(i))); }
   for (auto &o : En.overBudgetFns) R.samples.push_back("over budget: " + o);
   for (auto *n : {"load clockcache_entry.status", "store clockcache_entry.status", "atomic clockcache_entry.status", "store page_handle.disk_addr", "load page_handle.disk_addr", "load clockcache.lookup[]", "store clockcache.lookup[]", "atomic clockcache.lookup[]", "atomic clockcache.refcount[]", "load clockcache.refcount[]", "load clockcache.pincount[]", "io_ops.read", "io_ops.write", "io_ops.read_async", "io_ops.write_async", "io_ops.wait_all"}) R.floor(str("sites.") + n, M.sites.count(n) ? M.sites[n].size() : 0, 1);
}
