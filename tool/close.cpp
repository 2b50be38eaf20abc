#include "order.h"
// ---- what makes a store reopenable: the super block is marked cleanly closed last and cleared first, and
// every piece of metadata is checksummed after its last change and verified before it is believed
class CloseRules : public OrderMonitor {
   static bool starts(const str &t, const char *p) { return t.compare(0, strlen(p), p) == 0; }
   std::set<Function *> dirties, counts, getters;
   std::map<str, std::map<std::pair<int64_t, int64_t>, const Instruction *>> sums; // class -> (size, seed) used
public:
   std::set<Function *> core; bool rootWanted(Function *f) override { return core.count(f); }
   enum { SUPER = 6, LOG = 5 };
   CloseRules()
   {
      callEvents = {"XXH128", "XXH128_isEqual", "task_perform_until_quiescent", "memtable_is_empty", "memtable_force_finalize", "clockcache_deinit", "io_handle_deinit", "clockcache_init", "io_handle_init"};
      slotEvents = {"cache_ops.flush", "cache_ops.page_sync", "io_ops.write", "io_ops.read", "allocator_ops.persist", "allocator_ops.alloc_super_addr"};
      storeTags = {"trunk_handle.root_addr", "shard_log_hdr.checksum", "trunk_super_block.checksum", "rc_allocator_meta_page.checksum", "rc_allocator_meta_page.splinters", "shard_log_hdr.magic", "shard_log_hdr.next_extent_addr", "shard_log_hdr.num_entries", "log_entry.generation"};
      loadTags = {"log_entry.generation", "shard_log_hdr.next_extent_addr"};
   }
   bool conversion(Function *f, int depth = 0) // straight-line code over its arguments: look at it
   {
      if (f->isDeclaration() || f->size() > 1 || depth > 3 || callEvents.count(srcName(f))) return false;
      for (auto &i : instructions(*f)) if (auto *cb = dyn_cast<CallBase>(&i)) if (!isDbg(&i) && !isa<MemIntrinsic>(cb)) { Function *g = E->P.callee(cb); if (!g || !conversion(g, depth + 1)) return false; }
      return true;
   }
   bool noInline(Function *f) override { return OrderMonitor::noInline(f) && !conversion(f); }
   void setup(Program &P)
   {
      for (auto &st : P.fieldNames) if (st.first == "trunk_super_block") for (auto &f : st.second) { storeTags.insert("trunk_super_block." + f); if (f != "checksum") loadTags.insert("trunk_super_block." + f); }
      // functions that change pages or reference counts, directly or through what they call
      std::vector<Function *> wd, wc;
      for (Function *f : P.funcs) for (auto &i : instructions(*f)) if (auto *cb = dyn_cast<CallBase>(&i)) {
         Slot sl; if (!P.slot(cb, sl)) continue; str n = sl.ops + "." + sl.field;
         if (n == "cache_ops.page_mark_dirty" || n == "cache_ops.page_alloc") wd.push_back(f);
         if (n == "allocator_ops.alloc" || n == "allocator_ops.inc_ref" || n == "allocator_ops.dec_ref") wc.push_back(f);
         if (n == "cache_ops.page_get") getters.insert(f);
      }
      auto close = [&](std::vector<Function *> &wl, std::set<Function *> &out) { while (!wl.empty()) { Function *f = wl.back(); wl.pop_back(); if (!out.insert(f).second) continue; for (auto *cb : P.callers[f]) wl.push_back(cb->getFunction()); } };
      close(wd, dirties); close(wc, counts);
   }
   str cls(const str &tag) { return starts(tag, "trunk_super_block.") ? "super" : starts(tag, "rc_allocator_meta_page.") ? "meta" : starts(tag, "shard_log_hdr.") || starts(tag, "log_entry.") ? "log" : ""; }
   const char *nm(const str &c) { return c == "super" ? "super block" : c == "meta" ? "allocator's meta page" : "log page"; }
   int64_t sumOffset(const str &st)
   {
      auto it = E->P.structDI.find(st); if (it == E->P.structDI.end()) return -1;
      for (auto *e : it->second->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getName() == "checksum") return m->getOffsetInBits() / 8;
      return -1;
   }
   void sumStored(State &s, const str &c, const Instruction *i)
   {
      need(s, "computed", i, "checksum-stale", str("the checksum of the ") + nm(c) + " was computed before its contents were last changed");
      clr(s, "stale-" + c);
      if (c == "super" || c == "meta") { // covers everything that precedes it
         int64_t o = sumOffset(c == "super" ? "trunk_super_block" : "rc_allocator_meta_page"), z = s.cnt.count("sum-size") ? s.cnt["sum-size"] : -1;
         checks++; if (o != z) bad(s, i, "checksum-coverage", c, str("the checksum of the ") + nm(c) + " covers " + std::to_string(z) + " bytes; the contents it protects are " + std::to_string(o));
      }
      record(s, c, i, true);
   }
   void record(State &s, const str &c, const Instruction *i, bool writer)
   {
      int64_t z = s.cnt.count("sum-size") ? s.cnt["sum-size"] : -1, k = s.cnt.count("sum-seed") ? s.cnt["sum-seed"] : -1;
      sums[c].insert({{z, k}, i});
      checks++; if (sums[c].size() > 1) bad(s, i, "checksum-agreement", c, str("the checksum of the ") + nm(c) + " is computed here with another length or seed than at line " + std::to_string(lineOf(sums[c].begin()->second == i ? sums[c].rbegin()->second : sums[c].begin()->second)));
   }
   // 128-bit values are handed around as two words inside an unnamed pair
   str pairTag(const llvm::Value *p)
   {
      if (auto *g = dyn_cast<GEPOperator>(p)) if (auto *st = dyn_cast<StructType>(g->getSourceElementType())) if (st->isLiteral()) return E->P.tagOf(g->getPointerOperand());
      return E->P.tagOf(p);
   }
   void loaded(State &s, V val, const Instruction *i) override
   {
      if (auto *l = dyn_cast<LoadInst>(i)) { str t = pairTag(l->getPointerOperand()); if (val->k != CONST && ((t.size() > 9 && t.substr(t.size() - 9) == ".checksum") || t == "rc_allocator.meta_page" || starts(t, "trunk_super_block."))) val->tag(t); }
      OrderMonitor::loaded(s, val, i);
   }
   void store(State &s, V a, V val, const Instruction *i, uint64_t size) override
   {
      if (auto *m = dyn_cast<MemIntrinsic>(i)) { str t = E->P.tagOf(m->getRawDest()); if (storeTags.count(t)) { sites["store " + t].insert(i); evStore(s, t, a, val, i); } return; }
      OrderMonitor::store(s, a, val, i, size);
   }
   void evStore(State &s, const str &t, V a, V val, const Instruction *i) override
   {
      if (t == "trunk_handle.root_addr") {
         if (!val->hasTag("trunk_super_block.root_addr")) return;
         need(s, "valid-super", i, "open-untrusted", "the root of the store is taken from a super block whose checksum was not verified");
         need(s, "unmounted-seen", i, "open-untrusted", "the root of the store is taken from a super block that is not known to be marked cleanly closed");
         set(s, "in-use-due", i); set(s, "adopted", i);
         return;
      }
      str c = cls(t);
      if (t.substr(t.size() - 9) == ".checksum") { sumStored(s, c, i); return; }
      clr(s, "computed"); set(s, "stale-" + c, i);
      if (c == "super") { set(s, "sync-due", i); clr(s, "valid-super"); }
      if (c == "meta") set(s, "meta-due", i);
      if (t == "trunk_super_block.unmounted") {
         auto k = E->known(s, val);
         if (k && *k == 0) { clr(s, "closed"); set(s, "mark-open", i); return; }
         if (!k && !E->nonZero(s, val)) { bool z = E->feasibleEq(s, val, 0); if (z) set(s, "mark-unknown", i); }
         need(s, "quiesced", i, "close-order", "the store is marked cleanly closed before the background work was run to the end");
         need(s, "drained", i, "close-order", "the store is marked cleanly closed although inserts may still be in the memtable when the background work is run to the end");
         need(s, "flushed", i, "close-order", "the store is marked cleanly closed although pages were changed after the cache was last flushed");
         need(s, "persisted", i, "close-order", "the store is marked cleanly closed although the reference counts on disk may not be the current ones");
         set(s, "mark-closed", i);
      }
   }
   void evLoad(State &s, const str &tag, V a, V val, const Instruction *i) override
   {
      if (cls(tag) == "log") { if (has(s, "log-page")) need(s, "valid-log", i, "log-untrusted", "a log page is read although its checksum was not verified: " + tag); return; }
      need(s, "valid-super", i, "open-untrusted", "a field of the super block is used although its checksum was not verified: " + tag);
      if (tag == "trunk_super_block.unmounted") { ObjSt o; o.own = true; o.acq = i; s.objs[val] = o; }
   }
   void assumed(State &s, const Instruction *br) override
   {
      for (auto &o : s.objs) if (o.first->hasTag("trunk_super_block.unmounted") && E->nonZero(s, o.first)) set(s, "unmounted-seen", br);
   }
   void changed(State &s, Function *f, const Instruction *i, bool pages, bool refs)
   {
      if (pages) { never(s, "closed", i, "close-order", "pages are changed after the store was marked cleanly closed"); clr(s, "flushed"); }
      if (refs) { never(s, "closed", i, "close-order", "reference counts are changed after the store was marked cleanly closed"); clr(s, "persisted"); }
   }
   void opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args) override
   {
      if (f && getters.count(f)) { clr(s, "valid-super"); clr(s, "valid-log"); set(s, "log-page", cb); } // another page
      if (f) { if (srcName(f) != "task_perform_until_quiescent") changed(s, f, cb, dirties.count(f), counts.count(f)); return; }
      Slot sl; if (!E->P.slot(cb, sl)) return; str n = sl.ops + "." + sl.field;
      if (n == "cache_ops.page_get") { clr(s, "valid-super"); clr(s, "valid-log"); set(s, "log-page", cb); }
      if (n == "allocator_ops.alloc" || n == "allocator_ops.inc_ref" || n == "allocator_ops.dec_ref") changed(s, nullptr, cb, false, true);
   }
   void evCall(State &s, const CallBase *cb, const str &n, std::vector<V> &args) override
   {
      auto arg = [&](unsigned k) { return k < args.size() ? E->known(s, args[k]) : std::nullopt; };
      if (n == "XXH128") {
         set(s, "computed", cb); auto z = arg(1), k = arg(2);
         if (z) s.cnt["sum-size"] = *z; else s.cnt.erase("sum-size");
         if (k) s.cnt["sum-seed"] = *k; else s.cnt.erase("sum-seed");
      } else if (n == "task_perform_until_quiescent") { changed(s, nullptr, cb, true, true); set(s, "quiesced", cb); if (has(s, "memtable-done")) set(s, "drained", cb); else clr(s, "drained"); }
      else if (n == "memtable_force_finalize") { set(s, "memtable-done", cb); clr(s, "quiesced"); }
      else if (n == "cache_ops.flush") { set(s, "flushed", cb); clr(s, "sync-due"); }
      else if (n == "allocator_ops.persist") set(s, "persisted", cb);
      else if (n == "allocator_ops.alloc_super_addr") set(s, "created", cb);
      else if (n == "cache_ops.page_sync") {
         auto b = arg(2), t = arg(3);
         if (!t || *t == SUPER) {
            never(s, "stale-super", cb, "checksum-stale", "the super block is written to disk with a checksum that does not cover its last changes");
            if (b && *b) {
               clr(s, "sync-due");
               if (has(s, "mark-open")) { clr(s, "in-use-due"); clr(s, "mark-open"); set(s, "in-use", cb); }
               if (has(s, "mark-closed")) { set(s, "closed", cb); clr(s, "mark-closed"); }
            }
         }
         if (!t || *t == LOG) never(s, "stale-log", cb, "checksum-stale", "a log page is handed to disk with a checksum that does not cover its last changes");
      } else if (n == "io_ops.write") {
         if (metaArg(args)) { never(s, "stale-meta", cb, "checksum-stale", "the allocator's meta page is written with a checksum that does not cover its last changes"); clr(s, "meta-due"); }
      } else if (n == "io_ops.read") { if (metaArg(args)) set(s, "unverified-meta", cb); }
      else if (n == "clockcache_init" || n == "io_handle_init") set(s, "opened-here", cb);
      else if (n == "clockcache_deinit" || n == "io_handle_deinit") {
         checks++;
         if (!has(s, "opened-here") && !has(s, "closed")) bad(s, cb, "close-order", n, "the store is torn down although it was not durably marked cleanly closed");
         if (has(s, "in-use")) bad(s, cb, "close-order", n + "-in-use", "an opened store is torn down although it was not durably marked cleanly closed");
      }
   }
   bool metaArg(std::vector<V> &args) { return args.size() > 1 && args[1]->hasTag("rc_allocator.meta_page"); }
   bool evFork(State &s, const CallBase *cb, const str &n, std::vector<V> &args, std::vector<std::pair<State, V>> &out) override
   {
      if (n == "memtable_is_empty") {
         State t = s; set(t, "memtable-done", cb);
         V v = E->freshSym(s, cb); E->setEq(s, v, 0); V w = E->freshSym(t, cb); E->setEq(t, w, 1);
         out.push_back({s, v}); out.push_back({t, w}); return true;
      }
      if (n != "XXH128_isEqual") return false;
      str c;
      for (auto *a : args) for (auto &t : a->tags) if (t.size() > 9 && t.substr(t.size() - 9) == ".checksum") c = cls(t);
      if (c.empty() && s.cnt.count("sum-size")) for (auto *st : {"trunk_super_block", "rc_allocator_meta_page"}) if (sumOffset(st) == s.cnt["sum-size"]) c = cls(str(st) + ".");
      if (c.empty()) c = "log";
      need(s, "computed", cb, "checksum-stale", str("the checksum of a ") + nm(c) + " is compared although none was computed over its current contents");
      record(s, c, cb, false); clr(s, "computed");
      State t = s; set(t, "valid-" + c, cb); clr(t, "unverified-" + c);
      V v = E->freshSym(s, cb); E->setEq(s, v, 0); V w = E->freshSym(t, cb); E->setEq(t, w, 1);
      out.push_back({s, v}); out.push_back({t, w}); return true;
   }
   void evExit(Function *f, State &s, V ret, const Instruction *i) override
   {
      due(s, "stale-super", i, "checksum-stale", "the super block is left with a checksum that does not cover its last changes");
      due(s, "stale-meta", i, "checksum-stale", "the allocator's meta page is left with a checksum that does not cover its last changes");
      due(s, "meta-due", i, "metadata-durable", "a change of the allocator's meta page is not written to disk");
      due(s, "sync-due", i, "metadata-durable", "a change of the super block is not written to disk before the operation ends");
      auto r = ret ? E->known(s, ret) : std::nullopt;
      if (!(r && *r != 0)) due(s, "in-use-due", i, "open-untrusted", "a store is opened without durably clearing the mark that it was cleanly closed");
      if (has(s, "opened-here") && ret) { auto k = E->known(s, ret); if (k && *k == 0) { checks++; due(s, "unverified-meta", i, "open-untrusted", "a store is opened although the checksum of the allocator's meta page was not verified"); if (!has(s, "adopted") && !has(s, "created")) bad(s, i, "open-untrusted", "success", "opening succeeds although no trusted super block was found and none was created"); } }
   }
};
void runClose(Program &P, Result &R)
{
   CloseRules M; M.setup(P);
   // stores of the root matter where a super block is at hand; that alone makes no function worth analysing
   M.storeTags.erase("trunk_handle.root_addr"); M.prepare(P); M.core = M.inl; M.inl.clear(); M.storeTags.insert("trunk_handle.root_addr");
   M.go(P, R, {{"XXH128", 2}, {"XXH128_isEqual", 1}, {"cache_ops.flush", 1}, {"allocator_ops.persist", 1}, {"task_perform_until_quiescent", 1}, {"store trunk_super_block.unmounted", 1}, {"load trunk_super_block.unmounted", 1}, {"store rc_allocator_meta_page.splinters", 1}, {"store trunk_handle.root_addr", 1}, {"clockcache_deinit", 1}});
}
