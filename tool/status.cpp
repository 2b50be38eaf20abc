// A failure reported by a callee is looked at and never turned into success.
#include "monitors.h"

// object state x: 1 = not looked at yet, 3 = known to have failed
bool StatusMonitor::isStatus(Function *f)
{
   auto it = memo.find(f); if (it != memo.end()) return it->second;
   str t = retTypeName(f), n = srcName(f); bool r = t == "platform_status";
   if (t == "int" && f->getReturnType()->isIntegerTy(32) && (n.rfind("splinterdb_", 0) == 0 || n.find("log_write") != str::npos) && n.find("compare") == str::npos && n.find("cmp") == str::npos) r = true;
   if (t == "int" && n.find("merge_tuples") != str::npos) r = true;
   return memo[f] = r;
}
// result is true for success
bool StatusMonitor::isBool(Function *f)
{
   if (!f) return false; str n = srcName(f), t = retTypeName(f);
   return (t == "bool32" || t == "_Bool" || t == "bool") && (n.rfind("merge_accumulator_copy", 0) == 0 || n.rfind("merge_accumulator_init_from", 0) == 0 || n == "merge_accumulator_resize");
}
bool StatusMonitor::statusCall(const CallBase *cb, Function *f)
{
   { Slot sl; if (!f && E->P.slot(cb, sl) && sl.ops == "data_config" && sl.field.find("merge_tuples") != str::npos) return true; }
   if (f) return isStatus(f);
   auto &ts = E->P.slotTargets(cb);
   if (!ts.empty()) { for (Function *t : ts) if (isStatus(t)) return true; return false; }
   for (Function *t : E->P.fieldTargets(cb)) if (isStatus(t)) return true;
   return false;
}
bool StatusMonitor::mayFail(const CallBase *cb, Function *f)
{
   { Slot sl; if (!f && E->P.slot(cb, sl) && sl.ops == "data_config") return true; } // supplied by the application
   std::vector<Function *> ts; if (f) ts.push_back(f); else { ts = E->P.slotTargets(cb); if (ts.empty()) { auto x = E->P.fieldTargets(cb); ts.assign(x.begin(), x.end()); } }
   if (ts.empty()) return true;
   for (Function *t : ts) {
      if (prev.count(t) || canFail.count(t)) return true;
      auto it = E->sums.find(t);
      if (it != E->sums.end() && it->second.analysed && !it->second.budget) continue;
      if (E->root && E->sccId.count(t) && E->sccId[t] == E->sccId[E->root]) continue; // recursion: least fixpoint over the runs
      return true;
   }
   return false;
}
// Primitives that only fail when they are misused, teardown, and diagnostics
bool StatusMonitor::exempt(const str &callee, const Function *in)
{
   static const char *pre[] = {"platform_mutex", "platform_spin", "platform_condvar", "platform_thread_join", "task_group_lock", "task_group_unlock"};
   for (auto *p : pre) if (callee.rfind(p, 0) == 0) return true;
   static const char *hint[] = {"task_perform_one_if_needed", "trunk_reclaim_space"}; // an offer to help, "nothing to do" is not a failure
   for (auto *p : hint) if (callee == p) return true;
   static const char *sub[] = {"destroy", "deinit", "print", "log_stream", "verify", "stats", "histo"};
   for (auto *p : sub) if (callee.find(p) != str::npos || srcName(in).find(p) != str::npos) return true;
   return false;
}
static const std::set<str> OSFNS = {"pread", "pwrite", "read", "write", "open", "fstat", "fallocate", "ftruncate", "fsync", "fdatasync", "mmap", "io_submit", "io_getevents", "io_setup", "shmget", "shmat", "posix_fallocate"};
static const std::set<str> OSIO = {"pread", "pwrite", "read", "write"};
void StatusMonitor::load(State &s, V a, const Instruction *i)
{
   if (!isa<LoadInst>(i) || E->P.tagOf(cast<LoadInst>(i)->getPointerOperand()) != "io_event.res") return;
   osSites.insert(i); resLoads.insert(i);
}
static const unsigned K_OPC = 3300;
// the result of a completed request, wherever the code that judges it gets it from
V StatusMonitor::completion(State &s)
{
   for (auto &o : s.objs) if (o.second.own && o.second.acq && isa<LoadInst>(o.second.acq)) return o.first;
   auto it = resParams.find(E->root); return it == resParams.end() ? nullptr : E->param(E->root, it->second);
}
void StatusMonitor::judgeCompletion(State &s)
{
   V v = completion(s); if (!v || s.cnt.count("completion-ok")) return;
   bool ok = sizeChecked(s, v);
   for (auto &o : s.objs) if (o.first->k == OP && o.first->op == K_OPC) { // only a short write loses data
      auto k = E->known(s, o.first->a); if (k) ok |= *k == 7 || *k == 0; else { auto f = s.facts.find(o.first->a); ok |= f != s.facts.end() && f->second.ne.count(8) && f->second.ne.count(1); if (f != s.facts.end() && f->second.ne.count(8)) ok = true; }
   }
   if (ok) s.cnt["completion-ok"] = 1;
}
void StatusMonitor::loaded(State &s, V v, const Instruction *i)
{
   if (auto *l = dyn_cast<LoadInst>(i)) if (E->P.tagOf(l->getPointerOperand()) == "iocb.aio_lio_opcode") { ObjSt o; o.own = true; o.x = 0; s.objs[E->op(K_OPC, v, v)] = o; }
   if (!resLoads.count(i)) return;
   ObjSt o; o.x = 1; o.own = true; o.acq = i; s.objs[v] = o;
}
void StatusMonitor::opaqueResult(State &s, const CallBase *cb, Function *f, V v)
{
   str n = f ? "" : E->P.calleeName(cb);
   if (OSFNS.count(n)) { osSites.insert(cb); ObjSt o; o.x = 1; o.own = true; o.acq = cb; s.objs[v] = o; return; }
   if (isBool(f)) { sites.insert(cb); ObjSt o; o.x = 1; o.dirty = true; o.acq = cb; s.objs[v] = o; return; }
   if (!statusCall(cb, f)) return;
   sites.insert(cb);
   if (!mayFail(cb, f)) { cannot.insert(cb); E->setEq(s, v, 0); return; }
   ObjSt o; o.x = 1; o.acq = cb; s.objs[v] = o;
}
void StatusMonitor::assumed(State &s, const Instruction *br)
{
   judgeCompletion(s);
   for (auto it = s.objs.begin(); it != s.objs.end();) {
      if (it->first->k == OP && it->first->op == K_OPC) { ++it; continue; }
      if (it->second.own) { // result of the operating system: any decision that depends on it
         if (it->second.x == 1) for (auto &f : s.facts) if (f.first == it->first || E->contains(f.first, it->first)) { it->second.x = 2; checked.insert(it->second.acq); break; }
         ++it; continue;
      }
      auto k = E->known(s, it->first);
      if (it->second.dirty && k && *k == 0) { checked.insert(it->second.acq); it->second.x = 3; ++it; continue; }
      if (it->second.dirty && E->nonZero(s, it->first)) { checked.insert(it->second.acq); it = s.objs.erase(it); continue; }
      if (k) { checked.insert(it->second.acq); it = s.objs.erase(it); continue; } // success, or one particular failure that is being handled
      if (E->nonZero(s, it->first)) { checked.insert(it->second.acq); it->second.x = 3; }
      ++it;
   }
}
void StatusMonitor::setup(Program &P)
{
   for (Function *f : P.funcs) for (auto &i : instructions(*f)) {
      auto *l = dyn_cast<LoadInst>(&i); if (!l || P.tagOf(l->getPointerOperand()) != "io_event.res") continue;
      std::vector<const llvm::Value *> wl{l};
      while (!wl.empty()) {
         auto *v = wl.back(); wl.pop_back();
         for (auto *u : v->users()) { if (isa<CastInst>(u)) wl.push_back(u); if (auto *cb = dyn_cast<CallBase>(u)) if (Function *g = P.callee(cb)) for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->getArgOperand(k) == v) resParams[g] = k; }
      }
   }
}
void StatusMonitor::symRedefined(State &s, V v, const Instruction *i) { s.objs.erase(v); } // the same call again: a retry
void StatusMonitor::placed(State &s, V a, V val, const Instruction *i)
{
   if (s.objs.count(val) && !E->localAddr(a)) { checked.insert(s.objs[val].acq); s.objs.erase(val); } // handed over in memory
}
void StatusMonitor::opaqueCall(State &s, const CallBase *cb, Function *f, std::vector<V> &args)
{
   if (!f && E->P.slotTargets(cb).empty() && E->P.fieldTargets(cb).empty()) return;
   if (!f && !args.empty()) if (auto *l = dyn_cast<LoadInst>(cb->getCalledOperand()->stripPointerCasts())) if (E->P.tagOf(l->getPointerOperand()) == "io_async_req.callback") {
      callbacks.insert(cb); judgeCompletion(s);
      if (E->isZero(s, args.back()) && completion(s) && !s.cnt.count("completion-ok"))
         E->report("status-short-io", cb, srcName(cb->getFunction()) + ":completion", "an asynchronous write is reported as successful although it is not known to have transferred every byte", s);
   }
   for (V a : args) for (auto it = s.objs.begin(); it != s.objs.end(); ++it)
      if (it->second.own && it->second.acq && it->second.x == 1 && (a == it->first || E->contains(a, it->first)) && isa<LoadInst>(it->second.acq)) { it->second.x = 2; checked.insert(it->second.acq); } // handed to the code that judges it
}
// the full transfer was compared: result == size, or not result < size
bool StatusMonitor::sizeChecked(State &s, V v)
{
   for (auto &f : s.facts) {
      V t = f.first; bool neg = false;
      while (t->k == OP && t->op == OP_NOT) { t = t->a; neg = !neg; }
      if (t->k != OP || !t->a || !t->b) continue;
      auto k = E->known(s, f.first); bool val; if (k) val = *k != 0; else if (E->nonZero(s, f.first)) val = true; else continue;
      if (neg) val = !val;
      bool l = t->a == v || E->contains(t->a, v), r = t->b == v || E->contains(t->b, v);
      if (l == r) continue;
      V other = l ? t->b : t->a; if (other->k == CONST && other->c <= 1) continue;
      if (t->op == OP_EQ && val) return true;
      if ((t->op == OP_ULT || t->op == OP_SLT) && l && !val) return true;
   }
   auto k = E->known(s, v); return k && *k > 1;
}
void StatusMonitor::rootExit(Function *f, State &s, V ret, const Instruction *i, FnSummary &sum, bool isRoot)
{
   bool st = isStatus(f); if (st) returns++;
   if (st && !(ret && E->isZero(s, ret))) canFail.insert(f);
   for (auto &o : s.objs) {
      V v = o.first; const Instruction *at = o.second.acq; if (!at) continue;
      if (ret && (ret == v || E->contains(ret, v))) { checked.insert(at); continue; }
      if (o.second.own) {
         str cn = isa<CallBase>(at) ? E->P.calleeName(cast<CallBase>(at)) : "the completed request";
         str key = srcName(at->getFunction()) + ":" + cn;
         if (o.second.x == 1) E->report("status-ignored", at, key, "the result of " + cn + " is never looked at on a path of " + srcName(f), s);
         else if (OSIO.count(cn) && st && ret && E->isZero(s, ret) && !sizeChecked(s, v))
            E->report("status-short-io", at, key, srcName(f) + " returns OK although " + cn + " is not known to have transferred every byte", s);
         continue;
      }
      auto *cb = cast<CallBase>(at); Function *g = E->P.callee(cb);
      str cn = g ? srcName(g) : ""; if (cn.empty()) { Slot sl; if (E->P.slot(cb, sl)) cn = sl.ops + "." + sl.field; }
      str key = srcName(at->getFunction()) + ":" + cn;
      if (o.second.x == 3) {
         if (st && ret && E->isZero(s, ret))
            E->report("status-swallowed", at, key, "the failure of " + cn + " is turned into success: " + srcName(f) + " returns OK (line " + std::to_string(lineOf(i)) + ")", s);
         continue;
      }
      if (o.second.x == 1 && !exempt(cn, at->getFunction())) E->report("status-ignored", at, key, "the status of " + cn + " is never looked at on a path of " + srcName(f), s);
   }
}
void runStatus(Program &P, Result &R)
{
   std::set<Function *> prev; std::unique_ptr<StatusMonitor> Mp; std::unique_ptr<Engine> Ep; int rounds = 0;
   for (;;) {
      Ep.reset(); Mp.reset(new StatusMonitor); Mp->prev = prev; Mp->setup(P); Ep.reset(new Engine(P, *Mp)); Ep->run(); rounds++;
      size_t n = prev.size(); prev.insert(Mp->canFail.begin(), Mp->canFail.end());
      bool grown = false; if (rounds == 1) { for (Function *f : prev) if (Ep->sccSize[Ep->sccId[f]] > 1) grown = true; } else grown = prev.size() > n;
      if (!grown) break;
   }
   StatusMonitor &M = *Mp; Engine &E = *Ep;
   R.counts["fixpoint_rounds"] = rounds;
   R.findings = E.findings;
   R.counts["functions_analysed"] = E.totalRoots; R.counts["instructions_interpreted"] = E.totalSteps; R.counts["exits_checked"] = E.totalExits; R.counts["functions_over_budget"] = E.overBudgetFns.size();
   R.floor("status_call_sites", M.sites.size(), 60);
   R.floor("status_sites_checked", M.checked.size(), 40);
   R.floor("status_returns", M.returns, 60);
   R.floor("completion_callbacks", M.callbacks.size(), 1);
   R.floor("os_result_sites", M.osSites.size(), 8);
   R.counts["status_sites_cannot_fail"] = M.cannot.size();
   for (auto &n : E.overBudgetFns) R.samples.push_back("over budget: " + n);
}
