#include "engine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SCCIterator.h"

Trace::~Trace()
{  // avoid deep recursion
   auto p = std::move(prev);
   while (p && p.use_count() == 1) { auto n = std::move(p->prev); p = std::move(n); }
}
str baseName(const str &path) { size_t p = path.rfind('/'); return p == str::npos ? path : path.substr(p + 1); }

Engine::Engine(Program &p, Monitor &m) : P(p), M(m) { M.E = this; computeOrder(); mkMods(); }

// ------------------------------------------------------------------ values
static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
V Engine::intern(Val v)
{
   uint64_t h = mix(mix(mix(mix(mix(v.k, v.op), v.c), (uint64_t)v.p), (uint64_t)v.a), (uint64_t)v.b);
   h = mix(h, v.ctx);
   auto &b = tab[h];
   for (auto &e : b)
      if (e->k == v.k && e->op == v.op && e->c == v.c && e->p == v.p && e->a == v.a && e->b == v.b && e->ctx == v.ctx) return e.get();
   auto n = std::make_unique<Val>(v);
   n->id = nextId++;
   n->mask = (v.a ? v.a->mask : 0) | (v.b ? v.b->mask : 0);
   if (v.k == SYM || v.k == OLD || v.k == JOIN) n->mask |= 1ULL << (n->id & 63);
   n->depth = 1 + std::max(v.a ? v.a->depth : 0, v.b ? v.b->depth : 0);
   b.push_back(std::move(n));
   return b.back().get();
}
V Engine::cst(int64_t c) { Val v; v.k = CONST; v.c = c; return intern(v); }
V Engine::glob(const void *g) { Val v; v.k = GLOB; v.p = g; return intern(v); }
V Engine::param(Function *f, unsigned i) { Val v; v.k = PARAM; v.p = f; v.c = i; return intern(v); }
V Engine::off(V b, int64_t c)
{
   if (b->k == OFF) { c += b->c; b = b->a; }
   if (c == 0) return b;
   Val v; v.k = OFF; v.a = b; v.c = c; return intern(v);
}
V Engine::elem(V b, V i, int64_t sz)
{
   if (i->k == CONST) return off(b, i->c * sz);
   if (b->depth > 20) return sym(0, "deep", nullptr);
   Val v; v.k = ELEM; v.a = b; v.b = i; v.c = sz; return intern(v);
}
V Engine::load0(V a) { Val v; v.k = LOAD0; v.a = a; return intern(v); }
V Engine::sym(unsigned ctx, const void *i, V extra) { Val v; v.k = SYM; v.ctx = ctx; v.p = i; v.a = extra; return intern(v); }
V Engine::op(unsigned o, V a, V b)
{
   if ((a->depth > 24) || (b && b->depth > 24)) { return sym(0, "deep", nullptr); }
   Val v; v.k = OP; v.op = o; v.a = a; v.b = b; return intern(v);
}
V Engine::old(V a, unsigned kind) { Val v; v.k = OLD; v.p = a; v.op = kind; return intern(v); }
V Engine::mkJoin(unsigned ctx, const void *bb, V a, const void *slot)
{
   Val v; v.k = JOIN; v.ctx = ctx; v.p = bb; v.a = nullptr; v.c = (int64_t)slot; 
   if (a) { v.op = a->id; }
   return intern(v);
}
static bool isBool(V v) { return v->k == OP && (v->op >= OP_EQ && v->op <= OP_NOT); }
V Engine::mkNot(V a)
{
   if (a->k == CONST) return cst(!a->c);
   if (a->k == OP && a->op == OP_NOT) return a->a;
   return op(OP_NOT, a);
}
V Engine::cmp(CmpInst::Predicate p, V a, V b)
{
   switch (p) {
      case CmpInst::ICMP_NE: return mkNot(cmp(CmpInst::ICMP_EQ, a, b));
      case CmpInst::ICMP_UGT: return cmp(CmpInst::ICMP_ULT, b, a);
      case CmpInst::ICMP_SGT: return cmp(CmpInst::ICMP_SLT, b, a);
      case CmpInst::ICMP_UGE: return mkNot(cmp(CmpInst::ICMP_ULT, a, b));
      case CmpInst::ICMP_SGE: return mkNot(cmp(CmpInst::ICMP_SLT, a, b));
      case CmpInst::ICMP_ULE: return mkNot(cmp(CmpInst::ICMP_ULT, b, a));
      case CmpInst::ICMP_SLE: return mkNot(cmp(CmpInst::ICMP_SLT, b, a));
      case CmpInst::ICMP_EQ: {
         if (a == b) return cst(1);
         if (a->k == CONST && b->k == CONST) return cst(a->c == b->c);
         if (a->k == CONST || (b->k != CONST && b->id < a->id)) std::swap(a, b);
         if (b->k == CONST && isBool(a)) { if (b->c == 0) return mkNot(a); if (b->c == 1) return a; }
         if (b->k == CONST && b->c == 0 && (a->k == ALLOCA || a->k == GLOB || a->k == BYVAL)) return cst(0);
         return op(OP_EQ, a, b);
      }
      case CmpInst::ICMP_ULT:
         if (a == b) return cst(0);
         if (a->k == CONST && b->k == CONST) return cst((uint64_t)a->c < (uint64_t)b->c);
         if (b->k == CONST && b->c == 0) return cst(0);
         if (a->k == CONST && a->c == 0) return mkNot(cmp(CmpInst::ICMP_EQ, b, cst(0)));
         return op(OP_ULT, a, b);
      case CmpInst::ICMP_SLT:
         if (a == b) return cst(0);
         if (a->k == CONST && b->k == CONST) return cst(a->c < b->c);
         return op(OP_SLT, a, b);
      default: return op(2000 + p, a, b);
   }
}
bool Engine::contains(V t, V x)
{
   if (t == x) return true;
   if (t->id < x->id) return false;
   if ((t->mask & x->mask) != x->mask) return false;
   if (t->a && contains(t->a, x)) return true;
   if (t->b && contains(t->b, x)) return true;
   return false;
}
V Engine::subst(V t, V x, V y, std::map<V, V> &memo)
{
   if (t == x) return y;
   if (!contains(t, x)) return t;
   auto it = memo.find(t);
   if (it != memo.end()) return it->second;
   V a = t->a ? subst(t->a, x, y, memo) : nullptr, b = t->b ? subst(t->b, x, y, memo) : nullptr;
   V r;
   if (t->k == OFF) r = off(a, t->c);
   else if (t->k == ELEM) r = elem(a, b, t->c);
   else if (t->k == OLD) r = t;
   else { Val v = *t; v.a = a; v.b = b; v.tags.clear(); r = intern(v); }
   for (auto &g : t->tags) r->tag(g);
   memo[t] = r;
   return r;
}
bool Engine::referenced(const State &s, V x)
{
   for (auto &kv : s.objs) if (contains(kv.first, x)) return true;
   for (auto &kv : s.mem) if (contains(kv.first, x) || contains(kv.second, x)) return true;
   for (auto &fr : s.regs) for (auto &kv : fr) if (contains(kv.second, x)) return true;
   for (auto &kv : s.prov) { if (contains(kv.first, x)) return true; for (V o : kv.second) if (contains(o, x)) return true; }
   return false;
}
void Engine::substState(State &s, V x, V y)
{
   std::map<V, V> memo;
   std::map<V, V> mem;
   for (auto &kv : s.mem) mem[subst(kv.first, x, y, memo)] = subst(kv.second, x, y, memo);
   s.mem.swap(mem);
   for (auto &fr : s.regs) for (auto &kv : fr) kv.second = subst(kv.second, x, y, memo);
   std::map<V, Fact> f;
   for (auto &kv : s.facts) f[subst(kv.first, x, y, memo)] = kv.second;
   s.facts.swap(f);
   std::map<V, ObjSt> o;
   for (auto &kv : s.objs) o[subst(kv.first, x, y, memo)] = kv.second;
   s.objs.swap(o);
   std::map<V, std::set<V>> pr;
   for (auto &kv : s.prov) { std::set<V> n; for (V q : kv.second) n.insert(subst(q, x, y, memo)); pr[subst(kv.first, x, y, memo)] = n; }
   s.prov.swap(pr);
   std::set<V> fr;
   for (V a : s.fresh) fr.insert(subst(a, x, y, memo));
   s.fresh.swap(fr);
   std::set<V> e;
   for (V a : s.escaped) e.insert(subst(a, x, y, memo));
   s.escaped.swap(e);
}
V Engine::freshSym(State &s, const Instruction *i, V extra)
{
   V v = sym(ctxId, i, extra);
   s.fresh.erase(v);
   if (referenced(s, v)) {
      M.symRedefined(s, v, i);
      V t = nullptr;
      if (M.released(s, v)) t = old(v, 9);   // all released instances share one name
      else {
         V o = v;
         for (int k = 0; k < 3 && !t; k++) { o = old(v, k); if (!referenced(s, o)) t = o; else if (M.released(s, o)) { substState(s, o, old(v, 9)); t = o; } }
         if (!t) { t = old(v, 2); for (auto it = s.facts.begin(); it != s.facts.end();) it = contains(it->first, t) ? s.facts.erase(it) : std::next(it); }
      }
      substState(s, v, t);
      if (t->op == 9) for (auto it = s.facts.begin(); it != s.facts.end();) it = contains(it->first, t) ? s.facts.erase(it) : std::next(it);
   } else {
      M.symRedefined(s, v, i);
      for (auto it = s.facts.begin(); it != s.facts.end();) {
         if (contains(it->first, v)) it = s.facts.erase(it); else ++it;
      }
   }
   return v;
}
std::optional<int64_t> Engine::known(const State &s, V v)
{
   if (v->k == CONST) return v->c;
   auto it = s.facts.find(v);
   if (it != s.facts.end() && it->second.eq) return it->second.v;
   if (v->k == OP && v->op == OP_NOT) { auto k = known(s, v->a); if (k) return !*k; }
   if (v->k == OP && v->op == OP_EQ) {
      auto a = known(s, v->a), b = known(s, v->b);
      if (a && b) return *a == *b;
      if (v->a != v->b && (s.fresh.count(v->a) || s.fresh.count(v->b)) && v->b->k != CONST) return 0;
      if (b) { auto f = s.facts.find(v->a); if (f != s.facts.end() && f->second.ne.count(*b)) return 0; 
               if (*b == 0 && nonZero(s, v->a)) return 0; }
   }
   if (v->k == OP && (v->op == OP_ULT || v->op == OP_SLT)) {
      auto a = known(s, v->a), b = known(s, v->b);
      if (a && b) return v->op == OP_ULT ? (uint64_t)*a < (uint64_t)*b : *a < *b;
   }
   if (v->k == OP && v->op == Instruction::And) {
      auto a = known(s, v->a), b = known(s, v->b);
      if (a && b) return *a & *b;
      if ((a && *a == 0) || (b && *b == 0)) return 0;
   }
   if (v->k == OP && v->op == Instruction::Or) { auto a = known(s, v->a), b = known(s, v->b); if (a && b) return *a | *b; }
   if (v->k == OP && v->op == Instruction::Add) { auto a = known(s, v->a), b = known(s, v->b); if (a && b) return *a + *b; }
   if (v->k == OP && v->op == Instruction::Sub) { auto a = known(s, v->a), b = known(s, v->b); if (a && b) return *a - *b; }
   return std::nullopt;
}
bool Engine::nonZero(const State &s, V v)
{
   if (v->k == CONST) return v->c != 0;
   if (v->k == ALLOCA || v->k == GLOB || v->k == BYVAL) return true;
   if (v->k == OFF || v->k == ELEM) return nonZero(s, v->a) || (v->k == OFF && v->c > 0);
   auto it = s.facts.find(v);
   if (it != s.facts.end()) { if (it->second.eq) return it->second.v != 0; if (it->second.ne.count(0)) return true; }
   return false;
}
bool Engine::feasibleEq(const State &s, V v, int64_t c)
{
   auto k = known(s, v);
   if (k) return *k == c;
   auto it = s.facts.find(v);
   if (it != s.facts.end() && it->second.ne.count(c)) return false;
   if (c == 0 && nonZero(s, v)) return false;
   return true;
}
void Engine::setEq(State &s, V v, int64_t c)
{
   if (v->k == CONST) return;
   Fact f; f.eq = true; f.v = c; s.facts[v] = f;
}
bool Engine::assume(State &s, V c, bool t)
{
   auto k = known(s, c);
   if (k) return (*k != 0) == t;
   if (c->k == OP) {
      if (c->op == OP_NOT) return assume(s, c->a, !t);
      if (c->op == OP_EQ) {
         auto ka = known(s, c->a), kb = known(s, c->b);
         V x = nullptr; int64_t cv = 0;
         if (kb) { x = c->a; cv = *kb; } else if (ka) { x = c->b; cv = *ka; }
         if (x) {
            if (t) { if (!feasibleEq(s, x, cv)) return false; setEq(s, x, cv); 
                     // and-mask facts: (a & m) == nonzero
                   }
            else { if (known(s, x) && *known(s, x) == cv) return false; s.facts[x].ne.insert(cv); }
            return true;
         }
         setEq(s, c, t);
         return true;
      }
      if (c->op == Instruction::And && isBool(c->a) && isBool(c->b) && t) return assume(s, c->a, true) && assume(s, c->b, true);
      if (c->op == Instruction::Or && isBool(c->a) && isBool(c->b) && !t) return assume(s, c->a, false) && assume(s, c->b, false);
      if (c->op == OP_ULT && t && c->b->k != CONST) s.facts[c->b].ne.insert(0);
      if (c->op >= OP_EQ) { setEq(s, c, t); return true; }
   }
   if (t) { if (!feasibleEq(s, c, 1) && !nonZero(s, c)) {} s.facts[c].ne.insert(0); }
   else { if (nonZero(s, c)) return false; setEq(s, c, 0); }
   return true;
}
V Engine::simplify(const State &s, V v) { auto k = known(s, v); return k ? cst(*k) : v; }

// ------------------------------------------------------------------ memory
V Engine::eval(State &s, const llvm::Value *v)
{
   if (auto *c = dyn_cast<ConstantInt>(v)) return cst(c->getBitWidth() > 64 ? 0 : c->getSExtValue() == -1 && c->getBitWidth() == 1 ? 1 : c->getSExtValue());
   if (isa<ConstantPointerNull>(v)) return cst(0);
   if (isa<UndefValue>(v)) { Val u; u.k = SYM; u.p = "undef"; return intern(u); }
   if (auto *g = dyn_cast<GEPOperator>(v)) if (isa<Constant>(v)) return gep(s, g);
   if (auto *f = dyn_cast<Function>(v)) { Function *d = P.resolve(const_cast<Function *>(f)); return glob(d ? d : f); }
   if (auto *g = dyn_cast<GlobalVariable>(v)) {
      // unify external declarations by name
      Val u; u.k = GLOB; u.p = g; V r = intern(u);
      return r;
   }
   if (auto *ce = dyn_cast<ConstantExpr>(v)) {
      if (ce->isCast()) return eval(s, ce->getOperand(0));
      Val u; u.k = GLOB; u.p = v; return intern(u);
   }
   if (isa<Constant>(v)) { Val u; u.k = GLOB; u.p = v; return intern(u); }
   auto &fr = s.regs.back();
   auto it = fr.find(v);
   if (it != fr.end()) return it->second;
   return sym(ctxId, v);
}
V Engine::gep(State &s, const GEPOperator *g)
{
   const Module *m = P.mods[0].get();
   const DataLayout &dl = m->getDataLayout();
   V b = eval(s, g->getPointerOperand());
   Type *t = g->getSourceElementType();
   bool first = true;
   str tag;
   for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
      if (first) {
         first = false;
         V i = simplify(s, eval(s, *it));
         if (i->k == CONST && i->c == 0) continue;
         b = elem(b, i, dl.getTypeAllocSize(t));
         continue;
      }
      if (auto *st = dyn_cast<StructType>(t)) {
         unsigned k = cast<ConstantInt>(*it)->getZExtValue();
         b = off(b, dl.getStructLayout(st)->getElementOffset(k));
         str sn = structName(st);
         if (!sn.empty()) b->tag(sn + "." + P.fieldName(st, k));
         t = st->getElementType(k);
      } else if (auto *at = dyn_cast<ArrayType>(t)) {
         V i = simplify(s, eval(s, *it));
         str tg = b->tags.empty() ? "" : b->tags.back();
         t = at->getElementType();
         V nb = elem(b, i, dl.getTypeAllocSize(t));
         if (nb != b) nb->tag(tg);
         b = nb;
      }
   }
   return b;
}
bool Engine::isLocalFrameAddr(V a) { return localAddr(a); }
V Engine::loadMem(State &s, V addr, const Instruction *i, const str &tag)
{
   auto it = s.mem.find(addr);
   if (it != s.mem.end()) return it->second;
   V b = strip(addr);
   if (b->k == ALLOCA || b->k == BYVAL) {
      V v = sym(ctxId, i, addr);
      if (s.escaped.count(b)) { v = freshSym(s, i, addr); s.mem[addr] = v; }
      return v;
   }
   if (b->k == GLOB) {
      if (auto *g = dyn_cast<GlobalVariable>((const llvm::Value *)b->p))
         if (g->isConstant() && g->hasInitializer() && addr == b)
            if (auto *ci = dyn_cast<ConstantInt>(g->getInitializer())) return cst(ci->getSExtValue());
   }
   bool wr = false;
   if (!tag.empty()) wr = s.written.count(tag);
   for (auto &t : addr->tags) if (s.written.count(t)) wr = true;
   if (tag.empty() && addr->tags.empty()) wr = wr || s.written.count("*");
   if (!wr && addr->depth < 12) return load0(addr);
   V v = freshSym(s, i, nullptr);
   if (keep(s, addr)) s.mem[addr] = v;
   return v;
}
bool Engine::keep(const State &s, V a)
{
   V b = strip(a);
   if (b->k == ALLOCA || b->k == BYVAL) return true;
   if (b->k == GLOB) return false;
   for (V x = a; x->k == OFF || x->k == ELEM; x = x->a) if (x->k == ELEM) return false;
   return M.keepCell(s, a);
}
void Engine::storeMem(State &s, V addr, V val, const str &tag0, Type *ty)
{
   str tag = tag0;
   if (tag.empty() && !addr->tags.empty()) tag = addr->tags.back();
   if (!tag.empty()) addr->tag(tag);
   V b = strip(addr);
   bool local = (b->k == ALLOCA || b->k == BYVAL);
   // storing an alloca's address makes it escape
   V vb = strip(val);
   if (vb->k == ALLOCA || vb->k == BYVAL) s.escaped.insert(vb);
   if (!local || s.escaped.count(b) || addr->k == ELEM || baseOf(addr)->k == ELEM) {
      if (!local) s.written.insert(tag.empty() ? "*" : tag);
      for (auto it = s.mem.begin(); it != s.mem.end();) {
         V a = it->first;
         if (a == addr) { ++it; continue; }
         V ab = strip(a);
         bool al = (ab->k == ALLOCA || ab->k == BYVAL);
         bool may = false;
         if (local && al && ab != b) may = false;
         else if (local && !al && !s.escaped.count(b)) may = false;
         else if (al && !local && !s.escaped.count(ab)) may = false;
         else if (local && ab == b && (a->k == ELEM || baseOf(a)->k == ELEM || addr->k == ELEM || baseOf(addr)->k == ELEM) && baseOf(a) != baseOf(addr)) may = true;
         else if (baseOf(a) == baseOf(addr)) may = false; // same base, different constant offset
         else if (!tag.empty()) may = a->hasTag(tag);
         else may = a->tags.empty() && !al;
         if (may) it = s.mem.erase(it); else ++it;
      }
   }
   if (keep(s, addr)) s.mem[addr] = val; else s.mem.erase(addr);
}
void Engine::killRange(State &s, V dst, uint64_t n)
{
   V b = baseOf(dst); int64_t o = offOf(dst);
   for (auto it = s.mem.begin(); it != s.mem.end();) {
      V a = it->first;
      V ab = a; int64_t ao = 0; bool inElem = false;
      if (a->k == OFF) { ab = a->a; ao = a->c; }
      if (ab != b) {
         // address below an ELEM of the same region
         V r = a; while (r->k == ELEM || r->k == OFF) { r = r->a; if (r == b || r == dst) { inElem = true; break; } }
      }
      bool hit = (ab == b && ao >= o && (uint64_t)(ao - o) < n) || inElem;
      if (hit) it = s.mem.erase(it); else ++it;
   }
}
void Engine::leafFields(Type *t, uint64_t base, std::vector<std::pair<uint64_t, Type *>> &out)
{
   const DataLayout &dl = P.mods[0]->getDataLayout();
   if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = dl.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) leafFields(st->getElementType(i), base + sl->getElementOffset(i), out);
   } else if (auto *at = dyn_cast<ArrayType>(t)) {
      if (at->getNumElements() <= 4)
         for (unsigned i = 0; i < at->getNumElements(); i++) leafFields(at->getElementType(), base + i * dl.getTypeAllocSize(at->getElementType()), out);
   } else out.push_back({base, t});
}
Type *Engine::typeAt(V addr)
{
   if (addr->k == ALLOCA) return cast<AllocaInst>((const llvm::Value *)addr->p)->getAllocatedType();
   if (addr->k == BYVAL) return cast<CallBase>((const llvm::Value *)addr->p)->getParamByValType(addr->c);
   return nullptr;
}
void Engine::copyMem(State &s, V dst, V src, uint64_t n, const Instruction *i)
{
   const DataLayout &dl = P.mods[0]->getDataLayout();
   std::vector<std::pair<int64_t, V>> cells;
   V sb = baseOf(src); int64_t so = offOf(src);
   for (auto &kv : s.mem) {
      V ab = baseOf(kv.first); int64_t ao = offOf(kv.first);
      if (ab == sb && ao >= so && (uint64_t)(ao - so) < n) cells.push_back({ao - so, kv.second});
   }
   // cells never written: initial memory of an external source
   Type *t = nullptr;
   if (n <= 512) {
      for (V a : {dst, src}) { Type *q = typeAt(a); if (q && q->isSized() && dl.getTypeAllocSize(q) == n) { t = q; break; } }
      if (!t) if (auto *cp = dyn_cast_or_null<MemTransferInst>(i))
         for (auto *o : {cp->getRawDest(), cp->getRawSource()}) {
            if (auto *g = dyn_cast<GEPOperator>(o)) { Type *rt = g->getResultElementType(); if (rt && rt->isSized() && dl.getTypeAllocSize(rt) == n) t = rt; }
         }
   }
   std::set<int64_t> have;
   for (auto &c : cells) have.insert(c.first);
   V srcRoot = strip(src);
   if (t) {
      std::vector<std::pair<uint64_t, Type *>> lf;
      leafFields(t, 0, lf);
      for (auto &l : lf) if (!have.count(l.first)) {
         V a = off(src, l.first);
         if (srcRoot->k == ALLOCA || srcRoot->k == BYVAL) { if (!s.escaped.count(srcRoot)) continue; }
         V v = loadMem(s, a, i, "");
         // distinct unknowns per field
         if (v->k == SYM && v->p == (const void *)i && !v->a) { v = sym(ctxId, i, a); }
         cells.push_back({(int64_t)l.first, v});
      }
   }
   killRange(s, dst, n);
   V db = strip(dst);
   bool local = db->k == ALLOCA || db->k == BYVAL;
   for (auto &c : cells) {
      V a = off(dst, c.first);
      V vb = strip(c.second);
      if ((vb->k == ALLOCA || vb->k == BYVAL) && !local) s.escaped.insert(vb);
      if (keep(s, a)) s.mem[a] = c.second; else if (!a->tags.empty()) s.written.insert(a->tags.back());
      M.placed(s, a, c.second, i);
   }
   if (!local) { for (auto &t2 : dst->tags) s.written.insert(t2); }
}
void Engine::havoc(State &s, const CallBase *cb, const ModSet &m, std::vector<V> &args)
{
   for (int i : m.captures) if (i < (int)args.size() && !cb->paramHasAttr(i, Attribute::ByVal)) {
      V b = strip(args[i]);
      if (b->k == ALLOCA || b->k == BYVAL) s.escaped.insert(b);
   }
   for (auto &t : m.tags) s.written.insert(t);
   for (auto &pt : m.ptags) if (pt.first < (int)args.size() && !localAddr(args[pt.first])) for (auto &t : pt.second) s.written.insert(t);
   std::vector<V> re;
   for (auto &kv : s.mem) {
      V a = kv.first; V ab = strip(a);
      bool al = (ab->k == ALLOCA || ab->k == BYVAL);
      bool hit = false;
      if (!al || s.escaped.count(ab)) {
         for (auto &t : a->tags) if (m.tags.count(t)) { hit = true; break; }
         if (!hit && !al) for (auto &pt : m.ptags) if (pt.first < (int)args.size() && !localAddr(args[pt.first]))
            for (auto &t : a->tags) if (pt.second.count(t)) { hit = true; break; }
      }
      if (!hit) for (auto &pt : m.ptags) if (pt.first < (int)args.size() && !cb->paramHasAttr(pt.first, Attribute::ByVal)) {
         V g = args[pt.first];
         if (strip(g) != ab) continue;
         if (a != g && baseOf(a) == baseOf(g) && offOf(a) < offOf(g)) continue;
         bool tg = a->tags.empty(); for (auto &t : a->tags) if (pt.second.count(t)) tg = true;
         if (tg) { hit = true; break; }
      }
      if (!hit) for (int i : m.params) if (i < (int)args.size() && !cb->paramHasAttr(i, Attribute::ByVal)) {
         if (a == args[i] || (baseOf(a) == baseOf(args[i]) && offOf(a) >= offOf(args[i]) && a->tags.empty())) { hit = true; break; }
         if (cb->paramHasAttr(i, Attribute::StructRet) && baseOf(a) == baseOf(args[i])) { hit = true; break; }
      }
      if (hit) re.push_back(a);
   }
   for (V a : re) { M.clobbered(s, a, s.mem[a]); s.mem.erase(a); }
   for (V a : re) { V v = freshSym(s, cb, a); s.mem[a] = v; }
   // out-parameters never written before: fresh unknown contents
   for (int i : m.params) if (i < (int)args.size() && !cb->paramHasAttr(i, Attribute::ByVal)) {
      V a = args[i]; V b = strip(a);
      if ((b->k == ALLOCA) && !s.mem.count(a)) { V v = freshSym(s, cb, a); s.mem[a] = v; }
   }
}

// ------------------------------------------------------------------ program order, mod sets
void Engine::computeOrder()
{
   // Tarjan over the direct call graph
   std::map<Function *, int> fidx; for (unsigned i = 0; i < P.funcs.size(); i++) fidx[P.funcs[i]] = i;
   std::map<Function *, int> idx, low; std::set<Function *> on; std::vector<Function *> st; int n = 0, scc = 0;
   std::function<void(Function *)> go = [&](Function *f) {
      idx[f] = low[f] = n++; st.push_back(f); on.insert(f);
      std::vector<Function *> cs(P.directCallees[f].begin(), P.directCallees[f].end());
      std::sort(cs.begin(), cs.end(), [&](Function *a, Function *b) { return fidx[a] < fidx[b]; });
      for (Function *g : cs) {
         if (!idx.count(g)) { go(g); low[f] = std::min(low[f], low[g]); }
         else if (on.count(g)) low[f] = std::min(low[f], idx[g]);
      }
      if (low[f] == idx[f]) {
         while (true) { Function *g = st.back(); st.pop_back(); on.erase(g); sccId[g] = scc; sccSize[scc]++; order.push_back(g); if (g == f) break; }
         scc++;
      }
   };
   for (Function *f : P.funcs) if (!idx.count(f)) go(f);
}
void Engine::mkMods()
{
   auto base = [](const llvm::Value *v) { v = v->stripPointerCasts(); while (auto *g = dyn_cast<GEPOperator>(v)) v = g->getPointerOperand()->stripPointerCasts(); return v; };
   std::function<void(Type *, std::set<str> &)> addAll = [&](Type *ty, std::set<str> &o) {
      if (auto *stt = dyn_cast<StructType>(ty)) for (unsigned k = 0; k < stt->getNumElements(); k++) { o.insert(structName(stt) + "." + P.fieldName(stt, k)); addAll(stt->getElementType(k), o); }
      else if (auto *at = dyn_cast<ArrayType>(ty)) addAll(at->getElementType(), o);
   };
   for (Function *f : P.funcs) {
      ModSet &m = mods[f];
      for (auto &i : instructions(*f)) {
         const llvm::Value *p = nullptr;
         if (auto *st = dyn_cast<StoreInst>(&i)) { p = st->getPointerOperand();
            if (auto *a = dyn_cast<Argument>(base(st->getValueOperand()))) if (a->getType()->isPointerTy()) m.captures.insert(a->getArgNo()); }
         else if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) p = rm->getPointerOperand();
         else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&i)) p = cx->getPointerOperand();
         else if (auto *mi = dyn_cast<MemIntrinsic>(&i)) p = mi->getRawDest();
         if (!p) continue;
         const llvm::Value *b = base(p);
         if (isa<AllocaInst>(b)) continue;
         std::set<str> ts; str t = P.tagOf(p);
         if (!t.empty()) ts.insert(t);
         if (isa<MemIntrinsic>(&i)) {
            // a struct-sized write also writes the fields of that struct
            if (auto *g = dyn_cast<GEPOperator>(p)) { if (g->getResultElementType()) addAll(g->getResultElementType(), ts); }
            else if (auto *mt = dyn_cast<MemTransferInst>(&i)) { if (auto *al = dyn_cast<AllocaInst>(mt->getRawSource()->stripPointerCasts())) addAll(al->getAllocatedType(), ts); }
         }
         if (auto *a = dyn_cast<Argument>(b)) {
            if (ts.empty()) m.params.insert(a->getArgNo()); else m.ptags[a->getArgNo()].insert(ts.begin(), ts.end());
         } else m.tags.insert(ts.begin(), ts.end());
      }
   }
   // transitive (fixpoint over the resolved call graph)
   auto size = [](const ModSet &m) { size_t n = m.tags.size() + m.params.size() + m.captures.size(); for (auto &p : m.ptags) n += 1 + p.second.size(); return n; };
   bool ch = true;
   while (ch) {
      ch = false;
      for (Function *f : order) {
         ModSet &m = mods[f];
         size_t a = size(m);
         for (auto &i : instructions(*f)) {
            auto *cb = dyn_cast<CallBase>(&i);
            if (!cb || isa<IntrinsicInst>(cb)) continue;
            std::vector<Function *> ts; P.allCallees(cb, ts);
            for (Function *g : ts) {
               ModSet n = mods[g];
               m.tags.insert(n.tags.begin(), n.tags.end());
               for (auto &pt : n.ptags) if (pt.first < (int)cb->arg_size()) {
                  const llvm::Value *bb = base(cb->getArgOperand(pt.first));
                  if (isa<AllocaInst>(bb) || cb->paramHasAttr(pt.first, Attribute::ByVal)) continue;
                  if (auto *ar = dyn_cast<Argument>(bb)) m.ptags[ar->getArgNo()].insert(pt.second.begin(), pt.second.end());
                  else m.tags.insert(pt.second.begin(), pt.second.end());
               }
               for (int k : n.params) if (k < (int)cb->arg_size()) {
                  const llvm::Value *v = cb->getArgOperand(k)->stripPointerCasts(), *bb = base(v);
                  str t = P.tagOf(v);
                  if (isa<AllocaInst>(bb) || cb->paramHasAttr(k, Attribute::ByVal)) continue;
                  if (auto *ar = dyn_cast<Argument>(bb)) { if (t.empty()) m.params.insert(ar->getArgNo()); else m.ptags[ar->getArgNo()].insert(t); }
                  else if (!t.empty()) m.tags.insert(t);
               }
               for (int k : n.captures) if (k < (int)cb->arg_size())
                  if (auto *ar = dyn_cast<Argument>(base(cb->getArgOperand(k)))) m.captures.insert(ar->getArgNo());
            }
         }
         if (size(m) != a) ch = true;
      }
   }
}
const FnInfo &Engine::info(Function *f)
{
   auto it = infos.find(f);
   if (it != infos.end()) return it->second;
   FnInfo &fi = infos[f];
   // reverse post order
   std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> po;
   std::set<const BasicBlock *> act;
   std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *b) {
      seen.insert(b); act.insert(b);
      for (auto *s : successors(b)) { if (act.count(s)) { fi.loopHead.insert(s); fi.loops = true; } if (!seen.count(s)) dfs(s); }
      act.erase(b); po.push_back(b);
   };
   dfs(&f->getEntryBlock());
   fi.rpo.assign(po.rbegin(), po.rend());
   for (unsigned i = 0; i < fi.rpo.size(); i++) fi.idx[fi.rpo[i]] = i;
   for (auto &i : instructions(*f)) if (!isDbg(&i)) fi.size++;
   // liveness of SSA values
   bool ch = true;
   while (ch) {
      ch = false;
      for (auto it2 = po.begin(); it2 != po.end(); ++it2) {
         const BasicBlock *b = *it2;
         std::set<const llvm::Value *> live;
         for (auto *s : successors(b)) {
            std::set<const llvm::Value *> ph0; for (auto &ph : s->phis()) ph0.insert(&ph);
            for (auto *v : fi.liveIn[s]) if (!ph0.count(v)) live.insert(v);
         }
         for (auto *s : successors(b)) for (auto &ph : s->phis()) { auto *v = ph.getIncomingValueForBlock(b); if (isa<Instruction>(v) || isa<Argument>(v)) live.insert(v); }
         for (auto ii = b->rbegin(); ii != b->rend(); ++ii) {
            const Instruction &i = *ii;
            if (isDbg(&i)) continue;
            live.erase(&i);
            if (isa<PHINode>(i)) continue;
            for (auto &o : i.operands()) if (isa<Instruction>(o) || isa<Argument>(o)) live.insert(o);
         }
         for (auto &ph : b->phis()) live.insert(&ph);
         if (live != fi.liveIn[b]) { fi.liveIn[b] = live; ch = true; }
      }
   }
   { bool c2 = true; for (auto *b : po) if (isa<ReturnInst>(b->getTerminator())) fi.canReturn.insert(b);
     while (c2) { c2 = false; for (auto *b : po) if (!fi.canReturn.count(b)) for (auto *s2 : successors(b)) if (fi.canReturn.count(s2)) { fi.canReturn.insert(b); c2 = true; break; } } }
   for (auto &i : instructions(*f)) if (auto *sw = dyn_cast<SwitchInst>(&i)) {
      const llvm::Value *v = sw->getCondition(); while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
      if (auto *ld = dyn_cast<LoadInst>(v)) { str t = P.tagOf(ld->getPointerOperand()); if (!t.empty()) fi.switchTags.insert(t); }
   }
   // loop counters: integer phis of loop heads whose next value is the phi plus or minus something
   for (auto *b : fi.loopHead) for (auto &ph : b->phis()) if (ph.getType()->isIntegerTy())
      for (auto &in : ph.incoming_values()) {
         const llvm::Value *v = in.get(); std::set<const llvm::Value *> sn; std::vector<const llvm::Value *> wl{v};
         while (!wl.empty()) {
            v = wl.back(); wl.pop_back();
            if (!sn.insert(v).second || v == &ph) continue;
            if (auto *c = dyn_cast<CastInst>(v)) wl.push_back(c->getOperand(0));
            else if (auto *p2 = dyn_cast<PHINode>(v)) { for (auto &x : p2->incoming_values()) wl.push_back(x.get()); }
            else if (auto *bo = dyn_cast<BinaryOperator>(v)) if (bo->getOpcode() == Instruction::Add || bo->getOpcode() == Instruction::Sub || bo->getOpcode() == Instruction::Mul || bo->getOpcode() == Instruction::Shl)
               for (auto &o : bo->operands()) { const llvm::Value *q = o.get(); while (auto *c = dyn_cast<CastInst>(q)) q = c->getOperand(0); if (q == &ph || isa<PHINode>(q)) fi.induction.insert(&ph); }
         }
      }
   // liveness of stack slots whose address is never captured
   const DataLayout &dl = f->getParent()->getDataLayout();
   std::vector<const AllocaInst *> als;
   std::map<const AllocaInst *, std::map<const Instruction *, int>> acc; // 1 use, 2 full def
   for (auto &i : instructions(*f)) if (auto *al = dyn_cast<AllocaInst>(&i)) {
      if (!al->getAllocatedType()->isSized()) continue;
      uint64_t sz = dl.getTypeAllocSize(al->getAllocatedType());
      bool bad = false; auto &m = acc[al];
      std::function<void(const llvm::Value *, bool)> walk = [&](const llvm::Value *v, bool whole) {
         for (auto *u : v->users()) {
            auto *ui = dyn_cast<Instruction>(u); if (!ui) { bad = true; continue; }
            if (isDbg(ui)) continue;
            if (isa<LoadInst>(ui)) m[ui] = 1;
            else if (auto *st = dyn_cast<StoreInst>(ui)) {
               if (st->getValueOperand() == v) { bad = true; continue; }
               if (whole && dl.getTypeStoreSize(st->getValueOperand()->getType()) == sz && !m.count(ui)) m[ui] = 2;
            } else if (isa<GetElementPtrInst>(ui)) walk(ui, whole && cast<GetElementPtrInst>(ui)->hasAllZeroIndices());
            else if (isa<BitCastInst>(ui)) walk(ui, whole);
            else if (auto *mt = dyn_cast<MemTransferInst>(ui)) {
               if (mt->getRawSource() == v) m[ui] = 1;
               else if (auto *c = dyn_cast<ConstantInt>(mt->getLength())) { if (whole && c->getZExtValue() == sz && !m.count(ui)) m[ui] = 2; }
            } else if (auto *ms = dyn_cast<MemSetInst>(ui)) {
               if (auto *c = dyn_cast<ConstantInt>(ms->getLength())) { if (whole && c->getZExtValue() == sz && !m.count(ui)) m[ui] = 2; }
            } else if (auto *cb = dyn_cast<CallBase>(ui)) {
               for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->getArgOperand(k) == v) {
                  if (cb->paramHasAttr(k, Attribute::StructRet)) { if (!m.count(ui) && whole) m[ui] = 2; continue; }
                  m[ui] = 1;
                  if (cb->paramHasAttr(k, Attribute::ByVal)) continue;
                  Function *g = P.callee(cb);
                  if (g && !g->isDeclaration()) { if (mods[g].captures.count(k)) bad = true; }
                  else if (!g) { for (Function *t : P.slotTargets(cb)) if (mods[t].captures.count(k)) bad = true; }
               }
            } else if (isa<ICmpInst>(ui)) {}
            else bad = true;
         }
      };
      walk(al, true);
      if (!bad) als.push_back(al);
   }
   std::map<const BasicBlock *, std::set<const AllocaInst *>> al_live;
   ch = true;
   std::map<const BasicBlock *, std::map<const AllocaInst *, int>> bbEff; // first effect in block
   for (auto *b : po) for (auto &i : *b) for (auto *al : als) { auto it3 = acc[al].find(&i); if (it3 != acc[al].end() && !bbEff[b].count(al)) bbEff[b][al] = it3->second; }
   while (ch) {
      ch = false;
      for (auto *b : po) {
         std::set<const AllocaInst *> live;
         for (auto *s : successors(b)) live.insert(al_live[s].begin(), al_live[s].end());
         for (auto &e : bbEff[b]) { if (e.second == 1) live.insert(e.first); else live.erase(e.first); }
         if (live != al_live[b]) { al_live[b] = live; ch = true; }
      }
   }
   for (auto *b : po) for (auto *al : als) if (!al_live[b].count(al)) fi.deadAlloca[b].insert(al);
   return fi;
}

// ------------------------------------------------------------------ interpretation
str Engine::partKey(const State &s)
{
   str k;
   for (auto &o : s.objs) {
      if (o.second.own && o.second.ref <= 0 && !o.second.claim && !o.second.lock) continue; // released: not part of the partition
      k += std::to_string(o.first->id) + ":";
      const ObjSt &b = o.second;
      k += std::to_string(b.own) + std::to_string(b.ref) + "," + std::to_string(b.claim) + "," + std::to_string(b.lock)
           + (b.written ? "w" : "") + (b.dirty ? "d" : "") + std::to_string(b.x) + ";";
   }
   k += "|";
   for (auto &c : s.cnt) k += c.first + "=" + std::to_string(c.second) + ";";
   // which places hold which live object
   if (!s.objs.empty()) {
      k += "|"; std::set<str> rk;
      if (!s.regs.empty()) for (auto &m : s.regs.back()) { auto it = s.objs.find(m.second); if (it != s.objs.end() && it->second.own && it->second.ref > 0) rk.insert("r" + std::to_string(vid(m.first)) + ">" + std::to_string(m.second->id) + ";"); }
      for (auto &x : rk) k += x;
      for (auto &m : s.mem) { auto it = s.objs.find(m.second); if (it != s.objs.end() && it->second.own && it->second.ref > 0) k += std::to_string(m.first->id) + ">" + std::to_string(m.second->id) + ";"; }
   }
   return k;
}
bool Engine::join(State &into, State &from, unsigned ctx, const BasicBlock *bb)
{
   bool ch = false; str why;
   std::map<V, V> dbgMem; if (getenv("SDB_JOIN")) dbgMem = into.mem;
   std::function<void(const State &, V, std::set<V> &)> provOf = [&](const State &st, V v, std::set<V> &out) {
      V r = v;
      if (M.provParts() && r->k == OP && r->op >= 3000 && r->op < 5000 && r->depth < 40) { if (r->a) provOf(st, r->a, out); if (r->b) provOf(st, r->b, out); } // parts of small aggregates
      // base objects this value may point into
      while (true) {
         if (st.objs.count(r)) out.insert(r);
         auto it = st.prov.find(r);
         if (it != st.prov.end()) out.insert(it->second.begin(), it->second.end());
         if (r->k == OFF || r->k == ELEM || r->k == LOAD0) r = r->a; else break;
      }
   };
   auto joinVal = [&](V a, V b, V addr, const void *slot, V &res) -> bool {
      if (a == b) { res = a; return false; }
      V j = mkJoin(ctx, bb, addr, slot);
      // facts common to both
      bool hadJ = (a == j);
      Fact nf; bool have = false;
      if (hadJ) {
         auto it = into.facts.find(j);
         if (it != into.facts.end()) {
            Fact f = it->second;
            if (f.eq) { auto k = known(from, b); if (k && *k == f.v) { nf = f; have = true; } else if (f.v != 0 && nonZero(from, b)) { nf.ne.insert(0); have = true; } }
            else if (f.ne.count(0) && nonZero(from, b)) { nf.ne.insert(0); have = true; }
         }
      } else {
         auto ka = known(into, a), kb = known(from, b);
         if (ka && kb && *ka == *kb) { nf.eq = true; nf.v = *ka; have = true; }
         else if (nonZero(into, a) && nonZero(from, b)) { nf.ne.insert(0); have = true; }
      }
      std::set<V> pr;
      provOf(into, a, pr); provOf(from, b, pr);
      if (hadJ) { auto it = into.prov.find(j); if (it != into.prov.end()) pr.insert(it->second.begin(), it->second.end()); }
      bool c = !hadJ;
      auto fo = into.facts.find(j);
      if (have) { if (fo == into.facts.end() || !(fo->second == nf)) { if (!hadJ || fo == into.facts.end() || !(fo->second == nf)) { into.facts[j] = nf; c = c || hadJ; } } }
      else if (fo != into.facts.end()) { into.facts.erase(fo); c = true; }
      if (!pr.empty()) { auto &q = into.prov[j]; size_t n0 = q.size(); q.insert(pr.begin(), pr.end()); if (q.size() != n0) c = true; }
      res = j;
      return c;
   };
   // a join name that still stands for an older merged value elsewhere is renamed first
   {
      std::set<V> inJ, frJ;
      auto consider = [&](V a, V b, V addr, const void *slot) {
         if (a == b) return;
         V j = mkJoin(ctx, bb, addr, slot);
         if (a != j) inJ.insert(j);
         if (b != j) frJ.insert(j);
      };
      for (auto &kv : into.mem) { auto it = from.mem.find(kv.first); if (it != from.mem.end()) consider(kv.second, it->second, kv.first, nullptr); }
      for (unsigned f = 0; f < into.regs.size() && f < from.regs.size(); f++)
         for (auto &kv : into.regs[f]) { auto it = from.regs[f].find(kv.first); if (it != from.regs[f].end()) consider(kv.second, it->second, nullptr, kv.first); }
      auto ren = [&](State &st, V j) {
         if (!referenced(st, j)) return;
         V o = old(j);
         std::set<V> pr; auto p1 = st.prov.find(j); if (p1 != st.prov.end()) pr = p1->second; auto p2 = st.prov.find(o); if (p2 != st.prov.end()) pr.insert(p2->second.begin(), p2->second.end());
         for (auto it = st.facts.begin(); it != st.facts.end();) it = contains(it->first, o) ? st.facts.erase(it) : std::next(it);
         substState(st, j, o);
         for (auto it = st.facts.begin(); it != st.facts.end();) it = contains(it->first, o) ? st.facts.erase(it) : std::next(it);
         if (!pr.empty()) st.prov[o] = pr;
      };
      for (V j : inJ) ren(into, j);
      for (V j : frJ) ren(from, j);
   }
   // Facts are joined first on the ORIGINAL values, new JOIN facts added after.
   std::map<V, Fact> nf;
   bool factsChanged = false;
   for (auto &kv : into.facts) {
      const Fact &a = kv.second;
      if (kv.first->k == JOIN && kv.first->p == (const void *)bb && kv.first->ctx == ctx) { nf[kv.first] = a; continue; } // handled per cell
      auto it = from.facts.find(kv.first);
      Fact r; bool keep = false;
      if (a.eq) {
         auto k = known(from, kv.first);
         if (k && *k == a.v) { r = a; keep = true; }
         else if (a.v != 0 && nonZero(from, kv.first)) { r.ne.insert(0); keep = true; }
      } else if (it != from.facts.end()) {
         for (auto x : a.ne) if ((it->second.eq && it->second.v != x) || it->second.ne.count(x)) { r.ne.insert(x); keep = true; }
      }
      if (keep) nf[kv.first] = r;
      if (!keep || !(r == a)) factsChanged = true;
   }
   State old;
   old.facts = into.facts; // keep for known() lookups during value joins
   std::map<V, Fact> origFacts = into.facts;
   // value joins
   std::map<V, V> mem;
   std::map<V, Fact> addF; 
   {
      // use original facts while joining values
      for (auto &kv : into.mem) {
         auto it = from.mem.find(kv.first);
         V b;
         if (it == from.mem.end()) {
            V r = strip(kv.first);
            if (r->k == ALLOCA || r->k == BYVAL) { mem[kv.first] = kv.second; continue; }
            b = load0(kv.first);
         } else b = it->second;
         V res; if (joinVal(kv.second, b, kv.first, nullptr, res)) ch = true;
         mem[kv.first] = res;
      }
      for (auto &kv : from.mem) if (!into.mem.count(kv.first)) {
         V r = strip(kv.first);
         if (r->k == ALLOCA || r->k == BYVAL) { mem[kv.first] = kv.second; ch = true; continue; }
         V res; joinVal(load0(kv.first), kv.second, kv.first, nullptr, res);
         mem[kv.first] = res; ch = true;
      }
      for (unsigned f = 0; f < into.regs.size() && f < from.regs.size(); f++)
         for (auto &kv : into.regs[f]) {
            auto it = from.regs[f].find(kv.first);
            if (it == from.regs[f].end()) continue;
            V res; if (joinVal(kv.second, it->second, nullptr, kv.first, res)) ch = true;
            if (res != kv.second) { kv.second = res; ch = true; why += " reg"; }
         }
   }
   if (ch) why += " val";
   if (mem != into.mem) { ch = true; why += " mem"; }
   into.mem.swap(mem);
   // merge fact tables: keep joined ones; JOIN facts for this block as set by joinVal
   std::map<V, Fact> fin;
   for (auto &kv : nf) { if (kv.first->k == JOIN && kv.first->p == (const void *)bb && kv.first->ctx == ctx) { auto it = into.facts.find(kv.first); if (it != into.facts.end()) fin[kv.first] = it->second; } else fin[kv.first] = kv.second; }
   for (auto &kv : into.facts) if (kv.first->k == JOIN && kv.first->p == (const void *)bb && kv.first->ctx == ctx) fin[kv.first] = kv.second;
   into.facts.swap(fin);
   if (factsChanged) ch = true;
   for (auto &o : from.objs) if (!into.objs.count(o.first)) { into.objs[o.first] = o.second; ch = true; why += " obj"; }
   for (auto &w : from.written) if (into.written.insert(w).second) { ch = true; why += " written:" + w; }
   for (auto it = into.fresh.begin(); it != into.fresh.end();) if (!from.fresh.count(*it)) { it = into.fresh.erase(it); ch = true; why += " fresh"; } else ++it;
   for (auto &w : from.escaped) if (into.escaped.insert(w).second) { ch = true; why += " esc"; }
   for (auto &kv : from.prov) { auto &q = into.prov[kv.first]; for (V o : kv.second) if (q.insert(o).second) { ch = true; why += " prov:" + describe(kv.first) + "<-" + describe(o); } }
   if (getenv("SDB_JOIN") && ch && stack.size() == 1) {
      fprintf(stderr, "JOIN line %d facts %d why %s\n", lineOf(&*bb->begin()), factsChanged, why.c_str());
      for (auto &kv : into.mem) { auto it = dbgMem.find(kv.first); if (it == dbgMem.end()) fprintf(stderr, "   +cell %s = %s\n", describe(kv.first).c_str(), describe(kv.second).c_str()); else if (it->second != kv.second) fprintf(stderr, "   ~cell %s : %s -> %s\n", describe(kv.first).c_str(), describe(it->second).c_str(), describe(kv.second).c_str()); }
   }
   return ch;
}
void Engine::gc(State &s, Function *f, const BasicBlock *bb)
{
   auto &fi = info(f);
   auto &live = fi.liveIn.at(bb);
   auto &fr = s.regs.back();
   for (auto it = fr.begin(); it != fr.end();) it = live.count(it->first) ? std::next(it) : fr.erase(it);
   auto dd = fi.deadAlloca.find(bb);
   if (dd != fi.deadAlloca.end() && !dd->second.empty())
      for (auto it = s.mem.begin(); it != s.mem.end();) {
         V b = strip(it->first);
         if (b->k == ALLOCA && b->ctx == ctxId && dd->second.count((const llvm::Value *)b->p)) it = s.mem.erase(it); else ++it;
      }
   // collect referenced leaves
   std::set<V> seen;
   std::function<void(V)> mark = [&](V v) { if (!seen.insert(v).second) return; if (v->a) mark(v->a); if (v->b) mark(v->b); };
   for (auto &r : s.regs) for (auto &kv : r) mark(kv.second);
   for (auto &kv : s.mem) { mark(kv.first); mark(kv.second); }
   for (auto &kv : s.objs) mark(kv.first);
   for (auto it = s.fresh.begin(); it != s.fresh.end();) it = seen.count(*it) ? std::next(it) : s.fresh.erase(it);
   for (auto it = s.prov.begin(); it != s.prov.end();) it = seen.count(it->first) ? std::next(it) : s.prov.erase(it);
   for (auto &kv : s.prov) for (V o : kv.second) mark(o);
   M.prune(s, [&](V v) { // referenced other than as an object key
      for (auto &r : s.regs) for (auto &kv : r) if (contains(kv.second, v)) return true;
      for (auto &kv : s.mem) if (contains(kv.first, v) || contains(kv.second, v)) return true;
      for (auto &kv : s.prov) for (V o : kv.second) if (contains(o, v)) return true;
      return false; });
   for (auto it = s.facts.begin(); it != s.facts.end();) {
      // keep facts whose leaves are all still referenced or come from initial memory
      std::function<bool(V)> ok = [&](V v) -> bool {
         if (v->k == CONST || v->k == PARAM || v->k == GLOB) return true;
         if (v->k == LOAD0) return ok(v->a);
         if (v->k == OFF) return ok(v->a);
         if (v->k == OP || v->k == ELEM) return ok(v->a) && (!v->b || ok(v->b));
         return seen.count(v) > 0;
      };
      it = ok(it->first) ? std::next(it) : s.facts.erase(it);
   }
}
void Engine::note(State &s, const Instruction *i, const char *t, int64_t c)
{
   auto n = std::make_shared<Trace>();
   n->prev = s.trace; n->n = s.trace ? s.trace->n + 1 : 1;
   n->i = i; n->text = t; n->c = c;
   s.trace = n;
}
str Engine::instKey(const Instruction *i)
{
   str k = srcName(i->getFunction());
   if (auto *cb = dyn_cast<CallBase>(i)) {
      str n = P.calleeName(cb); Slot sl;
      if (n.empty() && P.slot(cb, sl)) n = sl.ops + "." + sl.field;
      k += ":" + n;
   }
   return k;
}
void Engine::report(const str &rule, const Instruction *at, const str &key0, const str &msg, const State &s)
{
   // the position is the innermost frame outside the shared inline wrappers
   str key = key0, chain;
   const Instruction *inner = at;
   if (at && at->getFunction() == (stack.empty() ? nullptr : stack.back())) {
      int lv = (int)callStack.size() - 1;
      while (lv >= 0 && fileOfInst(at).size() > 2 && fileOfInst(at).substr(fileOfInst(at).size() - 2) == ".h") {
         chain += (chain.empty() ? " via " : ", ") + srcName(at->getFunction()) + " (" + baseName(fileOfInst(at)) + ":" + std::to_string(lineOf(at)) + ")";
         at = callStack[lv--];
      }
      if (at != inner) key = instKey(at) + "<" + key0;
   }
   str f = at ? fileOfInst(at) : fileOf(root);
   int ln = at ? lineOf(at) : 0;
   str kk = rule + "|" + f + ":" + std::to_string(ln) + "|" + key;
   if (!findKeys.insert(kk).second) return;
   Finding x; x.rule = rule; x.file = f; x.line = ln; x.func = at ? srcName(at->getFunction()) : srcName(root); x.key = key; x.msg = msg;
   std::vector<str> tr;
   for (auto t = s.trace; t && tr.size() < 24; t = t->prev) tr.push_back(baseName(fileOfInst(t->i)) + ":" + std::to_string(lineOf(t->i)) + " " + t->text + (str(t->text) == "case" ? " " + std::to_string(t->c) : ""));
   std::reverse(tr.begin(), tr.end());
   for (auto &t : tr) x.path += (x.path.empty() ? "" : " -> ") + t;
   x.msg += chain + " [analysed from " + srcName(root) + "]";
   if (getenv("SDB_DBG")) fprintf(stderr, "REPORT %s %s:%d %s\n   %s\n", x.rule.c_str(), x.file.c_str(), x.line, x.msg.c_str(), x.path.c_str());
   findings.push_back(x);
}
str Engine::describe(V v)
{
   switch (v->k) {
      case CONST: return std::to_string(v->c);
      case GLOB: return ((const llvm::Value *)v->p)->getName().str();
      case PARAM: return "arg" + std::to_string(v->c);
      case ALLOCA: return "local";
      case OFF: return (v->tags.empty() ? describe(v->a) + "+" + std::to_string(v->c) : describe(v->a) + "->" + v->tags.back());
      case ELEM: return describe(v->a) + "[]";
      case LOAD0: return "*(" + describe(v->a) + ")";
      case SYM: case JOIN: if (v->k == SYM && v->ctx == 0) return "?"; return (v->k == SYM ? "v@" : "j@") + std::to_string(v->id);
      case OLD: return "old" + std::to_string(v->op) + " " + describe((V)v->p);
      case OP: return "op" + std::to_string(v->op) + "(" + describe(v->a) + (v->b ? "," + describe(v->b) : "") + ")";
      case BYVAL: return "byval";
   }
   return "?";
}

void Engine::transfer(const Instruction *i, std::vector<State> &in, std::vector<State> &out, const DataLayout &dl)
{
   for (State &s : in) {
      steps++;
      if (isDbg(i)) { out.push_back(std::move(s)); continue; }
      auto set = [&](State &st, V v) { st.regs.back()[i] = v; };
      if (auto *cb = dyn_cast<CallBase>(i)) {
         if (auto *mt = dyn_cast<MemTransferInst>(i)) {
            V d = eval(s, mt->getRawDest()), r = eval(s, mt->getRawSource());
            V n = simplify(s, eval(s, mt->getLength()));
            M.load(s, r, i); M.store(s, d, r, i, n->k == CONST ? n->c : 0);
            if (n->k == CONST && n->c > 0 && n->c <= 65536) copyMem(s, d, r, n->c, i);
            else { killRange(s, d, 1 << 20); }
            out.push_back(std::move(s)); continue;
         }
         if (auto *ms = dyn_cast<MemSetInst>(i)) {
            V d = eval(s, ms->getRawDest()); V n = simplify(s, eval(s, ms->getLength())); V val = eval(s, ms->getValue());
            M.store(s, d, val, i, n->k == CONST ? n->c : 0);
            uint64_t sz = n->k == CONST ? n->c : 1 << 20;
            killRange(s, d, sz);
            if (val->k == CONST && val->c == 0) {
               Type *t = typeAt(d);
               if (t && t->isSized() && sz <= 4096) { std::vector<std::pair<uint64_t, Type *>> lf; leafFields(t, 0, lf); for (auto &l : lf) if (l.first < sz) s.mem[off(d, l.first)] = cst(0); }
               else if (sz <= 16) s.mem[d] = cst(0);
               if (!t) if (auto *g = dyn_cast<GEPOperator>(ms->getRawDest())) { Type *rt = g->getResultElementType(); if (rt && rt->isSized() && dl.getTypeAllocSize(rt) == sz && sz <= 4096) { std::vector<std::pair<uint64_t, Type *>> lf; leafFields(rt, 0, lf); for (auto &l : lf) s.mem[off(d, l.first)] = cst(0); } }
            }
            if (!localAddr(d)) for (auto &t : d->tags) s.written.insert(t);
            out.push_back(std::move(s)); continue;
         }
         if (isa<IntrinsicInst>(i)) {
            auto id = cast<IntrinsicInst>(i)->getIntrinsicID();
            if (id == Intrinsic::expect) { set(s, eval(s, cb->getArgOperand(0))); }
            else if (!i->getType()->isVoidTy()) set(s, freshSym(s, i));
            out.push_back(std::move(s)); continue;
         }
         doCall(cb, std::move(s), out);
         continue;
      }
      switch (i->getOpcode()) {
         case Instruction::Alloca: { Val v; v.k = ALLOCA; v.ctx = ctxId; v.p = i; set(s, intern(v)); break; }
         case Instruction::Load: {
            auto *ld = cast<LoadInst>(i);
            V a = eval(s, ld->getPointerOperand());
            M.load(s, a, i);
            V v = loadMem(s, a, i, P.tagOf(ld->getPointerOperand()));
            v = simplify(s, v); M.loaded(s, v, i);
            set(s, v); break;
         }
         case Instruction::Store: {
            auto *st = cast<StoreInst>(i);
            V a = eval(s, st->getPointerOperand()), v = eval(s, st->getValueOperand());
            M.store(s, a, v, i, dl.getTypeStoreSize(st->getValueOperand()->getType()));
            storeMem(s, a, v, P.tagOf(st->getPointerOperand()), st->getValueOperand()->getType());
            M.placed(s, a, v, i); break;
         }
         case Instruction::GetElementPtr: set(s, gep(s, cast<GEPOperator>(i))); break;
         case Instruction::AtomicRMW: {
            auto *rm = cast<AtomicRMWInst>(i);
            V a = eval(s, rm->getPointerOperand());
            V wv = simplify(s, eval(s, rm->getValOperand()));
            std::vector<std::pair<State, int>> ao;
            if (M.atomic(s, i, a, nullptr, wv, ao)) {
               str t = P.tagOf(rm->getPointerOperand());
               for (auto &o : ao) { V nv = freshSym(o.first, i); setEq(o.first, nv, o.second); o.first.mem.erase(a); if (!localAddr(a)) o.first.written.insert(t.empty() ? "*" : t); o.first.regs.back()[i] = nv; out.push_back(std::move(o.first)); }
               continue;
            }
            M.load(s, a, i); M.store(s, a, wv, i, 0);
            V nv = freshSym(s, i);
            s.mem.erase(a); str t = P.tagOf(rm->getPointerOperand()); if (!localAddr(a)) s.written.insert(t.empty() ? "*" : t);
            set(s, nv);
            { std::vector<State> sp; if (M.rmwOld(s, a, nv, i, sp)) { for (auto &x : sp) out.push_back(std::move(x)); continue; } }
            break;
         }
         case Instruction::AtomicCmpXchg: {
            auto *cx = cast<AtomicCmpXchgInst>(i);
            V a = eval(s, cx->getPointerOperand());
            V ev = simplify(s, eval(s, cx->getCompareOperand())), wv = simplify(s, eval(s, cx->getNewValOperand()));
            std::vector<std::pair<State, int>> ao;
            if (M.atomic(s, i, a, ev, wv, ao)) {
               str t = P.tagOf(cx->getPointerOperand());
               for (auto &o : ao) { V nv = freshSym(o.first, i); setEq(o.first, op(3001, nv), o.second); if (o.second && ev->k == CONST) setEq(o.first, op(3000, nv), ev->c); else if (!o.second && ev->k == CONST) o.first.facts[op(3000, nv)].ne.insert(ev->c);
                  o.first.mem.erase(a); if (!localAddr(a)) o.first.written.insert(t.empty() ? "*" : t); o.first.regs.back()[i] = nv; out.push_back(std::move(o.first)); }
               continue;
            }
            M.load(s, a, i); M.store(s, a, wv, i, 0);
            V nv = freshSym(s, i);
            s.mem.erase(a); str t = P.tagOf(cx->getPointerOperand()); if (!localAddr(a)) s.written.insert(t.empty() ? "*" : t);
            set(s, nv); break;
         }
         case Instruction::ExtractValue: {
            V a = eval(s, i->getOperand(0));
            auto idx = cast<ExtractValueInst>(i)->getIndices();
            V r = op(3000 + (idx.size() ? idx[0] : 0), a);
            if (a->k == OP && a->op >= 4000 && a->op < 4100 && (a->op - 4000) == idx[0]) r = a->b;
            set(s, r); break;
         }
         case Instruction::InsertValue: { set(s, op(4000 + cast<InsertValueInst>(i)->getIndices()[0], eval(s, i->getOperand(0)), eval(s, i->getOperand(1)))); break; }
         case Instruction::ICmp: {
            auto *c = cast<ICmpInst>(i);
            V r = cmp(c->getPredicate(), simplify(s, eval(s, c->getOperand(0))), simplify(s, eval(s, c->getOperand(1))));
            set(s, simplify(s, r)); break;
         }
         case Instruction::Select: {
            V c = eval(s, i->getOperand(0)); auto k = known(s, c);
            if (k) { set(s, eval(s, i->getOperand(*k ? 1 : 2))); break; }
            State t = s;
            if (assume(t, c, true)) { t.regs.back()[i] = eval(t, i->getOperand(1)); out.push_back(std::move(t)); }
            if (assume(s, c, false)) { set(s, eval(s, i->getOperand(2))); break; }
            continue;
         }
         case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast:
         case Instruction::PtrToInt: case Instruction::IntToPtr:
            set(s, eval(s, i->getOperand(0))); break;
         case Instruction::Freeze: set(s, eval(s, i->getOperand(0))); break;
         default:
            if (auto *bo = dyn_cast<BinaryOperator>(i)) {
               V a = simplify(s, eval(s, bo->getOperand(0))), b = simplify(s, eval(s, bo->getOperand(1)));
               V r = nullptr;
               if (a->k == CONST && b->k == CONST) {
                  switch (bo->getOpcode()) {
                     case Instruction::Add: r = cst(a->c + b->c); break;
                     case Instruction::Sub: r = cst(a->c - b->c); break;
                     case Instruction::Mul: r = cst(a->c * b->c); break;
                     case Instruction::And: r = cst(a->c & b->c); break;
                     case Instruction::Or: r = cst(a->c | b->c); break;
                     case Instruction::Xor: r = cst(a->c ^ b->c); break;
                     default: break;
                  }
               }
               if (!r && bo->getOpcode() == Instruction::Xor && b->k == CONST && b->c == 1 && (isBool(a) || bo->getType()->isIntegerTy(1))) r = mkNot(a);
               if (!r && b->k == CONST && b->c == 0 && (bo->getOpcode() == Instruction::Add || bo->getOpcode() == Instruction::Or || bo->getOpcode() == Instruction::Sub)) r = a;
               if (!r) r = op(bo->getOpcode(), a, b);
               set(s, simplify(s, r));
            } else if (!i->getType()->isVoidTy()) set(s, freshSym(s, i));
      }
      out.push_back(std::move(s));
   }
}

void Engine::doCall(const CallBase *cb, State s, std::vector<State> &out)
{
   Function *f = P.callee(cb);
   str name = f ? srcName(f) : "";
   Slot sl; bool hasSlot = !f && P.slot(cb, sl);
   std::vector<V> args;
   for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(simplify(s, eval(s, cb->getArgOperand(i))));
   std::vector<std::pair<State, V>> res;
   if (M.call(s, cb, name, hasSlot ? &sl : nullptr, args, res)) {
      for (auto &r : res) { if (!cb->getType()->isVoidTy() && r.second) r.first.regs.back()[cb] = r.second; out.push_back(std::move(r.first)); }
      return;
   }
   bool defined = f && !f->isDeclaration();
   if (defined) {
      bool rec = std::find(stack.begin(), stack.end(), f) != stack.end();
      bool small = info(f).size <= smallLimit && !info(f).loops;
      bool inl = !rec && stack.size() < 14 && !M.noInline(f) && (nonNeutral.count(f) || small || M.forceInline(f));
      if (inl && sccSize[sccId[f]] > 1 && !nonNeutral.count(f)) inl = small;
      if (inl) {
         // by-value aggregates get their own copy
         for (unsigned i = 0; i < args.size(); i++) if (cb->paramHasAttr(i, Attribute::ByVal)) {
            Val v; v.k = BYVAL; v.ctx = ctxId; v.p = cb; v.c = i; V d = intern(v);
            copyMem(s, d, args[i], P.mods[0]->getDataLayout().getTypeAllocSize(cb->getParamByValType(i)), cb);
            args[i] = d;
         }
         auto key = std::make_pair(ctxId, (const void *)cb);
         auto it = ctxIds.find(key);
         unsigned c = it == ctxIds.end() ? (ctxIds[key] = nextCtx++) : it->second;
         unsigned saved = ctxId;
         std::map<const llvm::Value *, V> fr;
         for (unsigned i = 0; i < f->arg_size() && i < args.size(); i++) fr[f->getArg(i)] = args[i];
         s.regs.push_back(fr);
         stack.push_back(f);
         callStack.push_back(cb);
         ctxId = c;
         auto ex = runFunction(f, std::move(s), c);
         ctxId = saved;
         stack.pop_back(); callStack.pop_back();
         // group exits by partition
         std::map<str, std::pair<State, V>> groups;
         for (auto &e : ex) {
            e.s.regs.pop_back();
            // drop the callee's frame
            for (auto it2 = e.s.mem.begin(); it2 != e.s.mem.end();) {
               V b = strip(it2->first);
               if ((b->k == ALLOCA && b->ctx == c) || (b->k == BYVAL && b->ctx == saved && b->p == cb)) it2 = e.s.mem.erase(it2); else ++it2;
            }
            M.frameGone(e.s, c);
            if (!cb->getType()->isVoidTy()) e.s.regs.back()[cb] = e.ret ? e.ret : cst(0);
            str pk = partKey(e.s);
            if (e.ret) { auto k = known(e.s, e.ret); pk += k ? "#" + std::to_string(*k) : (nonZero(e.s, e.ret) ? "#nz" : "#?"); if (!k && e.s.objs.count(e.ret)) pk += std::to_string(e.ret->id); }
            auto g = groups.find(pk);
            if (g == groups.end()) groups.emplace(pk, std::make_pair(std::move(e.s), e.ret));
            else join(g->second.first, e.s, c, cb->getParent());
         }
         for (auto &g : groups) out.push_back(std::move(g.second.first));
         return;
      }
   }
   // opaque call
   ModSet m;
   std::vector<Function *> ts;
   if (defined) ts.push_back(f); else ts = P.slotTargets(cb);
   for (Function *t : ts) {
      ModSet &n = mods[t];
      m.tags.insert(n.tags.begin(), n.tags.end()); m.params.insert(n.params.begin(), n.params.end()); m.captures.insert(n.captures.begin(), n.captures.end());
      for (auto &pt : n.ptags) m.ptags[pt.first].insert(pt.second.begin(), pt.second.end());
   }
   if (!defined && ts.empty())
      for (unsigned i = 0; i < args.size(); i++) if (cb->getArgOperand(i)->getType()->isPointerTy() && localAddr(args[i]) && (name == "" || !(name == "fprintf" || name == "printf" || name == "memcmp" || name == "free"))) m.params.insert(i);
   M.opaqueCall(s, cb, defined ? f : nullptr, args);
   havoc(s, cb, m, args);
   if (!cb->getType()->isVoidTy()) { V v = freshSym(s, cb); s.regs.back()[cb] = v; M.opaqueResult(s, cb, defined ? f : nullptr, v); }
   out.push_back(std::move(s));
}

static unsigned long dbgLast = 0;
std::vector<Engine::Exit> Engine::runFunction(Function *f, State s0, unsigned myctx)
{
   std::vector<Exit> exits;
   const FnInfo &fi = info(f);
   const DataLayout &dl = f->getParent()->getDataLayout();
   struct Part { State s; bool dirty = true; int visits = 0; };
   std::vector<std::map<str, Part>> parts(fi.rpo.size());
   std::set<int> work;
   parts[0][partKey(s0)].s = std::move(s0);
   work.insert(0);
   while (!work.empty()) {
      int bi = *work.begin(); work.erase(work.begin());
      const BasicBlock *bb = fi.rpo[bi];
      std::vector<str> keys;
      for (auto &kv : parts[bi]) if (kv.second.dirty) keys.push_back(kv.first);
      for (auto &k : keys) {
         Part &pt = parts[bi][k];
         if (!pt.dirty) continue;
         pt.dirty = false;
         if (++pt.visits > 60) { continue; }
         if (getenv("SDB_DBG") && steps / 20000 != dbgLast) { dbgLast = steps / 20000; fprintf(stderr, "steps %lu in %s depth %zu line %d parts %zu key %s\n", (unsigned long)steps, srcName(f).c_str(), stack.size(), lineOf(bb->getTerminator()), parts[bi].size(), k.c_str());
            fprintf(stderr, "   mem %zu facts %zu objs %zu\n", pt.s.mem.size(), pt.s.facts.size(), pt.s.objs.size()); if (getenv("SDB_OBJ")) for (auto &o : pt.s.objs) fprintf(stderr, "     obj %u = %s\n", o.first->id, describe(o.first).c_str()); }
         if (steps > stepLimit || ((steps & 1023) == 0 && late())) { overBudget = true; if (!(getenv("SDB_VIS") && stack.size() == 1)) return exits; else { work.clear(); break; } }
         std::vector<State> cur{pt.s}, nxt;
         const Instruction *term = bb->getTerminator();
         for (auto &ins : *bb) {
            if (isa<PHINode>(ins)) continue;
            if (&ins == term) break;
            ctxId = myctx;
            nxt.clear();
            transfer(&ins, cur, nxt, dl);
            cur.swap(nxt);
            if (cur.empty()) break;
            if (cur.size() > 512) { overBudget = true; cur.resize(512); }
         }
         ctxId = myctx;
         for (State &s : cur) {
            if (auto *r = dyn_cast<ReturnInst>(term)) {
               Exit e; e.ret = r->getReturnValue() ? eval(s, r->getReturnValue()) : nullptr; e.i = term; e.s = std::move(s);
               exits.push_back(std::move(e));
               continue;
            }
            std::vector<std::pair<const BasicBlock *, State>> succ;
            if (auto *br = dyn_cast<BranchInst>(term)) {
               if (br->isUnconditional()) succ.push_back({br->getSuccessor(0), s});
               else {
                  V c = eval(s, br->getCondition());
                  State t = s;
                  bool ft = assume(t, c, true), ff = assume(s, c, false);
                  if (ft && ff) { note(t, term, "true"); note(s, term, "false"); }
                  if (ft) { M.assumed(t, term); succ.push_back({br->getSuccessor(0), std::move(t)}); }
                  if (ff) { M.assumed(s, term); succ.push_back({br->getSuccessor(1), std::move(s)}); }
               }
            } else if (auto *sw = dyn_cast<SwitchInst>(term)) {
               V c = eval(s, sw->getCondition());
               State d = s; bool dok = true;
               for (auto &cs : sw->cases()) {
                  int64_t cv = cs.getCaseValue()->getSExtValue();
                  if (feasibleEq(s, c, cv)) { State t = s; setEq(t, c, cv); note(t, term, "case", cv); M.assumed(t, term); succ.push_back({cs.getCaseSuccessor(), std::move(t)}); }
                  auto k = known(d, c);
                  if (k) { if (*k == cv) dok = false; } else d.facts[c].ne.insert(cv);
               }
               if (dok) { note(d, term, "default"); succ.push_back({sw->getDefaultDest(), std::move(d)}); }
            } else continue; // unreachable
            for (auto &sc : succ) {
               if (!fi.canReturn.count(sc.first)) continue; // ends in an assertion failure
               State &t = sc.second;
               // phis
               std::vector<std::pair<const PHINode *, V>> ph;
               for (auto &p : sc.first->phis()) ph.push_back({&p, simplify(t, eval(t, p.getIncomingValueForBlock(bb)))});
               for (auto &p : ph) if (fi.induction.count(p.first)) {
                  V init = p.second; p.second = freshSym(t, p.first);
                  // a loop that is certain to run at least once: the first test cannot fail
                  if (fi.idx.at(sc.first) > bi && init->k == CONST) if (auto *br = dyn_cast<BranchInst>(sc.first->getTerminator())) if (br->isConditional()) if (auto *ic = dyn_cast<ICmpInst>(br->getCondition())) {
                     auto str0 = [](const llvm::Value *q) { while (auto *c = dyn_cast<CastInst>(q)) q = c->getOperand(0); return q; };
                     for (int sw = 0; sw < 2; sw++) if (str0(ic->getOperand(sw)) == p.first) if (auto *bc = dyn_cast<ConstantInt>(ic->getOperand(1 - sw))) {
                        V k = eval(t, bc); V c0 = sw ? cmp(ic->getPredicate(), k, init) : cmp(ic->getPredicate(), init, k), c1 = sw ? cmp(ic->getPredicate(), k, p.second) : cmp(ic->getPredicate(), p.second, k);
                        if (c0->k == CONST && c1->k == OP) { if (c1->op == OP_NOT) setEq(t, c1->a, !c0->c); else setEq(t, c1, c0->c); }
                     }
                  }
               }
               for (auto &p : ph) t.regs.back()[p.first] = p.second;
               gc(t, f, sc.first);
               str pk = partKey(t);
               int si = fi.idx.at(sc.first);
               if (M.partitionPhi() && (!fi.loopHead.count(sc.first) || M.partitionLoopPhi()) && parts[si].size() < 64)
                  for (auto &p : ph) {
                     if (!p.first->getType()->isIntegerTy()) { if (p.first->getType()->isPointerTy()) pk += isZero(t, p.second) ? "^0" : nonZero(t, p.second) ? "^n" : "^?"; continue; }
                     auto k = known(t, p.second);
                     if (k) pk += "^" + std::to_string(*k); else pk += nonZero(t, p.second) ? "^nz" : "^?";
                  }
               if (!fi.switchTags.empty()) for (auto &m : t.mem) for (auto &tg : m.first->tags) if (fi.switchTags.count(tg)) { auto k = known(t, m.second); if (k) pk += "@" + std::to_string(m.first->id) + "=" + std::to_string(*k); break; }
               auto it = parts[si].find(pk);
               if (it == parts[si].end()) {
                  if (parts[si].size() >= maxParts) { overBudget = true; continue; }
                  Part &np = parts[si][pk]; np.s = std::move(t); work.insert(si);
               } else if (join(it->second.s, t, myctx, sc.first)) { it->second.dirty = true; gc(it->second.s, f, sc.first); work.insert(si); }
            }
         }
      }
   }
   if (getenv("SDB_VIS") && stack.size() == 1) {
      for (unsigned b = 0; b < parts.size(); b++) { int v = 0; for (auto &p : parts[b]) v += p.second.visits; fprintf(stderr, "VIS %s line %d parts %zu visits %d\n", srcName(f).c_str(), lineOf(&*fi.rpo[b]->begin()), parts[b].size(), v); }
   }
   return exits;
}

bool Engine::resultIgnored(const CallBase *cb, const CallBase **where)
{
   int lvl = (int)callStack.size() - 1;
   while (true) {
      bool used = false, ret = false;
      std::vector<const llvm::Value *> wl{cb}; std::set<const llvm::Value *> seen;
      while (!wl.empty()) {
         auto *v = wl.back(); wl.pop_back();
         if (!seen.insert(v).second) continue;
         for (auto *u : v->users()) {
            auto *ui = dyn_cast<Instruction>(u); if (!ui || isDbg(ui)) continue;
            if (isa<ReturnInst>(ui)) ret = true;
            else if (isa<CastInst>(ui) || isa<PHINode>(ui)) wl.push_back(ui);
            else used = true;
         }
      }
      if (used) return false;
      if (!ret) { if (where) *where = cb; return true; }
      if (lvl < 0) return false;
      cb = callStack[lvl--];
   }
}
void Engine::analyseRoot(Function *f)
{
   root = f; steps = 0; overBudget = false; stack.clear(); callStack.clear(); stack.push_back(f); ctxId = 0; ctxIds.clear(); nextCtx = 1;
   State s; std::map<const llvm::Value *, V> fr;
   for (unsigned i = 0; i < f->arg_size(); i++) fr[f->getArg(i)] = param(f, i);
   s.regs.push_back(fr);
   FnSummary &sum = sums[f];
   auto ex = runFunction(f, std::move(s), 0);
   sum.analysed = true; sum.exits = ex.size(); sum.budget = overBudget;
   if (getenv("SDB_TIME")) fprintf(stderr, "ROOT %s steps %lu exits %zu%s\n", srcName(f).c_str(), (unsigned long)steps, ex.size(), overBudget ? " OVER" : "");
   totalSteps += steps; totalRoots++; totalExits += ex.size();
   if (overBudget) overBudgetFns.push_back(srcName(f));
   bool isRoot = P.callers[f].empty() || P.addrTaken.count(f);
   for (auto &e : ex) { ctxId = 0; M.rootExit(f, e.s, e.ret, e.i, sum, isRoot); }
   if (!sum.neutral) nonNeutral.insert(f);
}
bool Engine::late()
{
   static const time_t t0 = time(nullptr); static const long lim = getenv("SDB_DEADLINE") ? atol(getenv("SDB_DEADLINE")) : 1000000;
   return time(nullptr) - t0 > lim;
}
void Engine::run(std::function<bool(Function *)> filter)
{
   for (Function *f : order) {
      if (filter && !filter(f)) continue;
      if (M.skip(f)) continue;
      if (!M.interesting(f)) continue;
      if (late()) { overBudgetFns.push_back(srcName(f)); continue; }
      analyseRoot(f);
   }
}
