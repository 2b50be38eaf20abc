#include "common.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Support/raw_ostream.h"

str stripName(StringRef n)
{
   // strip ".123" suffixes that LLVM adds on collision
   str s = n.str();
   while (true) {
      size_t p = s.rfind('.');
      if (p == str::npos || p + 1 >= s.size()) break;
      bool dig = true;
      for (size_t i = p + 1; i < s.size(); i++)
         if (!isdigit((unsigned char)s[i])) dig = false;
      if (!dig) break;
      s = s.substr(0, p);
   }
   return s;
}
str structName(const StructType *st)
{
   if (!st->hasName()) return "";
   str s = stripName(st->getName());
   if (s.rfind("struct.", 0) == 0) s = s.substr(7);
   else if (s.rfind("union.", 0) == 0) s = s.substr(6);
   return s;
}
str srcName(const Function *f)
{
   if (auto *sp = f->getSubprogram()) return sp->getName().str();
   return stripName(f->getName());
}
static str shortFile(StringRef dir, StringRef file)
{
   str f = file.str();
   size_t p = f.rfind("src/");
   if (p != str::npos) return f.substr(p);
   p = f.rfind("include/splinterdb");
   if (p != str::npos) return f.substr(p);
   return f;
}
str fileOf(const Function *f)
{
   if (auto *sp = f->getSubprogram()) return shortFile(sp->getDirectory(), sp->getFilename());
   return "?";
}
int lineOf(const Instruction *i)
{
   if (auto &dl = i->getDebugLoc()) return dl.getLine();
   // nearest following/preceding
   for (const Instruction *j = i->getNextNode(); j; j = j->getNextNode())
      if (auto &dl = j->getDebugLoc()) if (dl.getLine()) return dl.getLine();
   return 0;
}
str fileOfInst(const Instruction *i)
{
   if (auto &dl = i->getDebugLoc())
      if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope()))
         return shortFile(sc->getDirectory(), sc->getFilename());
   return fileOf(i->getFunction());
}
DIType *stripTypedef(DIType *t)
{
   while (t) {
      auto *d = dyn_cast<DIDerivedType>(t);
      if (!d) break;
      unsigned tg = d->getTag();
      if (tg == dwarf::DW_TAG_typedef || tg == dwarf::DW_TAG_const_type
          || tg == dwarf::DW_TAG_volatile_type || tg == dwarf::DW_TAG_restrict_type
          || tg == dwarf::DW_TAG_atomic_type)
         t = d->getBaseType();
      else break;
   }
   return t;
}
str typeName(DIType *t)
{
   if (!t) return "void";
   if (auto *d = dyn_cast<DIDerivedType>(t)) {
      switch (d->getTag()) {
         case dwarf::DW_TAG_pointer_type: return typeName(d->getBaseType()) + " *";
         case dwarf::DW_TAG_const_type:
         case dwarf::DW_TAG_volatile_type:
         case dwarf::DW_TAG_restrict_type: return typeName(d->getBaseType());
         default: return d->getName().str();
      }
   }
   if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_array_type) return typeName(c->getBaseType()) + "[]";
   }
   return t->getName().str();
}
str retTypeName(const Function *f)
{
   auto *sp = f->getSubprogram();
   if (!sp || !sp->getType()) return "?";
   auto ta = sp->getType()->getTypeArray();
   if (!ta.size()) return "void";
   return typeName(ta[0]);
}
str paramTypeName(const Function *f, unsigned i)
{
   auto *sp = f->getSubprogram();
   if (!sp || !sp->getType()) return "?";
   auto ta = sp->getType()->getTypeArray();
   if (i + 1 >= ta.size()) return "?";
   return typeName(ta[i + 1]);
}
bool isDbg(const Instruction *i) { return isa<DbgInfoIntrinsic>(i); }
str jsonEsc(const str &s)
{
   str o;
   for (char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if ((unsigned char)c < 32) o += ' ';
      else o += c;
   }
   return o;
}

void Program::indexTypes(Module &m)
{
   DebugInfoFinder dif;
   dif.processModule(m);
   std::map<str, DICompositeType *> di;
   for (auto *t : dif.types()) {
      if (auto *c = dyn_cast<DICompositeType>(t)) {
         if (c->getTag() == dwarf::DW_TAG_structure_type && !c->getName().empty()
             && c->getElements().size())
            di[c->getName().str()] = c;
      } else if (auto *d = dyn_cast<DIDerivedType>(t)) {
         if (d->getTag() == dwarf::DW_TAG_typedef) {
            auto *b = dyn_cast_or_null<DICompositeType>(stripTypedef(d));
            if (b && b->getTag() == dwarf::DW_TAG_structure_type && b->getName().empty())
               di[d->getName().str()] = b;
         }
      }
   }
   const DataLayout &dl = m.getDataLayout();
   for (StructType *st : m.getIdentifiedStructTypes()) {
      str n = structName(st);
      auto it = di.find(n);
      if (it == di.end() || !st->isSized() || st->isOpaque()) continue;
      if (fieldNames.count(n)) continue;
      structDI[n] = it->second;
      const StructLayout *sl = dl.getStructLayout(st);
      std::vector<str> names(st->getNumElements());
      std::vector<DIType *> types(st->getNumElements(), nullptr);
      for (auto *e : it->second->getElements()) {
         auto *mem = dyn_cast<DIDerivedType>(e);
         if (!mem || mem->getTag() != dwarf::DW_TAG_member) continue;
         if (mem->isBitField()) {
            uint64_t so = mem->getOffsetInBits() / 8;
            if (so < sl->getSizeInBytes()) {
               unsigned i = sl->getElementContainingOffset(so);
               if (!names[i].empty()) names[i] += "|";
               names[i] += mem->getName().str();
               types[i] = mem->getBaseType();
            }
            continue;
         }
         uint64_t off = mem->getOffsetInBits() / 8;
         for (unsigned i = 0; i < st->getNumElements(); i++)
            if (sl->getElementOffset(i) == off && names[i].empty()) {
               names[i] = mem->getName().str();
               types[i] = mem->getBaseType();
               break;
            }
      }
      fieldNames[n] = names;
      fieldTypes[n] = types;
   }
}

bool Program::load(const std::vector<str> &files)
{
   LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
   PassBuilder PB;
   PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
   PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
   for (auto &f : files) {
      SMDiagnostic err;
      auto m = parseIRFile(f, err, ctx);
      if (!m) { errs() << "cannot load " << f << "\n"; return false; }
      indexTypes(*m);
      for (Function &fn : *m) {
         if (fn.isDeclaration()) continue;
         FunctionPassManager FPM;
         FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
         FPM.run(fn, FAM);
         // drop unreachable blocks (code after noreturn assertion calls)
         std::set<BasicBlock *> seen; std::vector<BasicBlock *> wl{&fn.getEntryBlock()};
         while (!wl.empty()) { auto *b = wl.back(); wl.pop_back(); if (!seen.insert(b).second) continue; for (auto *s : successors(b)) wl.push_back(s); }
         std::vector<BasicBlock *> dead;
         for (auto &b : fn) if (!seen.count(&b)) dead.push_back(&b);
         for (auto *b : dead) for (auto *s : successors(b)) if (seen.count(s)) s->removePredecessor(b, true);
         for (auto *b : dead) b->dropAllReferences();
         for (auto *b : dead) b->eraseFromParent();
         FAM.clear();
      }
      mods.push_back(std::move(m));
   }
   for (auto &m : mods)
      for (Function &fn : *m) {
         if (fn.isDeclaration()) continue;
         funcs.push_back(&fn);
         byName[srcName(&fn)].push_back(&fn);
         if (!fn.hasLocalLinkage()) defs[stripName(fn.getName())] = &fn;
      }
   // operation tables: constant globals of struct type *_ops
   for (auto &m : mods)
      for (GlobalVariable &g : m->globals()) {
         if (!g.hasInitializer()) continue;
         auto *st = dyn_cast<StructType>(g.getValueType());
         if (!st) continue;
         str n = structName(st);
         auto *init = dyn_cast<ConstantStruct>(g.getInitializer());
         if (!init) continue;
         for (unsigned i = 0; i < init->getNumOperands(); i++) {
            auto *op = init->getOperand(i)->stripPointerCasts();
            if (auto *f = dyn_cast<Function>(op)) {
               Function *d = resolve(f);
               if (!d) continue;
               str key = n + "." + fieldName(st, i);
               slotImpl[key].push_back(d);
               implOf[d].insert(key);
            }
         }
      }
   for (Function *f : funcs)
      for (auto &i : instructions(*f)) {
         if (isDbg(&i)) continue;
         auto *cb = dyn_cast<CallBase>(&i);
         for (unsigned k = 0; k < i.getNumOperands(); k++) {
            if (cb && &i.getOperandUse(k) == &cb->getCalledOperandUse()) continue;
            std::function<void(llvm::Value *)> walk = [&](llvm::Value *v) {
               if (auto *fn = dyn_cast<Function>(v)) { if (auto *d = resolve(fn)) addrTaken.insert(d); }
               else if (isa<GlobalVariable>(v)) return;
               else if (auto *c = dyn_cast<Constant>(v)) for (auto &o : c->operands()) walk(o.get());
            };
            walk(i.getOperand(k));
         }
         if (cb) {
            if (Function *d = callee(cb)) {
               if (!d->isDeclaration()) { directCallees[f].insert(d); callees[f].insert(d); callers[d].push_back(cb); }
            } else for (Function *t : slotTargets(cb)) callees[f].insert(t);
         }
      }
   for (auto &kv : implOf) addrTaken.insert(kv.first);
   // functions referenced from other global initialisers
   for (auto &m : mods)
      for (GlobalVariable &g : m->globals()) {
         if (!g.hasInitializer()) continue;
         std::function<void(llvm::Value *)> walk = [&](llvm::Value *v) {
            if (auto *fn = dyn_cast<Function>(v)) { if (auto *d = resolve(fn)) addrTaken.insert(d); }
            else if (isa<GlobalVariable>(v)) return;
            else if (auto *c = dyn_cast<Constant>(v)) for (auto &o : c->operands()) walk(o.get());
         };
         walk(g.getInitializer());
      }
   return true;
}
Function *Program::resolve(Function *f)
{
   if (!f) return nullptr;
   if (!f->isDeclaration()) return f;
   auto it = defs.find(stripName(f->getName()));
   return it == defs.end() ? nullptr : it->second;
}
Function *Program::callee(const CallBase *cb)
{
   auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
   if (!f) return nullptr;
   Function *d = resolve(f);
   return d ? d : f;
}
str Program::calleeName(const CallBase *cb)
{
   Function *f = callee(cb);
   return f ? srcName(f) : "";
}
str Program::fieldName(StructType *st, unsigned idx)
{
   auto it = fieldNames.find(structName(st));
   if (it == fieldNames.end() || idx >= it->second.size() || it->second[idx].empty())
      return "#" + std::to_string(idx);
   return it->second[idx];
}
DIType *Program::fieldDI(StructType *st, unsigned idx)
{
   auto it = fieldTypes.find(structName(st));
   if (it == fieldTypes.end() || idx >= it->second.size()) return nullptr;
   return it->second[idx];
}
str Program::tagOf(const llvm::Value *ptr)
{
   auto *g = dyn_cast<GEPOperator>(ptr);
   if (!g) return "";
   Type *t = g->getSourceElementType();
   str tag;
   bool first = true;
   for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
      if (first) { first = false; if (g->getNumIndices() == 1) { return tagOf(g->getPointerOperand()) ; } continue; }
      if (auto *st = dyn_cast<StructType>(t)) {
         unsigned k = cast<ConstantInt>(*it)->getZExtValue();
         str sn = structName(st);
         if (!sn.empty() && sn.rfind("anon", 0) != 0) tag = sn + "." + fieldName(st, k);
         t = st->getElementType(k);
      } else if (auto *at = dyn_cast<ArrayType>(t)) t = at->getElementType();
   }
   if (tag.empty()) tag = tagOf(g->getPointerOperand());
   return tag;
}
bool Program::slot(const CallBase *cb, Slot &s)
{
   if (isa<Function>(cb->getCalledOperand())) return false;
   auto *ld = dyn_cast<LoadInst>(cb->getCalledOperand()->stripPointerCasts());
   if (!ld) return false;
   str t = tagOf(ld->getPointerOperand());
   size_t p = t.find('.');
   if (p == str::npos) return false;
   s.ops = t.substr(0, p); s.field = t.substr(p + 1);
   return true;
}
const std::vector<Function *> &Program::slotTargets(const CallBase *cb)
{
   static std::vector<Function *> none;
   Slot s;
   if (!slot(cb, s)) return none;
   auto it = slotImpl.find(s.ops + "." + s.field);
   return it == slotImpl.end() ? none : it->second;
}
std::set<Function *> Program::fieldTargets(const CallBase *cb)
{
   if (!fnInit) {
      fnInit = true;
      std::map<str, std::set<str>> flow;
      auto node = [&](const llvm::Value *v) -> str {
         v = v->stripPointerCasts();
         if (auto *a = dyn_cast<Argument>(v)) return "#" + srcName(a->getParent()) + "#" + std::to_string(a->getArgNo());
         if (auto *l = dyn_cast<LoadInst>(v)) { if (isa<AllocaInst>(l->getPointerOperand())) return "@" + srcName(l->getFunction()) + "@" + l->getPointerOperand()->getName().str(); return tagOf(l->getPointerOperand()); }
         return "";
      };
      auto edge = [&](const llvm::Value *v, const str &to) {
         if (to.empty() || !v->getType()->isPointerTy()) return;
         if (auto *f = dyn_cast<Function>(v->stripPointerCasts())) { fnIn[to].insert(resolve(const_cast<Function *>(f))); return; }
         if (auto *ph = dyn_cast<PHINode>(v)) { for (auto &x : ph->incoming_values()) { if (auto *f = dyn_cast<Function>(x)) fnIn[to].insert(resolve(f)); else { str n = node(x); if (!n.empty()) flow[n].insert(to); } } return; }
         if (auto *se = dyn_cast<SelectInst>(v)) { for (auto *x : {se->getTrueValue(), se->getFalseValue()}) if (auto *f = dyn_cast<Function>(x)) fnIn[to].insert(resolve(const_cast<Function *>(f))); return; }
         str n = node(v); if (!n.empty()) flow[n].insert(to);
      };
      for (Function *f : funcs) for (auto &i : instructions(*f)) {
         if (auto *st = dyn_cast<StoreInst>(&i)) {
            str t = tagOf(st->getPointerOperand());
            if (isa<AllocaInst>(st->getPointerOperand())) t = "@" + srcName(f) + "@" + st->getPointerOperand()->getName().str();
            edge(st->getValueOperand(), t);
         } else if (auto *c = dyn_cast<CallBase>(&i)) {
            std::vector<Function *> ts; allCallees(c, ts);
            for (Function *t : ts) for (unsigned k = 0; k < c->arg_size() && k < t->arg_size(); k++) edge(c->getArgOperand(k), "#" + srcName(t) + "#" + std::to_string(k));
         }
      }
      for (bool ch = true; ch;) { ch = false; for (auto &e : flow) { auto it = fnIn.find(e.first); if (it == fnIn.end()) continue; auto src = it->second; for (auto &to : e.second) { auto &d = fnIn[to]; size_t n = d.size(); d.insert(src.begin(), src.end()); ch |= d.size() != n; } } }
   }
   std::set<Function *> r;
   if (isa<Function>(cb->getCalledOperand())) return r;
   str n; const llvm::Value *v = cb->getCalledOperand()->stripPointerCasts();
   if (auto *a = dyn_cast<Argument>(v)) n = "#" + srcName(a->getParent()) + "#" + std::to_string(a->getArgNo());
   else if (auto *l = dyn_cast<LoadInst>(v)) { if (isa<AllocaInst>(l->getPointerOperand())) n = "@" + srcName(l->getFunction()) + "@" + l->getPointerOperand()->getName().str(); else n = tagOf(l->getPointerOperand()); }
   auto it = fnIn.find(n);
   if (it != fnIn.end()) for (Function *f : it->second) if (f && !f->isDeclaration() && f->getFunctionType() == cb->getFunctionType()) r.insert(f);
   return r;
}
void Program::allCallees(const CallBase *cb, std::vector<Function *> &out)
{
   if (Function *d = callee(cb)) { if (!d->isDeclaration()) out.push_back(d); return; }
   for (auto *t : slotTargets(cb)) out.push_back(t);
}
str declRetTypeName(const CallBase *cb) { return ""; }
