// Shared front end: loads the bitcode of every unit of /repo/src, resolves
// names, struct fields, operation tables and the call graph.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <algorithm>

using namespace llvm;
typedef std::string str;

struct Finding {
   str rule, file, func, key, msg, path;
   int line = 0;
};

struct Slot { str ops; str field; };   // operations-table slot ("cache_ops","page_get")

struct Program {
   LLVMContext ctx;
   std::vector<std::unique_ptr<Module>> mods;
   std::map<str, Function *> defs;               // external definitions by name
   std::map<str, std::vector<Function *>> byName; // all definitions by source name
   std::vector<Function *> funcs;                // all definitions
   std::map<str, std::vector<Function *>> slotImpl; // "cache_ops.page_get" -> impls
   std::map<Function *, std::set<str>> implOf;   // function -> slots it is stored in
   std::map<Function *, std::set<Function *>> callees; // direct + slot-resolved
   std::map<Function *, std::set<Function *>> directCallees;
   std::map<Function *, std::vector<CallBase *>> callers; // direct call sites
   std::set<Function *> addrTaken;
   std::map<str, std::vector<str>> fieldNames;   // struct -> names by LLVM index
   std::map<str, std::vector<DIType *>> fieldTypes;
   std::map<str, DICompositeType *> structDI;

   bool load(const std::vector<str> &files);
   Function *resolve(Function *decl);            // declaration -> definition
   Function *callee(const CallBase *cb);         // direct callee (definition if any)
   str calleeName(const CallBase *cb);           // source name, "" if indirect
   bool slot(const CallBase *cb, Slot &s);       // indirect through an ops table
   const std::vector<Function *> &slotTargets(const CallBase *cb);
   // functions that can be stored in the struct field a call goes through (flow-insensitive)
   std::set<Function *> fieldTargets(const CallBase *cb);
   str fieldName(StructType *st, unsigned idx);
   DIType *fieldDI(StructType *st, unsigned idx);
   // tag of an address-producing operand: "struct.field" of its last GEP step
   str tagOf(const llvm::Value *ptr);
   void allCallees(const CallBase *cb, std::vector<Function *> &out);
   bool hasBody(const str &n) { return byName.count(n); }
   std::vector<Function*> named(const str&n){auto i=byName.find(n);return i==byName.end()?std::vector<Function*>():i->second;}
private:
   std::map<str, std::set<Function *>> fnIn; bool fnInit = false;
   void indexTypes(Module &m);
};

str srcName(const Function *f);
str fileOf(const Function *f);
int lineOf(const Instruction *i);
str fileOfInst(const Instruction *i);
str structName(const StructType *st);
str stripName(StringRef n);
DIType *stripTypedef(DIType *t);
str typeName(DIType *t);           // e.g. "page_handle *"
str retTypeName(const Function *f);
str paramTypeName(const Function *f, unsigned i); // source-level types (DI)
str declRetTypeName(const CallBase *cb);
bool isDbg(const Instruction *i);
str jsonEsc(const str &s);
