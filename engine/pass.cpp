// LLVM 18 pass plugin: instruments every function of a module so that symbolic
// expressions ("shadows", opaque pointers owned by the runtime in rt.cpp) are
// propagated next to every SSA value, through memory, calls and returns.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

static const int MAXARGS = 24;

struct Inst {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *PtrTy, *I64, *I32, *I8, *VoidTy;
  GlobalVariable *Tag, *Args, *Rets, *CalleeG, *RetFnG;
  Constant *NullS;
  std::map<std::string, std::string> model;   // libc function -> instrumented model
  uint32_t siteBase;

  FunctionCallee rt(const char *name, Type *ret, ArrayRef<Type *> args) {
    return M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
  }
  GlobalVariable *ext(const char *name, Type *t) {
    GlobalVariable *g = M.getGlobalVariable(name);
    if (!g) {
      g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, name);
      g->setDSOLocal(true);
    }
    return g;
  }
  Inst(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    PtrTy = PointerType::getUnqual(C);
    I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I8 = Type::getInt8Ty(C);
    VoidTy = Type::getVoidTy(C);
    Tag = ext("__sx_tag", ArrayType::get(I8, 1 << 20));
    Args = ext("__sx_args", ArrayType::get(PtrTy, MAXARGS));
    Rets = ext("__sx_rets", ArrayType::get(PtrTy, 8));
    CalleeG = ext("__sx_callee", PtrTy);
    RetFnG = ext("__sx_retfn", PtrTy);
    NullS = ConstantPointerNull::get(PointerType::getUnqual(C));
    siteBase = 0;
    for (char c : M.getName().str()) siteBase = siteBase * 131 + (unsigned char)c;
    for (const char *n : {"strlen", "memcmp", "bcmp", "memchr", "strcmp", "strncmp", "strchr", "strrchr",
                          "strtol", "strtoul", "strtoll", "strtoull", "atoi", "atol", "strtod", "strtof", "strtold", "atof",
                          "isspace", "isalpha", "isdigit", "isalnum", "isupper", "islower", "ispunct", "isprint",
                          "isxdigit", "iscntrl", "isgraph", "isblank", "tolower", "toupper", "strcpy", "strncpy",
                          "strcat", "strdup", "strstr", "strcspn", "strspn", "rawmemchr", "memrchr", "stpcpy", "strtok_r", "strnlen"})
      model[n] = std::string("__sxm_") + n;
    for (const char *n : {"strtol", "strtoul", "strtoll", "strtoull"}) model[std::string("__isoc23_") + n] = std::string("__sxm_") + n;
    model["_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"] = "__sxm_istream_str";
    model["_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_"] = "__sxm_getline_delim";
    model["_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE"] = "__sxm_getline";
    model["_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_"] = "__sxm_istream_char";
    model["_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_"] = "__sxm_ws";
    model["_ZNSirsERi"] = "__sxm_istream_int"; model["_ZNSirsERs"] = "__sxm_istream_short";
    model["_ZNSi10_M_extractIlEERSiRT_"] = "__sxm_istream_long"; model["_ZNSirsERl"] = "__sxm_istream_long";
    model["_ZNSi10_M_extractIjEERSiRT_"] = "__sxm_istream_uint"; model["_ZNSirsERj"] = "__sxm_istream_uint";
    model["_ZNSi10_M_extractImEERSiRT_"] = "__sxm_istream_ulong"; model["_ZNSirsERm"] = "__sxm_istream_ulong";
    model["_ZNSi10_M_extractIxEERSiRT_"] = "__sxm_istream_long"; model["_ZNSi10_M_extractIyEERSiRT_"] = "__sxm_istream_ulong";
    model["_ZNSi10_M_extractIdEERSiRT_"] = "__sxm_istream_double"; model["_ZNSirsERd"] = "__sxm_istream_double";
    model["_ZNSi10_M_extractIfEERSiRT_"] = "__sxm_istream_float"; model["_ZNSirsERf"] = "__sxm_istream_float";
    for (const char *n : {"malloc", "free", "calloc", "realloc"}) model[n] = std::string("__sx_") + n;
  }

  static bool isScalar(Type *t) {
    if (t->isPointerTy()) return true;
    if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64;
    return t->isFloatTy() || t->isDoubleTy();
  }
  unsigned tyCode(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 100;
    if (t->isDoubleTy()) return 101;
    return 0;
  }
  // flattened scalar leaves of an aggregate; empty when unsupported
  bool leaves(Type *t, SmallVectorImpl<Type *> &out) {
    if (isScalar(t)) { out.push_back(t); return true; }
    if (auto *st = dyn_cast<StructType>(t)) {
      for (Type *e : st->elements()) if (!leaves(e, out)) return false;
      return out.size() <= 8;
    }
    return false;
  }
  unsigned nSlots(Type *t) {
    if (t->isVoidTy()) return 0;
    SmallVector<Type *, 8> l;
    if (!leaves(t, l)) return 0;
    return l.size();
  }

  typedef SmallVector<Value *, 2> Sh;
  std::map<Value *, Sh> sh;
  Function *F;
  uint32_t site;

  Value *toI64(IRBuilder<> &B, Value *v) {
    Type *t = v->getType();
    if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    return B.CreateZExtOrTrunc(v, I64);
  }
  Value *fromI64(IRBuilder<> &B, Value *v, Type *t) {
    if (t->isPointerTy()) return B.CreateIntToPtr(v, t);
    if (t->isFloatTy()) return B.CreateBitCast(B.CreateTrunc(v, I32), t);
    if (t->isDoubleTy()) return B.CreateBitCast(v, t);
    return B.CreateZExtOrTrunc(v, t);
  }
  Value *S(Value *v, unsigned i = 0) {
    if (isa<Constant>(v)) return NullS;
    auto it = sh.find(v);
    if (it == sh.end() || i >= it->second.size()) return NullS;
    return it->second[i];
  }
  bool isNull(Value *s) { return s == NullS; }
  Value *anyNonNull(IRBuilder<> &B, ArrayRef<Value *> ss) {
    Value *acc = nullptr;
    for (Value *s : ss) {
      if (isNull(s)) continue;
      Value *x = B.CreatePtrToInt(s, I64);
      acc = acc ? B.CreateOr(acc, x) : x;
    }
    if (!acc) return nullptr;
    return B.CreateICmpNE(acc, ConstantInt::get(I64, 0));
  }
  Constant *ci32(uint32_t v) { return ConstantInt::get(I32, v); }
  Constant *ci64(uint64_t v) { return ConstantInt::get(I64, v); }

  // if (cond) r = gen(B) before `pos`; returns phi(r, NullS) -- or nothing when gen returns null
  Value *guarded(Instruction *pos, Value *cond, std::function<Value *(IRBuilder<> &)> gen) {
    BasicBlock *pre = pos->getParent();
    Instruction *then = SplitBlockAndInsertIfThen(cond, pos, false,
        MDNode::get(C, {MDString::get(C, "branch_weights"),
                        ConstantAsMetadata::get(ci32(1)), ConstantAsMetadata::get(ci32(1000))}));
    IRBuilder<> TB(then);
    TB.SetCurrentDebugLocation(pos->getDebugLoc());
    Value *r = gen(TB);
    if (!r || r->getType()->isVoidTy()) return nullptr;
    BasicBlock *cont = pos->getParent();
    PHINode *p = PHINode::Create(r->getType(), 2, "", &*cont->begin());
    p->addIncoming(r, then->getParent());
    p->addIncoming(Constant::getNullValue(r->getType()), pre);
    return p;
  }
  Value *condSym(Instruction *pos, ArrayRef<Value *> ss, std::function<Value *(IRBuilder<> &)> gen) {
    IRBuilder<> B(pos);
    Value *c = anyNonNull(B, ss);
    if (!c) return NullS;
    Value *r = guarded(pos, c, gen);
    return r ? r : NullS;
  }
  Value *tagOf(IRBuilder<> &B, Value *p) {
    Value *a = B.CreatePtrToInt(p, I64);
    Value *ix = B.CreateAnd(B.CreateLShr(a, 12), ci64((1 << 20) - 1));
    Value *g = B.CreateGEP(ArrayType::get(I8, 1 << 20), Tag, {ci64(0), ix});
    return B.CreateICmpNE(B.CreateLoad(I8, g), ConstantInt::get(I8, 0));
  }
  // make the operand value concrete (adds a path constraint); shadow stays known but value is fixed
  void concretize(Instruction *pos, Value *v, const char *why) {
    SmallVector<Type *, 8> l;
    if (isa<Constant>(v)) return;
    if (!isScalar(v->getType())) {
      auto it = sh.find(v);
      if (it == sh.end()) return;
      for (Value *s : it->second) condSym(pos, {s}, [&](IRBuilder<> &B) -> Value * {
        B.CreateCall(rt("__sx_conc", VoidTy, {PtrTy, I32}), {s, ci32(site++)}); return nullptr; });
      return;
    }
    Value *s = S(v);
    condSym(pos, {s}, [&](IRBuilder<> &B) -> Value * {
      B.CreateCall(rt("__sx_conc", VoidTy, {PtrTy, I32}), {s, ci32(site++)});
      return nullptr;
    });
  }
  Instruction *after(Instruction *I) { return I->getNextNode(); }
  void clearRange(Instruction *pos, Value *p, Value *n) {
    IRBuilder<> B(pos);
    B.CreateCall(rt("__sx_clear", VoidTy, {PtrTy, I64}), {p, n});
  }

  void run() {
    // replace libc functions by their instrumented models
    bool isModel = M.getSourceFileName().find("models.c") != std::string::npos;
    bool isStd = M.getSourceFileName().find("stdinst.cpp") != std::string::npos;
    for (auto &kv : model) {
      Function *f = M.getFunction(kv.first);
      if (!f || (!f->isDeclaration() && !f->hasAvailableExternallyLinkage() && !isStd)) continue;
      if (isModel && kv.second.substr(0, 6) == "__sxm_") continue;
      FunctionCallee c = M.getOrInsertFunction(kv.second, f->getFunctionType());
      f->replaceAllUsesWith(c.getCallee());
    }
    SmallVector<Function *, 64> fs;
    for (Function &f : M) {
      if (f.isDeclaration()) continue;
      if (f.hasAvailableExternallyLinkage()) continue;
      if (f.getName().starts_with("__sx_")) continue;
      fs.push_back(&f);
    }
    for (GlobalVariable &g : M.globals()) {
      if (g.getName().starts_with("_ZTV") || g.getName().starts_with("_ZTT") || g.getName().starts_with("_ZTC"))
        if (!g.isDeclaration() && !g.hasLocalLinkage()) g.setVisibility(GlobalValue::HiddenVisibility);
    }
    // available_externally bodies were only there for inlining
    for (Function &f : M) if (f.hasAvailableExternallyLinkage()) { f.deleteBody(); f.setComdat(nullptr); }
    // registration table
    StructType *rowTy = StructType::get(C, {PtrTy, PtrTy, PtrTy, I64, I64});
    SmallVector<Constant *, 64> rows;
    ArrayType *flagsTy = ArrayType::get(I8, fs.size());
    GlobalVariable *flags = new GlobalVariable(M, flagsTy, false, GlobalValue::InternalLinkage,
                                               ConstantAggregateZero::get(flagsTy), "__sx_flags");
    auto str = [&](StringRef s) -> Constant * {
      Constant *k = ConstantDataArray::getString(C, s);
      auto *g = new GlobalVariable(M, k->getType(), true, GlobalValue::PrivateLinkage, k);
      return g;
    };
    std::map<std::string, Constant *> files;
    for (size_t i = 0; i < fs.size(); i++) {
      Function *f = fs[i];
      std::string file = M.getSourceFileName();
      unsigned line = 0;
      if (auto *sp = f->getSubprogram()) {
        file = sp->getFile() ? (sp->getDirectory().str() + "|" + sp->getFilename().str()) : file;
        line = sp->getLine();
      }
      if (!files.count(file)) files[file] = str(file);
      uint64_t ni = 0;
      for (auto &b : *f) ni += b.size();
      rows.push_back(ConstantStruct::get(rowTy, {f, str(f->getName()), files[file], ci64(line), ci64(ni)}));
    }
    ArrayType *tabTy = ArrayType::get(rowTy, rows.size());
    auto *tab = new GlobalVariable(M, tabTy, true, GlobalValue::InternalLinkage, ConstantArray::get(tabTy, rows), "__sx_ftab");
    Function *ctor = Function::Create(FunctionType::get(VoidTy, false), GlobalValue::InternalLinkage, "__sx_modctor", M);
    {
      IRBuilder<> B(BasicBlock::Create(C, "e", ctor));
      B.CreateCall(rt("__sx_register", VoidTy, {PtrTy, I64, PtrTy}), {tab, ci64(rows.size()), flags});
      B.CreateRetVoid();
    }
    appendToGlobalCtors(M, ctor, 0);
    for (size_t i = 0; i < fs.size(); i++) {
      F = fs[i];
      uint32_t h = siteBase;
      for (char c : F->getName().str()) h = h * 131 + (unsigned char)c;
      site = h;
      instrument(flags, flagsTy, i);
      if (!F->hasLocalLinkage()) { F->setVisibility(GlobalValue::HiddenVisibility); F->setDSOLocal(true); }
      F->removeFnAttr(Attribute::Memory);
      F->removeFnAttr(Attribute::NoFree);
      F->removeFnAttr(Attribute::NoSync);
      F->removeFnAttr(Attribute::WillReturn);
      F->removeFnAttr(Attribute::Speculatable);
    }
    for (Function &f : M) if (f.isDeclaration() && !f.isIntrinsic()) {
      f.removeFnAttr(Attribute::Memory); f.removeFnAttr(Attribute::NoFree);
      f.removeFnAttr(Attribute::NoSync); f.removeFnAttr(Attribute::WillReturn); f.removeFnAttr(Attribute::Speculatable);
    }
    for (GlobalAlias &a : M.aliases())
      if (!a.hasLocalLinkage()) { a.setVisibility(GlobalValue::HiddenVisibility); a.setDSOLocal(true); }
  }

  void instrument(GlobalVariable *flags, ArrayType *flagsTy, size_t idx) {
    sh.clear();
    // drop musttail so that code can follow the call
    SmallVector<InvokeInst *, 8> invs;
    for (BasicBlock &b : *F) for (Instruction &i : b) {
      if (auto *ci = dyn_cast<CallInst>(&i)) if (ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
      if (auto *ci = dyn_cast<CallInst>(&i)) if (ci->isTailCall()) ci->setTailCallKind(CallInst::TCK_None);
      if (auto *iv = dyn_cast<InvokeInst>(&i)) invs.push_back(iv);
    }
    for (InvokeInst *iv : invs)
      if (!iv->getNormalDest()->getSinglePredecessor()) SplitEdge(iv->getParent(), iv->getNormalDest());
    // a shift by the width or more is poison in the IR but has a value in SMT-LIB: give the machine the same
    // value, so that code which computes such a shift and then discards it (a switch turned into a bit mask
    // and guarded by a later select) can be encoded
    SmallVector<BinaryOperator *, 8> shifts;
    SmallPtrSet<Instruction *, 8> noShadow;
    std::map<Instruction *, Instruction *> sameShadow;
    for (BasicBlock &b : *F) for (Instruction &i : b)
      if (auto *bo = dyn_cast<BinaryOperator>(&i))
        if (bo->isShift() && isScalar(bo->getType()) && !isa<Constant>(bo->getOperand(1))) shifts.push_back(bo);
    for (BinaryOperator *bo : shifts) {
      IRBuilder<> B(bo->getNextNode());
      unsigned w = bo->getType()->getIntegerBitWidth();
      Value *in = B.CreateICmpULT(bo->getOperand(1), ConstantInt::get(bo->getType(), w));
      Value *over = bo->getOpcode() == Instruction::AShr
        ? B.CreateAShr(bo->getOperand(0), ConstantInt::get(bo->getType(), w - 1)) : ConstantInt::get(bo->getType(), 0);
      Value *sel = B.CreateSelect(in, bo, over);
      bo->replaceUsesWithIf(sel, [&](Use &u) { return u.getUser() != sel; });
      if (auto *x = dyn_cast<Instruction>(in)) noShadow.insert(x);
      if (auto *x = dyn_cast<Instruction>(over)) noShadow.insert(x);
      if (auto *x = dyn_cast<Instruction>(sel)) sameShadow[x] = bo;
    }
    // instruction list in RPO
    SmallVector<Instruction *, 256> list;
    SmallVector<PHINode *, 32> phis;
    ReversePostOrderTraversal<Function *> rpo(F);
    for (BasicBlock *b : rpo) for (Instruction &i : *b) {
      if (auto *p = dyn_cast<PHINode>(&i)) phis.push_back(p); else list.push_back(&i);
    }
    // prologue
    Instruction *first = &*F->getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
    {
      IRBuilder<> B(first);
      B.SetCurrentDebugLocation(DebugLoc());
      B.CreateStore(ConstantInt::get(I8, 1), B.CreateGEP(flagsTy, flags, {ci64(0), ci64(idx)}));
      if (F->arg_size()) {
        Value *m = B.CreateICmpEQ(B.CreateLoad(PtrTy, CalleeG), F);
        unsigned i = 0;
        for (Argument &a : F->args()) {
          if (i >= (unsigned)MAXARGS) break;
          Value *slot = B.CreateLoad(PtrTy, B.CreateGEP(ArrayType::get(PtrTy, MAXARGS), Args, {ci64(0), ci64(i)}));
          if (a.hasByValAttr()) {
            uint64_t sz = DL.getTypeAllocSize(a.getParamByValType());
            B.CreateCall(rt("__sx_byval", VoidTy, {PtrTy, PtrTy, I64}),
                         {&a, B.CreateSelect(m, slot, NullS), ci64(sz)});
          } else if (isScalar(a.getType())) {
            sh[&a].push_back(B.CreateSelect(m, slot, NullS));
          }
          i++;
        }
        B.CreateStore(NullS, CalleeG);
      }
    }
    for (PHINode *p : phis) {
      unsigned n = nSlots(p->getType());
      for (unsigned k = 0; k < n; k++) {
        PHINode *sp = PHINode::Create(PtrTy, p->getNumIncomingValues(), "", p);
        sh[p].push_back(sp);
      }
    }
    for (Instruction *i : list) {
      if (noShadow.count(i)) continue;
      auto ss = sameShadow.find(i);
      if (ss == sameShadow.end()) { visit(i); continue; }
      auto it = sh.find(ss->second);
      if (it != sh.end()) { Sh c = it->second; sh[i] = c; }
    }
    for (PHINode *p : phis) {
      auto it = sh.find(p);
      if (it == sh.end()) continue;
      for (unsigned k = 0; k < it->second.size(); k++) {
        PHINode *sp = cast<PHINode>(it->second[k]);
        for (unsigned j = 0; j < p->getNumIncomingValues(); j++)
          sp->addIncoming(S(p->getIncomingValue(j), k), p->getIncomingBlock(j));
      }
    }
  }

  Value *addrConc(Instruction *I, Value *p) {
    Value *s = S(p);
    condSym(I, {s}, [&](IRBuilder<> &B) -> Value * {
      B.CreateCall(rt("__sx_conc", VoidTy, {PtrTy, I32}), {s, ci32(site++)}); return nullptr; });
    return p;
  }

  void visit(Instruction *I) {
    site += 2654435761u;
    if (auto *al = dyn_cast<AllocaInst>(I)) {
      uint64_t es = DL.getTypeAllocSize(al->getAllocatedType());
      if (!isa<ConstantInt>(al->getArraySize())) concretize(I, al->getArraySize(), "alloca");
      Instruction *pos = after(I);   // after concretize, which splits the block
      IRBuilder<> B(pos);
      Value *n = B.CreateMul(B.CreateZExtOrTrunc(al->getArraySize(), I64), ci64(es));
      clearRange(pos, al, n);
      return;
    }
    if (auto *ld = dyn_cast<LoadInst>(I)) {
      Type *t = ld->getType();
      Value *p = ld->getPointerOperand();
      SmallVector<Type *, 8> lv;
      if (!isScalar(t)) {
        addrConc(I, p);
        uint64_t sz = DL.getTypeStoreSize(t);
        IRBuilder<> B(I);
        B.CreateCall(rt("__sx_concmem", VoidTy, {PtrTy, I64, I32}), {p, ci64(sz), ci32(site++)});
        return;
      }
      uint64_t sz = DL.getTypeStoreSize(t);
      Value *ps = S(p);
      // symbolic address: table read or concretisation
      Instruction *nx = after(I);
      Value *symr = nullptr;
      if (!isNull(ps)) {
        symr = condSym(I, {ps}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(rt("__sx_loadsym", PtrTy, {PtrTy, PtrTy, I32, I32, I32}),
                              {ps, p, ci32(sz), ci32(tyCode(t)), ci32(site++)}); });
      }
      IRBuilder<> B(nx);
      B.SetCurrentDebugLocation(I->getDebugLoc());
      Value *c = tagOf(B, p);
      if (symr && !isNull(symr)) c = B.CreateAnd(c, B.CreateICmpEQ(symr, NullS));
      Value *r = guarded(nx, c, [&](IRBuilder<> &TB) -> Value * {
        return TB.CreateCall(rt("__sx_load", PtrTy, {PtrTy, I32, I32}), {p, ci32(sz), ci32(tyCode(t))}); });
      if (symr && !isNull(symr)) {
        IRBuilder<> B2(nx);
        r = B2.CreateSelect(B2.CreateICmpNE(symr, NullS), symr, r);
      }
      sh[I].push_back(r);
      return;
    }
    if (auto *st = dyn_cast<StoreInst>(I)) {
      Value *v = st->getValueOperand(), *p = st->getPointerOperand();
      addrConc(I, p);
      uint64_t sz = DL.getTypeStoreSize(v->getType());
      if (!isScalar(v->getType())) {
        concretize(I, v, "aggstore");
        clearRange(I, p, ci64(sz));
        return;
      }
      Value *s = S(v);
      IRBuilder<> B(I);
      Value *c = tagOf(B, p);
      if (!isNull(s)) c = B.CreateOr(c, B.CreateICmpNE(s, NullS));
      guarded(I, c, [&](IRBuilder<> &TB) -> Value * {
        TB.CreateCall(rt("__sx_store", VoidTy, {PtrTy, I32, PtrTy}), {p, ci32(sz), s}); return nullptr; });
      return;
    }
    if (auto *bo = dyn_cast<BinaryOperator>(I)) {
      Value *a = bo->getOperand(0), *b = bo->getOperand(1);
      Value *sa = S(a), *sb = S(b);
      if (!isScalar(I->getType())) { concretize(I, a, "binop"); concretize(I, b, "binop"); return; }
      if (isNull(sa) && isNull(sb)) return;
      unsigned op = bo->getOpcode();
      unsigned ty = tyCode(I->getType());
      // divisions by a symbolic value that may be zero are handled in the runtime
      sh[I].push_back(condSym(I, {sa, sb}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("__sx_binop", PtrTy, {I32, I32, I64, PtrTy, I64, PtrTy, I32}),
                            {ci32(op), ci32(ty), toI64(B, a), sa, toI64(B, b), sb, ci32(site++)}); }));
      return;
    }
    if (auto *u = dyn_cast<UnaryOperator>(I)) {
      Value *a = u->getOperand(0), *sa = S(a);
      if (!isScalar(I->getType())) { concretize(I, a, "unop"); return; }
      if (isNull(sa)) return;
      sh[I].push_back(condSym(I, {sa}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("__sx_fun", PtrTy, {I32, I32, I64, PtrTy, I32}),
                            {ci32(1), ci32(tyCode(I->getType())), toI64(B, a), sa, ci32(site++)}); }));
      return;
    }
    if (auto *ic = dyn_cast<CmpInst>(I)) {
      Value *a = ic->getOperand(0), *b = ic->getOperand(1);
      Value *sa = S(a), *sb = S(b);
      if (!isScalar(a->getType())) { concretize(I, a, "cmp"); concretize(I, b, "cmp"); return; }
      if (isNull(sa) && isNull(sb)) return;
      unsigned ty = tyCode(a->getType());
      sh[I].push_back(condSym(I, {sa, sb}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("__sx_cmp", PtrTy, {I32, I32, I64, PtrTy, I64, PtrTy, I32}),
                            {ci32(ic->getPredicate()), ci32(ty), toI64(B, a), sa, toI64(B, b), sb, ci32(site++)}); }));
      return;
    }
    if (auto *ca = dyn_cast<CastInst>(I)) {
      Value *a = ca->getOperand(0), *sa = S(a);
      if (!isScalar(I->getType()) || !isScalar(a->getType())) { concretize(I, a, "cast"); return; }
      if (isNull(sa)) return;
      sh[I].push_back(condSym(I, {sa}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("__sx_cast", PtrTy, {I32, I32, I32, I64, PtrTy, I32}),
                            {ci32(ca->getOpcode()), ci32(tyCode(a->getType())), ci32(tyCode(I->getType())), toI64(B, a), sa, ci32(site++)}); }));
      return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
      if (!g->getType()->isPointerTy()) { for (Value *v : g->operands()) concretize(I, v, "gep"); return; }
      // base + const offset + sum idx*scale
      SmallVector<Value *, 4> ss;
      ss.push_back(S(g->getPointerOperand()));
      for (auto it = g->idx_begin(); it != g->idx_end(); ++it) ss.push_back(S(*it));
      bool all = true;
      for (Value *s : ss) if (!isNull(s)) all = false;
      if (all) return;
      MapVector<Value *, APInt> vars;
      APInt off(64, 0);
      if (!g->collectOffset(DL, 64, vars, off)) { for (Value *v : g->operands()) concretize(I, v, "gep"); return; }
      sh[I].push_back(condSym(I, ss, [&](IRBuilder<> &B) -> Value * {
        // fold one variable index at a time
        Value *acc = S(g->getPointerOperand());
        Value *conc = toI64(B, g->getPointerOperand());
        auto f = rt("__sx_gep", PtrTy, {I64, PtrTy, I64, PtrTy, I32, I64});
        for (auto &kv : vars) {
          Value *iv = kv.first;
          Value *ic = B.CreateSExtOrTrunc(iv, I64);
          uint64_t scale = kv.second.getZExtValue();
          acc = B.CreateCall(f, {conc, acc, ic, S(iv), ci32(iv->getType()->getIntegerBitWidth()), ci64(scale)});
          conc = B.CreateAdd(conc, B.CreateMul(ic, ci64(scale)));
        }
        if (off != 0) acc = B.CreateCall(f, {conc, acc, ci64(off.getZExtValue()), NullS, ci32(64), ci64(1)});
        return acc;
      }));
      return;
    }
    if (auto *se = dyn_cast<SelectInst>(I)) {
      Value *c = se->getCondition(), *t = se->getTrueValue(), *f = se->getFalseValue();
      if (!c->getType()->isIntegerTy() || !isScalar(I->getType())) { concretize(I, c, "select");
        if (!isScalar(I->getType())) {
          unsigned n = nSlots(I->getType());
          IRBuilder<> B(after(I));
          for (unsigned k = 0; k < n; k++) sh[I].push_back(B.CreateSelect(c, S(t, k), S(f, k)));
        }
        return; }
      Value *sc = S(c), *st = S(t), *sf = S(f);
      if (isNull(sc) && isNull(st) && isNull(sf)) return;
      Value *r = NullS;
      if (!isNull(sc)) r = condSym(I, {sc}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("__sx_select", PtrTy, {PtrTy, I64, I32, I64, PtrTy, I64, PtrTy, I32}),
                            {sc, toI64(B, c), ci32(tyCode(I->getType())), toI64(B, t), st, toI64(B, f), sf, ci32(site++)}); });
      IRBuilder<> B(I);
      Value *plain = (isNull(st) && isNull(sf)) ? (Value *)NullS : B.CreateSelect(c, st, sf);
      if (!isNull(sc)) plain = B.CreateSelect(B.CreateICmpNE(sc, NullS), r, plain);
      sh[I].push_back(plain);
      return;
    }
    if (auto *br = dyn_cast<BranchInst>(I)) {
      if (!br->isConditional()) return;
      Value *c = br->getCondition(), *s = S(c);
      condSym(I, {s}, [&](IRBuilder<> &B) -> Value * {
        B.CreateCall(rt("__sx_branch", VoidTy, {PtrTy, I64, I32}), {s, B.CreateZExt(c, I64), ci32(site++)}); return nullptr; });
      return;
    }
    if (auto *sw = dyn_cast<SwitchInst>(I)) {
      Value *c = sw->getCondition(), *s = S(c);
      if (isNull(s)) return;
      SmallVector<Constant *, 16> cs;
      std::map<BasicBlock *, int> tgt;
      SmallVector<Constant *, 16> ts;
      for (auto &k : sw->cases()) {
        cs.push_back(ci64(k.getCaseValue()->getZExtValue()));
        int id = tgt.insert({k.getCaseSuccessor(), (int)tgt.size()}).first->second;
        ts.push_back(ci64(id));
      }
      int defid = tgt.count(sw->getDefaultDest()) ? tgt[sw->getDefaultDest()] : (int)tgt.size();
      auto *at = ArrayType::get(I64, cs.size());
      auto *g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cs));
      auto *g2 = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, ts));
      condSym(I, {s}, [&](IRBuilder<> &B) -> Value * {
        B.CreateCall(rt("__sx_switch", VoidTy, {PtrTy, I64, I32, PtrTy, PtrTy, I32, I32}),
                     {s, toI64(B, c), ci32(cs.size()), g, g2, ci32(defid), ci32(site++)}); return nullptr; });
      return;
    }
    if (auto *ev = dyn_cast<ExtractValueInst>(I)) {
      Value *a = ev->getAggregateOperand();
      auto it = sh.find(a);
      if (it == sh.end() || it->second.empty()) return;
      unsigned base = 0;
      Type *t = a->getType();
      for (unsigned ix : ev->indices()) {
        auto *stt = cast<StructType>(t);
        for (unsigned k = 0; k < ix; k++) base += nSlots(stt->getElementType(k));
        t = stt->getElementType(ix);
      }
      unsigned n = nSlots(t);
      Sh r;
      for (unsigned k = 0; k < n; k++) r.push_back(it->second[base + k]);
      sh[I] = r;
      return;
    }
    if (auto *iv = dyn_cast<InsertValueInst>(I)) {
      Value *a = iv->getAggregateOperand(), *v = iv->getInsertedValueOperand();
      unsigned n = nSlots(a->getType());
      if (!n) { concretize(I, v, "insertvalue"); return; }
      Sh r;
      for (unsigned k = 0; k < n; k++) r.push_back(S(a, k));
      unsigned base = 0;
      Type *t = a->getType();
      for (unsigned ix : iv->indices()) {
        auto *stt = cast<StructType>(t);
        for (unsigned k = 0; k < ix; k++) base += nSlots(stt->getElementType(k));
        t = stt->getElementType(ix);
      }
      unsigned m = nSlots(t);
      for (unsigned k = 0; k < m; k++) r[base + k] = S(v, k);
      sh[I] = r;
      return;
    }
    if (auto *fr = dyn_cast<FreezeInst>(I)) {
      auto it = sh.find(fr->getOperand(0));
      if (it != sh.end()) sh[I] = it->second;
      return;
    }
    if (auto *cb = dyn_cast<CallBase>(I)) { visitCall(cb); return; }
    if (auto *r = dyn_cast<ReturnInst>(I)) {
      Value *v = r->getReturnValue();
      if (!v) { return; }
      IRBuilder<> B(I);
      unsigned n = nSlots(v->getType());
      if (!n) { concretize(I, v, "ret"); return; }
      IRBuilder<> B2(I);
      for (unsigned k = 0; k < n && k < 8; k++)
        B2.CreateStore(S(v, k), B2.CreateGEP(ArrayType::get(PtrTy, 8), Rets, {ci64(0), ci64(k)}));
      B2.CreateStore(F, RetFnG);
      return;
    }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
      for (Value *v : I->operands()) concretize(I, v, "atomic");
      Value *p = I->getOperand(0);
      IRBuilder<> B(I);
      B.CreateCall(rt("__sx_concmem", VoidTy, {PtrTy, I64, I32}), {p, ci64(DL.getTypeStoreSize(I->getOperand(1)->getType())), ci32(site++)});
      clearRange(I, p, ci64(DL.getTypeStoreSize(I->getOperand(1)->getType())));
      return;
    }
    if (isa<UnreachableInst>(I) || isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<FenceInst>(I)) return;
    for (Value *v : I->operands()) if (!isa<BasicBlock>(v)) concretize(I, v, "other");
  }

  void visitIntrinsic(IntrinsicInst *I) {
    switch (I->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
      case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap: case Intrinsic::prefetch:
      case Intrinsic::eh_typeid_for: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::objectsize:
        return;
      case Intrinsic::lifetime_start: {
        Value *n = I->getArgOperand(0);
        if (auto *c = dyn_cast<ConstantInt>(n)) if (c->getSExtValue() > 0) clearRange(I->getNextNode(), I->getArgOperand(1), n);
        return;
      }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: {
        auto it = sh.find(I->getArgOperand(0));
        if (it != sh.end()) sh[I] = it->second;
        return;
      }
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        Value *d = I->getArgOperand(0), *s = I->getArgOperand(1), *n = I->getArgOperand(2);
        concretize(I, d, "memcpy"); concretize(I, s, "memcpy"); concretize(I, n, "memcpy");
        IRBuilder<> B(I);
        B.CreateCall(rt("__sx_memcpy", VoidTy, {PtrTy, PtrTy, I64}), {d, s, B.CreateZExtOrTrunc(n, I64)});
        return;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        Value *d = I->getArgOperand(0), *v = I->getArgOperand(1), *n = I->getArgOperand(2);
        concretize(I, d, "memset"); concretize(I, n, "memset");
        IRBuilder<> B(I);
        B.CreateCall(rt("__sx_memset", VoidTy, {PtrTy, I64, PtrTy, I64}),
                     {d, B.CreateZExt(v, I64), S(v), B.CreateZExtOrTrunc(n, I64)});
        return;
      }
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
      case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *sa = S(a), *sb = S(b);
        if (!isScalar(a->getType()) || (isNull(sa) && isNull(sb))) return;
        unsigned op = 0, kind = 0;
        switch (I->getIntrinsicID()) {
          case Intrinsic::umul_with_overflow: op = Instruction::Mul; kind = 0; break;
          case Intrinsic::uadd_with_overflow: op = Instruction::Add; kind = 1; break;
          case Intrinsic::usub_with_overflow: op = Instruction::Sub; kind = 2; break;
          case Intrinsic::smul_with_overflow: op = Instruction::Mul; kind = 3; break;
          case Intrinsic::sadd_with_overflow: op = Instruction::Add; kind = 4; break;
          default: op = Instruction::Sub; kind = 5; break;
        }
        unsigned ty = tyCode(a->getType());
        Sh r;
        r.push_back(condSym(I, {sa, sb}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(rt("__sx_binop", PtrTy, {I32, I32, I64, PtrTy, I64, PtrTy, I32}),
                              {ci32(op), ci32(ty), toI64(B, a), sa, toI64(B, b), sb, ci32(site++)}); }));
        r.push_back(condSym(I, {sa, sb}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(rt("__sx_ovf", PtrTy, {I32, I32, I64, PtrTy, I64, PtrTy, I32}),
                              {ci32(kind), ci32(ty), toI64(B, a), sa, toI64(B, b), sb, ci32(site++)}); }));
        sh[I] = r;
        return;
      }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
      case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat:
      case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::copysign: case Intrinsic::pow: {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *sa = S(a), *sb = S(b);
        if (!isScalar(I->getType())) break;
        if (isNull(sa) && isNull(sb)) return;
        sh[I].push_back(condSym(I, {sa, sb}, [&](IRBuilder<> &B) -> Value * {
          uint32_t k = 0;
          switch (I->getIntrinsicID()) {
            case Intrinsic::smax: k = 1; break; case Intrinsic::smin: k = 2; break;
            case Intrinsic::umax: k = 3; break; case Intrinsic::umin: k = 4; break;
            case Intrinsic::uadd_sat: k = 5; break; case Intrinsic::usub_sat: k = 6; break;
            case Intrinsic::maxnum: k = 7; break; case Intrinsic::minnum: k = 8; break;
            default: k = 0;
          }
          return B.CreateCall(rt("__sx_fun2", PtrTy, {I32, I32, I64, PtrTy, I64, PtrTy, I32}),
                              {ci32(k), ci32(tyCode(I->getType())), toI64(B, a), sa, toI64(B, b), sb, ci32(site++)}); }));
        return;
      }
      case Intrinsic::abs: case Intrinsic::fabs: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap:
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::sqrt:
      case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::bitreverse: {
        Value *a = I->getArgOperand(0), *sa = S(a);
        if (!isScalar(I->getType())) break;
        if (isNull(sa)) return;
        sh[I].push_back(condSym(I, {sa}, [&](IRBuilder<> &B) -> Value * {
          uint32_t k = 0;
          switch (I->getIntrinsicID()) {
            case Intrinsic::abs: k = 2; break; case Intrinsic::fabs: k = 3; break; case Intrinsic::ctpop: k = 4; break;
            case Intrinsic::ctlz: k = 5; break; case Intrinsic::cttz: k = 6; break; case Intrinsic::bswap: k = 7; break;
            case Intrinsic::floor: k = 8; break; case Intrinsic::ceil: k = 9; break; case Intrinsic::trunc: k = 10; break;
            default: k = 0;
          }
          return B.CreateCall(rt("__sx_fun", PtrTy, {I32, I32, I64, PtrTy, I32}),
                              {ci32(k), ci32(tyCode(I->getType())), toI64(B, a), sa, ci32(site++)}); }));
        return;
      }
      case Intrinsic::fmuladd: case Intrinsic::fma: {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *c = I->getArgOperand(2);
        Value *sa = S(a), *sb = S(b), *sc = S(c);
        if (!isScalar(I->getType())) break;
        if (isNull(sa) && isNull(sb) && isNull(sc)) return;
        sh[I].push_back(condSym(I, {sa, sb, sc}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(rt("__sx_fma", PtrTy, {I32, I64, PtrTy, I64, PtrTy, I64, PtrTy, I32}),
                              {ci32(tyCode(I->getType())), toI64(B, a), sa, toI64(B, b), sb, toI64(B, c), sc, ci32(site++)}); }));
        return;
      }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *c = I->getArgOperand(2);
        Value *sa = S(a), *sb = S(b), *sc = S(c);
        if (!isScalar(I->getType())) break;
        if (isNull(sa) && isNull(sb) && isNull(sc)) return;
        concretize(I, c, "fsh");
        sh[I].push_back(condSym(I, {sa, sb}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(rt("__sx_fsh", PtrTy, {I32, I32, I64, PtrTy, I64, PtrTy, I64}),
                              {ci32(I->getIntrinsicID() == Intrinsic::fshl), ci32(tyCode(I->getType())), toI64(B, a), sa, toI64(B, b), sb, toI64(B, c)}); }));
        return;
      }
      default: break;
    }
    for (Value *v : I->args()) if (!v->getType()->isMetadataTy()) concretize(I, v, "intrinsic");
  }

  std::map<Function *, GlobalVariable *> extDesc;

  void visitCall(CallBase *I) {
    if (auto *ii = dyn_cast<IntrinsicInst>(I)) { visitIntrinsic(ii); return; }
    if (I->isInlineAsm()) { for (Value *v : I->args()) concretize(I, v, "asm"); return; }
    Value *callee = I->getCalledOperand();
    Function *fn = dyn_cast<Function>(callee->stripPointerCasts());
    if (fn && fn->getName().starts_with("__sx_")) {
      // __sx_api_*: harness API entry points that take shadows in the argument slots
      if (!fn->getName().starts_with("__sx_api_")) {
        for (Value *v : I->args()) concretize(I, v, "rt");
        return;
      }
    }
    bool api = fn && fn->getName().starts_with("__sx_api_");
    bool ext = fn && fn->isDeclaration() && !api;
    // memcpy family called as a library function
    if (ext && (fn->getName() == "memcpy" || fn->getName() == "memmove" || fn->getName() == "memset")) {
      Value *d = I->getArgOperand(0), *s = I->getArgOperand(1), *n = I->getArgOperand(2);
      concretize(I, d, "memcpy"); concretize(I, n, "memcpy");
      if (fn->getName() == "memset") {
        IRBuilder<> B(I);
        // int value: low byte
        B.CreateCall(rt("__sx_memset", VoidTy, {PtrTy, I64, PtrTy, I64}), {d, B.CreateZExt(s, I64), S(s), n});
      } else {
        concretize(I, s, "memcpy");
        IRBuilder<> B(I);
        B.CreateCall(rt("__sx_memcpy", VoidTy, {PtrTy, PtrTy, I64}), {d, s, n});
      }
      return;
    }
    if (!isa<Constant>(callee)) concretize(I, callee, "callee");
    // symbolic args to a function that turns out not to be instrumented are concretised
    SmallVector<Value *, 8> ss;
    unsigned i = 0;
    for (Value *v : I->args()) {
      if (!isScalar(v->getType()) ) { concretize(I, v, "arg"); ss.push_back(NullS); }
      else if (i >= (unsigned)MAXARGS || (i >= I->getFunctionType()->getNumParams())) { concretize(I, v, "vararg"); ss.push_back(NullS); }
      else ss.push_back(S(v));
      i++;
    }
    bool knownInst = fn && !fn->isDeclaration();
    if (ext) {
      GlobalVariable *&d = extDesc[fn];
      if (!d) {
        Constant *k = ConstantDataArray::getString(C, fn->getName());
        auto *g = new GlobalVariable(M, k->getType(), true, GlobalValue::PrivateLinkage, k);
        StructType *st = StructType::get(C, {I64, PtrTy});
        d = new GlobalVariable(M, st, false, GlobalValue::InternalLinkage,
                               ConstantStruct::get(st, {ci64(0), g}), "__sx_extdesc");
      }
      IRBuilder<> B(I);
      Value *seen = B.CreateLoad(I64, d);
      guarded(I, B.CreateICmpEQ(seen, ci64(0)), [&](IRBuilder<> &TB) -> Value * {
        TB.CreateCall(rt("__sx_ext", VoidTy, {PtrTy, PtrTy}), {d, callee}); return nullptr; });
    }
    if (!knownInst && !api) {
      SmallVector<Value *, 8> cs;
      for (unsigned k = 0; k < ss.size(); k++) if (!isNull(ss[k])) cs.push_back(ss[k]);
      if (!cs.empty()) {
        condSym(I, cs, [&](IRBuilder<> &B) -> Value * {
          for (Value *s : cs)
            B.CreateCall(rt("__sx_callarg", VoidTy, {PtrTy, PtrTy, I32}), {callee, s, ci32(site++)});
          return nullptr; });
      }
    }
    {
      IRBuilder<> B(I);
      for (unsigned k = 0; k < ss.size() && k < (unsigned)MAXARGS; k++) {
        Value *s = ss[k];
        if (I->isByValArgument(k)) s = I->getArgOperand(k);
        B.CreateStore(s, B.CreateGEP(ArrayType::get(PtrTy, MAXARGS), Args, {ci64(0), ci64(k)}));
      }
      B.CreateStore(callee, CalleeG);
      B.CreateStore(NullS, RetFnG);
    }
    if (fn && fn->getName() == "__cxa_allocate_exception") { clearRange(after(I), I, I->getArgOperand(0)); return; }
    Type *rt_ = I->getType();
    unsigned n = nSlots(rt_);
    if (n) {
      Instruction *pos;
      if (auto *iv = dyn_cast<InvokeInst>(I)) pos = &*iv->getNormalDest()->getFirstInsertionPt();
      else pos = I->getNextNode();
      IRBuilder<> B(pos);
      Value *m = B.CreateICmpEQ(B.CreateLoad(PtrTy, RetFnG), callee);
      for (unsigned k = 0; k < n && k < 8; k++) {
        Value *r = B.CreateLoad(PtrTy, B.CreateGEP(ArrayType::get(PtrTy, 8), Rets, {ci64(0), ci64(k)}));
        sh[I].push_back(B.CreateSelect(m, r, NullS));
      }
    }
  }
};

struct SxPass : PassInfoMixin<SxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Inst i(M);
    i.run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder &PB) {
            if (getenv("SX_PASS_EP"))
              PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
            PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (n != "sx") return false;
              MPM.addPass(SxPass());
              return true;
            });
          }};
}
