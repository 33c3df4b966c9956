// symx: LLVM pass that rewrites a module so that it executes natively on
// concrete values and symbolically (through shadow expressions kept by the
// runtime, runtime.cpp) wherever a value depends on symbolic input.
//
// Every int(<=64)/float/double SSA value v gets a shadow: an i64 that is 0 when
// v is concrete or a handle of an expression otherwise.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <functional>
#include <map>
#include <set>
using namespace llvm;

static cl::opt<std::string> NamesFile("symx-names", cl::desc("function name table"), cl::init(""));
static cl::opt<std::string> NativesFile("symx-natives", cl::desc("native function list"), cl::init(""));

enum Op : unsigned { // must match runtime.cpp
  OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM,
  OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_USUBSAT, OP_UADDSAT,
  OP_UADDO, OP_USUBO, OP_UMULO, OP_SADDO, OP_SSUBO, OP_SMULO, OP_FSHL, OP_FMIN, OP_FMAX, OP_COPYSIGN
};
enum COp : unsigned { C_ZEXT = 1, C_SEXT, C_TRUNC, C_SITOFP, C_UITOFP, C_FPTOSI, C_FPTOUI, C_FPEXT, C_FPTRUNC, C_BITCAST,
  C_FNEG, C_FABS, C_FLOOR, C_CEIL, C_TRUNCF, C_ROUND, C_RINT, C_BSWAP, C_SQRT, C_ABS, C_ISFP, C_CTPOP };

namespace {

static bool scalarOk(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth() <= 64;
  return T->isFloatTy() || T->isDoubleTy();
}
static unsigned bitsOf(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isFloatTy()) return 32;
  return 64;
}
static void leaves(Type *T, SmallVectorImpl<Type *> &out) {
  if (auto *S = dyn_cast<StructType>(T)) { for (Type *E : S->elements()) leaves(E, out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { for (uint64_t i = 0; i < A->getNumElements(); ++i) leaves(A->getElementType(), out); return; }
  out.push_back(T);
}
static unsigned leafIndex(Type *T, ArrayRef<unsigned> idx) {
  unsigned off = 0;
  for (unsigned i : idx) {
    if (auto *S = dyn_cast<StructType>(T)) {
      for (unsigned k = 0; k < i; ++k) { SmallVector<Type *, 8> l; leaves(S->getElementType(k), l); off += l.size(); }
      T = S->getElementType(i);
    } else {
      auto *A = cast<ArrayType>(T);
      SmallVector<Type *, 8> l; leaves(A->getElementType(), l); off += l.size() * i;
      T = A->getElementType();
    }
  }
  return off;
}
static bool trackable(Type *T) {
  if (T->isVoidTy()) return false;
  SmallVector<Type *, 8> l; leaves(T, l);
  if (l.size() > 8) return false;
  for (Type *t : l) if (scalarOk(t)) return true;
  return false;
}

static const std::set<std::string> kModels = {
  "memcmp","bcmp","strcmp","strncmp","strlen","memchr","strchr","wmemcmp","wcslen","wmemchr","strrchr",
  "tolower","toupper","isspace","isdigit","isalpha","isalnum","isupper","islower","isxdigit","ispunct","isprint","iscntrl","isgraph",
  "iswspace","iswdigit","iswalpha","iswalnum","iswupper","iswlower","towlower","towupper",
  "strtod","strtol","strtoul","strtoll","strtoull","strtof","atoi","atol","atof",
  "memcpy","memmove","memset","wmemcpy","wmemmove","wmemset","fmod","floor","ceil","round","trunc","snprintf","vsnprintf","strcasecmp","strncasecmp","strcpy","strncpy","strstr","strspn","strcspn","strpbrk","atoll"
};
static const std::map<std::string, std::string> kRename = {
  {"_ZSt14__convert_to_vIdEvPKcRT_RSt12_Ios_IostateRKP15__locale_struct", "sx_m_convert_d"},
  {"_ZSt14__convert_to_vIfEvPKcRT_RSt12_Ios_IostateRKP15__locale_struct", "sx_m_convert_f"},
  {"strtod", "sx_m_strtod"}, {"strtof", "sx_m_strtof"},
  {"strtol", "sx_m_strtol"}, {"strtoul", "sx_m_strtoul"}, {"strtoll", "sx_m_strtoll"}, {"strtoull", "sx_m_strtoull"},
  {"__isoc23_strtol", "sx_m_strtol"}, {"__isoc23_strtoul", "sx_m_strtoul"}, {"__isoc23_strtoll", "sx_m_strtoll"}, {"__isoc23_strtoull", "sx_m_strtoull"},
  {"_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4findEcm", "sx_m_sfind"},
  {"_ZNKSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE4findEwm", "sx_m_wsfind"},
};

struct Symx {
  Module &M;
  LLVMContext &C;
  Type *I64, *I32, *I8, *I1, *VoidT; PointerType *Ptr;
  GlobalVariable *Pages, *Callee, *Args, *Ret, *Cov;
  FunctionCallee Bin, Cmp, Cast_, Select, Load, Store, Branch, Conc, ConcArg, Memcpy, Memset, Clear, ConcMem, DivChk, TblLoad, Unsup, FCmp, SwitchF, ICall;
  std::vector<std::string> names;
  std::set<std::string> natives;
  DenseMap<Function *, unsigned> fid;

  Symx(Module &M) : M(M), C(M.getContext()) {
    I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I8 = Type::getInt8Ty(C); I1 = Type::getInt1Ty(C);
    VoidT = Type::getVoidTy(C); Ptr = PointerType::get(C, 0);
    auto G = [&](const char *n, Type *T) { auto *g = cast<GlobalVariable>(M.getOrInsertGlobal(n, T)); g->setDSOLocal(true); return g; };
    Pages = G("sx_pages", ArrayType::get(I8, 65536));
    Callee = G("sx_callee", Ptr);
    Args = G("sx_args", ArrayType::get(I64, 64));
    Ret = G("sx_ret", ArrayType::get(I64, 16));
    Cov = G("sx_cov", Ptr);
    auto F = [&](const char *n, Type *R, ArrayRef<Type *> A) {
      FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(R, A, false));
      cast<Function>(f.getCallee())->addFnAttr(Attribute::NoUnwind);
      return f; };
    Bin = F("sx_bin", I64, {I32, I32, I64, I64, I64, I64});
    Cmp = F("sx_cmp", I64, {I32, I32, I64, I64, I64, I64});
    FCmp = F("sx_fcmp", I64, {I32, I32, I64, I64, I64, I64});
    Cast_ = F("sx_cast", I64, {I32, I32, I32, I64});
    Select = F("sx_select", I64, {I32, I64, I64, I64, I64, I64});
    Load = F("sx_load", I64, {Ptr, I32});
    Store = F("sx_store", VoidT, {Ptr, I32, I64});
    Branch = F("sx_branch", I8, {I64, I32});
    Conc = F("sx_conc", I64, {I64});
    ICall = F("sx_icall", VoidT, {Ptr});
    ConcArg = F("sx_conc_arg", I64, {Ptr, I64, I64});
    Memcpy = F("sx_memcpy", VoidT, {Ptr, Ptr, I64});
    Memset = F("sx_memset", VoidT, {Ptr, I64, I64});
    Clear = F("sx_clear", VoidT, {Ptr, I64});
    ConcMem = F("sx_concmem", VoidT, {Ptr, I64});
    DivChk = F("sx_divchk", VoidT, {I32, I32, I64, I64, I64, I64});
    TblLoad = F("sx_tbl_load", I64, {Ptr, I64, I64, I64, I64, I32, Ptr, I32});
    SwitchF = F("sx_switch", I64, {I64, I32, Ptr, Ptr, I32});
    Unsup = F("sx_unsup", VoidT, {I32});
  }

  bool isRuntime(Function &F) { return F.getName().starts_with("sx_"); }
  bool instrumented(Function *F) { return F && !F->isDeclaration() && !isRuntime(*F) && !F->getName().starts_with("asan.") && fid.count(F); }

  // ---- per-function state
  Function *Fn;
  DenseSet<Value *> may;                                   // values that may be symbolic
  DenseMap<Value *, SmallVector<Value *, 2>> sh;           // leaf shadows
  Value *isMe;
  bool wantBody = false;

  static unsigned curLine(Instruction *I) { return 0; }

  // Is this callee something whose return shadow must be read?
  enum CK { K_INSTR, K_MODEL, K_NATIVE, K_INDIRECT, K_INTRIN, K_API };
  CK kind(CallBase *CB) {
    if (CB->isInlineAsm()) return K_NATIVE;
    Function *F = CB->getCalledFunction();
    if (!F) {
      if (auto *FF = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) F = FF; else return K_INDIRECT;
    }
    if (F->isIntrinsic()) return K_INTRIN;
    if (F->getName().starts_with("sx_m_")) return K_MODEL;
    if (F->getName().starts_with("symx_")) return F->isDeclaration() ? K_API : K_INSTR;
    if (F->isDeclaration()) return K_NATIVE;
    return K_INSTR;
  }

  bool retMay(CallBase *CB) {
    if (!trackable(CB->getType())) return false;
    CK k = kind(CB);
    if (k == K_NATIVE) return false;
    if (k == K_INTRIN) {
      for (Value *a : CB->args()) if (may.count(a)) return true;
      return false;
    }
    return true;
  }

  void computeMay() {
    may.clear();
    for (Argument &A : Fn->args()) if (trackable(A.getType())) may.insert(&A);
    bool ch = true;
    while (ch) {
      ch = false;
      for (Instruction &I : instructions(*Fn)) {
        if (may.count(&I) || !trackable(I.getType())) continue;
        bool m = false;
        if (isa<LoadInst>(I)) m = scalarOk(I.getType());
        else if (auto *CB = dyn_cast<CallBase>(&I)) m = retMay(CB);
        else if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<BinaryOperator>(I) || isa<CmpInst>(I) || isa<UnaryOperator>(I) || isa<FreezeInst>(I) ||
                 isa<InsertValueInst>(I) || isa<ExtractValueInst>(I)) {
          for (Value *o : I.operands()) if (may.count(o)) m = true;
        } else if (auto *CI = dyn_cast<CastInst>(&I)) {
          m = may.count(CI->getOperand(0)) && scalarOk(CI->getOperand(0)->getType());
        }
        if (m) { may.insert(&I); ch = true; }
      }
    }
  }

  Value *z() { return ConstantInt::get(I64, 0); }

  SmallVector<Value *, 2> shadow(Value *V) {
    auto it = sh.find(V);
    if (it != sh.end()) return it->second;
    SmallVector<Type *, 8> l; leaves(V->getType(), l);
    return SmallVector<Value *, 2>(l.size(), z());
  }
  Value *s1(Value *V) { return shadow(V)[0]; }
  static bool isZ(Value *V) { auto *c = dyn_cast<ConstantInt>(V); return c && c->isZero(); }

  // build a cold block executed when cond (i1) holds; returns phi(orig, newvals)
  Value *diamond(Instruction *before, Value *cond, Value *orig, std::function<Value *(IRBuilder<> &)> f) {
    Instruction *term = SplitBlockAndInsertIfThen(cond, before, false, coldW());
    IRBuilder<> B(term);
    Value *r = f(B);
    if (!orig) return nullptr;
    IRBuilder<> P(&*term->getSuccessor(0)->begin());
    PHINode *phi = PHINode::Create(orig->getType(), 2, "", &*term->getSuccessor(0)->begin());
    phi->addIncoming(r, term->getParent());
    for (BasicBlock *p : predecessors(term->getSuccessor(0))) if (p != term->getParent()) phi->addIncoming(orig, p);
    return phi;
  }
  MDNode *coldW() { return MDBuilder(C).createBranchWeights(1, 100000); }
  Value *nz(IRBuilder<> &B, ArrayRef<Value *> v) {
    Value *acc = nullptr;
    for (Value *x : v) { if (isZ(x)) continue; acc = acc ? B.CreateOr(acc, x) : x; }
    if (!acc) return ConstantInt::getFalse(C);
    return B.CreateICmpNE(acc, z());
  }
  Value *toBits(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isFloatTy()) V = B.CreateBitCast(V, I32);
    else if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    return B.CreateZExt(V, I64);
  }
  Value *fromBits(IRBuilder<> &B, Value *V, Type *T) {
    if (T->isFloatTy()) return B.CreateBitCast(B.CreateTrunc(V, I32), T);
    if (T->isDoubleTy()) return B.CreateBitCast(V, T);
    return B.CreateTrunc(V, T);
  }
  Value *i32c(unsigned v) { return ConstantInt::get(I32, v); }

  // replace operand k of I by a concretized version
  void concOperand(Instruction *I, unsigned k) {
    Value *V = I->getOperand(k);
    if (!may.count(V)) return;
    SmallVector<Type *, 8> l; leaves(V->getType(), l);
    if (!scalarOk(V->getType())) {
      // aggregate: concretize each leaf
      auto S = shadow(V);
      // only struct of scalars one level deep
      if (auto *ST = dyn_cast<StructType>(V->getType())) {
        Value *cur = V;
        for (unsigned i = 0; i < ST->getNumElements(); ++i) {
          if (!scalarOk(ST->getElementType(i)) || isZ(S[i])) continue;
          IRBuilder<> B(I);
          Value *el = B.CreateExtractValue(cur, {i});
          Value *c = B.CreateICmpNE(S[i], z());
          Value *nv = diamond(I, c, el, [&](IRBuilder<> &B) { return fromBits(B, B.CreateCall(Conc, {S[i]}), el->getType()); });
          IRBuilder<> B2(I);
          cur = B2.CreateInsertValue(cur, nv, {i});
        }
        I->setOperand(k, cur);
      }
      return;
    }
    Value *S = s1(V);
    if (isZ(S)) return;
    IRBuilder<> B(I);
    Value *c = B.CreateICmpNE(S, z());
    Value *nv = diamond(I, c, V, [&](IRBuilder<> &B) { return fromBits(B, B.CreateCall(Conc, {S}), V->getType()); });
    I->setOperand(k, nv);
  }

  Value *pageFlag(IRBuilder<> &B, Value *p) {
    Value *a = B.CreatePtrToInt(p, I64);
    Value *ix = B.CreateAnd(B.CreateLShr(a, 12), ConstantInt::get(I64, 0xffff));
    Value *g = B.CreateGEP(I8, Pages, ix);
    auto *L = B.CreateLoad(I8, g); nosan(L);
    return L;
  }
  void nosan(Instruction *I) { I->setMetadata(LLVMContext::MD_nosanitize, MDNode::get(C, {})); }
  Value *argSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstGEP2_64(ArrayType::get(I64, 64), Args, 0, i); }
  Value *retSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstGEP2_64(ArrayType::get(I64, 16), Ret, 0, i); }

  void run() {
    std::vector<Function *> fns;
    for (Function &F : M) if (!F.isDeclaration() && !isRuntime(F)) {
      if (F.getName() == "asan.module_ctor") continue;
      fid[&F] = names.size(); names.push_back(F.getName().str()); fns.push_back(&F);
    }
    // redirect models
    for (auto &kv : kRename)
      if (Function *f = M.getFunction(kv.first)) if (f->isDeclaration()) {
        Function *m = cast<Function>(M.getOrInsertFunction(kv.second, f->getFunctionType()).getCallee()); f->replaceAllUsesWith(m); }
    for (auto &n : kModels) {
      Function *f = M.getFunction(n);
      if (!f || !f->isDeclaration()) continue;
      Function *m = cast<Function>(M.getOrInsertFunction("sx_m_" + n, f->getFunctionType()).getCallee());
      SmallVector<Use *, 16> us;
      for (Use &u : f->uses()) if (auto *cb = dyn_cast<CallBase>(u.getUser())) if (cb->isCallee(&u)) us.push_back(&u);
      for (Use *u : us) { auto *cb = cast<CallBase>(u->getUser()); u->set(m); (void)cb; }
    }
    // instrumentation gives every function side effects: drop attributes that say otherwise
    auto strip = [&](auto &X) { X.removeFnAttr(Attribute::Memory); X.removeFnAttr(Attribute::WillReturn); X.removeFnAttr(Attribute::Speculatable); X.removeFnAttr(Attribute::NoSync); X.removeFnAttr(Attribute::NoFree); X.removeFnAttr(Attribute::NoCallback); };
    for (Function &F : M) { if (F.isIntrinsic()) continue; strip(F);
      for (Argument &A : F.args()) for (auto K : {Attribute::ReadOnly, Attribute::ReadNone, Attribute::WriteOnly, Attribute::NoAlias}) if (A.hasAttribute(K) && K != Attribute::NoAlias) A.removeAttr(K);
      for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { if (isa<IntrinsicInst>(CB)) continue; strip(*CB);
        for (unsigned i = 0; i < CB->arg_size(); ++i) for (auto K : {Attribute::ReadOnly, Attribute::ReadNone, Attribute::WriteOnly}) CB->removeParamAttr(i, K); } }
    for (Function *F : fns) doFunction(*F);
    // registration table
    SmallVector<Constant *, 0> tab;
    for (Function *F : fns) tab.push_back(F);
    auto *AT = ArrayType::get(Ptr, tab.size());
    auto *GT = new GlobalVariable(M, AT, true, GlobalValue::InternalLinkage, ConstantArray::get(AT, tab), "sx_fn_table");
    FunctionCallee reg = M.getOrInsertFunction("sx_register", FunctionType::get(VoidT, {Ptr, I64}, false));
    Function *ctor = Function::Create(FunctionType::get(VoidT, false), GlobalValue::InternalLinkage, "sx_ctor", M);
    IRBuilder<> B(BasicBlock::Create(C, "", ctor));
    B.CreateCall(reg, {GT, ConstantInt::get(I64, tab.size())});
    B.CreateRetVoid();
    appendToGlobalCtors(M, ctor, 0);
    if (!NamesFile.empty()) { std::error_code ec; raw_fd_ostream o(NamesFile, ec); for (auto &n : names) o << n << "\n"; }
    if (!NativesFile.empty()) { std::error_code ec; raw_fd_ostream o(NativesFile, ec); for (auto &n : natives) o << n << "\n"; }
  }

  std::vector<std::pair<PHINode *, SmallVector<Value *, 2>>> phis;

  void doFunction(Function &F) {
    Fn = &F; sh.clear(); phis.clear();
    computeMay();
    // collect
    std::vector<Instruction *> list;
    {
      ReversePostOrderTraversal<Function *> RPO(&F);
      for (BasicBlock *BB : RPO) for (Instruction &I : *BB) list.push_back(&I);
    }
    // prepare invokes: give normal edges a private block
    for (Instruction *I : list) if (auto *II = dyn_cast<InvokeInst>(I)) {
      BasicBlock *D = II->getNormalDest();
      BasicBlock *NB = BasicBlock::Create(C, "sxn", &F, D);
      BranchInst::Create(D, NB);
      II->setNormalDest(NB);
      D->replacePhiUsesWith(II->getParent(), NB);
    }
    // entry
    Instruction *E = &*F.getEntryBlock().getFirstInsertionPt();
    // keep static allocas first
    { SmallVector<AllocaInst *, 16> sa;
      for (Instruction &I : F.getEntryBlock()) if (auto *AI = dyn_cast<AllocaInst>(&I)) if (AI->isStaticAlloca()) sa.push_back(AI);
      for (AllocaInst *AI : llvm::reverse(sa)) { AI->moveBefore(F.getEntryBlock(), F.getEntryBlock().getFirstInsertionPt()); }
      E = &*F.getEntryBlock().getFirstInsertionPt(); }
    while (isa<AllocaInst>(E)) E = E->getNextNode();
    IRBuilder<> B(E);
    bool anyArg = false;
    for (Argument &A : F.args()) if (may.count(&A)) anyArg = true;
    bool rt = trackable(F.getReturnType());
    isMe = nullptr;
    {
      auto *base = B.CreateLoad(Ptr, Cov); nosan(base);
      Value *slot = B.CreateConstGEP1_64(I8, base, fid[&F]);
      auto *st = B.CreateStore(ConstantInt::get(I8, 1), slot); nosan(st);
    }
    if (anyArg || rt) {
      auto *tok = B.CreateLoad(Ptr, Callee); nosan(tok);
      auto *st = B.CreateStore(ConstantPointerNull::get(Ptr), Callee); nosan(st);
      isMe = B.CreateICmpEQ(tok, &F);
      unsigned slot = 0;
      for (Argument &A : F.args()) {
        SmallVector<Type *, 8> l; 
        if (!trackable(A.getType())) continue;
        leaves(A.getType(), l);
        SmallVector<Value *, 2> S;
        for (Type *t : l) {
          if (slot < 64 && scalarOk(t)) {
            auto *ld = B.CreateLoad(I64, argSlot(B, slot)); nosan(ld);
            S.push_back(B.CreateSelect(isMe, ld, z()));
          } else S.push_back(z());
          slot++;
        }
        sh[&A] = S;
      }
    }
    // clear shadows of static allocas and byval arguments
    {
      SmallVector<std::pair<Value *, uint64_t>, 16> al;
      for (Instruction *I : list) if (auto *AI = dyn_cast<AllocaInst>(I)) if (AI->isStaticAlloca() && AI->getParent() == &F.getEntryBlock()) {
        auto sz = AI->getAllocationSize(M.getDataLayout()); if (sz && sz->getFixedValue()) al.push_back({AI, sz->getFixedValue()}); }
      for (Argument &A : F.args()) if (A.hasByValAttr()) al.push_back({&A, M.getDataLayout().getTypeAllocSize(A.getParamByValType())});
      for (auto &p : al) {
        IRBuilder<> B(E);
        Value *f1 = pageFlag(B, p.first);
        Value *f2 = pageFlag(B, B.CreateConstGEP1_64(I8, p.first, p.second - 1));
        Value *c = B.CreateICmpNE(B.CreateOr(f1, f2), ConstantInt::get(I8, 0));
        diamond(E, c, nullptr, [&](IRBuilder<> &B) -> Value * { B.CreateCall(Clear, {p.first, ConstantInt::get(I64, p.second)}); return nullptr; });
      }
    }
    for (Instruction *I : list) visit(I);
    for (auto &p : phis) {
      PHINode *P = p.first;
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
        auto S = shadow(P->getIncomingValue(i));
        for (unsigned k = 0; k < p.second.size(); ++k)
          if (auto *sp = dyn_cast<PHINode>(p.second[k])) sp->addIncoming(S[k], P->getIncomingBlock(i));
      }
    }
  }

  void set1(Value *V, Value *s) { sh[V] = SmallVector<Value *, 2>{s}; }

  void visit(Instruction *I) {
    switch (I->getOpcode()) {
    case Instruction::PHI: return visitPhi(cast<PHINode>(I));
    case Instruction::Load: return visitLoad(cast<LoadInst>(I));
    case Instruction::Store: return visitStore(cast<StoreInst>(I));
    case Instruction::Select: return visitSelect(cast<SelectInst>(I));
    case Instruction::ICmp: case Instruction::FCmp: return visitCmp(cast<CmpInst>(I));
    case Instruction::Br: {
      auto *B = cast<BranchInst>(I);
      if (B->isConditional() && may.count(B->getCondition()) && !isZ(s1(B->getCondition()))) {
        Value *S = s1(B->getCondition());
        IRBuilder<> IB(I);
        Value *c = IB.CreateICmpNE(S, z());
        Value *cond = B->getCondition();
        unsigned line = I->getDebugLoc() ? I->getDebugLoc().getLine() : 0;
        Value *nv = diamond(I, c, cond, [&](IRBuilder<> &B2) { return B2.CreateTrunc(B2.CreateCall(Branch, {S, B2.CreateZExt(cond, I32)}), I1); });
        B->setCondition(nv);
      }
      return;
    }
    case Instruction::Switch: visitSwitch(cast<SwitchInst>(I)); return;
    case Instruction::Ret: return visitRet(cast<ReturnInst>(I));
    case Instruction::Call: case Instruction::Invoke: return visitCall(cast<CallBase>(I));
    case Instruction::GetElementPtr: return visitGEP(cast<GetElementPtrInst>(I));
    case Instruction::Alloca: {
      auto *A = cast<AllocaInst>(I);
      if (!A->isStaticAlloca()) {
        concOperand(I, 0);
        IRBuilder<> B(I->getNextNode());
        B.CreateCall(Clear, {A, B.CreateMul(B.CreateZExtOrTrunc(A->getArraySize(), I64), ConstantInt::get(I64, M.getDataLayout().getTypeAllocSize(A->getAllocatedType())))});
      }
      return;
    }
    case Instruction::ExtractValue: {
      if (!may.count(I)) { return; }
      auto *X = cast<ExtractValueInst>(I);
      auto S = shadow(X->getAggregateOperand());
      unsigned o = leafIndex(X->getAggregateOperand()->getType(), X->getIndices());
      SmallVector<Type *, 8> l; leaves(I->getType(), l);
      SmallVector<Value *, 2> R; for (unsigned k = 0; k < l.size(); ++k) R.push_back(S[o + k]);
      sh[I] = R; return;
    }
    case Instruction::InsertValue: {
      if (!may.count(I)) return;
      auto *X = cast<InsertValueInst>(I);
      auto S = shadow(X->getAggregateOperand());
      unsigned o = leafIndex(I->getType(), X->getIndices());
      auto V = shadow(X->getInsertedValueOperand());
      for (unsigned k = 0; k < V.size(); ++k) S[o + k] = V[k];
      sh[I] = S; return;
    }
    case Instruction::Freeze:
      if (may.count(I)) sh[I] = shadow(I->getOperand(0));
      return;
    case Instruction::FNeg:
      if (may.count(I)) {
        if (!scalarOk(I->getType())) { concOperand(I, 0); return; }
        unary(I, C_FNEG, I->getOperand(0));
      }
      return;
    case Instruction::AtomicRMW: {
      auto *A = cast<AtomicRMWInst>(I);
      concOperand(I, 1);
      IRBuilder<> B(I);
      Value *f = B.CreateICmpNE(pageFlag(B, A->getPointerOperand()), ConstantInt::get(I8, 0));
      diamond(I, f, nullptr, [&](IRBuilder<> &B) -> Value * { B.CreateCall(ConcMem, {A->getPointerOperand(), ConstantInt::get(I64, M.getDataLayout().getTypeStoreSize(A->getType()))}); return nullptr; });
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto *A = cast<AtomicCmpXchgInst>(I);
      concOperand(I, 1); concOperand(I, 2);
      IRBuilder<> B(I);
      Value *f = B.CreateICmpNE(pageFlag(B, A->getPointerOperand()), ConstantInt::get(I8, 0));
      diamond(I, f, nullptr, [&](IRBuilder<> &B) -> Value * { B.CreateCall(ConcMem, {A->getPointerOperand(), ConstantInt::get(I64, M.getDataLayout().getTypeStoreSize(A->getNewValOperand()->getType()))}); return nullptr; });
      return;
    }
    default: break;
    }
    if (auto *BO = dyn_cast<BinaryOperator>(I)) return visitBin(BO);
    if (auto *CI = dyn_cast<CastInst>(I)) return visitCast(CI);
    // anything else: concretize every possibly-symbolic operand
    if (I->isTerminator() && (isa<ResumeInst>(I) || isa<UnreachableInst>(I))) return;
    if (isa<LandingPadInst>(I)) return;
    for (unsigned k = 0; k < I->getNumOperands(); ++k) concOperand(I, k);
  }

  void visitSwitch(SwitchInst *S) {
    Value *c = S->getCondition();
    if (!may.count(c) || isZ(s1(c))) return;
    Value *sc = s1(c);
    DenseMap<BasicBlock *, unsigned> ids; ids[S->getDefaultDest()] = 0;
    SmallVector<Constant *, 16> vals, succ;
    for (auto &cs : S->cases()) {
      unsigned id = ids.try_emplace(cs.getCaseSuccessor(), ids.size()).first->second;
      vals.push_back(ConstantInt::get(I64, cs.getCaseValue()->getZExtValue())); succ.push_back(ConstantInt::get(I64, id)); }
    auto mk = [&](SmallVectorImpl<Constant *> &v) { auto *AT = ArrayType::get(I64, v.size()); return new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, v), "sxsw"); };
    if (vals.empty()) return;
    GlobalVariable *gv = mk(vals), *gs = mk(succ);
    IRBuilder<> B(S);
    Value *f = B.CreateICmpNE(sc, z());
    unsigned n = vals.size(), w = bitsOf(c->getType());
    Value *nv = diamond(S, f, c, [&](IRBuilder<> &B) { return fromBits(B, B.CreateCall(SwitchF, {sc, i32c(w), gv, gs, i32c(n)}), c->getType()); });
    S->setCondition(nv);
  }
  void visitPhi(PHINode *P) {
    if (!may.count(P)) return;
    SmallVector<Type *, 8> l; leaves(P->getType(), l);
    SmallVector<Value *, 2> S;
    for (Type *t : l) {
      if (!scalarOk(t)) { S.push_back(z()); continue; }
      PHINode *sp = PHINode::Create(I64, P->getNumIncomingValues(), "", P);
      S.push_back(sp);
    }
    sh[P] = S; phis.push_back({P, S});
  }

  // returns (base, idxValue, stride, offset) if GEP is usable as a symbolic table index
  struct Tbl { Value *base; Value *idx; int64_t stride; int64_t off; };
  DenseMap<Value *, Tbl> tbls;
  void visitGEP(GetElementPtrInst *G) {
    unsigned nsym = 0, which = 0;
    if (G->getType()->isVectorTy()) return;
    for (unsigned k = 1; k < G->getNumOperands(); ++k)
      if (may.count(G->getOperand(k)) && !isZ(s1(G->getOperand(k)))) { nsym++; which = k; }
    if (!nsym) return;
    bool onlyLoads = nsym == 1;
    if (onlyLoads) for (User *u : G->users()) {
      auto *L = dyn_cast<LoadInst>(u);
      if (!L || L->isVolatile() || !scalarOk(L->getType()) || L->isAtomic()) { onlyLoads = false; break; }
    }
    if (onlyLoads) {
      const DataLayout &DL = M.getDataLayout();
      MapVector<Value *, APInt> var; APInt cst(64, 0);
      if (G->collectOffset(DL, 64, var, cst) && var.size() == 1 && var.begin()->first == G->getOperand(which)) {
        tbls[G] = Tbl{G->getPointerOperand(), G->getOperand(which), (int64_t)var.begin()->second.getSExtValue(), cst.getSExtValue()};
        return; // native GEP value may be garbage; loads are handled in visitLoad
      }
    }
    for (unsigned k = 1; k < G->getNumOperands(); ++k) concOperand(G, k);
  }

  void visitLoad(LoadInst *L) {
    Value *p = L->getPointerOperand();
    Type *T = L->getType();
    uint64_t n = M.getDataLayout().getTypeStoreSize(T);
    auto it = tbls.find(p);
    L->dropUnknownNonDebugMetadata();
    if (it != tbls.end()) {
      Tbl t = it->second;
      Value *is = s1(t.idx);
      IRBuilder<> B(L);
      // slot for a safe pointer
      IRBuilder<> EB(&*Fn->getEntryBlock().getFirstInsertionPt());
      AllocaInst *pp = EB.CreateAlloca(Ptr);
      Value *c = B.CreateICmpNE(is, z());
      Instruction *term = SplitBlockAndInsertIfThen(c, L, false, coldW());
      IRBuilder<> CB(term);
      auto *st = CB.CreateStore(t.base, pp); nosan(st);
      Value *r = CB.CreateCall(TblLoad, {t.base, is, ConstantInt::get(I64, bitsOf(t.idx->getType())),
                                         ConstantInt::get(I64, t.stride), ConstantInt::get(I64, t.off), i32c(n), pp, i32c(T->isIntegerTy() ? bitsOf(T) : n * 8)});
      auto *np = CB.CreateLoad(Ptr, pp); nosan(np);
      BasicBlock *tail = term->getSuccessor(0);
      PHINode *ph = PHINode::Create(Ptr, 2, "", &*tail->begin());
      PHINode *sp = PHINode::Create(I64, 2, "", &*tail->begin());
      for (BasicBlock *pr : predecessors(tail)) {
        if (pr == term->getParent()) { ph->addIncoming(np, pr); sp->addIncoming(r, pr); }
        else { ph->addIncoming(p, pr); sp->addIncoming(z(), pr); }
      }
      L->setOperand(0, ph);
      // ordinary shadow check when the index is concrete
      IRBuilder<> B2(L);
      Value *f = B2.CreateAnd(B2.CreateICmpEQ(is, z()), B2.CreateICmpNE(pageFlag(B2, ph), ConstantInt::get(I8, 0)));
      Value *s = diamond(L, f, sp, [&](IRBuilder<> &B) { return shLoad(B, ph, T, n); });
      set1(L, s);
      return;
    }
    IRBuilder<> B(L);
    if (scalarOk(T)) {
      // statically constant memory never carries shadows
      if (auto *g = dyn_cast<GlobalVariable>(p->stripInBoundsOffsets())) if (g->isConstant()) { set1(L, z()); return; }
      if (L->isVolatile() && false) return;
      Value *f = B.CreateICmpNE(pageFlag(B, p), ConstantInt::get(I8, 0));
      Value *s = diamond(L, f, z(), [&](IRBuilder<> &B) { return shLoad(B, p, T, n); });
      set1(L, s);
    } else {
      Value *f = B.CreateICmpNE(pageFlag(B, p), ConstantInt::get(I8, 0));
      diamond(L, f, nullptr, [&](IRBuilder<> &B) -> Value * { B.CreateCall(ConcMem, {p, ConstantInt::get(I64, n)}); return nullptr; });
    }
  }
  Value *shLoad(IRBuilder<> &B, Value *p, Type *T, uint64_t n) {
    Value *s = B.CreateCall(Load, {p, i32c(n)});
    unsigned w = bitsOf(T);
    if (w != n * 8) s = B.CreateCall(Cast_, {i32c(C_TRUNC), i32c(n * 8), i32c(w), s});
    return s;
  }
  void visitStore(StoreInst *S) {
    Value *v = S->getValueOperand(), *p = S->getPointerOperand();
    Type *T = v->getType();
    uint64_t n = M.getDataLayout().getTypeStoreSize(T);
    if (scalarOk(T)) {
      Value *s = may.count(v) ? s1(v) : z();
      IRBuilder<> B(S);
      Value *f = B.CreateICmpNE(pageFlag(B, p), ConstantInt::get(I8, 0));
      if (!isZ(s)) f = B.CreateOr(f, B.CreateICmpNE(s, z()));
      diamond(S, f, nullptr, [&](IRBuilder<> &B) -> Value * {
        Value *x = s; unsigned w = bitsOf(T);
        if (w != n * 8 && !isZ(s)) x = B.CreateCall(Cast_, {i32c(C_ZEXT), i32c(w), i32c(n * 8), s});
        B.CreateCall(Store, {p, i32c(n), x}); return nullptr; });
    } else {
      concOperand(S, 0);
      IRBuilder<> B(S);
      Value *f = B.CreateICmpNE(pageFlag(B, p), ConstantInt::get(I8, 0));
      diamond(S, f, nullptr, [&](IRBuilder<> &B) -> Value * { B.CreateCall(Clear, {p, ConstantInt::get(I64, n)}); return nullptr; });
    }
  }
  void visitSelect(SelectInst *S) {
    Value *c = S->getCondition();
    if (c->getType()->isVectorTy()) return;
    Value *sc = may.count(c) ? s1(c) : z();
    if (!scalarOk(S->getType())) {
      if (!isZ(sc)) concBranchOperand(S, 0);
      if (trackable(S->getType()) && may.count(S)) {
        auto a = shadow(S->getTrueValue()), b = shadow(S->getFalseValue());
        IRBuilder<> B(S);
        SmallVector<Value *, 2> R;
        for (unsigned k = 0; k < a.size(); ++k) R.push_back(isZ(a[k]) && isZ(b[k]) ? z() : B.CreateSelect(S->getCondition(), a[k], b[k]));
        sh[S] = R;
      }
      return;
    }
    if (!may.count(S)) return;
    Value *a = s1(S->getTrueValue()), *b = s1(S->getFalseValue());
    IRBuilder<> B(S);
    Value *plain = isZ(a) && isZ(b) ? z() : B.CreateSelect(c, a, b);
    if (isZ(sc)) { set1(S, plain); return; }
    Value *f = B.CreateICmpNE(sc, z());
    Value *r = diamond(S, f, plain, [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(Select, {i32c(bitsOf(S->getType())), sc, a, toBits(B, S->getTrueValue()), b, toBits(B, S->getFalseValue())}); });
    set1(S, r);
  }
  void concBranchOperand(Instruction *I, unsigned k) {
    Value *V = I->getOperand(k); Value *S = s1(V);
    IRBuilder<> B(I);
    Value *c = B.CreateICmpNE(S, z());
    Value *nv = diamond(I, c, V, [&](IRBuilder<> &B) { return B.CreateTrunc(B.CreateCall(Branch, {S, B.CreateZExt(V, I32)}), I1); });
    I->setOperand(k, nv);
  }
  void visitCmp(CmpInst *I) {
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    if (!may.count(I)) return;
    if (!scalarOk(a->getType())) { concOperand(I, 0); concOperand(I, 1); set1(I, z()); return; }
    Value *sa = s1(a), *sb = s1(b);
    if (isZ(sa) && isZ(sb)) { set1(I, z()); return; }
    IRBuilder<> B(I);
    Value *f = nz(B, {sa, sb});
    Value *r = diamond(I, f, z(), [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(isa<ICmpInst>(I) ? Cmp : FCmp, {i32c(I->getPredicate()), i32c(bitsOf(a->getType())), sa, toBits(B, a), sb, toBits(B, b)}); });
    set1(I, r);
  }
  void visitBin(BinaryOperator *I) {
    if (!may.count(I)) {
      if (!scalarOk(I->getType())) { concOperand(I, 0); concOperand(I, 1); }
      return;
    }
    if (I->getType()->isIntegerTy()) I->dropPoisonGeneratingFlags();
    unsigned op = 0;
    switch (I->getOpcode()) {
    case Instruction::Add: op = OP_ADD; break; case Instruction::Sub: op = OP_SUB; break; case Instruction::Mul: op = OP_MUL; break;
    case Instruction::UDiv: op = OP_UDIV; break; case Instruction::SDiv: op = OP_SDIV; break;
    case Instruction::URem: op = OP_UREM; break; case Instruction::SRem: op = OP_SREM; break;
    case Instruction::Shl: op = OP_SHL; break; case Instruction::LShr: op = OP_LSHR; break; case Instruction::AShr: op = OP_ASHR; break;
    case Instruction::And: op = OP_AND; break; case Instruction::Or: op = OP_OR; break; case Instruction::Xor: op = OP_XOR; break;
    case Instruction::FAdd: op = OP_FADD; break; case Instruction::FSub: op = OP_FSUB; break; case Instruction::FMul: op = OP_FMUL; break;
    case Instruction::FDiv: op = OP_FDIV; break; case Instruction::FRem: op = OP_FREM; break;
    default: break;
    }
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    Value *sa = s1(a), *sb = s1(b);
    if (isZ(sa) && isZ(sb)) { set1(I, z()); return; }
    if (op == OP_FREM) { concOperand(I, 0); concOperand(I, 1); set1(I, z()); return; }
    bool div = op >= OP_UDIV && op <= OP_SREM;
    IRBuilder<> B(I);
    Value *f = nz(B, {sa, sb});
    if (div) {
      Instruction *term = SplitBlockAndInsertIfThen(f, I, false, coldW());
      IRBuilder<> CB(term);
      Value *ba = toBits(CB, a), *bb = toBits(CB, b);
      CB.CreateCall(DivChk, {i32c(op), i32c(bitsOf(I->getType())), sa, ba, sb, bb});
      Value *r = CB.CreateCall(Bin, {i32c(op), i32c(bitsOf(I->getType())), sa, ba, sb, bb});
      BasicBlock *tail = term->getSuccessor(0);
      PHINode *ph = PHINode::Create(I->getType(), 2, "", &*tail->begin());
      PHINode *sp = PHINode::Create(I64, 2, "", &*tail->begin());
      for (BasicBlock *pr : predecessors(tail)) {
        if (pr == term->getParent()) { ph->addIncoming(ConstantInt::get(I->getType(), 1), pr); sp->addIncoming(r, pr); }
        else { ph->addIncoming(b, pr); sp->addIncoming(z(), pr); }
      }
      I->setOperand(1, ph);
      set1(I, sp);
      return;
    }
    Value *r = diamond(I, f, z(), [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(Bin, {i32c(op), i32c(bitsOf(I->getType())), sa, toBits(B, a), sb, toBits(B, b)}); });
    set1(I, r);
  }
  void unary(Instruction *I, unsigned cop, Value *a) {
    Value *sa = s1(a);
    if (isZ(sa)) { set1(I, z()); return; }
    IRBuilder<> B(I);
    Value *f = nz(B, {sa});
    Value *r = diamond(I, f, z(), [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(Cast_, {i32c(cop), i32c(bitsOf(a->getType())), i32c(bitsOf(I->getType())), sa}); });
    set1(I, r);
  }
  void visitCast(CastInst *I) {
    Value *a = I->getOperand(0);
    if (!may.count(a)) return;
    if (!scalarOk(I->getType()) || !scalarOk(a->getType())) { concOperand(I, 0); if (may.count(I)) set1(I, z()); return; }
    unsigned op = 0;
    switch (I->getOpcode()) {
    case Instruction::ZExt: op = C_ZEXT; break; case Instruction::SExt: op = C_SEXT; break; case Instruction::Trunc: op = C_TRUNC; break;
    case Instruction::SIToFP: op = C_SITOFP; break; case Instruction::UIToFP: op = C_UITOFP; break;
    case Instruction::FPToSI: op = C_FPTOSI; break; case Instruction::FPToUI: op = C_FPTOUI; break;
    case Instruction::FPExt: op = C_FPEXT; break; case Instruction::FPTrunc: op = C_FPTRUNC; break;
    case Instruction::BitCast: op = C_BITCAST; break;
    default: concOperand(I, 0); set1(I, z()); return;
    }
    unary(I, op, a);
  }
  void visitRet(ReturnInst *R) {
    Value *v = R->getReturnValue();
    if (!v || !trackable(v->getType())) return;
    Instruction *at = R;
    if (auto *CI = dyn_cast_or_null<CallInst>(R->getPrevNode())) if (CI->isMustTailCall()) return;
    auto S = shadow(v);
    if (may.count(v)) {
      // called from native code: concretize
      if (scalarOk(v->getType()) && !isZ(S[0])) {
        IRBuilder<> B(R);
        Value *c = B.CreateAnd(B.CreateICmpNE(S[0], z()), B.CreateNot(isMe));
        Value *s0 = S[0];
        Value *nv = diamond(R, c, v, [&](IRBuilder<> &B) { return fromBits(B, B.CreateCall(Conc, {s0}), v->getType()); });
        R->setOperand(0, nv);
      }
    }
    IRBuilder<> B(at);
    for (unsigned k = 0; k < S.size() && k < 16; ++k) { auto *st = B.CreateStore(S[k], retSlot(B, k)); nosan(st); }
  }

  void visitCall(CallBase *CB) {
    CK k = kind(CB);
    if (k == K_INTRIN) return visitIntrinsic(CB);
    Function *F = CB->getCalledFunction();
    if (F && F->isDeclaration() && (k == K_NATIVE)) natives.insert(F->getName().str());
    bool va = CB->getFunctionType()->isVarArg();
    if (k == K_NATIVE || (va && k != K_API)) {
      for (unsigned i = 0; i < CB->arg_size(); ++i) {
        if (trackable(CB->getArgOperand(i)->getType())) concOperand(CB, i);
        }
      byvals(CB);
      if (may.count(CB)) { // vararg instrumented/model: ignore shadow
        SmallVector<Type *, 8> l; leaves(CB->getType(), l); sh[CB] = SmallVector<Value *, 2>(l.size(), z()); }
      return;
    }
    byvals(CB);
    if (k == K_INDIRECT) { IRBuilder<> B(CB); B.CreateCall(ICall, {CB->getCalledOperand()}); }
    SmallVector<Value *, 8> argS;
    for (unsigned i = 0; i < CB->arg_size(); ++i) {
      Value *a = CB->getArgOperand(i);
      if (!trackable(a->getType())) continue;
      auto S = shadow(a);
      SmallVector<Type *, 8> l; leaves(a->getType(), l);
      for (unsigned q = 0; q < S.size(); ++q) argS.push_back(S[q]);
      if (k == K_INDIRECT && may.count(a) && scalarOk(a->getType()) && !isZ(S[0])) {
        IRBuilder<> B(CB);
        Value *c = B.CreateICmpNE(S[0], z());
        Value *nv = diamond(CB, c, a, [&](IRBuilder<> &B) { return fromBits(B, B.CreateCall(ConcArg, {CB->getCalledOperand(), S[0], toBits(B, a)}), a->getType()); });
        CB->setArgOperand(i, nv);
      }
    }
    bool rt = may.count(CB);
    if (CB->isMustTailCall()) rt = false;
    if (!argS.empty() || trackable(CB->getType())) {
      IRBuilder<> B(CB);
      auto *st = B.CreateStore(CB->getCalledOperand(), Callee); nosan(st);
      for (unsigned i = 0; i < argS.size() && i < 64; ++i) { auto *s = B.CreateStore(argS[i], argSlot(B, i)); nosan(s); }
    }
    if (!rt) return;
    SmallVector<Type *, 8> l; leaves(CB->getType(), l);
    if (k == K_INDIRECT || k == K_MODEL || k == K_API) {
      IRBuilder<> B(CB);
      for (unsigned i = 0; i < l.size(); ++i) { auto *s = B.CreateStore(z(), retSlot(B, i)); nosan(s); }
    }
    Instruction *after;
    if (auto *II = dyn_cast<InvokeInst>(CB)) after = &*II->getNormalDest()->getFirstInsertionPt();
    else after = CB->getNextNode();
    IRBuilder<> B(after);
    SmallVector<Value *, 2> R;
    for (unsigned i = 0; i < l.size(); ++i) {
      if (!scalarOk(l[i])) { R.push_back(z()); continue; }
      auto *ld = B.CreateLoad(I64, retSlot(B, i)); nosan(ld);
      R.push_back(ld);
    }
    sh[CB] = R;
  }
  void byvals(CallBase *CB) {
    for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->isByValArgument(i)) {
      IRBuilder<> B(CB);
      B.CreateCall(ConcMem, {CB->getArgOperand(i), ConstantInt::get(I64, M.getDataLayout().getTypeAllocSize(CB->getParamByValType(i)))});
    }
  }

  void visitIntrinsic(CallBase *CB) {
    auto *II = cast<IntrinsicInst>(CB);
    switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      concOperand(CB, 2);
      IRBuilder<> B(CB);
      B.CreateCall(Memcpy, {CB->getArgOperand(0), CB->getArgOperand(1), B.CreateZExtOrTrunc(CB->getArgOperand(2), I64)});
      return;
    }
    case Intrinsic::memset: {
      concOperand(CB, 2);
      IRBuilder<> B(CB);
      Value *s = may.count(CB->getArgOperand(1)) ? s1(CB->getArgOperand(1)) : z();
      B.CreateCall(Memset, {CB->getArgOperand(0), s, B.CreateZExtOrTrunc(CB->getArgOperand(2), I64)});
      return;
    }
    case Intrinsic::umin: return ibin(II, OP_UMIN); case Intrinsic::umax: return ibin(II, OP_UMAX);
    case Intrinsic::smin: return ibin(II, OP_SMIN); case Intrinsic::smax: return ibin(II, OP_SMAX);
    case Intrinsic::usub_sat: return ibin(II, OP_USUBSAT); case Intrinsic::uadd_sat: return ibin(II, OP_UADDSAT);
    case Intrinsic::copysign: return ibin(II, OP_COPYSIGN);
    case Intrinsic::uadd_with_overflow: return iov(II, OP_ADD, OP_UADDO); case Intrinsic::usub_with_overflow: return iov(II, OP_SUB, OP_USUBO);
    case Intrinsic::umul_with_overflow: return iov(II, OP_MUL, OP_UMULO); case Intrinsic::sadd_with_overflow: return iov(II, OP_ADD, OP_SADDO);
    case Intrinsic::ssub_with_overflow: return iov(II, OP_SUB, OP_SSUBO); case Intrinsic::smul_with_overflow: return iov(II, OP_MUL, OP_SMULO);
    case Intrinsic::fabs: return iun(II, C_FABS); case Intrinsic::floor: return iun(II, C_FLOOR); case Intrinsic::ceil: return iun(II, C_CEIL);
    case Intrinsic::trunc: return iun(II, C_TRUNCF); case Intrinsic::round: return iun(II, C_ROUND); case Intrinsic::rint: case Intrinsic::nearbyint: return iun(II, C_RINT);
    case Intrinsic::bswap: return iun(II, C_BSWAP); case Intrinsic::sqrt: return iun(II, C_SQRT); case Intrinsic::abs: return iun(II, C_ABS);
    case Intrinsic::ctpop: return iun(II, C_CTPOP);
    case Intrinsic::expect: if (may.count(II)) sh[II] = shadow(II->getArgOperand(0)); return;
    case Intrinsic::is_fpclass: {
      if (!may.count(II)) return;
      auto *mask = dyn_cast<ConstantInt>(II->getArgOperand(1));
      if (!mask || !scalarOk(II->getArgOperand(0)->getType())) break;
      Value *sa = s1(II->getArgOperand(0));
      if (isZ(sa)) { set1(II, z()); return; }
      IRBuilder<> B(II);
      Value *f = nz(B, {sa});
      Value *r = diamond(II, f, z(), [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(Cast_, {i32c(C_ISFP), i32c(bitsOf(II->getArgOperand(0)->getType())), i32c(mask->getZExtValue()), sa}); });
      set1(II, r);
      return;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      break;
    }
    case Intrinsic::assume:
      II->setArgOperand(0, ConstantInt::getTrue(C)); return;
    default: break;
    }
    for (unsigned i = 0; i < CB->arg_size(); ++i) if (trackable(CB->getArgOperand(i)->getType()) && !isa<MetadataAsValue>(CB->getArgOperand(i))) concOperand(CB, i);
    if (may.count(CB)) { SmallVector<Type *, 8> l; leaves(CB->getType(), l); sh[CB] = SmallVector<Value *, 2>(l.size(), z()); }
  }
  void ibin(IntrinsicInst *I, unsigned op) {
    if (!may.count(I)) return;
    Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
    if (!scalarOk(a->getType())) { concOperand(I, 0); concOperand(I, 1); return; }
    Value *sa = s1(a), *sb = s1(b);
    if (isZ(sa) && isZ(sb)) { set1(I, z()); return; }
    IRBuilder<> B(I);
    Value *r = diamond(I, nz(B, {sa, sb}), z(), [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(Bin, {i32c(op), i32c(bitsOf(a->getType())), sa, toBits(B, a), sb, toBits(B, b)}); });
    set1(I, r);
  }
  void iov(IntrinsicInst *I, unsigned op, unsigned oop) {
    if (!may.count(I)) return;
    Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
    if (!scalarOk(a->getType())) { concOperand(I, 0); concOperand(I, 1); return; }
    Value *sa = s1(a), *sb = s1(b);
    if (isZ(sa) && isZ(sb)) { sh[I] = SmallVector<Value *, 2>{z(), z()}; return; }
    IRBuilder<> B(I);
    Instruction *term = SplitBlockAndInsertIfThen(nz(B, {sa, sb}), I, false, coldW());
    IRBuilder<> CB(term);
    Value *ba = toBits(CB, a), *bb = toBits(CB, b);
    Value *r0 = CB.CreateCall(Bin, {i32c(op), i32c(bitsOf(a->getType())), sa, ba, sb, bb});
    Value *r1 = CB.CreateCall(Bin, {i32c(oop), i32c(bitsOf(a->getType())), sa, ba, sb, bb});
    BasicBlock *tail = term->getSuccessor(0);
    PHINode *p0 = PHINode::Create(I64, 2, "", &*tail->begin());
    PHINode *p1 = PHINode::Create(I64, 2, "", &*tail->begin());
    for (BasicBlock *pr : predecessors(tail)) { bool c = pr == term->getParent(); p0->addIncoming(c ? r0 : z(), pr); p1->addIncoming(c ? r1 : z(), pr); }
    sh[I] = SmallVector<Value *, 2>{p0, p1};
  }
  void iun(IntrinsicInst *I, unsigned op) {
    if (!may.count(I)) return;
    if (!scalarOk(I->getType())) { concOperand(I, 0); return; }
    unary(I, op, I->getArgOperand(0));
  }
};

struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { Symx S(M); S.run(); return PreservedAnalyses::none(); }
  static bool isRequired() { return true; }
};
// internalize every defined function except the entry points (data keeps its linkage
// so that locale facet ids etc. stay unique in the process)
struct SymxPrep : PassInfoMixin<SymxPrep> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      if (F.getName().starts_with("symx_main") || F.getName() == "main" || F.getName().starts_with("sx_")) continue;
      if (kRename.count(F.getName().str())) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); F.clearMetadata(); continue; }
      if (F.hasAvailableExternallyLinkage()) { F.deleteBody(); F.setComdat(nullptr); continue; }
      F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility);
      F.setDSOLocal(true);
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symx", "1", [](PassBuilder &PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "symx") { MPM.addPass(SymxPass()); return true; }
              if (N == "symx-prep") { MPM.addPass(SymxPrep()); return true; }
              return false;
            });
          }};
}
