// Instruments LLVM bitcode for symbolic execution.
//
// Every integer and floating-point value gets a shadow: 0 if the value is concrete, otherwise a
// handle of a term kept by the runtime.  Concrete code runs natively; as soon as one operand has a
// term, the runtime builds the term of the result.  Pointers never have a shadow: whenever a
// pointer would depend on a term, the runtime enumerates all feasible values of that term.
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IR/AttributeMask.h"
#include "llvm/IR/Attributes.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Demangle/Demangle.h"
#include "ops.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static const uint64_t FLAGBASE = 0x100000000000ull;

struct Tool {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I64, *I32, *I8, *I1, *PtrT, *VoidT;
  GlobalVariable *ArgBuf, *RetBuf;
  std::map<std::string, std::string> stubs;
  std::set<std::string> externals;
  unsigned nfun = 0, ninst = 0;

  Tool(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I8 = Type::getInt8Ty(C);
    I1 = Type::getInt1Ty(C); PtrT = PointerType::getUnqual(C); VoidT = Type::getVoidTy(C);
    ArgBuf = new GlobalVariable(M, ArrayType::get(I64, 256), false, GlobalValue::ExternalLinkage, nullptr, "__symrt_args");
    RetBuf = new GlobalVariable(M, ArrayType::get(I64, 64), false, GlobalValue::ExternalLinkage, nullptr, "__symrt_ret");
    const char *s[] = {"memcmp", "bcmp", "memchr", "strlen", "strcmp", "strncmp", "wcslen", "strchr",
      "isspace", "isdigit", "isalpha", "isalnum", "toupper", "tolower", "isupper", "islower", "ispunct", "isprint",
      "strtol", "strtoul", "strtoll", "strtoull", "strtod", "strtof", "atoi", "isxdigit",
      "_ZSt11_Hash_bytesPKvmm", "_ZSt15_Fnv_hash_bytesPKvmm"};
    for (auto n : s) stubs[n] = std::string("__symstub_") + n;
  }
  FunctionCallee rt(const char *name, Type *ret, ArrayRef<Type *> args) {
    return M.getOrInsertFunction(std::string("__symrt_") + name, FunctionType::get(ret, args, false));
  }

  // --- types -------------------------------------------------------------------------------
  static bool scalarSym(Type *T) {
    if (auto *IT = dyn_cast<IntegerType>(T)) return IT->getBitWidth() <= 64;
    return T->isDoubleTy() || T->isFloatTy();
  }
  Type *shadowTy(Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      std::vector<Type *> v;
      for (auto *E : ST->elements()) v.push_back(shadowTy(E));
      return StructType::get(C, v);
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) return ArrayType::get(shadowTy(AT->getElementType()), AT->getNumElements());
    return I64;
  }
  unsigned slots(Type *T) {
    if (T->isVoidTy() || T->isPointerTy()) return 0;
    if (auto *ST = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto *E : ST->elements()) n += slots(E); return n; }
    if (auto *AT = dyn_cast<ArrayType>(T)) return slots(AT->getElementType()) * AT->getNumElements();
    return 1;
  }
  void storeShadow(IRBuilder<> &B, GlobalVariable *G, unsigned &slot, Type *T, Value *sh) {
    if (T->isVoidTy() || T->isPointerTy()) return;
    if (auto *ST = dyn_cast<StructType>(T)) {
      for (unsigned i = 0; i < ST->getNumElements(); ++i)
        if (slots(ST->getElementType(i))) storeShadow(B, G, slot, ST->getElementType(i), B.CreateExtractValue(sh, i));
      return;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
      for (unsigned i = 0; i < AT->getNumElements(); ++i) storeShadow(B, G, slot, AT->getElementType(), B.CreateExtractValue(sh, i));
      return;
    }
    B.CreateStore(sh, B.CreateConstInBoundsGEP2_64(G->getValueType(), G, 0, slot++));
  }
  Value *loadShadow(IRBuilder<> &B, GlobalVariable *G, unsigned &slot, Type *T) {
    if (T->isPointerTy() || T->isVoidTy()) return ConstantInt::get(I64, 0);
    if (T->isStructTy() || T->isArrayTy()) {
      Value *agg = Constant::getNullValue(shadowTy(T));
      unsigned n = T->isStructTy() ? cast<StructType>(T)->getNumElements() : cast<ArrayType>(T)->getNumElements();
      for (unsigned i = 0; i < n; ++i) {
        Type *E = T->isStructTy() ? cast<StructType>(T)->getElementType(i) : cast<ArrayType>(T)->getElementType();
        if (slots(E)) agg = B.CreateInsertValue(agg, loadShadow(B, G, slot, E), i);
      }
      return agg;
    }
    return B.CreateLoad(I64, B.CreateConstInBoundsGEP2_64(G->getValueType(), G, 0, slot++));
  }

  // --- per function state ------------------------------------------------------------------
  DenseMap<Value *, Value *> sh;
  DenseSet<Value *> may;
  MDNode *unlikely = nullptr;

  Value *zero(Type *T) { return Constant::getNullValue(shadowTy(T)); }
  Value *shadow(Value *V) {
    auto it = sh.find(V);
    if (it != sh.end()) return it->second;
    return zero(V->getType());
  }
  static bool isZero(Value *s) { auto *c = dyn_cast<Constant>(s); return c && c->isNullValue(); }

  Value *bits(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    return B.CreateZExtOrTrunc(V, I64);
  }
  Value *unbits(IRBuilder<> &B, Value *V, Type *T) {
    if (T->isDoubleTy()) return B.CreateBitCast(V, T);
    if (T->isFloatTy()) return B.CreateBitCast(B.CreateTrunc(V, I32), T);
    if (T->isPointerTy()) return B.CreateIntToPtr(V, T);
    return B.CreateZExtOrTrunc(V, T);
  }
  unsigned width(Type *T) { return T->isDoubleTy() ? 64 : T->isFloatTy() ? 32 : T->isPointerTy() ? 64 : T->getIntegerBitWidth(); }
  Value *i32(unsigned n) { return ConstantInt::get(I32, n); }

  // if (cond) v = f(); else v = fast;
  Value *slow(Instruction *before, Value *cond, Value *fast, std::function<Value *(IRBuilder<> &)> f) {
    if (auto *ci = dyn_cast<ConstantInt>(cond)) {
      if (ci->isZero()) return fast;
      IRBuilder<> B(before); B.SetCurrentDebugLocation(before->getDebugLoc());
      return f(B);
    }
    BasicBlock *orig = before->getParent();
    Instruction *t = SplitBlockAndInsertIfThen(cond, before, false, unlikely);
    IRBuilder<> B(t); B.SetCurrentDebugLocation(before->getDebugLoc());
    Value *v = f(B);
    BasicBlock *thenBB = t->getParent();
    if (v->getType()->isVoidTy()) return nullptr;
    IRBuilder<> P(&before->getParent()->front());
    PHINode *p = P.CreatePHI(v->getType(), 2);
    p->addIncoming(v, thenBB);
    p->addIncoming(fast, orig);
    return p;
  }
  Value *any(IRBuilder<> &B, ArrayRef<Value *> v) {
    Value *r = nullptr;
    for (auto *x : v) { if (isZero(x)) continue; r = r ? B.CreateOr(r, x) : x; }
    if (!r) return ConstantInt::getFalse(C);
    return B.CreateICmpNE(r, ConstantInt::get(I64, 0));
  }
  // concretise a value (all feasible values are explored)
  Value *concrete(Instruction *before, Value *V, const char *fn = "concretize") {
    Value *s = shadow(V);
    if (isZero(s) || !scalarSym(V->getType())) return V;
    IRBuilder<> B(before);
    Value *c = any(B, {s});
    return slow(before, c, V, [&](IRBuilder<> &B) {
      return unbits(B, B.CreateCall(rt(fn, I64, {I64, I32}), {s, i32(width(V->getType()))}), V->getType());
    });
  }
  Value *flagOf(IRBuilder<> &B, Value *addr, uint64_t size, Align al) {
    Value *a = B.CreatePtrToInt(addr, I64);
    auto one = [&](Value *x) {
      Value *p = B.CreateIntToPtr(B.CreateAdd(B.CreateLShr(x, 3), ConstantInt::get(I64, FLAGBASE)), PtrT);
      return B.CreateLoad(I8, p);
    };
    Value *f = one(a);
    if (!(size <= 8 && al.value() >= size)) {
      if (size <= 9) f = B.CreateOr(f, one(B.CreateAdd(a, ConstantInt::get(I64, size - 1))));
      else for (uint64_t o = 8; ; o += 8) { uint64_t k = o < size - 1 ? o : size - 1; f = B.CreateOr(f, one(B.CreateAdd(a, ConstantInt::get(I64, k)))); if (k == size - 1) break; }
    }
    return f;
  }
  static bool constMem(Value *p) {
    p = p->stripInBoundsOffsets();
    if (auto *g = dyn_cast<GlobalVariable>(p)) return g->isConstant();
    return false;
  }

  // --- attributes / flags -------------------------------------------------------------------
  void stripCall(CallBase *CB) {
    AttributeMask am;
    am.addAttribute(Attribute::Memory).addAttribute(Attribute::ReadNone).addAttribute(Attribute::ReadOnly)
      .addAttribute(Attribute::WriteOnly).addAttribute(Attribute::Speculatable).addAttribute(Attribute::WillReturn)
      .addAttribute(Attribute::NoSync).addAttribute(Attribute::NoFree).addAttribute(Attribute::NoRecurse)
      .addAttribute(Attribute::AllocSize).addAttribute(Attribute::AllocKind);
    CB->removeFnAttrs(am);
    AttributeMask pm;
    pm.addAttribute(Attribute::NoUndef).addAttribute(Attribute::NonNull).addAttribute(Attribute::Dereferenceable)
      .addAttribute(Attribute::DereferenceableOrNull).addAttribute(Attribute::NoAlias).addAttribute(Attribute::Returned)
      .addAttribute(Attribute::ReadNone).addAttribute(Attribute::ReadOnly).addAttribute(Attribute::WriteOnly)
      .addAttribute(Attribute::NoCapture).addAttribute(Attribute::NoFree).addAttribute(Attribute::Alignment);
    for (unsigned i = 0; i < CB->arg_size(); ++i) CB->removeParamAttrs(i, pm);
    CB->removeRetAttrs(pm);
  }
  void stripFun(Function &F) {
    AttributeMask am;
    am.addAttribute(Attribute::Memory).addAttribute(Attribute::ReadNone).addAttribute(Attribute::ReadOnly)
      .addAttribute(Attribute::WriteOnly).addAttribute(Attribute::Speculatable).addAttribute(Attribute::WillReturn)
      .addAttribute(Attribute::NoSync).addAttribute(Attribute::NoFree).addAttribute(Attribute::NoRecurse)
      .addAttribute(Attribute::MustProgress).addAttribute(Attribute::AllocSize).addAttribute(Attribute::AllocKind);
    F.removeFnAttrs(am);
    AttributeMask pm;
    pm.addAttribute(Attribute::NoUndef).addAttribute(Attribute::NonNull).addAttribute(Attribute::Dereferenceable)
      .addAttribute(Attribute::DereferenceableOrNull).addAttribute(Attribute::NoAlias).addAttribute(Attribute::Returned)
      .addAttribute(Attribute::ReadNone).addAttribute(Attribute::ReadOnly).addAttribute(Attribute::WriteOnly)
      .addAttribute(Attribute::NoCapture).addAttribute(Attribute::NoFree).addAttribute(Attribute::Alignment);
    for (unsigned i = 0; i < F.arg_size(); ++i) F.removeParamAttrs(i, pm);
    F.removeRetAttrs(pm);
  }
  void lowerByVal(Function &F) {
    std::vector<CallBase *> calls;
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) calls.push_back(CB);
    for (auto *CB : calls) {
      Function *callee = CB->getCalledFunction();
      if (callee && callee->isDeclaration()) continue;
      for (unsigned i = 0; i < CB->arg_size(); ++i) {
        if (!CB->isByValArgument(i)) continue;
        Type *T = CB->getParamByValType(i);
        IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt());
        auto *A = E.CreateAlloca(T);
        A->setAlignment(std::max(DL.getPrefTypeAlign(T), CB->getParamAlign(i).valueOrOne()));
        IRBuilder<> B(CB);
        B.CreateMemCpy(A, A->getAlign(), CB->getArgOperand(i), MaybeAlign(1), DL.getTypeAllocSize(T));
        CB->setArgOperand(i, A);
        CB->removeParamAttr(i, Attribute::ByVal);
      }
    }
  }

  void prepare(Function &F) {
    std::vector<Instruction *> dead;
    for (auto &I : instructions(F)) {
      I.dropPoisonGeneratingFlags();
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) G->setIsInBounds(false);
      if (isa<FPMathOperator>(&I)) I.setFastMathFlags(FastMathFlags());
      SmallVector<std::pair<unsigned, MDNode *>, 4> md;
      I.getAllMetadataOtherThanDebugLoc(md);
      for (auto &m : md) I.setMetadata(m.first, nullptr);
      if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
        switch (II->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
          dead.push_back(II); break;
        default: break;
        }
      }
      if (auto *CB = dyn_cast<CallBase>(&I)) { stripCall(CB); if (auto *CI = dyn_cast<CallInst>(CB)) CI->setTailCallKind(CallInst::TCK_None); }
    }
    for (auto *I : dead) {
      if (!I->getType()->isVoidTy()) I->replaceAllUsesWith(PoisonValue::get(I->getType()));
      I->eraseFromParent();
    }
  }

  // optimistic data flow: which values may ever carry a term
  bool isSource(Instruction *I) {
    if (isa<LoadInst>(I)) return scalarSym(I->getType()) && !constMem(cast<LoadInst>(I)->getPointerOperand());
    if (auto *CB = dyn_cast<CallBase>(I)) {
      if (!slots(I->getType())) return false;
      if (auto *F = CB->getCalledFunction()) {
        if (F->isIntrinsic()) return false;
        if (F->isDeclaration() && !isApi(F->getName()) && !stubs.count(F->getName().str()) && mathOp(F->getName()) == 0) return false;
      }
      return true;
    }
    return false;
  }
  void taint(Function &F) {
    may.clear();
    std::vector<Value *> work;
    auto add = [&](Value *v) { if (may.insert(v).second) work.push_back(v); };
    for (auto &A : F.args()) if (slots(A.getType())) add(&A);
    for (auto &I : instructions(F)) if (isSource(&I)) add(&I);
    while (!work.empty()) {
      Value *v = work.back(); work.pop_back();
      for (auto *U : v->users()) {
        auto *I = dyn_cast<Instruction>(U);
        if (!I || !slots(I->getType())) continue;
        if (isa<LoadInst>(I) || isa<AllocaInst>(I)) continue;
        if (auto *CB = dyn_cast<CallBase>(I)) {
          auto *Fn = CB->getCalledFunction();
          if (!(Fn && (Fn->isIntrinsic()))) continue;
        }
        add(I);
      }
    }
  }
  static bool isApi(StringRef n) { return n.starts_with("symapi_"); }

  static int mathOp(StringRef n) {
    static const std::map<std::string, int> m = {
      {"sqrt", OP_SQRT}, {"fabs", OP_FABS}, {"floor", OP_FLOOR}, {"ceil", OP_CEIL}, {"trunc", OP_FTRUNC}, {"round", OP_ROUND},
      {"rint", OP_RINT}, {"nearbyint", OP_RINT}, {"exp", OP_EXP}, {"exp2", OP_EXP2}, {"log", OP_LOG}, {"log2", OP_LOG2}, {"log10", OP_LOG10},
      {"sin", OP_SIN}, {"cos", OP_COS}, {"tan", OP_TAN}, {"atan", OP_ATAN}, {"acos", OP_ACOS}, {"asin", OP_ASIN}, {"cbrt", OP_CBRT},
      {"expm1", OP_EXPM1}, {"log1p", OP_LOG1P}, {"tanh", OP_TANH}, {"erf", OP_ERF}, {"tgamma", OP_TGAMMA}, {"lgamma", OP_LGAMMA},
      {"pow", OP_POW}, {"atan2", OP_ATAN2}, {"hypot", OP_HYPOT}, {"nextafter", OP_NEXTAFTER}, {"fmod", OP_FMOD}, {"fmin", OP_FMIN}, {"fmax", OP_FMAX}, {"copysign", OP_COPYSIGN}};
    auto it = m.find(n.str());
    if (it != m.end()) return it->second;
    if (n.ends_with("f")) { it = m.find(n.drop_back().str()); if (it != m.end()) return it->second; }
    return 0;
  }
  static bool isSink(StringRef n) {
    return n.starts_with("_ZNSo") || n.starts_with("_ZStls") || n.starts_with("_ZSt16__ostream") || n == "printf" || n == "fprintf" || n == "puts" || n == "putchar" || n == "fputs" || n == "fwrite" || n == "fputc";
  }
  static bool isSafeExternal(StringRef n) {
    return n.starts_with("__symrt_") || n.starts_with("__cxa_") || n.starts_with("_ZSt") || n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZNSo") || n.starts_with("_ZNSi") ||
           n.starts_with("__gxx") || n.starts_with("_Unwind") || n.starts_with("pthread") || n == "abort" || n == "exit" || n == "__dynamic_cast" || n == "atexit" || 
           // these get objects, but do not read the numbers in them
           (n.starts_with("Py") && !n.starts_with("PyNumber_") && !n.starts_with("PyFloat_") && !n.starts_with("PyObject_RichCompare"));
  }

  Value *emitBin(Instruction *I, unsigned op, unsigned w, Value *a, Value *b) {
    Value *sa = shadow(a), *sb = shadow(b);
    if (isZero(sa) && isZero(sb)) return ConstantInt::get(I64, 0);
    IRBuilder<> B(I);
    Value *c = any(B, {sa, sb});
    return slow(I, c, ConstantInt::get(I64, 0), [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(rt("bin", I64, {I32, I32, I64, I64, I64, I64}), {i32(op), i32(w), sa, bits(B, a), sb, bits(B, b)});
    });
  }
  Value *emitUn(Instruction *I, unsigned op, unsigned wi, unsigned wo, Value *a) {
    Value *sa = shadow(a);
    if (isZero(sa)) return ConstantInt::get(I64, 0);
    IRBuilder<> B(I);
    Value *c = any(B, {sa});
    return slow(I, c, ConstantInt::get(I64, 0), [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(rt("un", I64, {I32, I32, I32, I64}), {i32(op), i32(wi), i32(wo), sa});
    });
  }
  void unsupported(Instruction *I, ArrayRef<Value *> ops, const char *what) {
    std::vector<Value *> s;
    for (auto *o : ops) if (slots(o->getType()) && shadow(o)->getType()->isIntegerTy()) s.push_back(shadow(o));
    IRBuilder<> B(I);
    Value *c = any(B, s);
    if (isa<ConstantInt>(c)) return;
    Value *str = B.CreateGlobalStringPtr(what);
    slow(I, c, nullptr, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(rt("unsupported", VoidT, {PtrT}), {str}); });
  }

  void visit(Instruction *I) {
    IRBuilder<> B(I);
    Type *T = I->getType();
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      if (!scalarSym(T)) { unsupported(I, {I->getOperand(0), I->getOperand(1)}, "wide or vector arithmetic"); return; }
      static const std::map<unsigned, unsigned> m = {
        {Instruction::Add, OP_ADD}, {Instruction::Sub, OP_SUB}, {Instruction::Mul, OP_MUL}, {Instruction::UDiv, OP_UDIV},
        {Instruction::SDiv, OP_SDIV}, {Instruction::URem, OP_UREM}, {Instruction::SRem, OP_SREM}, {Instruction::Shl, OP_SHL},
        {Instruction::LShr, OP_LSHR}, {Instruction::AShr, OP_ASHR}, {Instruction::And, OP_AND}, {Instruction::Or, OP_OR},
        {Instruction::Xor, OP_XOR}, {Instruction::FAdd, OP_FADD}, {Instruction::FSub, OP_FSUB}, {Instruction::FMul, OP_FMUL},
        {Instruction::FDiv, OP_FDIV}, {Instruction::FRem, OP_FREM}};
      Value *s = emitBin(I, m.at(BO->getOpcode()), width(T), I->getOperand(0), I->getOperand(1));
      if (isZero(s)) return;
      sh[I] = s;
      switch (BO->getOpcode()) {
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        IRBuilder<> B2(I);
        Value *c = B2.CreateICmpNE(s, ConstantInt::get(I64, 0));
        I->setOperand(1, B2.CreateSelect(c, ConstantInt::get(T, 1), I->getOperand(1)));
        break;
      }
      default: break;
      }
      return;
    }
    if (auto *CI = dyn_cast<ICmpInst>(I)) {
      Value *a = I->getOperand(0), *b = I->getOperand(1);
      if (a->getType()->isPointerTy()) return;
      if (!scalarSym(a->getType())) { unsupported(I, {a, b}, "wide comparison"); return; }
      static const std::map<unsigned, unsigned> m = {
        {CmpInst::ICMP_EQ, OP_EQ}, {CmpInst::ICMP_NE, OP_NE}, {CmpInst::ICMP_UGT, OP_UGT}, {CmpInst::ICMP_UGE, OP_UGE},
        {CmpInst::ICMP_ULT, OP_ULT}, {CmpInst::ICMP_ULE, OP_ULE}, {CmpInst::ICMP_SGT, OP_SGT}, {CmpInst::ICMP_SGE, OP_SGE},
        {CmpInst::ICMP_SLT, OP_SLT}, {CmpInst::ICMP_SLE, OP_SLE}};
      Value *s = emitBin(I, m.at(CI->getPredicate()), width(a->getType()), a, b);
      if (!isZero(s)) sh[I] = s;
      return;
    }
    if (auto *FI = dyn_cast<FCmpInst>(I)) {
      Value *a = I->getOperand(0), *b = I->getOperand(1);
      if (!scalarSym(a->getType())) { unsupported(I, {a, b}, "wide fp comparison"); return; }
      Value *sa = shadow(a), *sb = shadow(b);
      if (isZero(sa) && isZero(sb)) return;
      Value *c = any(B, {sa, sb});
      sh[I] = slow(I, c, ConstantInt::get(I64, 0), [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("fcmp", I64, {I32, I32, I64, I64, I64, I64}), {i32(FI->getPredicate()), i32(width(a->getType())), sa, bits(B, a), sb, bits(B, b)});
      });
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(I)) {
      if (!scalarSym(T)) { unsupported(I, {I->getOperand(0)}, "wide fneg"); return; }
      (void)U;
      Value *s = emitUn(I, OP_FNEG, width(T), width(T), I->getOperand(0));
      if (!isZero(s)) sh[I] = s;
      return;
    }
    if (isa<FreezeInst>(I)) { Value *s = shadow(I->getOperand(0)); if (!isZero(s)) sh[I] = s; return; }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      Value *a = I->getOperand(0);
      Type *S = a->getType();
      if (isa<PtrToIntInst>(CI) || isa<AddrSpaceCastInst>(CI)) return;
      if (isa<IntToPtrInst>(CI)) { Value *v = concrete(I, a); I->setOperand(0, v); return; }
      if (!scalarSym(S) || !scalarSym(T)) { if (S->isPointerTy()) return; unsupported(I, {a}, "wide cast"); return; }
      unsigned op = 0;
      switch (CI->getOpcode()) {
      case Instruction::Trunc: op = OP_TRUNC; break;
      case Instruction::ZExt: op = OP_ZEXT; break;
      case Instruction::SExt: op = OP_SEXT; break;
      case Instruction::FPTrunc: op = OP_FPTRUNC; break;
      case Instruction::FPExt: op = OP_FPEXT; break;
      case Instruction::FPToUI: op = OP_FPTOUI; break;
      case Instruction::FPToSI: op = OP_FPTOSI; break;
      case Instruction::UIToFP: op = OP_UITOFP; break;
      case Instruction::SIToFP: op = OP_SITOFP; break;
      case Instruction::BitCast: op = T->isIntegerTy() ? (S->isIntegerTy() ? 0 : OP_BITCAST_F2I) : (S->isIntegerTy() ? OP_BITCAST_I2F : 0); break;
      default: break;
      }
      if (!op) { sh[I] = shadow(a); return; }
      Value *s = emitUn(I, op, width(S), width(T), a);
      if (!isZero(s)) {
        sh[I] = s;
        if (op == OP_FPTOSI || op == OP_FPTOUI) { // out-of-range native conversion is poison
          IRBuilder<> B2(I);
          I->setOperand(0, B2.CreateSelect(B2.CreateICmpNE(s, ConstantInt::get(I64, 0)), Constant::getNullValue(S), a));
        }
      }
      return;
    }
    if (auto *SI = dyn_cast<SelectInst>(I)) {
      Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
      if (!c->getType()->isIntegerTy(1)) { unsupported(I, {c, a, b}, "vector select"); return; }
      Value *sc = shadow(c);
      if (!scalarSym(T)) { // pointers and aggregates: decide the condition
        if (!isZero(sc)) {
          Value *nz = any(B, {sc});
          Value *nc = slow(I, nz, c, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(rt("branch", I1, {I64}), {sc}); });
          I->setOperand(0, nc);
        }
        if (!T->isPointerTy() && slots(T)) {
          IRBuilder<> B2(I);
          sh[I] = B2.CreateSelect(SI->getCondition(), shadow(a), shadow(b));
        }
        return;
      }
      Value *sa = shadow(a), *sb = shadow(b);
      if (isZero(sc)) {
        if (isZero(sa) && isZero(sb)) return;
        sh[I] = B.CreateSelect(c, sa, sb);
        return;
      }
      Value *fast = isZero(sa) && isZero(sb) ? (Value *)ConstantInt::get(I64, 0) : B.CreateSelect(c, sa, sb);
      Value *nz = any(B, {sc});
      bool fp = !T->isIntegerTy();
      sh[I] = slow(I, nz, fast, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("select", I64, {I32, I32, I64, I64, I64, I64, I64}), {i32(fp), i32(width(T)), sc, sa, bits(B, a), sb, bits(B, b)});
      });
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      Value *p = L->getPointerOperand();
      if (constMem(p)) return;
      uint64_t size = DL.getTypeStoreSize(T);
      if (T->isAggregateType()) { unsupportedLoad(L); return; }
      Value *f = flagOf(B, p, size, L->getAlign());
      Value *c = B.CreateICmpNE(f, ConstantInt::get(I8, 0));
      if (T->isPointerTy()) {
        // the native load is replaced only if memory holds a term
        slow(I, c, nullptr, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(rt("loadptr", VoidT, {PtrT}), {p}); });
        return;
      }
      if (!scalarSym(T)) {
        slow(I, c, nullptr, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(rt("loadconcrete", VoidT, {PtrT, I64}), {p, ConstantInt::get(I64, size)}); });
        return;
      }
      bool fp = !T->isIntegerTy();
      sh[I] = slow(I, c, ConstantInt::get(I64, 0), [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("load", I64, {PtrT, I32, I32}), {p, i32(fp), i32(width(T))});
      });
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(I)) {
      Value *v = S->getValueOperand(), *p = S->getPointerOperand();
      Type *VT = v->getType();
      uint64_t size = DL.getTypeStoreSize(VT);
      Value *f = flagOf(B, p, size, S->getAlign());
      Value *sv = scalarSym(VT) ? shadow(v) : ConstantInt::get(I64, 0);
      if (VT->isAggregateType()) { unsupportedAgg(S, v); }
      Value *c;
      if (isZero(sv)) c = B.CreateICmpNE(f, ConstantInt::get(I8, 0));
      else c = B.CreateICmpNE(B.CreateOr(B.CreateZExt(f, I64), sv), ConstantInt::get(I64, 0));
      // the slow path runs after the native store so that constants written by it survive
      Instruction *after = S->getNextNode();
      if (isZero(sv)) {
        slow(I, c, nullptr, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(rt("storeclear", VoidT, {PtrT, I64}), {p, ConstantInt::get(I64, size)}); });
      } else {
        slow(after, c, nullptr, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(rt("store", VoidT, {PtrT, I32, I64}), {p, i32(width(VT)), sv}); });
      }
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      for (unsigned i = 1; i < G->getNumOperands(); ++i) {
        Value *v = G->getOperand(i);
        if (isa<Constant>(v) || isZero(shadow(v))) continue;
        G->setOperand(i, concrete(I, v));
      }
      return;
    }
    if (auto *A = dyn_cast<AllocaInst>(I)) {
      if (A->isArrayAllocation() && !isa<ConstantInt>(A->getArraySize())) A->setOperand(0, concrete(I, A->getArraySize()));
      uint64_t es = DL.getTypeAllocSize(A->getAllocatedType());
      if (A->getAlign().value() < 8) A->setAlignment(Align(8));
      IRBuilder<> B2(A->getNextNode());
      Value *n = B2.CreateMul(B2.CreateZExtOrTrunc(A->getArraySize(), I64), ConstantInt::get(I64, es));
      Value *p = B2.CreateIntToPtr(B2.CreateAdd(B2.CreateLShr(B2.CreatePtrToInt(A, I64), 3), ConstantInt::get(I64, FLAGBASE)), PtrT);
      Value *len = B2.CreateLShr(B2.CreateAdd(n, ConstantInt::get(I64, 7)), 3);
      B2.CreateMemSet(p, ConstantInt::get(I8, 0), len, MaybeAlign(1));
      return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(I)) {
      Value *s = shadow(E->getAggregateOperand());
      if (isZero(s)) return;
      sh[I] = B.CreateExtractValue(s, E->getIndices());
      return;
    }
    if (auto *V = dyn_cast<InsertValueInst>(I)) {
      Value *sa = shadow(V->getAggregateOperand()), *sv = shadow(V->getInsertedValueOperand());
      if (isZero(sa) && isZero(sv)) return;
      sh[I] = B.CreateInsertValue(sa, sv, V->getIndices());
      return;
    }
    if (auto *BI = dyn_cast<BranchInst>(I)) {
      if (!BI->isConditional()) return;
      Value *s = shadow(BI->getCondition());
      if (isZero(s)) return;
      Value *nz = any(B, {s});
      Value *c = slow(I, nz, BI->getCondition(), [&](IRBuilder<> &B) -> Value * { return B.CreateCall(rt("branch", I1, {I64}), {s}); });
      BI->setCondition(c);
      return;
    }
    if (auto *SW = dyn_cast<SwitchInst>(I)) {
      Value *v = SW->getCondition();
      Value *s = shadow(v);
      if (isZero(s)) return;
      std::vector<uint64_t> cv;
      for (auto &cs : SW->cases()) cv.push_back(cs.getCaseValue()->getZExtValue());
      auto *arr = ConstantDataArray::get(C, cv);
      auto *g = new GlobalVariable(M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, "symsw");
      Value *nz = any(B, {s});
      Value *c = slow(I, nz, v, [&](IRBuilder<> &B) -> Value * {
        return B.CreateZExtOrTrunc(B.CreateCall(rt("switch", I64, {I64, I32, I32, PtrT}), {s, i32(width(v->getType())), i32(cv.size()), g}), v->getType());
      });
      SW->setCondition(c);
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      Value *v = R->getReturnValue();
      if (!v || !slots(v->getType())) return;
      unsigned slot = 0;
      storeShadow(B, RetBuf, slot, v->getType(), shadow(v));
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) { visitCall(CB); return; }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
      std::vector<Value *> ops;
      for (auto &o : I->operands()) if (!o->getType()->isPointerTy()) ops.push_back(o);
      unsupported(I, ops, "atomic operation on a symbolic value");
      return;
    }
    if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I)) {
      std::vector<Value *> ops;
      for (auto &o : I->operands()) if (scalarSym(o->getType())) ops.push_back(o);
      unsupported(I, ops, "vector element operation");
      return;
    }
  }
  void unsupportedLoad(LoadInst *L) {
    IRBuilder<> B(L);
    B.CreateCall(rt("loadconcrete", VoidT, {PtrT, I64}), {L->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(L->getType()))});
  }
  void unsupportedAgg(StoreInst *S, Value *v) {
    if (isZero(shadow(v))) return;
    IRBuilder<> B(S);
    unsigned slot = 0;
    storeShadow(B, RetBuf, slot, v->getType(), shadow(v));
    B.CreateCall(rt("checkzero", VoidT, {I32}), {i32(slot)});
  }

  Value *str(IRBuilder<> &B, StringRef s) { return B.CreateGlobalStringPtr(s); }

  void visitIntrinsic(IntrinsicInst *II) {
    IRBuilder<> B(II);
    Type *T = II->getType();
    auto bin = [&](unsigned op) {
      if (!scalarSym(T)) { unsupported(II, {II->getArgOperand(0), II->getArgOperand(1)}, "wide intrinsic"); return; }
      Value *s = emitBin(II, op, width(T), II->getArgOperand(0), II->getArgOperand(1));
      if (!isZero(s)) sh[II] = s;
    };
    auto un = [&](unsigned op) {
      if (!scalarSym(T)) { unsupported(II, {II->getArgOperand(0)}, "wide intrinsic"); return; }
      Value *s = emitUn(II, op, width(T), width(T), II->getArgOperand(0));
      if (!isZero(s)) sh[II] = s;
    };
    auto ovf = [&](unsigned op, unsigned opo) {
      Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
      if (!scalarSym(a->getType())) { unsupported(II, {a, b}, "wide overflow arithmetic"); return; }
      if (isZero(shadow(a)) && isZero(shadow(b))) return;
      Value *s1 = emitBin(II, op, width(a->getType()), a, b);
      Value *s2 = emitBin(II, opo, width(a->getType()), a, b);
      IRBuilder<> B2(II);
      Value *agg = Constant::getNullValue(shadowTy(T));
      agg = B2.CreateInsertValue(agg, s1, 0);
      agg = B2.CreateInsertValue(agg, s2, 1);
      sh[II] = agg;
    };
    switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
      Value *n = concrete(II, II->getArgOperand(2));
      IRBuilder<> B2(II);
      B2.CreateCall(rt("memmove", VoidT, {PtrT, PtrT, I64}), {II->getArgOperand(0), II->getArgOperand(1), B2.CreateZExtOrTrunc(n, I64)});
      II->eraseFromParent();
      return;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      Value *n = concrete(II, II->getArgOperand(2));
      Value *v = concrete(II, II->getArgOperand(1));
      IRBuilder<> B2(II);
      B2.CreateCall(rt("memset", VoidT, {PtrT, I32, I64}), {II->getArgOperand(0), B2.CreateZExt(v, I32), B2.CreateZExtOrTrunc(n, I64)});
      II->eraseFromParent();
      return;
    }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: {
      Value *s = shadow(II->getArgOperand(0)); if (!isZero(s)) sh[II] = s; return;
    }
    case Intrinsic::umin: bin(OP_UMIN); return;
    case Intrinsic::umax: bin(OP_UMAX); return;
    case Intrinsic::smin: bin(OP_SMIN); return;
    case Intrinsic::smax: bin(OP_SMAX); return;
    case Intrinsic::usub_sat: bin(OP_USUBSAT); return;
    case Intrinsic::uadd_sat: bin(OP_UADDSAT); return;
    case Intrinsic::ssub_sat: bin(OP_SSUBSAT); return;
    case Intrinsic::sadd_sat: bin(OP_SADDSAT); return;
    case Intrinsic::minnum: bin(OP_FMIN); return;
    case Intrinsic::maxnum: bin(OP_FMAX); return;
    case Intrinsic::copysign: bin(OP_COPYSIGN); return;
    case Intrinsic::pow: bin(OP_POW); return;
    case Intrinsic::fabs: un(OP_FABS); return;
    case Intrinsic::sqrt: un(OP_SQRT); return;
    case Intrinsic::floor: un(OP_FLOOR); return;
    case Intrinsic::ceil: un(OP_CEIL); return;
    case Intrinsic::trunc: un(OP_FTRUNC); return;
    case Intrinsic::round: un(OP_ROUND); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: un(OP_RINT); return;
    case Intrinsic::exp: un(OP_EXP); return;
    case Intrinsic::exp2: un(OP_EXP2); return;
    case Intrinsic::log: un(OP_LOG); return;
    case Intrinsic::log2: un(OP_LOG2); return;
    case Intrinsic::log10: un(OP_LOG10); return;
    case Intrinsic::sin: un(OP_SIN); return;
    case Intrinsic::cos: un(OP_COS); return;
    case Intrinsic::ctpop: un(OP_CTPOP); return;
    case Intrinsic::ctlz: un(OP_CTLZ); return;
    case Intrinsic::cttz: un(OP_CTTZ); return;
    case Intrinsic::bswap: un(OP_BSWAP); return;
    case Intrinsic::abs: un(OP_ABS); return;
    case Intrinsic::uadd_with_overflow: ovf(OP_ADD, OP_UADDO); return;
    case Intrinsic::sadd_with_overflow: ovf(OP_ADD, OP_SADDO); return;
    case Intrinsic::usub_with_overflow: ovf(OP_SUB, OP_USUBO); return;
    case Intrinsic::ssub_with_overflow: ovf(OP_SUB, OP_SSUBO); return;
    case Intrinsic::umul_with_overflow: ovf(OP_MUL, OP_UMULO); return;
    case Intrinsic::smul_with_overflow: ovf(OP_MUL, OP_SMULO); return;
    case Intrinsic::is_fpclass: {
      Value *a = II->getArgOperand(0);
      Value *s = shadow(a);
      if (isZero(s)) return;
      if (!scalarSym(a->getType())) { unsupported(II, {a}, "is.fpclass"); return; }
      Value *nz = any(B, {s});
      sh[II] = slow(II, nz, ConstantInt::get(I64, 0), [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("fpclass", I64, {I64, I32, I32}), {s, i32(width(a->getType())), II->getArgOperand(1)});
      });
      return;
    }
    case Intrinsic::fmuladd: case Intrinsic::fma: case Intrinsic::fshl: case Intrinsic::fshr: {
      Value *a = II->getArgOperand(0), *b = II->getArgOperand(1), *c = II->getArgOperand(2);
      if (isZero(shadow(a)) && isZero(shadow(b)) && isZero(shadow(c))) return;
      if (!scalarSym(T)) { unsupported(II, {a, b, c}, "wide intrinsic"); return; }
      bool fp = !T->isIntegerTy();
      if (fp) {
        // separate multiplication and addition: exact if the terms are exact
        Value *nz = any(B, {shadow(a), shadow(b), shadow(c)});
        sh[II] = slow(II, nz, ConstantInt::get(I64, 0), [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(rt("fma", I64, {I32, I64, I64, I64, I64, I64, I64}), {i32(width(T)), shadow(a), bits(B, a), shadow(b), bits(B, b), shadow(c), bits(B, c)});
        });
        return;
      }
      bool left = II->getIntrinsicID() == Intrinsic::fshl;
      Value *nz = any(B, {shadow(a), shadow(b), shadow(c)});
      sh[II] = slow(II, nz, ConstantInt::get(I64, 0), [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(rt("fsh", I64, {I32, I32, I64, I64, I64, I64, I64, I64}), {i32(left), i32(width(T)), shadow(a), bits(B, a), shadow(b), bits(B, b), shadow(c), bits(B, c)});
      });
      return;
    }
    default: {
      std::vector<Value *> ops;
      for (auto &o : II->args()) if (scalarSym(o->getType())) ops.push_back(o);
      unsupported(II, ops, II->getCalledFunction()->getName().str().c_str());
    }
    }
  }

  void visitCall(CallBase *CB) {
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) { visitIntrinsic(II); return; }
    IRBuilder<> B(CB);
    Type *T = CB->getType();
    if (CB->isInlineAsm()) return;
    auto *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCastsAndAliases());
    StringRef n = F ? F->getName() : "";
    if (n.starts_with("__symrt_")) return;
    if (F && F->isDeclaration()) {
      auto st = stubs.find(n.str());
      if (st != stubs.end()) {
        Function *S = M.getFunction(st->second);
        if (S) { CB->setCalledFunction(S); passCall(CB, S); return; }
      }
      if (int op = mathOp(n)) {
        if (scalarSym(T) && (T->isDoubleTy() || T->isFloatTy())) {
          unsigned w = width(T);
          Value *s;
          if (CB->arg_size() == 2) s = emitBin(CB, op, w, CB->getArgOperand(0), CB->getArgOperand(1));
          else s = emitUn(CB, op, w, w, CB->getArgOperand(0));
          if (!isZero(s)) sh[CB] = s;
          return;
        }
      }
      static const std::map<std::string, std::string> repl = {
        {"memcpy", "memmove"}, {"memmove", "memmove"}, {"memset", "memset"}, {"malloc", "malloc"}, {"calloc", "calloc"}, {"realloc", "realloc"}, {"free", "free"},
        {"_Znwm", "malloc"}, {"_Znam", "malloc"}, {"_ZnwmRKSt9nothrow_t", "malloc"}, {"_ZnamRKSt9nothrow_t", "malloc"},
        {"_ZdlPv", "free"}, {"_ZdaPv", "free"}, {"_ZdlPvm", "free"}, {"_ZdaPvm", "free"},
        {"_ZnwmSt11align_val_t", "malloc"}, {"_ZdlPvSt11align_val_t", "free"}, {"_ZdlPvmSt11align_val_t", "free"}};
      for (unsigned i = 0; i < CB->arg_size(); ++i) {
        Value *a = CB->getArgOperand(i);
        if (isApi(n)) break;
        if (scalarSym(a->getType())) CB->setArgOperand(i, concrete(CB, a, isSink(n) ? "modelvalue" : "concretize"));
      }
      auto r = repl.find(n.str());
      if (r != repl.end()) {
        IRBuilder<> B2(CB);
        std::vector<Value *> args;
        unsigned keep = r->second == "malloc" ? 1 : r->second == "free" ? 1 : CB->arg_size();
        for (unsigned i = 0; i < keep; ++i) args.push_back(CB->getArgOperand(i));
        std::vector<Type *> tys;
        for (auto *a : args) tys.push_back(a->getType());
        FunctionCallee fc = rt(r->second.c_str(), r->second == "memmove" || r->second == "memset" || r->second == "free" ? VoidT : PtrT, tys);
        Value *res;
        if (auto *IV = dyn_cast<InvokeInst>(CB)) res = B2.CreateInvoke(fc, IV->getNormalDest(), IV->getUnwindDest(), args);
        else res = B2.CreateCall(fc, args);
        if (!T->isVoidTy()) CB->replaceAllUsesWith(res->getType()->isVoidTy() ? args[0] : res);
        CB->eraseFromParent();
        return;
      }
      if (isApi(n)) { passCall(CB, nullptr); return; }
      externals.insert(n.str());
      if (n.contains("__cxx1112basic_string") && CB->arg_size() && CB->getArgOperand(0)->getType()->isPointerTy() && !n.contains("C1") && !n.contains("C2")) {
        IRBuilder<> B2(CB);
        B2.CreateCall(rt("extstring", VoidT, {PtrT, PtrT}), {CB->getArgOperand(0), str(B2, n)});
      }
      if (!isSafeExternal(n)) {
        IRBuilder<> B2(CB);
        Value *nm = str(B2, n);
        for (auto &a : CB->args())
          if (a->getType()->isPointerTy() && !isa<Constant>(a)) B2.CreateCall(rt("extptr", VoidT, {PtrT, PtrT}), {a, nm});
      }
      return;
    }
    passCall(CB, F);
  }
  void passCall(CallBase *CB, Function *F) {
    IRBuilder<> B(CB);
    Type *T = CB->getType();
    unsigned slot = 0;
    for (unsigned i = 0; i < CB->getFunctionType()->getNumParams(); ++i) {
      Value *a = CB->getArgOperand(i);
      if (slots(a->getType())) storeShadow(B, ArgBuf, slot, a->getType(), shadow(a));
    }
    if (slot > 250) report_fatal_error("too many arguments");
    unsigned rs = slots(T);
    if (!rs) return;
    if (!F) { // indirect: the target may be a function that is not instrumented
      unsigned s = 0;
      storeShadow(B, RetBuf, s, T, zero(T));
    }
    Instruction *after;
    if (auto *IV = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *nd = IV->getNormalDest();
      if (nd->getSinglePredecessor() == nullptr || isa<PHINode>(nd->front())) {
        BasicBlock *nb = BasicBlock::Create(C, "inv.cont", CB->getFunction(), nd);
        BranchInst::Create(nd, nb);
        IV->setNormalDest(nb);
        nd->replacePhiUsesWith(IV->getParent(), nb);
        nd = nb;
      }
      after = &*nd->getFirstInsertionPt();
    } else after = CB->getNextNode();
    IRBuilder<> A(after);
    unsigned s = 0;
    sh[CB] = loadShadow(A, RetBuf, s, T);
  }

  void runOnFunction(Function &F) {
    nfun++;
    sh.clear();
    EliminateUnreachableBlocks(F);
    {
      std::vector<AllocaInst *> al;
      for (auto &I : F.getEntryBlock()) if (auto *A = dyn_cast<AllocaInst>(&I)) if (isa<ConstantInt>(A->getArraySize())) al.push_back(A);
      Instruction *pos = &*F.getEntryBlock().begin();
      for (auto *A : al) { if (A == pos) { pos = pos->getNextNode(); continue; } A->moveBefore(pos); }
    }
    taint(F);
    std::vector<BasicBlock *> order;
    {
      ReversePostOrderTraversal<Function *> rpo(&F);
      for (auto *b : rpo) order.push_back(b);
    }
    std::vector<Instruction *> work;
    std::vector<PHINode *> phis;
    for (auto *b : order) for (auto &I : *b) {
      ninst++;
      if (auto *p = dyn_cast<PHINode>(&I)) { if (slots(p->getType()) && may.count(p)) phis.push_back(p); }
      else work.push_back(&I);
    }
    // argument shadows
    {
      IRBuilder<> B(&*F.getEntryBlock().begin());
      unsigned slot = 0;
      for (auto &A : F.args()) if (slots(A.getType())) sh[&A] = loadShadow(B, ArgBuf, slot, A.getType());
    }
    for (auto *p : phis) {
      IRBuilder<> B(p);
      sh[p] = B.CreatePHI(shadowTy(p->getType()), p->getNumIncomingValues());
    }
    for (auto *I : work) visit(I);
    for (auto *p : phis) {
      auto *sp = cast<PHINode>(sh[p]);
      for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) sp->addIncoming(shadow(p->getIncomingValue(i)), p->getIncomingBlock(i));
    }
  }

  void run(bool list) {
    unlikely = MDNode::get(C, {MDString::get(C, "branch_weights"), ConstantAsMetadata::get(i32c(1)), ConstantAsMetadata::get(i32c(100000))});
    std::vector<Function *> fs;
    for (auto &F : M) { if (!F.isIntrinsic()) stripFun(F); if (!F.isDeclaration()) fs.push_back(&F); }
    for (auto *F : fs) { F->removeFnAttr(Attribute::OptimizeNone); prepare(*F); lowerByVal(*F); }
    for (auto *F : fs) { AttributeMask m; m.addAttribute(Attribute::ByVal); for (unsigned i = 0; i < F->arg_size(); ++i) F->removeParamAttrs(i, m); }
    for (auto *F : fs) runOnFunction(*F);
    (void)list;
  }
  Constant *i32c(unsigned n) { return ConstantInt::get(I32, n); }
};

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: instrument in.bc out.bc info.txt\n"; return 2; }
  LLVMContext C;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, C);
  if (!M) { err.print(argv[0], errs()); return 2; }
  // functions of the repository that are present, inlined or not
  std::set<std::string> funs;
  for (auto &F : *M) {
    auto note = [&](DISubprogram *sp) {
      if (!sp) return;
      std::string fn = (sp->getDirectory() + "/" + sp->getFilename()).str();
      if (fn.find("include/aleph/") == std::string::npos) return;
      std::string ln = sp->getLinkageName().str();
      std::string d = ln.empty() ? sp->getName().str() : demangle(ln);
      size_t p = fn.find("include/aleph/");
      std::string base = sp->getName().str();
      funs.insert(fn.substr(p + 14) + ":" + base);
    };
    note(F.getSubprogram());
    for (auto &I : instructions(F)) {
      auto dl = I.getDebugLoc();
      for (auto *L = dl.get(); L; L = L->getInlinedAt()) note(L->getScope()->getSubprogram());
    }
  }
  StripDebugInfo(*M);
  Tool T(*M);
  T.run(true);
  // The shared library of the solver must not pick up instrumented versions of templates
  for (auto &F : *M)
    if (!F.isDeclaration() && F.hasWeakLinkage() | F.hasLinkOnceLinkage()) { F.setVisibility(GlobalValue::HiddenVisibility); F.setDSOLocal(true); }
  if (verifyModule(*M, &errs())) { errs() << "broken module\n"; return 3; }
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec, sys::fs::OF_None);
  WriteBitcodeToFile(*M, os);
  raw_fd_ostream info(argv[3], ec, sys::fs::OF_Text);
  info << "functions " << T.nfun << "\ninstructions " << T.ninst << "\n";
  for (auto &e : T.externals) info << "external " << e << "\n";
  for (auto &f : funs) info << "aleph " << f << "\n";
  return 0;
}
