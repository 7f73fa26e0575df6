// symx: LLVM pass that turns the compiled code of /repo (plus a harness) into a
// symbolic executor: every scalar SSA value gets a shadow expression pointer, every
// memory access a shadow access, every branch on a symbolic condition asks the run time.
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Verifier.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;
namespace {

using SV = SmallVector<Value *, 4>;
constexpr unsigned MAXSLOT = 128;

struct Symx {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  PointerType *P; IntegerType *I1, *I8, *I32, *I64; Type *F64, *VOID;
  Constant *NUL;
  GlobalVariable *gArgs, *gRet, *gCallee, *gRetFn;
  std::map<std::string, FunctionCallee> fc;
  std::set<Function *> defined;
  unsigned site = 0;

  Symx(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    P = PointerType::getUnqual(C); I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C);
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); F64 = Type::getDoubleTy(C); VOID = Type::getVoidTy(C);
    NUL = ConstantPointerNull::get(P);
    auto gv = [&](Type *t, const char *n) {
      return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
    };
    gArgs = gv(ArrayType::get(P, MAXSLOT), "__sym_args");
    gRet = gv(ArrayType::get(P, MAXSLOT), "__sym_ret");
    gCallee = gv(P, "__sym_callee");
    gRetFn = gv(P, "__sym_retfn");
  }
  FunctionCallee fn(const char *n, Type *r, ArrayRef<Type *> a) {
    auto it = fc.find(n);
    if (it != fc.end()) return it->second;
    auto f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    if (auto *F = dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
    return fc[n] = f;
  }

  // --- leaves -----------------------------------------------------------------
  void leaves(Type *t, SmallVectorImpl<Type *> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) leaves(e, out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), out); return; }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), out); return; }
    if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return;
    out.push_back(t);
  }
  unsigned nleaves(Type *t) { SmallVector<Type *, 8> v; leaves(t, v); return v.size(); }
  static bool scal(Type *t) { return (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) || t->isFloatTy() || t->isDoubleTy(); }

  // --- per function state -------------------------------------------------------
  Function *F = nullptr;
  DenseMap<Value *, SV> sh;

  SV &S(Value *v) {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    unsigned n = nleaves(v->getType());
    SV s; for (unsigned i = 0; i < n; i++) s.push_back(NUL);
    return sh[v] = s;
  }
  Value *S0(Value *v) { auto &s = S(v); return s.empty() ? NUL : s[0]; }
  bool isNull(Value *s) { return s == NUL; }
  bool allNull(Value *v) { for (auto *s : S(v)) if (!isNull(s)) return false; return true; }

  // extract concrete leaf i of v
  Value *leafVal(IRBuilder<> &B, Value *v, unsigned idx) {
    Type *t = v->getType();
    if (auto *st = dyn_cast<StructType>(t)) {
      for (unsigned i = 0; i < st->getNumElements(); i++) {
        unsigned n = nleaves(st->getElementType(i));
        if (idx < n) return leafVal(B, B.CreateExtractValue(v, i), idx);
        idx -= n;
      }
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      unsigned n = nleaves(at->getElementType());
      return leafVal(B, B.CreateExtractValue(v, idx / n), idx % n);
    }
    if (isa<FixedVectorType>(t)) return B.CreateExtractElement(v, idx);
    return v;
  }
  Value *asI64(IRBuilder<> &B, Value *v) {
    Type *t = v->getType();
    if (t->isIntegerTy()) {
      if (t->getIntegerBitWidth() < 64) return B.CreateZExt(v, I64);
      if (t->getIntegerBitWidth() > 64) return B.CreateTrunc(v, I64);
      return v;
    }
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    return ConstantInt::get(I64, 0);
  }
  Value *asF64(IRBuilder<> &B, Value *v) {
    if (v->getType()->isFloatTy()) return B.CreateFPExt(v, F64);
    return v;
  }
  unsigned width(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
  }
  Value *c32(unsigned x) { return ConstantInt::get(I32, x); }

  void concretize(IRBuilder<> &B, Value *v) {
    unsigned n = nleaves(v->getType());
    for (unsigned i = 0; i < n; i++) {
      Value *s = S(v)[i];
      if (isNull(s)) continue;
      Value *l = leafVal(B, v, i);
      if (!scal(l->getType())) continue;
      if (l->getType()->isIntegerTy())
        B.CreateCall(fn("__sym_concretize", VOID, {P, I64, I32}), {s, asI64(B, l), c32(width(l->getType()))});
      else
        B.CreateCall(fn("__sym_escape", VOID, {P, F64, I32}), {s, asF64(B, l), c32(0)});
    }
  }

  Value *binShadow(IRBuilder<> &B, unsigned op, Value *sa, Value *a, Value *sb, Value *b) {
    if (isNull(sa) && isNull(sb)) return NUL;
    Type *t = a->getType();
    if (!scal(t)) return NUL;
    if (t->isIntegerTy())
      return B.CreateCall(fn("__sym_bin", P, {I32, P, I64, P, I64, I32}), {c32(op), sa, asI64(B, a), sb, asI64(B, b), c32(width(t))});
    return B.CreateCall(fn("__sym_fbin", P, {I32, P, F64, P, F64, I32}), {c32(op), sa, asF64(B, a), sb, asF64(B, b), c32(width(t))});
  }
  Value *cmpShadow(IRBuilder<> &B, CmpInst *ci, Value *sa, Value *a, Value *sb, Value *b) {
    if (isNull(sa) && isNull(sb)) return NUL;
    Type *t = a->getType();
    if (!scal(t)) return NUL;
    if (t->isIntegerTy())
      return B.CreateCall(fn("__sym_icmp", P, {I32, P, I64, P, I64, I32}), {c32(ci->getPredicate()), sa, asI64(B, a), sb, asI64(B, b), c32(width(t))});
    return B.CreateCall(fn("__sym_fcmp", P, {I32, P, F64, P, F64, I32}), {c32(ci->getPredicate()), sa, asF64(B, a), sb, asF64(B, b), c32(width(t))});
  }
  Value *castShadow(IRBuilder<> &B, unsigned op, Value *sa, Value *a, Type *to) {
    if (isNull(sa)) return NUL;
    if (!scal(a->getType())) return NUL;
    if (!scal(to)) { concretize(B, a); return NUL; }
    unsigned fk = a->getType()->isIntegerTy() ? 0 : 1, tk = to->isIntegerTy() ? 0 : 1;
    Value *ca = fk ? asI64(B, a) : asI64(B, a);
    return B.CreateCall(fn("__sym_cast", P, {I32, P, I64, I32, I32, I32, I32}),
                        {c32(op), sa, ca, c32(fk), c32(width(a->getType())), c32(tk), c32(width(to))});
  }
  // memory
  SV loadShadow(IRBuilder<> &B, Value *ptr, Type *t, uint64_t off = 0) {
    SV out;
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) {
        SV x = loadShadow(B, ptr, st->getElementType(i), off + sl->getElementOffset(i));
        out.append(x.begin(), x.end());
      }
      return out;
    }
    Type *et = nullptr; uint64_t n = 0;
    if (auto *at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); n = at->getNumElements(); }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); n = vt->getNumElements(); }
    if (et) {
      for (uint64_t i = 0; i < n; i++) {
        SV x = loadShadow(B, ptr, et, off + i * DL.getTypeAllocSize(et));
        out.append(x.begin(), x.end());
      }
      return out;
    }
    if (!scal(t)) { out.push_back(NUL); return out; }
    Value *p = off ? B.CreateConstGEP1_64(I8, ptr, off) : ptr;
    unsigned kind = t->isIntegerTy() ? 0 : 1;
    out.push_back(B.CreateCall(fn("__sym_load", P, {P, I32, I32, I32}), {p, c32(DL.getTypeStoreSize(t)), c32(kind), c32(width(t))}));
    return out;
  }
  unsigned storeShadow(IRBuilder<> &B, Value *ptr, Type *t, SV &s, unsigned k = 0, uint64_t off = 0) {
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) k = storeShadow(B, ptr, st->getElementType(i), s, k, off + sl->getElementOffset(i));
      return k;
    }
    Type *et = nullptr; uint64_t n = 0;
    if (auto *at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); n = at->getNumElements(); }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); n = vt->getNumElements(); }
    if (et) {
      for (uint64_t i = 0; i < n; i++) k = storeShadow(B, ptr, et, s, k, off + i * DL.getTypeAllocSize(et));
      return k;
    }
    Value *p = off ? B.CreateConstGEP1_64(I8, ptr, off) : ptr;
    B.CreateCall(fn("__sym_store", VOID, {P, I32, P}), {p, c32(DL.getTypeStoreSize(t)), s[k]});
    return k + 1;
  }

  Value *branchDir(IRBuilder<> &B, Value *s, Value *c) {
    if (isNull(s)) return c;
    return B.CreateCall(fn("__sym_branch", I1, {P, I1, I32}), {s, c, c32(++site)});
  }

  void readRet(IRBuilder<> &B, CallBase *cb, Value *callee) {
    unsigned n = nleaves(cb->getType());
    if (!n) return;
    SmallVector<Type *, 8> lt; leaves(cb->getType(), lt);
    bool any = false; for (auto *t : lt) any |= scal(t);
    if (!any) return;
    Value *ok = B.CreateICmpEQ(B.CreateLoad(P, gRetFn), callee);
    SV s;
    for (unsigned i = 0; i < n; i++) {
      if (!scal(lt[i]) || i >= MAXSLOT) { s.push_back(NUL); continue; }
      Value *l = B.CreateLoad(P, B.CreateConstGEP2_32(gRet->getValueType(), gRet, 0, i));
      s.push_back(B.CreateSelect(ok, l, NUL));
    }
    sh[cb] = s;
  }

  static bool startsWith(StringRef s, const char *p) { return s.starts_with(p); }

  void handleIntrinsic(IntrinsicInst *ii) {
    IRBuilder<> B(ii);
    Type *t = ii->getType();
    switch (ii->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::trap: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for:
    case Intrinsic::objectsize: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
      return;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
      concretize(B, ii->getArgOperand(2));
      IRBuilder<> A(ii);   // before the copy: source shadows are intact; values compared against source bytes
      A.CreateCall(fn("__sym_memcpy", VOID, {P, P, I64}), {ii->getArgOperand(0), ii->getArgOperand(1), A.CreateZExtOrTrunc(ii->getArgOperand(2), I64)});
      return; }
    case Intrinsic::memset: {
      concretize(B, ii->getArgOperand(2)); concretize(B, ii->getArgOperand(1));
      B.CreateCall(fn("__sym_memset", VOID, {P, I64}), {ii->getArgOperand(0), B.CreateZExtOrTrunc(ii->getArgOperand(2), I64)});
      return; }
    case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sin: case Intrinsic::cos:
    case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::copysign:
    case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: {
      unsigned na = ii->arg_size();
      unsigned n = nleaves(t);
      std::string nm = Intrinsic::getBaseName(ii->getIntrinsicID()).str().substr(5);
      SV out;
      for (unsigned i = 0; i < n; i++) {
        Value *sa = S(ii->getArgOperand(0))[i], *sb = na > 1 ? S(ii->getArgOperand(1))[i] : NUL;
        if (isNull(sa) && isNull(sb)) { out.push_back(NUL); continue; }
        Value *a = leafVal(B, ii->getArgOperand(0), i), *b = na > 1 ? leafVal(B, ii->getArgOperand(1), i) : nullptr;
        out.push_back(libm(B, nm, sa, a, sb, b));
      }
      sh[ii] = out; return; }
    case Intrinsic::fmuladd: case Intrinsic::fma: {
      SV out; unsigned n = nleaves(t);
      for (unsigned i = 0; i < n; i++) {
        Value *a = leafVal(B, ii->getArgOperand(0), i), *b = leafVal(B, ii->getArgOperand(1), i), *c = leafVal(B, ii->getArgOperand(2), i);
        Value *m = binShadow(B, Instruction::FMul, S(ii->getArgOperand(0))[i], a, S(ii->getArgOperand(1))[i], b);
        Value *mc = B.CreateFMul(a, b);
        out.push_back(binShadow(B, Instruction::FAdd, m, mc, S(ii->getArgOperand(2))[i], c));
      }
      sh[ii] = out; return; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
      SV out; unsigned n = nleaves(t);
      CmpInst::Predicate p = ii->getIntrinsicID() == Intrinsic::umin ? CmpInst::ICMP_ULT : ii->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT
                           : ii->getIntrinsicID() == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
      for (unsigned i = 0; i < n; i++) {
        Value *sa = S(ii->getArgOperand(0))[i], *sb = S(ii->getArgOperand(1))[i];
        if (isNull(sa) && isNull(sb)) { out.push_back(NUL); continue; }
        Value *a = leafVal(B, ii->getArgOperand(0), i), *b = leafVal(B, ii->getArgOperand(1), i);
        Value *cc = B.CreateICmp(p, a, b);
        Value *cs = B.CreateCall(fn("__sym_icmp", P, {I32, P, I64, P, I64, I32}), {c32(p), sa, asI64(B, a), sb, asI64(B, b), c32(width(a->getType()))});
        out.push_back(B.CreateCall(fn("__sym_select", P, {P, I1, P, I64, P, I64, I32}), {cs, cc, sa, asI64(B, a), sb, asI64(B, b), c32(width(a->getType()))}));
      }
      sh[ii] = out; return; }
    case Intrinsic::usub_sat: {
      Value *a = ii->getArgOperand(0), *b = ii->getArgOperand(1);
      if (allNull(a) && allNull(b)) return;
      if (!scal(t)) break;
      Value *sa = S0(a), *sb = S0(b);
      Value *cc = B.CreateICmpUGT(a, b);
      Value *cs = B.CreateCall(fn("__sym_icmp", P, {I32, P, I64, P, I64, I32}), {c32(CmpInst::ICMP_UGT), sa, asI64(B, a), sb, asI64(B, b), c32(width(t))});
      Value *d = B.CreateSub(a, b);
      Value *ds = binShadow(B, Instruction::Sub, sa, a, sb, b);
      sh[ii] = SV{B.CreateCall(fn("__sym_select", P, {P, I1, P, I64, P, I64, I32}), {cs, cc, ds, asI64(B, d), NUL, ConstantInt::get(I64, 0), c32(width(t))})};
      return; }
    default: break;
    }
    for (auto &a : ii->args()) if (!isa<MetadataAsValue>(a.get())) concretize(B, a.get());
  }

  Value *libm(IRBuilder<> &B, StringRef nm, Value *sa, Value *a, Value *sb, Value *b) {
    Value *name = B.CreateGlobalStringPtr(nm);
    return B.CreateCall(fn("__sym_libm", P, {P, P, F64, P, F64, I32}),
                        {name, sa, asF64(B, a), sb, b ? asF64(B, b) : ConstantFP::get(F64, 0.0), c32(width(a->getType()))});
  }
  static bool libmName(StringRef n, std::string &base) {
    static const std::set<std::string> k = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "fabs", "floor", "ceil", "round", "hypot", "fmin", "fmax", "fmod", "trunc"};
    std::string s = n.str();
    if (k.count(s)) { base = s; return true; }
    if (s.size() > 1 && s.back() == 'f' && k.count(s.substr(0, s.size() - 1))) { base = s.substr(0, s.size() - 1); return true; }
    return false;
  }

  void handleCall(CallBase *cb) {
    if (auto *ii = dyn_cast<IntrinsicInst>(cb)) { handleIntrinsic(ii); return; }
    if (cb->isInlineAsm()) return;
    Value *callee = cb->getCalledOperand();
    Function *fnc = dyn_cast<Function>(callee->stripPointerCasts());
    IRBuilder<> B(cb);
    StringRef nm = fnc ? fnc->getName() : "";
    if (auto *ci = dyn_cast<CallInst>(cb)) if (!ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
    bool external = fnc && !defined.count(fnc);
    if (external && startsWith(nm, "__sym_")) return;
    if (external) {
      std::string base;
      if (libmName(nm, base) && cb->arg_size() >= 1 && scal(cb->getType())) {
        Value *a = cb->getArgOperand(0), *b = cb->arg_size() > 1 ? cb->getArgOperand(1) : nullptr;
        Value *sa = S0(a), *sb = b ? S0(b) : NUL;
        if (!isNull(sa) || !isNull(sb)) sh[cb] = SV{libm(B, base, sa, a, sb, b)};
        return;
      }
      if (startsWith(nm, "symi_")) {   // harness interface: pass shadows of all scalar arguments
        B.CreateStore(callee, gCallee);
        unsigned k = 0;
        for (auto &a : cb->args()) for (auto *s : S(a.get())) { if (k < MAXSLOT) B.CreateStore(s, B.CreateConstGEP2_32(gArgs->getValueType(), gArgs, 0, k)); k++; }
        B.CreateStore(NUL, gRetFn);
        insertAfter(cb, [&](IRBuilder<> &A) { readRet(A, cb, callee); });
        return;
      }
      B.CreateStore(NUL, gCallee);
      if (nm == "memcpy" || nm == "memmove") {
        concretize(B, cb->getArgOperand(2));
        B.CreateCall(fn("__sym_memcpy", VOID, {P, P, I64}), {cb->getArgOperand(0), cb->getArgOperand(1), cb->getArgOperand(2)});
        return;
      }
      if (nm == "memset") {
        concretize(B, cb->getArgOperand(2)); concretize(B, cb->getArgOperand(1));
        B.CreateCall(fn("__sym_memset", VOID, {P, I64}), {cb->getArgOperand(0), cb->getArgOperand(2)});
        return;
      }
      if (nm == "memcmp" || nm == "bcmp") {
        concretize(B, cb->getArgOperand(2));
        B.CreateCall(fn("__sym_memread", VOID, {P, I64}), {cb->getArgOperand(0), cb->getArgOperand(2)});
        B.CreateCall(fn("__sym_memread", VOID, {P, I64}), {cb->getArgOperand(1), cb->getArgOperand(2)});
        return;
      }
      bool os = startsWith(nm, "_ZNSo") || startsWith(nm, "_ZStls");   // output formatting: value not modelled, by design
      for (auto &a : cb->args()) {
        if (isa<MetadataAsValue>(a.get())) continue;
        if (os) continue;
        concretize(B, a.get());
      }
      return;
    }
    // instrumented or indirect callee
    unsigned k = 0; bool any = false;
    for (unsigned ai = 0; ai < cb->arg_size(); ai++) {
      Value *a = cb->getArgOperand(ai);
      if (cb->isByValArgument(ai)) { any = true; k++; continue; }
      for (auto *s : S(a)) { if (!isNull(s)) any = true; k++; }
    }
    if (any && k <= MAXSLOT) {
      B.CreateStore(callee, gCallee);
      k = 0;
      for (unsigned ai = 0; ai < cb->arg_size(); ai++) {
        Value *a = cb->getArgOperand(ai);
        if (cb->isByValArgument(ai)) { B.CreateStore(a, B.CreateConstGEP2_32(gArgs->getValueType(), gArgs, 0, k++)); continue; }
        for (auto *s : S(a)) B.CreateStore(s, B.CreateConstGEP2_32(gArgs->getValueType(), gArgs, 0, k++));
      }
    } else
      B.CreateStore(NUL, gCallee);
    B.CreateStore(NUL, gRetFn);
    insertAfter(cb, [&](IRBuilder<> &A) { readRet(A, cb, callee); });
  }
  template <class Fn> void insertAfter(CallBase *cb, Fn f) {
    if (auto *inv = dyn_cast<InvokeInst>(cb)) {
      IRBuilder<> A(&*inv->getNormalDest()->getFirstInsertionPt());
      f(A);
    } else {
      IRBuilder<> A(cb->getNextNode());
      f(A);
    }
  }

  unsigned leafOffset(Type *t, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned ix : idx) {
      if (auto *st = dyn_cast<StructType>(t)) {
        for (unsigned i = 0; i < ix; i++) off += nleaves(st->getElementType(i));
        t = st->getElementType(ix);
      } else {
        t = cast<ArrayType>(t)->getElementType();
        off += ix * nleaves(t);
      }
    }
    return off;
  }

  void visit(Instruction *I) {
    IRBuilder<> B(I);
    Type *t = I->getType();
    if (isa<PHINode>(I)) return;
    if (auto *cb = dyn_cast<CallBase>(I)) { handleCall(cb); return; }
    if (auto *l = dyn_cast<LoadInst>(I)) {
      IRBuilder<> A(I->getNextNode());
      SmallVector<Type *, 8> lt; leaves(t, lt);
      bool any = false; for (auto *x : lt) any |= scal(x);
      if (any) sh[I] = loadShadow(A, l->getPointerOperand(), t);
      return;
    }
    if (auto *s = dyn_cast<StoreInst>(I)) {
      IRBuilder<> A(I->getNextNode());
      SV sv = S(s->getValueOperand());
      storeShadow(A, s->getPointerOperand(), s->getValueOperand()->getType(), sv);
      return;
    }
    if (auto *b = dyn_cast<BinaryOperator>(I)) {
      SV out; unsigned n = nleaves(t);
      Value *x = b->getOperand(0), *y = b->getOperand(1);
      for (unsigned i = 0; i < n; i++) {
        if (isNull(S(x)[i]) && isNull(S(y)[i])) { out.push_back(NUL); continue; }
        Value *cx = leafVal(B, x, i), *cy = leafVal(B, y, i);
        if (!scal(cx->getType())) { concretize(B, x); concretize(B, y); out.push_back(NUL); continue; }
        out.push_back(binShadow(B, b->getOpcode(), S(x)[i], cx, S(y)[i], cy));
      }
      sh[I] = out; return;
    }
    if (auto *u = dyn_cast<UnaryOperator>(I)) {
      SV out; unsigned n = nleaves(t);
      for (unsigned i = 0; i < n; i++) {
        Value *s = S(u->getOperand(0))[i];
        if (isNull(s)) { out.push_back(NUL); continue; }
        out.push_back(B.CreateCall(fn("__sym_fneg", P, {P, I32}), {s, c32(width(leafVal(B, u->getOperand(0), i)->getType()))}));
      }
      sh[I] = out; return;
    }
    if (auto *c = dyn_cast<CmpInst>(I)) {
      SV out; unsigned n = nleaves(c->getOperand(0)->getType());
      for (unsigned i = 0; i < n; i++) {
        Value *x = c->getOperand(0), *y = c->getOperand(1);
        if (isNull(S(x)[i]) && isNull(S(y)[i])) { out.push_back(NUL); continue; }
        Value *cx = leafVal(B, x, i), *cy = leafVal(B, y, i);
        if (!scal(cx->getType())) { concretize(B, x); concretize(B, y); out.push_back(NUL); continue; }
        out.push_back(cmpShadow(B, c, S(x)[i], cx, S(y)[i], cy));
      }
      sh[I] = out; return;
    }
    if (auto *c = dyn_cast<CastInst>(I)) {
      Value *x = c->getOperand(0);
      unsigned nf = nleaves(x->getType()), nt = nleaves(t);
      if (allNull(x)) return;
      if (nf == nt) {
        SV out;
        SmallVector<Type *, 8> lt; leaves(t, lt);
        for (unsigned i = 0; i < nf; i++) {
          Value *l = leafVal(B, x, i);
          out.push_back(castShadow(B, c->getOpcode(), S(x)[i], l, lt[i]));
        }
        sh[I] = out;
      } else {   // vector <-> integer bit casts: go through memory
        IRBuilder<> E(&*F->getEntryBlock().getFirstInsertionPt());
        AllocaInst *tmp = E.CreateAlloca(x->getType());
        B.CreateStore(x, tmp);
        SV sx = S(x);
        storeShadow(B, tmp, x->getType(), sx);
        sh[I] = loadShadow(B, tmp, t);
      }
      return;
    }
    if (auto *s = dyn_cast<SelectInst>(I)) {
      Value *c = s->getCondition();
      if (isa<FixedVectorType>(c->getType())) {
        SV out; unsigned n = nleaves(t);
        concretize(B, c);
        for (unsigned i = 0; i < n; i++) {
          Value *a = S(s->getTrueValue())[i], *b = S(s->getFalseValue())[i];
          out.push_back(isNull(a) && isNull(b) ? NUL : B.CreateSelect(leafVal(B, c, i), a, b));
        }
        sh[I] = out; return;
      }
      Value *cs = S0(c);
      bool intSel = t->isIntegerTy() && t->getIntegerBitWidth() <= 64;
      if (!isNull(cs) && intSel) {
        Value *a = s->getTrueValue(), *b = s->getFalseValue();
        sh[I] = SV{B.CreateCall(fn("__sym_select", P, {P, I1, P, I64, P, I64, I32}), {cs, c, S0(a), asI64(B, a), S0(b), asI64(B, b), c32(width(t))})};
        return;
      }
      Value *dir = branchDir(B, cs, c);
      s->setCondition(dir);
      SV out; unsigned n = nleaves(t);
      for (unsigned i = 0; i < n; i++) {
        Value *a = S(s->getTrueValue())[i], *b = S(s->getFalseValue())[i];
        out.push_back(isNull(a) && isNull(b) ? NUL : B.CreateSelect(dir, a, b));
      }
      sh[I] = out; return;
    }
    if (auto *br = dyn_cast<BranchInst>(I)) {
      if (br->isConditional()) br->setCondition(branchDir(B, S0(br->getCondition()), br->getCondition()));
      return;
    }
    if (auto *sw = dyn_cast<SwitchInst>(I)) { concretize(B, sw->getCondition()); return; }
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) { for (auto &ix : g->indices()) concretize(B, ix.get()); return; }
    if (auto *a = dyn_cast<AllocaInst>(I)) { concretize(B, a->getArraySize()); return; }
    if (auto *fr = dyn_cast<FreezeInst>(I)) { SV tmp = S(fr->getOperand(0)); sh[I] = tmp; return; }
    if (auto *ev = dyn_cast<ExtractValueInst>(I)) {
      Value *a = ev->getAggregateOperand();
      unsigned off = leafOffset(a->getType(), ev->getIndices()), n = nleaves(t);
      SV src = S(a), out;
      for (unsigned i = 0; i < n; i++) out.push_back(src[off + i]);
      sh[I] = out; return;
    }
    if (auto *iv = dyn_cast<InsertValueInst>(I)) {
      SV out = S(iv->getAggregateOperand()), src = S(iv->getInsertedValueOperand());
      unsigned off = leafOffset(t, iv->getIndices());
      for (unsigned i = 0; i < src.size(); i++) out[off + i] = src[i];
      sh[I] = out; return;
    }
    if (auto *ee = dyn_cast<ExtractElementInst>(I)) {
      SV src = S(ee->getVectorOperand());
      concretize(B, ee->getIndexOperand());
      if (auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) sh[I] = SV{src[ci->getZExtValue()]};
      else {
        Value *r = NUL;
        for (unsigned i = 0; i < src.size(); i++) r = B.CreateSelect(B.CreateICmpEQ(ee->getIndexOperand(), ConstantInt::get(ee->getIndexOperand()->getType(), i)), src[i], r);
        sh[I] = SV{r};
      }
      return;
    }
    if (auto *ie = dyn_cast<InsertElementInst>(I)) {
      SV out = S(ie->getOperand(0)); Value *s = S0(ie->getOperand(1));
      concretize(B, ie->getOperand(2));
      if (auto *ci = dyn_cast<ConstantInt>(ie->getOperand(2))) out[ci->getZExtValue()] = s;
      else for (unsigned i = 0; i < out.size(); i++) out[i] = B.CreateSelect(B.CreateICmpEQ(ie->getOperand(2), ConstantInt::get(ie->getOperand(2)->getType(), i)), s, out[i]);
      sh[I] = out; return;
    }
    if (auto *sv = dyn_cast<ShuffleVectorInst>(I)) {
      SV a = S(sv->getOperand(0)), b = S(sv->getOperand(1)), out;
      for (int m : sv->getShuffleMask()) out.push_back(m < 0 ? (Value *)NUL : (unsigned)m < a.size() ? a[m] : b[m - a.size()]);
      sh[I] = out; return;
    }
    if (auto *r = dyn_cast<ReturnInst>(I)) {
      Value *v = r->getReturnValue();
      if (!v) return;
      SV s = S(v);
      if (!s.size()) return;
      for (unsigned i = 0; i < s.size() && i < MAXSLOT; i++) B.CreateStore(s[i], B.CreateConstGEP2_32(gRet->getValueType(), gRet, 0, i));
      B.CreateStore(F, gRetFn);
      return;
    }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
      for (auto &o : I->operands()) concretize(B, o.get());
      return;
    }
    if (isa<UnreachableInst>(I) || isa<ResumeInst>(I) || isa<LandingPadInst>(I) || isa<FenceInst>(I)) return;
    for (auto &o : I->operands()) if (!isa<BasicBlock>(o.get())) concretize(B, o.get());
  }

  void instrument(Function &f) {
    F = &f; sh.clear();
    // give every invoke its own normal destination
    SmallVector<InvokeInst *, 8> invs;
    for (auto &I : instructions(f)) if (auto *inv = dyn_cast<InvokeInst>(&I)) invs.push_back(inv);
    for (auto *inv : invs) {
      BasicBlock *nd = inv->getNormalDest();
      if (nd->getSinglePredecessor() && nd->phis().empty()) continue;
      BasicBlock *nb = BasicBlock::Create(C, "", &f, nd);
      BranchInst::Create(nd, nb);
      for (auto &phi : nd->phis()) {
        int ix = phi.getBasicBlockIndex(inv->getParent());
        phi.setIncomingBlock(ix, nb);
      }
      inv->setNormalDest(nb);
    }
    std::vector<Instruction *> order;
    std::vector<PHINode *> phis;
    {
      ReversePostOrderTraversal<Function *> rpo(&f);
      for (auto *bb : rpo) for (auto &I : *bb) { order.push_back(&I); if (auto *p = dyn_cast<PHINode>(&I)) phis.push_back(p); }
    }
    // phi shadows
    for (auto *p : phis) {
      SmallVector<Type *, 4> lt; leaves(p->getType(), lt);
      SV s;
      for (auto *t : lt) {
        if (!scal(t)) { s.push_back(NUL); continue; }
        PHINode *sp = PHINode::Create(P, p->getNumIncomingValues(), "", p);
        s.push_back(sp);
      }
      sh[p] = s;
    }
    // arguments
    BasicBlock &eb = f.getEntryBlock();
    Instruction *first = &*eb.getFirstInsertionPt();
    while (isa<AllocaInst>(first)) first = first->getNextNode();
    {
      IRBuilder<> B(first);
      bool need = false; unsigned k = 0;
      for (auto &a : f.args()) { if (a.hasByValAttr()) need = true; SmallVector<Type *, 4> lt; leaves(a.getType(), lt); for (auto *t : lt) need |= scal(t); }
      if (need) {
        Value *ok = B.CreateICmpEQ(B.CreateLoad(P, gCallee), &f);
        for (auto &a : f.args()) {
          if (a.hasByValAttr()) {
            Value *src = B.CreateSelect(ok, B.CreateLoad(P, B.CreateConstGEP2_32(gArgs->getValueType(), gArgs, 0, k)), NUL);
            B.CreateCall(fn("__sym_byval", VOID, {P, P, I64}), {&a, src, ConstantInt::get(I64, DL.getTypeAllocSize(a.getParamByValType()))});
            k++; continue;
          }
          SmallVector<Type *, 4> lt; leaves(a.getType(), lt);
          SV s;
          for (auto *t : lt) {
            if (!scal(t) || k >= MAXSLOT) s.push_back(NUL);
            else s.push_back(B.CreateSelect(ok, B.CreateLoad(P, B.CreateConstGEP2_32(gArgs->getValueType(), gArgs, 0, k)), NUL));
            k++;
          }
          sh[&a] = s;
        }
        B.CreateStore(NUL, gCallee);
      }
      std::string dn = demangle(f.getName().str());
      if (dn.find("ESKF_VIO_BACKEND::") != std::string::npos && dn.find("std::") != 0 && dn.find("Eigen::") != 0) {
        // evidence: record that this repository function was executed symbolically
        auto pos = dn.find('(');
        std::string shortn = pos == std::string::npos ? dn : dn.substr(0, pos);
        if (shortn.find("std::") == std::string::npos && shortn.find("gnu_cxx") == std::string::npos) {
          auto *cell = new GlobalVariable(M, I8, false, GlobalValue::PrivateLinkage, ConstantInt::get(I8, 0), "__sym_seen");
          (void)cell;
          B.CreateCall(fn("__sym_fn", VOID, {P, P}), {cell, B.CreateGlobalStringPtr(shortn)});
        }
      }
    }
    for (auto *I : order) visit(I);
    for (auto *p : phis) {
      SV s = sh[p];
      for (unsigned k = 0; k < s.size(); k++) {
        auto *sp = dyn_cast<PHINode>(s[k]);
        if (!sp || isNull(s[k])) continue;
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
          Value *in = p->getIncomingValue(i);
          sp->addIncoming(S(in)[k], p->getIncomingBlock(i));
        }
      }
    }
  }

  void run() {
    std::vector<Function *> fs;
    for (auto &f : M) if (!f.isDeclaration() && !f.getName().starts_with("__sym_") && !f.getName().starts_with("symi_")) { fs.push_back(&f); defined.insert(&f); }
    // redirect realloc so that shadows move with the data
    if (Function *r = M.getFunction("realloc")) {
      auto f = fn("__sym_realloc", P, {P, I64});
      r->replaceAllUsesWith(f.getCallee());
    }
    for (auto *f : fs) {
      f->removeFnAttr(Attribute::Memory);
      f->removeFnAttr(Attribute::NoSync); f->removeFnAttr(Attribute::WillReturn);
      f->removeFnAttr(Attribute::NoFree); f->removeFnAttr(Attribute::NoRecurse); f->removeFnAttr(Attribute::NoCallback);
      for (auto &a : f->args()) { a.removeAttr(Attribute::ReadOnly); a.removeAttr(Attribute::ReadNone); a.removeAttr(Attribute::WriteOnly); a.removeAttr(Attribute::NoAlias); a.removeAttr(Attribute::NoCapture); }
    }
    for (auto *f : fs) {
      for (auto &I : instructions(*f)) if (auto *cb = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(cb)) {
        cb->removeFnAttr(Attribute::Memory); cb->removeFnAttr(Attribute::NoSync);
        for (unsigned i = 0; i < cb->arg_size(); i++) { cb->removeParamAttr(i, Attribute::ReadOnly); cb->removeParamAttr(i, Attribute::ReadNone); cb->removeParamAttr(i, Attribute::WriteOnly); cb->removeParamAttr(i, Attribute::NoCapture); cb->removeParamAttr(i, Attribute::NoAlias); }
      }
    }
    for (auto *f : fs) instrument(*f);
  }
};

struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Symx s(M); s.run();
    if (verifyModule(M, &errs())) report_fatal_error("symx: broken module");
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symx", "1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager &mpm, ArrayRef<PassBuilder::PipelineElement>) {
      if (n == "symx") { mpm.addPass(SymxPass()); return true; }
      return false;
    });
  }};
}
