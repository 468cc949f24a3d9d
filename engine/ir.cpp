#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <unordered_map>
#include <set>

using namespace llvm;
Module_ M;
static LLVMContext Ctx;
static std::unique_ptr<Module> LM;
static const DataLayout *DL;
static std::unordered_map<const GlobalVariable *, int> gvIdx;

static unsigned tyW(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static bool tyFp(Type *t) { return t->isDoubleTy() || t->isFloatTy(); }
static bool okTy(Type *t) { return (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) || t->isPointerTy() || tyFp(t); }

static bool constVal(const Constant *c, Val &v) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; v = mkInt(ci->getBitWidth(), ci->getZExtValue()); return true; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (cf->getType()->isDoubleTy()) { v = mkDbl(cf->getValueAPF().convertToDouble()); return true; }
    if (cf->getType()->isFloatTy()) { v = mkDbl((double)cf->getValueAPF().convertToFloat()); v.w = 32; return true; }
    return false;
  }
  if (isa<ConstantPointerNull>(c)) { v = mkInt(64, 0); return true; }
  if (isa<UndefValue>(c)) { v = Val(); v.w = tyW(c->getType()); return true; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { v = mkInt(64, ((uint64_t)(gvIdx[g] + 1) << 32) + OFFBASE); return true; }
  if (auto *f = dyn_cast<Function>(c)) { v = mkInt(64, (uint64_t)(FNOBJ + M.fnByName[f->getName().str()]) << 32); return true; }
  if (auto *al = dyn_cast<GlobalAlias>(c)) return constVal(al->getAliasee(), v);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    Val b;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
        if (!constVal(ce->getOperand(0), b)) return false;
        v = mkInt(64, b.p + (uint64_t)off.getSExtValue()); return true;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (!constVal(ce->getOperand(0), b)) return false;
        v = b; v.w = tyW(ce->getType()); return true;
      case Instruction::Add: case Instruction::Sub: {
        Val d; if (!constVal(ce->getOperand(0), b) || !constVal(ce->getOperand(1), d)) return false;
        v = mkInt(b.w, ce->getOpcode() == Instruction::Add ? b.p + d.p : b.p - d.p); return true;
      }
    }
    return false;
  }
  return false;
}
static bool flatten(const Constant *c, uint64_t off, GlobalInit &g) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) {
    uint64_t n = DL->getTypeAllocSize(t); for (uint64_t i = 0; i < n; i++) g.cells.push_back({off + i, mkInt(8, 0)}); return true;
  }
  if (isa<UndefValue>(c)) return true;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(ds->getElementType());
    for (unsigned i = 0; i < ds->getNumElements(); i++) { Val v; if (!constVal(ds->getElementAsConstant(i), v)) return false; g.cells.push_back({off + i * es, v}); }
    return true;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) if (!flatten(ca->getOperand(i), off + i * es, g)) return false;
    return true;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) if (!flatten(cs->getOperand(i), off + (uint64_t)sl->getElementOffset(i), g)) return false;
    return true;
  }
  Val v; if (!constVal(c, v)) return false;
  g.cells.push_back({off, v}); return true;
}
struct FnTr {
  Fn &F; Function &f;
  std::unordered_map<const Value *, int> reg;
  std::unordered_map<const BasicBlock *, int> blk;
  FnTr(Fn &F_, Function &f_) : F(F_), f(f_) {}
  int32_t opnd(const Value *v, Ins &I) {
    auto it = reg.find(v); if (it != reg.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) { Val k; if (constVal(c, k)) { M.consts.push_back(k); return ~(int32_t)(M.consts.size() - 1); } }
    I.op = O_UNSUP; I.name = "operand"; return 0;
  }
  void run() {
    int n = 0;
    for (auto &a : f.args()) reg[&a] = n++;
    F.nargs = n;
    int bi = 0;
    for (auto &b : f) { blk[&b] = bi++; for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++; }
    F.nregs = n; F.blocks.resize(bi);
    PostDominatorTree PDT(f);
    for (auto &b : f) {
      Block &B = F.blocks[blk[&b]];
      B.name = b.getName().str();
      if (auto *node = PDT.getNode(&b)) if (auto *id = node->getIDom()) if (id->getBlock()) B.ipdom = blk[id->getBlock()];
      for (auto &i : b) {
        if (auto *p = dyn_cast<PHINode>(&i)) {
          Phi ph; ph.dst = reg[p]; Ins dummy;
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++) ph.in.push_back({blk[p->getIncomingBlock(k)], opnd(p->getIncomingValue(k), dummy)});
          if (dummy.op == O_UNSUP) { Ins u; u.op = O_UNSUP; u.name = "phi operand"; B.ins.push_back(u); }
          B.phis.push_back(ph); continue;
        }
        if (isa<DbgInfoIntrinsic>(&i)) continue;
        Ins I; tr(i, I);
        if (const DILocation *l = i.getDebugLoc()) I.line = (int)l->getLine();
        if (I.op == 255) continue;
        if (!i.getType()->isVoidTy()) I.dst = reg[&i];
        B.ins.push_back(std::move(I));
      }
    }
    for (auto &b : f) for (auto &i : b) if (!i.getType()->isVoidTy()) { // live ranges
      int r = reg[&i]; std::vector<const BasicBlock *> wl; std::set<const BasicBlock *> seen;
      auto add = [&](const BasicBlock *u) { if (seen.insert(u).second) wl.push_back(u); };
      for (const User *u : i.users()) {
        auto *ui = dyn_cast<Instruction>(u); if (!ui) continue;
        if (auto *p = dyn_cast<PHINode>(ui)) { for (unsigned k = 0; k < p->getNumIncomingValues(); k++) if (p->getIncomingValue(k) == &i && p->getIncomingBlock(k) != &b) add(p->getIncomingBlock(k)); }
        else if (ui->getParent() != &b) add(ui->getParent());
      }
      while (!wl.empty()) { const BasicBlock *u = wl.back(); wl.pop_back(); F.blocks[blk[u]].liveIn.push_back(r); for (const BasicBlock *q : predecessors(u)) if (q != &b) add(q); }
    }
  }
  void unsup(Ins &I, const std::string &s) { I.op = O_UNSUP; I.name = s; }
  void aggFields(Type *t, Ins &I) {
    if (auto *st = dyn_cast<StructType>(t)) {
      const StructLayout *sl = DL->getStructLayout(st);
      for (unsigned k = 0; k < st->getNumElements(); k++) { Type *e = st->getElementType(k); if (!okTy(e)) { unsup(I, "aggregate"); return; } I.agg.push_back({(uint32_t)(uint64_t)sl->getElementOffset(k), tyW(e) | (tyFp(e) ? 1u << 16 : 0)}); }
    } else unsup(I, "aggregate");
  }
  void tr(Instruction &i, Ins &I) {
    if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
      Type *t = i.getType(); if (!okTy(t)) return unsup(I, "vector arithmetic");
      I.w = tyW(t);
      static const std::map<unsigned, int> im{{Instruction::Add, I_ADD}, {Instruction::Sub, I_SUB}, {Instruction::Mul, I_MUL}, {Instruction::UDiv, I_UDIV}, {Instruction::SDiv, I_SDIV}, {Instruction::URem, I_UREM}, {Instruction::SRem, I_SREM}, {Instruction::Shl, I_SHL}, {Instruction::LShr, I_LSHR}, {Instruction::AShr, I_ASHR}, {Instruction::And, I_AND}, {Instruction::Or, I_OR}, {Instruction::Xor, I_XOR}};
      static const std::map<unsigned, int> fm{{Instruction::FAdd, F_ADD}, {Instruction::FSub, F_SUB}, {Instruction::FMul, F_MUL}, {Instruction::FDiv, F_DIV}, {Instruction::FRem, F_REM}};
      auto a = im.find(bo->getOpcode()); auto b = fm.find(bo->getOpcode());
      if (a != im.end()) { I.op = O_BIN; I.sub = (uint8_t)a->second; if (auto *ov = dyn_cast<OverflowingBinaryOperator>(bo)) I.nsw = ov->hasNoSignedWrap(); }
      else if (b != fm.end()) { I.op = O_FBIN; I.sub = (uint8_t)b->second; } else return unsup(I, "binop");
      I.a = opnd(bo->getOperand(0), I); I.b = opnd(bo->getOperand(1), I); return;
    }
    if (auto *u = dyn_cast<UnaryOperator>(&i)) { I.op = O_FNEG; I.a = opnd(u->getOperand(0), I); return; }
    if (auto *c = dyn_cast<ICmpInst>(&i)) {
      if (!okTy(c->getOperand(0)->getType())) return unsup(I, "icmp");
      I.op = O_ICMP; I.w = tyW(c->getOperand(0)->getType());
      switch (c->getPredicate()) { case CmpInst::ICMP_EQ: I.sub = P_EQ; break; case CmpInst::ICMP_NE: I.sub = P_NE; break; case CmpInst::ICMP_UGT: I.sub = P_UGT; break; case CmpInst::ICMP_UGE: I.sub = P_UGE; break; case CmpInst::ICMP_ULT: I.sub = P_ULT; break; case CmpInst::ICMP_ULE: I.sub = P_ULE; break; case CmpInst::ICMP_SGT: I.sub = P_SGT; break; case CmpInst::ICMP_SGE: I.sub = P_SGE; break; case CmpInst::ICMP_SLT: I.sub = P_SLT; break; default: I.sub = P_SLE; }
      I.a = opnd(c->getOperand(0), I); I.b = opnd(c->getOperand(1), I); return;
    }
    if (auto *c = dyn_cast<FCmpInst>(&i)) { if (!okTy(c->getOperand(0)->getType())) return unsup(I, "fcmp"); I.op = O_FCMP; I.sub = (uint8_t)c->getPredicate(); I.a = opnd(c->getOperand(0), I); I.b = opnd(c->getOperand(1), I); return; }
    if (auto *c = dyn_cast<CastInst>(&i)) {
      if (!okTy(c->getSrcTy()) || !okTy(c->getDestTy())) return unsup(I, "cast");
      I.w = tyW(c->getSrcTy()); I.w2 = tyW(c->getDestTy()); I.a = opnd(c->getOperand(0), I);
      if (I.op == O_UNSUP) return;
      switch (c->getOpcode()) {
        case Instruction::ZExt: I.op = O_ZEXT; break; case Instruction::SExt: I.op = O_SEXT; break; case Instruction::Trunc: I.op = O_ITRUNC; break;
        case Instruction::FPToSI: I.op = O_FPTOSI; break; case Instruction::FPToUI: I.op = O_FPTOUI; break; case Instruction::SIToFP: I.op = O_SITOFP; break; case Instruction::UIToFP: I.op = O_UITOFP; break;
        case Instruction::FPTrunc: I.op = O_FPTRUNC; break; case Instruction::FPExt: I.op = O_FPEXT; break;
        case Instruction::PtrToInt: I.op = I.w2 < 64 ? O_ITRUNC : O_MOV; break; case Instruction::IntToPtr: I.op = I.w < 64 ? O_ZEXT : O_MOV; break;
        case Instruction::BitCast: I.op = tyFp(c->getSrcTy()) == tyFp(c->getDestTy()) ? O_MOV : O_BITCAST; I.fp = tyFp(c->getDestTy()); break;
        default: unsup(I, "cast");
      }
      return;
    }
    if (auto *fz = dyn_cast<FreezeInst>(&i)) { I.op = O_MOV; I.a = opnd(fz->getOperand(0), I); return; }
    if (auto *al = dyn_cast<AllocaInst>(&i)) { I.op = O_ALLOCA; I.imm = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); I.a = opnd(al->getArraySize(), I); I.name = al->getName().str(); return; }
    if (auto *l = dyn_cast<LoadInst>(&i)) {
      I.op = O_LOAD; I.a = opnd(l->getPointerOperand(), I); I.fp = tyFp(l->getType());
      if (okTy(l->getType())) { I.w = tyW(l->getType()); I.imm = (int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue(); } else { I.imm = (int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue(); aggFields(l->getType(), I); }
      return;
    }
    if (auto *s = dyn_cast<StoreInst>(&i)) {
      I.op = O_STORE; I.a = opnd(s->getPointerOperand(), I); Type *t = s->getValueOperand()->getType(); I.fp = tyFp(t);
      I.b = opnd(s->getValueOperand(), I); I.imm = (int64_t)DL->getTypeStoreSize(t).getFixedValue();
      if (okTy(t)) I.w = tyW(t); else aggFields(t, I);
      return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
      I.op = O_GEP; I.a = opnd(g->getPointerOperand(), I); I.inb = g->isInBounds(); int64_t off = 0;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value *idx = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) { off += (int64_t)(uint64_t)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
        int64_t sc = (int64_t)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
        if (auto *ci = dyn_cast<ConstantInt>(idx)) off += sc * ci->getSExtValue();
        else I.ext.push_back({opnd(idx, I), sc});
      }
      I.imm = off; return;
    }
    if (auto *s = dyn_cast<SelectInst>(&i)) { if (!okTy(s->getType())) return unsup(I, "select"); I.op = O_SELECT; I.a = opnd(s->getCondition(), I); I.b = opnd(s->getTrueValue(), I); I.c = opnd(s->getFalseValue(), I); return; }
    if (auto *b = dyn_cast<BranchInst>(&i)) {
      if (b->isUnconditional()) { I.op = O_BR; I.imm = blk[b->getSuccessor(0)]; }
      else { I.op = O_CBR; I.a = opnd(b->getCondition(), I); I.b = blk[b->getSuccessor(0)]; I.c = blk[b->getSuccessor(1)]; }
      return;
    }
    if (auto *s = dyn_cast<SwitchInst>(&i)) {
      I.op = O_SWITCH; I.a = opnd(s->getCondition(), I); I.w = tyW(s->getCondition()->getType()); I.imm = blk[s->getDefaultDest()];
      for (auto c : s->cases()) I.ext.push_back({(int32_t)blk[c.getCaseSuccessor()], c.getCaseValue()->getSExtValue()});
      return;
    }
    if (auto *r = dyn_cast<ReturnInst>(&i)) { I.op = O_RET; I.w = 0; if (r->getReturnValue()) { I.w = 1; I.a = opnd(r->getReturnValue(), I); } return; }
    if (isa<UnreachableInst>(&i)) { I.op = O_UNREACH; return; }
    if (auto *e = dyn_cast<ExtractValueInst>(&i)) { if (e->getNumIndices() != 1) return unsup(I, "extractvalue"); I.op = O_EXTRACT; I.a = opnd(e->getAggregateOperand(), I); I.imm = *e->idx_begin(); return; }
    if (auto *e = dyn_cast<InsertValueInst>(&i)) {
      if (e->getNumIndices() != 1) return unsup(I, "insertvalue"); I.op = O_INSERT; I.imm = *e->idx_begin(); I.b = opnd(e->getInsertedValueOperand(), I);
      Value *ag = e->getAggregateOperand(); if (isa<UndefValue>(ag)) { M.consts.push_back(Val()); I.a = ~(int32_t)(M.consts.size() - 1); } else I.a = opnd(ag, I);
      I.c = (int)cast<StructType>(e->getType())->getNumElements(); return;
    }
    if (auto *c = dyn_cast<CallBase>(&i)) {
      if (c->isInlineAsm()) return unsup(I, "inline asm");
      if (isa<LifetimeIntrinsic>(c) || isa<AssumeInst>(c)) { I.op = 255; return; }
      if (Function *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) {
        I.op = O_CALL; I.imm = M.fnByName[cf->getName().str()];
        if (cf->getName().starts_with("llvm.experimental.noalias") || cf->getName().starts_with("llvm.stacksave") || cf->getName().starts_with("llvm.stackrestore")) { if (i.getType()->isVoidTy()) { I.op = 255; return; } I.op = O_MOV; M.consts.push_back(mkInt(64, 0)); I.a = ~(int32_t)(M.consts.size() - 1); return; }
      }
      else { I.op = O_ICALL; I.a = opnd(c->getCalledOperand(), I); }
      if (I.op == O_UNSUP) return;
      uint8_t keep = I.op;
      for (auto &a : c->args()) {
        if (a->getType()->isMetadataTy()) continue;
        if (cast<CallBase>(&i)->isByValArgument((unsigned)(&a - c->arg_begin()))) { unsup(I, "byval argument"); return; }
        int32_t o = opnd(a.get(), I); I.ext.push_back({o, 0});
      }
      if (I.op != O_UNSUP) I.op = keep;
      I.w2 = tyW(i.getType()); I.fp = tyFp(i.getType());
      return;
    }
    std::string s; raw_string_ostream os(s); i.print(os); unsup(I, s);
  }
};
bool loadModule(const char *path, std::string &err) {
  SMDiagnostic d;
  LM = parseIRFile(path, d, Ctx);
  if (!LM) { err = d.getMessage().str(); return false; }
  DL = &LM->getDataLayout();
  int k = 0;
  for (auto &g : LM->globals()) { gvIdx[&g] = k++; M.globByName[g.getName().str()] = k - 1; }
  for (auto &f : *LM) { Fn F; F.name = f.getName().str(); F.id = (int)M.fns.size(); F.ext = f.isDeclaration(); F.nargs = (int)f.arg_size(); if (auto *sp = f.getSubprogram()) { F.file = sp->getFilename().str(); F.line = (int)sp->getLine(); } M.fnByName[F.name] = F.id; M.fns.push_back(F); }
  for (auto &g : LM->globals()) {
    GlobalInit G; G.name = g.getName().str(); G.isConst = g.isConstant(); G.size = DL->getTypeAllocSize(g.getValueType()).getFixedValue();
    if (g.hasInitializer()) {
      if (g.getInitializer()->isNullValue()) G.zero = true;
      else if (!flatten(g.getInitializer(), 0, G)) { err = "global initialiser " + G.name; return false; }
    } else G.undefd = true;
    M.globals.push_back(std::move(G));
  }
  int fi = 0;
  for (auto &f : *LM) { Fn &F = M.fns[fi++]; if (!F.ext) FnTr(F, f).run(); }
  return true;
}
