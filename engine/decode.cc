#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/Analysis/ConstantFolding.h>
using namespace llvm;

void Engine::flat(Type* t, uint64_t off, std::vector<Cell>& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) flat(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i) flat(at->getElementType(), off + i * es, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t bits = DL->getTypeSizeInBits(vt->getElementType());
    uint64_t es = bits / 8;
    for (uint64_t i = 0; i < vt->getNumElements(); ++i) out.push_back({(unsigned)bits, off + i * es, (unsigned)std::max<uint64_t>(es, 1)});
  } else if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) {
  } else {
    unsigned w = t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t);
    out.push_back({w, off, (unsigned)DL->getTypeStoreSize(t)});
  }
}

static V apV(const APInt& a) {
  unsigned w = a.getBitWidth();
  if (w <= 64) return V(a.getZExtValue());
  if (w <= 128) return V(mkConst(((u128)a.extractBitsAsZExtValue(w - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), w));
  Node* n = nullptr;
  for (unsigned lo = 0; lo < w; lo += 64) {
    unsigned l = std::min(64u, w - lo);
    Node* p = mkConst(a.extractBitsAsZExtValue(l, lo), l);
    n = n ? mkConcat(p, n) : p;
  }
  return V(n);
}

V Engine::evalConst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return apV(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(c)) return apV(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) {
    unsigned w = c->getType()->isPointerTy() ? 64 : DL->getTypeSizeInBits(c->getType());
    return w <= 64 ? V((uint64_t)0) : V(mkConst(0, w));
  }
  if (isa<UndefValue>(c)) {
    unsigned w = c->getType()->isPointerTy() ? 64 : DL->getTypeSizeInBits(c->getType());
    return w <= 64 ? V((uint64_t)0) : V(mkConst(0, std::min(w, 128u)));
  }
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return evalConst(ga->getAliasee());
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) { fprintf(stderr, "engine: no address for global %s\n", gv->getName().str().c_str()); abort(); }
    return V(it->second);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "engine: bad const gep\n"); abort(); }
        V b = evalConst(cast<Constant>(gep->getPointerOperand()));
        return V(b.c + off.getZExtValue());
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
        V v = evalConst(ce->getOperand(0));
        unsigned w = DL->getTypeSizeInBits(ce->getType());
        if (w < 64 && v.conc()) v.c &= (1ull << w) - 1;
        return v;
      }
      case Instruction::Add: return V(evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c);
      case Instruction::Sub: return V(evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c);
      case Instruction::Trunc: return V(evalConst(ce->getOperand(0)).c & (uint64_t)maskw(DL->getTypeSizeInBits(ce->getType())));
      case Instruction::ICmp: {
        uint64_t a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c;
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: return V(a == b); case CmpInst::ICMP_NE: return V(a != b);
          case CmpInst::ICMP_UGT: return V(a > b); case CmpInst::ICMP_ULT: return V(a < b);
          default: break;
        }
      }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  fprintf(stderr, "engine: unsupported constant %s\n", s.c_str());
  abort();
}
void Engine::constCells(const Constant* c, std::vector<V>& out) {
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) constCells(c->getAggregateElement(i), out);
    return;
  }
  if (t->isTokenTy() || t->isMetadataTy()) return;
  out.push_back(evalConst(c));
}
void Engine::writeConst(Obj* o, uint64_t off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cd->getRawDataValues();
    memcpy(o->data + off, r.data(), r.size());
    return;
  }
  Type* t = c->getType();
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) writeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); ++i) writeConst(o, off + i * es, c->getAggregateElement(i));
    return;
  }
  if (t->isVectorTy()) {
    std::vector<Cell> cells; flat(t, off, cells);
    for (unsigned i = 0; i < cells.size(); ++i) writeConst(o, cells[i].off, c->getAggregateElement(i));
    return;
  }
  V v = evalConst(c);
  unsigned n = DL->getTypeStoreSize(t);
  if (v.conc()) memcpy(o->data + off, &v.c, std::min(n, 8u));
  else if (v.n->op == CONST) { u128 k = v.n->k; memcpy(o->data + off, &k, n); }
}

DFunc* Engine::getFunc(const Function* f) {
  auto*& d = funcs[f];
  if (!d) {
    d = new DFunc();
    d->f = f;
    d->name = f->getName().str();
    if (auto* sp = f->getSubprogram()) {
      std::string file = sp->getFilename().str();
      if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
      d->inRepo = file.compare(0, 6, "/repo/") == 0;
    }
  }
  return d;
}

void Engine::decode(DFunc* d) {
  if (d->decoded) return;
  d->decoded = true;
  const Function* f = d->f;
  std::map<const Value*, int> reg;
  auto cellsOf = [&](Type* t) { std::vector<Cell> c; flat(t, 0, c); return c; };
  auto defReg = [&](const Value* v) {
    unsigned n = cellsOf(v->getType()).size();
    reg[v] = d->nregs;
    d->nregs += n;
  };
  for (auto& a : f->args()) { defReg(&a); }
  for (auto& a : f->args()) for (unsigned i = 0; i < cellsOf(a.getType()).size(); ++i) d->argreg.push_back(reg[&a] + i);
  for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) defReg(&i);
  auto operands = [&](const Value* v, std::vector<Operand>& out) {
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<V> vs;
      constCells(c, vs);
      for (auto& x : vs) out.push_back({-1, x});
    } else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {
      out.push_back({-1, V((uint64_t)0)});
    } else {
      unsigned n = cellsOf(v->getType()).size();
      for (unsigned i = 0; i < n; ++i) out.push_back({reg.at(v) + (int)i, V()});
    }
  };
  std::map<const BasicBlock*, uint32_t> start;
  uint32_t pc = 0;
  for (auto& bb : *f) {
    start[&bb] = pc;
    for (auto& i : bb) if (!isa<PHINode>(i)) ++pc;
  }
  auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    e.target = start[to];
    for (auto& p : to->phis()) {
      std::vector<Operand> o;
      operands(p.getIncomingValueForBlock(from), o);
      for (unsigned i = 0; i < o.size(); ++i) e.moves.push_back({reg[&p] + (int)i, o[i]});
    }
    return e;
  };
  for (auto& bb : *f) {
    for (auto& ii : bb) {
      const Instruction* I = &ii;
      if (isa<PHINode>(I)) continue;
      DInst x;
      x.I = I;
      x.k = I_BAD;
      if (!I->getType()->isVoidTy()) x.dst = reg[I];
      auto scalarW = [&](Type* t) -> unsigned { t = t->getScalarType(); return t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t); };
      switch (I->getOpcode()) {
        case Instruction::Ret:
          x.k = I_RET;
          if (I->getNumOperands()) operands(I->getOperand(0), x.ops);
          break;
        case Instruction::Br: {
          auto* b = cast<BranchInst>(I);
          if (b->isConditional()) {
            x.k = I_CBR;
            operands(b->getCondition(), x.ops);
            x.edges.push_back(mkEdge(&bb, b->getSuccessor(0)));
            x.edges.push_back(mkEdge(&bb, b->getSuccessor(1)));
          } else {
            x.k = I_BR;
            x.edges.push_back(mkEdge(&bb, b->getSuccessor(0)));
          }
          break;
        }
        case Instruction::Switch: {
          auto* sw = cast<SwitchInst>(I);
          x.k = I_SWITCH;
          x.w = scalarW(sw->getCondition()->getType());
          operands(sw->getCondition(), x.ops);
          x.edges.push_back(mkEdge(&bb, sw->getDefaultDest()));
          for (auto& c : sw->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(mkEdge(&bb, c.getCaseSuccessor())); }
          break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          auto* cb = cast<CallBase>(I);
          x.k = isa<InvokeInst>(I) ? I_INVOKE : I_CALL;
          const Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
          if (auto* fn = dyn_cast<Function>(cv)) x.callee = getFunc(fn);
          if (cb->isInlineAsm()) x.callee = nullptr;
          operands(cb->getCalledOperand(), x.ops);  // ops[0] = target
          for (auto& a : cb->args()) {
            x.argoff.push_back(x.ops.size());
            operands(a.get(), x.ops);
            for (auto& c : cellsOf(a->getType())) x.argw.push_back(c.w);
            if (a->getType()->isMetadataTy()) x.argw.push_back(64);
          }
          // byval arguments: record size in imm of scales
          for (unsigned i = 0; i < cb->arg_size(); ++i)
            if (cb->isByValArgument(i)) x.scales.push_back({DL->getTypeAllocSize(cb->getParamByValType(i)), (int)x.argoff[i]});
          x.w = I->getType()->isVoidTy() ? 0 : scalarW(I->getType());
          for (auto& c : cellsOf(I->getType())) x.cells.push_back(c);
          if (auto* iv = dyn_cast<InvokeInst>(I)) {
            x.edges.push_back(mkEdge(&bb, iv->getNormalDest()));
            x.edges.push_back(mkEdge(&bb, iv->getUnwindDest()));
          }
          break;
        }
        case Instruction::Resume: x.k = I_RESUME; operands(I->getOperand(0), x.ops); break;
        case Instruction::Unreachable: x.k = I_UNREACH; break;
        case Instruction::Alloca: {
          auto* a = cast<AllocaInst>(I);
          x.k = I_ALLOCA;
          x.imm = DL->getTypeAllocSize(a->getAllocatedType());
          operands(a->getArraySize(), x.ops);
          break;
        }
        case Instruction::Load: {
          x.k = I_LOAD;
          operands(I->getOperand(0), x.ops);
          x.cells = cellsOf(I->getType());
          x.op = cast<LoadInst>(I)->isAtomic();
          x.imm = I->getType()->isPointerTy();
          break;
        }
        case Instruction::Store: {
          x.k = I_STORE;
          operands(I->getOperand(1), x.ops);
          operands(I->getOperand(0), x.ops);
          x.cells = cellsOf(I->getOperand(0)->getType());
          x.op = cast<StoreInst>(I)->isAtomic();
          break;
        }
        case Instruction::GetElementPtr: {
          auto* g = cast<GetElementPtrInst>(I);
          if (g->getType()->isVectorTy()) break;
          x.k = I_GEP;
          operands(g->getPointerOperand(), x.ops);
          uint64_t off = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            const Value* idx = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull()) {
              off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
              uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(idx)) off += es * ci->getSExtValue();
              else { operands(idx, x.ops); x.scales.push_back({es, (int)scalarW(idx->getType())}); }
            }
          }
          x.imm = off;
          break;
        }
        case Instruction::Fence: x.k = I_FENCE; break;
        case Instruction::AtomicCmpXchg: {
          auto* c = cast<AtomicCmpXchgInst>(I);
          x.k = I_CMPXCHG;
          operands(c->getPointerOperand(), x.ops); operands(c->getCompareOperand(), x.ops); operands(c->getNewValOperand(), x.ops);
          x.w = scalarW(c->getCompareOperand()->getType());
          break;
        }
        case Instruction::AtomicRMW: {
          auto* c = cast<AtomicRMWInst>(I);
          x.k = I_RMW;
          operands(c->getPointerOperand(), x.ops); operands(c->getValOperand(), x.ops);
          x.w = scalarW(c->getValOperand()->getType());
          x.op = c->getOperation();
          break;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
          x.k = I->getOpcode() == Instruction::Trunc ? I_TRUNC : I->getOpcode() == Instruction::ZExt ? I_ZEXT : I_SEXT;
          operands(I->getOperand(0), x.ops);
          x.w2 = scalarW(I->getOperand(0)->getType()); x.w = scalarW(I->getType()); x.lanes = x.ops.size();
          break;
        }
        case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
          x.k = I_FPCAST;
          operands(I->getOperand(0), x.ops);
          x.w2 = scalarW(I->getOperand(0)->getType()); x.w = scalarW(I->getType()); x.lanes = x.ops.size();
          switch (I->getOpcode()) {
            case Instruction::FPToUI: x.op = FPTOUI; break; case Instruction::FPToSI: x.op = FPTOSI; break;
            case Instruction::UIToFP: x.op = UITOFP; break; case Instruction::SIToFP: x.op = SITOFP; break;
            case Instruction::FPTrunc: x.op = FPTRUNC; break; default: x.op = FPEXT;
          }
          break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          operands(I->getOperand(0), x.ops);
          x.w2 = scalarW(I->getOperand(0)->getType()); x.w = scalarW(I->getType()); x.lanes = x.ops.size();
          x.k = x.w < x.w2 ? I_TRUNC : x.w > x.w2 ? I_ZEXT : I_MOVE;
          break;
        }
        case Instruction::BitCast: {
          operands(I->getOperand(0), x.ops);
          std::vector<Cell> from = cellsOf(I->getOperand(0)->getType()), to = cellsOf(I->getType());
          if (from.size() == to.size()) x.k = I_MOVE, x.lanes = from.size(), x.w = to[0].w;
          break;
        }
        case Instruction::Freeze: case Instruction::AddrSpaceCast:
          operands(I->getOperand(0), x.ops); x.k = I_MOVE; x.lanes = x.ops.size(); x.w = x.ops.empty() ? 0 : scalarW(I->getType());
          break;
        case Instruction::ICmp: {
          x.k = I_ICMP;
          operands(I->getOperand(0), x.ops); operands(I->getOperand(1), x.ops);
          x.lanes = x.ops.size() / 2; x.w = scalarW(I->getOperand(0)->getType()); x.op = cast<ICmpInst>(I)->getPredicate();
          break;
        }
        case Instruction::FCmp: {
          x.k = I_FCMP;
          operands(I->getOperand(0), x.ops); operands(I->getOperand(1), x.ops);
          x.lanes = x.ops.size() / 2; x.w = scalarW(I->getOperand(0)->getType());
          x.op = cast<FCmpInst>(I)->getPredicate();  // bits: 1 eq, 2 gt, 4 lt, 8 uno
          break;
        }
        case Instruction::Select: {
          x.k = I_SELECT;
          x.cells = cellsOf(I->getType());
          operands(I->getOperand(0), x.ops);
          x.imm = x.ops.size();
          operands(I->getOperand(1), x.ops); operands(I->getOperand(2), x.ops);
          x.lanes = x.cells.size();
          break;
        }
        case Instruction::ExtractValue: {
          auto* e = cast<ExtractValueInst>(I);
          Type* t = e->getAggregateOperand()->getType();
          unsigned base = 0;
          for (unsigned idx : e->indices()) {
            for (unsigned i = 0; i < idx; ++i) base += cellsOf(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()).size();
            t = t->isStructTy() ? t->getStructElementType(idx) : t->getArrayElementType();
          }
          std::vector<Operand> all;
          operands(e->getAggregateOperand(), all);
          unsigned n = cellsOf(t).size();
          x.k = I_MOVE; x.lanes = n; x.ops.assign(all.begin() + base, all.begin() + base + n);
          break;
        }
        case Instruction::InsertValue: {
          auto* e = cast<InsertValueInst>(I);
          Type* t = e->getAggregateOperand()->getType();
          unsigned base = 0;
          for (unsigned idx : e->indices()) {
            for (unsigned i = 0; i < idx; ++i) base += cellsOf(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()).size();
            t = t->isStructTy() ? t->getStructElementType(idx) : t->getArrayElementType();
          }
          operands(e->getAggregateOperand(), x.ops);
          std::vector<Operand> v;
          operands(e->getInsertedValueOperand(), v);
          for (unsigned i = 0; i < v.size(); ++i) x.ops[base + i] = v[i];
          x.k = I_MOVE; x.lanes = x.ops.size();
          break;
        }
        case Instruction::ExtractElement: {
          std::vector<Operand> all;
          operands(I->getOperand(0), all);
          if (auto* ci = dyn_cast<ConstantInt>(I->getOperand(1))) { x.k = I_MOVE; x.lanes = 1; x.ops = {all[ci->getZExtValue()]}; }
          break;
        }
        case Instruction::InsertElement: {
          operands(I->getOperand(0), x.ops);
          std::vector<Operand> v;
          operands(I->getOperand(1), v);
          if (auto* ci = dyn_cast<ConstantInt>(I->getOperand(2))) { x.ops[ci->getZExtValue()] = v[0]; x.k = I_MOVE; x.lanes = x.ops.size(); }
          break;
        }
        case Instruction::ShuffleVector: {
          auto* sv = cast<ShuffleVectorInst>(I);
          std::vector<Operand> all;
          operands(I->getOperand(0), all); operands(I->getOperand(1), all);
          for (int m : sv->getShuffleMask()) x.ops.push_back(m < 0 ? Operand{-1, V((uint64_t)0)} : all[m]);
          x.k = I_MOVE; x.lanes = x.ops.size();
          break;
        }
        case Instruction::LandingPad: x.k = I_LPAD; break;
        case Instruction::FNeg: x.k = I_FNEG; operands(I->getOperand(0), x.ops); x.lanes = x.ops.size(); x.w = scalarW(I->getType()); break;
        default:
          if (I->isBinaryOp()) {
            operands(I->getOperand(0), x.ops); operands(I->getOperand(1), x.ops);
            x.lanes = x.ops.size() / 2; x.w = scalarW(I->getType());
            x.k = I_BIN;
            switch (I->getOpcode()) {
              case Instruction::Add: x.op = ADD; break; case Instruction::Sub: x.op = SUB; break; case Instruction::Mul: x.op = MUL; break;
              case Instruction::UDiv: x.op = UDIV; break; case Instruction::SDiv: x.op = SDIV; break; case Instruction::URem: x.op = UREM; break;
              case Instruction::SRem: x.op = SREM; break; case Instruction::And: x.op = AND; break; case Instruction::Or: x.op = OR; break;
              case Instruction::Xor: x.op = XOR; break; case Instruction::Shl: x.op = SHL; break; case Instruction::LShr: x.op = LSHR; break;
              case Instruction::AShr: x.op = ASHR; break;
              default: x.k = I_FPBIN;
                switch (I->getOpcode()) {
                  case Instruction::FAdd: x.op = FADD; break; case Instruction::FSub: x.op = FSUB; break; case Instruction::FMul: x.op = FMUL; break;
                  case Instruction::FDiv: x.op = FDIV; break; case Instruction::FRem: x.op = FREM; break; default: x.k = I_BAD;
                }
            }
          }
      }
      d->code.push_back(std::move(x));
    }
  }
}
