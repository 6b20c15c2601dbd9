#include "engine.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
using namespace llvm;

void Engine::flatten(Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (t->isVoidTy()) return;
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); out.push_back({(uint16_t)w, (uint32_t)off, (uint32_t)((w + 7) / 8), w <= 128}); return; }
  if (t->isPointerTy()) { out.push_back({64, (uint32_t)off, 8, true}); return; }
  if (t->isDoubleTy()) { out.push_back({64, (uint32_t)off, 8, true}); return; }
  if (t->isFloatTy()) { out.push_back({32, (uint32_t)off, 4, true}); return; }
  if (t->isX86_FP80Ty()) { out.push_back({64, (uint32_t)off, 8, false}); return; }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    Type* et = vt->getElementType(); uint64_t es = et->isIntegerTy(1) ? 1 : DL->getTypeSizeInBits(et) / 8;
    for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(et, off + i * es, out);
    return;
  }
  out.push_back({64, (uint32_t)off, 8, false});
}
const TypeInfo* Engine::ti(Type* t) {
  auto it = tcache.find(t); if (it != tcache.end()) return it->second;
  auto* r = new TypeInfo; flatten(t, 0, r->leaves); r->size = t->isVoidTy() ? 0 : (t->isSized() ? (uint64_t)DL->getTypeStoreSize(t) : 0);
  return tcache[t] = r;
}

static bool isRuntimeName(StringRef n) { return n.starts_with("sym_"); }

uint64_t Engine::externalObj(const std::string& name, uint64_t size) {
  auto it = extAddr.find(name); if (it != extAddr.end()) return it->second;
  Obj* o = initState->mem.add(size, K_GLOBAL); o->name = strdup(name.c_str());
  uint64_t a = addrOf(o->id); extAddr[name] = a; addrName[a] = name; return a;
}
uint64_t Engine::addrOfGlobal(const GlobalValue* g0) {
  const GlobalValue* g = g0;
  if (auto* al = dyn_cast<GlobalAlias>(g)) { std::vector<Val> v; constVals(al->getAliasee(), v); return v[0].c; }
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  uint64_t a;
  if (auto* F = dyn_cast<Function>(g)) {
    Obj* o = initState->mem.add(1, K_FUNC); o->name = strdup(F->getName().str().c_str()); a = addrOf(o->id); faddr[a] = F;
  } else {
    auto* G = cast<GlobalVariable>(g);
    if (G->isDeclaration()) { uint64_t sz = G->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G->getValueType()) : 0; a = externalObj(G->getName().str(), sz < 256 ? 256 : sz); }
    else {
      uint64_t sz = DL->getTypeAllocSize(G->getValueType());
      Obj* o = initState->mem.add(sz, G->isConstant() ? K_CONST : K_GLOBAL); o->name = strdup(G->getName().str().c_str()); a = addrOf(o->id);
      addrName[a] = G->getName().str(); gaddr[g] = a;
      uint64_t id = o->id;
      writeInit(o, 0, G->getInitializer());
      (void)id;
    }
  }
  gaddr[g] = a; return a;
}
void Engine::writeInit(Obj* o, uint64_t off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o->data[off], r.data(), r.size()); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    Type* t = c->getType();
    for (unsigned i = 0; i < ca->getNumOperands(); i++) {
      uint64_t eo;
      if (auto* st = dyn_cast<StructType>(t)) eo = DL->getStructLayout(st)->getElementOffset(i);
      else if (auto* at = dyn_cast<ArrayType>(t)) eo = i * DL->getTypeAllocSize(at->getElementType());
      else eo = i * DL->getTypeAllocSize(cast<VectorType>(t)->getElementType());
      writeInit(o, off + eo, ca->getOperand(i));
    }
    return;
  }
  std::vector<Val> v; constVals(c, v);
  const TypeInfo* t = ti(c->getType());
  for (size_t i = 0; i < v.size(); i++) {
    u128 x = v[i].e ? v[i].e->c : v[i].c;
    for (unsigned b = 0; b < t->leaves[i].size; b++) o->data[off + t->leaves[i].off + b] = (uint8_t)(x >> (8 * b));
  }
}
void Engine::constVals(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  auto push = [&](u128 x, unsigned w) { Val v; if (w > 64) v.e = mkC(x, w); else v.c = (uint64_t)x & mask64(w); out.push_back(v); };
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth(); u128 x = ci->getValue().extractBitsAsZExtValue(w < 64 ? w : 64, 0);
    if (w > 64) x |= (u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64;
    push(x, w); return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (t->isDoubleTy()) { push(dBits(cf->getValueAPF().convertToDouble()), 64); return; }
    if (t->isFloatTy()) { push(fBits(cf->getValueAPF().convertToFloat()), 32); return; }
    bool li; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); push(dBits(f.convertToDouble()), 64); return;
  }
  if (isa<ConstantPointerNull>(c)) { push(0, 64); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto& l : ti(t)->leaves) push(0, l.w); return; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { push(addrOfGlobal(g), 64); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    std::vector<Val> a, b;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        constVals(ce->getOperand(0), a); APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
        push(a[0].c + off.getZExtValue(), 64); return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt:
        constVals(ce->getOperand(0), a); push(a[0].c, ti(t)->leaves[0].w); return;
      case Instruction::Sub: constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); push(a[0].c - b[0].c, ti(t)->leaves[0].w); return;
      case Instruction::Add: constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); push(a[0].c + b[0].c, ti(t)->leaves[0].w); return;
      case Instruction::ICmp: {
        constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); bool r = false;
        switch (cast<ConstantExpr>(ce)->getPredicate()) { case CmpInst::ICMP_EQ: r = a[0].c == b[0].c; break; case CmpInst::ICMP_NE: r = a[0].c != b[0].c; break; case CmpInst::ICMP_ULT: r = a[0].c < b[0].c; break; default: fprintf(stderr, "const icmp\n"); }
        push(r, 1); return; }
      default: fprintf(stderr, "unsupported constant expr %s\n", ce->getOpcodeName()); push(0, 64); return;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", s.c_str());
  for (auto& l : ti(t)->leaves) push(0, l.w);
}

DFunc* Engine::getF(const Function* F) {
  auto& d = dfs[F]; if (!d) { d = new DFunc; d->F = F; }
  if (!d->decoded) { d->decoded = true; decode(d); }
  return d;
}

void Engine::decode(DFunc* d) {
  const Function* F = d->F; int n = 0;
  std::unordered_map<const Value*, int> slot; std::unordered_map<const Constant*, int> cslot;
  for (auto& A : F->args()) { int k = ti(A.getType())->leaves.size(); slot[&A] = n; d->argSlot.push_back(n); d->argN.push_back(k); n += k; }
  std::unordered_map<const BasicBlock*, int> bpc;
  int pc = 0;
  for (auto& B : *F) {
    bpc[&B] = pc; d->blks.push_back(&B);
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I) || isa<PHINode>(I)) {}
      else pc++;
      if (!I.getType()->isVoidTy()) { slot[&I] = n; n += ti(I.getType())->leaves.size(); }
    }
  }
  d->nregs = n; d->blkHit.assign(d->blks.size(), 0);
  auto opnd = [&](const Value* v) -> int {  // id of first leaf
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c); if (it != cslot.end()) return ~it->second;
      int at = d->consts.size(); cslot[c] = at; std::vector<Val> o; constVals(c, o); for (auto& x : o) d->consts.push_back(x); return ~at;
    }
    auto it = slot.find(v); if (it == slot.end()) { return ~0; }
    return it->second;
  };
  auto nth = [](int id, int i) { return id >= 0 ? id + i : ~(~id + i); };
  d->consts.push_back(Val());
  int bi = 0;
  for (auto& B : *F) {
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I) || isa<PHINode>(I)) continue;
      DInst x; x.I = &I; x.blk = bi; x.k = D_UNSUP;
      if (!I.getType()->isVoidTy()) { x.dst = slot[&I]; x.ndst = ti(I.getType())->leaves.size(); }
      auto lw = [&](const Value* v) -> unsigned { auto& L = ti(v->getType())->leaves; return L.empty() ? 0 : L[0].w; };
      auto bad = [&](const Value* v) { for (auto& l : ti(v->getType())->leaves) if (!l.ok) return true; return false; };
      bool unsup = false; for (auto& o : I.operands()) if (!isa<BasicBlock>(o) && !isa<MetadataAsValue>(o) && !o->getType()->isTokenTy() && o->getType()->isFirstClassType() && !o->getType()->isMetadataTy() && !o->getType()->isLabelTy() && bad(o)) unsup = true;
      if (!I.getType()->isVoidTy() && bad(&I)) unsup = true;
      auto allOps = [&](const Value* v) { int id = opnd(v); int k = ti(v->getType())->leaves.size(); for (int i = 0; i < k; i++) x.ops.push_back(nth(id, i)); };
      auto edgeTo = [&](const BasicBlock* T) {
        Edge e; e.pc = bpc[T];
        for (auto& P : T->phis()) { int idx = P.getBasicBlockIndex(&B); const Value* v = P.getIncomingValue(idx); int k = ti(P.getType())->leaves.size(); int id = opnd(v); if (isa<UndefValue>(v) && !isa<PoisonValue>(v)) {} for (int i = 0; i < k; i++) e.moves.push_back({slot[&P] + i, nth(id, i)}); }
        x.edges.push_back(e);
      };
      if (unsup && !isa<CallBase>(I)) { d->code.push_back(x); continue; }
      if (auto* b = dyn_cast<BinaryOperator>(&I)) { x.k = D_BIN; x.sub = b->getOpcode(); x.w = lw(b); allOps(b->getOperand(0)); allOps(b->getOperand(1)); }
      else if (auto* c = dyn_cast<ICmpInst>(&I)) { x.k = D_ICMP; x.sub = c->getPredicate(); x.w = lw(c->getOperand(0)); allOps(c->getOperand(0)); allOps(c->getOperand(1)); }
      else if (auto* c = dyn_cast<FCmpInst>(&I)) { x.k = D_FCMP; x.sub = c->getPredicate(); x.w = lw(c->getOperand(0)); allOps(c->getOperand(0)); allOps(c->getOperand(1)); }
      else if (isa<UnaryOperator>(I)) { x.k = D_FNEG; x.w = lw(&I); allOps(I.getOperand(0)); }
      else if (auto* c = dyn_cast<CastInst>(&I)) {
        x.k = D_CAST; x.sub = c->getOpcode(); x.w = lw(c->getOperand(0)); x.w2 = lw(c); allOps(c->getOperand(0));
        if (c->getOpcode() == Instruction::BitCast) { if ((int)x.ops.size() != x.ndst) x.k = D_UNSUP; else x.k = D_MOVE; }
        if (c->getOpcode() == Instruction::AddrSpaceCast) x.k = D_MOVE;
      }
      else if (isa<FreezeInst>(I)) { x.k = D_MOVE; allOps(I.getOperand(0)); }
      else if (auto* s = dyn_cast<SelectInst>(&I)) { x.k = D_SELECT; allOps(s->getCondition()); x.w2 = x.ops.size(); allOps(s->getTrueValue()); allOps(s->getFalseValue()); x.ty = ti(s->getType()); }
      else if (auto* b = dyn_cast<BranchInst>(&I)) {
        if (b->isUnconditional()) { x.k = D_BR; edgeTo(b->getSuccessor(0)); }
        else { x.k = D_CBR; allOps(b->getCondition()); edgeTo(b->getSuccessor(0)); edgeTo(b->getSuccessor(1)); }
      }
      else if (auto* s = dyn_cast<SwitchInst>(&I)) {
        x.k = D_SWITCH; x.w = lw(s->getCondition()); allOps(s->getCondition()); edgeTo(s->getDefaultDest());
        for (auto& c : s->cases()) { x.cases.push_back({c.getCaseValue()->getZExtValue(), (int)x.edges.size()}); edgeTo(c.getCaseSuccessor()); }
      }
      else if (isa<ReturnInst>(I)) { x.k = D_RET; if (I.getNumOperands()) allOps(I.getOperand(0)); }
      else if (isa<UnreachableInst>(I)) x.k = D_UNREACH;
      else if (isa<ResumeInst>(I)) { x.k = D_RESUME; allOps(I.getOperand(0)); }
      else if (auto* l = dyn_cast<LandingPadInst>(&I)) {
        x.k = D_LP; x.cleanup = l->isCleanup();
        for (unsigned i = 0; i < l->getNumClauses(); i++) {
          LPClause c; c.isCatch = l->isCatch(i); const Constant* cv = l->getClause(i);
          if (c.isCatch) { std::vector<Val> v; constVals(cv, v); c.ti = v[0].c; }
          else { c.filter = true; c.ti = 0; if (auto* ca = dyn_cast<ConstantArray>(cv)) for (unsigned j = 0; j < ca->getNumOperands(); j++) { std::vector<Val> v; constVals(ca->getOperand(j), v); c.fl.push_back(v[0].c); } }
          x.cl.push_back(c);
        }
      }
      else if (auto* a = dyn_cast<AllocaInst>(&I)) { x.k = D_ALLOCA; x.goff = DL->getTypeAllocSize(a->getAllocatedType()); allOps(a->getArraySize()); x.w = lw(a->getArraySize()); }
      else if (auto* l = dyn_cast<LoadInst>(&I)) { x.k = D_LOAD; x.ty = ti(l->getType()); allOps(l->getPointerOperand()); x.atomic = l->isAtomic(); }
      else if (auto* s = dyn_cast<StoreInst>(&I)) { x.k = D_STORE; x.ty = ti(s->getValueOperand()->getType()); allOps(s->getPointerOperand()); allOps(s->getValueOperand()); x.atomic = s->isAtomic(); }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        if (g->getType()->isVectorTy()) { d->code.push_back(x); continue; }
        x.k = D_GEP; allOps(g->getPointerOperand());
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          const Value* idx = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { x.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          uint64_t sc = DL->getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(idx)) { x.goff += ci->getSExtValue() * (int64_t)sc; continue; }
          GepT t; t.op = opnd(idx); t.scale = sc; t.w = lw(idx); x.g.push_back(t);
        }
      }
      else if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
        x.k = D_MOVE; Type* t = e->getAggregateOperand()->getType(); int off = 0;
        for (unsigned ix : e->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) off += ti(st->getElementType(j))->leaves.size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * ti(t)->leaves.size(); } }
        int id = opnd(e->getAggregateOperand()); for (int i = 0; i < x.ndst; i++) x.ops.push_back(nth(id, off + i));
      }
      else if (auto* e = dyn_cast<InsertValueInst>(&I)) {
        x.k = D_MOVE; Type* t = e->getType(); int off = 0;
        for (unsigned ix : e->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) off += ti(st->getElementType(j))->leaves.size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * ti(t)->leaves.size(); } }
        int id = opnd(e->getAggregateOperand()), iv = opnd(e->getInsertedValueOperand()); int k = ti(t)->leaves.size();
        for (int i = 0; i < x.ndst; i++) x.ops.push_back(i >= off && i < off + k ? nth(iv, i - off) : nth(id, i));
      }
      else if (auto* e = dyn_cast<ExtractElementInst>(&I)) {
        int id = opnd(e->getVectorOperand());
        if (auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand())) { x.k = D_MOVE; x.ops.push_back(nth(id, ci->getZExtValue())); }
        else { x.k = D_EXTELT; allOps(e->getVectorOperand()); x.w = lw(&I); x.ops.push_back(opnd(e->getIndexOperand())); x.w2 = lw(e->getIndexOperand()); }
      }
      else if (auto* e = dyn_cast<InsertElementInst>(&I)) {
        int id = opnd(e->getOperand(0)), iv = opnd(e->getOperand(1));
        if (auto* ci = dyn_cast<ConstantInt>(e->getOperand(2))) { x.k = D_MOVE; int at = ci->getZExtValue(); for (int i = 0; i < x.ndst; i++) x.ops.push_back(i == at ? iv : nth(id, i)); }
        else { x.k = D_INSELT; x.w = lw(&I); allOps(e->getOperand(0)); x.ops.push_back(iv); x.ops.push_back(opnd(e->getOperand(2))); x.w2 = lw(e->getOperand(2)); }
      }
      else if (auto* s = dyn_cast<ShuffleVectorInst>(&I)) {
        x.k = D_MOVE; int a = opnd(s->getOperand(0)), b = opnd(s->getOperand(1)); int na = ti(s->getOperand(0)->getType())->leaves.size();
        for (int m : s->getShuffleMask()) x.ops.push_back(m < 0 ? ~0 : m < na ? nth(a, m) : nth(b, m - na));
      }
      else if (auto* r = dyn_cast<AtomicRMWInst>(&I)) { x.k = D_RMW; x.sub = r->getOperation(); x.ty = ti(r->getValOperand()->getType()); x.w = lw(r->getValOperand()); allOps(r->getPointerOperand()); allOps(r->getValOperand()); x.atomic = true; }
      else if (auto* r = dyn_cast<AtomicCmpXchgInst>(&I)) { x.k = D_CMPX; x.ty = ti(r->getCompareOperand()->getType()); x.w = lw(r->getCompareOperand()); allOps(r->getPointerOperand()); allOps(r->getCompareOperand()); allOps(r->getNewValOperand()); x.atomic = true; }
      else if (isa<FenceInst>(I)) x.k = D_FENCE;
      else if (auto* cb = dyn_cast<CallBase>(&I)) {
        x.k = D_CALL; const Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (isa<InlineAsm>(cv)) { x.k = D_NOP; if (!cb->getType()->isVoidTy()) x.k = D_UNSUP;
          if (cast<InlineAsm>(cv)->getAsmString().find("cpuid") != std::string::npos) {   // Eigen asks for cache sizes: a processor that reports nothing
            int z = opnd(Constant::getNullValue(cb->getType())); x.k = D_MOVE; for (size_t i = 0; i < ti(cb->getType())->leaves.size(); i++) x.ops.push_back(nth(z, i)); }
          d->code.push_back(x); continue; }
        x.callee = dyn_cast<Function>(cv); if (auto* al = dyn_cast<GlobalAlias>(cv)) x.callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
        if (x.callee) {
          x.cname = x.callee->getName().str();
          if (x.callee->isIntrinsic()) {
            auto id = x.callee->getIntrinsicID();
            if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::sideeffect || id == Intrinsic::prefetch || id == Intrinsic::stackrestore || id == Intrinsic::invariant_end || id == Intrinsic::var_annotation) { x.k = D_NOP; d->code.push_back(x); continue; }
          }
          x.bfn = findBuiltin(x.cname, x.callee);
        } else x.calleeOp = opnd(cb->getCalledOperand());
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          const Value* a = cb->getArgOperand(i);
          if (isa<MetadataAsValue>(a)) { x.argN.push_back(0); x.byval.push_back(0); continue; }
          x.argN.push_back(ti(a->getType())->leaves.size()); allOps(a);
          x.byval.push_back(cb->isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
        }
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.inv = true; edgeTo(iv->getNormalDest()); edgeTo(iv->getUnwindDest()); }
      }
      d->code.push_back(x);
    }
    bi++;
  }
}

void Engine::initGlobals(State& s) {
  for (auto& G : M->globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) addrOfGlobal(&G);
  // typeinfo hierarchy from the initializers
  for (auto& G : M->globals()) {
    StringRef n = G.getName(); if (!n.starts_with("_ZTI") || G.isDeclaration()) continue;
    auto* cs = dyn_cast<ConstantStruct>(G.getInitializer()); if (!cs) continue;
    std::vector<uint64_t> b;
    for (unsigned i = 2; i < cs->getNumOperands(); i++) if (cs->getOperand(i)->getType()->isPointerTy()) { std::vector<Val> v; constVals(cs->getOperand(i), v); b.push_back(v[0].c); }
    tiBases[addrOfGlobal(&G)] = b;
  }
}
