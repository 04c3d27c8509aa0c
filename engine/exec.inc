  // ------------------------------------------------------------ decoding (inside struct Engine)
  static int fpKind(Type *t) { return t->isFloatTy() ? 1 : t->isDoubleTy() ? 2 : t->isX86_FP80Ty() ? 3 : 0; }
  static unsigned widthOf(Type *t) { return t->isIntegerTy() ? t->getIntegerBitWidth() : t->isPointerTy() ? 64 : 0; }
  static long double apToLD(const APFloat &f0, Type *t) {
    if (t->isFloatTy()) return f0.convertToFloat();
    if (t->isDoubleTy()) return f0.convertToDouble();
    APInt b = f0.bitcastToAPInt();
    u64 raw[2] = {b.getRawData()[0], b.getRawData()[1]};
    long double v = 0; memcpy(&v, raw, 10); return v;
  }
  Val constVal(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getValue().getActiveBits() > 64) throw PathEnd{"wide constant"}; return VI(ci->getZExtValue()); }
    if (auto *cf = dyn_cast<ConstantFP>(c)) return VF(apToLD(cf->getValueAPF(), c->getType()));
    if (isa<ConstantPointerNull>(c)) return VI(0);
    if (auto *gv = dyn_cast<GlobalValue>(c)) return VI(gvAddr(gv));
    if (isa<UndefValue>(c)) {
      if (c->getType()->isStructTy()) { Val v; v.k = Val::AGG; v.g = new Agg; v.g->v.resize(c->getType()->getStructNumElements()); return v; }
      return Val();
    }
    if (auto *vt = dyn_cast<FixedVectorType>(c->getType())) {
      std::vector<Val> e; for (unsigned i = 0; i < vt->getNumElements(); i++) { auto *x = c->getAggregateElement(i); if (!x) throw PathEnd{"unsupported constant"}; e.push_back(constVal(x)); }
      return lanesOf(e);
    }
    if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
      Val v; v.k = Val::AGG; v.g = new Agg;
      unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) v.g->v.push_back(constVal(c->getAggregateElement(i)));
      return v;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) throw PathEnd{"constant gep"};
        return VI(constVal(cast<Constant>(gep->getPointerOperand())).i + off.getZExtValue());
      }
      if (ce->isCast()) return constVal(ce->getOperand(0));
      if (ce->getOpcode() == Instruction::Sub) return VI(constVal(ce->getOperand(0)).i - constVal(ce->getOperand(1)).i);
      if (ce->getOpcode() == Instruction::Add) return VI(constVal(ce->getOperand(0)).i + constVal(ce->getOperand(1)).i);
    }
    throw PathEnd{"unsupported constant"};
  }
  State *init0 = nullptr;
  u64 gvAddr(const GlobalValue *g) {
    if (auto *ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee()).i;
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    u32 id;
    if (auto *f = dyn_cast<Function>(g)) {
      id = newObj(*init0, 1, 4); objFn[id] = fnOf(const_cast<Function *>(f));
    } else {
      auto *v = cast<GlobalVariable>(g);
      u64 sz = v->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(v->getValueType()) : 64;
      if (v->isDeclaration() && sz < 64) sz = 64;
      id = newObj(*init0, sz, 3, true);
    }
    return gaddr[g] = (u64)id << 32;
  }
  void initConst(u64 addr, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (t->isStructTy()) {
      auto *sl = DL->getStructLayout(cast<StructType>(t));
      for (unsigned i = 0; i < t->getStructNumElements(); i++) initConst(addr + sl->getElementOffset(i), c->getAggregateElement(i));
      return;
    }
    if (t->isArrayTy()) {
      u64 es = DL->getTypeAllocSize(t->getArrayElementType());
      for (unsigned i = 0; i < t->getArrayNumElements(); i++) initConst(addr + es * i, c->getAggregateElement(i));
      return;
    }
    Val v = constVal(c);
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); int k = fpKind(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) store(*init0, addr + es * i, v.g->v[i], es, k); return; }
    int k = fpKind(t);
    store(*init0, addr, v, k ? fpSize(k) : (widthOf(t) + 7) / 8, k);
  }
  FnInfo *fnOf(Function *f) {
    auto it = fns.find(f);
    if (it != fns.end()) return it->second;
    FnInfo *n = new FnInfo; n->f = f; n->name = f->getName().str(); n->ext = f->isDeclaration(); n->nargs = f->arg_size();
    n->isLib = n->name.find("lpaggreg") != std::string::npos || n->name.find("entropy") != std::string::npos || n->name.find("divergence") != std::string::npos;
    if (n->ext || isOverride(n->name)) { n->ext = true; n->extId = extIndex(n->name); }
    return fns[f] = n;
  }
  std::map<const Function *, bool> fcmpMemo;
  bool mayFcmp(Function *f, std::set<Function *> &seen) {
    if (!seen.insert(f).second) return false;
    if (f->getName() == "sym_assert" || f->getName() == "sym_assume") return true;
    for (auto &bb : *f) for (auto &i : bb) {
      if (isa<FCmpInst>(i)) return true;
      if (auto *cb = dyn_cast<CallBase>(&i)) if (auto *g = cb->getCalledFunction()) { if (mayFcmp(g, seen)) return true; }
    }
    return false;
  }
  struct DC { std::map<const Value *, int> slot; };
  int constSlot(const Constant *c) {
    auto it = constIdx.find(c);
    if (it != constIdx.end()) return it->second;
    consts.push_back(constVal(c));
    return constIdx[c] = ~(int)(consts.size() - 1);
  }
  int opnd(DC &d, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constSlot(c);
    auto it = d.slot.find(v);
    if (it == d.slot.end()) return constSlot(UndefValue::get(Type::getInt8Ty(lctx))); // metadata etc.
    return it->second;
  }
  void decode(FnInfo *fi) {
    fi->decoded = true;
    Function *f = fi->f; DC d; int n = 0;
    for (auto &a : f->args()) d.slot[&a] = n++;
    for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) d.slot[&i] = n++;
    fi->nregs = n;
    std::map<const BasicBlock *, u32> start; u32 pc = 0;
    for (auto &bb : *f) { start[&bb] = pc; for (auto &i : bb) if (!isa<PHINode>(i) && !isa<DbgInfoIntrinsic>(i)) pc++; }
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
      Edge e; e.target = start[to];
      for (auto &ph : to->phis()) e.moves.push_back({d.slot[&ph], opnd(d, ph.getIncomingValueForBlock(from))});
      return e;
    };
    { std::set<Function *> seen; Type *rt = f->getReturnType();
      fi->mergeable = rt->isIntegerTy() && rt->getIntegerBitWidth() <= 32 && fi->isLib && mayFcmp(f, seen); }
    for (auto &bb : *f) for (auto &i : bb) {
      if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
      Ins x; x.src = &i; x.ty = i.getType();
      if (!i.getType()->isVoidTy()) x.dst = d.slot[&i];
      x.fpk = fpKind(i.getType()); x.w = widthOf(i.getType()); x.isptr = i.getType()->isPointerTy();
      // vectors are handled lane by lane: fpk, w and imm describe one lane
      auto vec = [&](Ins &y, Type *t) { auto *vt = dyn_cast<FixedVectorType>(t); y.lanes = vt ? vt->getNumElements() : 0; if (vt) { y.fpk = fpKind(vt->getElementType()); y.w = widthOf(vt->getElementType()); } };
      if (i.getType()->isVectorTy()) vec(x, i.getType());
      auto O = [&](unsigned k) { return opnd(d, i.getOperand(k)); };
      switch (i.getOpcode()) {
      case Instruction::Alloca: { auto &al = cast<AllocaInst>(i); x.op = O_ALLOCA; x.imm = DL->getTypeAllocSize(al.getAllocatedType()); x.a = O(0); break; }
      case Instruction::Load: x.op = O_LOAD; x.a = O(0); x.imm = x.fpk ? fpSize(x.fpk) : (x.w + 7) / 8; if (i.getType()->isStructTy()) x.op = O_UNSUP; break;
      case Instruction::Store: { Type *t = i.getOperand(0)->getType(); x.op = O_STORE; x.a = O(0); x.b = O(1); if (t->isVectorTy()) vec(x, t); else { x.fpk = fpKind(t); x.w = widthOf(t); } x.imm = x.fpk ? fpSize(x.fpk) : (x.w + 7) / 8; if (!x.imm) x.op = O_UNSUP; break; }
      case Instruction::GetElementPtr: {
        x.op = O_GEP; x.a = O(0); int64_t off = 0; auto *gep = cast<GEPOperator>(&i);
        for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
          if (StructType *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
          else {
            int64_t es = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(it.getOperand())) off += ci->getSExtValue() * es;
            else { x.scaled.push_back({opnd(d, it.getOperand()), es}); x.idx.push_back(widthOf(it.getOperand()->getType())); }
          }
        }
        x.imm = off; break; }
      case Instruction::Br: { auto &b = cast<BranchInst>(i); if (b.isConditional()) { x.op = O_CBR; x.a = opnd(d, b.getCondition()); x.edges.push_back(edge(&bb, b.getSuccessor(0))); x.edges.push_back(edge(&bb, b.getSuccessor(1))); } else { x.op = O_BR; x.edges.push_back(edge(&bb, b.getSuccessor(0))); } break; }
      case Instruction::Switch: { auto &sw = cast<SwitchInst>(i); x.op = O_SWITCH; x.a = opnd(d, sw.getCondition()); x.w = widthOf(sw.getCondition()->getType());
        x.edges.push_back(edge(&bb, sw.getDefaultDest()));
        for (auto c : sw.cases()) { x.cases.push_back({c.getCaseValue()->getZExtValue(), (int)x.edges.size()}); x.edges.push_back(edge(&bb, c.getCaseSuccessor())); } break; }
      case Instruction::Ret: x.op = O_RET; x.a = i.getNumOperands() ? O(0) : 0; x.sub = i.getNumOperands(); break;
      case Instruction::Invoke: case Instruction::Call: {
        auto &cb = cast<CallBase>(i); x.op = O_CALL;
        if (auto *cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts())) x.callee = fnOf(cf);
        else if (cb.isInlineAsm()) { x.op = O_UNSUP; break; }
        else x.a = opnd(d, cb.getCalledOperand());
        bool meta = false;
        for (unsigned k = 0; k < cb.arg_size(); k++) {
          if (cb.getArgOperand(k)->getType()->isMetadataTy()) { meta = true; break; }
          x.args.push_back(opnd(d, cb.getArgOperand(k)));
          x.byval.push_back(cb.isByValArgument(k) ? (u64)DL->getTypeAllocSize(cb.getParamByValType(k)) : 0);
          x.idx.push_back(widthOf(cb.getArgOperand(k)->getType()));
        }
        (void)meta;
        if (auto *iv = dyn_cast<InvokeInst>(&i)) { x.edges.push_back(edge(&bb, iv->getNormalDest())); x.normalEdge = 0; x.edges.push_back(edge(&bb, iv->getUnwindDest())); x.unwindEdge = 1; }
        break; }
      case Instruction::Unreachable: x.op = O_UNREACH; break;
      case Instruction::Select: x.op = O_SELECT; x.a = O(0); x.b = O(1); x.c = O(2); break;
      case Instruction::ICmp: x.op = O_ICMP; x.sub = cast<ICmpInst>(i).getPredicate(); x.a = O(0); x.b = O(1); x.w = widthOf(i.getOperand(0)->getType()->getScalarType()); break;
      case Instruction::ExtractElement: x.op = O_EXTELT; x.a = O(0); x.b = O(1); break;
      case Instruction::InsertElement: x.op = O_INSELT; x.a = O(0); x.b = O(1); x.c = O(2); break;
      case Instruction::ShuffleVector: { x.op = O_SHUF; x.a = O(0); x.b = O(1); auto *vt = dyn_cast<FixedVectorType>(i.getOperand(0)->getType()); if (!vt) { x.op = O_UNSUP; break; } x.sub = vt->getNumElements(); for (int k : cast<ShuffleVectorInst>(i).getShuffleMask()) x.idx.push_back((unsigned)k); break; }
      case Instruction::FCmp: x.op = O_FCMP; x.sub = cast<FCmpInst>(i).getPredicate(); x.a = O(0); x.b = O(1); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: x.op = O_FBIN; x.sub = i.getOpcode(); x.a = O(0); x.b = O(1); break;
      case Instruction::FNeg: x.op = O_FNEG; x.a = O(0); break;
      case Instruction::ExtractValue: x.op = O_EXTRACT; x.a = O(0); for (unsigned k : cast<ExtractValueInst>(i).indices()) x.idx.push_back(k); break;
      case Instruction::InsertValue: x.op = O_INSERT; x.a = O(0); x.b = O(1); for (unsigned k : cast<InsertValueInst>(i).indices()) x.idx.push_back(k); break;
      case Instruction::AtomicRMW: { auto &rm = cast<AtomicRMWInst>(i); x.op = O_RMW; x.a = O(0); x.b = O(1); x.sub = rm.getOperation(); x.imm = (x.w + 7) / 8; break; }
      case Instruction::AtomicCmpXchg: x.op = O_CMPXCHG; x.a = O(0); x.b = O(1); x.c = O(2); x.w = widthOf(i.getOperand(1)->getType()); break;
      case Instruction::Fence: x.op = O_FENCE; break;
      case Instruction::Freeze: x.op = O_FREEZE; x.a = O(0); break;
      case Instruction::LandingPad: { auto &lp = cast<LandingPadInst>(i); x.op = O_LPAD; x.sub = lp.isCleanup(); for (unsigned k = 0; k < lp.getNumClauses(); k++) { if (!lp.isCatch(k)) { x.op = O_UNSUP; break; } x.byval.push_back(constVal(lp.getClause(k)).i); } break; }
      case Instruction::Resume: x.op = O_RESUME; x.a = O(0); break;
      default:
        if (i.isCast()) { x.op = O_CAST; x.sub = i.getOpcode(); x.a = O(0); Type *ot = i.getOperand(0)->getType()->getScalarType(); x.imm = widthOf(ot); x.idx.push_back(fpKind(ot)); auto *vt = dyn_cast<FixedVectorType>(i.getOperand(0)->getType()); x.idx.push_back(vt ? vt->getNumElements() : 0); }
        else if (i.isBinaryOp()) { x.op = O_BIN; x.sub = i.getOpcode(); x.a = O(0); x.b = O(1); }
        else x.op = O_UNSUP;
      }
      if (isa<ScalableVectorType>(i.getType())) x.op = O_UNSUP;
      fi->code.push_back(x);
    }
  }

  // ------------------------------------------------------------ arithmetic
  static long double roundTo(long double v, int k) { return k == 1 ? (long double)(float)v : k == 2 ? (long double)(double)v : v; }
  const Poly *toPoly(const Val &v) {
    if (v.k == Val::SR) return v.p;
    if (v.k == Val::F) return P.constant(ratOf(v.f));
    throw PathEnd{"integer used as real"};
  }
  Val fromPoly(const Poly *p) {
    if (p->isConst()) return VF(ldOf(p->cval()));
    return VSR(p);
  }
  PolyCtx::Range polyRange(const Poly *p) {
    PolyCtx::Range r; r.hasLo = r.hasHi = true; r.lo = r.hi = 0;
    for (auto &t : p->t) {
      if (t.first == 0) { r.lo += t.second; r.hi += t.second; continue; }
      PolyCtx::Range m = P.monoRange(t.first);
      bool pos = t.second > 0;
      if (pos ? m.hasLo : m.hasHi) { if (r.hasLo) r.lo += t.second * (pos ? m.lo : m.hi); } else r.hasLo = false;
      if (pos ? m.hasHi : m.hasLo) { if (r.hasHi) r.hi += t.second * (pos ? m.hi : m.lo); } else r.hasHi = false;
      if (!r.hasLo && !r.hasHi) return r;
    }
    return r;
  }
  // kind 0: d>0, 1: d>=0, 2: d==0
  E cmp0(const Poly *d, int kind) {
    if (d->isConst()) { int s = sgn(d->cval()); return z.bool_val(kind == 0 ? s > 0 : kind == 1 ? s >= 0 : s == 0); }
    PolyCtx::Range r = polyRange(d);
    if (kind == 0) { if (r.hasLo && r.lo > 0) return z.bool_val(true); if (r.hasHi && r.hi <= 0) return z.bool_val(false); }
    if (kind == 1) { if (r.hasLo && r.lo >= 0) return z.bool_val(true); if (r.hasHi && r.hi < 0) return z.bool_val(false); }
    if (kind == 2) { if ((r.hasLo && r.lo > 0) || (r.hasHi && r.hi < 0)) return z.bool_val(false); }
    const auto &lt = d->t[0].first ? d->t[0] : d->t[1];
    Rat lc = lt.second; bool neg = lc < 0;
    const Poly *n = P.scale(d, Rat(1) / abs(lc));
    if (!neg || kind == 2) {
      if (neg) n = P.scale(n, -1);
      E l = low(n);
      E e = kind == 0 ? l > 0 : kind == 1 ? l >= 0 : l == 0;
      cmpPoly[Z3_get_ast_id(z, e)] = {n, kind}; keepAlive.push_back(e);
      return e;
    }
    // d>0 <=> !( -d >= 0 )
    return mkNot(cmp0(P.scale(n, -1), kind == 0 ? 1 : 0));
  }
  std::vector<E> keepAlive;
  Val fcmp(unsigned pred, const Val &a, const Val &b) {
    if (a.k == Val::F && b.k == Val::F) {
      long double x = a.f, y = b.f; bool un = std::isnan(x) || std::isnan(y), r = false;
      switch (pred) {
      case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
      case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break;
      case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break;
      case CmpInst::FCMP_UGT: r = !(x <= y); break; case CmpInst::FCMP_UGE: r = !(x < y); break; case CmpInst::FCMP_ULT: r = !(x >= y); break;
      case CmpInst::FCMP_ULE: r = !(x > y); break; case CmpInst::FCMP_UNE: r = !(x == y); break;
      }
      return VI(r);
    }
    const Val *c = a.k == Val::F ? &a : b.k == Val::F ? &b : nullptr;
    if (c && !std::isfinite(c->f)) {
      if (std::isnan(c->f)) return VI(pred >= CmpInst::FCMP_UNO ? 1 : 0); // FCMP_UNO..TRUE (8..15) are unordered
      // replace the finite symbolic side by 0
      return fcmp(pred, a.k == Val::F ? a : VF(0), b.k == Val::F ? b : VF(0));
    }
    switch (pred) { case CmpInst::FCMP_FALSE: case CmpInst::FCMP_UNO: return VI(0); case CmpInst::FCMP_TRUE: case CmpInst::FCMP_ORD: return VI(1); default: break; }
    const Poly *d = P.sub(toPoly(a), toPoly(b));
    if (cur && !d->isConst()) { // values known on this path; rounding noise left by the substitution counts as 0
      Rat big = 0; for (auto &x : d->t) big = std::max(big, Rat(abs(x.second)));
      d = substR(*cur, d);
      if (d->isConst() && abs(d->cval()) < big * Rat(1, 1000000000000000)) d = P.constant(0);
    }
    switch (pred) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return vbool(cmp0(d, 2));
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return vbool(mkNot(cmp0(d, 2)));
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return vbool(cmp0(d, 0));
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return vbool(cmp0(d, 1));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return vbool(mkNot(cmp0(d, 1)));
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return vbool(mkNot(cmp0(d, 0)));
    }
    throw PathEnd{"fcmp"};
  }
  Val fbin(State &s, unsigned op, int k, const Val &a, const Val &b) {
    if (a.k == Val::F && b.k == Val::F) {
      long double r = 0;
      if (k == 1) { float x = a.f, y = b.f; r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmodf(x, y); r = (float)r; }
      else if (k == 2) { double x = a.f, y = b.f; double q = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmod(x, y); r = q; }
      else { long double x = a.f, y = b.f; r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmodl(x, y); }
      return VF(r);
    }
    const Val *c = a.k == Val::F ? &a : b.k == Val::F ? &b : nullptr;
    if (c && !std::isfinite(c->f)) {
      if (std::isnan(c->f)) return VF(NAN);
      if (op == Instruction::FAdd) return VF(c->f);
      if (op == Instruction::FSub) return VF(c == &a ? c->f : -c->f);
      if (op == Instruction::FDiv && c == &b) return VF(0);
      const Poly *q = toPoly(c == &a ? b : a);
      if (decide(s, cmp0(q, 0))) return VF(c->f);
      if (decide(s, mkNot(cmp0(q, 1)))) return VF(-c->f);
      return op == Instruction::FMul ? VF(NAN) : VF(c->f);
    }
    const Poly *x = toPoly(a), *y = toPoly(b);
    switch (op) {
    case Instruction::FAdd: return fromPoly(P.add(x, y));
    case Instruction::FSub: return fromPoly(P.sub(x, y));
    case Instruction::FMul: return fromPoly(P.mul(x, y));
    case Instruction::FDiv: {
      const Poly *ys = substR(s, y);
      if (decide(s, cmp0(ys, 2), false, true)) {
        const Poly *xs = substR(s, x);
        if (decide(s, cmp0(xs, 0))) return VF(INFINITY);
        if (decide(s, mkNot(cmp0(xs, 1)))) return VF(-INFINITY);
        return VF(NAN);
      }
      return fromPoly(P.divide(x, y)); }
    }
    throw PathEnd{"frem of symbolic real"};
  }
  // a symbolic real stored in a narrower format: the value plus a bounded rounding error (one atom per value and format)
  Val narrow(State &s, const Val &v, int fpk) {
    if (v.k != Val::SR || fpk != 1) return v; // double precision (logarithms are taken in it) counts as exact
    const Poly *p = v.p;
    if (p->isConst()) return v;
    if (p->t.size() == 1 && P.monos[p->t[0].first]->isAtom()) { // what was read in that format, or a power of two times it
      Atom *a = P.atoms[P.monos[p->t[0].first]->f[0].first]; const Rat &c = p->t[0].second;
      bool pow2 = mpz_popcount(mpz_class(abs(c.get_num())).get_mpz_t()) == 1 && mpz_popcount(c.get_den_mpz_t()) == 1;
      if (a->kind == A_UNDEF) return v;
      if (a->kind == A_INPUT && pow2) for (auto &i : inputs) if (i.atom == a->id && (fpk == 1 ? i.kind == 1 : i.kind <= 1)) return v;
    }
    if (p->t.size() > 12) return v; // long sums stay exact
    PolyCtx::Range g = polyRange(p); if (!g.hasLo || !g.hasHi) return v;
    for (auto &t : p->t) for (auto &fe : P.monos[t.first]->f) { auto k = P.atoms[fe.first]->kind; if (k == A_RND32 || k == A_RND64) { if (fpk == 2 && k == A_RND32) continue; return v; } } // rounded before
    const Poly *e = P.fun(fpk == 1 ? A_RND32 : A_RND64, p); Atom *a = P.atoms[P.monos[e->t[0].first]->f[0].first];
    if (!a->hasLo) { Rat b = std::max(Rat(abs(g.lo)), Rat(abs(g.hi))); for (int k = 0; k < (fpk == 1 ? 24 : 53); k++) b /= 2; a->hasLo = a->hasHi = true; a->lo = -b; a->hi = b; }
    nRounded++;
    return fromPoly(P.add(p, e));
  }
  Val logOf(State &s, const Val &v, int k, int base) {
    if (v.k == Val::F) {
      if (k == 1) { float x = v.f; return VF(base == 2 ? log2f(x) : base == 10 ? log10f(x) : logf(x)); }
      if (k == 2) { double x = v.f; return VF(base == 2 ? log2(x) : base == 10 ? log10(x) : log(x)); }
      return VF(base == 2 ? log2l(v.f) : base == 10 ? log10l(v.f) : logl(v.f));
    }
    const Poly *p = substR(s, v.p);
    if (p->isConst()) return logOf(s, VF(ldOf(p->cval())), k, base);
    if (!decide(s, cmp0(p, 0))) { if (decide(s, cmp0(p, 2))) return VF(-INFINITY); return VF(NAN); }
    // log(c*q) = log c + log q with q normalised to leading coefficient 1
    Rat lc = p->t[0].second; const Poly *r;
    Rat c = lc > 0 ? lc : Rat(1);
    const Poly *q = P.scale(p, Rat(1) / c);
    r = P.fun(A_LOG, q);
    { Atom *a = P.atoms[P.monos[r->t[0].first]->f[0].first];
      if (!a->hasLo) { PolyCtx::Range g = polyRange(q); if (g.hasLo && g.lo > 0) { a->hasLo = true; a->lo = ratOf(logl(ldOf(g.lo)) - 1e-9L); } if (g.hasHi && g.hi > 0) { a->hasHi = true; a->hi = ratOf(logl(ldOf(g.hi)) + 1e-9L); } } }
    if (c != 1) r = P.add(r, P.constant(ratOf(logl(ldOf(c)))));
    if (base) r = P.scale(r, Rat(1) / ratOf(logl((long double)base)));
    return fromPoly(r);
  }
  Val ibin(State &s, unsigned op, unsigned w, Val a, Val b) {
    if (a.k == Val::UND) a = undefInt(w); if (b.k == Val::UND) b = undefInt(w);
    a = norm(s, a); b = norm(s, b);
    if (a.k == Val::PK || b.k == Val::PK || a.k == Val::SR || b.k == Val::SR || w > 64) return packOp(s, op, w, a, b);
    if (a.k == Val::I && b.k == Val::I) {
      u64 x = a.i & maskw(w), y = b.i & maskw(w), r = 0;
      switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: if (y >= w) return Val(); r = x << y; break; case Instruction::LShr: if (y >= w) return Val(); r = x >> y; break;
      case Instruction::AShr: if (y >= w) return Val(); r = (u64)(sext(x, w) >> y); break;
      case Instruction::UDiv: case Instruction::URem: if (!y) throw Fault{"arith", "integer division by zero", false}; r = op == Instruction::UDiv ? x / y : x % y; break;
      case Instruction::SDiv: case Instruction::SRem: { if (!y) throw Fault{"arith", "integer division by zero", false}; int64_t p = sext(x, w), q = sext(y, w); if (q == -1) { r = op == Instruction::SDiv ? (u64)(-p) : 0; break; } r = op == Instruction::SDiv ? (u64)(p / q) : (u64)(p % q); break; }
      default: throw PathEnd{"binop"};
      }
      return VI(r & maskw(w));
    }
    if (w == 1) {
      E x = boolOf(a), y = boolOf(b);
      switch (op) { case Instruction::And: return vbool(mkAnd(x, y)); case Instruction::Or: return vbool(mkOr(x, y)); case Instruction::Xor: if (x.is_true()) return vbool(mkNot(y)); if (y.is_true()) return vbool(mkNot(x)); if (x.is_false()) return vbool(y); if (y.is_false()) return vbool(x); return vbool((x != y)); }
      throw PathEnd{"i1 binop"};
    }
    E x = bvOf(a, w), y = bvOf(b, w);
    switch (op) {
    case Instruction::Add: return vbv(x + y, w); case Instruction::Sub: return vbv(x - y, w); case Instruction::Mul: return vbv(x * y, w);
    case Instruction::And: return vbv(x & y, w); case Instruction::Or: return vbv(x | y, w); case Instruction::Xor: return vbv(x ^ y, w);
    case Instruction::Shl: return vbv(z3::shl(x, y), w); case Instruction::LShr: return vbv(z3::lshr(x, y), w); case Instruction::AShr: return vbv(z3::ashr(x, y), w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      if (decide(s, (y == z.bv_val(0, w)).simplify(), false)) throw Fault{"arith", "integer division by zero", false};
      return vbv(op == Instruction::UDiv ? z3::udiv(x, y) : op == Instruction::URem ? z3::urem(x, y) : op == Instruction::SDiv ? x / y : z3::srem(x, y), w);
    }
    throw PathEnd{"binop"};
  }
  Val icmp(State &s, unsigned pred, unsigned w, Val a, Val b) {
    if (a.k == Val::UND) a = undefInt(w); if (b.k == Val::UND) b = undefInt(w);
    a = norm(s, a); b = norm(s, b);
    if (a.k == Val::I && b.k == Val::I) {
      u64 x = a.i & maskw(w), y = b.i & maskw(w); int64_t p = sext(x, w), q = sext(y, w); bool r = false;
      switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break;
      case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; }
      return VI(r);
    }
    if (w == 1) { E x = boolOf(a), y = boolOf(b); if (pred == CmpInst::ICMP_EQ) return vbool((x == y).simplify()); if (pred == CmpInst::ICMP_NE) return vbool((x != y).simplify()); throw PathEnd{"i1 icmp"}; }
    if (a.k == Val::SR && b.k == Val::I && (w == 64 || w == 32)) { // sign bit of a real; comparison of its bits with those of zero
      if (pred == CmpInst::ICMP_SLT && !(b.i & maskw(w))) return vbool(mkNot(cmp0(a.p, 1)));
      if (pred == CmpInst::ICMP_SGT && (b.i & maskw(w)) == maskw(w)) return vbool(cmp0(a.p, 1));
    }
    E x = bvOf(a, w), y = bvOf(b, w); E e(z);
    switch (pred) { case CmpInst::ICMP_EQ: e = x == y; break; case CmpInst::ICMP_NE: e = x != y; break; case CmpInst::ICMP_UGT: e = z3::ugt(x, y); break; case CmpInst::ICMP_UGE: e = z3::uge(x, y); break;
    case CmpInst::ICMP_ULT: e = z3::ult(x, y); break; case CmpInst::ICMP_ULE: e = z3::ule(x, y); break; case CmpInst::ICMP_SGT: e = z3::sgt(x, y); break; case CmpInst::ICMP_SGE: e = z3::sge(x, y); break;
    case CmpInst::ICMP_SLT: e = z3::slt(x, y); break; case CmpInst::ICMP_SLE: e = z3::sle(x, y); break; }
    return vbool(e.simplify());
  }

  // ------------------------------------------------------------ running
  Val &reg(State &s, int r) { return s.regs[s.fr.back().base + r]; }
  const Val &opv(State &s, int o) { return o >= 0 ? s.regs[s.fr.back().base + o] : consts[~o]; }
  Val opF(State &s, int o) { const Val &v = opv(s, o); if (v.k == Val::UND) return undefReal(); return v; }
  void takeEdge(State &s, const Edge &e) {
    Frame &f = s.fr.back(); f.pc = e.target;
    if (e.moves.size() == 1) { Val v = opv(s, e.moves[0].second); reg(s, e.moves[0].first) = v; return; }
    if (!e.moves.empty()) {
      std::vector<Val> t; t.reserve(e.moves.size());
      for (auto &m : e.moves) t.push_back(opv(s, m.second));
      for (size_t k = 0; k < t.size(); k++) reg(s, e.moves[k].first) = t[k];
    }
  }
  std::map<FnInfo *, u64> encoded;
  void pushFrame(State &s, FnInfo *fi, std::vector<Val> &args, const Ins *call) {
    if (!fi->decoded) decode(fi);
    if (s.fr.size() > maxDepth) throw Fault{"recursion", "recursion deeper than " + std::to_string(maxDepth) + " frames in " + demangle(fi->name), false};
    fi->calls++;
    Frame f; f.fn = fi; f.pc = 0; f.base = s.regs.size(); f.call = call;
    s.regs.resize(f.base + fi->nregs);
    for (size_t k = 0; k < args.size() && (int)k < fi->nargs; k++) s.regs[f.base + k] = args[k];
    s.fr.push_back(std::move(f));
  }
  void advanceCall(State &s, const Ins *c) { if (c->normalEdge >= 0) takeEdge(s, c->edges[c->normalEdge]); else s.fr.back().pc++; }
  void tick(State &s) {
    if (++s.instrs > maxInstr) throw Fault{"nontermination", "more than " + std::to_string(maxInstr) + " instructions on one path", false};
    if ((++nInstr & 1023) == 0 && now() - tStart > budget) { truncated = true; throw Stop{}; }
  }
  bool sameVal(const Val &a, const Val &b) {
    if (a.k != b.k) return false;
    switch (a.k) { case Val::I: return a.i == b.i; case Val::F: return memcmp(&a.f, &b.f, 10) == 0; case Val::SB: return a.s == b.s; case Val::SR: return a.p == b.p; case Val::UND: return true; default: return a.g == b.g; }
  }
  bool sameObj(Obj *a, Obj *b) {
    if (a == b) return true; if (!a || !b) return false;
    if (a->alive != b->alive || a->size != b->size || a->kind != b->kind || a->sym.size() != b->sym.size() || a->init != b->init) return false;
    for (u32 k = 0; k < a->size; k++) if (a->init[k] && a->b[k] != b->b[k]) { bool in = false; for (auto &c : a->sym) if (c.off <= k && k < c.off + c.size) in = true; if (!in) return false; }
    for (auto &c : a->sym) { bool f = false; for (auto &d : b->sym) if (d.off == c.off && d.size == c.size && sameVal(c.v, d.v)) f = true; if (!f) return false; }
    return true;
  }
  bool memSame(State &base, State &f) {
    size_t n = std::max(base.pages.size(), f.pages.size());
    for (size_t p = 0; p < n; p++) {
      Page *x = p < base.pages.size() ? base.pages[p] : nullptr, *y = p < f.pages.size() ? f.pages[p] : nullptr;
      if (x == y) continue;
      for (int k = 0; k < 64; k++) {
        u32 id = p * 64 + k; Obj *a = x ? x->o[k] : nullptr, *b = y ? y->o[k] : nullptr;
        if (a == b) continue;
        if (id >= base.nextObj) { if (b && b->alive) return false; continue; }
        if (!sameObj(a, b)) return false;
      }
    }
    return true;
  }
  // run a comparator-like callee over all its paths and join the results into one value
  State *mergeCall(State *s, const Ins *c, FnInfo *fi, std::vector<Val> &args) {
    size_t depth = s->fr.size();
    State *base = clone(*s);
    std::vector<State *> local, finals; auto *saved = work; bool died = false;
    pushFrame(*s, fi, args, c);
    work = &local; local.push_back(s);
    try {
      while (!local.empty()) {
        State *x = local.back(); local.pop_back();
        State *r = run(x, depth);
        if (r) finals.push_back(r); else died = true;
      }
    } catch (...) { work = saved; throw; }
    work = saved;
    if (finals.empty()) { freeState(base); return nullptr; }
    if (finals.size() == 1) { freeState(base); return finals[0]; }
    unsigned w = c->w; bool ok = finals.size() <= 64 && c->dst >= 0; u32 mo = 0;
    for (State *f : finals) {
      if (!ok) break;
      mo = std::max(mo, f->nextObj);
      const Val &v = f->regs[f->fr.back().base + c->dst];
      if ((v.k != Val::I && v.k != Val::SB) || f->assign.size() != base->assign.size() || f->outs.size() != base->outs.size() || !memSame(*base, *f)) ok = false;
    }
    if (!ok) {
      for (size_t k = 1; k < finals.size(); k++) work->push_back(finals[k]);
      freeState(base); return finals[0];
    }
    nMerge++;
    E all = z.bool_val(false), acc(z); bool first = true; E accB = z.bool_val(false);
    for (State *f : finals) {
      E conj = z.bool_val(true);
      for (PCNode *n = f->pc; n != base->pc; n = n->parent) conj = mkAnd(n->e, conj);
      all = mkOr(all, conj);
      const Val &v = f->regs[f->fr.back().base + c->dst];
      if (w == 1) accB = mkOr(accB, mkAnd(conj, boolOf(v)));
      else { E x = bvOf(v, w); acc = first ? x : z3::ite(conj, x, acc); first = false; }
    }
    Val res = w == 1 ? vbool(accB) : vbv(acc, w);
    State *o = finals[0];
    for (size_t k = 1; k < finals.size(); k++) freeState(finals[k]);
    o->pc = base->pc; o->model = base->model; o->assignR = base->assignR; o->nextObj = mo;
    if (died) { addPC(*o, all); o->model = nullptr; }
    o->regs[o->fr.back().base + c->dst] = res;
    freeState(base);
    return o;
  }
  // ---- C++ exceptions: continue at the landing pad of the innermost invoke (pop: leave the current frame first)
  void unwind(State &s, size_t stop, bool pop) {
    s.unwinding = false;
    for (;; pop = true) {
      if (pop) {
        Frame &f = s.fr.back(); for (u32 id : f.allocas) killObj(s, id);
        s.regs.resize(f.base); s.fr.pop_back();
        if (s.fr.empty()) throw Fault{"exception", s.exWhat, false};
        if (s.fr.size() <= stop && stop) throw PathEnd{"exception through a joined call"};
      }
      const Ins &x = s.fr.back().fn->code[s.fr.back().pc];
      if (x.op == O_CALL && x.unwindEdge >= 0) { takeEdge(s, x.edges[x.unwindEdge]); return; }
    }
  }
  u64 exTypeId(u64 c) { return c ? (c >> 32) : 0x7ffffff0; }
  const GlobalVariable *gvAt(u64 a) { for (auto &g : gaddr) if (g.second == a) return dyn_cast<GlobalVariable>(g.first); return nullptr; }
  static std::string stdBase(const std::string &n) {
    for (const char *d : {"St12out_of_range", "St16invalid_argument", "St12length_error", "St12domain_error"}) if (n == d) return "St11logic_error";
    for (const char *d : {"St11range_error", "St14overflow_error", "St15underflow_error"}) if (n == d) return "St13runtime_error";
    for (const char *d : {"St20bad_array_new_length"}) if (n == d) return "St9bad_alloc";
    for (const char *d : {"St11logic_error", "St13runtime_error", "St9bad_alloc", "St8bad_cast", "St17bad_function_call", "St10bad_typeid", "St12bad_weak_ptr", "St13bad_exception"}) if (n == d) return "St9exception";
    return "";
  }
  // does the exception in flight match a catch clause (0: catch all)?
  bool exMatches(State &s, u64 clause) {
    if (!clause) return true;
    const GlobalVariable *c = gvAt(clause); if (!c) return false;
    std::string want = c->getName().str(); if (want.compare(0, 4, "_ZTI") == 0) want = want.substr(4);
    std::function<bool(const std::string &)> up = [&](const std::string &n) -> bool {
      if (n.empty()) return false; if (n == want) return true;
      if (auto *g = mod->getNamedGlobal("_ZTI" + n)) if (g->hasInitializer()) if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()))
        for (unsigned k = 2; k < cs->getNumOperands(); k++) if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(k)->stripPointerCasts())) { std::string t = b->getName().str(); if (t.compare(0, 4, "_ZTI") == 0 && up(t.substr(4))) return true; }
      return up(stdBase(n));
    };
    return up(s.exWhat);
  }
  // runs until the frame stack is back to `stop` frames; null if the path ended otherwise
  State *run(State *sp, size_t stop) {
    try {
      for (;;) {
        State &s = *sp;
        if (s.fr.size() <= stop) return sp;
        Frame &f = s.fr.back();
        const Ins &x = f.fn->code[f.pc];
        cur = sp; tick(s);
        switch (x.op) {
        case O_ALLOCA: { u64 n = concretize(s, opv(s, x.a), 64); u32 id = newObj(s, x.imm * n, 2); s.fr.back().allocas.push_back(id); reg(s, x.dst) = VI((u64)id << 32); f.pc++; break; }
        case O_LOAD: { u64 a = concretize(s, opv(s, x.a), 64);
          if (x.lanes) { std::vector<Val> e; for (u32 k = 0; k < x.lanes; k++) e.push_back(load(s, a + k * x.imm, x.imm, x.w, x.fpk)); reg(s, x.dst) = lanesOf(e); f.pc++; break; }
          reg(s, x.dst) = load(s, a, x.imm, x.w, x.fpk); f.pc++; break; }
        case O_STORE: { u64 a = concretize(s, opv(s, x.b), 64);
          if (x.lanes) { Val v = opv(s, x.a); for (u32 k = 0; k < x.lanes; k++) store(s, a + k * x.imm, lane(v, k), x.imm, x.fpk); f.pc++; break; }
          Val v = norm(s, opv(s, x.a)); if (v.k == Val::I) v.i &= maskw(x.w ? x.w : 64); store(s, a, v, x.imm, x.fpk); f.pc++; break; }
        case O_GEP: {
          Val base = opv(s, x.a); 
          if (base.k == Val::UND) base = undefInt(64);
          bool conc = base.k == Val::I; u64 a = base.i + x.imm;
          std::vector<Val> ix; 
          if (!x.scaled.empty()) {
            for (size_t k = 0; k < x.scaled.size(); k++) { Val v = norm(s, opv(s, x.scaled[k].first)); if (v.k == Val::UND) v = undefInt(x.idx[k]); if (v.k != Val::I) conc = false; ix.push_back(v); }
          }
          if (conc) { for (size_t k = 0; k < ix.size(); k++) a += (u64)(sext(ix[k].i, x.idx[k]) * x.scaled[k].second); reg(s, x.dst) = VI(a); }
          else {
            E e = bvOf(norm(s, base), 64) + z.bv_val((uint64_t)x.imm, 64);
            for (size_t k = 0; k < ix.size(); k++) { E v = bvOf(ix[k], x.idx[k]); if (x.idx[k] < 64) v = z3::sext(v, 64 - x.idx[k]); e = e + v * z.bv_val((int64_t)x.scaled[k].second, 64); }
            reg(s, x.dst) = vbv(e, 64);
          }
          f.pc++; break; }
        case O_BR: takeEdge(s, x.edges[0]); break;
        case O_CBR: {
          Val c = norm(s, opv(s, x.a));
          if (c.k == Val::I) { takeEdge(s, x.edges[(c.i & 1) ? 0 : 1]); break; }
          if (c.k == Val::UND) throw Fault{"uninitialised", "branch on an undefined value", true};
          E e = boolOf(c); bool eq = isEq(e);
          bool r = decide(s, e, !eq, eq);
          takeEdge(s, x.edges[r ? 0 : 1]); break; }
        case O_SWITCH: {
          Val c = norm(s, opv(s, x.a));
          if (c.k == Val::UND) throw Fault{"uninitialised", "switch on an undefined value", true};
          int e = 0;
          if (c.k == Val::I) { for (auto &k : x.cases) if (k.first == (c.i & maskw(x.w))) e = k.second; }
          else { u64 v = concretize(s, c, x.w); for (auto &k : x.cases) if (k.first == (v & maskw(x.w))) e = k.second; }
          takeEdge(s, x.edges[e]); break; }
        case O_RET: {
          Val v; if (x.sub) v = norm(s, opv(s, x.a));
          for (u32 id : f.allocas) killObj(s, id);
          const Ins *c = f.call; s.regs.resize(f.base); s.fr.pop_back();
          if (s.fr.empty()) return sp;
          if (c) { if (c->dst >= 0) reg(s, c->dst) = v; advanceCall(s, c); }
          break; }
        case O_CALL: {
          FnInfo *fi = x.callee;
          if (!fi) { u64 a = concretize(s, opv(s, x.a), 64); auto it = objFn.find(a >> 32); if (it == objFn.end() || (u32)a) throw Fault{"memory", "call through an invalid function pointer", false}; fi = it->second; }
          std::vector<Val> args; args.reserve(x.args.size());
          for (size_t k = 0; k < x.args.size(); k++) args.push_back(norm(s, opv(s, x.args[k])));
          if (fi->ext) {
            if (fi->extId < 0) throw PathEnd{"unmodelled external function " + fi->name};
            if (x.lanes) { std::vector<Val> e(x.lanes); for (u32 k = 0; k < x.lanes; k++) { auto la = args; for (auto &v : la) if (v.k == Val::AGG) v = lane(v, k); (this->*extTable[fi->extId].second)(s, x, la, e[k]); } reg(s, x.dst) = lanesOf(e); advanceCall(s, &x); break; }
            for (auto &v : args) if (v.k == Val::AGG || v.k == Val::PK) throw PathEnd{"aggregate argument of " + fi->name};
            Val ret; (this->*extTable[fi->extId].second)(s, x, args, ret);
            if (s.unwinding) { unwind(s, stop, false); break; }
            if (x.dst >= 0) reg(s, x.dst) = ret;
            advanceCall(s, &x); break;
          }
          std::vector<u32> copies;
          for (size_t k = 0; k < x.byval.size(); k++) if (x.byval[k]) { u64 a = concretize(s, args[k], 64); u32 id = newObj(s, x.byval[k], 2); memcopy(s, (u64)id << 32, a, x.byval[k]); args[k] = VI((u64)id << 32); copies.push_back(id); }
          if (!fi->decoded) decode(fi);
          if (fi->mergeable && !fixedMode && copies.empty()) { State *r = mergeCall(sp, &x, fi, args); if (!r) return nullptr; sp = r; break; }
          pushFrame(s, fi, args, &x);
          for (u32 id : copies) s.fr.back().allocas.push_back(id);
          break; }
        case O_SELECT: {
          Val c = norm(s, opv(s, x.a));
          if (c.k == Val::AGG) { Val t = opv(s, x.b), u = opv(s, x.c); std::vector<Val> e; for (u32 k = 0; k < x.lanes; k++) { Val q = norm(s, lane(c, k)); if (q.k == Val::UND) throw Fault{"uninitialised", "select on an undefined value", true}; e.push_back(lane((q.k == Val::I ? (q.i & 1) : decide(s, boolOf(q))) ? t : u, k)); } reg(s, x.dst) = lanesOf(e); f.pc++; break; }
          if (c.k == Val::UND) throw Fault{"uninitialised", "select on an undefined value", true};
          if (c.k == Val::I) { Val v = opv(s, (c.i & 1) ? x.b : x.c); reg(s, x.dst) = v; f.pc++; break; }
          E e = boolOf(c); Val t = norm(s, opv(s, x.b)), u = norm(s, opv(s, x.c));
          if (sameVal(t, u)) { reg(s, x.dst) = t; f.pc++; break; }
          if (x.w == 1 && t.k != Val::UND && u.k != Val::UND) {
            E a = boolOf(t), b = boolOf(u);
            if (a.is_true()) reg(s, x.dst) = vbool(mkOr(e, b)); else if (b.is_false()) reg(s, x.dst) = vbool(mkAnd(e, a));
            else if (a.is_false()) reg(s, x.dst) = vbool(mkAnd(mkNot(e), b)); else if (b.is_true()) reg(s, x.dst) = vbool(mkOr(mkNot(e), a));
            else reg(s, x.dst) = vbool(z3::ite(e, a, b));
            f.pc++; break;
          }
          if (x.w && !x.isptr && (t.k == Val::I || t.k == Val::SB) && (u.k == Val::I || u.k == Val::SB)) { reg(s, x.dst) = vbv(z3::ite(e, bvOf(t, x.w), bvOf(u, x.w)), x.w); f.pc++; break; }
          bool r = decide(s, e); Val v = opv(s, r ? x.b : x.c); reg(s, x.dst) = v; f.pc++; break; }
        case O_EXTELT: { Val v = opv(s, x.a); u64 k = concretize(s, opv(s, x.b), 64); reg(s, x.dst) = lane(v, k); f.pc++; break; }
        case O_INSELT: { Val v = opv(s, x.a); u64 k = concretize(s, opv(s, x.c), 64); std::vector<Val> e(x.lanes); for (u32 q = 0; q < x.lanes; q++) e[q] = q == k ? opv(s, x.b) : lane(v, q); reg(s, x.dst) = lanesOf(e); f.pc++; break; }
        case O_SHUF: { Val a = opv(s, x.a), b = opv(s, x.b); std::vector<Val> e; for (unsigned k : x.idx) e.push_back(k == ~0u ? Val() : k < x.sub ? lane(a, k) : lane(b, k - x.sub)); reg(s, x.dst) = lanesOf(e); f.pc++; break; }
        case O_ICMP: if (x.lanes) { lanewise(s, x, [&](u32 k) { return icmp(s, x.sub, x.w, lane(opv(s, x.a), k), lane(opv(s, x.b), k)); }); break; }
          reg(s, x.dst) = icmp(s, x.sub, x.w, opv(s, x.a), opv(s, x.b)); f.pc++; break;
        case O_FCMP: { if (x.lanes) { lanewise(s, x, [&](u32 k) { return fcmp(x.sub, realLane(opv(s, x.a), k), realLane(opv(s, x.b), k)); }); break; }
          Val a = opF(s, x.a), b = opF(s, x.b); reg(s, x.dst) = fcmp(x.sub, a, b); f.pc++; break; }
        case O_BIN: { if (x.lanes) { lanewise(s, x, [&](u32 k) { return ibin(s, x.sub, x.w, lane(opv(s, x.a), k), lane(opv(s, x.b), k)); }); break; }
          Val r = ibin(s, x.sub, x.w, opv(s, x.a), opv(s, x.b)); reg(s, x.dst) = r; f.pc++; break; }
        case O_FBIN: { if (x.lanes) { lanewise(s, x, [&](u32 k) { return fbin(s, x.sub, x.fpk, realLane(opv(s, x.a), k), realLane(opv(s, x.b), k)); }); break; }
          Val a = opF(s, x.a), b = opF(s, x.b); Val r = fbin(s, x.sub, x.fpk, a, b); reg(s, x.dst) = r; f.pc++; break; }
        case O_FNEG: { if (x.lanes) { lanewise(s, x, [&](u32 k) { Val a = realLane(opv(s, x.a), k); return a.k == Val::F ? VF(-a.f) : fromPoly(P.scale(toPoly(a), -1)); }); break; }
          Val a = opF(s, x.a); reg(s, x.dst) = a.k == Val::F ? VF(-a.f) : fromPoly(P.scale(toPoly(a), -1)); f.pc++; break; }
        case O_CAST: { Val r = cast_(s, x); reg(s, x.dst) = r; f.pc++; break; }
        case O_EXTRACT: { Val v = opv(s, x.a); for (unsigned k : x.idx) { if (v.k == Val::UND) break; if (v.k != Val::AGG) throw PathEnd{"extractvalue"}; v = v.g->v[k]; } reg(s, x.dst) = v; f.pc++; break; }
        case O_INSERT: {
          Val a = opv(s, x.a); Val r; r.k = Val::AGG; r.g = new Agg;
          if (x.idx.size() != 1) throw PathEnd{"nested insertvalue"};
          if (a.k == Val::AGG) r.g->v = a.g->v; 
          if (r.g->v.size() <= x.idx[0]) r.g->v.resize(x.idx[0] + 1);
          r.g->v[x.idx[0]] = opv(s, x.b); reg(s, x.dst) = r; f.pc++; break; }
        case O_RMW: {
          u64 a = concretize(s, opv(s, x.a), 64); Val old = load(s, a, x.imm, x.w, 0), v = opv(s, x.b), n;
          switch (x.sub) { case AtomicRMWInst::Add: n = ibin(s, Instruction::Add, x.w, old, v); break; case AtomicRMWInst::Sub: n = ibin(s, Instruction::Sub, x.w, old, v); break; case AtomicRMWInst::Xchg: n = v; break; default: throw PathEnd{"atomicrmw"}; }
          store(s, a, n, x.imm, 0); reg(s, x.dst) = old; f.pc++; break; }
        case O_FENCE: f.pc++; break;
        case O_FREEZE: { Val v = opv(s, x.a); if (v.k == Val::UND) v = x.fpk ? undefReal() : undefInt(x.w); reg(s, x.dst) = v; f.pc++; break; }
        case O_UNREACH: throw Fault{"unreachable", "reached an unreachable point in " + demangle(f.fn->name), false};
        case O_CMPXCHG: {
          u64 a = concretize(s, opv(s, x.a), 64); Val old = load(s, a, (x.w + 7) / 8, x.w, 0); bool eq = decide(s, boolOf(icmp(s, CmpInst::ICMP_EQ, x.w, old, opv(s, x.b))));
          if (eq) store(s, a, opv(s, x.c), (x.w + 7) / 8, 0);
          Val r; r.k = Val::AGG; r.g = new Agg; r.g->v = {old, VI(eq)}; reg(s, x.dst) = r; f.pc++; break; }
        case O_LPAD: {
          u64 sel = 0; for (u64 c : x.byval) if (!sel && exMatches(s, c)) sel = exTypeId(c);
          if (!sel && !x.sub) { unwind(s, stop, true); break; }
          Val r; r.k = Val::AGG; r.g = new Agg; r.g->v = {VI(s.exPtr), VI(sel)}; reg(s, x.dst) = r; f.pc++; break; }
        case O_RESUME: unwind(s, stop, true); break;
        case O_UNSUP: { std::string t; raw_string_ostream os(t); x.src->print(os); throw PathEnd{"unsupported instruction " + t.substr(0, 100)}; }
        }
      }
    } catch (PathEnd &e) {
      if (e.why == "infeasible") nInfeasible++; else { nIncomplete++; int n = incomplete[e.why + (sp->fr.empty() ? "" : " in " + demangle(sp->fr.back().fn->name))]++; onIncomplete(*sp, e.why, n); }
      freeState(sp); return nullptr;
    } catch (Fault &e) {
      onFault(*sp, e); freeState(sp); return nullptr;
    } catch (z3::exception &e) {
      nIncomplete++; incomplete[std::string("z3: ") + e.msg()]++; freeState(sp); return nullptr;
    }
  }
  bool isEq(const E &e) {
    auto it = cmpPoly.find(Z3_get_ast_id(z, e));
    return it != cmpPoly.end() && it->second.second == 2;
  }
  Val realLane(const Val &v, u32 k) { Val r = lane(v, k); return r.k == Val::UND ? undefReal() : r; }
  template <class F> void lanewise(State &s, const Ins &x, F fn) {
    std::vector<Val> e; for (u32 k = 0; k < x.lanes; k++) e.push_back(fn(k));
    reg(s, x.dst) = lanesOf(e); s.fr.back().pc++;
  }
  Val cast_(State &s, const Ins &x) {
    Val v = norm(s, opv(s, x.a)); unsigned fw = x.imm, sfk = x.idx[0], fl = x.idx[1];
    if (fl || x.lanes) {
      if (x.sub != Instruction::BitCast) { std::vector<Val> e; for (u32 k = 0; k < x.lanes; k++) e.push_back(cast1(s, x, norm(s, lane(v, k)), fw, sfk)); return lanesOf(e); }
      u32 es = sfk ? fpSize(sfk) : fw / 8, ds = x.fpk ? fpSize(x.fpk) : x.w / 8; if (!es || !ds) throw PathEnd{"vector bitcast"};
      std::vector<Pc> p; if (fl) for (u32 k = 0; k < fl; k++) put(p, k * es, lane(v, k), es); else put(p, 0, v, es);
      Val w = pack(p, es * std::max(fl, 1u)); u32 tot = es * std::max(fl, 1u);
      if (!x.lanes) return realOf(w, x.fpk);
      std::vector<Val> e; for (u32 k = 0; k < x.lanes; k++) e.push_back(realOf(part(w, tot, k * ds, ds), x.fpk)); return lanesOf(e);
    }
    return cast1(s, x, v, fw, sfk);
  }
  Val cast1(State &s, const Ins &x, const Val &v, unsigned fw, unsigned sfk) {
    switch (x.sub) {
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr:
      if (v.k == Val::UND) return Val();
      if (v.k == Val::I) return VI((x.sub == Instruction::SExt ? (u64)sext(v.i & maskw(fw), fw) : (v.i & maskw(fw))) & maskw(x.w));
      if ((v.k == Val::PK || v.k == Val::SR) && fw % 8 == 0 && x.w % 8 == 0) {
        if (x.w == fw) return v;
        if (x.w < fw) return part(v, fw / 8, 0, x.w / 8);
        if (x.sub == Instruction::ZExt) { std::vector<Pc> p; put(p, 0, v, fw / 8); put(p, fw / 8, VI(0), (x.w - fw) / 8); return pack(p, x.w / 8); }
      }
      if (v.k != Val::SB) throw PathEnd{"integer cast of a real"};
      if (v.s->b) { if (x.w == 1) return v; return vbv(z3::ite(v.s->e, x.sub == Instruction::SExt ? z.bv_val((int64_t)-1, x.w) : z.bv_val(1, x.w), z.bv_val(0, x.w)), x.w); }
      if (x.w == fw) return v;
      if (x.w < fw) return vbv(v.s->e.extract(x.w - 1, 0), x.w);
      return vbv(x.sub == Instruction::SExt ? z3::sext(v.s->e, x.w - fw) : z3::zext(v.s->e, x.w - fw), x.w);
    case Instruction::BitCast:
      if (!!sfk == !!x.fpk) return v;
      if (v.k == Val::SR || v.k == Val::UND) return v;
      if (sfk && v.k == Val::F) { u64 r = 0; if (sfk == 1) { float q = v.f; memcpy(&r, &q, 4); } else { double q = v.f; memcpy(&r, &q, 8); } return VI(r); }
      if (x.fpk && v.k == Val::I) { if (x.fpk == 1) { float q; memcpy(&q, &v.i, 4); return VF(q); } double q; memcpy(&q, &v.i, 8); return VF(q); }
      throw PathEnd{"bitcast"};
    case Instruction::FPExt: case Instruction::FPTrunc:
      if (v.k == Val::F) return VF(roundTo(v.f, x.fpk));
      return x.sub == Instruction::FPTrunc ? narrow(s, v, x.fpk) : v;
    case Instruction::SIToFP: case Instruction::UIToFP: {
      if (v.k == Val::UND) return undefReal();
      u64 n = v.k == Val::I ? v.i : concretize(s, v, fw);
      long double r = x.sub == Instruction::SIToFP ? (long double)sext(n & maskw(fw), fw) : (long double)(n & maskw(fw));
      return VF(roundTo(r, x.fpk)); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      if (v.k == Val::UND) return Val();
      if (v.k == Val::F) { if (!(fabsl(v.f) < 1e18L)) return Val(); return VI((u64)(int64_t)v.f & maskw(x.w)); }
      return VI((u64)truncSym(s, v) & maskw(x.w)); }
    }
    throw PathEnd{"cast"};
  }
  int64_t truncSym(State &s, const Val &v) { // towards zero
    const Poly *p = v.p;
    ModelRef m = s.model; bool ok = false;
    E l = low(p);
    if (m) { ok = true; for (int d : deps(l)) if (d > 0 && (d >= (int)m->act.size() || !m->act[d])) ok = false; }
    if (!ok) { ModelRef m2; sync(s.pc); lpush(); for (int d : deps(l)) activate(d); auto r = check(); if (r == z3::sat) m2 = getModel(); lpop(); if (!m2) throw PathEnd{"solver unknown"}; m = s.model = m2; }
    Rat r(m->m.eval(l, true).get_decimal_string(0).c_str()[0] ? numeral(m->m.eval(l, true)) : Rat(0));
    mpz_class q = r.get_num() / r.get_den(); // truncation
    int64_t n = q.get_si();
    E c = z.bool_val(true);
    if (n >= 0) c = mkAnd(cmp0(P.sub(P.constant(n + 1), p), 0), n > 0 ? cmp0(P.sub(p, P.constant(n)), 1) : cmp0(P.sub(p, P.constant(-1)), 0));
    else c = mkAnd(cmp0(P.sub(p, P.constant(n - 1)), 0), cmp0(P.sub(P.constant(n), p), 1));
    if (!decide(s, c)) throw PathEnd{"trunc"};
    return n;
  }
  static Rat numeral(const E &e) { // exact value of a real/int numeral
    std::string t = Z3_get_numeral_string(e.ctx(), e);
    try { Rat r(t.c_str()); r.canonicalize(); return r; } catch (...) { return Rat(0); }
  }
#include "externs.inc"
#include "report.inc"
