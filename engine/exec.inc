  // included inside struct Engine
  V binop(unsigned op, const V& a, const V& b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
      uint64_t m = w == 64 ? ~0ull : ((1ull << w) - 1);
      switch (op) {
        case Instruction::Add: return cv((a.c + b.c) & m);
        case Instruction::Sub: return cv((a.c - b.c) & m);
        case Instruction::Mul: return cv((a.c * b.c) & m);
        case Instruction::And: return cv(a.c & b.c);
        case Instruction::Or: return cv(a.c | b.c);
        case Instruction::Xor: return cv(a.c ^ b.c);
        case Instruction::Shl: return cv(b.c >= w ? 0 : (a.c << b.c) & m);
        case Instruction::LShr: return cv(b.c >= w ? 0 : a.c >> b.c);
        case Instruction::AShr: return cv((uint64_t)foldOp(K::AShr, w, 0, w, a.c, b.c, 0));
        case Instruction::UDiv: return cv((uint64_t)foldOp(K::UDiv, w, 0, w, a.c, b.c, 0));
        case Instruction::SDiv: return cv((uint64_t)foldOp(K::SDiv, w, 0, w, a.c, b.c, 0));
        case Instruction::URem: return cv((uint64_t)foldOp(K::URem, w, 0, w, a.c, b.c, 0));
        case Instruction::SRem: return cv((uint64_t)foldOp(K::SRem, w, 0, w, a.c, b.c, 0));
      }
    }
    K k = K::Add;
    switch (op) {
      case Instruction::Add: k = K::Add; break;
      case Instruction::Sub: k = K::Sub; break;
      case Instruction::Mul: k = K::Mul; break;
      case Instruction::And: k = K::And; break;
      case Instruction::Or: k = K::Or; break;
      case Instruction::Xor: k = K::Xor; break;
      case Instruction::Shl: k = K::Shl; break;
      case Instruction::LShr: k = K::LShr; break;
      case Instruction::AShr: k = K::AShr; break;
      case Instruction::UDiv: k = K::UDiv; break;
      case Instruction::SDiv: k = K::SDiv; break;
      case Instruction::URem: k = K::URem; break;
      case Instruction::SRem: k = K::SRem; break;
    }
    return vex(mkBin(k, ex(a, w), ex(b, w)));
  }
  V fbin(unsigned op, const V& a, const V& b, unsigned w) {
    K k = op == Instruction::FAdd ? K::FAdd : op == Instruction::FSub ? K::FSub : op == Instruction::FMul ? K::FMul
          : op == Instruction::FDiv ? K::FDiv : K::FRem;
    if (!a.e && !b.e) return cv((uint64_t)foldOp(k, w, 0, w, a.c, b.c, 0));
    return vex(mkFBin(k, ex(a, w), ex(b, w)));
  }
  V icmp(unsigned pred, const V& a, const V& b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
      int64_t sa = (int64_t)sextw(a.c, w), sb = (int64_t)sextw(b.c, w);
      switch (pred) {
        case CmpInst::ICMP_EQ: return cv(a.c == b.c);
        case CmpInst::ICMP_NE: return cv(a.c != b.c);
        case CmpInst::ICMP_ULT: return cv(a.c < b.c);
        case CmpInst::ICMP_ULE: return cv(a.c <= b.c);
        case CmpInst::ICMP_UGT: return cv(a.c > b.c);
        case CmpInst::ICMP_UGE: return cv(a.c >= b.c);
        case CmpInst::ICMP_SLT: return cv(sa < sb);
        case CmpInst::ICMP_SLE: return cv(sa <= sb);
        case CmpInst::ICMP_SGT: return cv(sa > sb);
        case CmpInst::ICMP_SGE: return cv(sa >= sb);
      }
    }
    Expr *x = ex(a, w), *y = ex(b, w), *r = nullptr;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
      case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
      case CmpInst::ICMP_ULT: r = mkBin(K::Ult, x, y); break;
      case CmpInst::ICMP_ULE: r = mkBin(K::Ule, x, y); break;
      case CmpInst::ICMP_UGT: r = mkBin(K::Ult, y, x); break;
      case CmpInst::ICMP_UGE: r = mkBin(K::Ule, y, x); break;
      case CmpInst::ICMP_SLT: r = mkBin(K::Slt, x, y); break;
      case CmpInst::ICMP_SLE: r = mkBin(K::Sle, x, y); break;
      case CmpInst::ICMP_SGT: r = mkBin(K::Slt, y, x); break;
      case CmpInst::ICMP_SGE: r = mkBin(K::Sle, y, x); break;
    }
    return vex(r);
  }
  V fcmp(unsigned pred, const V& a, const V& b, unsigned w) {
    Expr *x = ex(a, w), *y = ex(b, w);
    auto EQ = [&] { return mkFBin(K::FOeq, x, y); };
    auto LT = [&] { return mkFBin(K::FOlt, x, y); };
    auto LE = [&] { return mkFBin(K::FOle, x, y); };
    auto GT = [&] { return mkFBin(K::FOlt, y, x); };
    auto GE = [&] { return mkFBin(K::FOle, y, x); };
    auto UN = [&] { return mkFBin(K::FUno, x, y); };
    switch (pred) {
      case CmpInst::FCMP_FALSE: return cv(0);
      case CmpInst::FCMP_OEQ: return vex(EQ());
      case CmpInst::FCMP_OGT: return vex(GT());
      case CmpInst::FCMP_OGE: return vex(GE());
      case CmpInst::FCMP_OLT: return vex(LT());
      case CmpInst::FCMP_OLE: return vex(LE());
      case CmpInst::FCMP_ONE: return vex(mkAnd(mkNot(EQ()), mkNot(UN())));
      case CmpInst::FCMP_ORD: return vex(mkNot(UN()));
      case CmpInst::FCMP_UNO: return vex(UN());
      case CmpInst::FCMP_UEQ: return vex(mkOr(EQ(), UN()));
      case CmpInst::FCMP_UGT: return vex(mkNot(LE()));
      case CmpInst::FCMP_UGE: return vex(mkNot(LT()));
      case CmpInst::FCMP_ULT: return vex(mkNot(GE()));
      case CmpInst::FCMP_ULE: return vex(mkNot(GT()));
      case CmpInst::FCMP_UNE: return vex(mkNot(EQ()));
      default: return cv(1);
    }
  }

  // finish a call that produced `ret` without pushing a frame
  void callDone(State& s, KI& k, const V& ret) {
    Frame& f = s.th[s.cur].st.back();
    if (k.dst >= 0) f.regs[k.dst] = ret;
    if (k.op == Instruction::Invoke) takeEdge(f, k.edges[0]);
  }

  V gep(Frame& f, KI& k) {
    V p = get(f, k.o[0]);
    bool sym = p.e != nullptr;
    uint64_t c = p.c + (uint64_t)k.off;
    for (size_t i = 0; i < k.scale.size() && !sym; i++) {
      V x = get(f, k.o[i + 1]);
      if (x.e) { sym = true; break; }
      c += (uint64_t)((int64_t)sextw(x.c, k.ow[i]) * k.scale[i]);
    }
    if (!sym) return cv(c);
    Expr* a = mkBin(K::Add, ex(p, 64), mkConst((u128)(uint64_t)k.off, 64));
    for (size_t i = 0; i < k.scale.size(); i++) {
      Expr* x = ex(get(f, k.o[i + 1]), k.ow[i]);
      x = k.ow[i] < 64 ? mkSExt(x, 64) : k.ow[i] > 64 ? mkExtract(x, 0, 64) : x;
      a = mkBin(K::Add, a, mkBin(K::Mul, x, mkConst((u128)(uint64_t)k.scale[i], 64)));
    }
    return vex(a);
  }

  // ---- merging of small diamonds: both arms are executed under their condition and joined with
  // if-then-else terms instead of forking the path.
  static bool simpleBlock(KBlock* b) {
    if (b->simple >= 0) return b->simple;
    bool ok = b->insts.size() <= 12 && b->insts.back().op == Instruction::Br && b->insts.back().o.empty();
    for (size_t i = 0; ok && i + 1 < b->insts.size(); i++) {
      KI& k = b->insts[i];
      switch (k.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::ICmp: case Instruction::ZExt:
        case Instruction::SExt: case Instruction::Trunc: case Instruction::Freeze: case Instruction::GetElementPtr: case Instruction::Select:
          ok = k.nslots == 1 && k.w <= 64 && k.w2 <= 64;
          if (k.op == Instruction::Select) ok = ok && !k.I->getType()->isPointerTy();
          break;
        case Instruction::Load: ok = k.leafs.size() == 1 && k.leafs[0].bits <= 64; break;
        case Instruction::Store: ok = k.leafs.size() == 1 && k.leafs[0].bits <= 64 && k.leafs[0].off == 0; break;
        default: ok = false;
      }
    }
    return b->simple = ok;
  }
  struct Undo { uint32_t id, off; V old; unsigned bits; };
  bool simpleArm(State& s, Frame& f, KBlock* b, Expr* c, std::vector<Undo>& log) {
    for (size_t i = 0; i + 1 < b->insts.size(); i++) {
      KI& k = b->insts[i];
      switch (k.op) {
        case Instruction::ICmp: f.regs[k.dst] = icmp(k.sub, get(f, k.o[0]), get(f, k.o[1]), k.w2); break;
        case Instruction::ZExt: { V a = get(f, k.o[0]); f.regs[k.dst] = a.e ? V{0, mkZExt(a.e, k.w)} : a; break; }
        case Instruction::SExt: { V a = get(f, k.o[0]); f.regs[k.dst] = a.e ? vex(mkSExt(a.e, k.w)) : cv((uint64_t)sextw(a.c, k.w2) & (uint64_t)maskw(k.w)); break; }
        case Instruction::Trunc: { V a = get(f, k.o[0]); f.regs[k.dst] = a.e ? vex(mkExtract(a.e, 0, k.w)) : cv(a.c & (uint64_t)maskw(k.w)); break; }
        case Instruction::Freeze: f.regs[k.dst] = get(f, k.o[0]); break;
        case Instruction::GetElementPtr: f.regs[k.dst] = gep(f, k); break;
        case Instruction::Select: f.regs[k.dst] = sel(get(f, k.o[0]), get(f, k.o[1]), get(f, k.o[2]), k.w); break;
        case Instruction::Load: case Instruction::Store: {
          const bool wr = k.op == Instruction::Store;
          V p = get(f, k.o[wr ? 1 : 0]);
          unsigned bits = k.leafs[0].bits, n = (bits + 7) / 8;
          if (p.e) return false;
          uint32_t id = p.c >> 32, off = (uint32_t)p.c;
          Obj* o = id ? s.mem.get(id) : nullptr;
          if (!o || o->kind == OFreed || o->kind == OFunc || (uint64_t)off + n > o->size || (wr && o->ro)) return false;
          V old = readScalar(o, off, bits);
          if (!wr) { f.regs[k.dst] = old; break; }
          V v = get(f, k.o[0]);
          if (k.I->getOperand(0)->getType()->isPointerTy()) return false;
          log.push_back({id, off, old, bits});
          writeScalar(s.mem.getW(id), off, sel(vex(c), v, old, bits), bits);
          break;
        }
        default: f.regs[k.dst] = binop(k.op, get(f, k.o[0]), get(f, k.o[1]), k.w);
      }
    }
    return true;
  }
  uint64_t merges = 0;
  bool mergeBranch(State& s, KI& k, Expr* c) {
    KEdge &e0 = k.edges[0], &e1 = k.edges[1];
    KBlock *t = e0.to, *n = e1.to;
    KEdge *j0 = nullptr, *j1 = nullptr;   // edges into the join
    const bool st = t != n && simpleBlock(t), sn = t != n && simpleBlock(n);
    if (t == n) { j0 = &e0; j1 = &e1; t = n = nullptr; }
    else if (st && sn && t->insts.back().edges[0].to == n->insts.back().edges[0].to) { j0 = &t->insts.back().edges[0]; j1 = &n->insts.back().edges[0]; }
    else if (st && t->insts.back().edges[0].to == n) { j0 = &t->insts.back().edges[0]; j1 = &e1; n = nullptr; }
    else if (sn && n->insts.back().edges[0].to == t) { j1 = &n->insts.back().edges[0]; j0 = &e0; t = nullptr; }
    else return false;
    if (j0->moves.size() != j1->moves.size()) return false;
    Frame& f = s.th[s.cur].st.back();
    std::vector<Undo> log;
    auto undo = [&] { while (!log.empty()) { auto& u = log.back(); writeScalar(s.mem.getW(u.id), u.off, u.old, u.bits); log.pop_back(); } return false; };
    auto enter = [&](KEdge& e) {
      std::vector<V> v;
      for (auto& m : e.moves) v.push_back(get(f, m.second));
      for (size_t i = 0; i < v.size(); i++) f.regs[e.moves[i].first] = v[i];
    };
    // registers assigned by a block's own phis are restored if the merge is abandoned
    std::vector<std::pair<int, V>> saved;
    for (KEdge* e : {t ? &e0 : nullptr, n ? &e1 : nullptr})
      if (e) for (auto& m : e->moves) saved.push_back({m.first, f.regs[m.first]});
    auto bad = [&] { for (auto& p : saved) f.regs[p.first] = p.second; return undo(); };
    std::vector<V> v0, v1;
    if (t) { enter(e0); if (!simpleArm(s, f, t, c, log)) return bad(); }
    if (n) { enter(e1); if (!simpleArm(s, f, n, mkNot(c), log)) return bad(); }
    for (auto& m : j0->moves) v0.push_back(get(f, m.second));
    for (auto& m : j1->moves) v1.push_back(get(f, m.second));
    for (size_t i = 0; i < v0.size(); i++) {
      if (v0[i].e == v1[i].e && v0[i].c == v1[i].c) continue;
      if (!j0->mw[i]) return bad();
      v0[i] = sel(vex(c), v0[i], v1[i], j0->mw[i]);
    }
    for (size_t i = 0; i < v0.size(); i++) f.regs[j0->moves[i].first] = v0[i];
    f.bb = j0->to; f.pc = 0;
    merges++;
    return true;
  }

  // two-way branch on a symbolic condition
  void branch(State& s, KI& k, Expr* c) {
    bool t = mdl(s, c);
    Expr* tk = t ? c : mkNot(c);
    Expr* ot = t ? mkNot(c) : c;
    Model m;
    branchQ++;
    Sat r = feasible(s, ot, m);
    if (r == Sat::Sat) {
      if (opt.merge && mergeBranch(s, k, c)) return;
      State* n = clone(s);
      n->model = m;
      addPC(*n, ot);
      takeEdge(n->th[n->cur].st.back(), k.edges[t ? 1 : 0]);
      work.push_back(n);
      addPC(s, tk);
    } else if (r == Sat::Unknown) { incompletePath(s, "solver gave no answer (query timeout)"); addPC(s, tk); }
    takeEdge(s.th[s.cur].st.back(), k.edges[t ? 0 : 1]);
  }
  void doSwitch(State& s, KI& k, Expr* e) {
    // group cases by target so that each successor is explored once
    std::vector<std::pair<KEdge*, Expr*>> tg;
    Expr* any = mkFalse();
    for (size_t i = 0; i < k.cases.size(); i++) {
      Expr* c = mkEq(e, mkConst(k.cases[i], k.w));
      if (c->isConst() && !c->c) continue;
      any = mkOr(any, c);
      bool found = false;
      for (auto& p : tg) if (p.first->to == k.edges[i + 1].to && p.first->moves == k.edges[i + 1].moves) { p.second = mkOr(p.second, c); found = true; break; }
      if (!found) tg.push_back({&k.edges[i + 1], c});
    }
    tg.push_back({&k.edges[0], mkNot(any)});
    KEdge* mine = nullptr; Expr* mineC = nullptr;
    uint64_t g = nextEvalGen();
    for (auto& p : tg) if (evalExpr(p.second, s.model, g)) { mine = p.first; mineC = p.second; }
    for (auto& p : tg) {
      if (p.first == mine) continue;
      Model m;
      branchQ++;
      Sat r = feasible(s, p.second, m);
      if (r == Sat::Sat) {
        State* n = clone(s);
        n->model = m;
        addPC(*n, p.second);
        takeEdge(n->th[n->cur].st.back(), *p.first);
        work.push_back(n);
      } else if (r == Sat::Unknown) incompletePath(s, "solver gave no answer (query timeout)");
    }
    addPC(s, mineC);
    takeEdge(s.th[s.cur].st.back(), *mine);
  }

  // returns false when the state is finished
  bool doCall(State& s, KI& k) {
    Frame& f = s.th[s.cur].st.back();
    Function* F = k.callee;
    if (!F) {
      V p = get(f, k.o[0]);
      uint64_t a = p.c;
      if (p.e) concretize(s, p.e, a);
      auto it = funcAt.find(a >> 32);
      if (it == funcAt.end() || (uint32_t)a != 0) { report(s, "memory", "call through an invalid function pointer", s.model); return false; }
      F = it->second;
    }
    if (k.callee && k.sub && F->isIntrinsic()) return intrinsic(s, k);
    int b = k.builtin;
    if (!k.callee) {
      auto ib = builtinIdx.find(F->getName().str());
      b = ib == builtinIdx.end() ? -1 : ib->second;
    }
    std::vector<V> args;
    args.reserve(8);
    for (size_t i = 1; i < k.o.size(); i++) {
      if (k.o[i] == INT32_MIN) continue;
      for (unsigned l = 0; l < k.ow[i - 1]; l++) args.push_back(get(f, k.o[i], l));
    }
    if (b >= 0) {
      V ret;
      int cur = s.cur;
      blocked = false; noReturn = false;
      if (!builtins[b](*this, s, k, args, ret)) return false;
      if (blocked || noReturn) return true;
      if (s.cur == cur) callDone(s, k, ret);
      return true;
    }
    if (F->isDeclaration()) {
      std::string n = demangle(F->getName().str());
      incompletePath(s, "call of an external function without a model: " + n);
      return false;
    }
    // by-value aggregates
    auto* cb = cast<CallBase>(k.I);
    for (unsigned i = 0, pos = 0; i < cb->arg_size(); i++) {
      if (cb->isByValArgument(i)) {
        uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
        uint32_t id = s.mem.alloc(sz, OStack, 0xAA);
        if (!memCopy(s, cv(addrOf(id)), args[pos], sz)) return false;
        args[pos] = cv(addrOf(id));
        s.th[s.cur].st.back().allocas.push_back(id);
      }
      pos += k.ow[i];
    }
    uint64_t va = 0;
    if (F->isVarArg()) {
      unsigned fixed = 0;
      for (auto& a : F->args()) fixed += nslots(a.getType());
      unsigned extra = args.size() > fixed ? args.size() - fixed : 0;
      uint32_t id = s.mem.alloc(8 * (extra ? extra : 1), OStack, 0);
      Obj* o = s.mem.getW(id);
      for (unsigned i = 0; i < extra; i++) {
        V v = args[fixed + i];
        if (v.e && v.e->w < 64) v.e = mkZExt(v.e, 64);
        writeScalar(o, 8 * i, v, 64);
      }
      va = addrOf(id);
      s.th[s.cur].st.back().allocas.push_back(id);
    }
    if (s.th[s.cur].st.size() > 2000) {
      if (opt.hangIsFinding) report(s, "hang", "unbounded recursion", s.model);
      else incompletePath(s, "call depth");
      return false;
    }
    pushFrame(s, F, args, &k, va);
    return true;
  }
  bool blocked = false, noReturn = false;

  bool intrinsic(State& s, KI& k) {
    Frame& f = s.th[s.cur].st.back();
    auto A = [&](int i) { return get(f, k.o[i + 1]); };
    auto W = [&](int i) { return scalarBits(cast<CallBase>(k.I)->getArgOperand(i)->getType()); };
    V r;
    switch (k.sub) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
      case Intrinsic::vaend: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing:
      case Intrinsic::prefetch: case Intrinsic::dbg_label: case Intrinsic::var_annotation:
        break;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        V n = A(2); uint64_t len = n.c;
        if (n.e) concretize(s, n.e, len);
        if (!memCopy(s, A(0), A(1), len)) return false;
        break;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        V n = A(2); uint64_t len = n.c;
        if (n.e) concretize(s, n.e, len);
        if (!memFill(s, A(0), A(1), len)) return false;
        break;
      }
      case Intrinsic::umin: r = sel(icmp(CmpInst::ICMP_ULT, A(0), A(1), k.w), A(0), A(1), k.w); break;
      case Intrinsic::umax: r = sel(icmp(CmpInst::ICMP_ULT, A(0), A(1), k.w), A(1), A(0), k.w); break;
      case Intrinsic::smin: r = sel(icmp(CmpInst::ICMP_SLT, A(0), A(1), k.w), A(0), A(1), k.w); break;
      case Intrinsic::smax: r = sel(icmp(CmpInst::ICMP_SLT, A(0), A(1), k.w), A(1), A(0), k.w); break;
      case Intrinsic::abs: {
        V z = cv(0);
        r = sel(icmp(CmpInst::ICMP_SLT, A(0), z, k.w), binop(Instruction::Sub, z, A(0), k.w), A(0), k.w);
        break;
      }
      case Intrinsic::usub_sat: r = sel(icmp(CmpInst::ICMP_ULT, A(0), A(1), k.w), cv(0), binop(Instruction::Sub, A(0), A(1), k.w), k.w); break;
      case Intrinsic::uadd_sat: {
        V sum = binop(Instruction::Add, A(0), A(1), k.w);
        r = sel(icmp(CmpInst::ICMP_ULT, sum, A(0), k.w), cv((uint64_t)maskw(k.w)), sum, k.w);
        break;
      }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = k.w;
        V sh = binop(Instruction::URem, A(2), cv(w), w);
        V inv = binop(Instruction::Sub, cv(w), sh, w);
        V hi = A(0), lo = A(1);
        bool left = k.sub == Intrinsic::fshl;
        V a = binop(Instruction::Shl, hi, left ? sh : inv, w);
        V b = binop(Instruction::LShr, lo, left ? inv : sh, w);
        r = binop(Instruction::Or, a, b, w);
        break;
      }
      case Intrinsic::bswap: {
        Expr* e = ex(A(0), k.w); Expr* o = nullptr;
        for (unsigned i = 0; i < k.w / 8; i++) { Expr* b = mkExtract(e, 8 * i, 8); o = o ? mkConcat(o, b) : b; }
        r = vex(o);
        break;
      }
      case Intrinsic::ctpop: {
        Expr* e = ex(A(0), k.w); Expr* o = mkConst(0, k.w);
        for (unsigned i = 0; i < k.w; i++) o = mkBin(K::Add, o, mkZExt(mkExtract(e, i, 1), k.w));
        r = vex(o);
        break;
      }
      case Intrinsic::ctlz: case Intrinsic::cttz: {
        Expr* e = ex(A(0), k.w); Expr* o = mkConst(k.w, k.w);
        for (unsigned i = 0; i < k.w; i++) {
          unsigned bit = k.sub == Intrinsic::ctlz ? i : k.w - 1 - i;
          unsigned val = k.w - 1 - i;
          o = mkIte(mkExtract(e, bit, 1), mkConst(val, k.w), o);
        }
        r = vex(o);
        break;
      }
      case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned w = W(0);
        Expr *x = ex(A(0), w), *y = ex(A(1), w);
        bool sg = k.sub == Intrinsic::sadd_with_overflow || k.sub == Intrinsic::ssub_with_overflow || k.sub == Intrinsic::smul_with_overflow;
        K op = (k.sub == Intrinsic::uadd_with_overflow || k.sub == Intrinsic::sadd_with_overflow) ? K::Add
               : (k.sub == Intrinsic::usub_with_overflow || k.sub == Intrinsic::ssub_with_overflow) ? K::Sub : K::Mul;
        Expr* n = mkBin(op, x, y);
        Expr* wide = sg ? mkBin(op, mkSExt(x, 2 * w), mkSExt(y, 2 * w)) : mkBin(op, mkZExt(x, 2 * w), mkZExt(y, 2 * w));
        Expr* ov = mkNot(mkEq(wide, sg ? mkSExt(n, 2 * w) : mkZExt(n, 2 * w)));
        f.regs[k.dst] = vex(n);
        f.regs[k.dst + 1] = vex(ov);
        return true;
      }
      case Intrinsic::fmuladd: r = fbin(Instruction::FAdd, fbin(Instruction::FMul, A(0), A(1), k.w), A(2), k.w); break;
      case Intrinsic::floor: r = vex(mkFUn(K::FRnd, ex(A(0), k.w), k.w, 0)); break;
      case Intrinsic::ceil: r = vex(mkFUn(K::FRnd, ex(A(0), k.w), k.w, 1)); break;
      case Intrinsic::trunc: r = vex(mkFUn(K::FRnd, ex(A(0), k.w), k.w, 2)); break;
      case Intrinsic::round: r = vex(mkFUn(K::FRnd, ex(A(0), k.w), k.w, 3)); break;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = vex(mkFUn(K::FRnd, ex(A(0), k.w), k.w, 4)); break;
      case Intrinsic::sqrt: r = vex(mkFUn(K::FSqrt, ex(A(0), k.w), k.w)); break;
      case Intrinsic::fabs: r = binop(Instruction::And, A(0), cv((uint64_t)(maskw(k.w) >> 1)), k.w); break;
      case Intrinsic::copysign: {
        uint64_t m = (uint64_t)(maskw(k.w) >> 1);
        r = binop(Instruction::Or, binop(Instruction::And, A(0), cv(m), k.w), binop(Instruction::And, A(1), cv(1ull << (k.w - 1)), k.w), k.w);
        break;
      }
      case Intrinsic::is_fpclass: {
        unsigned w = W(0); uint64_t mask = A(1).c;
        Expr* e = ex(A(0), w);
        unsigned eb = w == 64 ? 11 : 8, mb = w - 1 - eb;
        Expr* sg = mkExtract(e, w - 1, 1); Expr* exn = mkExtract(e, mb, eb); Expr* mn = mkExtract(e, 0, mb);
        Expr* ones = mkEq(exn, mkConst(maskw(eb), eb)); Expr* ez = mkEq(exn, mkConst(0, eb)); Expr* mz = mkEq(mn, mkConst(0, mb));
        Expr* o = mkFalse();
        Expr* q = mkExtract(mn, mb - 1, 1);
        auto add = [&](uint64_t bit, Expr* c) { if (mask & bit) o = mkOr(o, c); };
        add(1, mkAnd(ones, mkAnd(mkNot(mz), mkNot(q)))); add(2, mkAnd(ones, q));
        add(4, mkAnd(ones, mkAnd(mz, sg))); add(8, mkAnd(sg, mkAnd(mkNot(ones), mkNot(ez))));
        add(16, mkAnd(sg, mkAnd(ez, mkNot(mz)))); add(32, mkAnd(sg, mkAnd(ez, mz)));
        add(64, mkAnd(mkNot(sg), mkAnd(ez, mz))); add(128, mkAnd(mkNot(sg), mkAnd(ez, mkNot(mz))));
        add(256, mkAnd(mkNot(sg), mkAnd(mkNot(ones), mkNot(ez)))); add(512, mkAnd(mkNot(sg), mkAnd(ones, mz)));
        r = vex(o);
        break;
      }
      case Intrinsic::exp: r = vex(mkUF(UF_EXP, ex(A(0), k.w), nullptr, 64)); break;
      case Intrinsic::log: r = vex(mkUF(UF_LOG, ex(A(0), k.w), nullptr, 64)); break;
      case Intrinsic::pow: r = vex(mkUF(UF_POW, ex(A(0), k.w), ex(A(1), k.w), 64)); break;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
        r = A(0); break;
      case Intrinsic::objectsize: r = cv(~0ull); break;
      case Intrinsic::is_constant: r = cv(0); break;
      case Intrinsic::eh_typeid_for: r = cv((uint64_t)(uint32_t)typeId(A(0).c)); break;
      case Intrinsic::stacksave: r = cv(0); break;
      case Intrinsic::stackrestore: break;
      case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "trap", "llvm.trap", s.model); return false;
      case Intrinsic::vastart: {
        V p = A(0);
        uint32_t id, off; Expr* oe;
        if (!resolve(s, p, 24, true, id, off, oe)) return false;
        Obj* o = s.mem.getW(id);
        writeScalar(o, off, cv(48), 32);
        writeScalar(o, off + 4, cv(176), 32);
        writeScalar(o, off + 8, cv(f.vararg), 64);
        writeScalar(o, off + 16, cv(0), 64);
        break;
      }
      case Intrinsic::vacopy: if (!memCopy(s, A(0), A(1), 24)) return false; break;
      default:
        incompletePath(s, "intrinsic without a model: " + k.callee->getName().str());
        return false;
    }
    callDone(s, k, r);
    return true;
  }
  V sel(const V& c, const V& a, const V& b, unsigned w) {
    if (!c.e) return c.c ? a : b;
    if (!a.e && !b.e && a.c == b.c) return a;
    return vex(mkIte(c.e, ex(a, w), ex(b, w)));
  }
  bool returnFrom(State& s, std::vector<V>& rv) {
    Thread& t = s.th[s.cur];
    KI* site = t.st.back().call;
    popFrame(s);
    if (t.st.empty()) {
      t.stat = TDone;
      if (s.cur == 0) {
        // the harness returned
        pathsDone++;
        takeSample(s);
        return false;
      }
      return schedule(s, true);
    }
    if (site) {
      Frame& f = t.st.back();
      for (size_t i = 0; i < rv.size() && site->dst >= 0; i++) f.regs[site->dst + i] = rv[i];
      if (site->op == Instruction::Invoke) takeEdge(f, site->edges[0]);
    }
    return true;
  }

  void run(State& s) {
    uint64_t n = 0;
    while (true) {
      Frame& f = s.th[s.cur].st.back();
      KI& k = f.bb->insts[f.pc++];
      n++;
      if ((n & 0x3fff) == 0) {
        s.instrs += 0x4000; instrs += 0x4000;
        if (nowS() - t0 > opt.maxTime) { incomplete["time limit"]++; return; }
        if (s.instrs > opt.maxInstrPath) {
          if (opt.hangIsFinding) report(s, "hang", "path does not terminate within the step bound", s.model);
          else incompletePath(s, "step bound per path");
          return;
        }
      }
      switch (k.op) {
        case Instruction::Br:
          if (k.o.empty()) takeEdge(f, k.edges[0]);
          else {
            V c = get(f, k.o[0]);
            if (!c.e) takeEdge(f, k.edges[c.c ? 0 : 1]);
            else branch(s, k, c.e);
          }
          break;
        case Instruction::Switch: {
          V c = get(f, k.o[0]);
          if (!c.e) {
            size_t i = 0;
            for (; i < k.cases.size(); i++) if (k.cases[i] == c.c) break;
            takeEdge(f, i < k.cases.size() ? k.edges[i + 1] : k.edges[0]);
          } else doSwitch(s, k, c.e);
          break;
        }
        case Instruction::Load: {
          V p = get(f, k.o[0]);
          if (s.race.on && cast<LoadInst>(k.I)->isAtomic() && k.leafs.size() == 1) {
            V r;
            inAtomic = true;
            const bool ok = load(s, p, k.leafs[0].bits, r);
            inAtomic = false;
            if (!ok) { errPaths++; instrs += n & 0x3fff; return; }
            acquire(s, p.c, s.cur);
            f.regs[k.dst] = r;
            break;
          }
          if (k.leafs.size() == 1) {
            V r;
            if (!load(s, p, k.leafs[0].bits, r)) { errPaths++; instrs += n & 0x3fff; return; }
            f.regs[k.dst] = r;
          } else {
            for (size_t i = 0; i < k.leafs.size(); i++) {
              V q = binop(Instruction::Add, p, cv(k.leafs[i].off), 64), r;
              if (!load(s, q, k.leafs[i].bits, r)) { errPaths++; instrs += n & 0x3fff; return; }
              f.regs[k.dst + i] = r;
            }
          }
          break;
        }
        case Instruction::Store: {
          V p = get(f, k.o[1]);
          if (s.race.on && cast<StoreInst>(k.I)->isAtomic() && k.leafs.size() == 1) {
            inAtomic = true;
            const bool ok = store(s, p, get(f, k.o[0]), k.leafs[0].bits);
            inAtomic = false;
            if (!ok) { errPaths++; instrs += n & 0x3fff; return; }
            acquire(s, p.c, s.cur);
            release(s, p.c, s.cur);
            break;
          }
          for (size_t i = 0; i < k.leafs.size(); i++) {
            V q = k.leafs[i].off ? binop(Instruction::Add, p, cv(k.leafs[i].off), 64) : p;
            if (!store(s, q, get(f, k.o[0], i), k.leafs[i].bits)) { errPaths++; instrs += n & 0x3fff; return; }
          }
          break;
        }
        case Instruction::GetElementPtr: f.regs[k.dst] = gep(f, k); break;
        case Instruction::Alloca: {
          V c = get(f, k.o[0]);
          uint64_t cnt = c.c;
          if (c.e) concretize(s, c.e, cnt);
          uint32_t id = s.mem.alloc((uint64_t)k.off * cnt, OStack, 0xAA);
          f.allocas.push_back(id);
          f.regs[k.dst] = cv(addrOf(id));
          break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = binop(k.op, get(f, k.o[0], i), get(f, k.o[1], i), k.w);
          break;
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
          V a = get(f, k.o[0]), b = get(f, k.o[1]);
          if (!b.e) {
            if (b.c == 0) { report(s, "arith", "division by zero", s.model); errPaths++; return; }
          } else {
            Model m;
            Expr* z = mkEq(b.e, mkConst(0, k.w));
            if (!mustBe(s, mkNot(z), &m)) {
              report(s, "arith", "division by zero", m);
              if (mdl(s, z)) {
                Model m2;
                if (feasible(s, mkNot(z), m2) != Sat::Sat) { errPaths++; return; }
                s.model = m2;
              }
              addPC(s, mkNot(z));
            }
          }
          f.regs[k.dst] = binop(k.op, a, b, k.w);
          break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = fbin(k.op, get(f, k.o[0], i), get(f, k.o[1], i), k.w);
          break;
        case Instruction::FNeg:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = binop(Instruction::Xor, get(f, k.o[0], i), cv(1ull << (k.w - 1)), k.w);
          break;
        case Instruction::ICmp:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = icmp(k.sub, get(f, k.o[0], i), get(f, k.o[1], i), k.w2);
          break;
        case Instruction::FCmp:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = fcmp(k.sub, get(f, k.o[0], i), get(f, k.o[1], i), k.w2);
          break;
        case Instruction::Select: {
          bool vec = k.I->getOperand(0)->getType()->isVectorTy();
          std::vector<LeafT> lt;
          if (k.nslots > 1) leafsOf(k.I->getType(), 0, lt);
          for (unsigned i = 0; i < k.nslots; i++)
            f.regs[k.dst + i] = sel(get(f, k.o[0], vec ? i : 0), get(f, k.o[1], i), get(f, k.o[2], i), k.nslots > 1 ? lt[i].bits : k.w);
          break;
        }
        case Instruction::ZExt:
          for (unsigned i = 0; i < k.nslots; i++) {
            V a = get(f, k.o[0], i);
            f.regs[k.dst + i] = (a.e || k.w > 64) ? V{0, mkZExt(ex(a, k.w2), k.w)} : a;
          }
          break;
        case Instruction::SExt:
          for (unsigned i = 0; i < k.nslots; i++) {
            V a = get(f, k.o[0], i);
            if (a.e || k.w > 64) f.regs[k.dst + i] = vex(mkSExt(ex(a, k.w2), k.w));
            else f.regs[k.dst + i] = cv((uint64_t)sextw(a.c, k.w2) & (uint64_t)maskw(k.w));
          }
          break;
        case Instruction::Trunc:
          for (unsigned i = 0; i < k.nslots; i++) {
            V a = get(f, k.o[0], i);
            f.regs[k.dst + i] = a.e ? vex(mkExtract(a.e, 0, k.w)) : cv(a.c & (uint64_t)maskw(k.w));
          }
          break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          V a = get(f, k.o[0]);
          if (k.w == k.w2) f.regs[k.dst] = a;
          else if (k.w < k.w2) f.regs[k.dst] = a.e ? vex(mkExtract(a.e, 0, k.w)) : cv(a.c & (uint64_t)maskw(k.w));
          else f.regs[k.dst] = a.e ? vex(mkZExt(a.e, k.w)) : a;
          break;
        }
        case Instruction::BitCast: {
          if (k.nslots == 1 && k.w == k.w2) { f.regs[k.dst] = get(f, k.o[0]); break; }
          // vector <-> scalar of the same size
          Type* st = k.I->getOperand(0)->getType();
          std::vector<LeafT> sl, dl; leafsOf(st, 0, sl); leafsOf(k.I->getType(), 0, dl);
          Expr* all = nullptr;
          for (size_t i = 0; i < sl.size(); i++) { Expr* e = ex(get(f, k.o[0], i), sl[i].bits); all = all ? mkConcat(e, all) : e; }
          unsigned off = 0;
          for (size_t i = 0; i < dl.size(); i++) { f.regs[k.dst + i] = vex(mkExtract(all, off, dl[i].bits)); off += dl[i].bits; }
          break;
        }
        case Instruction::FPToSI: case Instruction::FPToUI:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = vex(mkFUn(k.op == Instruction::FPToSI ? K::FToSI : K::FToUI, ex(get(f, k.o[0], i), k.w2), k.w));
          break;
        case Instruction::SIToFP: case Instruction::UIToFP:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = vex(mkFUn(k.op == Instruction::SIToFP ? K::SIToF : K::UIToF, ex(get(f, k.o[0], i), k.w2), k.w));
          break;
        case Instruction::FPExt: case Instruction::FPTrunc:
          if (k.w > 64 || k.w2 > 64) { incompletePath(s, "long double arithmetic"); return; }
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = vex(mkFUn(K::FCvt, ex(get(f, k.o[0], i), k.w2), k.w));
          break;
        case Instruction::Freeze:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = get(f, k.o[0], i);
          break;
        case Instruction::ExtractValue:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = get(f, k.o[0], k.off + i);
          break;
        case Instruction::InsertValue:
          for (unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = get(f, k.o[0], i);
          for (unsigned i = 0; i < k.w2; i++) f.regs[k.dst + k.off + i] = get(f, k.o[1], i);
          break;
        case Instruction::ExtractElement: {
          V ix = get(f, k.o[1]); uint64_t i = ix.c;
          if (ix.e) concretize(s, ix.e, i);
          f.regs[k.dst] = get(f, k.o[0], (int)i);
          break;
        }
        case Instruction::InsertElement: {
          V ix = get(f, k.o[2]); uint64_t i = ix.c;
          if (ix.e) concretize(s, ix.e, i);
          for (unsigned l = 0; l < k.nslots; l++) f.regs[k.dst + l] = get(f, k.o[0], l);
          f.regs[k.dst + i] = get(f, k.o[1]);
          break;
        }
        case Instruction::ShuffleVector: {
          std::vector<V> t;
          for (size_t i = 0; i < k.scale.size(); i++) {
            int64_t m = k.scale[i];
            t.push_back(m < 0 ? cv(0) : m < (int64_t)k.w2 ? get(f, k.o[0], m) : get(f, k.o[1], m - k.w2));
          }
          for (size_t i = 0; i < t.size(); i++) f.regs[k.dst + i] = t[i];
          break;
        }
        case Instruction::AtomicRMW: {
          auto* rmw = cast<AtomicRMWInst>(k.I);
          V p = get(f, k.o[0]), x = get(f, k.o[1]), old, nv;
          inAtomic = true;
          acquire(s, p.c, s.cur);
          if (!load(s, p, k.w, old)) { inAtomic = false; errPaths++; return; }
          inAtomic = false;
          switch (rmw->getOperation()) {
            case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, x, k.w); break;
            case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, x, k.w); break;
            case AtomicRMWInst::And: nv = binop(Instruction::And, old, x, k.w); break;
            case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, x, k.w); break;
            case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, x, k.w); break;
            case AtomicRMWInst::Xchg: nv = x; break;
            default: incompletePath(s, "atomicrmw kind"); return;
          }
          inAtomic = true;
          if (!store(s, p, nv, k.w)) { inAtomic = false; errPaths++; return; }
          inAtomic = false;
          release(s, p.c, s.cur);
          f.regs[k.dst] = old;
          break;
        }
        case Instruction::AtomicCmpXchg: {
          V p = get(f, k.o[0]), c = get(f, k.o[1]), nw = get(f, k.o[2]), old;
          unsigned w = scalarBits(k.I->getOperand(1)->getType());
          inAtomic = true;
          acquire(s, p.c, s.cur);
          if (!load(s, p, w, old)) { inAtomic = false; errPaths++; return; }
          V eq = icmp(CmpInst::ICMP_EQ, old, c, w);
          if (!store(s, p, sel(eq, nw, old, w), w)) { inAtomic = false; errPaths++; return; }
          inAtomic = false;
          release(s, p.c, s.cur);
          f.regs[k.dst] = old;
          f.regs[k.dst + 1] = eq;
          break;
        }
        case Instruction::Fence: break;
        case Instruction::Call: case Instruction::Invoke:
          if (!doCall(s, k)) { instrs += n & 0x3fff; return; }
          break;
        case Instruction::Ret: {
          std::vector<V> rv;
          for (unsigned i = 0; i < k.nslots; i++) rv.push_back(get(f, k.o[0], i));
          if (!returnFrom(s, rv)) { instrs += n & 0x3fff; return; }
          break;
        }
        case Instruction::LandingPad: {
          f.regs[k.dst] = cv(s.th[s.cur].curExc);
          f.regs[k.dst + 1] = cv((uint64_t)(uint32_t)s.th[s.cur].pendingRet);
          break;
        }
        case Instruction::Resume: {
          uint64_t exc = get(f, k.o[0], 0).c;
          popFrame(s);
          if (s.th[s.cur].st.empty() || !throwExc(s, exc)) {
            errPaths++; instrs += n & 0x3fff; return;
          }
          break;
        }
        case Instruction::Unreachable:
          report(s, "trap", "unreachable code executed", s.model);
          errPaths++; instrs += n & 0x3fff;
          return;
        case Instruction::VAArg:
        default:
          incompletePath(s, std::string("instruction without a model: ") + k.I->getOpcodeName());
          instrs += n & 0x3fff;
          return;
      }
    }
  }
