    // ---------------------------------------------------------------- control flow
    void pushFrame(const Function* f, const std::vector<Val>& args, const CallBase* call) {
        if (cur->st.size() > 600) throw Unsupported{"call depth"};
        auto& i = info(f);
        auto fr = std::make_shared<Frame>();
        fr->F = f; fr->bb = &f->getEntryBlock(); fr->prev = nullptr; fr->ip = fr->bb->begin();
        fr->regs.resize(i.n); fr->call = call; fr->uid = nextFrame++;
        unsigned k = 0;
        for (auto& a : f->args()) {
            Val v = args[k];
            if (a.hasByValAttr()) { // callee gets its own copy
                uint64_t sz = DL.getTypeAllocSize(a.getParamByValType());
                uint32_t o = newObj(Obj::STACK, cst(sz, 64), "byval");
                fr->allocas.push_back(o);
                cur->st.push_back(fr);
                Val d = vp(o, cst(0, 64));
                copyMem(d, v, cst(sz, 64));
                cur->st.pop_back();
                v = d;
            }
            fr->regs[i.slot[&a]] = v; ++k;
        }
        for (; k < args.size(); ++k) fr->varargs.push_back(args[k]);
        cur->st.push_back(fr);
    }
    void killAllocas(Frame& f) {
        for (uint32_t o : f.allocas) { if (keepDead) { Obj& w = objW(o); w.alive = false; w.top = std::make_shared<Layer>(); w.top->k = Layer::UNDEF; } else cur->mem.erase(o); }
        f.allocas.clear();
    }
    bool keepDead = false;
    void gotoBlock(const BasicBlock* to) {
        Frame& f = top();
        const BasicBlock* from = f.bb;
        // phi nodes read simultaneously
        std::vector<std::pair<const PHINode*, Val>> ph;
        for (auto& in : *to) { auto* p = dyn_cast<PHINode>(&in); if (!p) break; ph.push_back({p, get(p->getIncomingValueForBlock(from))}); }
        for (auto& p : ph) set(p.first, p.second);
        Frame& g = top();
        g.prev = from; g.bb = to; g.ip = to->begin();
        while (isa<PHINode>(&*g.ip)) ++g.ip;
        onBlock(from, to);
    }
    void finishCall(const CallBase* cb, const Val& r) { // in the caller frame: store result, move on
        if (!cb->getType()->isVoidTy()) set(cb, r);
        if (auto* iv = dyn_cast<InvokeInst>(cb)) gotoBlock(iv->getNormalDest());
        else ++top().ip;
    }
    void doReturn(const Val& r) {
        FrameP f = cur->st.back();
        Frame& t = top();
        killAllocas(t);
        const CallBase* cb = t.call; bool spec = t.specDepth != 0; (void)spec;
        onFrameExit(t);
        cur->st.pop_back();
        if (onReturnHook(f, r)) return;
        if (cur->st.empty()) throw Kill{"end", false};
        finishCall(cb, r);
    }
    // ---------------------------------------------------------------- exceptions
    const GlobalVariable* tiGlobal(const Value* v) {
        v = v->stripPointerCasts();
        return dyn_cast<GlobalVariable>(v);
    }
    bool tiDerives(const std::string& d, const std::string& b, int depth = 0) {
        if (d == b) return true;
        if (depth > 10) return false;
        static const std::map<std::string, std::string> stdBase = {
            {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
            {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
            {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
        auto it = stdBase.find(d);
        if (it != stdBase.end()) return tiDerives(it->second, b, depth + 1);
        auto* g = M.getGlobalVariable(d, true);
        if (!g || !g->hasInitializer()) return false;
        auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
        if (!cs) return false;
        for (unsigned i = 2; i < cs->getNumOperands(); ++i) {
            auto* o = cs->getOperand(i)->stripPointerCasts();
            if (auto* bg = dyn_cast<GlobalVariable>(o)) if (tiDerives(bg->getName().str(), b, depth + 1)) return true;
        }
        return false;
    }
    std::map<std::string, unsigned> tiIds;
    unsigned tiId(const std::string& n) { auto& x = tiIds[n]; if (!x) x = tiIds.size(); return x; }
    void unwind() { // cur->cur holds the exception
        while (true) {
            FrameP f = cur->st.back();
            { Frame& t = top(); killAllocas(t); onFrameExit(t); }
            const CallBase* cb = f->call;
            cur->st.pop_back();
            if (onUnwindHook(f)) return;
            if (cur->st.empty()) { cur->st.push_back(f); std::string ti = cur->cur.ti; obligation(fls(), "no exception escapes the checked call (" + llvm::demangle(ti) + ")", "exception"); throw Kill{"uncaught", true}; }
            if (auto* iv = dyn_cast_or_null<InvokeInst>(cb)) {
                const BasicBlock* lp = iv->getUnwindDest();
                const LandingPadInst* li = iv->getLandingPadInst();
                int sel = -1;
                for (unsigned i = 0; i < li->getNumClauses(); ++i) {
                    if (li->isCatch(i)) {
                        auto* c = li->getClause(i);
                        if (isa<ConstantPointerNull>(c)) { sel = tiId("<all>"); break; }
                        std::string n = tiGlobal(c)->getName().str();
                        if (tiDerives(cur->cur.ti, n)) { sel = tiId(n); break; }
                    } else { // filter: treat as a violation of an exception specification
                        sel = tiId("<filter>"); break;
                    }
                }
                if (sel < 0 && li->isCleanup()) sel = 0;
                if (sel < 0) continue;
                gotoBlock(lp);
                set(li, vagg({cur->cur.ptr, vk(sel, 32)}));
                ++top().ip; // past the landing pad (first non-phi)
                return;
            }
            continue;
        }
    }
    void throwExc(const Val& p, const std::string& ti) {
        cur->cur = ExcInfo{p, ti, 0};
        unwindFromCall();
    }
    void unwindFromCall() { // exception raised by the call instruction of the current top frame
        Frame& f = *cur->st.back();
        const Instruction* in = &*f.ip;
        if (auto* iv = dyn_cast<InvokeInst>(in)) {
            // emulate: pretend a callee frame was popped
            auto fr = std::make_shared<Frame>(); fr->F = f.F; fr->call = iv; fr->uid = 0;
            cur->st.push_back(fr);
        }
        unwind();
    }
    void throwStd(const char* ti) {
        uint32_t o = newObj(Obj::EXC, cst(64, 64), "std exception");
        cur->mem[o]->opaque = true;
        throwExc(vp(o, cst(0, 64)), ti);
    }
    // ---------------------------------------------------------------- one instruction
    void step() {
        Frame& f0 = *cur->st.back();
        const Instruction& I = *f0.ip;
        ++steps; ++cur->steps;
        if (trace) { std::string s; raw_string_ostream os(s); I.print(os); fprintf(stderr, "[%zu] %s: %s\n", cur->st.size(), demName(f0.F).substr(0, 80).c_str(), s.c_str()); }
        auto next = [&] { ++top().ip; };
        switch (I.getOpcode()) {
        case Instruction::Ret: {
            Val r;
            if (I.getNumOperands()) r = get(I.getOperand(0));
            doReturn(r);
            return;
        }
        case Instruction::Br: {
            auto& b = cast<BranchInst>(I);
            if (b.isUnconditional()) { gotoBlock(b.getSuccessor(0)); return; }
            bool c = decide(getI(b.getCondition()));
            gotoBlock(b.getSuccessor(c ? 0 : 1));
            return;
        }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(I);
            E v = getI(s.getCondition());
            for (auto& c : s.cases()) if (decide(eq(v, cst(c.getCaseValue()->getZExtValue(), v->w)))) { gotoBlock(c.getCaseSuccessor()); return; }
            gotoBlock(s.getDefaultDest());
            return;
        }
        case Instruction::Unreachable:
            obligation(fls(), "no unreachable point is reached", "memory");
            throw Kill{"unreachable", true};
        case Instruction::Alloca: {
            auto& a = cast<AllocaInst>(I);
            uint64_t n = concretize(getI(a.getArraySize()), "alloca");
            uint64_t sz = DL.getTypeAllocSize(a.getAllocatedType()) * n;
            uint32_t o = newObj(Obj::STACK, cst(sz, 64), a.hasName() ? a.getName().str() : "stack");
            Frame& f = top();
            f.allocas.push_back(o);
            set(&I, vp(o, cst(0, 64)));
            next(); return;
        }
        case Instruction::Load: set(&I, load(get(I.getOperand(0)), I.getType())); next(); return;
        case Instruction::Store: store(get(I.getOperand(1)), get(I.getOperand(0)), I.getOperand(0)->getType()); next(); return;
        case Instruction::GetElementPtr: {
            Val b = get(I.getOperand(0));
            auto& g = cast<GetElementPtrInst>(I);
            E off = cst(0, 64);
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                Val iv = get(gi.getOperand());
                E ix = iv.k == Val::INT ? sb(iv.e) : sb(asInt(iv));
                if (auto* st = gi.getStructTypeOrNull()) off = add(off, cst(DL.getStructLayout(st)->getElementOffset(ix->c), 64));
                else { if (ix->w < 64) ix = sextE(ix, 64); off = add(off, mulK(ix, DL.getTypeAllocSize(gi.getIndexedType()))); }
            }
            Val r = ptrAdd(b, off);
            if (r.k == Val::PTR) r.e = sb(r.e);
            set(&I, r); next(); return;
        }
        case Instruction::ICmp: set(&I, vi(icmp(cast<ICmpInst>(I).getPredicate(), get(I.getOperand(0)), get(I.getOperand(1))))); next(); return;
        case Instruction::Select: {
            Val c = get(I.getOperand(0)), a = get(I.getOperand(1)), b = get(I.getOperand(2));
            if (forkSelect && !isK(sb(c.e)) && (a.k == Val::PTR || I.getType()->isIntegerTy(64)) && !sameVal(a, b)) { bool d = decide(c.e); set(&I, d ? a : b); next(); return; }
            if (a.k == Val::INT && b.k == Val::INT) { set(&I, vi(ite(sb(c.e), a.e, b.e))); next(); return; }
            if (sameVal(a, b)) { set(&I, a); next(); return; }
            if (a.k == Val::PTR && b.k == Val::PTR && a.obj == b.obj && a.inst == b.inst) { set(&I, vp(a.obj, ite(sb(c.e), a.e, b.e), a.inst)); next(); return; }
            bool d = decide(c.e);
            set(&I, d ? a : b); next(); return;
        }
        case Instruction::Trunc: { Val a = get(I.getOperand(0)); set(&I, vi(extract(a.k == Val::INT ? sb(a.e) : asInt(a), 0, I.getType()->getIntegerBitWidth()))); next(); return; }
        case Instruction::ZExt: set(&I, vi(zext(getI(I.getOperand(0)), width(I.getType())))); next(); return;
        case Instruction::SExt: set(&I, vi(sextE(getI(I.getOperand(0)), width(I.getType())))); next(); return;
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
            Val v = get(I.getOperand(0));
            if (I.getOpcode() == Instruction::IntToPtr) v = intToPtr(v);
            set(&I, v); next(); return;
        }
        case Instruction::ExtractValue: { Val v = get(I.getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I).indices()) { Val t = (*v.agg)[i]; v = t; } set(&I, v); next(); return; }
        case Instruction::InsertValue: {
            Val v = get(I.getOperand(0)), x = get(I.getOperand(1));
            set(&I, insertAgg(v, x, cast<InsertValueInst>(I).getIndices(), 0)); next(); return;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(cast<CallBase>(I)); return;
        case Instruction::LandingPad: throw Unsupported{"stray landing pad"};
        case Instruction::Resume: {
            Val v = get(I.getOperand(0));
            // the exception being propagated
            cur->cur.ptr = (*v.agg)[0];
            cur->cur.ti = excTypeOf((*v.agg)[0]);
            unwind(); return;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FCmp: case Instruction::FNeg:
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
            floatOp(I); next(); return;
        default: break;
        }
        if (I.isBinaryOp()) {
            Val a = get(I.getOperand(0)), b = get(I.getOperand(1));
            set(&I, binop(I, a, b)); next(); return;
        }
        throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
    }
    unsigned width(Type* t) { return t->isPointerTy() ? 64 : t->getIntegerBitWidth(); }
    Val insertAgg(const Val& v, const Val& x, ArrayRef<unsigned> ix, unsigned d) {
        if (d == ix.size()) return x;
        std::vector<Val> a = *v.agg;
        a[ix[d]] = insertAgg(a[ix[d]], x, ix, d + 1);
        return vagg(a);
    }
    std::string excTypeOf(const Val& p) {
        auto it = cur->ghost.find("exc:" + std::to_string(p.obj));
        if (it != cur->ghost.end()) return excNames[it->second];
        return cur->cur.ti;
    }
    std::vector<std::string> excNames;
    E icmp(CmpInst::Predicate p, Val a, Val b) {
        if (a.k == Val::INT) a = vi(sb(a.e));
        if (b.k == Val::INT) b = vi(sb(b.e));
        if (a.k == Val::INT && b.k == Val::INT) {
            E x = a.e, y = b.e;
            switch (p) {
            case CmpInst::ICMP_EQ: return eq(x, y); case CmpInst::ICMP_NE: return bnot(eq(x, y));
            case CmpInst::ICMP_ULT: return ult(x, y); case CmpInst::ICMP_ULE: return bnot(ult(y, x));
            case CmpInst::ICMP_UGT: return ult(y, x); case CmpInst::ICMP_UGE: return bnot(ult(x, y));
            case CmpInst::ICMP_SLT: return slt(x, y); case CmpInst::ICMP_SLE: return bnot(slt(y, x));
            case CmpInst::ICMP_SGT: return slt(y, x); case CmpInst::ICMP_SGE: return bnot(slt(x, y));
            default: throw Unsupported{"icmp"};
            }
        }
        if (a.k == Val::PTR && b.k == Val::PTR && a.obj == b.obj) {
            if (a.inst != b.inst) {
                E ie = eq(sb(a.inst), sb(b.inst));
                if (p == CmpInst::ICMP_EQ) return band(ie, eq(sb(a.e), sb(b.e)));
                if (p == CmpInst::ICMP_NE) return bnot(band(ie, eq(sb(a.e), sb(b.e))));
                if (!decide(ie)) throw Unsupported{"ordering of pointers into different objects"};
            }
            return icmp(p, vi(sb(a.e)), vi(sb(b.e)));
        }
        // different objects / pointer against integer
        bool same = a.k == Val::FN && b.k == Val::FN && a.obj == b.obj;
        if (p == CmpInst::ICMP_EQ) { if (a.k == b.k || (a.k == Val::INT ? isK(a.e, 0) : b.k == Val::INT && isK(b.e, 0)) || (a.k != Val::INT && b.k != Val::INT)) return b2e(same); }
        if (p == CmpInst::ICMP_NE) { if (a.k == b.k || (a.k == Val::INT ? isK(a.e, 0) : b.k == Val::INT && isK(b.e, 0)) || (a.k != Val::INT && b.k != Val::INT)) return b2e(!same); }
        return icmp(p, vi(asInt(a)), vi(asInt(b)));
    }
    Val binop(const Instruction& I, Val a, Val b) {
        if (I.getOpcode() == Instruction::Sub && a.k == Val::PTR && b.k == Val::PTR && a.obj == b.obj) {
            if (a.inst != b.inst && !must(eq(a.inst, b.inst))) throw Unsupported{"pointer difference across objects"};
            return vi(sb(sub(a.e, b.e)));
        }
        if (a.k == Val::PTR && b.k == Val::INT && I.getOpcode() == Instruction::Add) return ptrAdd(a, b.e);
        if (b.k == Val::PTR && a.k == Val::INT && I.getOpcode() == Instruction::Add) return ptrAdd(b, a.e);
        if (a.k == Val::PTR && b.k == Val::INT && I.getOpcode() == Instruction::Sub) return ptrAdd(a, sub(cst(0, 64), b.e));
        E x = sb(a.k == Val::INT ? a.e : asInt(a)), y = sb(b.k == Val::INT ? b.e : asInt(b));
        unsigned w = x->w;
        switch (I.getOpcode()) {
        case Instruction::Add:
            if (auto* o = dyn_cast<OverflowingBinaryOperator>(&I)) if (o->hasNoSignedWrap() && checkOverflow && !(isK(x) && isK(y))) nswCheck(x, y, w, false);
            return vi(add(x, y));
        case Instruction::Sub:
            if (auto* o = dyn_cast<OverflowingBinaryOperator>(&I)) if (o->hasNoSignedWrap() && checkOverflow && !(isK(x) && isK(y))) nswCheck(x, y, w, true);
            return vi(sub(x, y));
        case Instruction::Mul: return vi(bin(MUL, x, y));
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            obligation(bnot(eq(y, cst(0, w))), "no division by zero", "memory");
            return vi(bin(I.getOpcode() == Instruction::UDiv ? UDIV : I.getOpcode() == Instruction::SDiv ? SDIV : I.getOpcode() == Instruction::URem ? UREM : SREM, x, y));
        case Instruction::And: return vi(bin(AND, x, y));
        case Instruction::Or: return vi(bin(OR, x, y));
        case Instruction::Xor: return vi(bin(XOR, x, y));
        case Instruction::Shl: return vi(bin(SHL, x, y));
        case Instruction::LShr: return vi(bin(LSHR, x, y));
        case Instruction::AShr: return vi(bin(ASHR, x, y));
        default: throw Unsupported{std::string("binop ") + I.getOpcodeName()};
        }
    }
    bool checkOverflow = true;
    void nswCheck(E x, E y, unsigned w, bool isSub) {
        E r = isSub ? sub(x, y) : add(x, y);
        Iv a = ivOf(x), b = ivOf(y), c = ivOf(r);
        if (a.ok && b.ok && c.ok) return;
        if (w < 32) return;
        E z = cst(0, w);
        E ok = isSub ? bor(eq(slt(x, z), slt(y, z)), eq(slt(r, z), slt(x, z))) : bor(bnot(eq(slt(x, z), slt(y, z))), eq(slt(r, z), slt(x, z)));
        obligation(ok, "no signed overflow", "memory");
    }
    void floatOp(const Instruction& I) {
        std::vector<E> ops; bool allK = true;
        for (auto& o : I.operands()) { E e = getI(o.get()); ops.push_back(e); allK &= isK(e); }
        unsigned rw = I.getType()->isIntegerTy() ? I.getType()->getIntegerBitWidth() : DL.getTypeSizeInBits(I.getType());
        if (allK) {
            auto D = [&](E e) { if (e->w == 64) { double d; memcpy(&d, &e->c, 8); return d; } float f; uint32_t u = e->c; memcpy(&f, &u, 4); return (double)f; };
            auto R = [&](double d) { if (rw == 64) { uint64_t u; memcpy(&u, &d, 8); return vk(u, 64); } float f = d; uint32_t u; memcpy(&u, &f, 4); return vk(u, 32); };
            double a = 0, b = 0; 
            if (I.getOperand(0)->getType()->isFloatingPointTy()) { a = D(ops[0]); if (ops.size() > 1) b = D(ops[1]); }
            switch (I.getOpcode()) {
            case Instruction::FAdd: set(&I, R(a + b)); return; case Instruction::FSub: set(&I, R(a - b)); return;
            case Instruction::FMul: set(&I, R(a * b)); return; case Instruction::FDiv: set(&I, R(a / b)); return;
            case Instruction::FNeg: set(&I, R(-a)); return; case Instruction::FPExt: case Instruction::FPTrunc: set(&I, R(a)); return;
            case Instruction::FPToSI: set(&I, vk((uint64_t)(int64_t)a, rw)); return; case Instruction::FPToUI: set(&I, vk((uint64_t)a, rw)); return;
            case Instruction::SIToFP: set(&I, R((double)sext64(ops[0]->c, ops[0]->w))); return; case Instruction::UIToFP: set(&I, R((double)ops[0]->c)); return;
            case Instruction::FCmp: {
                bool un = a != a || b != b, r = false;
                switch (cast<FCmpInst>(I).getPredicate()) {
                case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = !un && a > b; break; case CmpInst::FCMP_OGE: r = !un && a >= b; break;
                case CmpInst::FCMP_OLT: r = !un && a < b; break; case CmpInst::FCMP_OLE: r = !un && a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break;
                case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break;
                case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break;
                default: break;
                }
                set(&I, vk(r, 1)); return;
            }
            default: break;
            }
        }
        std::string n = std::string("fp.") + I.getOpcodeName();
        if (auto* fc = dyn_cast<FCmpInst>(&I)) n += std::to_string(fc->getPredicate());
        for (E e : ops) n += "." + std::to_string(e->w);
        set(&I, vi(ufApp(ufDecl(n + ">" + std::to_string(rw), rw, ops.size()), ops)));
    }
