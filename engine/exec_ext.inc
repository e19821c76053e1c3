    // ---------------------------------------------------------------- calls
    std::string cstrAt(const Val& p) {
        std::string s;
        for (uint64_t i = 0; i < 4096; ++i) { E b = byteAt(p, cst(i, 64)); if (!isK(b)) throw Unsupported{"symbolic C string"}; if (!b->c) break; s += (char)b->c; }
        return s;
    }
    static bool globMatch(const std::string& s, const std::string& pat0) {
        std::string pat = pat0;
        for (size_t b; (b = pat.rfind("!!")) != std::string::npos; pat = pat.substr(0, b)) if (s.find(pat.substr(b + 2)) != std::string::npos) return false; // '*' separates pieces that must occur in order; ^ anchors, $ anchors
        size_t pos = 0, i = 0; bool first = true;
        std::string p = pat; bool anchor = false, endA = false;
        if (!p.empty() && p[0] == '^') { anchor = true; p = p.substr(1); }
        if (!p.empty() && p.back() == '$') { endA = true; p.pop_back(); }
        while (i <= p.size()) {
            size_t j = p.find('*', i); if (j == std::string::npos) j = p.size();
            std::string piece = p.substr(i, j - i);
            if (!piece.empty()) {
                size_t q;
                if (j == p.size() && endA) { if (s.size() < piece.size() || s.compare(s.size() - piece.size(), piece.size(), piece)) return false; q = s.size() - piece.size(); if (q < pos) return false; }
                else q = s.find(piece, pos);
                if (q == std::string::npos) return false;
                if (first && anchor && q != 0) return false;
                pos = q + piece.size();
            }
            first = false; i = j + 1;
        }
        return true;
    }
    static bool sameButVariadic(const FunctionType* r, const FunctionType* f) {
        if (!f->isVarArg() || r->getReturnType() != f->getReturnType() || r->getNumParams() < f->getNumParams()) return false;
        for (unsigned i = 0; i < f->getNumParams(); ++i) if (r->getParamType(i) != f->getParamType(i)) return false;
        return true;
    }
    const Function* resolve(const Function* f) {
        auto& i = info(f);
        if (i.resolved) return i.repl ? i.repl : f;
        i.resolved = true;
        const std::string& d = demName(f);
        for (auto& r : repls) if (r.second != f && globMatch(d, r.first)) {
            if (r.second->getFunctionType() == f->getFunctionType() || sameButVariadic(r.second->getFunctionType(), f->getFunctionType())) { i.repl = r.second; break; }
            else { std::string s; raw_string_ostream os(s); os << "contract signature mismatch for " << d << ": " << *f->getFunctionType() << " vs " << *r.second->getFunctionType(); sigMismatch.insert(os.str()); }
        }
        if (i.repl) return i.repl;
        return f;
    }
    std::set<std::string> sigMismatch;
    void readAnnotations() {
        auto* g = M.getGlobalVariable("llvm.global.annotations");
        if (!g) return;
        auto* a = dyn_cast<ConstantArray>(g->getInitializer());
        for (auto& o : a->operands()) {
            auto* s = cast<ConstantStruct>(o);
            auto* f = dyn_cast<Function>(s->getOperand(0)->stripPointerCasts());
            auto* t = dyn_cast<GlobalVariable>(s->getOperand(1)->stripPointerCasts());
            if (!f || !t) continue;
            std::string txt = cast<ConstantDataSequential>(t->getInitializer())->getAsCString().str();
            if (txt.rfind("arv.replace=", 0) == 0) { if (disabledContracts.count(f->getName().str())) continue; repls.push_back({txt.substr(12), f}); }
            if (txt.rfind("arv.loop=", 0) == 0 && useLoops) {
                auto sp = std::make_unique<LoopSpec>(); sp->fn = f;
                size_t p = txt.rfind('#'), q = txt.rfind('#', p - 1);
                sp->glob = txt.substr(9, q - 9); sp->n = atoi(txt.substr(q + 1).c_str());
                std::string w; for (char c : txt.substr(p + 1) + ",") { if (c == ',') { if (!w.empty()) sp->vars.push_back(w); w.clear(); } else if (c != ' ') w += c; }
                loopSpecs.push_back(std::move(sp));
            }
        }
    }
    std::set<std::string> disabledContracts;
    using Ext = std::function<void(const CallBase&, std::vector<Val>&)>;
    std::unordered_map<std::string, Ext> ext;

    void doCall(const CallBase& cb) {
        const Value* cv = cb.getCalledOperand()->stripPointerCasts();
        const Function* f = dyn_cast<Function>(cv);
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        if (cb.isInlineAsm()) { // compiler barriers used by tests/benchmarks only
            if (cb.getType()->isVoidTy()) { finishCall(&cb, Val{}); return; }
            throw Unsupported{"inline asm"};
        }
        if (!f) {
            Val p = intToPtr(get(cb.getCalledOperand()));
            if (p.k != Val::FN) { obligation(fls(), "no call through an invalid function pointer", "memory"); }
            f = fnById[p.obj];
        }
        if (f->isIntrinsic()) { if (intrinsic(cb, *f)) return; throw Unsupported{"intrinsic " + f->getName().str()}; }
        std::vector<Val> args;
        for (auto& a : cb.args()) args.push_back(get(a.get()));
        callFn(cb, f, args);
    }
    void callFn(const CallBase& cb, const Function* f, std::vector<Val>& args) {
        const Function* g = resolve(f);
        if (g != f) {
            // a contract body may call the function it stands for (then the real body is used)
            bool inside = false;
            for (auto& fr : cur->st) if (fr->F == g) inside = true;
            if (!inside) { usedContracts[demName(f) + " -> " + g->getName().str()]++; f = g; }
        }
        std::string n = f->getName().str();
        auto it = ext.find(n);
        if (it != ext.end()) { it->second(cb, args); return; }
        if (f->isDeclaration()) { if (extPattern(cb, f, n, args)) { usedExt[demName(f)]++; return; } throw Unsupported{"external function " + demName(f)}; }
        if (info(f).spec) { callSpec(cb, f, args); return; }
        if (enteredSet.insert(f).second) fnsEntered.insert(demName(f));
        pushFrame(f, args, &cb);
    }
    std::set<const Function*> enteredSet;
    void ret(const CallBase& cb, const Val& v) { finishCall(&cb, v); }

    bool extPattern(const CallBase& cb, const Function* f, const std::string& n, std::vector<Val>& a) {
        const std::string& d = demName(f);
        auto starts = [&](const char* p) { return d.rfind(p, 0) == 0; };
        if (d.find("::~") != std::string::npos && starts("std::")) { ret(cb, Val{}); return true; }
        if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev" || n == "_ZSt21ios_base_library_initv" || n == "atexit" || n == "__cxa_atexit") { if (cb.getType()->isVoidTy()) ret(cb, Val{}); else ret(cb, zeroVal(cb.getType())); return true; }
        static const std::map<std::string, const char*> thr = {
            {"std::__throw_length_error", "_ZTISt12length_error"}, {"std::__throw_logic_error", "_ZTISt11logic_error"}, {"std::__throw_out_of_range", "_ZTISt12out_of_range"},
            {"std::__throw_bad_alloc", "_ZTISt9bad_alloc"}, {"std::__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"std::__throw_bad_function_call", "_ZTISt17bad_function_call"},
            {"std::__throw_bad_cast", "_ZTISt8bad_cast"}, {"std::__throw_invalid_argument", "_ZTISt16invalid_argument"}, {"std::__throw_runtime_error", "_ZTISt13runtime_error"}};
        for (auto& t : thr) if (starts(t.first.c_str())) { throwStd(t.second); return true; }
        if (starts("std::terminate") || n == "abort" || n == "_exit" || n == "exit" || starts("std::abort")) { obligation(fls(), "the process is not terminated (" + d + ")", "terminate"); throw Kill{"terminate", true}; }
        if (n == "__cxa_pure_virtual") { obligation(fls(), "no pure virtual call", "memory"); throw Kill{"pure", true}; }
        return false;
    }
    bool intrinsic(const CallBase& cb, const Function& f) {
        auto next = [&] { ret(cb, Val{}); };
        auto A = [&](unsigned i) { return get(cb.getArgOperand(i)); };
        switch (f.getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::prefetch: next(); return true;
        case Intrinsic::assume: next(); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(A(0), A(1), getI(cb.getArgOperand(2))); next(); return true;
        case Intrinsic::memset: setMem(A(0), getI(cb.getArgOperand(1)), getI(cb.getArgOperand(2))); next(); return true;
        case Intrinsic::expect: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret(cb, A(0)); return true;
        case Intrinsic::is_constant: ret(cb, vk(0, 1)); return true;
        case Intrinsic::objectsize: ret(cb, vk(~0ull, width(cb.getType()))); return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: obligation(fls(), "the process is not terminated (trap)", "terminate"); throw Kill{"trap", true};
        case Intrinsic::eh_typeid_for: { auto* g = tiGlobal(cb.getArgOperand(0)); ret(cb, vk(g ? tiId(g->getName().str()) : tiId("<all>"), 32)); return true; }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            E a = getI(cb.getArgOperand(0)), b = getI(cb.getArgOperand(1));
            auto id = f.getIntrinsicID();
            E c = id == Intrinsic::umin ? ult(a, b) : id == Intrinsic::umax ? ult(b, a) : id == Intrinsic::smin ? slt(a, b) : slt(b, a);
            ret(cb, vi(ite(c, a, b))); return true;
        }
        case Intrinsic::abs: { E a = getI(cb.getArgOperand(0)); ret(cb, vi(ite(slt(a, cst(0, a->w)), sub(cst(0, a->w), a), a))); return true; }
        case Intrinsic::usub_sat: { E a = getI(cb.getArgOperand(0)), b = getI(cb.getArgOperand(1)); ret(cb, vi(ite(ult(a, b), cst(0, a->w), sub(a, b)))); return true; }
        case Intrinsic::uadd_with_overflow: { E a = getI(cb.getArgOperand(0)), b = getI(cb.getArgOperand(1)), s = add(a, b); ret(cb, vagg({vi(s), vi(ult(s, a))})); return true; }
        case Intrinsic::usub_with_overflow: { E a = getI(cb.getArgOperand(0)), b = getI(cb.getArgOperand(1)); ret(cb, vagg({vi(sub(a, b)), vi(ult(a, b))})); return true; }
        case Intrinsic::umul_with_overflow: {
            E a = getI(cb.getArgOperand(0)), b = getI(cb.getArgOperand(1)); E p = bin(MUL, a, b), o;
            if (isK(b) && b->c) o = ult(cst(maskOf(a->w) / b->c, a->w), a); else if (isK(a) && a->c) o = ult(cst(maskOf(a->w) / a->c, a->w), b); else o = bnot(bor(eq(a, cst(0, a->w)), eq(bin(UDIV, p, a), b)));
            ret(cb, vagg({vi(p), vi(o)})); return true;
        }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
            E a = getI(cb.getArgOperand(0)), b = getI(cb.getArgOperand(1)); bool s = f.getIntrinsicID() == Intrinsic::ssub_with_overflow; E z = cst(0, a->w), r = s ? sub(a, b) : add(a, b);
            E sa = slt(a, z), sbb = slt(b, z), sr = slt(r, z);
            E ov = s ? band(bnot(eq(sa, sbb)), bnot(eq(sr, sa))) : band(eq(sa, sbb), bnot(eq(sr, sa)));
            ret(cb, vagg({vi(r), vi(ov)})); return true;
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
            E a = getI(cb.getArgOperand(0)); unsigned w = a->w; auto id = f.getIntrinsicID();
            if (isK(a)) { uint64_t v = a->c, r; if (id == Intrinsic::ctpop) r = __builtin_popcountll(v); else if (!v) r = w; else r = id == Intrinsic::ctlz ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v); ret(cb, vk(r, w)); return true; }
            E r = id == Intrinsic::ctpop ? cst(0, w) : cst(w, w);
            for (unsigned i = 0; i < w; ++i) {
                if (id == Intrinsic::ctpop) r = add(r, zext(extract(a, i, 1), w));
                else if (id == Intrinsic::ctlz) r = ite(extract(a, i, 1), cst(w - 1 - i, w), r);
                else r = ite(extract(a, w - 1 - i, 1), cst(w - 1 - i, w), r);
            }
            ret(cb, vi(r)); return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            E a = getI(cb.getArgOperand(0)), b = getI(cb.getArgOperand(1)), s = getI(cb.getArgOperand(2)); unsigned w = a->w;
            if (!isK(s)) return false;
            unsigned k = s->c % w; if (f.getIntrinsicID() == Intrinsic::fshr) k = (w - k) % w;
            if (!k) { ret(cb, vi(f.getIntrinsicID() == Intrinsic::fshl ? a : b)); return true; }
            ret(cb, vi(bin(OR, bin(SHL, a, cst(k, w)), bin(LSHR, b, cst(w - k, w))))); return true;
        }
        case Intrinsic::bswap: { E a = getI(cb.getArgOperand(0)); E r = nullptr; for (unsigned i = 0; i < a->w; i += 8) { E b = extract(a, i, 8); r = r ? concat(r, b) : b; } ret(cb, vi(r)); return true; }
        default: return false;
        }
    }
    E bytesEq(const Val& p, const Val& q, E n) { // n bytes at p equal those at q, n concrete
        E r = tru();
        for (uint64_t i = 0; i < n->c; ++i) { r = band(r, eq(byteAt(p, cst(i, 64)), byteAt(q, cst(i, 64)))); if (isK(r, 0)) break; }
        return r;
    }
    void rangeOk(Val& p, E len, const char* what) { // [p,p+len) readable
        p = intToPtr(p);
        if (isK(len, 0)) return;
        if (p.k != Val::PTR) { if (isK(len)) obligation(fls(), std::string("no invalid pointer access (") + what + ")", "memory"); else obligation(eq(len, cst(0, 64)), std::string("no invalid pointer access (") + what + ")", "memory"); return; }
        ObjP o = getObj(p.obj);
        if (!o || !o->alive) obligation(fls(), std::string("no access to a dead object (") + what + ")", "memory");
        p.e = sb(p.e);
        if (o->opaque) return;
        E sz = sb(objSize(*o, p.inst)), end = add(p.e, len);
        E ok = band(bnot(ult(sz, end)), bnot(ult(end, p.e)));
        obligation(bor(eq(len, cst(0, 64)), ok), std::string("access in bounds (") + what + ")", "memory");
    }
    E ptrKey(const Val& p) { return p.k == Val::PTR ? sb(p.e) : asInt(p); }
    std::string famName(const Val& p) { return "o" + std::to_string(p.obj); }
    void initExt() {
        auto on = [&](std::initializer_list<const char*> ns, Ext h) { for (auto n : ns) ext[n] = h; };
        // --- verification interface
        on({"__v_sym"}, [this](const CallBase& cb, std::vector<Val>& a) {
            unsigned w = concretize(a[0].e, "width"); std::string n = cstrAt(a[1]);
            E lo = sb(a[2].e), hi = sb(a[3].e);
            uint64_t mx = isK(hi) ? hi->c : ~0ull;
            n = inName(n); const Input* old = oldInput(n, Input::INT_);
            E s = old ? old->n : newSym(n, 64, std::min(mx, maskOf(w)));
            if (!(isK(lo, 0))) addPC(bnot(ult(s, lo)));
            if (!isK(hi)) addPC(bnot(ult(hi, s)));
            if (mx < maskOf(w) || w < 64) addPC(bnot(ult(cst(std::min(mx, maskOf(w)), 64), s)));
            Input in; in.kind = Input::INT_; in.name = n; in.n = s; in.w = w; if (!old) inputs.push_back(in);
            ret(cb, vi(s));
        });
        on({"__v_assume"}, [this](const CallBase& cb, std::vector<Val>& a) {
            E c = sb(a[0].e); if (c->w > 1) c = bnot(eq(c, cst(0, c->w)));
            int r = tri(c); if (r == 0) throw Kill{"assume", false};
            if (r == 2) { std::shared_ptr<Model> mt, mf; tri(c, &mt, &mf); addPC(c); cur->wit = mt; }
            ret(cb, Val{});
        });
        on({"__v_assert"}, [this](const CallBase& cb, std::vector<Val>& a) {
            E c = sb(a[0].e); if (c->w > 1) c = bnot(eq(c, cst(0, c->w)));
            std::string l = cstrAt(a[1]);
            obligation(c, l, "assert"); ret(cb, Val{});
        });
        on({"__v_cover"}, [this](const CallBase& cb, std::vector<Val>& a) { std::string l = cstrAt(a[0]); if (!tentative) covers[l]++; ret(cb, Val{}); });
        on({"__v_cover_decl"}, [this](const CallBase& cb, std::vector<Val>& a) { coverNames.insert(cstrAt(a[0])); ret(cb, Val{}); });
        on({"__v_and"}, [this](const CallBase& cb, std::vector<Val>& a) { ret(cb, vi(zext(band(b1(a[0]), b1(a[1])), retW(cb)))); });
        on({"__v_or"}, [this](const CallBase& cb, std::vector<Val>& a) { ret(cb, vi(zext(bor(b1(a[0]), b1(a[1])), retW(cb)))); });
        on({"__v_not"}, [this](const CallBase& cb, std::vector<Val>& a) { ret(cb, vi(zext(bnot(b1(a[0])), retW(cb)))); });
        on({"__v_ite"}, [this](const CallBase& cb, std::vector<Val>& a) { ret(cb, vi(ite(b1(a[0]), sb(a[1].e), sb(a[2].e)))); });
        on({"__v_symbolic"}, [this](const CallBase& cb, std::vector<Val>&) { ret(cb, vk(1, retW(cb))); });
        on({"__v_print"}, [this](const CallBase& cb, std::vector<Val>& a) { fprintf(stderr, "PRINT %s: %s\n", cstrAt(a[0]).c_str(), a[1].k == Val::INT ? str(sb(a[1].e)).c_str() : a[1].k == Val::PTR ? ("ptr o" + std::to_string(a[1].obj) + "+" + str(sb(a[1].e))).c_str() : "?"); ret(cb, Val{}); });
        on({"__v_uf"}, [this](const CallBase& cb, std::vector<Val>& a) { // (name, max, n, args...)
            std::string n = cstrAt(a[0]); uint64_t mx = concretize(a[1].e, "uf max"), k = concretize(a[2].e, "uf arity");
            std::vector<E> es; for (uint64_t i = 0; i < k; ++i) es.push_back(key64(a[3 + i]));
            ret(cb, vi(sb(ufApp(ufDecl("u:" + n, 64, k, mx), es))));
        });
        on({"__v_ufptr"}, [this](const CallBase& cb, std::vector<Val>& a) { // (name, max, ptr, len): function of the text itself
            std::string n = cstrAt(a[0]); uint64_t mx = concretize(a[1].e, "uf max");
            std::vector<E> es = textKey(a[2], sb(a[3].e));
            ret(cb, vi(sb(ufApp(ufDecl("t:" + n + ":" + std::to_string(es.size()), 64, es.size(), mx), es))));
        });
        on({"__v_bytes"}, [this](const CallBase& cb, std::vector<Val>& a) { // (name, max, nul, out len*) -> ptr
            std::string n = cstrAt(a[0]); uint64_t mx = concretize(a[1].e, "max"); bool nul = concretize(a[2].e, "nul");
            n = inName(n); const Input* old = oldInput(n, Input::BYTES);
            E len = old ? old->n : newSym(n + ".len", 64, mx); unsigned uf = old ? old->ufB : ufDecl(n + ".b" + std::to_string(inputs.size()) + "_" + std::to_string(len->c), 8, 1);
            uint32_t o = newObj(Obj::TEXT, add(len, nul ? 1 : 0), n, Layer::SYMBYTES);
            cur->mem[o]->top->uf = uf; cur->mem[o]->ro = true; cur->mem[o]->top->cstr = nul; cur->mem[o]->top->cstrLen = len;
            store(a[3], vi(len), Type::getInt64Ty(M.getContext()));
            Input in; in.kind = Input::BYTES; in.name = n; in.n = len; in.ufB = uf; if (!old) inputs.push_back(in);
            ret(cb, vp(o, cst(0, 64)));
        });
        for (bool plain : {false, true}) ext[plain ? "__v_args" : "__v_tokens"] = [this, plain](const CallBase& cb, std::vector<Val>& a) { // (name, max, out vector*): fills begin/end/cap with a symbolic token array
            std::string n = cstrAt(a[0]); uint64_t mx = concretize(a[1].e, "max");
            n = inName(n); const Input* old = oldInput(n, Input::TOKENS);
            E len = old ? old->n : newSym(n + ".n", 64, mx);
            std::string q = n + "#" + std::to_string(len->c);
            unsigned uB = old ? old->ufB : ufDecl(q + ".b", 8, 2), uL = old ? old->ufLen : ufDecl(q + ".len", 64, 1, 1ull << 20), uP = old ? old->ufPre : ufDecl(q + ".pre", 8, 1, 2);
            uint32_t t = newObj(Obj::FAMILY, nullptr, n + " text", Layer::SYMBYTES);
            { Obj& o = *cur->mem[t]; o.sizeByInst = true; o.sizeUf = uL; o.ro = true; o.top->uf = uB; o.top->hasInst = true; o.top->lenUf = uL; }
            uint32_t v = newObj(Obj::HEAP, mulK(len, 24), n, Layer::SYMSTRUCT);
            { Obj& o = *cur->mem[v]; o.top->stride = 24; o.top->fields = {{0, 1, false, uP, 0, plain ? 2 : -1}, {8, 8, false, uL, 0}, {16, 8, true, 0, t}}; }
            Type* pt = PointerType::getUnqual(M.getContext());
            store(a[2], vp(v, cst(0, 64)), pt); store(ptrAdd(a[2], cst(8, 64)), vp(v, mulK(len, 24)), pt); store(ptrAdd(a[2], cst(16, 64)), vp(v, mulK(len, 24)), pt);
            Input in; in.kind = Input::TOKENS; in.name = n; in.n = len; in.ufB = uB; in.ufLen = uL; in.ufPre = plain ? 0 : uP; if (!old) inputs.push_back(in);
            ret(cb, vi(len));
        };
        on({"__v_argv"}, [this](const CallBase& cb, std::vector<Val>& a) { // (name, max, out n*) -> char** with NUL-terminated strings
            std::string n = cstrAt(a[0]); uint64_t mx = concretize(a[1].e, "max");
            n = inName(n); const Input* old = oldInput(n, Input::CSTRS);
            E len = old ? old->n : newSym(n + ".n", 64, mx);
            std::string q = n + "#" + std::to_string(len->c);
            unsigned uB = old ? old->ufB : ufDecl(q + ".b", 8, 2), uL = old ? old->ufLen : ufDecl(q + ".len", 64, 1, 1ull << 20);
            uint32_t t = newObj(Obj::FAMILY, nullptr, n + " text", Layer::SYMBYTES);
            { Obj& o = *cur->mem[t]; o.sizeByInst = true; o.sizeUf = uL; o.sizeAdd = 1; o.ro = true; o.top->uf = uB; o.top->hasInst = true; o.top->lenUf = uL; o.top->cstr = true; }
            uint32_t v = newObj(Obj::HEAP, mulK(len, 8), n, Layer::SYMSTRUCT);
            { Obj& o = *cur->mem[v]; o.ro = true; o.top->stride = 8; o.top->fields = {{0, 8, true, 0, t}}; }
            store(a[2], vi(len), Type::getInt64Ty(M.getContext()));
            Input in; in.kind = Input::CSTRS; in.name = n; in.n = len; in.ufB = uB; in.ufLen = uL; if (!old) inputs.push_back(in);
            ret(cb, vp(v, cst(0, 64)));
        });
        on({"__v_undecided"}, [this](const CallBase& cb, std::vector<Val>& a) -> void { throw Unsupported{cstrAt(a[0])}; });
        on({"__v_havoc"}, [this](const CallBase& cb, std::vector<Val>& a) { havocRegion(a[0], concretize(a[1].e, "havoc size")); ret(cb, Val{}); });
        on({"__v_havoc_int"}, [this](const CallBase& cb, std::vector<Val>& a) { unsigned w = concretize(a[0].e, "w"); uint64_t mx = concretize(a[1].e, "mx"); E s = newSym("h", 64, std::min(mx, maskOf(w))); ret(cb, vi(s)); });
        // same text: both views are known to be the same bytes of the same object, or (concrete length) equal byte by byte
        on({"__v_same_text"}, [this](const CallBase& cb, std::vector<Val>& a) { // (p,n,q,m) -> bool term, never forks on contents
            E n = sb(a[1].e), m = sb(a[3].e);
            Val p = intToPtr(a[0]), q = intToPtr(a[2]);
            E le = eq(n, m);
            if (isK(le, 0)) { ret(cb, vi(zext(fls(), retW(cb)))); return; }
            E r;
            bool sameObj = p.k == Val::PTR && q.k == Val::PTR && p.obj == q.obj;
            if (isK(n) && isK(m)) r = bytesEq(p, q, n);
            else if (isK(n) || isK(m)) { if (!decide(le)) r = fls(); else { E k = isK(n) ? n : m; r = bytesEq(p, q, k); } }
            else if (sameObj) {
                E id = eq(sb(p.e), sb(q.e)); if (p.inst != q.inst) id = band(id, eq(sb(p.inst), sb(q.inst)));
                if (must(band(id, le))) r = tru();
                else { if (!decide(le)) r = fls(); else if (decide(bor(eq(n, cst(0, 64)), id))) r = tru(); else r = textEq(p, q, n); }
            } else { if (!decide(le)) r = fls(); else if (decide(eq(n, cst(0, 64)))) r = tru(); else r = textEq(p, q, n); }
            ret(cb, vi(zext(r, retW(cb))));
        });
        // --- memory
        on({"_Znwm", "_Znam", "malloc"}, [this](const CallBase& cb, std::vector<Val>& a) { ret(cb, vp(newObj(Obj::HEAP, sb(a[0].e), "heap"), cst(0, 64))); });
        on({"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"}, [this](const CallBase& cb, std::vector<Val>& a) {
            Val p = intToPtr(a[0]);
            if (p.k == Val::PTR) {
                ObjP o = getObj(p.obj);
                obligation(b2e(o && o->alive), "no double free", "memory");
                if (o->kind != Obj::HEAP) obligation(fls(), "only heap memory is freed", "memory");
                obligation(eq(p.e, cst(0, 64)), "free of the start of an allocation", "memory");
                o.reset();
                for (auto& a : cur->acts) if (a->ready && p.obj < a->mark) throw Unsupported{"a loop with an invariant frees memory allocated before it"};
                cur->mem.erase(p.obj); deadHeap.insert(p.obj);
            } else if (!(p.k == Val::INT && isK(sb(p.e), 0))) obligation(fls(), "only heap memory is freed", "memory");
            ret(cb, Val{});
        });
        on({"memcpy", "memmove"}, [this](const CallBase& cb, std::vector<Val>& a) { copyMem(a[0], a[1], sb(a[2].e)); ret(cb, a[0]); });
        on({"memset"}, [this](const CallBase& cb, std::vector<Val>& a) { setMem(a[0], sb(a[1].e), sb(a[2].e)); ret(cb, a[0]); });
        on({"memcmp", "bcmp"}, [this](const CallBase& cb, std::vector<Val>& a) {
            E n = sb(a[2].e); Val p = intToPtr(a[0]), q = intToPtr(a[1]);
            if (isK(n, 0)) { ret(cb, vk(0, 32)); return; }
            if (!isK(n)) {
                if (decide(eq(n, cst(0, 64)))) { ret(cb, vk(0, 32)); return; }
                // bounded by a small concrete object: enumerate the length
                uint64_t lim = 1000;
                for (auto* x : {&p, &q}) { ObjP o = x->k == Val::PTR ? getObj(x->obj) : nullptr; if (o && !o->opaque) { E s = sb(objSize(*o, x->inst)); if (isK(s)) lim = std::min(lim, s->c + 1); } }
                if (lim <= 130) { for (uint64_t i = 1; i < lim; ++i) if (decide(eq(n, cst(i, 64)))) { n = cst(i, 64); break; } }
            }
            rangeOk(p, n, "memcmp"); rangeOk(q, n, "memcmp");
            if (isK(n)) {
                E r = cst(0, 32);
                if (n->c > 4096) throw Unsupported{"long memcmp"};
                for (uint64_t i = n->c; i-- > 0;) { E x = byteAt(p, cst(i, 64)), y = byteAt(q, cst(i, 64)); r = ite(eq(x, y), r, ite(ult(x, y), cst(~0ull, 32), cst(1, 32))); }
                ret(cb, vi(r)); return;
            }
            if (p.k == Val::PTR && q.k == Val::PTR && p.obj == q.obj && must(band(eq(p.e, q.e), p.inst == q.inst ? tru() : eq(p.inst, q.inst)))) { ret(cb, vk(0, 32)); return; }
            E same = textEq(p, q, n);
            E sgn = ufApp(ufDecl("memcmp.lt", 1, 4), {idOf(p), ptrKey(p), idOf(q), ptrKey(q)});
            ret(cb, vi(ite(same, cst(0, 32), ite(sgn, cst(~0ull, 32), cst(1, 32)))));
        });
        on({"strlen"}, [this](const CallBase& cb, std::vector<Val>& a) {
            Val p = intToPtr(a[0]);
            if (p.k != Val::PTR) obligation(fls(), "no invalid pointer access (strlen)", "memory");
            ObjP o = getObj(p.obj);
            if (!o) obligation(fls(), "no access to a dead object (strlen)", "memory");
            if (o->top->k == Layer::SYMBYTES && o->top->cstr) { E len = o->top->hasInst ? sb(ufApp(o->top->lenUf, {sb(p.inst)})) : sb(o->top->cstrLen); obligation(bnot(ult(len, sb(p.e))), "access in bounds (strlen)", "memory"); ret(cb, vi(sub(len, sb(p.e)))); return; }
            E sz = objSize(*o, p.inst);
            for (uint64_t i = 0; i < 100000; ++i) { obligation(bnot(ult(sz, add(add(p.e, i), 1))), "access in bounds (strlen)", "memory"); E b = byteAt(p, cst(i, 64)); if (decide(eq(b, cst(0, 8)))) { ret(cb, vk(i, 64)); return; } }
            throw Unsupported{"strlen"};
        });
        on({"memchr"}, [this](const CallBase& cb, std::vector<Val>& a) {
            E n = sb(a[2].e); Val p = intToPtr(a[0]); E c = extract(sb(a[1].e), 0, 8);
            if (isK(n, 0)) { ret(cb, vk(0, 64)); return; }
            rangeOk(p, n, "memchr");
            if (isK(n)) { for (uint64_t i = 0; i < n->c; ++i) if (decide(eq(byteAt(p, cst(i, 64)), c))) { ret(cb, vp(p.obj, add(p.e, i), p.inst)); return; } ret(cb, vk(0, 64)); return; }
            // contract of memchr: r is the first position of c in [p,p+n), or n if there is none
            E r = firstOf(p, n, c);
            if (decide(eq(r, n))) { ret(cb, vk(0, 64)); return; }
            ret(cb, vp(p.obj, add(p.e, r), p.inst));
        });
        // --- exceptions
        on({"__cxa_allocate_exception"}, [this](const CallBase& cb, std::vector<Val>& a) { ret(cb, vp(newObj(Obj::EXC, sb(a[0].e), "exception"), cst(0, 64))); });
        on({"__cxa_free_exception"}, [this](const CallBase& cb, std::vector<Val>& a) { cur->mem.erase(a[0].obj); ret(cb, Val{}); });
        on({"__cxa_throw"}, [this](const CallBase& cb, std::vector<Val>& a) {
            auto* g = tiGlobal(cb.getArgOperand(1));
            std::string n = g ? g->getName().str() : "?";
            regExc(a[0], n);
            if (auto* df = dyn_cast<Function>(cb.getArgOperand(2)->stripPointerCasts())) { excDtors.push_back(df); cur->ghost["excd:" + std::to_string(a[0].obj)] = excDtors.size(); }
            throwExc(a[0], n);
        });
        on({"__cxa_begin_catch"}, [this](const CallBase& cb, std::vector<Val>& a) { ExcInfo x{a[0], excTypeOf(a[0]), 1}; cur->caught.push_back(x); ++cur->ghost["exch:" + std::to_string(a[0].obj)]; cur->ghost["exr:" + std::to_string(a[0].obj)] = 0; ret(cb, a[0]); });
        on({"__cxa_get_exception_ptr"}, [this](const CallBase& cb, std::vector<Val>& a) { ret(cb, a[0]); });
        on({"__cxa_end_catch"}, [this](const CallBase& cb, std::vector<Val>&) {
            if (cur->caught.empty()) { ret(cb, Val{}); return; }
            ExcInfo x = cur->caught.back(); cur->caught.pop_back();
            // the last handler of an exception that is not being rethrown destroys it
            std::string id = std::to_string(x.ptr.obj);
            if (--cur->ghost["exch:" + id] == 0 && !cur->ghost["exr:" + id])
                if (uint64_t k = cur->ghost["excd:" + id]; k && !excDtors[k - 1]->isDeclaration()) { pushFrame(excDtors[k - 1], {x.ptr}, &cb); return; }
            ret(cb, Val{});
        });
        on({"__cxa_rethrow"}, [this](const CallBase&, std::vector<Val>&) {
            if (cur->caught.empty()) throw Unsupported{"rethrow without exception"};
            ExcInfo x = cur->caught.back(); cur->ghost["exr:" + std::to_string(x.ptr.obj)] = 1; throwExc(x.ptr, x.ti);
        });
        on({"__clang_call_terminate"}, [this](const CallBase&, std::vector<Val>& a) { std::string t = excTypeOf(a[0]); obligation(fls(), "the process is not terminated (exception in noexcept: " + llvm::demangle(t) + ")", "terminate"); throw Kill{"terminate", true}; });
        on({"__cxa_guard_acquire"}, [this](const CallBase& cb, std::vector<Val>& a) { Val v = load(a[0], Type::getInt8Ty(M.getContext())); bool done = decide(bnot(eq(v.e, cst(0, 8)))); ret(cb, vk(done ? 0 : 1, 32)); });
        on({"__cxa_guard_release"}, [this](const CallBase& cb, std::vector<Val>& a) { store(a[0], vk(1, 8), Type::getInt8Ty(M.getContext())); ret(cb, Val{}); });
        on({"__cxa_guard_abort"}, [this](const CallBase& cb, std::vector<Val>&) { ret(cb, Val{}); });
    }
    std::set<uint32_t> deadHeap;
    std::vector<const Function*> excDtors;
    void regExc(const Val& p, const std::string& n) { excNames.push_back(n); cur->ghost["exc:" + std::to_string(p.obj)] = excNames.size() - 1; }
    std::string inName(const std::string& n) { auto k = cur->inNames[n]++; return k ? n + "#" + std::to_string(k) : n; } // n-th request of this name on this path
    const Input* oldInput(const std::string& n, Input::Kind k) { for (auto& x : inputs) if (x.name == n) { if (x.kind != k) throw Unsupported{"input name used twice: " + n}; return &x; } return nullptr; }
    E b1(const Val& v) { E c = sb(v.e); return c->w > 1 ? bnot(eq(c, cst(0, c->w))) : c; }
    unsigned retW(const CallBase& cb) { return width(cb.getType()); }
    E key64(const Val& v) { if (v.k == Val::INT) return v.e->w < 64 ? zext(sb(v.e), 64) : sb(v.e); if (v.k == Val::PTR) { if (v.inst) return add(mulK(sb(v.inst), 1ull << 33), v.e); return asInt(v); } return asInt(v); }
    E idOf(const Val& p) { E base = cst(p.obj, 64); return p.k == Val::PTR && p.inst ? add(mulK(sb(p.inst), 1 << 20), base) : base; }
    std::vector<E> textKey(const Val& p0, E len) { // identifies a piece of text: concrete short text by its bytes, otherwise by location
        Val p = intToPtr(p0);
        if (p.k != Val::PTR) { return {cst(0, 64)}; }
        if (isK(len) && len->c <= 64) {
            bool allK = true; std::string s;
            for (uint64_t i = 0; i < len->c && allK; ++i) { E b = byteAt(p, cst(i, 64)); if (!isK(b)) allK = false; else s += (char)b->c; }
            if (allK) { uint64_t h = 14695981039346656037ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return {cst(h, 64), cst(s.size(), 64)}; }
        }
        return {idOf(p), sb(p.e), sb(len)};
    }
    E textEq(const Val& p, const Val& q, E n) { // equality of two pieces of text of the same symbolic length (uninterpreted, symmetric)
        Val a = p, b = q;
        E ka = idOf(a), kb = idOf(b);
        if (ka->id > kb->id || (ka == kb && sb(a.e)->id > sb(b.e)->id)) std::swap(a, b);
        return sb(ufApp(ufDecl("text.eq", 1, 5), {idOf(a), sb(a.e), idOf(b), sb(b.e), n}));
    }
    E firstOf(Val p, E n, E c) {
        p.e = sb(p.e); if (p.inst) p.inst = sb(p.inst);
        E r = ufApp(ufDecl("first.of", 64, 4, 1ull << 40), {idOf(p), sb(p.e), n, zext(c, 64)});
        // r <= n ; r<n => byte(r)==c ; byte(0)==c <=> r==0 (n>0) ; the general "none before r" part is instantiated on demand by firstFact
        addPCchk(bnot(ult(n, r)));
        E atR = eq(byteAt(p, r), c);
        addPCchk(bor(eq(r, n), atR));
        E at0 = eq(byteAt(p, cst(0, 64)), c);
        addPCchk(bor(eq(n, cst(0, 64)), eq(at0, eq(r, cst(0, 64)))));
        NoneBefore f{p.obj, p.inst, sb(p.e), sb(r), sb(c)};
        bool known = false;
        for (auto& x : cur->nones) known |= x.obj == f.obj && x.inst == f.inst && x.base == f.base && x.r == f.r && x.c == f.c;
        if (!known) {
            cur->nones.push_back(f);
            auto rs = cur->reads;
            for (auto& x : rs) if (x.obj == f.obj && (x.inst == f.inst || (f.inst && x.inst && sb(f.inst) == sb(x.inst)))) instNone(f, x.off, byteAt(vp(x.obj, x.off, x.inst), cst(0, 64)));
        }
        return sb(r);
    }
    void addPCchk(E c) { // add a fact; keep the witness consistent
        c = sb(c);
        if (isK(c)) { if (!c->c) throw Kill{"infeasible fact", false}; return; }
        if (cur->wit && evalE(c, *cur->wit)) { addPC(c); return; }
        std::shared_ptr<Model> m; Sat r = S.check(cur->pc, c, &m);
        if (r == Sat::UNSAT) throw Kill{"infeasible fact", false};
        auto w = r == Sat::SAT ? mergeModel(cur->wit, m) : nullptr;
        addPC(c); cur->wit = w;
    }
