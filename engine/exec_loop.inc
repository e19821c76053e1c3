    // ---------------------------------------------------------------- loops, specification functions, main loop
    std::map<std::string, uint64_t> forkAt, boundedLoops; uint64_t unroll = 24; bool forkSelect = false;
    // --- loops with invariants
    bool useLoops = true; std::vector<std::unique_ptr<LoopSpec>> loopSpecs; std::map<const BasicBlock*, const LoopSpec*> specOf; std::set<const Function*> specDone;
    static std::string baseName(StringRef n) { std::string s = n.str(); if (s.size() > 5 && s.substr(s.size() - 5) == ".addr") s.resize(s.size() - 5); size_t p = s.find(".addr"); if (p != std::string::npos) s = s.substr(0, p); while (!s.empty() && (isdigit(s.back()) || s.back() == '.')) s.pop_back(); return s; }
    const LoopSpec* specFor(const Function* F, const BasicBlock* b) {
        if (specDone.insert(F).second) {
            const std::string& d = demName(F);
            for (auto& sp : loopSpecs) if (globMatch(d, sp->glob)) {
                std::vector<const BasicBlock*> hs;
                for (auto& bb : *F) { Loop* L = loops(F).getLoopFor(&bb); if (L && L->getHeader() == &bb) hs.push_back(&bb); }
                if (sp->n < hs.size()) { if (!specOf.count(hs[sp->n])) specOf[hs[sp->n]] = sp.get(); } else loopNote("no loop " + std::to_string(sp->n) + " in " + d.substr(0, 200));
            }
        }
        auto it = specOf.find(b);
        return it == specOf.end() ? nullptr : it->second;
    }
    std::set<std::string> loopNoteSet;
    void loopNote(const std::string& s) { if (loopNoteSet.insert(s).second) loopNotes.push_back(s); }
    void allocaUsers(const Value* v, std::vector<std::pair<const Instruction*, const Value*>>& out, int d = 0) {
        if (d > 6) return;
        for (auto* u : v->users()) if (auto* in = dyn_cast<Instruction>(u)) { out.push_back({in, v}); if (isa<GetElementPtrInst>(in) || isa<BitCastInst>(in)) allocaUsers(in, out, d + 1); }
    }
    // the variable of that name which the loop uses
    const AllocaInst* findVar(const Function* F, const Loop* L, const std::string& name) {
        const AllocaInst* any = nullptr;
        std::string want = baseName(name);
        for (auto& in : F->getEntryBlock()) if (auto* a = dyn_cast<AllocaInst>(&in)) {
            if (a->getName() == name && !any) any = a;
            if (baseName(a->getName()) != want) continue;
            std::vector<std::pair<const Instruction*, const Value*>> us; allocaUsers(a, us);
            for (auto& u : us) if (L->contains(u.first->getParent())) return a;
            if (!any) any = a;
        }
        return any;
    }
    bool specArgs(const LoopSpec* sp, const Loop* L, std::vector<Val>& args) {
        Frame& f = top();
        for (std::string v : sp->vars) {
            bool ind = false;
            if (v[0] == '*') { ind = true; v = v.substr(1); }
            if (v == "this") ind = true;
            const Value* a = findVar(f.F, L, v);
            if (!a) for (auto& ar : f.F->args()) if (ar.getType()->isPointerTy() && ar.getName() == v && ar.hasByValAttr()) a = &ar;
            if (!a) { loopNote("no variable " + v + " in " + demName(f.F).substr(0, 200)); return false; }
            Val p = get(a);
            if (p.k != Val::PTR) return false;
            if (ind) p = load(p, PointerType::get(M.getContext(), 0));
            args.push_back(p);
        }
        return sp->vars.size() + 1 == sp->fn->arg_size();
    }
    void pushSpec(const LoopSpec* sp, const Loop* L, unsigned phase, int stage) {
        std::vector<Val> args{vk(phase, 32)};
        specArgs(sp, L, args);
        pushFrame(sp->fn, args, nullptr);
        top().specDepth = stage;
    }
    LoopAct& act() { auto& p = cur->acts.back(); if (p.use_count() > 1) p = std::make_shared<LoopAct>(*p); return *p; }
    uint64_t pieceAt(uint32_t id, uint64_t off, uint64_t left) {
        uint64_t k = 8; while (k > left || (off % k)) k >>= 1;
        ObjP o = getObj(id);
        if (o && o->top->k == Layer::MAP) { auto it = o->top->cells.find(off); if (it != o->top->cells.end() && it->second.size <= k && !(it->second.size & (it->second.size - 1))) k = it->second.size; }
        return k;
    }
    bool mustAll(E c) {
        c = sb(c);
        if (c->op == AND && c->w == 1) return mustAll(c->kids[0]) && mustAll(c->kids[1]);
        if (c->op == NOT && c->kids[0]->op == OR && c->kids[0]->w == 1) return mustAll(bnot(c->kids[0]->kids[0])) && mustAll(bnot(c->kids[0]->kids[1]));
        bool r = must(c);
        if (!r && getenv("ARV_TRACE_FAIL")) traceInv(c);
        return r;
    }
    void havocRegion(Val p, uint64_t n) {
        p = intToPtr(p);
        if (p.k != Val::PTR || cur->acts.empty() || cur->acts.back()->ready) throw Unsupported{"havoc outside of a loop specification"};
        E off = sb(p.e);
        if (!isK(off)) throw Unsupported{"havoc of a symbolic address"};
        Region r{p.obj, off->c, n, {}, {}};
        bool done = act().ready; (void)done;
        for (uint64_t o = 0; o < n;) {
            uint64_t k = pieceAt(p.obj, off->c + o, n - o);
            Val q = vp(p.obj, cst(off->c + o, 64));
            Val v = load(q, IntegerType::get(M.getContext(), k * 8), "loop state");
            if (v.k == Val::PTR) v.e = newSym("lp", 64);
            else if (v.k == Val::INT) v = vi(newSym("lv", k * 8));
            r.shape.push_back(v); r.step.push_back(k);
            auto keep = cur->acts.back(); cur->acts.pop_back();   // the frame of this loop is what is being defined
            writeO(p.obj, q.e, k, v);
            cur->acts.push_back(keep);
            o += k;
        }
        keepRegion(r);
    }
    void keepRegion(const Region& r) { act().regs.push_back(r); }
    // inside a loop with an invariant only its declared state, its scratch variables and objects made since may change
    bool inSpec() { for (auto& f : cur->st) if (f->specDepth) return true; return false; }
    void loopWrite(uint32_t id, E off, E len) {
        for (auto& a : cur->acts) {
            if (!a->ready) continue;
            ObjP o = getObj(id);
            if (o && o->kind == Obj::GLOBAL && inSpec()) continue;   // ghost state of the harness
            if (id >= a->mark && o && o->kind != Obj::GLOBAL) continue;
            if (a->scratch.count(id)) continue;
            bool ok = false;
            for (auto& r : a->regs) if (r.obj == id) {
                if (isK(off) && isK(len)) ok |= off->c >= r.off && off->c + len->c <= r.off + r.len;
                else if (o && isK(o->size) && r.off == 0 && r.len >= o->size->c) ok = true;
            }
            if (!ok) throw Unsupported{"a loop with an invariant writes to something else (" + (o ? o->name : "?") + ")"};
        }
    }
    bool loopBlock(const BasicBlock* from, const BasicBlock* to) {
        Frame& f = top();
        while (!cur->acts.empty() && cur->acts.back()->frameUid == f.uid && !cur->acts.back()->L->contains(to)) cur->acts.pop_back();
        const LoopSpec* sp = specFor(f.F, to);
        if (!sp) return false;
        const Loop* L = loops(f.F).getLoopFor(to);
        if (!cur->acts.empty() && cur->acts.back()->frameUid == f.uid && cur->acts.back()->H == to) { // end of the arbitrary iteration
            for (auto& r : cur->acts.back()->regs) {
                uint64_t o = 0; size_t i = 0;
                while (o < r.len) {
                    uint64_t k = r.step[i];
                    Val v = load(vp(r.obj, cst(r.off + o, 64)), IntegerType::get(M.getContext(), k * 8), "loop state");
                    const Val& w = r.shape[i++];
                    if (v.k != w.k || (v.k == Val::PTR && (v.obj != w.obj || v.inst != w.inst))) { if (!(v.k == Val::INT && w.k == Val::INT)) throw Unsupported{"the loop state changes its shape"}; }
                    o += k;
                }
            }
            pushSpec(sp, L, 0, 4);
            return true;
        }
        std::vector<Val> args{vk(0, 32)};
        if (!specArgs(sp, L, args)) { loopNote("invariant not applicable in " + demName(f.F).substr(0, 200)); return false; }
        auto a = std::make_shared<LoopAct>();
        a->frameUid = f.uid; a->L = L; a->H = to; a->spec = sp;
        cur->acts.push_back(a);
        pushSpec(sp, L, 0, 1);
        return true;
    }
    void onFrameExit(Frame& f) { while (!cur->acts.empty() && cur->acts.back()->frameUid == f.uid) cur->acts.pop_back(); }
    bool onReturnHook(FrameP fp, const Val& r) {
        int stage = fp->specDepth;
        if (!stage) return false;
        const LoopSpec* sp = cur->acts.back()->spec; const Loop* L = cur->acts.back()->L;
        E inv = r.k == Val::INT ? bnot(eq(sb(r.e), cst(0, r.e->w))) : nullptr;
        std::string nm = demName(top().F); if (nm.size() > 200) nm = nm.substr(0, 200) + "...";
        if (stage == 1) {
            ++oblig; byLabel["loop invariant holds on entry: " + nm].first++;
            if (!mustAll(inv)) { throw Unsupported{"loop invariant not established: " + nm}; }
            ++discharged; byLabel["loop invariant holds on entry: " + nm].second++;
            pushSpec(sp, L, 1, 2);
        } else if (stage == 2) {
            // variables the loop uses as scratch have any value
            LoopAct& a = act();
            std::set<uint32_t> named; std::vector<Val> args; specArgs(sp, L, args); for (auto& v : args) if (v.k == Val::PTR) named.insert(v.obj);
            for (auto& in : top().F->getEntryBlock()) if (auto* al = dyn_cast<AllocaInst>(&in)) {
                Val p = get(al);
                if (p.k != Val::PTR || named.count(p.obj)) continue;
                std::vector<std::pair<const Instruction*, const Value*>> us; allocaUsers(al, us);
                bool mod = false;
                for (auto& u : us) if (L->contains(u.first->getParent())) {
                    if (isa<LoadInst>(u.first) || isa<GetElementPtrInst>(u.first) || isa<BitCastInst>(u.first) || isa<ICmpInst>(u.first)) continue;
                    if (auto* mt = dyn_cast<MemTransferInst>(u.first)) if (mt->getRawDest() != u.second) continue;
                    if (auto* st = dyn_cast<StoreInst>(u.first)) if (st->getPointerOperand() != u.second) continue; // its address is kept: writes through it are caught
                    mod = true;
                }
                if (!mod) continue;
                auto keep = cur->acts.back(); cur->acts.pop_back(); 
                loopWrite(p.obj, cst(0, 64), cst(1, 64));
                cur->acts.push_back(keep); keep.reset();
                Obj& o = objW(p.obj); o.top = std::make_shared<Layer>(); o.top->k = Layer::UNDEF;
                act().scratch.insert(p.obj);
            }
            act().mark = nextObj;
            pushSpec(sp, L, 0, 3);
        } else if (stage == 3) {
            addPCchk(inv);
            act().variant = r.e; act().ready = true; ++loopsCut;
            usedLoops.insert(nm);
        } else {
            ++oblig; byLabel["loop invariant is preserved: " + nm].first++; ++invCount;
            if (!mustAll(inv)) { throw Unsupported{"loop invariant not preserved: " + nm}; }
            if (!must(ult(sb(r.e), sb(cur->acts.back()->variant)))) { if (getenv("ARV_TRACE_FAIL")) traceInv(ult(sb(r.e), sb(cur->acts.back()->variant))); throw Unsupported{"loop variant does not decrease: " + nm}; }
            ++discharged; byLabel["loop invariant is preserved: " + nm].second++;
            throw Kill{"end of an arbitrary iteration", false};
        }
        return true;
    }
    void traceInv(E inv) {
        { std::shared_ptr<Model> mm; Sat r = S.check(cur->pc, bnot(inv), &mm); fprintf(stderr, "solver: %s\n", r == Sat::SAT ? "sat" : r == Sat::UNSAT ? "unsat" : "unknown"); }
        fprintf(stderr, "INVARIANT %s\n", str(sb(inv)).substr(0, 3000).c_str());
        for (E c : cur->pc) fprintf(stderr, "   pc %s\n", str(c).substr(0, 400).c_str());
    }
    std::set<std::string> usedLoops;
    void onBlock(const BasicBlock* from, const BasicBlock* to) {
        if (!loopSpecs.empty() && loopBlock(from, to)) return;
        Frame& f = top();
        uint64_t& v = f.visits[to];
        unsigned n = (v & 0xffffffff), sy = (v >> 32) & 0xff, lastF = v >> 40;
        ++n;
        if (n > 1 && (cur->forks & 0xffffff) != lastF) ++sy; // a decision on the input was needed since the last visit
        v = n | ((uint64_t)std::min(sy, 255u) << 32) | ((uint64_t)(cur->forks & 0xffffff) << 40);
        if (sy > unroll || n > maxVisits) {
            Loop* L = loops(f.F).getLoopFor(to);
            if (L) { // iterations beyond the bound are not explored; recorded and reported
                std::string nm = demName(f.F); if (nm.size() > 300) nm = nm.substr(0, 300) + "...";
                ++boundedLoops[(sy > unroll ? std::to_string(unroll) : std::to_string(maxVisits)) + " iterations of a loop in " + nm];
                throw Kill{"loop bound", true};
            }
        }
    }
    bool onUnwindHook(FrameP) { return false; }
    void callSpec(const CallBase& cb, const Function* f, std::vector<Val>& args) { pushFrame(f, args, &cb); }

    void runState(StateP s) {
        cur = s;
        while (true) {
            if (stop) return;
            StateP backup;
            try { step(); }
            catch (ForkReq& fr) {
                // both outcomes possible
                ++forks; ++cur->forks;
                if (getenv("ARV_FORKS")) { auto st = stackTrace(); std::string k = where(); for (size_t i = 0; i < st.size() && i < 6; ++i) k += "\n      " + st[i].substr(0, 110); forkAt[k + "\n    " + str(sb(fr.cond)).substr(0, 600)]++; }
                std::shared_ptr<Model> mt, mf;
                int r = tri(fr.cond, &mt, &mf);
                if (r != 2) continue; // became implied
                auto other = std::make_shared<State>(*cur);
                // explore the true side now, queue the false side
                addPC(fr.cond); cur->wit = mt;
                auto keep = cur; cur = other;
                addPC(bnot(fr.cond)); cur->wit = mf;
                work.push_back(cur);
                cur = keep;
            }
        }
    }
    void explore(std::vector<StateP> init) {
        std::vector<StateP> saved = std::move(work);
        work = std::move(init);
        while (!work.empty() && !stop) {
            if (pool && work.size() >= 2) maybeFork();
            StateP s = work.back(); work.pop_back();
            try { runState(s); }
            catch (Kill& k) { ++paths; if (getenv("ARV_PATHS")) fprintf(stderr, "path end: %s steps %llu forks %u pc %zu\n", k.why.c_str(), (unsigned long long)cur->steps, cur->forks, cur->pc.size()); }
            catch (Unsupported& u) {
                ++paths;
                std::string w = u.what + " in " + where();
                { unsup.push_back(w); if (getenv("ARV_TRACE_FAIL")) { fprintf(stderr, "UNSUPPORTED %s\n", w.c_str()); for (auto& q : stackTrace()) fprintf(stderr, "    at %s\n", q.c_str()); } if (unsup.size() > 20) stop = true; }
            }
            if (elapsed() > budget) { unsup.push_back("time budget exhausted"); stop = true; }
        }
        work = std::move(saved);
    }
    // ---------------------------------------------------------------- work sharing between processes
    std::atomic<int>* pool = nullptr; int poolMax = 8; bool isChild = false;
    void maybeFork() {
        int a = pool->load();
        if (a >= poolMax || !pool->compare_exchange_strong(a, a + 1)) return;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) { pool->fetch_sub(1); return; }
        // the older states (bigger sub-trees) are shared out alternately
        std::vector<StateP> mine;
        for (size_t i = 0; i < work.size(); ++i) if ((i % 2 == 0) == (pid == 0)) mine.push_back(std::move(work[i]));
        work = std::move(mine);
        if (pid == 0) {
            isChild = true;
            paths = steps = oblig = discharged = trivial = memObl = memTriv = memIv = undecided = forks = undefs = ivHits = 0;
            byLabel.clear(); covers.clear(); fails.clear(); unsup.clear(); boundedLoops.clear(); forkAt.clear(); failCount.clear();
            S.secs = 0; S.queries = 0; S.cacheHits = 0; S.unknowns = 0; S.slowest = 0;
        }
    }
    void runCtors() {
        auto* g = M.getGlobalVariable("llvm.global_ctors");
        if (!g || !g->hasInitializer()) return;
        auto* a = dyn_cast<ConstantArray>(g->getInitializer());
        if (!a) return;
        std::vector<std::pair<uint64_t, const Function*>> fs;
        for (auto& o : a->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
        std::stable_sort(fs.begin(), fs.end(), [](auto& x, auto& y) { return x.first < y.first; });
        ctors.clear(); for (auto& p : fs) ctors.push_back(p.second);
    }
    std::vector<const Function*> ctors; uint64_t loopsCut = 0, invCount = 0; std::vector<std::string> loopNotes;
    void runMain(const Function* f) {
        auto s = std::make_shared<State>();
        s->wit = std::make_shared<Model>();
        cur = s;
        runCtors();
        for (auto* c : ctors) {
            pushFrame(c, {}, nullptr);
            try { while (true) step(); }
            catch (Kill& k) { if (k.why != "end") { unsup.push_back("static initialisation failed: " + k.why); return; } }
            catch (ForkReq&) { unsup.push_back("static initialisation forks"); return; }
            catch (Unsupported& u) { unsup.push_back("static initialisation: " + u.what + " in " + where()); return; }
        }
        cur->st.clear();
        pushFrame(f, {}, nullptr);
        explore({cur});
    }
