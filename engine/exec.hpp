// Symbolic executor / VC generator over LLVM IR.
#pragma once
#include "state.hpp"
#include <functional>
#include <llvm/ADT/APFloat.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <atomic>
#include <deque>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace arv {
using namespace llvm;

struct ForkReq { E cond; };
struct Kill { std::string why; bool bad; };            // path ends
struct Unsupported { std::string what; };

struct Failure { std::string label, kind, where; std::vector<std::string> stack; std::shared_ptr<Model> model; std::vector<E> pc; E neg; std::string inputs; bool replayable = true; };

struct Input { enum Kind { INT_, BYTES, TOKENS, CSTRS } kind; std::string name; E n = nullptr; unsigned w = 0; unsigned ufB = 0, ufLen = 0, ufPre = 0; };

struct LoopKey { const Function* f; const BasicBlock* h; bool operator<(const LoopKey& o) const { return f != o.f ? f < o.f : h < o.h; } };
struct FnInfo { DenseMap<const Value*, unsigned> slot; unsigned n = 0; std::unique_ptr<DominatorTree> dt; std::unique_ptr<LoopInfo> li; std::string dem; const Function* repl = nullptr; bool resolved = false; bool spec = false; };

// a loop annotated with an invariant: the specification function is called with the addresses of the named variables
struct LoopSpec { std::string glob; unsigned n; std::vector<std::string> vars; const Function* fn; };
struct Region { uint32_t obj; uint64_t off, len; std::vector<Val> shape; std::vector<uint64_t> step; };
// an active loop cut of one path: the loop body is being executed once from an arbitrary state that satisfies the invariant
struct LoopAct { uint32_t frameUid; const Loop* L; const BasicBlock* H; const LoopSpec* spec; bool ready = false; std::vector<Region> regs; std::set<uint32_t> scratch; uint32_t mark = 0; E variant = nullptr; };

struct Engine {
    Module& M; const DataLayout& DL; Solver S;
    std::map<const Function*, FnInfo> fi;
    std::vector<const Function*> fnById; std::map<const Function*, uint32_t> fnId;
    std::unordered_map<const GlobalVariable*, uint32_t> gId; std::unordered_map<uint32_t, const GlobalVariable*> gOf;
    std::unordered_map<uint32_t, ObjP> constMem; // constant globals, shared
    std::vector<StateP> work;
    StateP cur;
    uint32_t nextObj = 1, nextFrame = 1, nextInst = 0;
    std::deque<Input> inputs;
    std::vector<std::pair<std::string, const Function*>> repls;
    std::set<const Function*> specFns;
    // statistics
    uint64_t paths = 0, steps = 0, oblig = 0, discharged = 0, trivial = 0, memObl = 0, memTriv = 0, undecided = 0, forks = 0, undefs = 0;
    std::map<std::string, std::pair<uint64_t, uint64_t>> byLabel; // label -> (obligations, discharged)
    std::map<std::string, uint64_t> covers; std::set<std::string> coverNames;
    std::map<std::string, uint64_t> usedExt, usedContracts; std::set<std::string> fnsEntered;
    std::vector<Failure> fails; std::map<std::string, int> failCount; std::vector<std::string> unsup;
    unsigned maxFails = 3; uint64_t maxPaths = 2000000; double budget = 1e9; bool trace = false; uint64_t maxVisits = 400;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    bool tentative = false; // inside an invariant search: assertions are not recorded
    bool stop = false;
    std::set<std::string> cutNames; std::map<std::string, unsigned> unrollHit;
    unsigned unrollLimit = 12; bool boundedHit = false;
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    explicit Engine(Module& m) : M(m), DL(m.getDataLayout()) {}

    // ---------------------------------------------------------------- decisions
    E sb(E e) { // rewrite under the known bindings
        if (!e->hasSym || cur->bind.empty()) return e;
        return substRec(e, cur->bind, cur->memo);
    }
    void bindTo(E a, E b) { cur->bind[a] = b; cur->memo.clear(); }
    void addPC(E c) {
        c = sb(c);
        if (isK(c)) { if (!c->c) throw Kill{"infeasible", false}; return; }
        if (c->op == AND && c->w == 1) { addPC(c->kids[0]); addPC(c->kids[1]); return; }
        if (c->op == NOT && c->kids[0]->op == OR) { addPC(bnot(c->kids[0]->kids[0])); addPC(bnot(c->kids[0]->kids[1])); return; }
        cur->pc.push_back(c);
        ivLearn(c);
        if (c->op == NOT) bindTo(c->kids[0], fls()); else bindTo(c, tru());
        if (c->op == EQ) {
            E a = c->kids[0], b = c->kids[1];
            if (isK(a)) std::swap(a, b);
            if (isK(b) && (a->op == SYM || a->op == UF)) bindTo(a, b);
            else if (isK(b, 0) && a->op == LIN) { // solve for a term with unit coefficient: x = -(rest)
                // only for differences of two atoms plus a constant
                int pick = -1;
                for (size_t i = 0; i < a->kids.size(); ++i) { E k = a->kids[i]; uint64_t co = a->coef[i]; if ((k->op == SYM || k->op == UF) && (co == 1 || co == maskOf(a->w))) pick = (int)i; }
                if (pick >= 0 && a->kids.size() <= 2) {
                    E x = a->kids[pick]; E rest = sub(a, mulK(x, a->coef[pick]));
                    E v = a->coef[pick] == 1 ? mulK(rest, ~0ull) : rest;
                    std::set<E> seen; std::vector<E> stk{v}; bool occ = false;
                    while (!stk.empty()) { E q = stk.back(); stk.pop_back(); if (q == x) occ = true; if (seen.insert(q).second) for (E k : q->kids) stk.push_back(k); }
                    if (!occ) bindTo(x, v);
                }
            }
        }
    }
    std::shared_ptr<Model> mergeModel(const std::shared_ptr<Model>& base, const std::shared_ptr<Model>& over) {
        if (!base) return nullptr;
        if (!over) return base;
        auto m = std::make_shared<Model>(*base);
        for (auto& p : over->sym) m->sym[p.first] = p.second;
        for (auto& p : over->uf) m->uf[p.first] = p.second;
        return m;
    }
    // 1: must be true, 0: must be false, 2: both possible
    int tri(E c, std::shared_ptr<Model>* mTrue = nullptr, std::shared_ptr<Model>* mFalse = nullptr) {
        c = sb(c);
        if (isK(c)) return c->c ? 1 : 0;
        if (useIv) { int q = ivDecide(c); if (q != 2) { E p = c->op == NOT ? c->kids[0] : c; bindTo(p, (q == 1) == (c->op != NOT) ? tru() : fls()); return q; } }
        bool haveW = (bool)cur->wit, wv = haveW && evalE(c, *cur->wit);
        std::shared_ptr<Model> mt, mf;
        bool canT = haveW && wv, canF = haveW && !wv;
        if (!canT) { Sat r = S.check(cur->pc, c, &mt); canT = r != Sat::UNSAT; if (!canT) { bindTo(c, fls()); if (c->op == NOT) bindTo(c->kids[0], tru()); return 0; } if (mTrue) *mTrue = r == Sat::SAT ? mergeModel(cur->wit, mt) : nullptr; }
        else if (mTrue) *mTrue = cur->wit;
        if (!canF) { Sat r = S.check(cur->pc, bnot(c), &mf); canF = r != Sat::UNSAT; if (!canF) { if (c->op == NOT) bindTo(c->kids[0], fls()); else bindTo(c, tru()); return 1; } if (mFalse) *mFalse = r == Sat::SAT ? mergeModel(cur->wit, mf) : nullptr; }
        else if (mFalse) *mFalse = cur->wit;
        return 2;
    }
    void known(E c) { if (c->op == NOT) bindTo(c->kids[0], fls()); else bindTo(c, tru()); } // implied by the path condition
    bool must(E c) { return tri(c) == 1; }
    bool decide(E c) {
        c = sb(c);
        if (isK(c)) return c->c;
        int r = tri(c);
        if (r != 2) return r;
        throw ForkReq{c};
    }
    uint64_t concretize(E e, const char* what) { // value must be determined (forks on the witness value otherwise)
        e = sb(e);
        if (isK(e)) return e->c;
        if (!cur->wit) throw Unsupported{std::string("concretise without witness: ") + what};
        uint64_t v = evalE(e, *cur->wit);
        E c = eq(e, cst(v, e->w));
        if (decide(c)) return v;
        throw Unsupported{std::string("concretise ") + what};
    }
    // ---------------------------------------------------------------- objects
    ObjP getObj(uint32_t id) {
        auto it = cur->mem.find(id);
        if (it != cur->mem.end()) return it->second;
        auto ic = constMem.find(id);
        if (ic != constMem.end()) return ic->second;
        auto g = gOf.find(id);
        if (g != gOf.end()) return initGlobal(id, g->second);
        return nullptr;
    }
    Obj& objW(uint32_t id) {
        auto it = cur->mem.find(id);
        if (it == cur->mem.end()) { getObj(id); it = cur->mem.find(id); if (it == cur->mem.end()) throw Unsupported{"write to constant object"}; }
        if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
        return *it->second;
    }
    uint32_t newObj(Obj::Kind k, E size, const std::string& name, Layer::Kind base = Layer::UNDEF) {
        auto o = std::make_shared<Obj>();
        o->kind = k; o->size = size; o->name = name;
        o->top = std::make_shared<Layer>(); o->top->k = base;
        uint32_t id = nextObj++;
        cur->mem[id] = o;
        return id;
    }
    uint32_t globalId(const GlobalVariable* g) {
        auto it = gId.find(g);
        if (it != gId.end()) return it->second;
        uint32_t id = nextObj++;
        gId[g] = id; gOf[id] = g;
        return id;
    }
    uint32_t functionId(const Function* f) {
        auto it = fnId.find(f);
        if (it != fnId.end()) return it->second;
        fnById.push_back(f); return fnId[f] = fnById.size() - 1;
    }
    ObjP initGlobal(uint32_t id, const GlobalVariable* g) {
        auto o = std::make_shared<Obj>();
        o->kind = Obj::GLOBAL; o->name = g->getName().str(); o->ro = g->isConstant();
        uint64_t sz = DL.getTypeAllocSize(g->getValueType());
        o->size = cst(sz, 64);
        auto base = std::make_shared<Layer>(); base->k = Layer::ZERO;
        if (!g->hasInitializer()) { base->k = Layer::UNDEF; o->opaque = true; o->top = base; }
        else {
            auto m = std::make_shared<Layer>(); m->k = Layer::MAP; m->prev = base;
            initConst(*m, 0, g->getInitializer());
            o->top = m;
        }
        if (o->ro) constMem[id] = o; else cur->mem[id] = o;
        return o;
    }
    void initConst(Layer& m, uint64_t off, const Constant* c) {
        Type* t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
        if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
            uint64_t es = DL.getTypeAllocSize(ds->getElementType());
            for (unsigned i = 0; i < ds->getNumElements(); ++i) {
                uint64_t v = ds->getElementType()->isIntegerTy() ? ds->getElementAsInteger(i) : ds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
                m.cells[off + i * es] = Cell{(uint32_t)es, vk(v, es * 8)};
            }
            return;
        }
        if (auto* ca = dyn_cast<ConstantArray>(c)) {
            uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType());
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(m, off + i * es, ca->getOperand(i));
            return;
        }
        if (auto* cs = dyn_cast<ConstantStruct>(c)) {
            auto* sl = DL.getStructLayout(cs->getType());
            for (unsigned i = 0; i < cs->getNumOperands(); ++i) initConst(m, off + sl->getElementOffset(i), cs->getOperand(i));
            return;
        }
        uint64_t s = DL.getTypeStoreSize(t);
        Val v = constVal(c);
        if (v.k == Val::INT && v.e->w != s * 8) v.e = zext(v.e, s * 8);
        m.cells[off] = Cell{(uint32_t)s, v};
    }
    // ---------------------------------------------------------------- constants
    Val constVal(const Constant* c) {
        Type* t = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) throw Unsupported{"wide int constant"}; throw Unsupported{"i128"}; } return vk(ci->getZExtValue(), ci->getBitWidth()); }
        if (isa<ConstantPointerNull>(c)) return vk(0, 64);
        if (auto* cf = dyn_cast<ConstantFP>(c)) return vk(cf->getValueAPF().bitcastToAPInt().getZExtValue(), DL.getTypeSizeInBits(t));
        if (isa<UndefValue>(c)) return undefVal(t);
        if (auto* g = dyn_cast<GlobalVariable>(c)) return vp(globalId(g), cst(0, 64));
        if (auto* f = dyn_cast<Function>(c)) return vfn(functionId(f));
        if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
        if (isa<ConstantAggregateZero>(c)) return zeroVal(t);
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (auto& op : ca->operands()) v.push_back(constVal(cast<Constant>(op))); return vagg(v); }
        if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ds->getNumElements(); ++i) v.push_back(constVal(ds->getElementAsConstant(i))); return vagg(v); }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                Val b = constVal(ce->getOperand(0));
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) throw Unsupported{"const gep"};
                return ptrAdd(b, cst(off.getZExtValue(), 64));
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
            case Instruction::Trunc: return vi(extract(asInt(constVal(ce->getOperand(0))), 0, t->getIntegerBitWidth()));
            case Instruction::Sub: case Instruction::Add: { E a = asInt(constVal(ce->getOperand(0))), b = asInt(constVal(ce->getOperand(1))); return vi(ce->getOpcode() == Instruction::Add ? add(a, b) : sub(a, b)); }
            default: throw Unsupported{std::string("constexpr ") + ce->getOpcodeName()};
            }
        }
        throw Unsupported{"constant kind"};
    }
    Val zeroVal(Type* t) {
        if (t->isIntegerTy()) return vk(0, t->getIntegerBitWidth());
        if (t->isPointerTy()) return vk(0, 64);
        if (t->isFloatingPointTy()) return vk(0, DL.getTypeSizeInBits(t));
        std::vector<Val> v;
        if (auto* s = dyn_cast<StructType>(t)) for (auto* e : s->elements()) v.push_back(zeroVal(e));
        else if (auto* a = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < a->getNumElements(); ++i) v.push_back(zeroVal(a->getElementType()));
        else throw Unsupported{"zero of type"};
        return vagg(v);
    }
    Val undefVal(Type* t) {
        if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) { undefs++; return vi(newSym("undef", t->isPointerTy() ? 64 : (unsigned)DL.getTypeSizeInBits(t))); }
        std::vector<Val> v;
        if (auto* s = dyn_cast<StructType>(t)) for (auto* e : s->elements()) v.push_back(undefVal(e));
        else if (auto* a = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < a->getNumElements(); ++i) v.push_back(undefVal(a->getElementType()));
        else throw Unsupported{"undef of type"};
        return vagg(v);
    }
    static constexpr uint64_t OBJ_SHIFT = 36;
    E asInt(const Val& v) { // address of pointers when an integer is really needed
        if (v.k == Val::INT) return v.e;
        if (v.k == Val::PTR) return add(cst(((uint64_t)v.obj + 16) << OBJ_SHIFT, 64), v.e);
        if (v.k == Val::FN) return cst((7ull << 60) + ((uint64_t)v.obj << 4), 64);
        throw Unsupported{"asInt"};
    }
    Val ptrAdd(const Val& p, E off) {
        if (p.k == Val::PTR) return vp(p.obj, add(p.e, off), p.inst);
        if (p.k == Val::INT) return vi(add(p.e, off));
        if (p.k == Val::FN) { if (isK(off, 0)) return p; return vi(add(asInt(p), off)); }
        throw Unsupported{"ptrAdd"};
    }
    Val intToPtr(const Val& v) {
        if (v.k != Val::INT) return v;
        E e = sb(v.e);
        if (isK(e) && e->c >= (16ull << OBJ_SHIFT) && e->c < (7ull << 60)) {
            uint32_t o = (e->c >> OBJ_SHIFT) - 16;
            if (getObj(o)) return vp(o, cst(e->c & ((1ull << OBJ_SHIFT) - 1), 64));
        }
        if (isK(e) && e->c >= (7ull << 60) && ((e->c - (7ull << 60)) >> 4) < fnById.size()) return vfn((e->c - (7ull << 60)) >> 4);
        return v;
    }
    // ---------------------------------------------------------------- memory contents
    E objSize(const Obj& o, E inst) { return o.sizeByInst ? add(ufApp(o.sizeUf, {sb(inst)}), cst(o.sizeAdd, 64)) : o.size; }

    Val cellSlice(const Cell& c, uint64_t from, uint32_t size) {
        if (from == 0 && size == c.size) return c.v;
        if (c.v.k == Val::INT) return vi(extract(c.v.e, from * 8, size * 8));
        if (c.v.k == Val::PTR || c.v.k == Val::FN) { E a = asInt(c.v); return vi(extract(a, from * 8, size * 8)); }
        throw Unsupported{"slice of non-integer cell"};
    }
    Val readL(LayerP l, E off, uint32_t size, E inst, bool isPtr) {
        off = sb(off);
        while (true) {
            switch (l->k) {
            case Layer::UNDEF: undefs++; return vi(newSym("undef", size * 8));
            case Layer::ZERO: return vk(0, size * 8);
            case Layer::SYMBYTES: {
                E r = nullptr;
                for (uint32_t i = 0; i < size; ++i) {
                    E o = sb(add(off, i));
                    E b = l->hasInst ? ufApp(l->uf, {sb(inst), o}) : ufApp(l->uf, {o});
                    if (l->cstr) {
                        E len = l->hasInst ? ufApp(l->lenUf, {sb(inst)}) : l->cstrLen;
                        b = ite(eq(b, cst(0, 8)), cst(1, 8), b);
                        b = ite(eq(o, sb(len)), cst(0, 8), b);
                    }
                    b = sb(b);
                    r = r ? concat(b, r) : b;
                }
                return vi(r);
            }
            case Layer::SYMSTRUCT: {
                E idx; uint64_t f;
                splitStride(off, l->stride, idx, f);
                for (auto& fd : l->fields) {
                    if (fd.cval >= 0 && f == fd.off && size == fd.size) return vk(fd.cval, size * 8);
                    if (f == fd.off && size == fd.size) {
                        if (fd.isPtr) return vp(fd.textObj, cst(0, 64), idx);
                        return vi(sb(ufApp(fd.uf, {idx})));
                    }
                    if (f >= fd.off && f + size <= fd.off + fd.size && !fd.isPtr) return vi(extract(ufApp(fd.uf, {idx}), (f - fd.off) * 8, size * 8));
                }
                undefs++; return vi(newSym("pad", size * 8));
            }
            case Layer::MAP: {
                if (isK(off)) {
                    uint64_t o = off->c;
                    auto it = l->cells.upper_bound(o + size - 1);
                    bool any = false, full = false;
                    if (it != l->cells.begin()) {
                        auto jt = std::prev(it);
                        uint64_t co = jt->first, cs = jt->second.size;
                        if (co == o && cs == size) return jt->second.v;
                        if (co <= o && co + cs >= o + size) return cellSlice(jt->second, o - co, size);
                        any = co + cs > o && co < o + size;
                        full = false;
                        (void)full;
                    }
                    if (!any) { l = l->prev; continue; }
                    // assemble byte by byte (from pieces where possible)
                    E r = nullptr;
                    uint32_t i = 0;
                    while (i < size) {
                        auto kt = l->cells.upper_bound(o + i);
                        Val piece; uint32_t n = 1;
                        bool hit = false;
                        if (kt != l->cells.begin()) {
                            auto pt = std::prev(kt);
                            if (pt->first + pt->second.size > o + i) {
                                n = std::min<uint64_t>(size - i, pt->first + pt->second.size - (o + i));
                                piece = cellSlice(pt->second, o + i - pt->first, n); hit = true;
                            }
                        }
                        if (!hit) piece = readL(l->prev, cst(o + i, 64), 1, inst, false);
                        if (piece.k != Val::INT) piece = vi(asInt(piece));
                        r = r ? concat(piece.e, r) : piece.e;
                        i += n;
                    }
                    return vi(r);
                }
                if (l->cells.empty()) { l = l->prev; continue; }
                // symbolic offset over a map layer
                {
                    bool uniform = true; size_t cnt = 0;
                    std::vector<std::pair<uint64_t, const Cell*>> cand;
                    for (auto& p : l->cells) {
                        if (p.first > off->maxv || p.first + p.second.size > off->maxv + size + (1ull << 20)) { if (p.first > off->maxv) break; }
                        if (p.second.size != size || p.second.v.k != Val::INT) uniform = false;
                        cand.push_back({p.first, &p.second}); ++cnt;
                    }
                    if (uniform && cnt <= 300) {
                        Val below; bool haveBelow = false;
                        // every possible offset must be one of the cells or be resolved below
                        E anyEq = fls();
                        for (auto& c : cand) anyEq = bor(anyEq, eq(off, cst(c.first, 64)));
                        if (!must(anyEq)) {
                            // maybe disjoint altogether
                            E dis = tru();
                            for (auto& c : cand) dis = band(dis, disjoint(off, size, cst(c.first, 64), cst(c.second->size, 64)));
                            if (must(dis)) { l = l->prev; goto next; }
                            if (decide(dis)) { l = l->prev; goto next; }
                            if (!decide(anyEq)) throw Unsupported{"misaligned symbolic read"};
                        }
                        (void)below; (void)haveBelow;
                        E r = nullptr;
                        for (auto& c : cand) { E v = c.second->v.e; r = r ? ite(eq(off, cst(c.first, 64)), v, r) : v; }
                        return vi(sb(r));
                    }
                    // otherwise fork over the cells
                    for (auto& c : cand) {
                        E same = eq(off, cst(c.first, 64));
                        if (c.second->size == size) { if (decide(same)) return c.second->v; }
                        E dj = disjoint(off, size, cst(c.first, 64), cst(c.second->size, 64));
                        if (!decide(dj)) { uint64_t v = concretize(off, "symbolic read offset"); off = cst(v, 64); goto next; }
                    }
                    l = l->prev; continue;
                }
                next:;
                continue;
            }
            case Layer::SSTORE: {
                E same = eq(off, l->off);
                if (l->size == size) { if (decide(same)) return l->v; if (alignedApart(off, l->off, size)) { l = l->prev; continue; } }
                E dj = sb(disjoint(off, size, l->off, cst(l->size, 64)));
                if (isK(dj, 1)) { l = l->prev; continue; }
                E d = sb(sub(off, l->off));
                if (isK(d) && (int64_t)d->c >= 0 && d->c + size <= l->size) return cellSlice(Cell{l->size, l->v}, d->c, size);
                if (l->size == 1 && l->v.k == Val::INT && size > 1) { // patch the byte in
                    if (must(dj)) { l = l->prev; continue; }
                    Val below = readL(l->prev, off, size, inst, isPtr);
                    if (below.k != Val::INT) { if (decide(dj)) return below; below = vi(asInt(below)); }
                    E r = nullptr;
                    for (uint32_t i = 0; i < size; ++i) { E b = ite(eq(add(off, i), l->off), l->v.e, extract(below.e, i * 8, 8)); r = r ? concat(b, r) : b; }
                    return vi(sb(r));
                }
                if (decide(dj)) { l = l->prev; continue; }
                throw Unsupported{"partial overlap with symbolic store"};
            }
            case Layer::COPY: case Layer::SET: {
                E d = sub(off, l->off);
                // inside:  off >= dst and off+size <= dst+len
                E ge = bnot(ult(off, l->off));
                E fits = bnot(ult(add(l->off, l->len), add(off, size)));
                E in = band(ge, fits);
                if (decide(in)) {
                    if (l->k == Layer::SET) { E b = extract(l->v.e, 0, 8), r = b; for (uint32_t i = 1; i < size; ++i) r = concat(b, r); return vi(r); }
                    off = sb(add(d, l->srcOff)); inst = l->srcInst; l = l->src; continue;
                }
                if (decide(disjoint(off, size, l->off, l->len))) { l = l->prev; continue; }
                if (size == 1) throw Unsupported{"copy boundary"};
                E r = nullptr;
                for (uint32_t i = 0; i < size; ++i) { Val b = readL(l, add(off, i), 1, inst, false); if (b.k != Val::INT) throw Unsupported{"bytes of pointer"}; r = r ? concat(b.e, r) : b.e; }
                return vi(r);
            }
            }
        }
    }
    bool alignedApart(E a, E b, uint32_t size) { // both on a stride that is a multiple of size => different means disjoint
        E d = sub(a, b);
        if (d->op != LIN) return false;
        if (d->c % size) return false;
        for (uint64_t k : d->coef) if ((uint64_t)std::llabs(sext64(k, 64)) % size) return false;
        return true;
    }
    E disjoint(E a, uint64_t as, E b, E bs) { // [a,a+as) and [b,b+bs)
        return bor(bnot(ult(b, add(a, as))), bnot(ult(a, add(b, bs))));
    }
    void splitStride(E off, uint64_t stride, E& idx, uint64_t& f) {
        off = sb(off);
        if (isK(off)) { idx = cst(off->c / stride, 64); f = off->c % stride; return; }
        Lin l{64}; uint64_t c = 0;
        auto one = [&](E t, uint64_t co) { int64_t k = (int64_t)co; if (k % (int64_t)stride) return false; linAdd(l, t, (uint64_t)(k / (int64_t)stride)); return true; };
        bool ok = true;
        if (off->op == LIN) { for (size_t i = 0; i < off->kids.size(); ++i) ok &= one(off->kids[i], off->coef[i]); c = off->c; }
        else ok = one(off, 1);
        if (!ok) throw Unsupported{"unstructured offset into array of structures: " + str(off)};
        int64_t sc = (int64_t)c; int64_t q = sc / (int64_t)stride, r = sc % (int64_t)stride;
        if (r < 0) { r += stride; q -= 1; }
        l.c = (uint64_t)q; f = r; idx = sb(linMk(l));
    }
    static LayerP ownTop(Obj& o) {
        if (o.top->k == Layer::MAP) {
            if (o.top.use_count() > 1) o.top = std::make_shared<Layer>(*o.top);
            return o.top;
        }
        auto m = std::make_shared<Layer>(); m->k = Layer::MAP; m->prev = o.top; o.top = m;
        return m;
    }
    static void eraseRange(Layer& m, uint64_t off, uint64_t len, Engine* en) {
        if (!len) return;
        auto it = m.cells.lower_bound(off);
        if (it != m.cells.begin()) {
            auto pt = std::prev(it);
            if (pt->first + pt->second.size > off) { // split
                Cell c = pt->second; uint64_t co = pt->first;
                m.cells.erase(pt);
                if (co < off) for (uint64_t i = 0; i < off - co; ++i) m.cells[co + i] = Cell{1, en->cellSlice(c, i, 1)};
                uint64_t e = off + len;
                if (co + c.size > e) for (uint64_t i = e - co; i < c.size; ++i) m.cells[co + i] = Cell{1, en->cellSlice(c, i, 1)};
            }
        }
        it = m.cells.lower_bound(off);
        while (it != m.cells.end() && it->first < off + len) {
            Cell c = it->second; uint64_t co = it->first;
            it = m.cells.erase(it);
            uint64_t e = off + len;
            if (co + c.size > e) { for (uint64_t i = e - co; i < c.size; ++i) m.cells[co + i] = Cell{1, en->cellSlice(c, i, 1)}; break; }
        }
    }
    void writeO(uint32_t id, E off, uint32_t size, const Val& v) {
        off = sb(off);
        if (!cur->acts.empty()) loopWrite(id, off, cst(size, 64));
        Obj& o = objW(id);
        if (isK(off)) {
            LayerP m = ownTop(o);
            auto it = m->cells.find(off->c);
            if (it != m->cells.end() && it->second.size == size) { it->second.v = v; return; }
            eraseRange(*m, off->c, size, this);
            m->cells[off->c] = Cell{size, v};
            return;
        }
        auto l = std::make_shared<Layer>(); l->k = Layer::SSTORE; l->prev = o.top; l->off = off; l->size = size; l->v = v;
        o.top = l;
    }
    // ---------------------------------------------------------------- checked access
    std::string where() {
        if (cur->st.empty()) return "?";
        auto& f = *cur->st.back();
        std::string s = demName(f.F);
        return s;
    }
    const std::string& demName(const Function* f) {
        auto& i = info(f);
        if (i.dem.empty()) i.dem = llvm::demangle(f->getName().str());
        return i.dem;
    }
    std::vector<std::string> stackTrace() {
        std::vector<std::string> r;
        for (auto it = cur->st.rbegin(); it != cur->st.rend() && r.size() < 14; ++it) {
            std::string n = demName((*it)->F); if (n.size() > 160) n = n.substr(0, 160) + "...";
            r.push_back(n);
        }
        return r;
    }
    void obligation(E cond, const std::string& label, const std::string& kind) {
        cond = sb(cond);
        bool mem = kind != "assert";
        if (mem) memObl++; else { oblig++; byLabel[label].first++; }
        if (isK(cond) && cond->c) { if (mem) memTriv++; else { trivial++; discharged++; byLabel[label].second++; } return; }
        if (useIv && !isK(cond) && ivDecide(cond) == 1) { if (!mem) { discharged++; byLabel[label].second++; } else memIv++; known(cond); return; }
        std::shared_ptr<Model> m;
        Sat r = isK(cond) ? Sat::SAT : S.check(cur->pc, bnot(cond), &m);
        if (r == Sat::UNSAT) { if (!mem) { discharged++; byLabel[label].second++; } known(cond); ivLearn(cond); return; }
        if (tentative) throw Kill{"tentative failure", false};
        if (r == Sat::UNKNOWN) {
            undecided++;
            unsup.push_back("solver gave no answer for " + label + " in " + where());
            throw Kill{"undecided", true};
        }
        recordFail(label, kind, bnot(cond), m);
        throw Kill{"failed " + label, true};
    }
    void recordFail(const std::string& label, const std::string& kind, E neg, std::shared_ptr<Model> m) {
        failCount[label]++;
        if (fails.size() >= maxFails && failCount[label] > 1) return;
        Failure f; f.label = label; f.kind = kind; f.where = where(); f.stack = stackTrace(); f.pc = cur->pc; f.neg = neg;
        f.model = mergeModel(cur->wit ? cur->wit : std::make_shared<Model>(), m);
        f.inputs = dumpInputs(f);
        fails.push_back(f);
        if (getenv("ARV_TRACE_FAIL")) { fprintf(stderr, "FAIL %s (%s)\n", label.c_str(), kind.c_str()); for (auto& s : f.stack) fprintf(stderr, "    at %s\n", s.c_str()); for (E e : f.pc) fprintf(stderr, "   pc %s\n", str(e).c_str()); fprintf(stderr, "   neg %s\n", str(sb(neg)).c_str()); fprintf(stderr, "   in %s\n", f.inputs.c_str()); }
        if (fails.size() >= maxFails * 4) stop = true;
    }
    static std::string jesc(const std::string& s) {
        std::string r; char b[8];
        for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
        return r;
    }
    std::string dumpInputs(Failure& f) {
        // try to shrink lengths
        std::vector<E> lens;
        std::vector<E> base = f.pc; if (f.neg && !isK(f.neg)) base.push_back(f.neg);
        for (auto& in : inputs) if (in.kind != Input::INT_) lens.push_back(in.n);
        auto tryB = [&](uint64_t bound, uint64_t elemBound) {
            std::vector<E> q = base; q.push_back(tru());
            for (E l : lens) q.push_back(bnot(ult(cst(bound, 64), l)));
            for (auto& in : inputs) if (in.kind == Input::TOKENS || in.kind == Input::CSTRS)
                for (uint64_t i = 0; i < std::min<uint64_t>(bound, 10); ++i) q.push_back(bnot(ult(cst(elemBound, 64), ufApp(in.ufLen, {cst(i, 64)}))));
            q.erase(std::remove_if(q.begin(), q.end(), [](E e) { return isK(e) && e->c; }), q.end());
            std::shared_ptr<Model> m;
            if (S.rawCheck(q, &m) == Sat::SAT) { f.model = m; return true; }
            return false;
        };
        tryB(2, 4) || tryB(3, 8) || tryB(4, 12) || tryB(8, 24) || tryB(64, 200);
        std::string s = "[";
        auto ev = [&](E e) { return evalE(e, *f.model); };
        char b[64]; bool first = true;
        for (auto& in : inputs) {
            if (!first) s += ","; first = false;
            s += "{\"name\":\"" + in.name + "\",";
            if (in.kind == Input::INT_) { snprintf(b, 64, "\"kind\":\"int\",\"value\":%llu}", (unsigned long long)ev(in.n)); s += b; }
            else if (in.kind == Input::BYTES) {
                uint64_t n = ev(in.n); if (n > 5000) { f.replayable = false; n = 5000; }
                std::string t; for (uint64_t i = 0; i < n; ++i) { uint64_t c = ev(ufApp(in.ufB, {cst(i, 64)})); t += (char)c; }
                s += "\"kind\":\"bytes\",\"value\":\"" + jesc(t) + "\"}";
            } else {
                uint64_t n = ev(in.n); if (n > 5000) { f.replayable = false; n = 5000; }
                s += in.kind == Input::TOKENS ? "\"kind\":\"tokens\",\"value\":[" : "\"kind\":\"cstrs\",\"value\":[";
                for (uint64_t i = 0; i < n; ++i) {
                    uint64_t len = ev(ufApp(in.ufLen, {cst(i, 64)})); if (len > 5000) { f.replayable = false; len = 5000; }
                    std::string t; for (uint64_t k = 0; k < len; ++k) { uint64_t c = ev(ufApp(in.ufB, {cst(i, 64), cst(k, 64)})); if (in.kind == Input::CSTRS && !c) c = 1; t += (char)c; }
                    uint64_t pre = in.kind != Input::TOKENS ? 0 : !in.ufPre ? 2 : ev(ufApp(in.ufPre, {cst(i, 64)}));
                    if (i) s += ",";
                    snprintf(b, 64, "[%llu,\"", (unsigned long long)pre); s += b; s += jesc(t) + "\"]";
                }
                s += "]}";
            }
        }
        return s + "]";
    }
    Val deref(Val p, uint64_t size, bool write, const char* what) { // returns validated pointer
        p = intToPtr(p);
        if (p.k != Val::PTR) {
            if (p.k == Val::INT) { obligation(fls(), std::string("no invalid pointer access (") + what + ")", "memory"); }
            throw Unsupported{std::string("dereference of function pointer: ") + what};
        }
        ObjP o = getObj(p.obj);
        if (!o || !o->alive) { obligation(fls(), std::string("no access to a dead object (") + what + (o ? " " + o->name : "") + ")", "memory"); }
        if (write && o->ro) obligation(fls(), "no write to constant memory", "memory");
        p.e = sb(p.e);
        if (o->opaque) return p;
        E sz = sb(objSize(*o, p.inst));
        E end = add(p.e, size);
        E ok;
        if (isK(p.e) && isK(sz)) ok = b2e(p.e->c <= sz->c && p.e->c + size <= sz->c);
        else {
            ok = bnot(ult(sz, end));
            // guard against wrap-around of the offset
            Iv iv = ivOf(p.e);
            if (!(iv.ok && iv.lo >= 0)) ok = band(ok, bnot(ult(end, p.e)));
        }
        obligation(ok, std::string("access in bounds (") + what + ")", "memory");
        return p;
    }
    Val load(Val p, Type* t, const char* what = "load") {
        if (auto* s = dyn_cast<StructType>(t)) {
            auto* sl = DL.getStructLayout(s); std::vector<Val> v;
            for (unsigned i = 0; i < s->getNumElements(); ++i) v.push_back(load(ptrAdd(p, cst(sl->getElementOffset(i), 64)), s->getElementType(i), what));
            return vagg(v);
        }
        if (auto* a = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL.getTypeAllocSize(a->getElementType()); std::vector<Val> v;
            for (unsigned i = 0; i < a->getNumElements(); ++i) v.push_back(load(ptrAdd(p, cst(es * i, 64)), a->getElementType(), what));
            return vagg(v);
        }
        uint64_t size = DL.getTypeStoreSize(t);
        if (size > 8) throw Unsupported{"wide load"};
        p = deref(p, size, false, what);
        ObjP o = getObj(p.obj);
        Val v;
        if (o->opaque) v = vi(newSym("opaque", size * 8)); else v = readL(o->top, p.e, size, p.inst, t->isPointerTy());
        if (v.k == Val::INT) {
            v.e = sb(v.e);
            unsigned w = t->isPointerTy() ? 64 : DL.getTypeSizeInBits(t);
            if (v.e->w > w) v.e = extract(v.e, 0, w);
            if (size == 1) byteRead(o, p, v.e);
            if (t->isPointerTy()) v = intToPtr(v);
        }
        return v;
    }
    // a byte of an arbitrary text was looked at: instantiate what is known about all bytes of a range at it
    void byteRead(const ObjP& o, const Val& p, E b) {
        if ((o->kind != Obj::TEXT && o->kind != Obj::FAMILY) || isK(b)) return;
        for (auto& r : cur->reads) if (r.obj == p.obj && r.off == p.e && r.inst == p.inst) return;
        if (cur->reads.size() < 256) cur->reads.push_back({p.obj, p.inst, p.e});
        for (size_t i = 0; i < cur->nones.size(); ++i) { auto f = cur->nones[i]; if (f.obj == p.obj && (f.inst == p.inst || (f.inst && p.inst && sb(f.inst) == sb(p.inst)))) instNone(f, p.e, b); }
    }
    void instNone(const NoneBefore& f, E off, E b) {
        E j = sb(sub(off, f.base)); E in = sb(ult(j, f.r));
        if (isK(in, 0)) return;
        addPCchk(bor(bnot(in), bnot(eq(b, f.c))));
    }
    void store(Val p, Val v, Type* t) {
        if (auto* s = dyn_cast<StructType>(t)) {
            auto* sl = DL.getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); ++i) store(ptrAdd(p, cst(sl->getElementOffset(i), 64)), (*v.agg)[i], s->getElementType(i));
            return;
        }
        if (auto* a = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL.getTypeAllocSize(a->getElementType());
            for (unsigned i = 0; i < a->getNumElements(); ++i) store(ptrAdd(p, cst(es * i, 64)), (*v.agg)[i], a->getElementType());
            return;
        }
        uint64_t size = DL.getTypeStoreSize(t);
        if (size > 8) throw Unsupported{"wide store"};
        p = deref(p, size, true, "store");
        if (v.k == Val::INT && v.e->w != size * 8) v.e = zext(v.e, size * 8);
        writeO(p.obj, p.e, size, v);
    }
    void copyMem(Val d, Val s, E len) {
        len = sb(len);
        if (isK(len, 0)) return;
        if (!isK(len)) { if (decide(eq(len, cst(0, 64)))) return; }
        d = intToPtr(d); s = intToPtr(s);
        // bounds
        auto chk = [&](Val& p, bool w, const char* what) {
            if (p.k != Val::PTR) { obligation(fls(), std::string("no invalid pointer access (") + what + ")", "memory"); }
            ObjP o = getObj(p.obj);
            if (!o || !o->alive) obligation(fls(), std::string("no access to a dead object (") + what + ")", "memory");
            if (w && o->ro) obligation(fls(), "no write to constant memory", "memory");
            p.e = sb(p.e);
            if (o->opaque) return;
            E sz = sb(objSize(*o, p.inst)), end = add(p.e, len);
            E ok = bnot(ult(sz, end));
            Iv a = ivOf(p.e), b = ivOf(len);
            if (!(a.ok && a.lo >= 0 && b.ok && b.lo >= 0)) ok = band(ok, band(bnot(ult(end, p.e)), bnot(ult(sz, p.e))));
            obligation(ok, std::string("access in bounds (") + what + ")", "memory");
        };
        chk(d, true, "copy destination"); chk(s, false, "copy source");
        if (!cur->acts.empty()) loopWrite(d.obj, sb(d.e), len);
        ObjP so = getObj(s.obj);
        LayerP snap = so->top;
        // eager cell copy when everything is concrete
        if (isK(len) && isK(d.e) && isK(s.e) && len->c <= (1u << 16)) {
            bool simple = false;
            if (snap->k == Layer::MAP && snap->prev && (snap->prev->k == Layer::UNDEF || snap->prev->k == Layer::ZERO)) simple = true;
            if (snap->k == Layer::UNDEF || snap->k == Layer::ZERO) simple = true;
            if (so->opaque) simple = false;
            if (simple) {
                Layer::Kind bk = snap->k == Layer::MAP ? snap->prev->k : snap->k;
                std::vector<std::pair<uint64_t, Cell>> out;
                uint64_t so0 = s.e->c, n = len->c, pos = so0;
                auto fillZero = [&](uint64_t a, uint64_t b) { if (bk != Layer::ZERO) return; while (a < b) { uint64_t k = std::min<uint64_t>(8, b - a); if (k & (k - 1)) k = 1; out.push_back({a - so0, Cell{(uint32_t)k, vk(0, k * 8)}}); a += k; } };
                if (snap->k == Layer::MAP) {
                    auto it = snap->cells.lower_bound(so0);
                    if (it != snap->cells.begin()) { auto pt = std::prev(it); if (pt->first + pt->second.size > so0) it = pt; }
                    for (; it != snap->cells.end() && it->first < so0 + n; ++it) {
                        uint64_t a = std::max(it->first, so0), b = std::min<uint64_t>(it->first + it->second.size, so0 + n);
                        fillZero(pos, a);
                        if (a == it->first && b == it->first + it->second.size) out.push_back({a - so0, it->second});
                        else for (uint64_t q = a; q < b; ++q) out.push_back({q - so0, Cell{1, cellSlice(it->second, q - it->first, 1)}});
                        pos = b;
                    }
                }
                fillZero(pos, so0 + n);
                Obj& o = objW(d.obj);
                LayerP m = ownTop(o);
                eraseRange(*m, d.e->c, n, this);
                bool covered = m->prev && m->prev->k != Layer::UNDEF;
                (void)covered;
                for (auto& c : out) m->cells[d.e->c + c.first] = c.second;
                return;
            }
        }
        snap.reset(); so.reset();
        LayerP keep = getObj(s.obj)->top;
        Obj& o = objW(d.obj);
        auto l = std::make_shared<Layer>(); l->k = Layer::COPY; l->prev = o.top; l->off = d.e; l->len = len; l->src = keep; l->srcOff = s.e; l->srcInst = s.inst;
        o.top = l;
    }
    void setMem(Val d, E byte, E len) {
        len = sb(len);
        if (isK(len, 0)) return;
        if (!isK(len)) { if (decide(eq(len, cst(0, 64)))) return; }
        d = intToPtr(d);
        if (d.k != Val::PTR) obligation(fls(), "no invalid pointer access (memset)", "memory");
        ObjP o = getObj(d.obj);
        if (!o || !o->alive) obligation(fls(), "no access to a dead object (memset)", "memory");
        E sz = sb(objSize(*o, d.inst)), end = add(d.e, len);
        obligation(band(bnot(ult(sz, end)), bnot(ult(end, d.e))), "access in bounds (memset)", "memory");
        o.reset();
        E de = sb(d.e);
        if (!cur->acts.empty()) loopWrite(d.obj, de, len);
        Obj& w = objW(d.obj);
        if (isK(len) && isK(de) && len->c <= 4096 && isK(byte)) {
            LayerP m = ownTop(w);
            eraseRange(*m, de->c, len->c, this);
            uint64_t a = 0;
            uint64_t rep = byte->c * 0x0101010101010101ull;
            while (a < len->c) { uint64_t k = 8; while (k > len->c - a || ((de->c + a) % k)) k >>= 1; m->cells[de->c + a] = Cell{(uint32_t)k, vk(rep, k * 8)}; a += k; }
            return;
        }
        auto l = std::make_shared<Layer>(); l->k = Layer::SET; l->prev = w.top; l->off = de; l->len = len; l->v = vi(byte);
        w.top = l;
    }
    E byteAt(const Val& p, E idx) {
        Val q = p; q.e = sb(add(p.e, idx));
        ObjP o = getObj(q.obj);
        Val v = o->opaque ? vi(newSym("opaque", 8)) : readL(o->top, q.e, 1, q.inst, false);
        if (v.k != Val::INT) v = vi(extract(asInt(v), 0, 8));
        E b = sb(v.e);
        byteRead(o, q, b);
        return b;
    }
    // ---------------------------------------------------------------- function info
    FnInfo& info(const Function* f) {
        auto& i = fi[f];
        if (i.n == 0 && !f->isDeclaration()) {
            unsigned n = 0;
            for (auto& a : f->args()) i.slot[&a] = n++;
            for (auto& b : *f) for (auto& in : b) if (!in.getType()->isVoidTy()) i.slot[&in] = n++;
            i.n = std::max(1u, n);
        }
        return i;
    }
    LoopInfo& loops(const Function* f) {
        auto& i = info(f);
        if (!i.li) { i.dt = std::make_unique<DominatorTree>(*const_cast<Function*>(f)); i.li = std::make_unique<LoopInfo>(*i.dt); }
        return *i.li;
    }
    Frame& top() {
        auto& p = cur->st.back();
        if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
        return *p;
    }
    Val get(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) {
            if (auto* ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() <= 64) return vk(ci->getZExtValue(), ci->getBitWidth());
            return constVal(c);
        }
        auto& f = *cur->st.back();
        auto& in = fi[f.F];
        auto it = in.slot.find(v);
        if (it == in.slot.end()) throw Unsupported{"unknown operand"};
        return f.regs[it->second];
    }
    void set(const Value* v, const Val& x) {
        auto& f = top();
        f.regs[fi[f.F].slot[v]] = x;
    }
    E getI(const Value* v) { Val x = get(v); if (x.k == Val::INT) return sb(x.e); return sb(asInt(x)); }

    bool useIv = !getenv("ARV_NOIV"); uint64_t memIv = 0;
#include "intervals.inc"
#include "exec_inst.inc"
#include "exec_ext.inc"
#include "exec_loop.inc"
};
}  // namespace arv
