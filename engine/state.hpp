// Symbolic machine state: values, objects with layered contents, frames.
#pragma once
#include "solver.hpp"
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

namespace arv {
struct Val;
using Agg = std::shared_ptr<std::vector<Val>>;
struct Val {
    enum Kind : uint8_t { NONE, INT, PTR, FN, AGG } k = NONE;
    uint32_t obj = 0;      // PTR: object, FN: function index
    E e = nullptr;         // INT: term, PTR: byte offset (64 bit)
    E inst = nullptr;      // PTR into a family of objects: which member
    Agg agg;
};
inline Val vi(E e) { Val v; v.k = Val::INT; v.e = e; return v; }
inline Val vk(uint64_t c, unsigned w) { return vi(cst(c, w)); }
inline Val vp(uint32_t o, E off, E inst = nullptr) { Val v; v.k = Val::PTR; v.obj = o; v.e = off; v.inst = inst; return v; }
inline Val vfn(uint32_t f) { Val v; v.k = Val::FN; v.obj = f; return v; }
inline Val vagg(std::vector<Val> a) { Val v; v.k = Val::AGG; v.agg = std::make_shared<std::vector<Val>>(std::move(a)); return v; }
inline bool sameVal(const Val& a, const Val& b) {
    if (a.k != b.k) return false;
    switch (a.k) {
    case Val::NONE: return true;
    case Val::INT: return a.e == b.e;
    case Val::PTR: return a.obj == b.obj && a.e == b.e && a.inst == b.inst;
    case Val::FN: return a.obj == b.obj;
    case Val::AGG: if (a.agg->size() != b.agg->size()) return false;
        for (size_t i = 0; i < a.agg->size(); ++i) if (!sameVal((*a.agg)[i], (*b.agg)[i])) return false;
        return true;
    }
    return false;
}

struct Cell { uint32_t size; Val v; };
struct Field { uint64_t off; uint32_t size; bool isPtr; unsigned uf; uint32_t textObj; int cval = -1; };
struct Layer;
using LayerP = std::shared_ptr<Layer>;
struct Layer {
    enum Kind : uint8_t { UNDEF, ZERO, SYMBYTES, SYMSTRUCT, MAP, SSTORE, COPY, SET } k;
    LayerP prev;
    std::map<uint64_t, Cell> cells;                   // MAP
    E off = nullptr, len = nullptr; uint32_t size = 0; Val v; // SSTORE(off,size,v) / SET(off,len,v) / COPY(off,len)
    LayerP src; E srcOff = nullptr; E srcInst = nullptr;      // COPY
    unsigned uf = 0; bool cstr = false; E cstrLen = nullptr;  // SYMBYTES: byte = uf([inst,] off)
    bool hasInst = false; unsigned lenUf = 0;
    uint64_t stride = 0; std::vector<Field> fields;           // SYMSTRUCT
};
struct Obj {
    enum Kind : uint8_t { GLOBAL, STACK, HEAP, EXC, TEXT, FAMILY } kind = STACK;
    E size = nullptr; LayerP top; bool ro = false, alive = true, opaque = false;
    bool sizeByInst = false; unsigned sizeUf = 0; uint64_t sizeAdd = 0;
    std::string name;
};
using ObjP = std::shared_ptr<Obj>;

struct LoopAct;  // active loop cut
struct Frame {
    const llvm::Function* F = nullptr; const llvm::BasicBlock *bb = nullptr, *prev = nullptr;
    llvm::BasicBlock::const_iterator ip;
    std::vector<Val> regs; std::vector<uint32_t> allocas; const llvm::CallBase* call = nullptr;
    std::map<const llvm::BasicBlock*, uint64_t> visits;
    std::vector<Val> varargs;
    uint32_t uid = 0;
    int specDepth = 0;
};
using FrameP = std::shared_ptr<Frame>;

struct ExcInfo { Val ptr; std::string ti; int handlers = 0; };
// for every j < r : byte j of (obj, inst) from base on is not c
struct NoneBefore { uint32_t obj; E inst, base, r, c; };
struct ByteRead { uint32_t obj; E inst, off; };
struct State {
    std::vector<NoneBefore> nones; std::vector<ByteRead> reads;
    std::vector<FrameP> st;
    std::unordered_map<uint32_t, ObjP> mem;
    std::vector<E> pc;
    std::unordered_map<E, E> bind;
    std::unordered_map<E, E> memo;
    std::unordered_map<E, std::pair<int64_t, int64_t>> bnd; // integer bounds on linear forms implied by pc
    std::shared_ptr<Model> wit;
    std::vector<ExcInfo> caught; ExcInfo cur; bool unwinding = false;
    std::vector<std::string> trace;
    uint64_t steps = 0; unsigned forks = 0;
    std::map<std::string, uint64_t> ghost, inNames;
    std::vector<std::shared_ptr<LoopAct>> acts;
    };
using StateP = std::shared_ptr<State>;
}  // namespace arv
