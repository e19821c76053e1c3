// Hash-consed bit-vector terms with a linear normal form, plus evaluation under a model.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace arv {
enum Op : uint8_t { K, SYM, UF, LIN, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, SLT, NOT, ITE };
struct Expr;
using E = const Expr*;
using i128 = __int128;
using u128 = unsigned __int128;

inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskOf(w);
    return (int64_t)((v ^ m) - m);
}

struct Expr {
    Op op; uint8_t w; uint32_t id; uint64_t c; // c: constant / lin constant / extract low / sym id / uf id
    uint64_t maxv;                             // sound unsigned upper bound
    std::vector<E> kids; std::vector<uint64_t> coef;
    bool hasSym;
    mutable std::shared_ptr<std::vector<uint64_t>> atoms; // dependency keys, sorted
};

struct UFDecl { std::string name; unsigned w; uint64_t maxv; unsigned arity; };
struct SymDecl { std::string name; unsigned w; uint64_t maxv; };

struct Key { Op op; uint8_t w; uint64_t c; const std::vector<E>* kids; const std::vector<uint64_t>* coef; };
struct Pool {
    std::unordered_multimap<uint64_t, E> tab;
    std::vector<E> all;
    std::vector<UFDecl> ufs; std::map<std::string, unsigned> ufIdx;
    std::vector<SymDecl> syms;
};
inline Pool& P() { static Pool p; return p; }

inline uint64_t calcMax(Op op, unsigned w, uint64_t c, const std::vector<E>& k, const std::vector<uint64_t>& co) {
    uint64_t m = maskOf(w);
    switch (op) {
    case K: return c;
    case SYM: return std::min(m, P().syms[c].maxv);
    case UF: return std::min(m, P().ufs[c].maxv);
    case LIN: {
        u128 s = c;
        for (size_t i = 0; i < k.size(); ++i) { s += (u128)co[i] * k[i]->maxv; if (s > m) return m; }
        return (uint64_t)s;
    }
    case MUL: { u128 s = (u128)k[0]->maxv * k[1]->maxv; return s > m ? m : (uint64_t)s; }
    case UDIV: return (k[1]->op == K && k[1]->c) ? k[0]->maxv / k[1]->c : m;
    case UREM: return (k[1]->op == K && k[1]->c) ? std::min(k[0]->maxv, k[1]->c - 1) : m;
    case AND: return std::min(k[0]->maxv, k[1]->maxv);
    case OR: case XOR: { uint64_t x = k[0]->maxv | k[1]->maxv; for (int s = 1; s < 64; s <<= 1) x |= x >> s; u128 t = (u128)k[0]->maxv + k[1]->maxv; if (t < x) x = (uint64_t)t; return x & m; }
    case SHL: if (k[1]->op == K && k[1]->c < 64) { u128 s = (u128)k[0]->maxv << k[1]->c; return s > m ? m : (uint64_t)s; } return m;
    case LSHR: return (k[1]->op == K && k[1]->c < 64) ? k[0]->maxv >> k[1]->c : k[0]->maxv;
    case ZEXT: return k[0]->maxv;
    case EXTRACT: return c == 0 ? std::min(m, k[0]->maxv) : std::min(m, k[0]->maxv >> c);
    case CONCAT: { u128 s = ((u128)k[0]->maxv << k[1]->w) | maskOf(k[1]->w); return s > m ? m : (uint64_t)s; }
    case ITE: return std::max(k[1]->maxv, k[2]->maxv);
    case EQ: case ULT: case SLT: case NOT: return 1;
    default: return m;
    }
}

inline E mk(Op op, unsigned w, uint64_t c, std::vector<E> kids = {}, std::vector<uint64_t> coef = {}) {
    uint64_t h = op * 0x9E3779B97F4A7C15ull ^ w * 0xBF58476D1CE4E5B9ull ^ (c + 0x94D049BB133111EBull) * 0xD6E8FEB86659FD93ull;
    for (E k : kids) h = (h ^ k->id) * 0x100000001B3ull + (h >> 29);
    for (uint64_t k : coef) h = (h ^ k) * 0x100000001B3ull + (h >> 31);
    auto r = P().tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
        E e = it->second;
        if (e->op == op && e->w == w && e->c == c && e->kids == kids && e->coef == coef) return e;
    }
    auto* e = new Expr{};
    e->op = op; e->w = w; e->c = c; e->maxv = calcMax(op, w, c, kids, coef);
    e->hasSym = (op == SYM || op == UF);
    for (E k : kids) e->hasSym |= k->hasSym;
    e->kids = std::move(kids); e->coef = std::move(coef);
    e->id = P().all.size();
    P().all.push_back(e);
    P().tab.emplace(h, e);
    return e;
}
inline E cst(uint64_t v, unsigned w) { return mk(K, w, v & maskOf(w)); }
inline E tru() { static E e = cst(1, 1); return e; }
inline E fls() { static E e = cst(0, 1); return e; }
inline E b2e(bool b) { return b ? tru() : fls(); }
inline bool isK(E e) { return e->op == K; }
inline bool isK(E e, uint64_t v) { return e->op == K && e->c == v; }

inline E newSym(const std::string& name, unsigned w, uint64_t maxv = ~0ull) {
    P().syms.push_back({name, w, maxv & maskOf(w)});
    return mk(SYM, w, P().syms.size() - 1);
}
inline unsigned ufDecl(const std::string& name, unsigned w, unsigned arity, uint64_t maxv = ~0ull) {
    auto it = P().ufIdx.find(name);
    if (it != P().ufIdx.end()) return it->second;
    P().ufs.push_back({name, w, maxv & maskOf(w), arity});
    return P().ufIdx[name] = P().ufs.size() - 1;
}
inline E ufApp(unsigned f, std::vector<E> args) { return mk(UF, P().ufs[f].w, f, std::move(args)); }

// ---------- linear forms
struct Lin { unsigned w; uint64_t c = 0; std::map<uint32_t, std::pair<E, uint64_t>> t; };
inline void linAdd(Lin& l, E e, uint64_t k) {
    if (e->op == K) { l.c += e->c * k; }
    else if (e->op == LIN) {
        l.c += e->c * k;
        for (size_t i = 0; i < e->kids.size(); ++i) linAdd(l, e->kids[i], e->coef[i] * k);
    } else {
        auto& s = l.t[e->id];
        s.first = e; s.second += k;
        if ((s.second & maskOf(l.w)) == 0) l.t.erase(e->id);
    }
}
inline E linMk(Lin& l) {
    uint64_t m = maskOf(l.w);
    l.c &= m;
    if (l.t.empty()) return cst(l.c, l.w);
    if (l.t.size() == 1 && l.c == 0 && (l.t.begin()->second.second & m) == 1) return l.t.begin()->second.first;
    std::vector<E> ks; std::vector<uint64_t> cs;
    for (auto& p : l.t) { ks.push_back(p.second.first); cs.push_back(p.second.second & m); }
    return mk(LIN, l.w, l.c, ks, cs);
}
inline E ite(E c, E a, E b);
inline E add(E a, E b) {
    if (isK(a) && isK(b)) return cst(a->c + b->c, a->w);
    if (isK(a, 0)) return b;
    if (isK(b, 0)) return a;
    if (a->w == 1) return mk(XOR, 1, 0, {a, b});
    Lin l{(unsigned)a->w}; linAdd(l, a, 1); linAdd(l, b, 1); return linMk(l);
}
inline E sub(E a, E b) {
    if (isK(a) && isK(b)) return cst(a->c - b->c, a->w);
    if (isK(b, 0)) return a;
    if (a == b) return cst(0, a->w);
    Lin l{(unsigned)a->w}; linAdd(l, a, 1); linAdd(l, b, ~0ull); return linMk(l);
}
inline E mulK(E a, uint64_t k) { Lin l{(unsigned)a->w}; linAdd(l, a, k); return linMk(l); }
inline E add(E a, uint64_t k) { return add(a, cst(k, a->w)); }
// signed interval of the linear form assuming integer (non wrapping) interpretation; ok=false if it may wrap
struct Iv { bool ok; i128 lo, hi; };
inline Iv ivOf(E e) {
    if (e->op == K) { i128 v = sext64(e->c, e->w); return {true, v, v}; }
    i128 lim = (i128)1 << (e->w - 1);
    if (e->op != LIN) { if ((i128)e->maxv < lim) return {true, 0, (i128)e->maxv}; return {false, 0, 0}; }
    i128 lo = sext64(e->c, e->w), hi = lo;
    for (size_t i = 0; i < e->kids.size(); ++i) {
        i128 k = sext64(e->coef[i], e->w);
        if ((i128)e->kids[i]->maxv >= lim) return {false, 0, 0};
        i128 x = k * (i128)e->kids[i]->maxv;
        if (x > 0) hi += x; else lo += x;
        if (hi >= lim || lo < -lim) return {false, 0, 0};
    }
    return {true, lo, hi};
}
inline uint64_t gcd64(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }

inline E bnot(E a);
inline E band(E a, E b);
inline E bor(E a, E b);

inline E eq(E a, E b) {
    assert(a->w == b->w);
    if (a == b) return tru();
    if (isK(a) && isK(b)) return b2e(a->c == b->c);
    if (isK(a)) std::swap(a, b);
    if (a->w == 1) {
        if (isK(b)) return b->c ? a : bnot(a);
        return mk(EQ, 1, 0, a->id < b->id ? std::vector<E>{a, b} : std::vector<E>{b, a});
    }
    if (isK(b)) {
        if (b->c > a->maxv) return fls();
        if (a->op == ZEXT) return eq(a->kids[0], cst(b->c, a->kids[0]->w));
        if (a->op == SEXT) {
            E k = a->kids[0];
            if ((uint64_t)sext64(b->c, k->w) == (a->w >= 64 ? b->c : (uint64_t)sext64(b->c, a->w)))
                return eq(k, cst(b->c, k->w));
            return fls();
        }
        if (a->op == ITE) {
            E x = eq(a->kids[1], b), y = eq(a->kids[2], b);
            if (isK(x) || isK(y)) return bor(band(a->kids[0], x), band(bnot(a->kids[0]), y));
        }
        if (a->op == CONCAT)
            return band(eq(a->kids[0], cst(b->c >> a->kids[1]->w, a->kids[0]->w)), eq(a->kids[1], cst(b->c, a->kids[1]->w)));
    }
    if (a->op == ZEXT && b->op == ZEXT && a->kids[0]->w == b->kids[0]->w) return eq(a->kids[0], b->kids[0]);
    if (a->op == CONCAT && b->op == CONCAT && a->kids[0]->w == b->kids[0]->w)
        return band(eq(a->kids[0], b->kids[0]), eq(a->kids[1], b->kids[1]));
    if (a->op == LIN || b->op == LIN) {
        E d = sub(a, b);
        if (isK(d)) return b2e(d->c == 0);
        Iv iv = ivOf(d);
        if (d->op == LIN) {
            uint64_t m = maskOf(d->w);
            if (iv.ok) {
                if (iv.lo > 0 || iv.hi < 0) return fls();
                uint64_t g = 0;
                auto ab = [&](uint64_t x) { int64_t s = sext64(x, d->w); return (uint64_t)(s < 0 ? -s : s); };
                for (uint64_t k : d->coef) g = gcd64(g, ab(k));
                if (g > 1) {
                    if (ab(d->c) % g) return fls();
                    Lin l{(unsigned)d->w};
                    l.c = (uint64_t)(sext64(d->c, d->w) / (int64_t)g);
                    for (size_t i = 0; i < d->kids.size(); ++i) linAdd(l, d->kids[i], (uint64_t)(sext64(d->coef[i], d->w) / (int64_t)g));
                    d = linMk(l);
                }
            }
            if (d->op == LIN && d->kids.size() == 1 && (d->coef[0] == 1 || d->coef[0] == m)) {
                uint64_t v = d->coef[0] == 1 ? (0 - d->c) : d->c;
                return eq(d->kids[0], cst(v, d->w));
            }
            if (d->op == LIN) { // canonical sign: first coefficient positive
                if (sext64(d->coef[0], d->w) < 0) d = mulK(d, ~0ull);
                return mk(EQ, 1, 0, {d, cst(0, d->w)});
            }
            return eq(d, cst(0, d->w));
        }
        return eq(d, cst(0, d->w));
    }
    if (!isK(b) && a->id > b->id) std::swap(a, b);
    return mk(EQ, 1, 0, {a, b});
}
// sound unsigned lower bound
inline uint64_t minOf(E e) {
    switch (e->op) {
    case K: return e->c;
    case OR: return std::max(minOf(e->kids[0]), minOf(e->kids[1]));
    case ZEXT: return minOf(e->kids[0]);
    default: return 0;
    }
}
inline E ult(E a, E b) {
    assert(a->w == b->w);
    if (a == b) return fls();
    if (a->maxv < minOf(b)) return tru();
    if (b->maxv <= minOf(a)) return fls();
    if (isK(a) && isK(b)) return b2e(a->c < b->c);
    if (isK(b, 0)) return fls();
    if (isK(b) && a->maxv < b->c) return tru();
    if (isK(b, 1)) return eq(a, cst(0, a->w));
    if (isK(a, 0)) return bnot(eq(b, a));
    if (isK(a) && a->c >= b->maxv) return fls();
    if (a->op == ZEXT && b->op == ZEXT && a->kids[0]->w == b->kids[0]->w) return ult(a->kids[0], b->kids[0]);
    if (a->op == ZEXT && isK(b) && b->c <= maskOf(a->kids[0]->w)) return ult(a->kids[0], cst(b->c, a->kids[0]->w));
    if (b->op == ZEXT && isK(a) && a->c <= maskOf(b->kids[0]->w)) return ult(cst(a->c, b->kids[0]->w), b->kids[0]);
    if (a->w > 1 && (a->op == LIN || b->op == LIN)) {
        Iv ia = ivOf(a), ib = ivOf(b);
        if (ia.ok && ib.ok && ia.lo >= 0 && ib.lo >= 0) {
            E d = sub(a, b);
            Iv iv = ivOf(d);
            if (isK(d)) return b2e(sext64(d->c, d->w) < 0);
            if (iv.ok) {
                if (iv.hi < 0) return tru();
                if (iv.lo >= 0) return fls();
                // d < 0 ; split positive and negative parts, divide by the gcd
                uint64_t g = 0;
                std::vector<E> ks = d->op == LIN ? d->kids : std::vector<E>{d};
                std::vector<uint64_t> cs = d->op == LIN ? d->coef : std::vector<uint64_t>{1};
                int64_t dc = d->op == LIN ? sext64(d->c, d->w) : 0;
                auto ab = [&](int64_t s) { return (uint64_t)(s < 0 ? -s : s); };
                for (uint64_t k : cs) g = gcd64(g, ab(sext64(k, d->w)));
                Lin A{(unsigned)a->w}, B{(unsigned)a->w};
                for (size_t i = 0; i < ks.size(); ++i) {
                    int64_t k = sext64(cs[i], d->w) / (int64_t)g;
                    if (k > 0) linAdd(A, ks[i], (uint64_t)k); else linAdd(B, ks[i], (uint64_t)-k);
                }
                // g*A + dc < g*B  <=>  A + floor(dc/g) < B
                int64_t fl = dc >= 0 ? dc / (int64_t)g : -((-dc + (int64_t)g - 1) / (int64_t)g);
                // for dc<0: g*A < g*B + (-dc)  <=> A < B + ceil(-dc/g)
                if (fl >= 0) A.c += (uint64_t)fl; else B.c += (uint64_t)(-fl);
                E x = linMk(A), y = linMk(B);
                if (isK(x) && isK(y)) return b2e(x->c < y->c);
                if (isK(y, 1)) return eq(x, cst(0, x->w));
                if (isK(x, 0)) return bnot(eq(y, x));
                return mk(ULT, 1, 0, {x, y});
            }
        }
    }
    return mk(ULT, 1, 0, {a, b});
}
inline E slt(E a, E b) {
    if (a == b) return fls();
    if (isK(a) && isK(b)) return b2e(sext64(a->c, a->w) < sext64(b->c, b->w));
    Iv ia = ivOf(a), ib = ivOf(b);
    if (ia.ok && ib.ok) {
        if (ia.hi < ib.lo) return tru();
        if (ia.lo >= ib.hi) return fls();
        if (ia.lo >= 0 && ib.lo >= 0) return ult(a, b);
        E d = sub(a, b); Iv iv = ivOf(d);
        if (iv.ok) { if (iv.hi < 0) return tru(); if (iv.lo >= 0) return fls(); }
    }
    return mk(SLT, 1, 0, {a, b});
}
inline E ule(E a, E b) { return bnot(ult(b, a)); }
inline E bnot(E a) {
    if (isK(a)) return b2e(!a->c);
    if (a->op == NOT) return a->kids[0];
    return mk(NOT, 1, 0, {a});
}
inline E band(E a, E b) {
    if (isK(a)) return a->c ? b : a;
    if (isK(b)) return b->c ? a : b;
    if (a == b) return a;
    if (bnot(a) == b) return fls();
    if (a->id > b->id) std::swap(a, b);
    return mk(AND, 1, 0, {a, b});
}
inline E bor(E a, E b) {
    if (isK(a)) return a->c ? a : b;
    if (isK(b)) return b->c ? b : a;
    if (a == b) return a;
    if (bnot(a) == b) return tru();
    if (a->id > b->id) std::swap(a, b);
    return mk(OR, 1, 0, {a, b});
}
inline E ite(E c, E a, E b) {
    if (isK(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) return bor(band(c, a), band(bnot(c), b));
    if (c->op == NOT) return ite(c->kids[0], b, a);
    if (a->op == ITE && a->kids[0] == c) a = a->kids[1];
    if (b->op == ITE && b->kids[0] == c) b = b->kids[2];
    return mk(ITE, a->w, 0, {c, a, b});
}
inline E zext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isK(a)) return cst(a->c, w);
    if (a->op == ZEXT) return zext(a->kids[0], w);
    if (a->op == EXTRACT && a->c == 0 && a->kids[0]->w == w && a->kids[0]->maxv <= maskOf(a->w)) return a->kids[0];
    if (a->op == ITE && isK(a->kids[1]) && isK(a->kids[2])) return ite(a->kids[0], cst(a->kids[1]->c, w), cst(a->kids[2]->c, w));
    return mk(ZEXT, w, 0, {a});
}
inline E sextE(E a, unsigned w) {
    if (a->w == w) return a;
    if (isK(a)) return cst((uint64_t)sext64(a->c, a->w), w);
    if (a->w > 1 && a->maxv < (1ull << (a->w - 1))) return zext(a, w);
    if (a->op == ITE && isK(a->kids[1]) && isK(a->kids[2])) return ite(a->kids[0], sextE(a->kids[1], w), sextE(a->kids[2], w));
    if (a->w == 1) return ite(a, cst(~0ull, w), cst(0, w));
    return mk(SEXT, w, 0, {a});
}
inline E bin(Op op, E a, E b);
inline E reassembled(E e);
inline E extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && a->w == w) return a;
    if (isK(a)) return cst(a->c >> lo, w);
    if (a->op == EXTRACT) return extract(a->kids[0], lo + a->c, w);
    if (a->op == ZEXT || a->op == SEXT) {
        E k = a->kids[0];
        if (lo + w <= k->w) return extract(k, lo, w);
        if (a->op == ZEXT && lo >= k->w) return cst(0, w);
        if (a->op == ZEXT && lo == 0) return zext(k, w);
    }
    if (a->op == CONCAT) {
        E hi = a->kids[0], l = a->kids[1];
        if (lo + w <= l->w) return extract(l, lo, w);
        if (lo >= l->w) return extract(hi, lo - l->w, w);
    }
    if (a->op == ITE && (isK(a->kids[1]) || isK(a->kids[2]))) return ite(a->kids[0], extract(a->kids[1], lo, w), extract(a->kids[2], lo, w));
    if (lo == 0 && a->op == LIN && w > 1) { // truncation distributes over linear forms
        Lin l{w}; l.c = a->c;
        for (size_t i = 0; i < a->kids.size(); ++i) linAdd(l, extract(a->kids[i], 0, w), a->coef[i]);
        return linMk(l);
    }
    if (lo == 0 && w > 1 && (a->op == AND || a->op == OR || a->op == XOR)) {
        E x = extract(a->kids[0], 0, w), y = extract(a->kids[1], 0, w);
        if (isK(x) && isK(y)) return cst(a->op == AND ? x->c & y->c : a->op == OR ? x->c | y->c : x->c ^ y->c, w);
        return bin(a->op, x, y);
    }
    E r = mk(EXTRACT, w, lo, {a});
    return w > 1 && (a->op == OR || a->op == AND || a->op == LIN || a->op == CONCAT) ? reassembled(r) : r;
}
inline E concat(E hi, E lo) {
    if (isK(hi) && isK(lo)) return cst((hi->c << lo->w) | lo->c, hi->w + lo->w);
    if (isK(hi, 0)) return zext(lo, hi->w + lo->w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->kids[0] == lo->kids[0] && hi->c == lo->c + lo->w)
        return extract(hi->kids[0], lo->c, hi->w + lo->w);
    return mk(CONCAT, hi->w + lo->w, 0, {hi, lo});
}
inline uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskOf(w);
    switch (op) {
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case SREM: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case AND: return a & b; case OR: return a | b; case XOR: return (a ^ b) & m;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : (a & m) >> b;
    case ASHR: return b >= w ? (sext64(a, w) < 0 ? m : 0) : (uint64_t)(sext64(a, w) >> b) & m;
    default: abort();
    }
}
// Where each bit of a value comes from: a constant, or a bit of an atom.
struct BitSrc { E src = nullptr; uint8_t bit = 0; bool operator==(const BitSrc& o) const { return src == o.src && bit == o.bit; } };
inline const std::vector<BitSrc>& bitsOf(E e) {
    static std::unordered_map<E, std::vector<BitSrc>> memo;
    auto f = memo.find(e);
    if (f != memo.end()) return f->second;
    unsigned w = e->w;
    std::vector<BitSrc> r(w);
    auto atom = [&] { r.assign(w, BitSrc{}); for (unsigned i = 0; i < w; ++i) if (e->maxv >> i) r[i] = {e, (uint8_t)i}; };
    switch (e->op) {
    case K: for (unsigned i = 0; i < w; ++i) r[i].bit = (e->c >> i) & 1; break;
    case ZEXT: case SEXT: {
        auto& k = bitsOf(e->kids[0]);
        for (unsigned i = 0; i < w; ++i) r[i] = i < k.size() ? k[i] : e->op == ZEXT ? BitSrc{} : k.back();
        break;
    }
    case EXTRACT: { auto& k = bitsOf(e->kids[0]); for (unsigned i = 0; i < w; ++i) r[i] = k[i + e->c]; break; }
    case CONCAT: { auto l = bitsOf(e->kids[1]); auto& h = bitsOf(e->kids[0]); for (unsigned i = 0; i < w; ++i) r[i] = i < l.size() ? l[i] : h[i - l.size()]; break; }
    case AND: case OR: {
        auto x = bitsOf(e->kids[0]); auto& y = bitsOf(e->kids[1]);
        bool o = e->op == OR, ok = true;
        for (unsigned i = 0; i < w && ok; ++i) {
            if (x[i] == y[i]) r[i] = x[i];
            else if (!x[i].src) r[i] = (x[i].bit == 1) == o ? x[i] : y[i];
            else if (!y[i].src) r[i] = (y[i].bit == 1) == o ? y[i] : x[i];
            else ok = false;
        }
        if (!ok) atom();
        break;
    }
    case LIN: { // sum of shifted terms without a common bit
        bool ok = true;
        for (unsigned i = 0; i < w; ++i) r[i].bit = (e->c >> i) & 1;
        for (size_t t = 0; t < e->kids.size() && ok; ++t) {
            uint64_t q = e->coef[t];
            if (!q || (q & (q - 1))) { ok = false; break; }
            unsigned sh = __builtin_ctzll(q);
            auto k = bitsOf(e->kids[t]);
            for (unsigned i = 0; i + sh < w && ok; ++i) {
                if (!k[i].src && !k[i].bit) continue;
                if (r[i + sh].src || r[i + sh].bit) ok = false; else r[i + sh] = k[i];
            }
        }
        if (!ok) atom();
        break;
    }
    default: atom();
    }
    return memo[e] = r;
}
// e rewritten as the value whose bits it reassembles, if it is one
inline E reassembled(E e) {
    auto& r = bitsOf(e);
    E s = nullptr; bool konst = true; uint64_t k = 0;
    for (unsigned i = 0; i < e->w; ++i) {
        if (!r[i].src) { if (r[i].bit) k |= 1ull << i; continue; }
        konst = false;
        if (r[i].bit != i || (s && r[i].src != s)) return e;
        s = r[i].src;
    }
    if (konst) return cst(k, e->w);
    if (k || s == e) return e;
    for (unsigned i = 0; i < s->w; ++i) if ((s->maxv >> i) && (i >= e->w || r[i].src != s)) return e; // a bit is missing
    return s->w == e->w ? s : s->w < e->w ? zext(s, e->w) : extract(s, 0, e->w);
}
inline E bin0(Op op, E a, E b);
inline E bin(Op op, E a, E b) { E r = bin0(op, a, b); return r->op == OR && r->w > 1 ? reassembled(r) : r; }
inline E bin0(Op op, E a, E b) {
    unsigned w = a->w;
    if (isK(a) && isK(b)) return cst(foldBin(op, a->c, b->c, w), w);
    switch (op) {
    case MUL: if (isK(b)) return mulK(a, b->c); if (isK(a)) return mulK(b, a->c); break;
    case SHL: if (isK(b)) { if (b->c >= w) return cst(0, w); return mulK(a, 1ull << b->c); } break;
    case AND:
        if (w == 1) return band(a, b);
        if (isK(a)) std::swap(a, b);
        if (isK(b, 0)) return b;
        if (isK(b) && b->c == maskOf(w)) return a;
        if (a == b) return a;
        if (isK(b) && (b->c & (b->c + 1)) == 0) { // low mask
            if (a->maxv <= b->c) return a;
            unsigned n = 64 - __builtin_clzll(b->c);
            return zext(extract(a, 0, n), w);
        }
        if (a->op == ZEXT && isK(b)) return zext(bin(AND, a->kids[0], cst(b->c, a->kids[0]->w)), w);
        if (a->op == ITE && isK(b) && isK(a->kids[1]) && isK(a->kids[2])) return ite(a->kids[0], cst(a->kids[1]->c & b->c, w), cst(a->kids[2]->c & b->c, w));
        break;
    case OR:
        if (w == 1) return bor(a, b);
        if (isK(a)) std::swap(a, b);
        if (isK(b, 0) || a == b) return a;
        break;
    case XOR:
        if (w == 1) { if (isK(a)) std::swap(a, b); if (isK(b)) return b->c ? bnot(a) : a; if (a == b) return fls(); return bnot(eq(a, b)); }
        if (isK(a)) std::swap(a, b);
        if (isK(b, 0)) return a;
        if (a == b) return cst(0, w);
        if (isK(b) && b->c == maskOf(w)) return sub(cst(~0ull, w), a);
        break;
    case LSHR: case ASHR:
        if (isK(b, 0)) return a;
        if (isK(b) && (op == LSHR || a->maxv < (1ull << (w - 1)))) {
            if (b->c >= w) return cst(0, w);
            return zext(extract(a, b->c, w - b->c), w);
        }
        break;
    case UDIV: case SDIV:
        if (isK(b, 1)) return a;
        if (isK(b) && sext64(b->c, w) > 0) {
            int64_t k = sext64(b->c, w);
            Iv iv = ivOf(a);
            if (iv.ok && (op == SDIV || iv.lo >= 0)) {
                bool ok = true;
                if (a->op == LIN) {
                    if (sext64(a->c, w) % k) ok = false;
                    for (uint64_t q : a->coef) if (sext64(q, w) % k) ok = false;
                } else ok = false;
                if (ok) {
                    Lin l{w}; l.c = (uint64_t)(sext64(a->c, w) / k);
                    for (size_t i = 0; i < a->kids.size(); ++i) linAdd(l, a->kids[i], (uint64_t)(sext64(a->coef[i], w) / k));
                    return linMk(l);
                }
            }
        }
        break;
    default: break;
    }
    if ((op == MUL || op == AND || op == OR || op == XOR) && a->id > b->id && !isK(b)) std::swap(a, b);
    return mk(op, w, 0, {a, b});
}
inline E rebuild(E e, const std::vector<E>& k) {
    switch (e->op) {
    case K: case SYM: return e;
    case UF: return ufApp(e->c, k);
    case LIN: { Lin l{(unsigned)e->w}; l.c = e->c; for (size_t i = 0; i < k.size(); ++i) linAdd(l, k[i], e->coef[i]); return linMk(l); }
    case CONCAT: return concat(k[0], k[1]);
    case EXTRACT: return extract(k[0], e->c, e->w);
    case ZEXT: return zext(k[0], e->w);
    case SEXT: return sextE(k[0], e->w);
    case EQ: return eq(k[0], k[1]);
    case ULT: return ult(k[0], k[1]);
    case SLT: return slt(k[0], k[1]);
    case NOT: return bnot(k[0]);
    case ITE: return ite(k[0], k[1], k[2]);
    default: return bin(e->op, k[0], k[1]);
    }
}
// substitution of atoms by constants/terms
inline E substRec(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& memo) {
    if (!e->hasSym) return e;
    auto it = m.find(e);
    if (it != m.end()) return it->second->hasSym ? substRec(it->second, m, memo) : it->second;
    if (e->kids.empty()) return e;
    auto mi = memo.find(e);
    if (mi != memo.end()) return mi->second;
    std::vector<E> k; bool ch = false;
    for (E x : e->kids) { E y = substRec(x, m, memo); ch |= (y != x); k.push_back(y); }
    E r = ch ? rebuild(e, k) : e;
    if (ch) { auto it2 = m.find(r); if (it2 != m.end()) r = it2->second->hasSym ? substRec(it2->second, m, memo) : it2->second; }
    return memo[e] = r;
}
inline void strRec(E e, std::string& s, int depth) {
    static const char* nm[] = {"K","SYM","UF","+","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","concat","extract","zext","sext","=","<u","<s","not","ite"};
    if (depth > 40) { s += "..."; return; }
    char b[64];
    if (e->op == K) { if (e->w == 64 && (int64_t)e->c < 0) snprintf(b, 64, "%lld", (long long)e->c); else snprintf(b, 64, "%llu", (unsigned long long)e->c); s += b; return; }
    if (e->op == SYM) { s += P().syms[e->c].name; return; }
    s += "(";
    if (e->op == UF) s += P().ufs[e->c].name; else s += nm[e->op];
    if (e->op == EXTRACT || e->op == ZEXT || e->op == SEXT) { snprintf(b, 64, "[%d,%d]", (int)(e->op == EXTRACT ? e->c : 0), e->w); s += b; }
    for (size_t i = 0; i < e->kids.size(); ++i) {
        s += " ";
        if (e->op == LIN && e->coef[i] != 1) { snprintf(b, 64, "%lld*", (long long)sext64(e->coef[i], e->w)); s += b; }
        strRec(e->kids[i], s, depth + 1);
    }
    if (e->op == LIN && e->c) { snprintf(b, 64, " %lld", (long long)sext64(e->c, e->w)); s += b; }
    s += ")";
}
inline std::string str(E e) { std::string s; strRec(e, s, 0); return s; }

// ---------- models
struct Model {
    std::unordered_map<uint64_t, uint64_t> sym;                                  // SYM id -> value
    std::map<std::pair<unsigned, std::vector<uint64_t>>, uint64_t> uf;           // (uf,args) -> value
};
inline uint64_t evalRec(E e, const Model& m, std::unordered_map<E, uint64_t>& memo) {
    if (e->op == K) return e->c;
    if (e->op == SYM) { auto it = m.sym.find(e->c); return it == m.sym.end() ? 0 : it->second; }
    auto mi = memo.find(e);
    if (mi != memo.end()) return mi->second;
    uint64_t r = 0, mm = maskOf(e->w);
    if (e->op == UF) {
        std::vector<uint64_t> a; for (E k : e->kids) a.push_back(evalRec(k, m, memo));
        auto it = m.uf.find({(unsigned)e->c, a}); r = it == m.uf.end() ? 0 : it->second;
    } else if (e->op == ITE) { r = evalRec(e->kids[0], m, memo) ? evalRec(e->kids[1], m, memo) : evalRec(e->kids[2], m, memo); }
    else if (e->op == LIN) { r = e->c; for (size_t i = 0; i < e->kids.size(); ++i) r += e->coef[i] * evalRec(e->kids[i], m, memo); r &= mm; }
    else if (e->op == AND && e->w == 1) { r = evalRec(e->kids[0], m, memo) && evalRec(e->kids[1], m, memo); }
    else if (e->op == OR && e->w == 1) { r = evalRec(e->kids[0], m, memo) || evalRec(e->kids[1], m, memo); }
    else {
        uint64_t a = evalRec(e->kids[0], m, memo), b = e->kids.size() > 1 ? evalRec(e->kids[1], m, memo) : 0;
        unsigned kw = e->kids[0]->w;
        switch (e->op) {
        case CONCAT: r = (a << e->kids[1]->w) | b; break;
        case EXTRACT: r = (a >> e->c) & mm; break;
        case ZEXT: r = a; break;
        case SEXT: r = (uint64_t)sext64(a, kw) & mm; break;
        case EQ: r = a == b; break;
        case ULT: r = a < b; break;
        case SLT: r = sext64(a, kw) < sext64(b, kw); break;
        case NOT: r = !a; break;
        default: r = foldBin(e->op, a, b, e->w);
        }
    }
    return memo[e] = r;
}
inline uint64_t evalE(E e, const Model& m) { std::unordered_map<E, uint64_t> memo; return evalRec(e, m, memo); }

// ---------- dependency keys: SYM -> id ; constant-arg UF app -> 2^40+expr id ; symbolic-arg UF app -> 2^41+uf id
inline const std::vector<uint64_t>& atomsOf(E e) {
    if (e->atoms) return *e->atoms;
    std::set<uint64_t> s;
    if (e->op == SYM) s.insert(e->c);
    if (e->op == UF) {
        bool symArg = false;
        for (E k : e->kids) symArg |= k->hasSym;
        s.insert((symArg ? (1ull << 41) + e->c : (1ull << 40) + e->id));
    }
    for (E k : e->kids) { auto& a = atomsOf(k); s.insert(a.begin(), a.end()); }
    e->atoms = std::make_shared<std::vector<uint64_t>>(s.begin(), s.end());
    return *e->atoms;
}
inline void ufAppsOf(E e, std::set<E>& out, std::set<E>& seen) {
    if (!e->hasSym || !seen.insert(e).second) return;
    if (e->op == UF) out.insert(e);
    for (E k : e->kids) ufAppsOf(k, out, seen);
}
}  // namespace arv
