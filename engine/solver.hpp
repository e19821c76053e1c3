// Z3 back end: slicing of independent constraints, query cache, models, SMT-LIB dumping.
#pragma once
#include "expr.hpp"
#include <chrono>
#include <fstream>
#include <z3.h>

namespace arv {
enum class Sat { SAT, UNSAT, UNKNOWN };

struct Solver {
    Z3_context c; Z3_sort b1; std::unordered_map<E, Z3_ast> memo; std::vector<Z3_func_decl> ufd; std::vector<Z3_ast> symA;
    double secs = 0; uint64_t queries = 0, cacheHits = 0, unknowns = 0; unsigned timeoutMs = 20000;
    double slowest = 0; std::unordered_map<E, Z3_ast> bndMemo;
    std::unordered_map<uint64_t, std::vector<std::pair<std::vector<E>, std::pair<Sat, std::shared_ptr<Model>>>>> cache;
    std::string dumpDir; int dumpN = 0;
    std::vector<std::pair<std::vector<E>, std::string>> proved; // for cross-checking with a second solver
    bool keepProved = false;

    Solver() {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        c = Z3_mk_context_rc(cfg);
        Z3_set_error_handler(c, [](Z3_context cc, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(cc, e)); });
    }
    Z3_sort sorts[65] = {};
    Z3_sort bv(unsigned w) { if (sorts[w]) return sorts[w]; Z3_sort r = w == 1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, w); Z3_inc_ref(c, Z3_sort_to_ast(c, r)); return sorts[w] = r; }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(c, a); return a; }
    Z3_ast num(uint64_t v, unsigned w) { return keep(w == 1 ? (v ? Z3_mk_true(c) : Z3_mk_false(c)) : Z3_mk_unsigned_int64(c, v, bv(w))); }
    Z3_sort s1 = nullptr; Z3_ast bit1(unsigned v) { if (!s1) { s1 = Z3_mk_bv_sort(c, 1); Z3_inc_ref(c, Z3_sort_to_ast(c, s1)); } return keep(Z3_mk_unsigned_int64(c, v, s1)); }
    Z3_ast tr(E e) {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        std::vector<Z3_ast> k;
        for (E x : e->kids) k.push_back(tr(x));
        Z3_ast r = nullptr;
        unsigned w = e->w;
        switch (e->op) {
        case K: r = num(e->c, w); break;
        case SYM: {
            if (symA.size() <= e->c) symA.resize(e->c + 1, nullptr);
            std::string n = "s" + std::to_string(e->c);
            r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), bv(w)); symA[e->c] = r; break;
        }
        case UF: {
            if (ufd.size() <= e->c) ufd.resize(e->c + 1, nullptr);
            if (!ufd[e->c]) {
                std::vector<Z3_sort> ds; for (E x : e->kids) ds.push_back(bv(x->w));
                std::string n = "f" + std::to_string(e->c);
                ufd[e->c] = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, n.c_str()), ds.size(), ds.data(), bv(w));
                Z3_inc_ref(c, Z3_func_decl_to_ast(c, ufd[e->c]));
            }
            r = Z3_mk_app(c, ufd[e->c], k.size(), k.data()); break;
        }
        case LIN: {
            r = e->c ? num(e->c, w) : nullptr;
            for (size_t i = 0; i < k.size(); ++i) {
                Z3_ast t = keep(k[i]);
                uint64_t co = e->coef[i]; bool neg = sext64(co, w) < 0;
                uint64_t ac = neg ? (0 - co) & maskOf(w) : co;
                if (ac != 1) t = keep(Z3_mk_bvmul(c, num(ac, w), t));
                if (!r) r = neg ? Z3_mk_bvneg(c, t) : t;
                else r = neg ? Z3_mk_bvsub(c, r, t) : Z3_mk_bvadd(c, r, t);
                keep(r);
            }
            break;
        }
        case MUL: r = Z3_mk_bvmul(c, k[0], k[1]); break;
        case UDIV: r = Z3_mk_bvudiv(c, k[0], k[1]); break;
        case SDIV: r = Z3_mk_bvsdiv(c, k[0], k[1]); break;
        case UREM: r = Z3_mk_bvurem(c, k[0], k[1]); break;
        case SREM: r = Z3_mk_bvsrem(c, k[0], k[1]); break;
        case AND: r = w == 1 ? Z3_mk_and(c, 2, k.data()) : Z3_mk_bvand(c, k[0], k[1]); break;
        case OR: r = w == 1 ? Z3_mk_or(c, 2, k.data()) : Z3_mk_bvor(c, k[0], k[1]); break;
        case XOR: r = w == 1 ? Z3_mk_xor(c, k[0], k[1]) : Z3_mk_bvxor(c, k[0], k[1]); break;
        case SHL: r = Z3_mk_bvshl(c, k[0], k[1]); break;
        case LSHR: r = Z3_mk_bvlshr(c, k[0], k[1]); break;
        case ASHR: r = Z3_mk_bvashr(c, k[0], k[1]); break;
        case CONCAT: r = Z3_mk_concat(c, b2v(e->kids[0], k[0]), b2v(e->kids[1], k[1])); break;
        case EXTRACT: r = Z3_mk_extract(c, e->c + w - 1, e->c, k[0]);
            if (w == 1) { keep(r); r = Z3_mk_eq(c, r, bit1(1)); } break;
        case ZEXT: r = e->kids[0]->w == 1 ? Z3_mk_ite(c, k[0], num(1, w), num(0, w)) : Z3_mk_zero_ext(c, w - e->kids[0]->w, k[0]); break;
        case SEXT: r = Z3_mk_sign_ext(c, w - e->kids[0]->w, k[0]); break;
        case EQ: r = Z3_mk_eq(c, k[0], k[1]); break;
        case ULT: r = e->kids[0]->w == 1 ? Z3_mk_and(c, 2, (tmp2[0] = keep(Z3_mk_not(c, k[0])), tmp2[1] = k[1], tmp2)) : Z3_mk_bvult(c, k[0], k[1]); break;
        case SLT: r = Z3_mk_bvslt(c, k[0], k[1]); break;
        case NOT: r = Z3_mk_not(c, k[0]); break;
        case ITE: r = Z3_mk_ite(c, k[0], k[1], k[2]); break;
        }
        keep(r);
        return memo[e] = r;
    }
    Z3_ast tmp2[2];
    Z3_ast b2v(E e, Z3_ast a) { if (e->w != 1) return a; return keep(Z3_mk_ite(c, a, bit1(1), bit1(0))); }


    // ---------------------------------------------------------------- linear integer encoding (exact; gives up on terms that may wrap)
    struct NoLia {};
    struct IT { Z3_ast a; i128 lo, hi; };       // integer congruent (mod 2^w) to the term, with a known range
    // second encoding: terms outside linear arithmetic become unknown numbers (only its "unsat" answers are used)
    bool absMode = false; std::unordered_map<E, IT> memoIx[2]; std::unordered_map<E, Z3_ast> memoBx[2]; std::unordered_map<E, Z3_ast> absB; std::vector<Z3_func_decl> ufdI; std::unordered_map<E, Z3_ast> bndI; std::unordered_map<E, bool> noLia;
    Z3_sort intS = nullptr;
    Z3_sort ints() { if (!intS) { intS = Z3_mk_int_sort(c); Z3_inc_ref(c, Z3_sort_to_ast(c, intS)); } return intS; }
    Z3_ast inum(i128 v) {
        if (v >= INT64_MIN && v <= INT64_MAX) return keep(Z3_mk_int64(c, (int64_t)v, ints()));
        bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v; std::string t; do { t = char('0' + (int)(u % 10)) + t; u /= 10; } while (u);
        if (neg) t = "-" + t;
        return keep(Z3_mk_numeral(c, t.c_str(), ints()));
    }
    Z3_ast iadd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_add(c, 2, x)); }
    Z3_ast imul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_mul(c, 2, x)); }
    static i128 p2(unsigned w) { return (i128)1 << w; }
    IT canon(E e) { // value in [0, 2^w)
        IT t = trI(e);
        if (t.lo >= 0 && t.hi < p2(e->w)) return t;
        if (t.lo >= -p2(e->w) && t.hi < p2(e->w)) {
            Z3_ast z = keep(Z3_mk_lt(c, t.a, inum(0)));
            return {keep(Z3_mk_ite(c, z, iadd(t.a, inum(p2(e->w))), t.a)), 0, p2(e->w) - 1};
        }
        throw NoLia{};
    }
    IT signedI(E e) { // value in [-2^(w-1), 2^(w-1))
        IT t = trI(e); i128 h = p2(e->w - 1);
        if (t.lo >= -h && t.hi < h) return t;
        if (t.lo >= 0 && t.hi < 2 * h) { Z3_ast z = keep(Z3_mk_ge(c, t.a, inum(h))); return {keep(Z3_mk_ite(c, z, iadd(t.a, inum(-2 * h)), t.a)), -h, h - 1}; }
        throw NoLia{};
    }
    IT trI(E e) {
        auto& memoI = memoIx[absMode];
        auto it = memoI.find(e); if (it != memoI.end()) return it->second;
        if (absMode && e->w > 1) {
            try { IT r = trI0(e); keep(r.a); return memoI[e] = r; }
            catch (NoLia&) {
                std::string n = "x" + std::to_string(e->id);
                IT r{keep(Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), ints())), 0, (i128)e->maxv};
                Z3_ast x[2] = {keep(Z3_mk_ge(c, r.a, inum(0))), keep(Z3_mk_le(c, r.a, inum((i128)e->maxv)))}; absB[e] = keep(Z3_mk_and(c, 2, x));
                return memoI[e] = r;
            }
        }
        if (noLia.count(e)) throw NoLia{};
        try { IT r = trI0(e); keep(r.a); return memoI[e] = r; } catch (NoLia&) { noLia[e] = true; throw; }
    }
    IT trI0(E e) {
        unsigned w = e->w;
        if (w == 1) throw NoLia{};
        i128 mx = (i128)e->maxv;
        switch (e->op) {
        case K: return {inum((i128)e->c), (i128)e->c, (i128)e->c};
        case SYM: { std::string n = "i" + std::to_string(e->c); return {Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), ints()), 0, mx}; }
        case UF: return {ufI(e), 0, mx};
        case LIN: {
            i128 cc = sext64(e->c, w), lo = cc, hi = cc; std::vector<Z3_ast> ts; if (cc) ts.push_back(inum(cc));
            for (size_t i = 0; i < e->kids.size(); ++i) {
                IT t = trI(e->kids[i]); i128 k = sext64(e->coef[i], w); i128 a = k * t.lo, b = k * t.hi;
                if (t.hi > p2(63) || t.lo < -p2(63) || (k > p2(40) || k < -p2(40))) throw NoLia{};
                lo += std::min(a, b); hi += std::max(a, b);
                ts.push_back(k == 1 ? t.a : imul(inum(k), t.a));
            }
            if (lo < -p2(w - 1) || hi >= p2(w - 1)) { if (lo < 0 || hi >= p2(w)) throw NoLia{}; }
            Z3_ast r = ts.size() == 1 ? ts[0] : keep(Z3_mk_add(c, ts.size(), ts.data()));
            return {r, lo, hi};
        }
        case ZEXT: if (e->kids[0]->w == 1) return {keep(Z3_mk_ite(c, trB(e->kids[0]), inum(1), inum(0))), 0, 1}; return canon(e->kids[0]);
        case SEXT: { if (e->kids[0]->w == 1) return {keep(Z3_mk_ite(c, trB(e->kids[0]), inum(-1), inum(0))), -1, 0}; return signedI(e->kids[0]); }
        case ITE: { IT a = trI(e->kids[1]), b = trI(e->kids[2]); return {keep(Z3_mk_ite(c, trB(e->kids[0]), a.a, b.a)), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
        case CONCAT: {
            auto part = [&](E k) -> IT { if (k->w == 1) return IT{keep(Z3_mk_ite(c, trB(k), inum(1), inum(0))), 0, 1}; return canon(k); };
            IT a = part(e->kids[0]), b = part(e->kids[1]); i128 f = p2(e->kids[1]->w);
            if (a.hi * f + b.hi >= p2(64)) throw NoLia{};
            return {iadd(imul(inum(f), a.a), b.a), a.lo * f + b.lo, a.hi * f + b.hi};
        }
        case EXTRACT: {
            IT a = canon(e->kids[0]);
            if (e->c == 0 && a.hi < p2(w)) return a;
            Z3_ast x = a.a; if (e->c) x = keep(Z3_mk_div(c, x, inum(p2(e->c))));
            if (a.hi >= p2(e->c + w)) x = keep(Z3_mk_mod(c, x, inum(p2(w))));
            return {x, 0, std::min<i128>(p2(w) - 1, a.hi >> e->c)};
        }
        case AND: { // with a run of ones
            E a = e->kids[0], b = e->kids[1]; if (a->op == K) std::swap(a, b);
            if (b->op != K || !b->c) throw NoLia{};
            unsigned lo = __builtin_ctzll(b->c); uint64_t m = b->c >> lo; if (m & (m + 1)) throw NoLia{};
            unsigned n = __builtin_popcountll(m);
            IT t = canon(a); Z3_ast x = t.a;
            if (lo) x = keep(Z3_mk_div(c, x, inum(p2(lo))));
            if (t.hi >= p2(lo + n)) x = keep(Z3_mk_mod(c, x, inum(p2(n))));
            if (lo) x = imul(inum(p2(lo)), x);
            return {x, 0, (i128)b->c};
        }
        case UDIV: { if (e->kids[1]->op != K || !e->kids[1]->c) throw NoLia{}; IT a = canon(e->kids[0]); return {keep(Z3_mk_div(c, a.a, inum((i128)e->kids[1]->c))), a.lo / (i128)e->kids[1]->c, a.hi / (i128)e->kids[1]->c}; }
        case UREM: { if (e->kids[1]->op != K || !e->kids[1]->c) throw NoLia{}; IT a = canon(e->kids[0]); return {keep(Z3_mk_mod(c, a.a, inum((i128)e->kids[1]->c))), 0, (i128)e->kids[1]->c - 1}; }
        case LSHR: { if (e->kids[1]->op != K || e->kids[1]->c >= w) throw NoLia{}; IT a = canon(e->kids[0]); return {keep(Z3_mk_div(c, a.a, inum(p2(e->kids[1]->c)))), a.lo >> e->kids[1]->c, a.hi >> e->kids[1]->c}; }
        default: throw NoLia{};
        }
    }
    Z3_ast ufI(E e) {
        if (ufdI.size() <= e->c) ufdI.resize(e->c + 1, nullptr);
        if (!ufdI[e->c]) {
            std::vector<Z3_sort> ds; for (E x : e->kids) ds.push_back(x->w == 1 ? bv(1) : ints());
            std::string n = "g" + std::to_string(e->c);
            ufdI[e->c] = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, n.c_str()), ds.size(), ds.data(), e->w == 1 ? bv(1) : ints());
            Z3_inc_ref(c, Z3_func_decl_to_ast(c, ufdI[e->c]));
        }
        std::vector<Z3_ast> k; for (E x : e->kids) k.push_back(x->w == 1 ? trB(x) : canon(x).a);
        return keep(Z3_mk_app(c, ufdI[e->c], k.size(), k.data()));
    }
    Z3_ast trB(E e) {
        auto& memoB = memoBx[absMode];
        auto it = memoB.find(e); if (it != memoB.end()) return it->second;
        if (absMode && e->w == 1) {
            try { return memoB[e] = keep(trB0(e)); }
            catch (NoLia&) { std::string n = "y" + std::to_string(e->id); return memoB[e] = keep(Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), bv(1))); }
        }
        if (noLia.count(e)) throw NoLia{};
        try { return memoB[e] = keep(trB0(e)); } catch (NoLia&) { noLia[e] = true; throw; }
    }
    Z3_ast trB0(E e) {
        if (e->w != 1) throw NoLia{};
        auto two = [&](Z3_ast a, Z3_ast b, bool conj) { Z3_ast x[2] = {a, b}; return conj ? Z3_mk_and(c, 2, x) : Z3_mk_or(c, 2, x); };
        switch (e->op) {
        case K: return e->c ? Z3_mk_true(c) : Z3_mk_false(c);
        case SYM: { std::string n = "p" + std::to_string(e->c); return Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), bv(1)); }
        case UF: return ufI(e);
        case NOT: return Z3_mk_not(c, trB(e->kids[0]));
        case AND: return two(trB(e->kids[0]), trB(e->kids[1]), true);
        case OR: return two(trB(e->kids[0]), trB(e->kids[1]), false);
        case XOR: return Z3_mk_xor(c, trB(e->kids[0]), trB(e->kids[1]));
        case ITE: return Z3_mk_ite(c, trB(e->kids[0]), trB(e->kids[1]), trB(e->kids[2]));
        case EQ: {
            E a = e->kids[0], b = e->kids[1];
            if (a->w == 1) return Z3_mk_eq(c, trB(a), trB(b));
            IT x = trI(a), y = trI(b); i128 h = p2(a->w - 1);
            bool win = (x.lo >= -h && x.hi < h && y.lo >= -h && y.hi < h) || (x.lo >= 0 && y.lo >= 0 && x.hi < 2 * h && y.hi < 2 * h);
            if (!win) { x = canon(a); y = canon(b); }
            return Z3_mk_eq(c, x.a, y.a);
        }
        case ULT: { E a = e->kids[0], b = e->kids[1]; if (a->w == 1) return two(keep(Z3_mk_not(c, trB(a))), trB(b), true); return Z3_mk_lt(c, canon(a).a, canon(b).a); }
        case SLT: { E a = e->kids[0], b = e->kids[1]; if (a->w == 1) throw NoLia{}; return Z3_mk_lt(c, signedI(a).a, signedI(b).a); }
        case EXTRACT: { IT a = canon(e->kids[0]); Z3_ast x = a.a; if (e->c) x = keep(Z3_mk_div(c, x, inum(p2(e->c)))); x = keep(Z3_mk_mod(c, x, inum(2))); return Z3_mk_eq(c, x, inum(1)); }
        default: throw NoLia{};
        }
    }
    bool useLia = !getenv("ARV_NOLIA"); uint64_t liaQ = 0, bvQ = 0;

    // bounds on atoms (maxv) that must be asserted alongside
    void boundsOf(E e, std::set<E>& out, std::set<E>& seen) {
        if (!e->hasSym || !seen.insert(e).second) return;
        if ((e->op == SYM || e->op == UF) && e->maxv < maskOf(e->w)) out.insert(e);
        for (E k : e->kids) boundsOf(k, out, seen);
    }
    bool encode(const std::vector<E>& cs, std::vector<Z3_ast>& as, bool abs) {
        bool ok = true; absMode = abs;
        try {
            std::set<E> sn; std::vector<E> st;
            for (E e : cs) { as.push_back(trB(e)); st.push_back(e); }
            while (!st.empty()) {
                E e = st.back(); st.pop_back(); if (!e->hasSym || !sn.insert(e).second) continue;
                if ((e->op == SYM || e->op == UF) && e->w > 1) {
                    if (!abs) {
                        auto& b = bndI[e];
                        if (!b) { Z3_ast x[2] = {keep(Z3_mk_ge(c, trI(e).a, inum(0))), keep(Z3_mk_le(c, trI(e).a, inum((i128)e->maxv)))}; b = keep(Z3_mk_and(c, 2, x)); }
                        as.push_back(b);
                    } else { Z3_ast x[2] = {keep(Z3_mk_ge(c, trI(e).a, inum(0))), keep(Z3_mk_le(c, trI(e).a, inum((i128)e->maxv)))}; as.push_back(keep(Z3_mk_and(c, 2, x))); }
                } else if (abs) { auto it = absB.find(e); if (it != absB.end()) as.push_back(it->second); }
                for (E k : e->kids) st.push_back(k);
            }
        } catch (NoLia&) { ok = false; }
        absMode = false;
        return ok;
    }
    uint64_t absQ = 0;
    Sat rawCheck(const std::vector<E>& cs, std::shared_ptr<Model>* mo) {
        if (useLia) {
            std::vector<Z3_ast> as;
            if (encode(cs, as, false)) { ++liaQ; Sat r = solve(cs, as, mo, true); if (r != Sat::UNKNOWN) return r; }
            else { as.clear(); if (encode(cs, as, true)) { ++absQ; std::shared_ptr<Model> none; if (solve(cs, as, nullptr, true) == Sat::UNSAT) return Sat::UNSAT; } }
        }
        ++bvQ;
        std::set<E> bnd, seen; std::vector<Z3_ast> as;
        for (E e : cs) { as.push_back(tr(e)); boundsOf(e, bnd, seen); }
        for (E e : bnd) { auto& b = bndMemo[e]; if (!b) b = keep(Z3_mk_bvule(c, tr(e), num(e->maxv, e->w))); as.push_back(b); }
        Sat r = solve(cs, as, mo, false);
        if (r == Sat::UNKNOWN) unknowns++;
        return r;
    }
    Sat solve(const std::vector<E>& cs, const std::vector<Z3_ast>& as, std::shared_ptr<Model>* mo, bool lia) {
        auto t0 = std::chrono::steady_clock::now();
        Z3_solver s = Z3_mk_simple_solver(c);
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), lia ? std::min(timeoutMs, 4000u) : timeoutMs);
        Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
        for (auto a : as) Z3_solver_assert(c, s, a);
        Z3_lbool r = Z3_solver_check(c, s);
        Sat res = r == Z3_L_TRUE ? Sat::SAT : r == Z3_L_FALSE ? Sat::UNSAT : Sat::UNKNOWN;
        auto TR = [&](E e) { return !lia ? tr(e) : e->w == 1 ? trB(e) : canon(e).a; };
        if (res == Sat::SAT && mo) {
            Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
            auto out = std::make_shared<Model>();
            auto val = [&](Z3_ast a, unsigned w) -> uint64_t {
                Z3_ast v = nullptr; 
                if (!Z3_model_eval(c, m, a, true, &v)) return 0;
                keep(v);
                if (w == 1) return Z3_get_bool_value(c, v) == Z3_L_TRUE;
                uint64_t x = 0; 
                if (Z3_get_ast_kind(c, v) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(c, v, &x);
                return x;
            };
            std::set<E> sn, apps; std::vector<E> st(cs.begin(), cs.end()); std::set<E> all;
            while (!st.empty()) { E e = st.back(); st.pop_back(); if (!e->hasSym || !sn.insert(e).second) continue; if (e->op == SYM || e->op == UF) all.insert(e); for (E k : e->kids) st.push_back(k); }
            for (E e : all) if (e->op == SYM) out->sym[e->c] = val(TR(e), e->w);
            for (E e : all) if (e->op == UF) {
                std::vector<uint64_t> a; for (E k : e->kids) a.push_back(val(TR(k), k->w));
                out->uf[{(unsigned)e->c, a}] = val(TR(e), e->w);
            }
            *mo = out;
            Z3_model_dec_ref(c, m);
        }
        Z3_solver_dec_ref(c, s);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        secs += dt; slowest = std::max(slowest, dt); queries++;
        if (dt > (getenv("ARV_SLOW") ? atof(getenv("ARV_SLOW")) : 3) && getenv("ARV_SLOW")) { fprintf(stderr, "slow query %.1fs res %d\n", dt, (int)res); for (E e : cs) fprintf(stderr, "   %s\n", str(e).c_str()); }
        return res;
    }
    // constraints related to cond
    std::vector<E> slice(const std::vector<E>& pc, E cond) {
        std::set<uint64_t> keys; 
        std::vector<bool> in(pc.size(), false);
        auto addA = [&](E e) { auto& a = atomsOf(e); keys.insert(a.begin(), a.end()); };
        addA(cond);
        // a symbolic-argument UF key pulls in every app of that UF
        auto touches = [&](E e) {
            for (uint64_t a : atomsOf(e)) {
                if (keys.count(a)) return true;
                if (a >= (1ull << 41)) { // symbolic app: related if any app of same uf is in keys
                    unsigned f = a - (1ull << 41);
                    for (auto it = keys.lower_bound(1ull << 40); it != keys.end() && *it < (1ull << 41); ++it)
                        if (P().all[*it - (1ull << 40)]->c == f) return true;
                } else if (a >= (1ull << 40)) {
                    if (keys.count((1ull << 41) + P().all[a - (1ull << 40)]->c)) return true;
                }
            }
            return false;
        };
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); ++i)
                if (!in[i] && touches(pc[i])) { in[i] = true; addA(pc[i]); ch = true; }
        }
        std::vector<E> r;
        for (size_t i = 0; i < pc.size(); ++i) if (in[i]) r.push_back(pc[i]);
        r.push_back(cond);
        std::sort(r.begin(), r.end(), [](E a, E b) { return a->id < b->id; });
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }
    // satisfiability of pc & cond given that pc is satisfiable
    Sat check(const std::vector<E>& pc, E cond, std::shared_ptr<Model>* mo) {
        if (isK(cond)) { if (!cond->c) return Sat::UNSAT; }
        auto q = slice(pc, cond);
        uint64_t h = 1469598103934665603ull;
        for (E e : q) h = (h ^ e->id) * 1099511628211ull;
        auto& bucket = cache[h];
        for (auto& en : bucket) if (en.first == q) { cacheHits++; if (mo) *mo = en.second.second; return en.second.first; }
        std::shared_ptr<Model> m;
        Sat r = rawCheck(q, &m);
        if (r == Sat::UNSAT && keepProved) proved.push_back({q, ""});
        bucket.push_back({q, {r, m}});
        if (mo) *mo = m;
        return r;
    }
    std::string smt2(const std::vector<E>& cs) {
        std::vector<Z3_ast> as; std::set<E> bnd, seen;
        for (E e : cs) { as.push_back(tr(e)); boundsOf(e, bnd, seen); }
        for (E e : bnd) as.push_back(keep(Z3_mk_bvule(c, tr(e), num(e->maxv, e->w))));
        Z3_ast last = as.back(); as.pop_back();
        return Z3_benchmark_to_smtlib_string(c, "arv", "QF_UFBV", "unknown", "", as.size(), as.data(), last);
    }
};
}  // namespace arv
