    // ---------------------------------------------------------------- interval reasoning over linear forms (exact, avoids most solver queries)
    // Facts of the path are remembered as integer bounds on normalised linear forms.  A machine term is only treated as its
    // integer sum when the known bounds show that it cannot wrap.
    struct LF { std::map<uint32_t, std::pair<E, i128>> t; i128 c = 0; bool ok = true; };
    uint64_t ivHits = 0;
    static bool lfOf(E e, LF& f, i128 k) {
        if (e->op == K) { f.c += k * (i128)sext64(e->c, e->w); return true; }
        auto addT = [&](E a, i128 q) { auto& s = f.t[a->id]; s.first = a; s.second += q; if (!s.second) f.t.erase(a->id); };
        if (e->op == LIN) { f.c += k * (i128)sext64(e->c, e->w); for (size_t i = 0; i < e->kids.size(); ++i) addT(e->kids[i], k * (i128)sext64(e->coef[i], e->w)); }
        else addT(e, k);
        return true;
    }
    std::pair<i128, i128> atomB(E a) {
        i128 lo = 0, hi = (i128)a->maxv;
        auto it = cur->bnd.find(a);
        if (it != cur->bnd.end()) { lo = std::max(lo, (i128)it->second.first); hi = std::min(hi, (i128)it->second.second); }
        return {lo, hi};
    }
    // normalised key of the non-constant part: returns factor g (signed) with form = g * key
    E lfKey(const LF& f, unsigned w, i128& g) {
        g = 0;
        for (auto& p : f.t) { i128 a = p.second.second < 0 ? -p.second.second : p.second.second; while (a) { i128 r = g % a; g = a; a = r; } }
        if (!g) return nullptr;
        if (f.t.begin()->second.second < 0) g = -g;
        if (f.t.size() == 1 && f.t.begin()->second.second == g) return f.t.begin()->second.first;
        Lin l{w};
        for (auto& p : f.t) linAdd(l, p.second.first, (uint64_t)(int64_t)(p.second.second / g));
        return linMk(l);
    }
    std::pair<i128, i128> lfRange(const LF& f, unsigned w) {
        i128 lo = f.c, hi = f.c;
        for (auto& p : f.t) { auto b = atomB(p.second.first); i128 k = p.second.second, x = k * b.first, y = k * b.second; lo += std::min(x, y); hi += std::max(x, y); }
        if (f.t.size() > 1) {
            i128 g; E key = lfKey(f, w, g);
            auto it = key ? cur->bnd.find(key) : cur->bnd.end();
            if (it != cur->bnd.end()) { i128 x = g * it->second.first, y = g * it->second.second; lo = std::max(lo, std::min(x, y) + f.c); hi = std::min(hi, std::max(x, y) + f.c); }
        }
        return {lo, hi};
    }
    // integer difference a-b of the two sides of a comparison; false when a side may wrap
    bool diffOf(E c, LF& d) {
        E a = c->kids[0], b = c->kids[1]; unsigned w = a->w;
        if (w < 2) return false;
        LF x, y; lfOf(a, x, 1); lfOf(b, y, 1);
        if (c->op == ULT) { if (a->op == K) x.c = (i128)a->c; if (b->op == K) y.c = (i128)b->c; }
        auto rx = lfRange(x, w), ry = lfRange(y, w); i128 h = (i128)1 << (w - 1);
        bool uns = rx.first >= 0 && ry.first >= 0 && rx.second < 2 * h && ry.second < 2 * h, sgn = rx.first >= -h && ry.first >= -h && rx.second < h && ry.second < h;
        if (c->op == ULT ? !uns : c->op == SLT ? !sgn : !(uns || sgn)) return false;
        d = x; d.c -= y.c;
        for (auto& p : y.t) { auto& s = d.t[p.first]; s.first = p.second.first; s.second -= p.second.second; if (!s.second) d.t.erase(p.first); }
        return true;
    }
    int ivDecide(E c) { // 1 true, 0 false, 2 unknown
        bool neg = false; if (c->op == NOT) { neg = true; c = c->kids[0]; }
        if (c->op != ULT && c->op != SLT && c->op != EQ) return 2;
        LF d; if (!diffOf(c, d)) return 2;
        auto r = lfRange(d, c->kids[0]->w); int v = 2;
        if (c->op == EQ) { if (r.first > 0 || r.second < 0) v = 0; else if (!r.first && !r.second) v = 1; }
        else { if (r.second < 0) v = 1; else if (r.first >= 0) v = 0; }
        if (v == 2) return 2;
        ++ivHits;
        return neg ? !v : v;
    }
    static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) --q; return q; }
    void bndSet(E key, i128 lo, i128 hi) {
        if (lo < INT64_MIN) lo = INT64_MIN;
        if (hi > INT64_MAX) hi = INT64_MAX;
        auto it = cur->bnd.find(key);
        if (it == cur->bnd.end()) { cur->bnd[key] = {(int64_t)lo, (int64_t)hi}; return; }
        it->second.first = std::max(it->second.first, (int64_t)lo); it->second.second = std::min(it->second.second, (int64_t)hi);
    }
    void learnLe(const LF& d, unsigned w) { // d <= 0
        for (auto& p : d.t) { // each atom from the others
            i128 rest = d.c, k = p.second.second;
            if (d.t.size() > 1) for (auto& q : d.t) if (q.first != p.first) { auto b = atomB(q.second.first); rest += std::min(q.second.second * b.first, q.second.second * b.second); }
            if (rest > ((i128)1 << 62) || rest < -((i128)1 << 62)) continue;
            // k*x <= -rest
            if (k > 0) bndSet(p.second.first, INT64_MIN, fdiv(-rest, k)); else bndSet(p.second.first, -fdiv(-rest, -k), INT64_MAX);
        }
        if (d.t.size() > 1) {
            i128 g; E key = lfKey(d, w, g); // g*key + c <= 0
            if (key) { if (g > 0) bndSet(key, INT64_MIN, fdiv(-d.c, g)); else bndSet(key, -fdiv(-d.c, -g), INT64_MAX); }
        }
    }
    void ivLearn(E c) {
        bool neg = false; if (c->op == NOT) { neg = true; c = c->kids[0]; }
        if (c->op != ULT && c->op != SLT && c->op != EQ) return;
        LF d; if (!diffOf(c, d)) return;
        unsigned w = c->kids[0]->w;
        auto negate = [&](LF f) { for (auto& p : f.t) p.second.second = -p.second.second; f.c = -f.c; return f; };
        if (c->op == EQ) {
            if (!neg) { learnLe(d, w); learnLe(negate(d), w); }
            else { auto r = lfRange(d, w); if (r.first == 0) { LF f = negate(d); f.c += 1; learnLe(f, w); } else if (r.second == 0) { LF f = d; f.c += 1; learnLe(f, w); } }
        } else if (!neg) { d.c += 1; learnLe(d, w); } // d < 0
        else learnLe(negate(d), w);                     // d >= 0
    }
