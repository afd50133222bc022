/*
 * Stand-in for the CUDD package (which is not installed): the part of its C interface that the
 * sample programs can use, with complement edges and reference counts like the original.
 * Unreferenced nodes really go away (they are collected before operations), a diagram with
 * complemented else edges looks like CUDD's, and the package must not be changed by two threads
 * at once; misuse is reported and ends the program.
 */
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#ifdef _OPENMP
#include <omp.h>
#endif

struct DdNode { unsigned index; long ref; DdNode* T; DdNode* E; unsigned mark; };

#define CUDD_UNIQUE_SLOTS 256
#define CUDD_CACHE_SLOTS 262144
#define CUDD_CONST_INDEX 0x7fffffffu
#define CUDD_OUT_OF_MEM (-1)
typedef enum {
    CUDD_REORDER_SAME, CUDD_REORDER_NONE, CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT,
    CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_EXACT
} Cudd_ReorderingType;

inline DdNode* Cudd_Regular(DdNode const* f) { return reinterpret_cast<DdNode*>(reinterpret_cast<uintptr_t>(f) & ~uintptr_t(1)); }
inline DdNode* Cudd_Complement(DdNode const* f) { return reinterpret_cast<DdNode*>(reinterpret_cast<uintptr_t>(f) | uintptr_t(1)); }
inline int Cudd_IsComplement(DdNode const* f) { return int(reinterpret_cast<uintptr_t>(f) & 1); }
inline DdNode* Cudd_Not(DdNode const* f) { return reinterpret_cast<DdNode*>(reinterpret_cast<uintptr_t>(f) ^ uintptr_t(1)); }
inline DdNode* Cudd_NotCond(DdNode const* f, int c) { return reinterpret_cast<DdNode*>(reinterpret_cast<uintptr_t>(f) ^ uintptr_t(c ? 1 : 0)); }

namespace cuddstandin {
inline void misuse(char const* what) {
    std::fprintf(stderr, "\nCUDD-MISUSE: %s\n", what);
    std::fflush(stderr);
    std::abort();
}
}

inline int Cudd_IsConstant(DdNode const* f) { return Cudd_Regular(f)->index == CUDD_CONST_INDEX; }
inline unsigned int Cudd_NodeReadIndex(DdNode const* f) { return Cudd_Regular(f)->index; }
inline DdNode* Cudd_T(DdNode const* f) { if (Cudd_IsConstant(f)) cuddstandin::misuse("child of a constant"); return Cudd_Regular(f)->T; }
inline DdNode* Cudd_E(DdNode const* f) { if (Cudd_IsConstant(f)) cuddstandin::misuse("child of a constant"); return Cudd_Regular(f)->E; }

struct DdManager {
    typedef std::tuple<unsigned, DdNode*, DdNode*> Key;
    struct Hash {
        size_t operator()(Key const& k) const {
            return (std::get<0>(k) * 1000003u + reinterpret_cast<uintptr_t>(std::get<1>(k))) * 0x9E3779B97F4A7C15ull
                    + reinterpret_cast<uintptr_t>(std::get<2>(k)) * 0xC2B2AE3D27D4EB4Full;
        }
    };
    DdNode one;
    std::vector<DdNode*> var; // by index
    std::vector<int> pos; // by index: smaller is nearer to the top
    int lowest; // position of the top
    std::unordered_map<Key, DdNode*, Hash> unique;
    std::unordered_map<Key, DdNode*, Hash> memo[4];
    size_t limit, ops, peak;
    unsigned epoch;

    DdManager() : lowest(0), limit(64), ops(0), peak(1), epoch(0) { one.index = CUDD_CONST_INDEX; one.ref = 1; one.T = one.E = 0; one.mark = 0; }
    DdNode* zero() { return Cudd_Not(&one); }
    static void enter() {
#ifdef _OPENMP
        if (omp_in_parallel()) cuddstandin::misuse("the package is changed inside a parallel region");
#endif
    }
    int at(DdNode* f) const { f = Cudd_Regular(f); return f == &one ? 0x7fffffff : pos[f->index]; }
    void touch(DdNode* f) {
        std::vector<DdNode*> st(1, Cudd_Regular(f));
        while (!st.empty()) {
            DdNode* p = st.back();
            st.pop_back();
            if (p->mark == epoch) continue;
            p->mark = epoch;
            if (p != &one) { st.push_back(p->T); st.push_back(Cudd_Regular(p->E)); }
        }
    }
    /** Unreferenced nodes go. */
    void collect() {
        ++epoch;
        touch(&one);
        for (DdNode* v : var) touch(v);
        for (auto& e : unique) if (e.second->ref > 0) touch(e.second);
        for (auto it = unique.begin(); it != unique.end();) {
            if (it->second->mark == epoch) ++it;
            else { delete it->second; it = unique.erase(it); }
        }
        for (auto& m : memo) m.clear();
        limit = std::max<size_t>(64, unique.size() * 2);
    }
    void op() { enter(); if (++ops % 16 == 0 && unique.size() > limit) collect(); }
    DdNode* node(unsigned index, DdNode* t, DdNode* e) {
        if (t == e) return t;
        bool neg = Cudd_IsComplement(t);
        if (neg) { t = Cudd_Not(t); e = Cudd_Not(e); }
        DdNode*& p = unique[Key(index, t, e)];
        if (!p) { p = new DdNode; p->index = index; p->ref = 0; p->T = t; p->E = e; p->mark = 0; }
        if (peak < unique.size() + 1) peak = unique.size() + 1;
        return Cudd_NotCond(p, neg);
    }
    DdNode* cof(DdNode* f, unsigned index, int b) const {
        DdNode* p = Cudd_Regular(f);
        if (p->index != index) return f;
        return Cudd_NotCond(b ? p->T : p->E, Cudd_IsComplement(f));
    }
    unsigned top(DdNode* f, DdNode* g, DdNode* h) const {
        DdNode* t = at(f) < at(g) ? f : g;
        if (at(h) < at(t)) t = h;
        return Cudd_Regular(t)->index;
    }
    DdNode* ite(DdNode* f, DdNode* g, DdNode* h) {
        if (f == &one) return g;
        if (f == zero()) return h;
        if (g == h) return g;
        if (g == &one && h == zero()) return f;
        if (g == zero() && h == &one) return Cudd_Not(f);
        bool a = Cudd_IsComplement(f);
        if (a) { f = Cudd_Not(f); std::swap(g, h); }
        unsigned v = top(f, g, h);
        // keys of the memo table: f, g, h fit a tuple with f's address folded in
        Key k(0, f, g);
        auto& table = iteMemo[h];
        auto it = table.find(k);
        if (it != table.end()) return it->second;
        DdNode* r1 = ite(cof(f, v, 1), cof(g, v, 1), cof(h, v, 1));
        DdNode* r0 = ite(cof(f, v, 0), cof(g, v, 0), cof(h, v, 0));
        return iteMemo[h][k] = node(v, r1, r0);
    }
    std::unordered_map<DdNode*, std::unordered_map<Key, DdNode*, Hash> > iteMemo;
    DdNode* run(DdNode* f, DdNode* g, DdNode* h) { iteMemo.clear(); DdNode* r = ite(f, g, h); iteMemo.clear(); return r; }

    DdNode* exist(DdNode* f, DdNode* cube) {
        if (Cudd_IsConstant(f)) return f;
        while (!Cudd_IsConstant(cube) && at(cube) < at(f)) cube = Cudd_T(cube);
        if (Cudd_IsConstant(cube)) return f;
        Key k(0, f, cube);
        auto it = memo[0].find(k);
        if (it != memo[0].end()) return it->second;
        unsigned v = Cudd_Regular(f)->index;
        DdNode* r1 = exist(cof(f, v, 1), cube);
        DdNode* r0 = exist(cof(f, v, 0), cube);
        DdNode* r = Cudd_Regular(cube)->index == v ? ite(r1, &one, r0) : node(v, r1, r0);
        memo[0][k] = r;
        return r;
    }
    DdNode* constrain(DdNode* f, DdNode* c) {
        if (c == &one || Cudd_IsConstant(f)) return f;
        if (c == zero()) return zero();
        if (f == c) return &one;
        if (f == Cudd_Not(c)) return zero();
        Key k(0, f, c);
        auto it = memo[1].find(k);
        if (it != memo[1].end()) return it->second;
        unsigned v = top(f, c, &one);
        DdNode *c1 = cof(c, v, 1), *c0 = cof(c, v, 0), *r;
        if (c1 == zero()) r = constrain(cof(f, v, 0), c0);
        else if (c0 == zero()) r = constrain(cof(f, v, 1), c1);
        else { DdNode* r1 = constrain(cof(f, v, 1), c1); r = node(v, r1, constrain(cof(f, v, 0), c0)); }
        memo[1][k] = r;
        return r;
    }
    DdNode* cofactor(DdNode* f, DdNode* cube) { // cube of literals
        while (!Cudd_IsConstant(cube) && at(cube) < at(f)) {
            DdNode* t = cof(cube, Cudd_Regular(cube)->index, 1);
            cube = t == zero() ? cof(cube, Cudd_Regular(cube)->index, 0) : t;
        }
        if (Cudd_IsConstant(f) || Cudd_IsConstant(cube)) return f;
        Key k(0, f, cube);
        auto it = memo[2].find(k);
        if (it != memo[2].end()) return it->second;
        unsigned v = Cudd_Regular(f)->index;
        DdNode* r;
        if (Cudd_Regular(cube)->index == v) {
            DdNode* t = cof(cube, v, 1);
            r = t == zero() ? cofactor(cof(f, v, 0), cof(cube, v, 0)) : cofactor(cof(f, v, 1), t);
        }
        else { DdNode* r1 = cofactor(cof(f, v, 1), cube); r = node(v, r1, cofactor(cof(f, v, 0), cube)); }
        memo[2][k] = r;
        return r;
    }
    void nodes(DdNode* f, std::unordered_set<DdNode*>& seen) const {
        std::vector<DdNode*> st(1, Cudd_Regular(f));
        while (!st.empty()) {
            DdNode* p = st.back();
            st.pop_back();
            if (!seen.insert(p).second || p->index == CUDD_CONST_INDEX) continue;
            st.push_back(Cudd_Regular(p->T));
            st.push_back(Cudd_Regular(p->E));
        }
    }
    double density(DdNode* f, std::unordered_map<DdNode*, double>& m) const {
        if (Cudd_IsConstant(f)) return Cudd_IsComplement(f) ? 0 : 1;
        DdNode* p = Cudd_Regular(f);
        auto it = m.find(p);
        double d;
        if (it != m.end()) d = it->second;
        else { d = (density(p->T, m) + density(p->E, m)) / 2; m[p] = d; }
        return Cudd_IsComplement(f) ? 1 - d : d;
    }
    long references() const { long n = 0; for (auto const& e : unique) n += e.second->ref; return n; }
};

inline DdManager* Cudd_Init(unsigned vars, unsigned, unsigned, unsigned, size_t);
inline int Cudd_ReadSize(DdManager* m) { return int(m->var.size()); }
inline DdNode* Cudd_ReadOne(DdManager* m) { return &m->one; }
inline DdNode* Cudd_ReadLogicZero(DdManager* m) { return m->zero(); }
inline void Cudd_Ref(DdNode* f) { DdManager::enter(); if (Cudd_Regular(f) == 0) cuddstandin::misuse("reference of NULL"); ++Cudd_Regular(f)->ref; }
inline void Cudd_Deref(DdNode* f) { DdManager::enter(); if (--Cudd_Regular(f)->ref < 0) cuddstandin::misuse("more references released than taken"); }
inline void Cudd_RecursiveDeref(DdManager*, DdNode* f) { Cudd_Deref(f); }
inline void Cudd_IterDerefBdd(DdManager*, DdNode* f) { Cudd_Deref(f); }
inline DdNode* Cudd_bddNewVarAtLevel(DdManager* m, int level) {
    m->op();
    if (level < 0 || level > int(m->var.size())) cuddstandin::misuse("level of a new variable");
    if (level == 0) m->pos.push_back(--m->lowest);
    else {
        for (int& p : m->pos) if (p >= m->lowest + level) ++p;
        m->pos.push_back(m->lowest + level);
    }
    m->var.push_back(m->node(unsigned(m->var.size()), &m->one, m->zero()));
    return m->var.back();
}
inline DdNode* Cudd_bddNewVar(DdManager* m) { return Cudd_bddNewVarAtLevel(m, int(m->var.size())); }
inline DdNode* Cudd_bddIthVar(DdManager* m, int i) {
    if (i < 0) cuddstandin::misuse("variable index");
    while (i >= int(m->var.size())) Cudd_bddNewVar(m);
    return m->var[i];
}
inline DdManager* Cudd_Init(unsigned vars, unsigned, unsigned, unsigned, size_t) { DdManager* m = new DdManager; while (vars--) Cudd_bddNewVar(m); return m; }
inline int Cudd_ReadPerm(DdManager* m, int i) { return m->pos[i] - m->lowest; }
inline int Cudd_ReadInvPerm(DdManager* m, int p) { return int(std::find(m->pos.begin(), m->pos.end(), p + m->lowest) - m->pos.begin()); }
inline long Cudd_ReadPeakLiveNodeCount(DdManager* m) { return long(m->peak); }
inline int Cudd_DagSize(DdNode* f) { std::unordered_set<DdNode*> s; DdManager().nodes(f, s); return int(s.size()); }
inline int Cudd_SharingSize(DdNode** f, int n) { std::unordered_set<DdNode*> s; DdManager m; for (int i = 0; i < n; ++i) m.nodes(f[i], s); return int(s.size()); }
inline double Cudd_CountMinterm(DdManager* m, DdNode* f, int n) { std::unordered_map<DdNode*, double> d; return std::ldexp(m->density(f, d), n); }
inline DdNode* Cudd_bddIte(DdManager* m, DdNode* f, DdNode* g, DdNode* h) { m->op(); return m->run(f, g, h); }
inline DdNode* Cudd_bddAnd(DdManager* m, DdNode* f, DdNode* g) { m->op(); return m->run(f, g, m->zero()); }
inline DdNode* Cudd_bddOr(DdManager* m, DdNode* f, DdNode* g) { m->op(); return m->run(f, &m->one, g); }
inline DdNode* Cudd_bddXor(DdManager* m, DdNode* f, DdNode* g) { m->op(); return m->run(f, Cudd_Not(g), g); }
inline DdNode* Cudd_bddXnor(DdManager* m, DdNode* f, DdNode* g) { m->op(); return m->run(f, g, Cudd_Not(g)); }
inline DdNode* Cudd_bddNand(DdManager* m, DdNode* f, DdNode* g) { return Cudd_Not(Cudd_bddAnd(m, f, g)); }
inline DdNode* Cudd_bddNor(DdManager* m, DdNode* f, DdNode* g) { return Cudd_Not(Cudd_bddOr(m, f, g)); }
inline int Cudd_bddLeq(DdManager* m, DdNode* f, DdNode* g) { m->op(); return m->run(f, Cudd_Not(g), m->zero()) == m->zero(); }
inline DdNode* Cudd_bddExistAbstract(DdManager* m, DdNode* f, DdNode* cube) { m->op(); m->memo[0].clear(); m->iteMemo.clear(); DdNode* r = m->exist(f, cube); m->memo[0].clear(); m->iteMemo.clear(); return r; }
inline DdNode* Cudd_bddUnivAbstract(DdManager* m, DdNode* f, DdNode* cube) { return Cudd_Not(Cudd_bddExistAbstract(m, Cudd_Not(f), cube)); }
inline DdNode* Cudd_bddAndAbstract(DdManager* m, DdNode* f, DdNode* g, DdNode* cube) { m->op(); m->memo[0].clear(); m->iteMemo.clear(); DdNode* r = m->exist(m->ite(f, g, m->zero()), cube); m->memo[0].clear(); m->iteMemo.clear(); return r; }
inline DdNode* Cudd_bddConstrain(DdManager* m, DdNode* f, DdNode* c) { m->op(); m->memo[1].clear(); return m->constrain(f, c); }
inline DdNode* Cudd_bddRestrict(DdManager* m, DdNode* f, DdNode* c) { return Cudd_bddConstrain(m, f, c); }
inline DdNode* Cudd_bddMinimize(DdManager* m, DdNode* f, DdNode* c) { return Cudd_bddConstrain(m, f, c); }
inline DdNode* Cudd_Cofactor(DdManager* m, DdNode* f, DdNode* cube) { m->op(); m->memo[2].clear(); return m->cofactor(f, cube); }
inline DdNode* Cudd_Support(DdManager* m, DdNode* f) {
    m->op();
    std::unordered_set<DdNode*> s;
    m->nodes(f, s);
    std::map<int, unsigned> vars; // by position
    for (DdNode* p : s) if (p != &m->one) vars[m->pos[p->index]] = p->index;
    DdNode* r = &m->one;
    for (auto it = vars.rbegin(); it != vars.rend(); ++it) r = m->node(it->second, r, m->zero());
    return r;
}
inline int Cudd_bddVarIsDependent(DdManager* m, DdNode* f, DdNode* var) { // f & v functionally determines v
    m->op();
    return m->run(m->cofactor(f, var), m->cofactor(f, Cudd_Not(var)), m->zero()) == m->zero();
}
inline DdNode* Cudd_bddVectorCompose(DdManager* m, DdNode* f, DdNode** v) {
    m->op();
    std::unordered_map<DdNode*, DdNode*> done;
    std::function<DdNode*(DdNode*)> go = [&](DdNode* g) -> DdNode* {
        if (Cudd_IsConstant(g)) return g;
        DdNode* p = Cudd_Regular(g);
        auto it = done.find(p);
        DdNode* r;
        if (it != done.end()) r = it->second;
        else { DdNode* r1 = go(p->T); DdNode* r0 = go(p->E); done[p] = r = m->run(v[p->index], r1, r0); }
        return Cudd_NotCond(r, Cudd_IsComplement(g));
    };
    return go(f);
}
inline int Cudd_ReduceHeap(DdManager*, Cudd_ReorderingType, int) { return 1; } // keeps the order
inline int Cudd_CheckZeroRef(DdManager* m) { return int(m->references()); }
inline void Cudd_Quit(DdManager* m) { for (auto& e : m->unique) delete e.second; delete m; }
