/* Stand-in for SAPPORO's ZBDD class; see BDD.h. */
#pragma once
#include "BDD.h"

class ZBDD {
    int id;
    static sapporo::Table& t() { return sapporo::zbdds(); }
    static int mk(int var, int f0, int f1) { return f1 == 0 ? f0 : t().raw(var, f0, f1); }
    static int kid(int f, int var, int b) { return f > 1 && t().node[f].var == var ? t().node[f].kid[b] : b ? 0 : f; }
    /** op 0: union, 1: intersection, 2: difference. */
    static int apply(int op, int f, int g) {
        if (f == 0) return op == 0 ? g : 0;
        if (g == 0) return op == 1 ? 0 : f;
        if (f == g) return op == 2 ? 0 : f;
        auto k = std::make_tuple(op, f, g);
        auto it = t().memo.find(k);
        if (it != t().memo.end()) return it->second;
        int v = t().lev2var[std::max(t().lev(f), t().lev(g))];
        int r = v == 0 ? (op == 0 ? (f | g) : op == 1 ? (f & g) : (f & ~g)) : mk(v, apply(op, kid(f, v, 0), kid(g, v, 0)), apply(op, kid(f, v, 1), kid(g, v, 1)));
        return t().memo[k] = r;
    }
    static int change(int f, int var) {
        if (t().lev(f) < t().var2lev[var]) return mk(var, 0, f);
        sapporo::Node n = t().node[f];
        if (n.var == var) return mk(var, n.kid[1], n.kid[0]);
        int a = change(n.kid[0], var), b = change(n.kid[1], var);
        return mk(n.var, a, b);
    }
    /** Sets with (b) or without the variable; the variable is taken out. */
    static int part(int f, int var, int b) {
        if (t().lev(f) < t().var2lev[var]) return b ? 0 : f;
        sapporo::Node n = t().node[f];
        if (n.var == var) return n.kid[b];
        int x = part(n.kid[0], var, b), y = part(n.kid[1], var, b);
        return mk(n.var, x, y);
    }
    static ZBDD of(int id) { ZBDD f; f.id = id; return f; }
    static bool bad(int var) { if (var >= 1 && var <= BDD_VarUsed()) return false; sapporo::bdds().misused = true; return true; }
    friend ZBDD ZBDD_ID(bddword);
public:
    ZBDD() : id(0) {}
    ZBDD(int value) : id(value ? 1 : 0) { if (value != 0 && value != 1) sapporo::bdds().misused = true; }
    ZBDD(ZBDD const& o) : id(o.id) { sapporo::Enter e; }
    ZBDD& operator=(ZBDD const& o) { sapporo::Enter e; id = o.id; return *this; }
    ~ZBDD() { sapporo::Enter e; }
    ZBDD operator+(ZBDD const& o) const { sapporo::Enter e; return of(apply(0, id, o.id)); }
    ZBDD operator&(ZBDD const& o) const { sapporo::Enter e; return of(apply(1, id, o.id)); }
    ZBDD operator-(ZBDD const& o) const { sapporo::Enter e; return of(apply(2, id, o.id)); }
    ZBDD& operator+=(ZBDD const& o) { return *this = *this + o; }
    ZBDD& operator&=(ZBDD const& o) { return *this = *this & o; }
    ZBDD& operator-=(ZBDD const& o) { return *this = *this - o; }
    int operator==(ZBDD const& o) const { return id == o.id; }
    int operator!=(ZBDD const& o) const { return id != o.id; }
    int Top() const { return id > 1 ? t().node[id].var : 0; }
    ZBDD Change(int var) const { sapporo::Enter e; return bad(var) ? *this : of(change(id, var)); }
    ZBDD OffSet(int var) const { sapporo::Enter e; return bad(var) ? *this : of(part(id, var, 0)); }
    ZBDD OnSet0(int var) const { sapporo::Enter e; return bad(var) ? *this : of(part(id, var, 1)); }
    ZBDD OnSet(int var) const { return OnSet0(var).Change(var); }
    bddword GetID() const { return id; }
    bddword Size() const { std::set<int> s; std::vector<int> st(1, id); while (!st.empty()) { int f = st.back(); st.pop_back(); if (f > 1 && s.insert(f).second) { st.push_back(t().node[f].kid[0]); st.push_back(t().node[f].kid[1]); } } return s.size(); }
    bddword Card() const { return card(id); }
    static bddword card(int f) { return f <= 1 ? f : card(t().node[f].kid[0]) + card(t().node[f].kid[1]); }
    friend std::ostream& operator<<(std::ostream& os, ZBDD const& f) { return os << "zbdd" << f.id; }
};
inline ZBDD ZBDD_ID(bddword id) { return ZBDD::of(int(id)); }
