/*
 * Stand-in for SAPPORO's BDD package (which is not installed): the classes and functions of its
 * public interface that TdZdd's adapters can use, as plain unique tables.  Like the original it
 * keeps global tables and must not be entered by two threads at once; that is audited.
 */
#pragma once
#include <atomic>
#include <cstdint>
#include <iostream>
#include <map>
#include <sched.h>
#include <set>
#include <stdexcept>
#include <tuple>
#include <vector>

typedef int bddvar;
typedef long long bddword;

namespace sapporo {
struct Node { int var; int kid[2]; };
struct Table {
    std::vector<Node> node;
    std::map<std::tuple<int, int, int>, int> unique;
    std::map<std::tuple<int, int, int>, int> memo;
    std::vector<int> var2lev, lev2var;
    std::atomic<int> inside;
    std::atomic<bool> collided, misused;
    Table() : inside(0) { reset(); }
    void reset() {
        node.assign(2, Node{0, {0, 0}}); unique.clear(); memo.clear();
        var2lev.assign(1, 0); lev2var.assign(1, 0); collided = false; misused = false;
    }
    int lev(int f) const { return var2lev[node[f].var]; }
    int raw(int var, int f0, int f1) {
        auto k = std::make_tuple(var, f0, f1);
        auto it = unique.find(k);
        if (it != unique.end()) return it->second;
        node.push_back(Node{var, {f0, f1}});
        return unique[k] = int(node.size()) - 1;
    }
};
inline Table& bdds() { static Table t; return t; }
inline Table& zbdds() { static Table t; return t; }
/** Every entry of the package. */
struct Enter {
    Enter() { if (bdds().inside++ != 0) bdds().collided = true; sched_yield(); }
    ~Enter() { --bdds().inside; }
};
inline int newVar(int lev) {
    Table& t = bdds();
    if (lev < 1 || lev > int(t.lev2var.size())) { t.misused = true; lev = int(t.lev2var.size()); }
    t.lev2var.insert(t.lev2var.begin() + lev, int(t.var2lev.size()));
    t.var2lev.push_back(lev);
    for (size_t l = 0; l < t.lev2var.size(); ++l) t.var2lev[t.lev2var[l]] = int(l);
    zbdds().var2lev = t.var2lev;
    zbdds().lev2var = t.lev2var;
    return int(t.var2lev.size()) - 1;
}
}

inline int BDD_Init(bddword = 256, bddword = 1024) { sapporo::bdds().reset(); sapporo::zbdds().reset(); return 0; }
inline int BDD_VarUsed() { return int(sapporo::bdds().var2lev.size()) - 1; }
inline int BDD_TopLev() { return BDD_VarUsed(); }
inline int BDD_NewVar() { sapporo::Enter e; return sapporo::newVar(BDD_VarUsed() + 1); }
inline int BDD_NewVarOfLev(int lev) { sapporo::Enter e; return sapporo::newVar(lev); }
inline int BDD_VarOfLev(int lev) {
    auto& t = sapporo::bdds();
    if (lev < 0 || lev >= int(t.lev2var.size())) { t.misused = true; return 0; }
    return t.lev2var[lev];
}
inline int BDD_LevOfVar(int var) {
    auto& t = sapporo::bdds();
    if (var < 0 || var >= int(t.var2lev.size())) { t.misused = true; return 0; }
    return t.var2lev[var];
}

class BDD {
    int id;
    static sapporo::Table& t() { return sapporo::bdds(); }
    static int mk(int var, int f0, int f1) { return f0 == f1 ? f0 : t().raw(var, f0, f1); }
    static int cof(int f, int var, int b) { return f > 1 && t().node[f].var == var ? t().node[f].kid[b] : f; }
    static int ite(int f, int g, int h) {
        if (f == 1) return g;
        if (f == 0) return h;
        if (g == h) return g;
        auto k = std::make_tuple(f, g, h);
        auto it = t().memo.find(k);
        if (it != t().memo.end()) return it->second;
        int top = std::max(t().lev(f), std::max(t().lev(g), t().lev(h)));
        int v = t().lev2var[top];
        int r = mk(v, ite(cof(f, v, 0), cof(g, v, 0), cof(h, v, 0)), ite(cof(f, v, 1), cof(g, v, 1), cof(h, v, 1)));
        return t().memo[k] = r;
    }
    int at(int f, int var, int b) const {
        if (f <= 1 || t().lev(f) < t().var2lev[var]) return f;
        if (t().node[f].var == var) return t().node[f].kid[b];
        return mk(t().node[f].var, at(t().node[f].kid[0], var, b), at(t().node[f].kid[1], var, b));
    }
    static BDD of(int id) { BDD f; f.id = id; return f; }
    friend BDD BDDvar(int);
    friend BDD BDD_ID(bddword);
public:
    BDD() : id(0) {}
    BDD(int value) : id(value ? 1 : 0) { if (value != 0 && value != 1) t().misused = true; }
    BDD(BDD const& o) : id(o.id) { sapporo::Enter e; }
    BDD& operator=(BDD const& o) { sapporo::Enter e; id = o.id; return *this; }
    ~BDD() { sapporo::Enter e; }
    BDD operator~() const { sapporo::Enter e; return of(ite(id, 0, 1)); }
    BDD operator&(BDD const& o) const { sapporo::Enter e; return of(ite(id, o.id, 0)); }
    BDD operator|(BDD const& o) const { sapporo::Enter e; return of(ite(id, 1, o.id)); }
    BDD operator^(BDD const& o) const { sapporo::Enter e; return of(ite(id, ite(o.id, 0, 1), o.id)); }
    BDD& operator&=(BDD const& o) { return *this = *this & o; }
    BDD& operator|=(BDD const& o) { return *this = *this | o; }
    BDD& operator^=(BDD const& o) { return *this = *this ^ o; }
    int operator==(BDD const& o) const { return id == o.id; }
    int operator!=(BDD const& o) const { return id != o.id; }
    int Top() const { return id > 1 ? t().node[id].var : 0; }
    BDD At0(int var) const { sapporo::Enter e; if (var < 1 || var > BDD_VarUsed()) { t().misused = true; return *this; } return of(at(id, var, 0)); }
    BDD At1(int var) const { sapporo::Enter e; if (var < 1 || var > BDD_VarUsed()) { t().misused = true; return *this; } return of(at(id, var, 1)); }
    bddword GetID() const { return id; }
    bddword Size() const { std::set<int> s; std::vector<int> st(1, id); while (!st.empty()) { int f = st.back(); st.pop_back(); if (f > 1 && s.insert(f).second) { st.push_back(t().node[f].kid[0]); st.push_back(t().node[f].kid[1]); } } return s.size(); }
    friend std::ostream& operator<<(std::ostream& os, BDD const& f) { return os << "bdd" << f.id; }
};
inline BDD BDDvar(int var) {
    sapporo::Enter e;
    if (var < 1 || var > BDD_VarUsed()) { sapporo::bdds().misused = true; return BDD(0); }
    return BDD::of(sapporo::bdds().raw(var, 0, 1));
}
inline BDD BDD_ID(bddword id) { return BDD::of(int(id)); }
