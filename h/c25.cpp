// C25: conversions to and from SAPPORO's BDDs and ZBDDs keep the function or family.
#include "ompcompat.hpp"
#include "sapporo/ZBDD.h"
#include "specs.hpp"
#include <tdzdd/eval/ToBDD.hpp>
#include <tdzdd/eval/ToZBDD.hpp>
#include <tdzdd/spec/SapporoBdd.hpp>
#include <tdzdd/spec/SapporoZdd.hpp>
using namespace model;
typedef tdzdd::DdStructure<2> DD;

/** Reads the foreign diagram: a variable at level l there is level l - offset here. */
template<typename F> static int read(Canon& m, Rule r, sapporo::Table& t, F const& f, int offset) {
    std::map<int, int> memo;
    std::function<int(int)> go = [&](int x) -> int {
        if (x <= 1) return x;
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        sapporo::Node n = t.node[x];
        int a = go(n.kid[0]), b = go(n.kid[1]);
        return memo[x] = m.mk(r, t.var2lev[n.var] - offset, std::vector<int>{a, b});
    };
    return go(int(f.GetID()));
}
/** Makes the foreign diagram node by node. */
static BDD makeBdd(Canon& m, int f, int offset, std::map<int, BDD>& memo) {
    if (f <= 1) return BDD(f);
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    BDD a = makeBdd(m, m.kid(f, 0), offset, memo), b = makeBdd(m, m.kid(f, 1), offset, memo), v = BDDvar(BDD_VarOfLev(m.level(f) + offset));
    return memo[f] = (v & b) | (~v & a);
}
static ZBDD makeZbdd(Canon& m, int f, int offset, std::map<int, ZBDD>& memo) {
    if (f <= 1) return ZBDD(f);
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    ZBDD a = makeZbdd(m, m.kid(f, 0), offset, memo), b = makeZbdd(m, m.kid(f, 1), offset, memo);
    return memo[f] = a + b.Change(BDD_VarOfLev(m.level(f) + offset));
}
/** Moves all levels by an offset; combinations with an item that falls below level 1 are dropped. */
static int shift(Canon& m, Rule r, int f, int offset) {
    std::map<int, int> memo;
    std::function<int(int)> go = [&](int x) -> int {
        if (x <= 1) return x;
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        int a = go(m.kid(x, 0));
        if (m.level(x) + offset >= 1) { int b = go(m.kid(x, 1)); a = m.mk(r, m.level(x) + offset, std::vector<int>{a, b}); }
        return memo[x] = a;
    };
    return go(f);
}
static void variables(Src& s, std::ostream& d, int least, int most, bool shuffled) {
    BDD_Init();
    int k = s.range(least, std::max(least, most));
    d << " vars";
    for (int i = 0; i < k; ++i) {
        int lev = shuffled ? s.range(1, i + 1) : i + 1;
        d << " " << lev;
        if (lev == i + 1 && s.flip()) BDD_NewVar(); else BDD_NewVarOfLev(lev);
    }
}
static void package(char const* what) {
    PBT_CHECK(!sapporo::bdds().collided, what, ": two threads at once in the BDD package, which is not thread-safe");
    PBT_CHECK(!sapporo::bdds().misused, what, ": a function of the BDD package was called with a bad argument");
}

PROPERTY(exports, 3) {
    Auto a = genAuto(s, c, 2, Shape(7, 4, true, 12, 10));
    std::ostringstream d;
    bool bdd = s.flip(), mp = s.chance(1, 3), shuffled = s.flip();
    int offset = s.chance(1, 3) ? 0 : s.range(-3, 6), state = s.below(4), threads = s.range(1, 5);
    omp_set_num_threads(threads);
    variables(s, d, 0, a.n + 4, shuffled);
    if (c.verbose) c.desc << (bdd ? "ToBDD" : "ToZBDD") << " offset=" << offset << " mp=" << mp << " threads=" << threads << " state=" << state << d.str() << " " << a.str();
    DD dd((SpecInt<2>(a)));
    if (state == 1) dd.zddReduce();
    if (state == 2) dd.bddReduce();
    if (state == 3) dd.qddReduce();
    dd.useMultiProcessors(mp);
    Canon m(2);
    Rule r = bdd ? B : Z;
    int f = canonDd<2>(m, dd, r), all = canonDd<2>(m, dd, S);
    c.nontrivial(m.size(f) >= 3);
    c.tag(bdd ? "to-bdd" : "to-zbdd");
    c.tag(offset < 0 ? "offset<0" : offset ? "offset>0" : "offset=0");
    if (bdd) {
        int lowest = 1000;
        {
            std::set<int> seen;
            std::vector<int> st(1, all);
            while (!st.empty()) { int x = st.back(); st.pop_back(); if (x <= 1 || !seen.insert(x).second) continue; lowest = std::min(lowest, m.level(x)); st.push_back(m.kid(x, 0)); st.push_back(m.kid(x, 1)); }
        }
        if (all > 1 && lowest + offset < 1) { // such a level cannot be represented
            bool refused = false;
            try { dd.evaluate(tdzdd::ToBDD(offset)); } catch (std::runtime_error&) { refused = true; }
            PBT_CHECK(refused, "ToBDD accepts a diagram with a level that falls below 1");
            return;
        }
        BDD g = dd.evaluate(tdzdd::ToBDD(offset));
        package("ToBDD");
        PBT_CHECK(BDD_VarUsed() >= dd.topLevel() + offset, "variables were not created");
        int got = read(m, B, sapporo::bdds(), g, 0);
        int want = shift(m, B, f, offset);
        PBT_CHECK(got == want, "ToBDD gives ", m.str(got), " instead of ", m.str(want));
    }
    else {
        ZBDD g = dd.evaluate(tdzdd::ToZBDD(offset));
        package("ToZBDD");
        PBT_CHECK(BDD_VarUsed() >= dd.topLevel() + offset, "variables were not created");
        int got = read(m, Z, sapporo::zbdds(), g, 0);
        int want = shift(m, Z, f, offset);
        PBT_CHECK(got == want, "ToZBDD gives ", m.str(got), " instead of ", m.str(want));
    }
}

PROPERTY(imports, 3) {
    Auto a = genAuto(s, c, 2, Shape(7, 4, true, 12, 10));
    std::ostringstream d;
    bool bdd = s.flip(), below = s.chance(1, 3);
    int offset = s.chance(1, 3) ? 0 : s.range(0, 5), state = s.below(3);
    // known finding: SapporoZdd looks up a wrong variable for items below the offset unless levels equal variable numbers
    bool shuffled = s.flip() && (bdd || !below);
    variables(s, d, a.n + offset, a.n + offset + 3, shuffled);
    if (c.verbose) c.desc << (bdd ? "SapporoBdd" : "SapporoZdd") << " offset=" << offset << " below=" << below << " state=" << state << d.str() << " " << a.str();
    Canon m(2);
    Rule r = bdd ? B : Z;
    int f = a.canon(m, r);
    c.nontrivial(m.size(f) >= 3);
    c.tag(bdd ? "from-bdd" : "from-zbdd");
    c.tag(offset ? "offset>0" : "offset=0");
    auto checks = [&](auto const& spec, int want, char const* what) {
        DD dd(spec);
        if (state == 1) dd.zddReduce();
        if (state == 2) { dd = DD(a.n); dd.zddSubset(spec); }
        package(what);
        Rule q = state == 2 ? Z : r;
        if (state == 1 && bdd) return;
        int w = state == 2 && bdd ? m.b2z(want, a.n) : want;
        if (state == 2 && bdd) return;
        int got = canonDd<2>(m, dd, q);
        PBT_CHECK(got == w, what, " gives ", m.str(got), " instead of ", m.str(w));
        if (state == 0 && !below) PBT_EQ(dd.size(), m.size(want), what, ": size of the diagram");
    };
    if (bdd) {
        std::map<int, BDD> memo;
        if (below) {
            BDD g = makeBdd(m, f, 0, memo);
            int lowest = 1000;
            for (auto const& x : memo) lowest = std::min(lowest, m.level(x.first));
            bool refused = false;
            try { DD dd{tdzdd::SapporoBdd(g, offset)}; } catch (std::runtime_error&) { refused = true; }
            PBT_EQ(refused, f > 1 && lowest <= offset, "refusal of a BDD with a variable that falls below level 1");
            return;
        }
        BDD g = makeBdd(m, f, offset, memo);
        checks(tdzdd::SapporoBdd(g, offset), f, "SapporoBdd");
    }
    else {
        std::map<int, ZBDD> memo;
        int real = below ? 0 : offset; // items up to the offset fall below level 1
        ZBDD g = makeZbdd(m, f, real, memo);
        checks(tdzdd::SapporoZdd(g, offset), shift(m, Z, f, real - offset), "SapporoZdd");
    }
}

PROPERTY(roundTrips, 1) {
    Auto a = genAuto(s, c, 2, Shape(7, 4, true, 12, 10));
    std::ostringstream d;
    bool bdd = s.flip();
    int offset = s.range(0, 4);
    variables(s, d, 0, a.n + offset + 2, true);
    if (c.verbose) c.desc << (bdd ? "BDD" : "ZBDD") << " round trip offset=" << offset << d.str() << " " << a.str();
    DD dd((SpecInt<2>(a))), back;
    Canon m(2);
    Rule r = bdd ? B : Z;
    if (bdd) { BDD g = dd.evaluate(tdzdd::ToBDD(offset)); back = DD(tdzdd::SapporoBdd(g, offset)); dd.bddReduce(); back.bddReduce(); }
    else { ZBDD g = dd.evaluate(tdzdd::ToZBDD(offset)); back = DD(tdzdd::SapporoZdd(g, offset)); dd.zddReduce(); back.zddReduce(); }
    package("round trip");
    int f = canonDd<2>(m, dd, r);
    c.nontrivial(m.size(f) >= 3);
    PBT_EQ(canonDd<2>(m, back, r), f, "round trip");
    PBT_CHECK(back == dd, "reduced diagrams differ after a round trip");
}
