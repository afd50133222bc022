// C13: state merging follows the rule supplied by the specification.
#include "ompcompat.hpp"
#include "merge.hpp"
using namespace model;

/** All accepted paths of a diagram as (level, value) lists. */
template<int N> static void enumerate(tdzdd::DdStructure<N> const& dd, tdzdd::NodeId f, std::vector<std::pair<int, int> >& cur,
        std::vector<std::vector<std::pair<int, int> > >& out, size_t limit) {
    if (out.size() > limit || f == 0) return;
    if (f == 1) { out.push_back(cur); return; }
    for (int b = 0; b < N; ++b) {
        cur.push_back(std::make_pair(int(f.row()), b));
        enumerate<N>(dd, dd.child(f, b), cur, out, limit);
        cur.pop_back();
    }
}

static void describe(Ctx& c, CostAuto const& ca, int tie, bool atTrue, bool countRule, int form, bool mp) {
    if (c.verbose) c.desc << "tie=" << tie << " atTrue=" << atTrue << " countRule=" << countRule << " form=" << form << " mp=" << mp << " costs " << ca.seed << "/" << ca.maxCost << " " << ca.a.str();
}

/** Strictly worse states are discarded, equals are merged: the diagram is determined. */
template<int N> static void keepBest(Src& s, Ctx& c, Shape sh) {
    CostAuto ca = genCost(s, c, N, sh);
    bool mp = s.chance(1, 4);
    bool atTrue = !mp && s.flip();
    bool countRule = s.flip();
    int form = s.below(4); // 0,1: build, 2: filter of the universal diagram, 3: filter of a larger universal diagram
    omp_set_num_threads(s.range(1, 5));
    describe(c, ca, 0, atTrue, countRule, form, mp);
    Canon m(N);
    size_t pruned = 0;
    int want = modelKeepBest(m, ca, atTrue, countRule, &pruned);
    c.nontrivial(want > 1 && pruned > 0);
    c.tag("pruned", pruned > 0);
    c.tag(form < 2 ? "build" : "filter");
    SpecCost<N> spec(ca, 0, atTrue, countRule);
    if (form < 2) {
        tdzdd::DdStructure<N> dd(spec, mp);
        int g = canonDd<N>(m, dd, Q);
        PBT_CHECK(g == want, "construction with merging: want ", m.str(want), " got ", m.str(g));
        PBT_EQ(dd.zddCardinality(), m.paths(want).str(), "number of surviving paths");
    }
    else {
        tdzdd::DdStructure<N> u(ca.a.n + (form == 3 ? 2 : 0));
        u.useMultiProcessors(mp);
        u.zddSubset(spec);
        int g = canonDd<N>(m, u, Z);
        PBT_CHECK(g == m.norm(Z, want), "filter with merging: want ", m.str(m.norm(Z, want)), " got ", m.str(g));
    }
}

/** Equals are discarded too (either one): one path survives into every state. */
template<int N> static void keepOne(Src& s, Ctx& c, Shape sh) {
    CostAuto ca = genCost(s, c, N, sh);
    int tie = 1 + s.below(2);
    bool mp = s.chance(1, 4);
    bool atTrue = !mp && s.flip();
    bool filter = s.chance(1, 3);
    omp_set_num_threads(s.range(1, 5));
    describe(c, ca, tie, atTrue, false, filter, mp);
    // model: best cost per state
    Auto const& a = ca.a;
    size_t expectPaths = 0;
    std::vector<std::map<int, int> > best(a.n + 1);
    std::map<int, int> trueCost; // cost -> number of arrivals
    size_t arrivals = 0, states = 0;
    if (a.root.level > 0) best[a.root.level][a.root.state] = 0;
    for (int l = a.root.level; l >= 1; --l)
        for (auto const& x : best[l]) {
            ++states;
            for (int b = 0; b < N; ++b) {
                To const& u = a.go(l, x.first, b);
                int cost = x.second + ca.cost(l, x.first, b);
                if (u.level == 0) continue;
                ++arrivals;
                if (u.level < 0) { ++trueCost[cost]; continue; }
                auto it = best[u.level].find(u.state);
                if (it == best[u.level].end()) best[u.level][u.state] = cost;
                else it->second = std::min(it->second, cost);
            }
        }
    if (a.root.level < 0) expectPaths = 1;
    else if (atTrue) expectPaths = trueCost.empty() ? 0 : 1;
    else for (auto const& x : trueCost) expectPaths += x.second;
    c.nontrivial(expectPaths > 0 && arrivals > states);
    SpecCost<N> spec(ca, tie, atTrue, false);
    tdzdd::DdStructure<N> dd;
    if (filter) { dd = tdzdd::DdStructure<N>(a.n); dd.useMultiProcessors(mp); dd.zddSubset(spec); c.tag("filter"); }
    else { dd = tdzdd::DdStructure<N>(spec, mp); c.tag("build"); }
    PBT_EQ(dd.zddCardinality(), std::to_string(expectPaths), "number of surviving paths");
    std::vector<std::vector<std::pair<int, int> > > paths;
    std::vector<std::pair<int, int> > cur;
    enumerate<N>(dd, dd.root(), cur, paths, 200);
    for (auto const& p : paths) { // each survives every comparison on its way
        std::map<int, int> val;
        for (auto const& x : p) val[x.first] = x.second;
        To u = a.root;
        int cost = 0;
        while (u.level > 0) {
            PBT_EQ(cost, best[u.level][u.state], "a path survived at level ", u.level, " although a cheaper one reaches the same state");
            int b = val.count(u.level) ? val[u.level] : 0;
            if (!filter) PBT_CHECK(val.count(u.level), "level missing on path");
            cost += ca.cost(u.level, u.state, b);
            u = a.go(u.level, u.state, b);
        }
        PBT_EQ(u.level, -1, "surviving path is not accepting");
        if (atTrue) PBT_EQ(cost, trueCost.begin()->first, "surviving accepting arrival is not the cheapest");
    }
}

/** Product of a merging and a plain specification: the rule applies to pairs. */
static void product(Src& s, Ctx& c) {
    Shape sh(7, 4, false);
    CostAuto ca = genCost(s, c, 2, sh);
    Auto& a = ca.a;
    int n = std::max(1, a.n);
    if (a.n == 0) { a.n = 1; a.t.resize(2); a.t[1].assign(1, std::vector<To>(2)); To T = {-1, 0}; a.t[1][0][0] = a.t[1][0][1] = T; }
    // no skipping, accepting at the bottom only
    auto full = [&](Auto& x, size_t maxw) {
        for (int l = 1; l <= x.n; ++l)
            for (auto& st : x.t[l]) for (To& u : st) {
                if (l == 1) { if (u.level > 0) u.level = -1; continue; }
                if (u.level != 0) { u.state = u.level > 0 ? u.state % x.t[l - 1].size() : 0; u.level = l - 1; }
            }
        x.root.level = x.n;
        x.root.state = 0;
    };
    full(a, 4);
    Auto b;
    b.N = 2; b.n = n; b.t.resize(n + 1);
    for (int l = 1; l <= n; ++l) {
        int w = s.range(1, 3);
        b.t[l].assign(w, std::vector<To>(2));
        for (int k = 0; k < w; ++k) for (int v = 0; v < 2; ++v) {
            To u = {0, 0};
            if (s.chance(5, 6)) { if (l == 1) u.level = -1; else { u.level = l - 1; u.state = s.below(b.t[l - 1].size()); } }
            b.t[l][k][v] = u;
        }
    }
    b.root.level = n; b.root.state = 0;
    bool swapped = s.flip(), mp = s.chance(1, 4);
    bool atTrue = !mp && s.flip(), countRule = false;
    int form = s.below(3);
    omp_set_num_threads(s.range(1, 4));
    describe(c, ca, 0, atTrue, countRule, form, mp);
    if (c.verbose) c.desc << " with: " << b.str();
    // product automaton, costs of the first factor
    struct P: public CostAuto { } ;
    Canon m(2);
    std::vector<std::map<std::pair<int, int>, int> > best(n + 1);
    int bestTrue = 1 << 30;
    size_t pruned = 0;
    best[n][std::make_pair(0, 0)] = 0;
    for (int l = n; l >= 1; --l)
        for (auto const& x : best[l])
            for (int v = 0; v < 2; ++v) {
                To const& u = a.go(l, x.first.first, v);
                To const& w = b.go(l, x.first.second, v);
                if (u.level == 0 || w.level == 0) continue;
                int cost = x.second + ca.cost(l, x.first.first, v);
                if (l == 1) { bestTrue = std::min(bestTrue, cost); continue; }
                auto k = std::make_pair(u.state, w.state);
                auto it = best[l - 1].find(k);
                if (it == best[l - 1].end()) best[l - 1][k] = cost; else it->second = std::min(it->second, cost);
            }
    std::vector<std::map<std::pair<int, int>, int> > id(n + 1);
    for (int l = 1; l <= n; ++l)
        for (auto const& x : best[l]) {
            std::vector<int> k(2, 0);
            for (int v = 0; v < 2; ++v) {
                To const& u = a.go(l, x.first.first, v);
                To const& w = b.go(l, x.first.second, v);
                if (u.level == 0 || w.level == 0) continue;
                int cost = x.second + ca.cost(l, x.first.first, v);
                if (l == 1) { if (!atTrue || cost == bestTrue) k[v] = 1; else ++pruned; continue; }
                auto key = std::make_pair(u.state, w.state);
                if (cost == best[l - 1][key]) k[v] = id[l - 1][key]; else ++pruned;
            }
            id[l][x.first] = m.mk(Q, l, k);
        }
    int want = id[n][std::make_pair(0, 0)];
    c.nontrivial(want > 1 && pruned > 0);
    SpecCost<2> spec(ca, 0, atTrue, countRule);
    SpecInt<2> plain(b);
    int g;
    if (form == 2) { // filter of a diagram
        tdzdd::DdStructure<2> d(plain);
        if (s.flip()) d.qddReduce();
        // sharing in the diagram decides which states meet: compare only when its nodes are the plain states
        if (d.size() != b.reachable()) { c.tag("skipped-shared"); return; }
        d.useMultiProcessors(mp);
        d.zddSubset(spec);
        g = canonDd<2>(m, d, Q);
    }
    else if (swapped) g = canonDd<2>(m, tdzdd::DdStructure<2>(tdzdd::zddIntersection(plain, spec), mp), Q);
    else g = canonDd<2>(m, tdzdd::DdStructure<2>(tdzdd::zddIntersection(spec, plain), mp), Q);
    PBT_CHECK(g == want, "product with merging: want ", m.str(want), " got ", m.str(g));
}

/** Lookahead and unreduction forward the rule: where states meet moves, the surviving paths do not. */
template<int N> static void wrapped(Src& s, Ctx& c, Shape sh) {
    CostAuto ca = genCost(s, c, N, sh);
    int form = s.below(8);
    // lookahead may take a state straight to the true terminal, where only serial processing merges
    bool mp = (form & 3) == 1 && s.flip();
    bool atTrue = (form & 3) != 1 || (!mp && s.flip());
    int extra = s.chance(1, 3) ? s.range(1, 3) : 0;
    omp_set_num_threads(s.range(1, 5));
    describe(c, ca, 0, atTrue, false, form, mp);
    if (c.verbose) c.desc << " extra=" << extra;
    Canon m(N);
    size_t pruned = 0;
    int want = m.norm(Z, modelKeepBest(m, ca, atTrue, false, &pruned));
    c.nontrivial(want > 1 && pruned > 0);
    SpecCost<N> spec(ca, 0, atTrue, false);
    int n = ca.a.n + extra;
    auto run = [&](auto const& w) {
        tdzdd::DdStructure<N> dd;
        if (form & 4) { dd = tdzdd::DdStructure<N>(n); dd.useMultiProcessors(mp); dd.zddSubset(w); }
        else dd = tdzdd::DdStructure<N>(w, mp);
        int g = canonDd<N>(m, dd, Z);
        PBT_CHECK(g == want, "wrapped specification with merging: want ", m.str(want), " got ", m.str(g));
    };
    c.tag(form & 4 ? "filter" : "build");
    switch (form & 3) {
    case 0: run(tdzdd::zddLookahead(spec)); break;
    case 1: run(tdzdd::zddUnreduction(spec, n)); break;
    case 2: run(tdzdd::zddLookahead(tdzdd::zddUnreduction(spec, n))); break;
    case 3: run(tdzdd::zddUnreduction(tdzdd::zddLookahead(spec), n)); break;
    }
}

#if PART == 0
PROPERTY(keepBest2, 4) { keepBest<2>(s, c, Shape(7, 4, true, 16, 30)); }
PROPERTY(keepBest2huge, -3000) { keepBest<2>(s, c, Shape::huge(10000)); }
PROPERTY(product2, 2) { product(s, c); }
#elif PART == 1
PROPERTY(keepBest3, 2) { keepBest<3>(s, c, Shape(5, 4, true, 10, 20)); }
PROPERTY(keepOne3, 1) { keepOne<3>(s, c, Shape(5, 4, true, 10, 20)); }
#elif PART == 2
PROPERTY(wrapped2, 2) { wrapped<2>(s, c, Shape(7, 4, true, 12, 20)); }
PROPERTY(wrapped3, 1) { wrapped<3>(s, c, Shape(5, 4, true, 8, 16)); }
PROPERTY(keepOne2, 3) { keepOne<2>(s, c, Shape(7, 4, true, 16, 30)); }
#endif
