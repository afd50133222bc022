// C03: parallel processing gives the same diagrams and values as serial processing.
#include "ompcompat.hpp"
#include "merge.hpp"
using namespace model;

/** Thread-safe evaluator: a hash of the represented labelled graph, and its size. */
template<int N> struct GraphHash: public tdzdd::DdEval<GraphHash<N>, uint64_t> {
    bool isThreadSafe() const { return true; }
    void evalTerminal(uint64_t& v, int id) const { v = id ? 0x1234567 : 0x7654321; }
    void evalNode(uint64_t& v, int level, tdzdd::DdValues<uint64_t, N> const& x) const {
        uint64_t h = pbt::mix(level);
        for (int b = 0; b < N; ++b) h = pbt::mix(h ^ (x.get(b) + uint64_t(x.getLevel(b)) * 1000003));
        v = h;
    }
};

static int drawThreads(Src& s) {
    static int const t[] = {2, 3, 4, 1, 5, 7, 8, 13}, many[] = {17, 24, 33, 64};
    if (s.chance(1, 40)) return many[s.below(4)];
    return t[s.below(8)];
}

template<int N, typename SPEC> static void build(Ctx& c, Canon& m, Auto const& a, SPEC const& spec, int want, Src& s) {
    int threads = drawThreads(s);
    if (c.verbose) c.desc << " threads=" << threads;
    c.tag(pbt::cat("threads", threads));
    omp_set_num_threads(threads);
    tdzdd::DdStructure<N> par(spec, true);
    int got = canonDd<N>(m, par, Q);
    PBT_CHECK(got == want, "parallel construction differs: want ", m.str(want), " got ", m.str(got));
    size_t r = a.reachable();
    PBT_CHECK(par.size() <= r, "no sharing in parallel mode: ", par.size(), " nodes for ", r, " states");
    PBT_CHECK(reachableNodes<N>(par) <= par.size(), "size() too small");
    tdzdd::DdStructure<N> ser(spec, false);
    // evaluation
    uint64_t h1 = par.evaluate(GraphHash<N>());
    bool old = par.useMultiProcessors(false);
    PBT_CHECK(old, "multi-processor flag lost");
    uint64_t h2 = par.evaluate(GraphHash<N>());
    PBT_CHECK(h1 == h2, "parallel evaluation differs from serial");
    par.useMultiProcessors(true);
    omp_set_num_threads(drawThreads(s));
    PBT_EQ(par.zddCardinality(), ser.zddCardinality(), "cardinality");
    PBT_EQ(par.bddCardinality(a.n + 2), ser.bddCardinality(a.n + 2), "BDD cardinality");
    // filter
    if (s.chance(1, 2)) {
        Auto a2 = genAuto(s, c, N, Shape(6, 4, s.flip(), a.n, 20));
        if (c.verbose) c.desc << " filter: " << a2.str();
        omp_set_num_threads(drawThreads(s));
        int kind2 = s.below(6), par2 = drawParam(s);
        int wz = m.apply(Z, 0, m.norm(Z, want), a2.canon(m, Z));
        withSpecFew<N>(a2, kind2, par2, [&](auto const& sp2) {
            par.zddSubset(sp2);
            ser.zddSubset(sp2);
        });
        int g1 = canonDd<N>(m, par, Q), g2 = canonDd<N>(m, ser, Q);
        PBT_CHECK(g1 == g2, "parallel filter differs: serial ", m.str(g2), " parallel ", m.str(g1));
        PBT_CHECK(m.norm(Z, g1) == wz, "parallel filter is wrong: want ", m.str(wz), " got ", m.str(g1));
        PBT_CHECK(par.size() <= r * std::max<size_t>(1, a2.reachable()), "no sharing in parallel filter");
        c.tag("filter");
        want = g1;
    }
    // reduction
    int how = s.below(3);
    omp_set_num_threads(drawThreads(s));
    if (how == 0) { par.zddReduce(); ser.zddReduce(); want = m.norm(Z, want); }
    else if (how == 1) { par.bddReduce(); ser.bddReduce(); want = m.norm(B, want); }
    else { par.qddReduce(); ser.qddReduce(); }
    got = canonDd<N>(m, par, Q);
    PBT_CHECK(got == want, "parallel reduction differs: want ", m.str(want), " got ", m.str(got));
    PBT_CHECK(ser == par && par == ser, "serial and parallel reduction compare unequal");
    PBT_EQ(par.size(), ser.size(), "reduced sizes");
    PBT_EQ(par.size(), m.size(want), "parallel reduction is not minimal");
    PBT_EQ(par.evaluate(GraphHash<N>()), ser.evaluate(GraphHash<N>()), "evaluation");
    PBT_EQ(par.zddCardinality(), m.paths(want).str(), "parallel cardinality");
    // conversions in parallel mode
    if (s.chance(1, 4)) {
        int nv = a.n + s.range(0, 2);
        if (how == 0) {
            tdzdd::DdStructure<N> b1 = par.zdd2bdd(nv), b2 = ser.zdd2bdd(nv);
            b1.bddReduce(); b2.bddReduce();
            PBT_CHECK(b1 == b2, "parallel ZDD to BDD conversion");
        }
        else if (how == 1) {
            tdzdd::DdStructure<N> b1 = par.bdd2zdd(nv), b2 = ser.bdd2zdd(nv);
            b1.zddReduce(); b2.zddReduce();
            PBT_CHECK(b1 == b2, "parallel BDD to ZDD conversion");
        }
    }
}

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    int kind = drawKind(s, a), par = drawParam(s);
    if (c.verbose) c.desc << "kind=" << kindName(kind % 5) << " " << a.str();
    Canon m(N);
    int want = a.canon(m, Q);
    c.nontrivial(interesting(a, m));
    Tracked::reset();
    withSpecFew<N>(a, kind, par, [&](auto const& spec) { build<N>(c, m, a, spec, want, s); });
    checkTracked("parallel processing");
}

/** Merging rule, confluent (keep the cheapest, merge ties); true arrivals are merged unconditionally. */
template<int N> static void merging(Src& s, Ctx& c, Shape sh) {
    CostAuto ca = genCost(s, c, N, sh);
    int threads = drawThreads(s);
    bool countRule = s.flip();
    if (c.verbose) c.desc << "costs " << ca.seed << "/" << ca.maxCost << " threads=" << threads << " " << ca.a.str();
    Canon m(N);
    size_t pruned = 0;
    int want = modelKeepBest(m, ca, false, countRule, &pruned);
    c.nontrivial(want > 1 && pruned > 0);
    c.tag("pruned", pruned > 0);
    omp_set_num_threads(threads);
    SpecCost<N> spec(ca, 0, false, countRule);
    tdzdd::DdStructure<N> par(spec, true), ser(spec, false);
    int g = canonDd<N>(m, ser, Q);
    PBT_CHECK(g == want, "serial construction with merging: want ", m.str(want), " got ", m.str(g));
    g = canonDd<N>(m, par, Q);
    PBT_CHECK(g == want, "parallel construction with merging: want ", m.str(want), " got ", m.str(g));
    // the same as a filter of the universal diagram over as many levels (no level is skipped by it)
    bool full = true;
    for (int l = 1; l <= ca.a.n; ++l)
        for (auto const& st : ca.a.t[l]) for (To const& u : st) if (u.level > 0 ? u.level != l - 1 : u.level < 0 && l != 1) full = false;
    if (ca.a.root.level > 0 && ca.a.root.level != ca.a.n) full = false;
    if (full && ca.a.root.level > 0) {
        c.tag("merging-filter");
        tdzdd::DdStructure<N> u(ca.a.n, true);
        u.zddSubset(spec);
        g = canonDd<N>(m, u, Q);
        PBT_CHECK(g == want, "parallel filter with merging: want ", m.str(want), " got ", m.str(g));
    }
}

/** Specifications composed by the library's own operators, on levels wide enough for threads to meet. */
template<int N> static void composed(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh), b = genAuto(s, c, N, s.flip() ? sh : Shape(6, 4, true, a.n, 20));
    int form = s.below(N == 2 ? 9 : 4), threads = drawThreads(s), par = drawParam(s), extra = s.range(0, 2);
    bool filter = s.chance(1, 3);
    if (c.verbose) c.desc << "form=" << form << " threads=" << threads << " filter=" << filter << " extra=" << extra << " " << a.str() << " and " << b.str();
    Canon m(N);
    c.nontrivial(interesting(a, m));
    omp_set_num_threads(threads);
    Tracked::reset();
    auto run = [&](auto const& w) {
        tdzdd::DdStructure<N> p, q;
        if (filter) {
            p = tdzdd::DdStructure<N>(a.n, true);
            q = tdzdd::DdStructure<N>(a.n, false);
            p.zddSubset(w);
            q.zddSubset(w);
        }
        else {
            p = tdzdd::DdStructure<N>(w, true);
            q = tdzdd::DdStructure<N>(w, false);
        }
        int x = canonDd<N>(m, p, Q), y = canonDd<N>(m, q, Q);
        PBT_CHECK(x == y, "composed specification: serial ", m.str(y), " parallel ", m.str(x));
        p.zddReduce();
        q.zddReduce();
        PBT_CHECK(p == q, "composed specification, reduced");
        PBT_EQ(p.zddCardinality(), q.zddCardinality(), "composed specification, cardinality");
    };
    static char const* const tag[] = {"zddLookahead", "bddLookahead", "zddUnreduction", "bddUnreduction", "intersection", "union", "and", "or", "nested"};
    c.tag(tag[form]);
    SpecArray<unsigned short, N> f(a, par);
    SpecClass<N> g(b);
    switch (form) {
    case 0: run(tdzdd::zddLookahead(g)); break;
    case 1: run(tdzdd::bddLookahead(f)); break;
    case 2: run(tdzdd::zddUnreduction(g, a.n + extra)); break;
    case 3: run(tdzdd::bddUnreduction(f, a.n + extra)); break;
    default:
        if constexpr (N == 2) switch (form) {
        case 4: run(tdzdd::zddIntersection(f, g)); break;
        case 5: run(tdzdd::zddUnion(g, f)); break;
        case 6: run(tdzdd::bddAnd(g, f)); break;
        case 7: run(tdzdd::bddOr(f, g)); break;
        case 8: run(tdzdd::zddLookahead(tdzdd::zddIntersection(f, tdzdd::zddLookahead(g)))); break;
        }
    }
    checkTracked("parallel processing");
}

#ifdef _OPENMP
/** Makes the threads of a team leave the completion of a level at the same moment. */
struct Meeting {
    std::vector<std::atomic<int> > come;
    explicit Meeting(int levels) : come(levels + 1) { for (auto& x : come) x = 0; }
    void meet(int level) {
        int team = omp_get_num_threads();
        if (team < 2) return;
        ++come[level];
        for (int k = 0; k < 20000 && come[level].load(std::memory_order_relaxed) < team; ++k) __builtin_ia32_pause();
    }
};
template<int N> struct SpecMeet: public tdzdd::DdSpec<SpecMeet<N>, int, N> {
    Auto const* a;
    Meeting* meeting;
    SpecMeet(Auto const& a, Meeting& meeting) : a(&a), meeting(&meeting) {}
    int getRoot(int& s) const { s = a->root.state; return a->root.level; }
    int getChild(int& s, int level, int value) const { To u = a->t[level][s][value]; s = u.state; return u.level; }
    void destructLevel(int level) { meeting->meet(level); }
};

/** Many dead nodes and few long edges: what the threads report about a level matters. */
template<int N> static void meeting(Src& s, Ctx& c) {
    Auto a;
    a.N = N;
    a.n = s.range(6, 24);
    int w = s.range(6, 40), deadPart = s.range(1, 3), bottom = s.range(2, 6), longEdges = s.range(1, 3), maxSkip = s.range(2, 12), threads = s.range(2, 8);
    bool filter = s.chance(1, 3);
    Rng r(s.u64());
    a.t.resize(a.n + 1);
    for (int l = 1; l <= a.n; ++l) a.t[l].assign(l == a.n ? 1 : w, std::vector<To>(N));
    for (int l = 1; l <= a.n; ++l) {
        for (size_t k = 0; k < a.t[l].size(); ++k) for (int b = 0; b < N; ++b) {
            bool dead = int(k % 4) < deadPart && l < a.n;
            To u = {l - 1, 0};
            if (l == 1) u.level = dead || r.below(3) == 0 ? 0 : -1;
            else if (dead && l % bottom == 0) u.level = 0;
            else {
                u.state = r.below(w);
                if (dead) u.state = u.state / 4 * 4 + r.below(deadPart);
                if (u.state >= w) u.state = 0;
                if (l == 2 && a.t[1].size() == 1) u.state = 0;
            }
            a.t[l][k][b] = u;
        }
        for (int j = int(r.below(longEdges + 1)); j > 0 && l > 2; --j) {
            To u = {std::max(1, l - 1 - r.range(1, maxSkip)), int(r.below(w))};
            a.t[l][r.below(a.t[l].size())][r.below(N)] = u;
        }
    }
    a.root.level = a.n;
    a.root.state = 0;
    if (c.verbose) c.desc << "threads=" << threads << " filter=" << filter << " " << a.str();
    Canon m(N);
    int want = a.canon(m, Q);
    c.nontrivial(interesting(a, m));
    omp_set_num_threads(threads);
    for (int k = 0; k < 4; ++k) {
        Meeting meet(a.n);
        SpecMeet<N> spec(a, meet);
        if (filter) {
            tdzdd::DdStructure<N> dd(a.n, true);
            dd.zddSubset(spec);
            int got = canonDd<N>(m, dd, Z), w2 = m.norm(Z, want);
            PBT_CHECK(got == w2, "parallel filter differs: want ", m.str(w2), " got ", m.str(got));
        }
        else {
            tdzdd::DdStructure<N> dd(spec, true);
            int got = canonDd<N>(m, dd, Q);
            PBT_CHECK(got == want, "parallel construction differs: want ", m.str(want), " got ", m.str(got));
        }
    }
}
#endif

#if PART == 0
PROPERTY(binary, 6) { one<2>(s, c, Shape()); }
PROPERTY(wide, 1) { one<2>(s, c, Shape(6, 6, true, 20, 600)); }
#ifdef _OPENMP
PROPERTY(meeting2, -40) { meeting<2>(s, c); }
#endif
PROPERTY(huge, -600) { one<2>(s, c, Shape::huge(30000)); }
#elif PART == 1
PROPERTY(ternary, 3) { one<3>(s, c, Shape(5, 4, true, 16, 40)); }
PROPERTY(huge3, -1200) { one<3>(s, c, Shape::huge(20000)); }
#elif PART == 2
PROPERTY(five, 1) { one<5>(s, c, Shape(4, 4, true, 8, 20)); }
#elif PART == 3
PROPERTY(merging2, 2) { merging<2>(s, c, Shape(7, 4)); }
PROPERTY(merging3, 1) { merging<3>(s, c, Shape(5, 4, true, 12, 20)); }
// no level skipped, accepting only at the bottom: also exercised as a filter
PROPERTY(mergingFull, 2) {
    Shape sh(8, 4, false);
    CostAuto ca = genCost(s, c, 2, sh);
    Auto& a = ca.a;
    for (int l = 1; l <= a.n; ++l)
        for (auto& st : a.t[l]) for (To& u : st) {
            if (l == 1) { if (u.level > 0) u.level = 0; continue; }
            if (u.level < 0 || (u.level > 0 && u.level != l - 1)) { u.level = l - 1; u.state = u.state % a.t[l - 1].size(); }
        }
    if (a.n > 0) { a.root.level = a.n; a.root.state = 0; }
    int threads = drawThreads(s);
    bool countRule = s.flip();
    if (c.verbose) c.desc << "costs " << ca.seed << "/" << ca.maxCost << " threads=" << threads << " " << a.str();
    Canon m(2);
    size_t pruned = 0;
    int want = modelKeepBest(m, ca, false, countRule, &pruned);
    c.nontrivial(want > 1 && pruned > 0);
    omp_set_num_threads(threads);
    SpecCost<2> spec(ca, 0, false, countRule);
    tdzdd::DdStructure<2> par(spec, true);
    int g = canonDd<2>(m, par, Q);
    PBT_CHECK(g == want, "parallel construction with merging: want ", m.str(want), " got ", m.str(g));
    if (a.n > 0) {
        tdzdd::DdStructure<2> u(a.n, true);
        u.zddSubset(spec);
        g = canonDd<2>(m, u, Q);
        PBT_CHECK(g == want, "parallel filter with merging: want ", m.str(want), " got ", m.str(g));
    }
}
#elif PART == 4
PROPERTY(composed2, 2) { composed<2>(s, c, Shape(6, 6, true, 16, 400)); }
#elif PART == 5
PROPERTY(composed3, 1) { composed<3>(s, c, Shape(5, 5, true, 10, 100)); }
#endif
