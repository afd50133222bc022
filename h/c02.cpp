// C02: reduction preserves meaning and yields the canonical minimal diagram.
#include "ompcompat.hpp"
#include "specs.hpp"
using namespace model;

template<int N> static void checkReduced(Canon& m, tdzdd::DdStructure<N> const& dd, Rule r, int want, char const* what) {
    int got = canonDd<N>(m, dd, Q);
    PBT_CHECK(got == want, what, ": reduced diagram differs: want ", m.str(want), " got ", m.str(got));
    PBT_EQ(dd.size(), m.size(want), what, ": not minimal, ", m.str(want));
    PBT_EQ(reachableNodes<N>(dd), dd.size(), what, ": unreachable nodes");
    PBT_EQ(dd.topLevel(), m.level(want), what, ": top level");
    PBT_EQ(dd.empty(), (want == 0), what);
    // no node violates the rule, no duplicates (independent of the canonical graph)
    std::set<std::vector<uint64_t> > seen;
    std::set<std::pair<int, uint64_t> > vis;
    std::vector<tdzdd::NodeId> st(1, dd.root());
    while (!st.empty()) {
        tdzdd::NodeId f = st.back();
        st.pop_back();
        if (f.row() == 0 || !vis.insert(std::make_pair(int(f.row()), uint64_t(f.col()))).second) continue;
        std::vector<uint64_t> k(1, f.row());
        bool same = true, zero = true;
        for (int b = 0; b < N; ++b) {
            tdzdd::NodeId g = dd.child(f, b);
            k.push_back(uint64_t(g.row()) << 40 | uint64_t(g.col()));
            if (b && k[b + 1] != k[1]) same = false;
            if (b && k[b + 1] != 0) zero = false;
            st.push_back(g);
        }
        PBT_CHECK(seen.insert(k).second, what, ": duplicate node");
        if (r == B) PBT_CHECK(!same, what, ": redundant node (BDD rule)");
        if (r == Z) PBT_CHECK(!zero, what, ": redundant node (ZDD rule)");
        PBT_CHECK(!(zero && k[1] == 0), what, ": node without accepting path");
    }
}

template<int N> static void apply(tdzdd::DdStructure<N>& dd, int how) {
    switch (how) {
    case 0: dd.zddReduce(); break;
    case 1: dd.bddReduce(); break;
    case 2: dd.qddReduce(); break;
    case 3: dd.template reduce<false, true>(); break;
    case 4: dd.template reduce<true, false>(); break;
    case 5: dd.template reduce<false, false>(); break;
    }
}
static Rule ruleOf(int how) { static Rule r[] = {Z, B, Q, Z, B, Q}; return r[how]; }

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    int kind = drawKind(s, a), par = drawParam(s);
    bool buildMP = s.chance(1, 4);
    int threads = s.range(1, 6);
    int steps = s.range(1, 3);
    std::vector<std::pair<int, bool> > plan;
    for (int i = 0; i < steps; ++i) { int how = s.below(6); bool mp = s.chance(1, 3); plan.push_back(std::make_pair(how, mp)); }
    int subset = s.below(4);
    if (c.verbose) {
        c.desc << "kind=" << kindName(kind % 5) << " buildMP=" << buildMP << " threads=" << threads << " reductions:";
        for (auto const& p : plan) c.desc << " " << "zbqzbq"[p.first] << (p.second ? "(MP)" : "");
        c.desc << " " << a.str();
    }
    omp_set_num_threads(threads);
    Messages messages(s.chance(1, 12));
    Canon m(N);
    int f = a.canon(m, Q);
    c.nontrivial(interesting(a, m));
    withSpecFew<N>(a, kind, par, [&](auto const& spec) {
        tdzdd::DdStructure<N> dd(spec, buildMP);
        if (subset == 3) { // a filtered diagram
            Auto a2 = genAuto(s, c, N, Shape(sh.maxLevels, 3, false));
            if (c.verbose) c.desc << " filter: " << a2.str();
            dd.zddSubset(SpecInt<N>(a2));
            f = canonDd<N>(m, dd, Q);
            PBT_CHECK(m.norm(Z, f) == m.apply(Z, 0, a.canon(m, Z), a2.canon(m, Z)), "filter");
            c.tag("filtered");
        }
        Rule last = Q;
        for (auto const& p : plan) {
            last = ruleOf(p.first);
            dd.useMultiProcessors(p.second);
            size_t before = dd.size();
            apply<N>(dd, p.first);
            f = m.norm(last, f);
            checkReduced<N>(m, dd, last, f, p.second ? "parallel reduction" : "serial reduction");
            c.tag("shrunk", dd.size() < before);
            c.tag(p.second ? "mp" : "serial");
        }
        // reducing again changes nothing
        tdzdd::DdStructure<N> d2(dd);
        d2.useMultiProcessors(s.flip());
        apply<N>(d2, last == Z ? 0 : last == B ? 1 : 2);
        checkReduced<N>(m, d2, last, f, "second reduction");
        PBT_CHECK(dd == d2, "reducing again changed the diagram");
        // the same function built another way gives an equal diagram
        if (last != Q && plan.size() == 1 && subset != 3) {
            Auto a2 = a; // split every state in two
            a2.t.assign(a.n + 1, std::vector<std::vector<To> >());
            for (int l = 1; l <= a.n; ++l) {
                size_t w = a.t[l].size();
                for (size_t k = 0; k < 2 * w; ++k) {
                    std::vector<To> v = a.t[l][k % w];
                    for (int b = 0; b < N; ++b)
                        if (v[b].level > 0 && ((k + b + l) % 3 == 0)) v[b].state += a.t[v[b].level].size();
                    a2.t[l].push_back(v);
                }
            }
            tdzdd::DdStructure<N> d3((SpecInt<N>(a2)));
            apply<N>(d3, plan[0].first);
            PBT_EQ(d3.size(), dd.size(), "equal functions, different sizes");
            PBT_CHECK(d3 == dd && dd == d3, "equal functions give unequal reduced diagrams");
        }
    });
}

#if PART == 0
PROPERTY(binary, 6) { one<2>(s, c, Shape()); }
PROPERTY(wide, 1) { one<2>(s, c, Shape(6, 6, true, 20, 600)); }
PROPERTY(huge, -1500) { one<2>(s, c, Shape::huge(30000)); }
#elif PART == 1
PROPERTY(ternary, 3) { one<3>(s, c, Shape(5, 4, true, 16, 40)); }
PROPERTY(huge3, -3000) { one<3>(s, c, Shape::huge(20000)); }
#elif PART == 2
PROPERTY(five, 1) { one<5>(s, c, Shape(4, 4, true, 8, 20)); }
PROPERTY(ary40, -40) { one<40>(s, c, Shape(3, 3, true, 4, 6)); }
#elif PART == 3
PROPERTY(quaternary, 1) { one<4>(s, c, Shape(4, 4, true, 10, 30)); }
#endif
