// C07: lookahead, unreduction and BDD/ZDD conversion never change the meaning.
#include "ompcompat.hpp"
#include "specs.hpp"
using namespace model;

/** Every path visits all levels n..1 unless it ends in false. */
template<int N> static void noSkips(tdzdd::DdStructure<N> const& dd, int n, bool isFalse, char const* what) {
    if (isFalse) return; // the meaning is compared by the caller
    if (n == 0) { PBT_CHECK(dd.root() == 1, what, ": not true"); return; }
    PBT_EQ(int(dd.root().row()), n, what, ": top level");
    std::set<std::pair<int, uint64_t> > vis;
    std::vector<tdzdd::NodeId> st(1, dd.root());
    while (!st.empty()) {
        tdzdd::NodeId f = st.back();
        st.pop_back();
        if (f.row() == 0 || !vis.insert(std::make_pair(int(f.row()), uint64_t(f.col()))).second) continue;
        for (int b = 0; b < N; ++b) {
            tdzdd::NodeId g = dd.child(f, b);
            if (g == 0) continue;
            PBT_EQ(int(g.row()), int(f.row()) - 1, what, ": path skips a level below ", int(f.row()));
            st.push_back(g);
        }
    }
}

template<int N, typename Spec> static void adaptors(Src& s, Ctx& c, Canon& m, Auto const& a, Spec const& spec, int form, int n, bool mp) {
    int b = a.canon(m, B), z = a.canon(m, Z);
    int top = std::max(n, std::max(a.root.level, 0));
    using namespace tdzdd;
    typedef DdStructure<N> DD;
    switch (form) {
    case 0: PBT_EQ(canonDd<N>(m, DD(bddLookahead(spec), mp), B), b, "bddLookahead"); break;
    case 1: PBT_EQ(canonDd<N>(m, DD(zddLookahead(spec), mp), Z), z, "zddLookahead"); break;
    case 2: {
        DD d(bddUnreduction(spec, n), mp);
        noSkips<N>(d, top, b == 0, "bddUnreduction");
        PBT_EQ(canonDd<N>(m, d, B), b, "bddUnreduction");
        break;
    }
    case 3: {
        DD d(zddUnreduction(spec, n), mp);
        noSkips<N>(d, top, z == 0, "zddUnreduction");
        PBT_EQ(canonDd<N>(m, d, Z), z, "zddUnreduction");
        break;
    }
    case 4: { // conversion inside the specification world
        DD d(zddLookahead(bddUnreduction(spec, n)), mp);
        PBT_EQ(canonDd<N>(m, d, Z), m.b2z(b, top), "BDD to ZDD by adaptors");
        break;
    }
    case 5: {
        DD d(bddLookahead(zddUnreduction(spec, n)), mp);
        PBT_EQ(canonDd<N>(m, d, B), m.z2b(z, top), "ZDD to BDD by adaptors");
        break;
    }
    case 6: PBT_EQ(canonDd<N>(m, DD(zddLookahead(zddUnreduction(spec, n)), mp), Z), z, "lookahead of unreduction (ZDD)"); break;
    case 7: PBT_EQ(canonDd<N>(m, DD(bddLookahead(bddUnreduction(spec, n)), mp), B), b, "lookahead of unreduction (BDD)"); break;
    case 8: { // twice with different numbers of variables
        DD d(zddUnreduction(zddUnreduction(spec, n), n + 2), mp);
        noSkips<N>(d, top > n + 2 ? top : n + 2, z == 0, "double unreduction");
        PBT_EQ(canonDd<N>(m, d, Z), z, "double unreduction");
        break;
    }
    case 9: { // filter through an adaptor
        DD d(n + 1);
        d.useMultiProcessors(mp);
        d.zddSubset(zddLookahead(spec));
        PBT_EQ(canonDd<N>(m, d, Z), m.apply(Z, 0, canonDd<N>(m, DD(n + 1), Z), z), "filter by lookahead");
        break;
    }
    }
}

template<int N> static void specs(Src& s, Ctx& c, Shape sh, int lo, int hi) {
    Auto a = genAuto(s, c, N, sh);
    int kind = drawKind(s, a), par = drawParam(s);
    int form = lo + s.below(hi - lo + 1);
    int n = s.chance(3, 4) ? std::max(0, a.root.level) + int(s.below(4)) : s.range(0, a.n + 3);
    bool mp = s.chance(1, 4);
    omp_set_num_threads(s.range(1, 4));
    if (c.verbose) c.desc << "form=" << form << " n=" << n << " mp=" << mp << " kind=" << kindName(kind % 5) << " " << a.str();
    Canon m(N);
    c.nontrivial(interesting(a, m));
    c.tag(pbt::cat("form", form));
    withSpecFew<N>(a, kind, par, [&](auto const& spec) { adaptors<N>(s, c, m, a, spec, form, n, mp); });
    checkTracked("adaptor");
}

/** Diagram conversions. */
template<int N> static void convert(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    omp_set_num_threads(s.range(1, 4));
    Canon m(N);
    tdzdd::DdStructure<N> dd(SpecInt<N>(a), s.chance(1, 4));
    int pre = s.below(3);
    bool bdd = s.flip();
    if (pre == 1) { if (bdd) dd.bddReduce(); else dd.zddReduce(); }
    if (pre == 2) { dd.qddReduce(); }
    int n = std::max(0, dd.topLevel()) + (s.flip() ? 0 : s.range(1, 5));
    if (c.verbose) c.desc << (bdd ? "bdd2zdd" : "zdd2bdd") << " n=" << n << " pre=" << pre << " " << a.str();
    c.nontrivial(interesting(a, m));
    c.tag(bdd ? "bdd2zdd" : "zdd2bdd");
    c.tag("extra-variables", n > dd.topLevel());
    tdzdd::DdStructure<N> before(dd);
    dd.useMultiProcessors(s.chance(1, 4));
    tdzdd::DdStructure<N> t = bdd ? dd.bdd2zdd(n) : dd.zdd2bdd(n);
    Rule from = bdd ? B : Z, to = bdd ? Z : B;
    int f = a.canon(m, from);
    int want = bdd ? m.b2z(f, n) : m.z2b(f, n);
    int got = canonDd<N>(m, t, to);
    PBT_CHECK(got == want, "conversion: want ", m.str(want), " got ", m.str(got));
    PBT_CHECK(dd == before, "conversion changed its operand");
    if (n >= a.root.level && n <= (N == 2 ? 8 : 4)) // direct evaluation
        forAll(N, n, [&](std::vector<int> const& v) { PBT_EQ(m.eval(to, got, v), a.eval(from, v), "at an assignment"); });
    if (s.flip()) { if (bdd) t.zddReduce(); else t.bddReduce(); PBT_EQ(canonDd<N>(m, t, Q), want, "reduced conversion"); }
    tdzdd::DdStructure<N> back = bdd ? t.zdd2bdd(n) : t.bdd2zdd(n);
    PBT_EQ(canonDd<N>(m, back, from), f, "round trip");
    if (bdd) { back.bddReduce(); before.bddReduce(); } else { back.zddReduce(); before.zddReduce(); }
    PBT_CHECK(back == before && before == back, "round trip gives an unequal reduced diagram");
}

#if PART == 0
PROPERTY(adaptA, 3) { specs<2>(s, c, Shape(6, 4, true, 18, 40), 0, 3); }
#elif PART == 1
PROPERTY(adaptB, 2) { specs<2>(s, c, Shape(6, 4, true, 18, 40), 0, 9); }
#elif PART == 2
PROPERTY(adapt3, 2) { specs<3>(s, c, Shape(5, 3, true, 10, 20), 0, 9); }
#elif PART == 3
PROPERTY(convert2, 3) { convert<2>(s, c, Shape(7, 4, true, 18, 40)); }
PROPERTY(convert2huge, -4000) { convert<2>(s, c, Shape::huge(10000)); }
PROPERTY(convert3, 2) { convert<3>(s, c, Shape(4, 3, true, 10, 20)); }
PROPERTY(convert5, 1) { convert<5>(s, c, Shape(3, 3, true, 6, 10)); }
#endif
