// C05: subsetting keeps exactly the combinations accepted by the second specification.
#include "ompcompat.hpp"
#include <tdzdd/DdEval.hpp>
#include "specs.hpp"
using namespace model;

/** Everything later operations can see of a filtered diagram. */
template<int N> static void usable(Src& s, Ctx& c, Canon& m, tdzdd::DdStructure<N>& dd, int want, Auto const* again) {
    switch (s.below(6)) {
    case 0: { // reduce
        tdzdd::DdStructure<N> d(dd);
        d.useMultiProcessors(s.chance(1, 4));
        d.zddReduce();
        PBT_EQ(canonDd<N>(m, d, Q), want, "reduced after filtering");
        PBT_EQ(d.size(), m.size(want), "size after filtering and reducing");
        break;
    }
    case 1: // count
        PBT_EQ(dd.zddCardinality(), m.paths(canonDd<N>(m, dd, Q)).str(), "cardinality after filtering");
        break;
    case 2: { // as a specification
        tdzdd::DdStructure<N> d(static_cast<tdzdd::DdSpecBase<tdzdd::DdStructure<N>, N> const&>(dd), s.chance(1, 4));
        PBT_EQ(canonDd<N>(m, d, Z), want, "rebuilt after filtering");
        break;
    }
    case 3: { // as a filter for itself: no change
        tdzdd::DdStructure<N> d(dd);
        d.useMultiProcessors(s.chance(1, 4));
        if (s.flip()) d.zddSubset(dd); else d.zddSubset(d);
        PBT_EQ(canonDd<N>(m, d, Z), want, "filtered by itself");
        break;
    }
    case 4: { // as a filter for another diagram
        tdzdd::DdStructure<N> d((SpecInt<N>(*again)));
        d.useMultiProcessors(s.chance(1, 4));
        if (s.flip()) d.zddReduce();
        d.zddSubset(dd);
        PBT_EQ(canonDd<N>(m, d, Z), m.apply(Z, 0, again->canon(m, Z), want), "filtering another diagram by the result");
        break;
    }
    case 5: { // copy and compare
        tdzdd::DdStructure<N> d(dd);
        PBT_CHECK(d == dd, "copy");
        d.qddReduce();
        PBT_EQ(canonDd<N>(m, d, Z), want, "qdd after filtering");
        break;
    }
    }
}

template<int N> static void one(Src& s, Ctx& c, Shape sh, bool few) {
    Auto a = genAuto(s, c, N, sh);
    omp_set_num_threads(s.range(1, 6));
    Messages messages(s.chance(1, 12));
    Canon m(N);
    int want = a.canon(m, Z);
    bool buildMP = s.chance(1, 4);
    tdzdd::DdStructure<N> dd(SpecInt<N>(a), buildMP);
    int pre = s.below(4);
    if (pre == 1) dd.zddReduce();
    else if (pre == 2) { dd = tdzdd::DdStructure<N>(tdzdd::zddUnreduction(SpecInt<N>(a), a.n + int(s.below(3)))); c.tag("unreduced-base"); }
    if (c.verbose) c.desc << "base(" << (pre == 1 ? "reduced" : pre == 2 ? "unreduced" : "as built") << (buildMP ? ",MP" : "") << "): " << a.str();
    int steps = s.range(1, 3);
    tdzdd::DdStructure<N> snapshot(dd);
    int snapWant = want;
    for (int i = 0; i < steps; ++i) {
        Shape sh2 = sh;
        bool related = s.flip();
        Auto b = related ? relative(a, s) : genAuto(s, c, N, sh2);
        int kind = drawKind(s, b), par = drawParam(s);
        bool mp = s.chance(1, 3);
        int form = s.below(5);
        if (c.verbose) c.desc << "; filter(kind " << kindName(few ? kind % 5 : kind) << " form " << form << (mp ? ",MP" : "") << "): " << b.str();
        int g = b.canon(m, Z);
        dd.useMultiProcessors(mp);
        c.tag(mp ? "mp" : "serial");
        auto go = [&](auto const& spec) {
            if (form <= 2) dd.zddSubset(spec);
            else { // by a diagram
                tdzdd::DdStructure<N> f(spec, s.chance(1, 4));
                if (form == 4) f.zddReduce();
                c.tag("by-diagram");
                dd.zddSubset(f);
                PBT_EQ(canonDd<N>(m, f, Z), g, "the filter itself changed");
            }
        };
        if (few) withSpecFew<N>(b, kind, par, go); else withSpec<N>(b, kind, par, go);
        int before = want;
        want = m.apply(Z, 0, want, g);
        int got = canonDd<N>(m, dd, Z);
        PBT_CHECK(got == want, "filter ", i + 1, ": want ", m.str(want), " got ", m.str(got));
        if (m.size(before) >= 2 && want != before && want != 0) c.nontrivial(true);
        c.tag("empty-result", want == 0);
        PBT_EQ(canonDd<N>(m, snapshot, Z), snapWant, "a copy taken before filtering changed");
        if (s.flip()) { snapshot = dd; snapWant = want; }
        usable<N>(s, c, m, dd, want, &b);
    }
    checkTracked("filtering");
    if (a.n <= 6 && N <= 3) { // direct evaluation
        int n = a.n;
        forAll(N, n, [&](std::vector<int> const& v) {
            bool in = m.eval(Z, want, v);
            if (in) PBT_CHECK(a.eval(Z, v), "model");
        });
    }
}

#if PART == 0
PROPERTY(binary, 4) { one<2>(s, c, Shape(6, 4, true, 24, 50), false); }
#elif PART == 1
PROPERTY(wide, 1) { one<2>(s, c, Shape(9, 8, true, 16, 300), true); }
PROPERTY(huge, -2000) { one<2>(s, c, Shape::huge(10000), true); }
PROPERTY(ternary, 3) { one<3>(s, c, Shape(5, 4, true, 12, 40), true); }
#elif PART == 2
PROPERTY(five, 1) { one<5>(s, c, Shape(4, 3, true, 8, 20), true); }
#endif
