// C01: a diagram built from a specification accepts exactly what it specifies.
#include "specs.hpp"
using namespace model;

enum Family { ANY, STATELESS, PACKED };
template<int N, Family F, typename G> static void withKind(Auto const& a, int kind, int par, G g) {
    if constexpr (F == PACKED) withSpecPacked<N>(a, kind, par, g); else withSpec<N>(a, kind, par, g);
}

template<int N, Family F> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh, F == STATELESS);
    int kind = F == STATELESS ? 10 : F == PACKED ? int(s.below(KINDS2)) : drawKind(s, a);
    int par = drawParam(s);
    std::string name = F == PACKED ? pbt::cat("packed", kind) : std::string(kindName(kind));
    if (c.verbose) c.desc << "kind=" << name << " par=" << par << " " << a.str();
    c.tag(name);
    c.tag(pbt::cat("arity", N));
    Canon m(N);
    int want = a.canon(m, Q);
    c.nontrivial(interesting(a, m));
    Tracked::reset();
    withKind<N, F>(a, kind, par, [&](auto const& spec) {
        tdzdd::DdStructure<N> dd(spec);
        int got = canonDd<N>(m, dd, Q);
        PBT_CHECK(got == want, "diagram differs: want ", m.str(want), " got ", m.str(got));
        size_t r = a.reachable();
        PBT_CHECK(dd.size() <= r, "no sharing: ", dd.size(), " nodes for ", r, " states");
        PBT_CHECK(reachableNodes<N>(dd) <= dd.size(), "size() ", dd.size(), " is less than the reachable nodes");
        PBT_EQ(dd.topLevel(), int(dd.root().row()), "");
        PBT_EQ(dd.empty(), (dd.root() == 0), "");
        if (want <= 1 && a.root.level <= 0) PBT_CHECK(dd.topLevel() == 0 && dd.size() == 0, "terminal root has nodes");
        c.tag("dead-swept", r > dd.size());
        if (a.n <= 6 && std::pow(double(N), a.n) <= 800) {
            // independent of the canonical graph: walk every assignment
            forAll(N, a.n, [&](std::vector<int> const& v) {
                for (int rule = 0; rule < 2; ++rule) {
                    tdzdd::NodeId f = dd.root();
                    bool ok = true;
                    for (int i = a.n; i >= 1; --i) {
                        if (int(f.row()) == i) f = dd.child(f, v[i]);
                        else if (rule && v[i]) ok = false;
                    }
                    bool g = ok && f == 1;
                    bool w = a.eval(rule ? Z : B, v);
                    PBT_CHECK(g == w, "assignment evaluates to ", g, " as ", rule ? "ZDD" : "BDD");
                }
            });
        }
    });
    checkTracked("construction");
}

#if PART == 0
PROPERTY(binary, 6) { one<2, ANY>(s, c, Shape()); }
PROPERTY(stateless, 1) { one<2, STATELESS>(s, c, Shape(10, 1)); }
PROPERTY(wide, 1) { one<2, ANY>(s, c, Shape(6, 6, true, 30, 1500)); }
PROPERTY(tower, -20000) { one<2, ANY>(s, c, Shape::towers(70000)); }
PROPERTY(huge, -2000) { one<2, ANY>(s, c, Shape::huge(30000)); }
#elif PART == 1
PROPERTY(ternary, 3) { one<3, ANY>(s, c, Shape(5, 4, true, 16, 40)); }
PROPERTY(stateless3, 1) { one<3, STATELESS>(s, c, Shape(8, 1)); }
PROPERTY(huge3, -4000) { one<3, ANY>(s, c, Shape::huge(20000)); }
#elif PART == 2
PROPERTY(five, 1) { one<5, ANY>(s, c, Shape(4, 4, true, 8, 20)); }
#elif PART == 3
PROPERTY(ary12, 1) { one<12, ANY>(s, c, Shape(3, 3, true, 5, 10)); }

// A diagram is itself a specification: rebuilding it gives the same diagram.
PROPERTY(rebuild, 1) {
    Auto a = genAuto(s, c, 2);
    Canon m(2);
    int want = a.canon(m, Q);
    c.nontrivial(want > 1);
    if (c.verbose) c.desc << a.str();
    tdzdd::DdStructure<2> dd((SpecInt<2>(a)));
    tdzdd::DdStructure<2> d2(dd);
    tdzdd::DdStructure<2> d3(static_cast<tdzdd::DdSpecBase<tdzdd::DdStructure<2>, 2> const&>(dd));
    PBT_CHECK(canonDd<2>(m, d2, Q) == want, "copy differs");
    PBT_CHECK(canonDd<2>(m, d3, Q) == want, "rebuilt diagram differs");
}
// The universal diagram over n variables.
PROPERTY(universal, 1) {
    int n = s.skew(0, 60);
    if (c.verbose) c.desc << "n=" << n;
    c.nontrivial(n > 2);
    tdzdd::DdStructure<2> d2(n);
    tdzdd::DdStructure<3> d3(n);
    Canon m(2), m3(3);
    PBT_EQ(m.paths(canonDd<2>(m, d2, Q)), Big(1) << n, "universal diagram");
    Big p = 1;
    for (int i = 0; i < n; ++i) p *= 3;
    PBT_EQ(m3.paths(canonDd<3>(m3, d3, Q)), p, "universal ternary diagram");
    PBT_CHECK(d2.topLevel() == n && d2.size() == size_t(n), "top level/size of universal diagram");
    tdzdd::DdStructure<2> e;
    PBT_CHECK(e.empty() && e.topLevel() == 0 && e.size() == 0, "default diagram is not empty");
}
#elif PART == 4
PROPERTY(packed, 3) { one<2, PACKED>(s, c, Shape()); }
PROPERTY(packed3, 1) { one<3, PACKED>(s, c, Shape(5, 4, true, 12, 300)); }
PROPERTY(ary40, -40) { one<40, PACKED>(s, c, Shape(3, 3, true, 4, 6)); }
#endif
