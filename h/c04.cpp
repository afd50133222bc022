// C04: diagram equality holds exactly when the node structures are equivalent.
#include "ompcompat.hpp"
#include "specs.hpp"
using namespace model;

template<int N> static tdzdd::DdStructure<N> make(Auto const& a, Src& s, int rule, Ctx& c) {
    bool mp = s.chance(1, 4), cls = s.chance(1, 4);
    tdzdd::DdStructure<N> dd;
    if (cls) dd = tdzdd::DdStructure<N>(SpecClass<N>(a), mp);
    else dd = tdzdd::DdStructure<N>(SpecInt<N>(a), mp);
    dd.useMultiProcessors(s.chance(1, 4));
    if (rule == 1) dd.zddReduce();
    else if (rule == 2) dd.bddReduce();
    else if (rule == 3) dd.qddReduce();
    return dd;
}

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    omp_set_num_threads(s.range(1, 4));
    int relation = s.below(4);
    Auto b = relation == 0 ? split(a, s.range(1, 3), s.u64()) : relation == 1 ? mutate(a, s)
            : relation == 2 ? mutate(split(a, 2, s.u64()), s) : genAuto(s, c, N, sh);
    int rule = s.below(4); // 0: not reduced
    if (c.verbose) c.desc << "rule=" << rule << " A: " << a.str() << " B: " << b.str();
    tdzdd::DdStructure<N> x = make<N>(a, s, rule, c), y = make<N>(b, s, rule, c);
    Canon m(N);
    int sx = canonDd<N>(m, x, S), sy = canonDd<N>(m, y, S);
    bool want = sx == sy;
    c.tag(pbt::cat(rule ? "reduced" : "unreduced", want ? "-equal" : "-unequal"));
    c.nontrivial(sx > 1 && sy > 1 && m.size(sx) >= 3);
    PBT_EQ((x == y), want, "A == B; A ", m.str(sx), " B ", m.str(sy));
    PBT_EQ((y == x), want, "B == A; A ", m.str(sx), " B ", m.str(sy));
    PBT_EQ((x != y), !want, "A != B");
    PBT_EQ((y != x), !want, "B != A");
    PBT_CHECK(x == x && !(x != x) && y == y, "not reflexive");
    tdzdd::DdStructure<N> z(x);
    PBT_CHECK(z == x && x == z, "copy is unequal");
    if (rule) { // same function <=> equal
        Rule r = rule == 1 ? Z : rule == 2 ? B : Q;
        bool f = a.canon(m, r) == b.canon(m, r);
        PBT_EQ((x == y), f, "equality after reduction is not functional equality");
    }
    // a mixture of rules: structure decides
    int rule2 = s.below(4);
    tdzdd::DdStructure<N> w = make<N>(relation == 3 ? a : b, s, rule2, c);
    int sw = canonDd<N>(m, w, S);
    PBT_EQ((x == w), (sx == sw), "A == C");
    PBT_EQ((w == x), (sx == sw), "C == A");
    PBT_EQ((y == w), (sy == sw), "B == C");
    // a rebuilt diagram (through the diagram's own specification interface) is equal unless dead parts were swept
    tdzdd::DdStructure<N> v(static_cast<tdzdd::DdSpecBase<tdzdd::DdStructure<N>, N> const&>(x), s.flip());
    PBT_EQ((v == x), (canonDd<N>(m, v, S) == sx), "rebuilt");
    // the root can be moved to any node; copies share their nodes but not their roots
    if (sx > 1 && s.flip()) {
        c.tag("moved-root");
        tdzdd::DdStructure<N> d[4] = {x, x, y, s.flip() ? v : x};
        int sd[4];
        for (int i = 0; i < 4; ++i) {
            int steps = s.below(4);
            tdzdd::NodeId f = d[i].root();
            while (steps-- > 0 && f.row() > 0) f = d[i].child(f, s.below(N));
            d[i].root() = f;
            sd[i] = canonDd<N>(m, d[i], S);
        }
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
            PBT_EQ((d[i] == d[j]), (sd[i] == sd[j]), "moved roots ", i, ",", j, ": ", m.str(sd[i]), " and ", m.str(sd[j]));
            PBT_EQ((d[i] != d[j]), (sd[i] != sd[j]), "moved roots (!=) ", i, ",", j);
        }
        PBT_EQ((d[0] == x), (sd[0] == sx), "moved and original root");
        PBT_EQ((x == d[1]), (sd[1] == sx), "original and moved root");
    }
}

#if PART == 0
PROPERTY(binary, 6) { one<2>(s, c, Shape(6, 4, true, 16, 30)); }
PROPERTY(huge, -2500) { one<2>(s, c, Shape::huge(10000)); }
PROPERTY(wide, 1) { one<2>(s, c, Shape(6, 6, true, 16, 300)); }
#elif PART == 1
PROPERTY(huge3, -5000) { one<3>(s, c, Shape::huge(6000)); }
PROPERTY(ternary, 3) { one<3>(s, c, Shape(5, 3, true, 10, 30)); }
#elif PART == 2
PROPERTY(five, 1) { one<5>(s, c, Shape(4, 3, true, 8, 20)); }
#endif
