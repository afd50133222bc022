// C14: counting paths without building a diagram equals the diagram's cardinality.
#include "ompcompat.hpp"
#include <tdzdd/dd/PathCounter.hpp>
#include "specs.hpp"
using namespace model;

template<typename Spec> static void counts(Spec const& spec0, Big const& want, Ctx& c) {
    Spec spec(spec0);
    PBT_EQ(tdzdd::countPaths(spec), want.str(), "countPaths");
    PBT_EQ(tdzdd::countPaths(spec, true), want.str(), "countPaths (fast)");
    if (want < (Big(1) << 64)) PBT_EQ(Big(tdzdd::countPaths64(spec)), want, "countPaths64");
    c.tag("over-64-bit", want >= (Big(1) << 64));
    c.tag("over-252-bit", want >= (Big(1) << 252));
}

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    int kind = drawKind(s, a), par = drawParam(s);
    bool build = s.chance(1, 3);
    if (c.verbose) c.desc << "kind=" << kindName(kind) << " " << a.str();
    Canon m(N);
    Big want = m.paths(a.canon(m, Q));
    c.nontrivial(want > 2);
    c.tag(kindName(kind));
    Messages messages(s.chance(1, 12));
    withSpec<N>(a, kind, par, [&](auto const& spec) {
        counts(spec, want, c);
        if (build) {
            tdzdd::DdStructure<N> dd(spec);
            PBT_EQ(dd.zddCardinality(), want.str(), "cardinality of the built diagram");
            counts(dd, want, c);
            dd.zddReduce();
            counts(dd, want, c);
        }
    });
    checkTracked("path counting");
}

template<int N> static void deep(Src& s, Ctx& c) {
    Auto a = genDeep(s, N);
    if (c.verbose) c.desc << "deep " << a.str();
    Canon m(N);
    Big want = m.paths(a.canon(m, Q));
    c.nontrivial(want > 2);
    switch (s.below(3)) {
    case 0: counts(SpecInt<N>(a), want, c); break;
    case 1: counts(SpecArray<unsigned char, N>(a, 3), want, c); break;
    case 2: { tdzdd::DdStructure<N> dd((SpecInt<N>(a))); if (s.flip()) dd.zddReduce(); counts(dd, want, c); break; }
    }
}

#if PART == 0
PROPERTY(count2, 4) { one<2>(s, c, Shape(7, 4, true, 40, 20)); }
PROPERTY(deep2, 1) { deep<2>(s, c); }
PROPERTY(huge2, -2000) { one<2>(s, c, Shape::huge(30000)); }
#elif PART == 1
PROPERTY(count3, 2) { one<3>(s, c, Shape(5, 4, true, 30, 12)); }
PROPERTY(deep3, 1) { deep<3>(s, c); }
#elif PART == 2
PROPERTY(count7, 1) { one<7>(s, c, Shape(4, 3, true, 20, 8)); }
PROPERTY(deep7, 1) { deep<7>(s, c); }
#endif
