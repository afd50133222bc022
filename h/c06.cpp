// C06: and/or/intersection/union of specifications compute exactly those set operations.
#include "ompcompat.hpp"
#include "specs.hpp"
using namespace model;

/** Operand automata. */
static Auto operand(Src& s, Ctx& c, Shape sh = Shape(6, 4, true, 14, 25)) {
    return genAuto(s, c, 2, sh);
}

template<typename Spec> static void check(Src& s, Ctx& c, Canon& m, Spec const& spec, Rule r, int want, char const* what) {
    bool mp = s.chance(1, 4);
    tdzdd::DdStructure<2> dd(spec, mp);
    int got = canonDd<2>(m, dd, r);
    PBT_CHECK(got == want, what, mp ? " (MP)" : "", ": want ", m.str(want), " got ", m.str(got));
    if (s.chance(1, 3)) {
        if (r == B) dd.bddReduce(); else dd.zddReduce();
        PBT_EQ(canonDd<2>(m, dd, Q), want, what, ": reduced");
        PBT_EQ(dd.size(), m.size(want), what, ": size");
    }
}

template<typename S1, typename S2> static void two(Src& s, Ctx& c, Canon& m, S1 const& x, S2 const& y, Auto const& a, Auto const& b, int op) {
    switch (op) {
    case 0: check(s, c, m, tdzdd::bddAnd(x, y), B, m.apply(B, 0, a.canon(m, B), b.canon(m, B)), "and"); break;
    case 1: check(s, c, m, tdzdd::bddOr(x, y), B, m.apply(B, 1, a.canon(m, B), b.canon(m, B)), "or"); break;
    case 2: check(s, c, m, tdzdd::zddIntersection(x, y), Z, m.apply(Z, 0, a.canon(m, Z), b.canon(m, Z)), "intersection"); break;
    case 3: check(s, c, m, tdzdd::zddUnion(x, y), Z, m.apply(Z, 1, a.canon(m, Z), b.canon(m, Z)), "union"); break;
    }
}

static void note(Ctx& c, Canon& m, Auto const& a, Auto const& b, int op) {
    static char const* nm[] = {"and", "or", "intersection", "union"};
    c.tag(nm[op]);
    Rule r = op < 2 ? B : Z;
    int f = a.canon(m, r), g = b.canon(m, r);
    c.tag("terminal-operand", f <= 1 || g <= 1);
    c.tag("different-tops", m.level(f) != m.level(g));
    int h = m.apply(r, op & 1, f, g);
    c.nontrivial(m.size(f) >= 2 && m.size(g) >= 2 && h != f && h != g);
}

template<int PARTNO> static void binary(Src& s, Ctx& c, int first, Shape sh = Shape(6, 4, true, 14, 25)) {
    Auto a = operand(s, c, sh);
    bool related = s.flip();
    Auto b = related ? relative(a, s) : operand(s, c, sh);
    int k2 = s.below(4), par = drawParam(s), op = s.below(4);
    omp_set_num_threads(s.range(1, 4));
    if (c.verbose) c.desc << "op=" << op << " kinds=" << first << "," << k2 << " A: " << a.str() << " B: " << b.str();
    Canon m(2);
    note(c, m, a, b, op);
    auto withFirst = [&](auto const& x) {
        switch (k2) {
        case 0: two(s, c, m, x, SpecInt<2>(b), a, b, op); break;
        case 1: two(s, c, m, x, SpecClass<2>(b), a, b, op); break;
        case 2: two(s, c, m, x, SpecHybrid<int, unsigned short, 2>(b, par), a, b, op); break;
        case 3: { // a diagram
            tdzdd::DdStructure<2> d((SpecInt<2>(b)));
            int red = s.below(3);
            if (red) { if (op < 2) d.bddReduce(); else d.zddReduce(); }
            two(s, c, m, x, d, a, b, op);
            break;
        }
        }
    };
    if constexpr (PARTNO == 0) withFirst(SpecInt<2>(a));
    else if constexpr (PARTNO == 1) withFirst(SpecClass<2>(a));
    else if constexpr (PARTNO == 2) withFirst(SpecArray<unsigned char, 2>(a, par));
    else if constexpr (PARTNO == 3) {
        tdzdd::DdStructure<2> d = sh.hugeWidth ? tdzdd::DdStructure<2>(SpecInt<2>(a), s.chance(1, 4)) : tdzdd::DdStructure<2>(SpecChar<2>(a), s.chance(1, 4));
        if (s.flip()) { if (op < 2) d.bddReduce(); else d.zddReduce(); }
        withFirst(d);
    }
    else if constexpr (PARTNO == 5) switch (first) {
    case 5: two(s, c, m, SpecAtLevel<2>(a), SpecInt<2>(b), a, b, op); break;
    case 6: two(s, c, m, SpecHybridClass<2>(a, par), SpecAtLevel<2>(b), a, b, op); break;
    case 7: two(s, c, m, SpecHybrid<unsigned char, int, 2>(a, par), SpecNoisy<2>(b, 1 + par % 9), a, b, op); break;
    case 8: two(s, c, m, SpecChar<2>(a), SpecHybridClass<2>(b, par), a, b, op); break;
    }
    checkTracked("combined build");
}

/** More than two operands and nesting. */
static void many(Src& s, Ctx& c) {
    Auto a = operand(s, c), b = operand(s, c), d = s.flip() ? relative(a, s) : operand(s, c), e = s.flip() ? relative(b, s) : operand(s, c);
    int form = s.below(14), par = drawParam(s);
    omp_set_num_threads(s.range(1, 4));
    if (c.verbose) c.desc << "form=" << form << " A: " << a.str() << " B: " << b.str() << " C: " << d.str() << " D: " << e.str();
    Canon m(2);
    SpecInt<2> x(a);
    SpecClass<2> y(b);
    SpecArray<unsigned char, 2> z(d, par);
    SpecNoisy<2> w(e, 1 + par % 9);
    int fb[4] = {a.canon(m, B), b.canon(m, B), d.canon(m, B), e.canon(m, B)};
    int fz[4] = {a.canon(m, Z), b.canon(m, Z), d.canon(m, Z), e.canon(m, Z)};
    auto A = [&](int p, int q) { return m.apply(B, 0, p, q); };
    auto O = [&](int p, int q) { return m.apply(B, 1, p, q); };
    auto I = [&](int p, int q) { return m.apply(Z, 0, p, q); };
    auto U = [&](int p, int q) { return m.apply(Z, 1, p, q); };
    c.nontrivial(m.size(fb[0]) >= 2 && m.size(fb[1]) >= 2 && m.size(fb[2]) >= 2);
    c.tag(pbt::cat("form", form));
    using namespace tdzdd;
    switch (form) {
    case 0: check(s, c, m, bddAnd(x, y, z), B, A(fb[0], A(fb[1], fb[2])), "and3"); break;
    case 1: check(s, c, m, bddOr(x, y, z), B, O(fb[0], O(fb[1], fb[2])), "or3"); break;
    case 2: check(s, c, m, zddIntersection(x, y, z), Z, I(fz[0], I(fz[1], fz[2])), "intersection3"); break;
    case 3: check(s, c, m, zddUnion(x, y, z), Z, U(fz[0], U(fz[1], fz[2])), "union3"); break;
    case 4: check(s, c, m, bddAnd(x, y, z, w), B, A(A(fb[0], fb[1]), A(fb[2], fb[3])), "and4"); break;
    case 5: check(s, c, m, bddOr(w, z, y, x), B, O(O(fb[0], fb[1]), O(fb[2], fb[3])), "or4"); break;
    case 6: check(s, c, m, zddIntersection(w, y, x, z), Z, I(I(fz[0], fz[1]), I(fz[2], fz[3])), "intersection4"); break;
    case 7: check(s, c, m, zddUnion(x, y, z, w), Z, U(U(fz[0], fz[1]), U(fz[2], fz[3])), "union4"); break;
    case 8: check(s, c, m, bddOr(bddAnd(x, y), bddAnd(z, w)), B, O(A(fb[0], fb[1]), A(fb[2], fb[3])), "or of ands"); break;
    case 9: check(s, c, m, bddAnd(bddOr(y, w), x), B, A(O(fb[1], fb[3]), fb[0]), "and of or"); break;
    case 10: check(s, c, m, zddUnion(zddIntersection(x, y), zddIntersection(z, w)), Z, U(I(fz[0], fz[1]), I(fz[2], fz[3])), "union of intersections"); break;
    case 11: check(s, c, m, zddIntersection(zddUnion(y, z), x), Z, I(U(fz[1], fz[2]), fz[0]), "intersection of union"); break;
    case 12: { // intersection of a union by filtering
        DdStructure<2> dd(zddUnion(x, y));
        dd.useMultiProcessors(s.chance(1, 3));
        dd.zddSubset(zddUnion(z, w));
        PBT_EQ(canonDd<2>(m, dd, Z), I(U(fz[0], fz[1]), U(fz[2], fz[3])), "filter by a union");
        break;
    }
    case 13: { // with adaptors
        check(s, c, m, zddUnion(zddLookahead(x), zddUnreduction(y, b.n + 1)), Z, U(fz[0], fz[1]), "union of adaptors");
        break;
    }
    }
    checkTracked("combined build");
}

#if PART == 0
PROPERTY(intFirstHuge, -20000) { binary<PART>(s, c, 0, Shape::huge(400)); }
PROPERTY(intFirst, 2) { binary<PART>(s, c, 0); }
#elif PART == 1
PROPERTY(classFirstHuge, -20000) { binary<PART>(s, c, 1, Shape::huge(400)); }
PROPERTY(classFirst, 2) { binary<PART>(s, c, 1); }
#elif PART == 2
PROPERTY(arrayFirstHuge, -20000) { binary<PART>(s, c, 3, Shape::huge(400)); }
PROPERTY(arrayFirst, 2) { binary<PART>(s, c, 3); }
#elif PART == 3
PROPERTY(diagramFirstHuge, -20000) { binary<PART>(s, c, 4, Shape::huge(400)); }
PROPERTY(diagramFirst, 2) { binary<PART>(s, c, 4); }
#elif PART == 4
PROPERTY(manyOperands, 4) { many(s, c); }
#elif PART == 5
PROPERTY(mixed, 2) { int k = 5 + s.below(4); binary<PART>(s, c, k); }
#endif
