// C08: cardinality is exact at any magnitude.
#include "ompcompat.hpp"
#include <tdzdd/eval/Cardinality.hpp>
#include "specs.hpp"
using namespace model;

static Big power(int b, int e) { Big r = 1; for (int i = 0; i < e; ++i) r *= b; return r; }

template<int N> static void counts(Src& s, Ctx& c, tdzdd::DdStructure<N> const& dd, int n, Big const& wantZ, Big const& wantB) {
    PBT_EQ(dd.zddCardinality(), wantZ.str(), "zddCardinality");
    PBT_EQ(dd.bddCardinality(n), wantB.str(), "bddCardinality of ", n, " variables (top level ", dd.topLevel(), ")");
    c.tag("over-64-bit", wantB > Big("18446744073709551615"));
    c.tag("over-63x4-bit", wantB > (Big(1) << 252));
    c.nontrivial(wantZ > 2 && wantB > 2);
    // narrower evaluators, whenever the value (and every value on the way up) is representable
    if (wantZ < (Big(1) << 31)) PBT_EQ(Big(dd.evaluate(tdzdd::ZddCardinality<int, N>())), wantZ, "int ZDD evaluator");
    if (wantZ < (Big(1) << 63)) PBT_EQ(Big(dd.evaluate(tdzdd::ZddCardinality<int64_t, N>())), wantZ, "int64 ZDD evaluator");
    if (wantZ < (Big(1) << 64)) PBT_EQ(Big(dd.evaluate(tdzdd::ZddCardinality<uint64_t, N>())), wantZ, "uint64 ZDD evaluator");
    if (wantZ < (Big(1) << 53)) PBT_EQ(Big(dd.evaluate(tdzdd::ZddCardinality<double, N>())), wantZ, "double ZDD evaluator");
    Big all = power(N, n);
    if (all < (Big(1) << 31)) PBT_EQ(Big(dd.evaluate(tdzdd::BddCardinality<int, N>(n))), wantB, "int BDD evaluator");
    if (all < (Big(1) << 63)) PBT_EQ(Big(dd.evaluate(tdzdd::BddCardinality<int64_t, N>(n))), wantB, "int64 BDD evaluator");
    if (all < (Big(1) << 53)) PBT_EQ(Big(dd.evaluate(tdzdd::BddCardinality<double, N>(n))), wantB, "double BDD evaluator");
}

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    omp_set_num_threads(s.range(1, 6));
    Messages messages(s.chance(1, 12));
    Canon m(N);
    tdzdd::DdStructure<N> dd(SpecInt<N>(a), s.chance(1, 4));
    int pre = s.below(4);
    int extra = s.below(4);
    extra = extra < 2 ? 0 : extra == 2 ? s.range(1, 5) : s.range(1, 400);
    if (c.verbose) c.desc << "pre=" << pre << " extra=" << extra << " " << a.str();
    int q = a.canon(m, Q);
    if (pre == 1) { dd.zddReduce(); q = m.norm(Z, q); }
    if (pre == 2) { dd.bddReduce(); q = m.norm(B, q); }
    if (pre == 3) { dd.qddReduce(); q = m.norm(Q, q); }
    // the number of accepting paths is the ZDD cardinality whatever the reduction state
    int n = std::max(dd.topLevel(), 0) + extra;
    dd.useMultiProcessors(s.chance(1, 3));
    counts<N>(s, c, dd, n, m.paths(q), m.minterms(q, n));
    PBT_EQ(canonDd<N>(m, dd, Q), q, "counting changed the diagram");
}

/** Many words, many widths, long skips: carries and shifts between numbers of different lengths. */
template<int N> static void deep(Src& s, Ctx& c) {
    Auto a = genDeep(s, N);
    omp_set_num_threads(s.range(1, 6));
    tdzdd::DdStructure<N> dd(SpecInt<N>(a), s.chance(1, 4));
    int pre = s.below(4), extra = s.flip() ? 0 : s.range(1, 400);
    if (c.verbose) c.desc << "deep pre=" << pre << " extra=" << extra << " " << a.str();
    Canon m(N);
    int q = a.canon(m, Q);
    if (pre == 1) { dd.zddReduce(); q = m.norm(Z, q); }
    if (pre == 2) { dd.bddReduce(); q = m.norm(B, q); }
    if (pre == 3) { dd.qddReduce(); q = m.norm(Q, q); }
    int n = std::max(dd.topLevel(), 0) + extra;
    dd.useMultiProcessors(s.chance(1, 3));
    counts<N>(s, c, dd, n, m.paths(q), m.minterms(q, n));
}

/** Universal and near-universal diagrams: numbers with thousands of digits. */
template<int N> static void universal(Src& s, Ctx& c) {
    int n = s.flip() ? s.range(0, 140) : s.range(0, 1500);
    int extra = s.chance(1, 3) ? s.range(1, 300) : 0;
    if (c.verbose) c.desc << "universal n=" << n << " extra=" << extra << " arity=" << N;
    omp_set_num_threads(s.range(1, 4));
    tdzdd::DdStructure<N> dd(n, s.chance(1, 4));
    Big u = power(N, n);
    c.nontrivial(n > 2);
    PBT_EQ(dd.zddCardinality(), u.str(), "universal ZDD");
    PBT_EQ(dd.bddCardinality(n + extra), power(N, n + extra).str(), "universal BDD");
    if (n > 0 && n < 300) { // one assignment removed
        Auto a;
        a.N = N;
        a.n = n;
        a.t.resize(n + 1);
        To T = {-1, 0}, F = {0, 0};
        uint64_t which = s.u64();
        for (int l = 1; l <= n; ++l) {
            int v = pbt::mix(which + l) % N;
            a.t[l].resize(2, std::vector<To>(N));
            for (int b = 0; b < N; ++b) {
                To same = {l - 1, b == v ? 0 : 1}, other = {l - 1, 1};
                a.t[l][0][b] = l == 1 ? (b == v ? F : T) : same;
                a.t[l][1][b] = l == 1 ? T : other;
            }
        }
        a.root.level = n; a.root.state = 0;
        tdzdd::DdStructure<N> d((SpecInt<N>(a)));
        Big w = u - 1;
        PBT_EQ(d.zddCardinality(), w.str(), "all but one, ZDD");
        d.bddReduce();
        PBT_EQ(d.bddCardinality(n + extra), Big(w * power(N, extra)).str(), "all but one, BDD");
    }
}

#if PART == 0
PROPERTY(count2, 4) { one<2>(s, c, Shape(8, 4, true, 60, 20)); }
PROPERTY(universal2, 1) { universal<2>(s, c); }
PROPERTY(deep2, 1) { deep<2>(s, c); }
PROPERTY(huge2, -1000) { one<2>(s, c, Shape::huge(30000)); }
#elif PART == 1
PROPERTY(count3, 2) { one<3>(s, c, Shape(6, 4, true, 40, 10)); }
PROPERTY(universal3, 1) { universal<3>(s, c); }
PROPERTY(deep3, 1) { deep<3>(s, c); }
#elif PART == 2
PROPERTY(count5, 1) { one<5>(s, c, Shape(5, 3, true, 30, 8)); }
PROPERTY(count8, 1) { one<8>(s, c, Shape(4, 3, true, 30, 8)); }
PROPERTY(universal10, 1) { universal<10>(s, c); }
PROPERTY(deep8, 1) { deep<8>(s, c); }
#endif
