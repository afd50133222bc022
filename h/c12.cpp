// C12: every specification state is created, copied and destroyed in balance.
#include "ompcompat.hpp"
#include <tdzdd/dd/PathCounter.hpp>
#include "leak.hpp"
#include "merge.hpp"
using namespace model;

/** Class state with a merging rule (all three answers). */
struct ClassCost { Tracked st; Tracked cost; bool operator==(ClassCost const& o) const { return st == o.st; } };
template<int N> struct SpecClassCost: public tdzdd::DdSpec<SpecClassCost<N>, ClassCost, N> {
    CostAuto const* ca;
    int tie;
    bool mergeAtTrue;
    SpecClassCost(CostAuto const& x, int tie, bool mergeAtTrue) : ca(&x), tie(tie), mergeAtTrue(mergeAtTrue) {}
    int getRoot(ClassCost& s) const { s.st = Tracked(ca->a.root.state); s.cost = Tracked(0); return ca->a.root.level; }
    int getChild(ClassCost& s, int level, int b) const {
        int st = s.st.get();
        To const& u = ca->a.go(level, st, b);
        s.cost = Tracked(s.cost.get() + ca->cost(level, st, b));
        s.st = Tracked(u.level > 0 ? u.state : -1);
        return u.level;
    }
    size_t hashCode(ClassCost const& s) const { return size_t(s.st.get()) * 7; }
    bool equalTo(ClassCost const& x, ClassCost const& y) const { return x.st == y.st; }
    int mergeStates(ClassCost& x, ClassCost& y) const {
        if (x.st.get() == -1 && !mergeAtTrue) return 0;
        if (x.cost.get() > y.cost.get()) return 1;
        if (x.cost.get() < y.cost.get()) return 2;
        return tie == 0 ? 0 : tie == 1 ? 2 : 1;
    }
    void printState(std::ostream& os, ClassCost const& s) const { os << s.st; }
};

/** Wraps a class-state specification: overrides construction and copying hooks. */
template<int N> struct SpecHooked: public tdzdd::DdSpec<SpecHooked<N>, Tracked, N> {
    Auto const* a;
    explicit SpecHooked(Auto const& x) : a(&x) {}
    void construct(void* p) { new (p) Tracked(123456); }
    void getCopy(void* p, Tracked const& s) { new (p) Tracked(s); }
    int getRoot(Tracked& s) const { if (s.get() != 123456) ++Tracked::bad(); s = Tracked(a->root.state); return a->root.level; }
    int getChild(Tracked& s, int level, int v) const {
        To const& u = a->go(level, s.get(), v);
        s = Tracked(u.state);
        return u.level;
    }
    size_t hashCode(Tracked const& s) const { return s.get() % 3; }
};

/** What is done with the specification. */
struct What { int op, n, arg; bool mp; };
static int const OPS = 14;
static char const* const NAMES[] = {"build", "subset", "subsetReduced", "findOne", "dump", "count", "countFast", "count64", "bddLookahead", "zddLookahead", "bddUnreduction", "zddUnreduction", "buildTwice", "universalSubset"};

template<int N, typename Spec> static void use(What const& w, Auto const& a, Auto const& b, Spec spec) {
    typedef tdzdd::DdStructure<N> DD;
    switch (w.op) {
    case 0: { DD d(spec, w.mp); break; }
    case 1: { DD d((SpecInt<N>(b))); d.useMultiProcessors(w.mp); d.zddSubset(spec); break; }
    case 2: { DD d((SpecInt<N>(b))); d.zddReduce(); d.useMultiProcessors(w.mp); d.zddSubset(spec); break; }
    case 3: try { spec.findOneInstance(); } catch (std::runtime_error&) {} break;
    case 4: { std::ostringstream os; spec.dumpDot(os, "t"); break; }
    case 5: tdzdd::countPaths(spec, false); break;
    case 6: tdzdd::countPaths(spec, true); break;
    case 7: tdzdd::countPaths64(spec); break;
    case 8: { DD d(tdzdd::bddLookahead(spec), w.mp); break; }
    case 9: { DD d(tdzdd::zddLookahead(spec), w.mp); break; }
    case 10: { DD d(tdzdd::bddUnreduction(spec, w.n), w.mp); break; }
    case 11: { DD d(tdzdd::zddUnreduction(spec, w.n), w.mp); break; }
    case 12: { DD d(spec, w.mp); d = DD(spec, !w.mp); break; }
    case 13: { DD d(a.n + w.arg); d.useMultiProcessors(w.mp); d.zddSubset(spec); break; }
    }
}

template<typename F> static void audit(Ctx& c, F f, char const* what) {
    Tracked::reset();
    long lost = leaked(f);
    c.nontrivial(Tracked::made() >= 5);
    c.tag(what);
    checkTracked(what);
    PBT_EQ(long(Tracked::live()), 0L, "states left alive (or destroyed twice) by ", what);
    PBT_EQ(lost, 0L, "allocations left by ", what);
}

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    Auto b = s.flip() ? relative(a, s) : genAuto(s, c, N, sh);
    int kind = s.below(4), par = drawParam(s);
    What w;
    w.op = s.below(OPS);
    w.n = s.range(0, a.n + 2);
    w.arg = s.below(2);
    w.mp = s.chance(1, 3);
    if (w.op == 3 || w.op == 4) if (a.n > 14) w.op = 0; // the search does not cache
    omp_set_num_threads(s.range(1, 5));
    if (c.verbose) c.desc << NAMES[w.op] << " kind=" << kind << " n=" << w.n << " mp=" << w.mp << " " << a.str() << " other: " << b.str();
    c.tag(w.mp ? "mp" : "serial");
    audit(c, [&] {
        switch (kind) {
        case 0: use<N>(w, a, b, SpecClass<N>(a)); break;
        case 1: use<N>(w, a, b, SpecHybridClass<N>(a, par)); break;
        case 2: use<N>(w, a, b, SpecHooked<N>(a)); break;
        case 3: use<N>(w, a, b, SpecHandle<N>(a)); break;
        }
    }, NAMES[w.op]);
}

/** Merging rules. */
template<int N> static void merging(Src& s, Ctx& c, Shape sh) {
    CostAuto ca = genCost(s, c, N, sh);
    int tie = s.below(3);
    bool atTrue = s.flip();
    What w;
    w.op = s.below(3);
    w.mp = s.chance(1, 3);
    omp_set_num_threads(s.range(1, 5));
    if (c.verbose) c.desc << "merge op=" << w.op << " tie=" << tie << " atTrue=" << atTrue << " mp=" << w.mp << " costs " << ca.seed << "/" << ca.maxCost << " " << ca.a.str();
    typedef tdzdd::DdStructure<N> DD;
    SpecClassCost<N> spec(ca, tie, atTrue);
    Auto b = relative(ca.a, s);
    c.tag(w.mp ? "mp" : "serial");
    audit(c, [&] {
        switch (w.op) {
        case 0: { DD d(spec, w.mp); break; }
        case 1: { DD d(ca.a.n); d.useMultiProcessors(w.mp); d.zddSubset(spec); break; }
        case 2: { DD d((SpecInt<N>(b))); d.useMultiProcessors(w.mp); d.zddSubset(spec); break; }
        }
    }, "merging");
}

/** Combinations. */
static void combos(Src& s, Ctx& c) {
    Shape sh(6, 4, true, 12, 20);
    Auto a = genAuto(s, c, 2, sh), b = s.flip() ? relative(a, s) : genAuto(s, c, 2, sh), d = genAuto(s, c, 2, sh);
    int op = s.below(12), par = drawParam(s);
    bool mp = s.chance(1, 3);
    omp_set_num_threads(s.range(1, 5));
    if (c.verbose) c.desc << "combination " << op << " mp=" << mp << " A: " << a.str() << " B: " << b.str() << " C: " << d.str();
    SpecClass<2> x(a);
    SpecHybridClass<2> y(b, par);
    SpecHooked<2> z(d);
    typedef tdzdd::DdStructure<2> DD;
    using namespace tdzdd;
    audit(c, [&] {
        switch (op) {
        case 0: { DD q(bddAnd(x, y), mp); break; }
        case 1: { DD q(bddOr(x, y), mp); break; }
        case 2: { DD q(zddIntersection(x, y), mp); break; }
        case 3: { DD q(zddUnion(x, y), mp); break; }
        case 4: { DD q(bddAnd(x, y, z), mp); break; }
        case 5: { DD q(zddIntersection(z, x, y), mp); break; }
        case 6: { DD q(bddOr(z, x, y), mp); break; }
        case 7: { DD q(zddUnion(z, x, y), mp); break; }
        case 8: { DD q(a.n); q.useMultiProcessors(mp); q.zddSubset(zddUnion(x, z)); break; }
        case 9: { DD q(zddLookahead(zddIntersection(x, z)), mp); break; }
        case 10: { DD q(bddLookahead(bddAnd(bddUnreduction(x, a.n), z)), mp); break; }
        case 11: { auto u = zddUnion(x, z); try { if (a.n <= 8 && d.n <= 8) u.findOneInstance(); } catch (std::runtime_error&) {} countPaths(u, mp); break; }
        }
    }, "combination");
}

#if PART == 0
PROPERTY(life2, 4) { one<2>(s, c, Shape(6, 4, true, 14, 30)); }
PROPERTY(life2huge, -4000) { one<2>(s, c, Shape::huge(15000)); }
#elif PART == 1
PROPERTY(life3, 2) { one<3>(s, c, Shape(5, 3, true, 10, 20)); }
#elif PART == 2
PROPERTY(combine, 3) { combos(s, c); }
#elif PART == 3
PROPERTY(merge2, 2) { merging<2>(s, c, Shape(6, 4, true, 14, 30)); }
PROPERTY(merge3, 1) { merging<3>(s, c, Shape(5, 3, true, 10, 20)); }
#endif
