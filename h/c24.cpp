// C24: a specification object is driven by one thread at a time, level by level, and told when a level is finished.
#include "ompcompat.hpp"
#include <sched.h>
#include <atomic>
#include <mutex>
#include <tdzdd/dd/PathCounter.hpp>
#include "specs.hpp"
using namespace model;
using pbt::cat;

/** What the specification objects observed, over all copies. */
struct Watch {
    std::mutex m;
    std::string error;
    std::atomic<long> calls{0}, closedLevels{0}, objects{0}, onOriginal{0};
    std::vector<std::atomic<int> > closedAt = std::vector<std::atomic<int> >(4096); // how many objects were told, by level
    std::vector<std::atomic<int> > usedAt = std::vector<std::atomic<int> >(4096);   // calls of getChild, by level
    std::vector<std::atomic<int> > forgotten = std::vector<std::atomic<int> >(4096); // objects that worked on a level and were not told
    std::atomic<int> maxTold{0};  // most often a single object was told about a single level
    bool anyMerge = false;        // an operand of a union may be anywhere when the union accepts
    unsigned spin = 0;            // widens the windows in which two threads can collide
    void fail(std::string const& e) { std::lock_guard<std::mutex> l(m); if (error.empty()) error = e; }
};

/** Working storage of one specification object. */
struct Workshop {
    Watch* w;
    bool original;
    std::atomic<int> inside{0};
    std::vector<char> worked;                 // levels at which getChild was called
    std::vector<int> told;                    // how often this object was told that a level is finished
    explicit Workshop(Watch* w) : w(w), original(true), worked(4096), told(4096) { ++w->objects; }
    Workshop(Workshop const& o) : w(o.w), original(false), worked(4096), told(4096) { ++w->objects; }
    ~Workshop() { for (int i = 1; i < 4096; ++i) if (worked[i] && !told[i]) ++w->forgotten[i]; }
    Workshop& operator=(Workshop const&) = delete;
    struct Visit {
        Workshop& x;
        Visit(Workshop const& o, char const* what, int level) : x(const_cast<Workshop&>(o)) {
            if (x.inside++ != 0) x.w->fail(cat("two threads at once in one specification object (", what, ")"));
            ++x.w->calls;
            if (x.original) ++x.w->onOriginal;
            if (level > 0 && x.told[level]) x.w->fail(cat(what, " at level ", level, " after the object was told that the level is finished"));
            else if (level > 0 && x.w->closedAt[level]) x.w->fail(cat(what, " at level ", level, " after another copy was told that the level is finished"));
            if (x.w->spin && x.w->calls % x.w->spin == 0) sched_yield();
        }
        ~Visit() { --x.inside; }
    };
    void finished(int level) {
        if (level < 1 || level >= int(told.size())) { w->fail(cat("told that level ", level, " is finished")); return; }
        ++told[level]; ++w->closedAt[level]; ++w->closedLevels;
        int old = w->maxTold; while (old < told[level] && !w->maxTold.compare_exchange_weak(old, told[level])) {}
    }
};
typedef Workshop::Visit Visit;

/** State that knows its level (0: not on a level). */
struct LState { int level; int state; };

struct Common {
    Auto const* a;
    Workshop k;
    int buckets;
    Common(Auto const& x, Watch& w, int buckets) : a(&x), k(&w), buckets(buckets) {}
    int root(LState& s) { Visit v(k, "getRoot", 0); s.level = std::max(0, a->root.level); s.state = a->root.state; return a->root.level; }
    int child(LState& s, int level, int b, int arity) {
        Visit v(k, "getChild", level);
        if (b < 0 || b >= arity) k.w->fail(cat("getChild with value ", b));
        if (s.level != level) k.w->fail(cat("getChild at level ", level, " of a state made for level ", s.level));
        ++k.w->usedAt[level];
        k.worked[level] = 1;
        To const& u = a->go(level, s.state, b);
        s.state = u.state;
        s.level = std::max(0, u.level);
        return u.level;
    }
    size_t hash(LState const& s, int level) const {
        Visit v(k, "hashCode", level);
        if (s.level != level) k.w->fail(cat("hashCode at level ", level, " of a state made for level ", s.level));
        return s.state % buckets;
    }
    bool equal(LState const& s, LState const& t, int level) const {
        Visit v(k, "equalTo", level);
        if (s.level != level || t.level != level) k.w->fail(cat("equalTo at level ", level, " of states made for levels ", s.level, " and ", t.level));
        return s.state == t.state;
    }
    int merge(LState& s, LState& t) {
        Visit v(k, "mergeStates", k.w->anyMerge ? 0 : s.level);
        if (!k.w->anyMerge && (s.level != t.level || (s.level > 0 && s.state != t.state))) k.w->fail("mergeStates of states that are not equal");
        return 0;
    }
};
template<int N> struct SpecWatched: public tdzdd::DdSpec<SpecWatched<N>, LState, N>, Common {
    SpecWatched(Auto const& x, Watch& w, int buckets) : Common(x, w, buckets) {}
    int getRoot(LState& s) { return root(s); }
    int getChild(LState& s, int level, int b) { return child(s, level, b, N); }
    void getCopy(void* p, LState const& s) { Visit v(k, "getCopy", k.w->anyMerge ? 0 : s.level); new (p) LState(s); }
    int mergeStates(LState& s, LState& t) { return merge(s, t); }
    size_t hashCodeAtLevel(LState const& s, int level) const { return hash(s, level); }
    bool equalToAtLevel(LState const& s, LState const& t, int level) const { return equal(s, t, level); }
    void destruct(void* p) { Visit v(k, "destruct", 0); }
    void destructLevel(int level) { Visit v(k, "destructLevel", 0); k.finished(level); }
    void printState(std::ostream& os, LState const& s) const { os << s.state; }
};
template<int N> struct SpecWatchedArray: public tdzdd::HybridDdSpec<SpecWatchedArray<N>, LState, short, N>, Common {
    SpecWatchedArray(Auto const& x, Watch& w, int buckets, int len) : Common(x, w, buckets), len(len) { this->setArraySize(len); }
    int len;
    int getRoot(LState& s, short* p) { for (int i = 0; i < len; ++i) p[i] = i; return root(s); }
    int getChild(LState& s, short* p, int level, int b) { return child(s, level, b, N); }
    int mergeStates(LState& s, short*, LState& t, short*) { return merge(s, t); }
    size_t hashCodeAtLevel(LState const& s, int level) const { return hash(s, level); }
    bool equalToAtLevel(LState const& s, LState const& t, int level) const { return equal(s, t, level); }
    void destructLevel(int level) { Visit v(k, "destructLevel", 0); k.finished(level); }
    void printState(std::ostream& os, LState const& s, short const*) const { os << s.state; }
};

static int const OPS = 14;
static char const* const NAMES[] = {"build", "subset", "universalSubset", "dump", "count", "countFast", "count64", "findOne", "bddLookahead", "zddLookahead", "bddUnreduction", "zddUnreduction", "combine", "combineSubset"};

/** Returns the top level of the diagram that was made (0: none). */
template<int N, typename Spec> static int use(int op, bool mp, Auto const& b, Spec& spec, int extra) {
    typedef tdzdd::DdStructure<N> DD;
    Auto const& a = *spec.a;
    switch (op) {
    case 0: { DD d(spec, mp); return d.topLevel(); }
    case 1: { DD d((SpecInt<N>(b))); if (extra & 1) d.zddReduce(); d.useMultiProcessors(mp); d.zddSubset(spec); return d.topLevel(); }
    case 2: { DD d(a.n + extra); d.useMultiProcessors(mp); d.zddSubset(spec); return d.topLevel(); }
    case 3: { std::ostringstream os; spec.dumpDot(os, "t"); break; }
    case 4: tdzdd::countPaths(spec, false); break;
    case 5: tdzdd::countPaths(spec, true); break;
    case 6: tdzdd::countPaths64(spec); break;
    case 7: try { spec.findOneInstance(); } catch (std::runtime_error&) {} break;
    case 8: { DD d(tdzdd::bddLookahead(spec), mp); return d.topLevel(); }
    case 9: { DD d(tdzdd::zddLookahead(spec), mp); return d.topLevel(); }
    case 10: { DD d(tdzdd::bddUnreduction(spec, a.n + extra), mp); return d.topLevel(); }
    case 11: { DD d(tdzdd::zddUnreduction(spec, a.n + extra), mp); return d.topLevel(); }
    }
    return 0;
}
template<typename Spec, typename Spec2> static int combine(int op, bool mp, Spec const& x, Spec2 const& y, int which) {
    typedef tdzdd::DdStructure<2> DD;
    using namespace tdzdd;
    if (op == 12) switch (which) {
    case 0: { DD d(bddAnd(x, y), mp); return d.topLevel(); }
    case 1: { DD d(bddOr(x, y), mp); return d.topLevel(); }
    case 2: { DD d(zddIntersection(x, y), mp); return d.topLevel(); }
    case 3: { DD d(zddUnion(x, y), mp); return d.topLevel(); }
    }
    else { DD d(std::max(x.a->n, y.a->n)); d.useMultiProcessors(mp); if (which & 1) d.zddSubset(zddUnion(x, y)); else d.zddSubset(zddIntersection(x, y)); return d.topLevel(); }
    return 0;
}
static void verdict(Watch& w, char const* what, bool own) {
    PBT_CHECK(w.error.empty(), what, ": ", w.error);
    if (!own) PBT_EQ(long(w.onOriginal), 0L, what, ": calls on the caller's own object");
}

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh), b = s.flip() ? relative(a, s) : genAuto(s, c, N, sh);
    int op = s.below(N == 2 ? OPS : 12), buckets = s.pick<int>({1, 3, 1000}), extra = s.range(0, 2);
    bool mp = s.chance(1, 2), hybrid = s.chance(1, 3);
    int len = s.range(0, 5), which = s.below(4), threads = s.range(1, 6);
    if ((op == 3 || op == 7) && a.n > 14) op = 0;
    Watch w, w2;
    w.spin = w2.spin = mp ? s.pick<int>({0, 3, 17}) : 0;
    w.anyMerge = w2.anyMerge = op >= 12 && (which & 1);
    omp_set_num_threads(threads);
    if (c.verbose) c.desc << NAMES[op] << " mp=" << mp << " threads=" << threads << " hybrid=" << hybrid << " extra=" << extra << " which=" << which << " " << a.str() << " other: " << b.str();
    SpecWatched<N> x(a, w, buckets);
    SpecWatchedArray<N> y(a, w, buckets, len);
    int top = 0;
    if (op >= 12) {
        if constexpr (N == 2) {
            SpecWatchedArray<N> z(b, w2, buckets, len);
            top = combine(op, mp, x, z, which);
        }
    }
    else if (hybrid) top = use<N>(op, mp, b, y, extra);
    else top = use<N>(op, mp, b, x, extra);
    verdict(w, NAMES[op], op >= 4 && op <= 6); // path counting takes the caller's object
    verdict(w2, NAMES[op], false);
    // levels that were worked on are finished: exactly once by a single object
    bool single = op == 3 || (op >= 4 && op <= 7) || (op == 0 && !mp);
    for (int i = 1; i < 4096; ++i) {
        if (single) PBT_EQ(int(w.closedAt[i]), i <= a.root.level ? 1 : 0, NAMES[op], ": how often the specification is told that level ", i, " of ", a.root.level, " is finished");
        if (i <= top) PBT_CHECK(w.forgotten[i] == 0 && w2.forgotten[i] == 0, NAMES[op], ": a specification object worked on level ", i, " of ", top, " and was not told that the level is finished");
    }
    PBT_CHECK(w.maxTold <= 1 && w2.maxTold <= 1, NAMES[op], ": one object is told twice that a level is finished");
    if (w.calls >= 20) c.nontrivial();
    c.tag(NAMES[op]);
    c.tag(mp ? "mp" : "serial");
}
#if PART == 0
PROPERTY(protocol2huge, -3000) { one<2>(s, c, Shape::huge(5000)); }
PROPERTY(protocol2, 3) { one<2>(s, c, Shape(6, 4, true, 20, 60)); }
#else
PROPERTY(protocol3, 2) { one<3>(s, c, Shape(5, 3, true, 12, 40)); }
#endif
