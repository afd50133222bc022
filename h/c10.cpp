// C10: user evaluators see a correct bottom-up computation.
#include "ompcompat.hpp"
#include <tdzdd/DdEval.hpp>
#include "specs.hpp"
using namespace model;

inline std::atomic<int> gCalls, gInit, gInitLevel, gTerm, gGet, gConcurrent, gBadLevel, gDestructed;
inline std::atomic<int> gInside;
static int const MAXLEV = 4096;
inline std::atomic<int> gLive[MAXLEV], gTold[MAXLEV], gSeen[MAXLEV]; // per level: values alive, clean-up calls, nodes evaluated
inline std::atomic<int> gMismatch;

static uint64_t combine(uint64_t h, uint64_t x) { return pbt::mix(h * 1099511628211ull ^ x); }
static uint64_t termValue(int id) { return id == 0 ? 0x1234 : id == 1 ? 0x777777 : 0xbad; }

/** Reference by direct recursion through the public structure. */
template<int N> static uint64_t reference(tdzdd::DdStructure<N> const& dd, tdzdd::NodeId f, std::map<std::pair<int, uint64_t>, uint64_t>& memo) {
    if (f.row() == 0) return termValue(f.col());
    std::pair<int, uint64_t> k(f.row(), f.col());
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    uint64_t h = combine(99, f.row());
    for (int b = 0; b < N; ++b) {
        tdzdd::NodeId g = dd.child(f, b);
        h = combine(h, reference<N>(dd, g, memo));
        h = combine(h, g.row());
    }
    return memo[k] = h;
}

/** Plain value type. */
template<int N> struct HashEval: public tdzdd::DdEval<HashEval<N>, uint64_t> {
    void evalTerminal(uint64_t& v, int id) const { v = termValue(id); }
    void evalNode(uint64_t& v, int level, tdzdd::DdValues<uint64_t, N> const& x) const {
        uint64_t h = combine(99, level);
        for (int b = 0; b < N; ++b) { h = combine(h, x.get(b)); h = combine(h, x.getLevel(b)); }
        v = h;
    }
};

struct Val { // class value: audited life cycle + level it belongs to
    Tracked t;
    uint64_t h;
    int level;
    Val() : t(0), h(5), level(-5) {}
    Val(Val const& o) : t(o.t), h(o.h), level(o.level) { if (level >= 0) ++gLive[level]; }
    Val& operator=(Val const& o) { t = o.t; h = o.h; at(o.level); return *this; }
    ~Val() { at(-5); }
    void at(int l) { if (level >= 0) --gLive[level]; level = l; if (level >= 0) ++gLive[level]; }
};

/** Class value, distinct result type, all hooks. */
template<int N> struct HookEval: public tdzdd::DdEval<HookEval<N>, Val, std::string> {
    bool threadSafe, talk;
    int init;
    std::set<int> gone;
    int self;
    HookEval(bool threadSafe, bool talk) : threadSafe(threadSafe), talk(talk), init(-1), self(7) {}
    bool isThreadSafe() const { return threadSafe; }
    bool showMessages() const { return talk; }
    void initialize(int level) {
        ++gInit;
        if (init != -1) ++gBadLevel; // once per copy
        init = level;
        int e = -1;
        gInitLevel.compare_exchange_strong(e, level);
        if (gInitLevel != level) ++gBadLevel;
    }
    void evalTerminal(Val& v, int id) {
        if (init < 0) ++gBadLevel;
        ++gTerm;
        if (v.t.get() != 0) ++gBadLevel; // default constructed
        v.h = termValue(id);
        v.at(0);
        v.t = Tracked(id + 1);
        if (gone.count(0)) ++gBadLevel;
    }
    void evalNode(Val& v, int level, tdzdd::DdValues<Val, N> const& x) {
        if (++gInside > 1 && !threadSafe) ++gConcurrent;
        if (init < 0) ++gBadLevel;
        ++gCalls;
        if (v.t.get() != 0) ++gBadLevel;
        uint64_t h = combine(99, level);
        for (int b = 0; b < N; ++b) {
            if (x.get(b).t.get() == 0) ++gBadLevel; // not evaluated yet or released
            if (x.get(b).level != x.getLevel(b)) ++gBadLevel;
            if (gone.count(x.getLevel(b))) ++gBadLevel; // level was destructed before its last use
            h = combine(h, x.get(b).h);
            h = combine(h, x.getLevel(b));
        }
        v.h = h;
        v.at(level);
        ++gSeen[level];
        v.t = Tracked(1000 + level);
        --gInside;
    }
    std::string getValue(Val const& v) {
        ++gGet;
        if (v.t.get() == 0 || gone.count(v.level)) ++gBadLevel;
        // every evaluator in use is told about exactly the levels whose values are gone
        for (int l = 1; l < MAXLEV; ++l) if (gSeen[l] > 0) {
            bool released = gLive[l] == 0;
            if (gTold[l] != (released ? int(gInit) : 0)) ++gMismatch;
        }
        return pbt::cat("r", v.h);
    }
    void destructLevel(int i) {
        if (!gone.insert(i).second) ++gBadLevel; // at most once per copy
        ++gDestructed;
        if (0 <= i && i < MAXLEV) ++gTold[i]; else ++gBadLevel;
    }
};

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    omp_set_num_threads(s.range(1, 7));
    Messages messages(s.chance(1, 12));
    int kind = drawKind(s, a), par = drawParam(s);
    bool mp = s.chance(1, 3), safe = s.flip();
    int pre = s.below(5);
    if (c.verbose) c.desc << "pre=" << pre << " mp=" << mp << " safe=" << safe << " " << a.str();
    Canon m(N);
    tdzdd::DdStructure<N> dd(SpecInt<N>(a), s.chance(1, 4));
    if (pre == 1) dd.zddReduce();
    if (pre == 2) dd.bddReduce();
    if (pre == 3) dd.qddReduce();
    if (pre == 4) dd.zddSubset(SpecInt<N>(relative(a, s)));
    if (s.chance(1, 5)) { // evaluation starts at the root, wherever it was moved to
        int steps = s.below(4);
        tdzdd::NodeId f = dd.root();
        while (steps-- > 0 && f.row() > 0) f = dd.child(f, s.below(N));
        dd.root() = f;
        c.tag("moved-root");
    }
    int before = canonDd<N>(m, dd, S);
    c.nontrivial(m.size(before) >= 3);
    c.tag(mp ? "mp" : "serial");
    dd.useMultiProcessors(mp);
    tdzdd::DdStructure<N> copy(dd);
    std::map<std::pair<int, uint64_t>, uint64_t> memo;
    uint64_t want = reference<N>(dd, dd.root(), memo);

    PBT_EQ(dd.evaluate(HashEval<N>()), want, "hash evaluator");

    Tracked::reset();
    gCalls = 0; gInit = 0; gInitLevel = -1; gTerm = 0; gGet = 0; gConcurrent = 0; gBadLevel = 0; gDestructed = 0; gInside = 0; gMismatch = 0;
    for (int i = 0; i < MAXLEV; ++i) gLive[i] = gTold[i] = gSeen[i] = 0;
    {
        HookEval<N> ev(safe, s.flip());
        PBT_EQ(dd.evaluate(ev), pbt::cat("r", want), "evaluator with hooks");
        PBT_CHECK(ev.init == -1 && ev.gone.empty() && ev.self == 7, "the caller's evaluator was modified");
    }
    PBT_EQ(int(gBadLevel), 0, "inconsistent calls (uninitialised or released values, wrong child level, repeated hook)");
    PBT_EQ(int(gMismatch), 0, "level clean-up hook does not match the released levels");
    PBT_EQ(int(gConcurrent), 0, "evaluator that is not thread-safe was run concurrently");
    PBT_EQ(int(gInitLevel), std::max(0, dd.topLevel()), "initialize() level");
    PBT_CHECK(gInit >= 1, "initialize() not called");
    PBT_EQ(int(gGet), 1, "getValue() calls");
    PBT_CHECK(size_t(gCalls) >= memo.size() && size_t(gCalls) <= dd.size(), "evalNode called ", int(gCalls), " times for ", memo.size(), " nodes");
    PBT_CHECK(gTerm >= 2, "terminals");
    checkTracked("evaluation");
    PBT_EQ(long(Tracked::live()), 0L, "values left alive after evaluation");
    PBT_EQ(canonDd<N>(m, dd, S), before, "evaluation changed the diagram");
    PBT_CHECK(copy == dd, "evaluation changed the diagram");
    // again, on a diagram that shares its table
    PBT_EQ(copy.evaluate(HashEval<N>()), want, "second evaluation");
}

#if PART == 0
PROPERTY(eval2, 4) { one<2>(s, c, Shape(6, 4, true, 20, 60)); }
PROPERTY(eval2wide, 1) { one<2>(s, c, Shape(6, 4, true, 10, 500)); }
PROPERTY(eval2huge, -3000) { one<2>(s, c, Shape::huge(30000)); }
#elif PART == 1
PROPERTY(eval3, 2) { one<3>(s, c, Shape(5, 4, true, 14, 30)); }
#elif PART == 2
PROPERTY(eval6, 1) { one<6>(s, c, Shape(4, 3, true, 8, 12)); }
#endif
