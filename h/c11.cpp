// C11: diagrams are independent values under any history of copies and updates.
#include <list>
#include <memory>
#include "ompcompat.hpp"
#include <tdzdd/eval/Cardinality.hpp>
#include "leak.hpp"
#include "specs.hpp"
using namespace model;

struct Op { int code, i, j, k, arg; bool mp; int a; };
struct Plan { int N, slots, threads; std::vector<Op> ops; std::vector<Auto> autos; std::vector<int> init; };

static char const* const NAMES[] = {"build", "assign", "copy", "swap", "vector", "byValue", "reduce", "subsetSpec", "subset", "convert",
    "combine", "read", "drop", "storeSpec", "buildStored", "useMP", "rebuild", "universal", "compare", "chain", "descend"};
static int const CODES = 21;

template<int N> struct Machine {
    typedef tdzdd::DdStructure<N> DD;
    Plan const& p;
    Canon m;
    std::vector<DD> v;
    std::vector<int> w; // exact structure of each slot
    std::unique_ptr<tdzdd::ZddUnreduction<DD> > stored; // a specification made of a diagram
    int storedZ;
    size_t muts;

    explicit Machine(Plan const& p) : p(p), m(N), v(p.slots), w(p.slots, 0), storedZ(0), muts(0) {}

    int S_(DD const& d) { return canonDd<N>(m, d, S); }
    void after(int slot, char const* what, size_t step) { w[slot] = S_(v[slot]); check(what, step); }
    void check(char const* what, size_t step) {
        for (int i = 0; i < p.slots; ++i) {
            int x = S_(v[i]);
            PBT_CHECK(x == w[i], "step ", step, " (", what, "): variable ", i, " is ", m.str(x), " instead of ", m.str(w[i]));
        }
    }
    static DD byValue(DD d, Rule r) { if (r == Z) d.zddReduce(); else if (r == B) d.bddReduce(); else d.qddReduce(); return d; }

    void run() {
        for (int i = 0; i < p.slots; ++i) if (p.init[i] >= 0) {
            v[i] = DD(SpecInt<N>(p.autos[p.init[i]]));
            w[i] = S_(v[i]);
        }
        for (size_t step = 0; step < p.ops.size(); ++step) {
            Op const& o = p.ops[step];
            int i = o.i % p.slots, j = o.j % p.slots, k = o.k % p.slots;
            Auto const& a = p.autos[o.a % p.autos.size()];
            char const* what = NAMES[o.code];
            Rule r = o.arg % 3 == 0 ? Z : o.arg % 3 == 1 ? B : Q;
            switch (o.code) {
            case 0: {
                if (o.arg % 2) v[i] = DD(SpecInt<N>(a), o.mp); else v[i] = DD(SpecClass<N>(a), o.mp);
                PBT_EQ(m.norm(Q, S_(v[i])), a.canon(m, Q), "step ", step, " build");
                break;
            }
            case 1: v[i] = v[j]; w[i] = w[j]; break; // i == j: self-assignment
            case 2: {
                DD x(v[j]);
                DD y = x;
                if (o.arg % 2) y.zddReduce();
                if (o.arg % 3 == 0) x.zddSubset(SpecInt<N>(a));
                check("copies destroyed", step);
                v[i] = o.arg % 5 ? x : y;
                muts += 2;
                if (!(o.arg % 5) && (o.arg % 2)) PBT_EQ(m.norm(Z, S_(v[i])), m.norm(Z, w[j]), "step ", step, " reduced copy");
                break;
            }
            case 3: std::swap(v[i], v[j]); std::swap(w[i], w[j]); break;
            case 4: {
                std::vector<DD> t;
                std::vector<int> tw;
                for (int q = 0; q < 3 + o.arg % 7; ++q) { t.push_back(v[(i + q) % p.slots]); tw.push_back(w[(i + q) % p.slots]); }
                t.erase(t.begin() + o.arg % t.size());
                tw.erase(tw.begin() + o.arg % tw.size());
                t.insert(t.begin(), v[j]);
                tw.insert(tw.begin(), w[j]);
                std::list<DD> l(t.begin(), t.end());
                t[0].zddReduce();
                l.front().bddReduce();
                l.pop_back();
                t.resize(t.size() + 2, v[k]);
                for (size_t q = 1; q < tw.size(); ++q) PBT_EQ(S_(t[q]), tw[q], "step ", step, " vector element ", q);
                check("containers", step);
                v[i] = t[t.size() - 1 - o.arg % 3];
                muts += 2;
                break;
            }
            case 5: {
                DD x = byValue(v[j], r);
                PBT_EQ(m.norm(Q, S_(x)), m.norm(r, m.norm(Q, w[j])), "step ", step, " reduced copy");
                v[i] = x;
                break;
            }
            case 6: {
                int want = m.norm(r, m.norm(Q, w[i]));
                v[i].useMultiProcessors(o.mp);
                if (r == Z) v[i].zddReduce(); else if (r == B) v[i].bddReduce(); else v[i].qddReduce();
                PBT_EQ(m.norm(Q, S_(v[i])), want, "step ", step, " reduce");
                if (m.size(w[i]) >= 2) ++muts;
                break;
            }
            case 7: {
                int want = m.apply(Z, 0, m.norm(Z, w[i]), a.canon(m, Z));
                v[i].useMultiProcessors(o.mp);
                if (o.arg % 3) v[i].zddSubset(SpecInt<N>(a)); else v[i].zddSubset(SpecClass<N>(a));
                PBT_EQ(m.norm(Z, S_(v[i])), want, "step ", step, " filter");
                if (m.size(w[i]) >= 2) ++muts;
                break;
            }
            case 8: { // by another (or the same) variable
                int want = m.apply(Z, 0, m.norm(Z, w[i]), m.norm(Z, w[j]));
                v[i].useMultiProcessors(o.mp);
                v[i].zddSubset(v[j]);
                PBT_EQ(m.norm(Z, S_(v[i])), want, "step ", step, " filter by variable");
                if (m.size(w[i]) >= 2) ++muts;
                break;
            }
            case 9: {
                int n = std::max(0, v[j].topLevel()) + o.arg % 3;
                if (n > 14 || m.size(w[j]) > 200) break;
                bool toZ = o.arg % 2;
                int want = toZ ? m.b2z(m.norm(B, w[j]), n) : m.z2b(m.norm(Z, w[j]), n);
                v[i] = toZ ? v[j].bdd2zdd(n) : v[j].zdd2bdd(n);
                PBT_EQ(m.norm(toZ ? Z : B, S_(v[i])), want, "step ", step, " convert");
                break;
            }
            case 10: if constexpr (N == 2) {
                int x = m.norm(o.arg % 2 ? Z : B, w[j]), y = m.norm(o.arg % 2 ? Z : B, w[k]);
                if (m.size(x) * m.size(y) > 4000) break;
                switch (o.arg % 4) {
                case 0: v[i] = DD(tdzdd::bddAnd(v[j], v[k]), o.mp); PBT_EQ(m.norm(B, S_(v[i])), m.apply(B, 0, x, y), "step ", step); break;
                case 1: v[i] = DD(tdzdd::zddUnion(v[j], v[k]), o.mp); PBT_EQ(m.norm(Z, S_(v[i])), m.apply(Z, 1, x, y), "step ", step); break;
                case 2: v[i] = DD(tdzdd::bddOr(v[j], v[k]), o.mp); PBT_EQ(m.norm(B, S_(v[i])), m.apply(B, 1, x, y), "step ", step); break;
                case 3: v[i] = DD(tdzdd::zddIntersection(v[j], v[k]), o.mp); PBT_EQ(m.norm(Z, S_(v[i])), m.apply(Z, 0, x, y), "step ", step); break;
                }
                break;
            } else break;
            case 11: {
                int z = m.norm(Q, w[i]);
                PBT_EQ(v[i].zddCardinality(), m.paths(z).str(), "step ", step, " count");
                int n = std::max(0, v[i].topLevel());
                PBT_EQ(v[i].bddCardinality(n + 1), m.minterms(w[i], n + 1).str(), "step ", step, " BDD count");
                if constexpr (N == 2) {
                    if (m.paths(z) <= 60) {
                        size_t c = 0;
                        for (auto const& x : v[i]) { (void) x; ++c; PBT_CHECK(c <= 60, "iteration"); }
                        PBT_EQ(Big(c), m.paths(z), "step ", step, " iterate");
                    }
                    std::ostringstream os;
                    if (m.size(w[i]) > 0) v[i].dumpSapporo(os);
                }
                std::ostringstream os;
                v[i].dumpDot(os, "x");
                break;
            }
            case 12: v[i] = DD(); break;
            case 13: stored.reset(new tdzdd::ZddUnreduction<DD>(v[i], std::max(0, v[i].topLevel()))); storedZ = m.norm(Z, w[i]); break;
            case 14: if (stored) {
                v[i] = DD(*stored, o.mp);
                PBT_EQ(m.norm(Z, S_(v[i])), storedZ, "step ", step, " specification kept a diagram");
                break;
            } else break;
            case 15: v[i].useMultiProcessors(o.mp); break;
            case 16: {
                int want = m.norm(Q, w[j]);
                v[i] = DD(static_cast<tdzdd::DdSpecBase<DD, N> const&>(v[j]), o.mp);
                PBT_EQ(m.norm(Q, S_(v[i])), want, "step ", step, " rebuild");
                break;
            }
            case 17: {
                int n = o.arg % 6;
                v[i] = DD(n, o.mp);
                PBT_EQ(m.norm(B, S_(v[i])), 1, "step ", step, " universal");
                PBT_EQ(v[i].topLevel(), n, "step ", step, " universal");
                break;
            }
            case 18: PBT_EQ((v[i] == v[j]), (w[i] == w[j]), "step ", step, " compare"); break;
            case 20: { // move the root of one variable; copies sharing the nodes keep theirs
                tdzdd::NodeId f = v[i].root();
                int x = w[i];
                for (int q = o.arg % 4, b = o.arg; q > 0 && f.row() > 0; --q, b /= 2) { f = v[i].child(f, b % N); x = m.kid(x, b % N); }
                v[i].root() = f;
                PBT_EQ(S_(v[i]), x, "step ", step, " descend");
                break;
            }
            case 19: (v[i] = v[j]) = v[k]; w[i] = k == i ? w[j] : w[k]; break;
            }
            // only the written variable may differ
            switch (o.code) {
            case 1: case 3: case 11: case 13: case 15: case 18: case 19: check(what, step); break;
            default: after(i, what, step);
            }
        }
    }
};

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Plan p;
    p.N = N;
    p.slots = s.range(1, 5);
    p.threads = s.range(1, 4);
    int na = s.range(1, 3);
    for (int i = 0; i < na; ++i) p.autos.push_back(i && s.flip() ? relative(p.autos[0], s) : genAuto(s, c, N, sh));
    for (int i = 0; i < p.slots; ++i) p.init.push_back(s.range(-1, na - 1));
    int k = s.flip() ? s.skew(1, 30) : s.skew(1, 70);
    for (int i = 0; i < k; ++i) {
        Op o;
        o.code = s.below(CODES);
        o.i = s.below(p.slots);
        o.j = s.below(p.slots);
        o.k = s.below(p.slots);
        o.arg = s.below(30);
        o.mp = s.chance(1, 4);
        o.a = s.below(na);
        p.ops.push_back(o);
    }
    if (c.verbose) {
        c.desc << p.slots << " variables;";
        for (auto const& o : p.ops) c.desc << " " << NAMES[o.code] << "(" << o.i << "," << o.j << "," << o.k << " arg" << o.arg << (o.mp ? " MP" : "") << ")";
        c.desc << "; automata:";
        for (auto const& a : p.autos) c.desc << " [" << a.str() << "]";
    }
    for (auto const& o : p.ops) c.tag(NAMES[o.code]);
    omp_set_num_threads(p.threads);
    Messages messages(s.chance(1, 10));
    size_t shared = 0;
    Tracked::reset();
    long lost = leaked([&] {
        Machine<N> x(p);
        x.run();
        shared = x.muts;
    });
    c.nontrivial(k >= 4 && shared >= 1);
    PBT_EQ(lost, 0L, "allocations left after all diagrams were destroyed");
    checkTracked("history");
    PBT_EQ(long(Tracked::live()), 0L, "states left alive");
}

#if PART == 0
PROPERTY(history2, 4) { one<2>(s, c, Shape(5, 3, true, 10, 12)); }
#elif PART == 1
PROPERTY(history3, 1) { one<3>(s, c, Shape(4, 3, true, 8, 8)); }
#endif
