// C09: iterating a ZDD yields every combination exactly once.
#include "ompcompat.hpp"
#include "specs.hpp"
using namespace model;

static void allSets(Canon const& m, int f, std::set<int>& cur, std::set<std::set<int> >& out) {
    if (f == 0) return;
    if (f == 1) { out.insert(cur); return; }
    allSets(m, m.kid(f, 0), cur, out);
    cur.insert(m.level(f));
    allSets(m, m.kid(f, 1), cur, out);
    cur.erase(m.level(f));
}
static std::string show(std::set<int> const& x) {
    std::ostringstream os;
    os << "{";
    for (int v : x) os << " " << v;
    os << " }";
    return os.str();
}

typedef tdzdd::DdStructure<2> DD;

static void check(Src& s, Ctx& c, Canon& m, DD const& dd, int f) {
    std::set<std::set<int> > want;
    std::set<int> cur;
    allSets(m, f, cur, want);
    c.nontrivial(want.size() >= 3);
    c.tag("empty-family", want.empty());
    c.tag("has-empty-set", want.count(std::set<int>()));
    c.tag("over-100", want.size() > 100);
    std::set<std::set<int> > got;
    std::vector<std::set<int> > seq;
    size_t steps = 0;
    for (DD::const_iterator t = dd.begin(); t != dd.end(); ++t) {
        PBT_CHECK(++steps <= want.size(), "more steps than combinations (", want.size(), "), extra ", show(*t));
        PBT_CHECK(want.count(*t), "not a combination: ", show(*t));
        PBT_CHECK(got.insert(*t).second, "combination twice: ", show(*t));
        PBT_EQ(t->size(), (*t).size(), "->");
        seq.push_back(*t);
    }
    PBT_EQ(steps, want.size(), "number of steps");
    PBT_EQ(dd.zddCardinality(), std::to_string(want.size()), "cardinality");
    // range-for
    size_t k = 0;
    for (auto const& x : dd) { PBT_CHECK(k < seq.size() && x == seq[k], "range-for"); ++k; }
    PBT_EQ(k, seq.size(), "range-for");
    PBT_CHECK((dd.begin() == dd.end()) == want.empty(), "begin()==end()");
    // independent copies and positions
    if (seq.size() <= 400) {
        std::vector<DD::const_iterator> its;
        std::vector<size_t> pos;
        its.push_back(dd.begin());
        pos.push_back(0);
        int ops = s.range(1, 25);
        for (int i = 0; i < ops; ++i) {
            size_t x = s.below(its.size());
            if (its.size() < 5 && s.chance(1, 3)) { its.push_back(DD::const_iterator(its[x])); pos.push_back(pos[x]); }
            else if (pos[x] < seq.size()) {
                size_t adv = std::min<size_t>(seq.size() - pos[x], s.skew(0, seq.size()));
                for (size_t j = 0; j < adv; ++j) { ++its[x]; ++pos[x]; }
            }
            for (size_t y = 0; y < its.size(); ++y) {
                if (pos[y] < seq.size()) {
                    PBT_CHECK(*its[y] == seq[pos[y]], "iterator ", y, " disturbed: at ", show(*its[y]), " expected ", show(seq[pos[y]]));
                    PBT_CHECK(its[y] != dd.end(), "not at the end");
                }
                else PBT_CHECK(its[y] == dd.end(), "at the end");
                for (size_t z = 0; z < its.size(); ++z)
                    PBT_EQ((its[y] == its[z]), (pos[y] == pos[z]), "iterator equality at positions ", pos[y], ",", pos[z]);
            }
        }
    }
}

static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, 2, sh);
    omp_set_num_threads(s.range(1, 4));
    Canon m(2);
    int q = a.canon(m, Q);
    DD dd(SpecInt<2>(a), s.chance(1, 4));
    int pre = s.below(5);
    if (c.verbose) c.desc << "pre=" << pre << " " << a.str();
    if (pre == 1) dd.zddReduce();
    if (pre == 2) dd.qddReduce();
    if (pre == 3) {
        Auto b = relative(a, s);
        if (c.verbose) c.desc << " filter " << b.str();
        dd.zddSubset(SpecInt<2>(b));
        q = m.apply(Z, 0, m.norm(Z, q), b.canon(m, Z));
        if (s.flip()) dd.zddReduce();
    }
    // the same set can arise on two paths of a diagram that is not a ZDD in normal form only if levels are
    // skipped inconsistently, which ZDD semantics forbids: distinct paths are distinct combinations
    int z = m.norm(Z, q);
    if (m.paths(z) > 3000) { c.tag("too-many"); return; }
    check(s, c, m, dd, z);
}

/** A diagram with dead branches, written directly as a table through a specification that never prunes. */
static void handmade(Src& s, Ctx& c, bool tall = false) {
    int n = tall ? s.range(100, 1500) : s.range(0, 8);
    std::set<std::set<int> > fam;
    int k = s.range(0, 12);
    for (int i = 0; i < k; ++i) {
        std::set<int> x;
        if (tall) { for (int j = s.range(0, 30); j > 0; --j) x.insert(s.range(1, n)); }
        else for (int v = 1; v <= n; ++v) if (s.flip()) x.insert(v);
        fam.insert(x);
    }
    // trie automaton over prefixes
    Auto a;
    a.N = 2; a.n = n; a.t.resize(n + 1);
    bool skipping = s.flip();
    std::vector<std::map<std::set<std::set<int> >, int> > ids(n + 1);
    struct Mk {
        Auto& a; std::vector<std::map<std::set<std::set<int> >, int> >& ids; bool skipping;
        To go(int l, std::set<std::set<int> > const& f) {
            To r = {0, 0};
            if (f.empty()) return r;
            if (l == 0) { r.level = -1; return r; }
            std::set<std::set<int> > f0, f1;
            for (auto const& x : f) { if (x.count(l)) { std::set<int> y = x; y.erase(l); f1.insert(y); } else f0.insert(x); }
            if (skipping && f1.empty()) return go(l - 1, f0);
            auto it = ids[l].find(f);
            if (it != ids[l].end()) { r.level = l; r.state = it->second; return r; }
            int id = a.t[l].size();
            ids[l][f] = id;
            a.t[l].push_back(std::vector<To>(2));
            To x = go(l - 1, f0), y = go(l - 1, f1);
            a.t[l][id][0] = x;
            a.t[l][id][1] = y;
            r.level = l; r.state = id;
            return r;
        }
    } mk = {a, ids, skipping};
    a.root = mk.go(n, fam);
    if (c.verbose) { c.desc << "family of " << fam.size() << ":"; for (auto const& x : fam) c.desc << " " << show(x); }
    DD dd((SpecInt<2>(a)));
    std::set<std::set<int> > got;
    for (auto const& x : dd) got.insert(x);
    PBT_CHECK(got == fam, "iteration does not give the family it was built from");
    Canon m(2);
    check(s, c, m, dd, a.canon(m, Z));
}

PROPERTY(automaton, 4) { one(s, c, Shape(7, 4, true, 14, 12)); }
PROPERTY(tallFamily, -3000) { handmade(s, c, true); }
PROPERTY(family, 2) { handmade(s, c); }
