// C26: the CNF compilers yield exactly the satisfying assignments.
#ifndef PART
#define PART 0
#endif
#include "ompcompat.hpp"
#include "dot.hpp"
#include "specs.hpp"
#include "apps.hpp"
#if PART == 1
#include <algorithm>
#include <cnfbdd/CnfToBdd.cpp>
#include <cnf2ztdd2bdd/CnfToZtdd.cpp>
#include <cnf2ztdd2bdd/ZtddToCudd.hpp>
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdSpecOp.hpp>
#endif
using namespace model;

namespace {

/** A formula; clauses as written, also with repeated or opposite literals. */
struct Cnf {
    int nv;
    std::vector<std::vector<int> > c;
    std::string text;
    bool sat(unsigned x) const { // bit v-1: variable v is true
        for (auto const& k : c) {
            bool ok = false;
            for (int l : k) if (bool(x >> (std::abs(l) - 1) & 1) == (l > 0)) ok = true;
            if (!ok) return false;
        }
        return true;
    }
    long count() const { long n = 0; for (unsigned x = 0; x < 1u << nv; ++x) n += sat(x); return n; }
    /** Variable v is at level nv - v + 1. */
    int canon(Canon& m, Rule r, int level, unsigned x) const {
        if (level == 0) return sat(x);
        std::vector<int> k = {canon(m, r, level - 1, x), canon(m, r, level - 1, x | 1u << (nv - level))};
        return m.mk(r, level, k);
    }
};
Cnf genCnf(Src& s, Ctx& c, int maxVars, int maxClauses) {
    Cnf f;
    f.nv = s.range(1, maxVars);
    int nc = s.range(1, maxClauses), mode = s.below(4);
    int maxLen = s.range(1, 4), window = s.range(1, f.nv);
    for (int j = 0; j < nc; ++j) {
        std::vector<int> k;
        if (mode == 1 && j > 0 && s.chance(3, 4)) { // clauses that share their last literals
            k = f.c[s.below(j)];
            std::sort(k.begin(), k.end(), [](int a, int b) { return std::abs(a) < std::abs(b); });
            k.erase(k.begin(), k.begin() + s.range(0, int(k.size()) - 1));
            int first = std::abs(k[0]);
            if (first > 1 && s.chance(3, 4)) k.push_back(s.range(1, first - 1) * (s.flip() ? 1 : -1));
            if (first > 1 && s.chance(1, 3)) k.push_back(s.range(1, first - 1) * (s.flip() ? 1 : -1));
        }
        else {
            int len = s.range(1, maxLen), base = mode == 2 ? s.range(1, f.nv - window + 1) : 1, w = mode == 2 ? window : f.nv;
            for (int i = 0; i < len; ++i) k.push_back((base + int(s.below(w))) * (s.flip() ? 1 : -1));
        }
        if (s.chance(1, 12)) k.push_back(k[s.below(k.size())]);
        if (s.chance(1, 20)) k.push_back(-k[s.below(k.size())]);
        if (s.chance(1, 4)) for (size_t i = k.size(); i > 1; --i) std::swap(k[i - 1], k[s.below(i)]);
        f.c.push_back(k);
        if (s.chance(1, 12)) f.c.push_back(k);
    }
    int lines = s.below(3);
    for (int i = s.below(3); i > 0; --i) f.text += s.flip() ? "c a formula\n" : "c\n";
    f.text += pbt::cat("p cnf ", f.nv, " ", f.c.size(), "\n");
    for (auto const& k : f.c) {
        for (int l : k) f.text += pbt::cat(l, lines == 2 && s.chance(1, 4) ? "\n" : " ");
        f.text += lines == 1 && s.flip() ? "0 " : "0\n";
    }
    bool taut = false, rep = false;
    for (auto const& k : f.c) { std::set<int> t(k.begin(), k.end()); if (t.size() != k.size()) rep = true; for (int l : t) if (t.count(-l)) taut = true; }
    c.tag("tautology", taut);
    c.tag("repeated-literal", rep);
    return f;
}
std::string show(Cnf const& f) { std::string t = f.text; for (char& x : t) if (x == '\n') x = '/'; return t; }

#if PART == 0
std::vector<std::string> dots(std::string const& out) { // graphs one after the other
    std::vector<std::string> r;
    std::istringstream is(out);
    std::string l, cur;
    while (std::getline(is, l)) {
        if (l.compare(0, 8, "digraph ") == 0) cur.clear();
        cur += l + "\n";
        if (l == "}") { r.push_back(cur); cur.clear(); }
    }
    return r;
}
/** The assignments listed after the graphs, as bit sets. */
void checkList(Cnf const& f, std::string const& out, long want) {
    std::istringstream is(out);
    std::string l;
    std::set<unsigned> seen;
    while (std::getline(is, l)) {
        std::istringstream ls(l);
        unsigned x = 0;
        for (int v = 1; v <= f.nv; ++v) {
            int t = 0;
            PBT_CHECK(bool(ls >> t) && std::abs(t) == v, "listed assignment: ", l);
            if (t > 0) x |= 1u << (v - 1);
        }
        std::string more;
        PBT_CHECK(!(ls >> more), "listed assignment: ", l);
        PBT_CHECK(f.sat(x), "listed assignment does not satisfy the formula: ", l);
        PBT_CHECK(seen.insert(x).second, "listed twice: ", l);
    }
    PBT_EQ(long(seen.size()), want, "listed assignments");
}
/** Signed cells of the dumped formula. */
void checkCnfDot(Cnf const& f, std::string const& dot) {
    std::multiset<std::set<int> > want, got;
    for (auto const& k : f.c) { std::set<int> t(k.begin(), k.end()); bool taut = false; for (int l : t) if (t.count(-l)) taut = true; if (!taut) want.insert(t); }
    std::map<int, std::set<int> > rows;
    std::istringstream is(dot);
    std::string l;
    while (std::getline(is, l)) {
        int j = 0, v = 0, lit = 0;
        if (std::sscanf(l.c_str(), " c%d_%d [label=\"%d\"", &j, &v, &lit) == 3 && v > 0) {
            PBT_EQ(std::abs(lit), v, "cell of the dumped formula: ", l);
            rows[j].insert(lit);
        }
    }
    for (auto const& r : rows) got.insert(r.second);
    std::set<std::set<int> > w(want.begin(), want.end()), g(got.begin(), got.end()); // sorting drops copies
    PBT_CHECK(w == g, "the dumped formula is another one:\n", dot);
}
PROPERTY(programs, 1) {
    Cnf f = genCnf(s, c, 8, 10);
    bool second = s.chance(1, 3), toFile = s.chance(1, 4), viaStdin = s.chance(1, 4), list = s.chance(2, 3);
    std::vector<std::string> args;
    bool d0 = false, d1 = false, d2 = false, cd = false, last = false;
    if (second) {
        if ((d0 = s.chance(1, 6))) args.push_back("-dd0");
        if ((d1 = s.chance(1, 6))) args.push_back("-dd1");
        if ((d2 = s.chance(1, 6))) args.push_back("-dd2");
        if ((last = s.chance(1, 3))) args.push_back("-dump");
    }
    else {
        if (s.chance(1, 3)) args.push_back("-s");
        int how = s.below(4);
        if (how == 1) args.push_back("-n");
        if (how == 2) args.push_back("-b");
        if (how == 3) { args.push_back("-limit"); args.push_back(std::to_string(s.pick<int>({0, 1, 2, 3, 4, 6, 10, 1000}))); }
        if (s.chance(1, 3)) args.push_back("-c");
        if (s.chance(1, 3)) args.push_back("-p");
        if ((cd = s.chance(1, 6))) args.push_back("-cnf");
        if ((d0 = s.chance(1, 6))) args.push_back("-dd0");
        if ((d1 = s.chance(1, 6))) args.push_back("-dd1");
        if ((last = s.chance(1, 3))) args.push_back("-dump");
    }
    char const* app = second ? "cnf2ztdd2bdd" : "cnfbdd";
    int bad = s.chance(1, 12) ? int(s.range(1, 4)) : 0;
    std::string text = f.text;
    if (bad == 1) text = pbt::cat("p cnf ", f.nv, " ", f.c.size() + 1, "\n", text.substr(text.find('\n', text.find("p cnf")) + 1));
    if (bad == 2) text += "1 0\n"; // one clause too many
    if (bad == 3) text.replace(text.find(" ", text.find("p cnf ") + 6), 1, pbt::cat(" 1")), text += pbt::cat(f.nv + 1, " 0\n"); // unknown variable
    if (bad == 4) text = text.substr(text.find('\n', text.find("p cnf")) + 1); // no header
    std::string fi = scratchFile("cnf"), fo = scratchFile("list");
    unlink(fo.c_str());
    if (!viaStdin) spit(fi, text);
    args.push_back(viaStdin ? "-" : fi);
    if (list) args.push_back(toFile ? fo : "-");
    if (c.verbose) { c.desc << app; for (auto& a : args) c.desc << " " << a; c.desc << "; " << text; }
    long want = f.count();
    Result r = run(app, args, viaStdin ? text : "", s.range(1, 3));
    c.tag(app);
    if (bad) {
        c.tag("malformed");
        PBT_EQ(r.rc, 1, "exit status for a malformed formula (", bad, "): ", r.err);
        PBT_CHECK(reported(r.err).empty(), "an answer for a malformed formula: ", r.err);
        return;
    }
    PBT_EQ(r.rc, 0, "exit status of ", app, ": ", r.err);
    std::vector<std::string> rep = reported(r.err);
    PBT_EQ(rep.size(), size_t(1), "reported counts: ", r.err);
    PBT_EQ(rep[0], std::to_string(want), "reported number of satisfying assignments");
    size_t g = 0;
    std::vector<std::string> ds = dots(r.out);
    PBT_EQ(ds.size(), size_t(cd) + d0 + d1 + d2 + last, "dumped graphs");
    if (cd) checkCnfDot(f, ds[g++]);
    if (second) {
        // the set of clauses as a ternary family
        Canon m3(3);
        std::set<std::vector<int> > sets;
        for (auto const& k : f.c) {
            std::vector<int> v(f.nv + 1, 0);
            bool taut = false;
            for (int l : k) { int& x = v[f.nv - std::abs(l) + 1]; int y = l < 0 ? 1 : 2; if (x && x != y) taut = true; x = y; }
            if (!taut) sets.insert(v);
        }
        std::function<int(int, std::set<std::vector<int> > const&)> fam = [&](int lev, std::set<std::vector<int> > const& t) -> int {
            if (t.empty()) return 0;
            if (lev == 0) return 1;
            std::set<std::vector<int> > p[3];
            for (auto const& v : t) p[v[lev]].insert(v);
            std::vector<int> k = {fam(lev - 1, p[0]), fam(lev - 1, p[1]), fam(lev - 1, p[2])};
            return m3.mk(Z, lev, k);
        };
        int w = fam(f.nv, sets);
        for (int i = d0 + d1 + d2; i > 0; --i) { Dot d(ds[g++], false); int x = d.canonRoot(m3, Z); if (x != w) PBT_FAIL("dumped clauses: ", m3.str(x), ", expected ", m3.str(w)); }
    }
    Canon m(2);
    int w = f.canon(m, B, f.nv, 0);
    while (g < ds.size()) { Dot d(ds[g++], false); int x = d.canonRoot(m, B); if (x != w) PBT_FAIL("dumped diagram: ", m.str(x), ", expected ", m.str(w)); }
    if (list) {
        std::string out = toFile ? slurp(fo) : r.out;
        if (!toFile) { size_t p = out.rfind("}\n"); if (p != std::string::npos) out = out.substr(p + 2); }
        checkList(f, out, want);
    }
    unlink(fo.c_str());
    c.nontrivial(want > 0 && want < 1L << f.nv);
}
#endif

#if PART == 1
/** A BDD of the package, walked. */
int canonCudd(Canon& m, DdNode* f, std::map<DdNode*, int>& memo) {
    if (Cudd_IsConstant(f)) return f == Cudd_ReadOne(Cudd::manager);
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    std::vector<int> k = {canonCudd(m, Cudd_NotCond(Cudd_E(f), Cudd_IsComplement(f)), memo), canonCudd(m, Cudd_NotCond(Cudd_T(f), Cudd_IsComplement(f)), memo)};
    return memo[f] = m.mk(B, Cudd_NodeReadIndex(f), k);
}
int canonCudd(Canon& m, Cudd const& f) { std::map<DdNode*, int> memo; return canonCudd(m, f.ddNode(), memo); }

void together(Src& s, Ctx& c, Cnf const& f) {
    Canon m(2);
    int want = f.canon(m, B, f.nv, 0);
    long refs = Cudd_CheckZeroRef(Cudd::manager);
    {
        CnfToBdd spec;
        std::istringstream is(f.text);
        bool sort = s.flip(), map = s.chance(3, 4), mp = s.chance(1, 3);
        int how = s.below(5); // no analysis, bottom-up only, limited, unlimited
        size_t limit = how == 1 ? 0 : how <= 3 ? size_t(s.pick<int>({1, 2, 3, 4, 5, 8, 20})) : size_t(INT_MAX);
        if (c.verbose) c.desc << (sort ? " sorted" : "") << (map ? "" : " no-map") << (mp ? " parallel" : "") << " analysis=" << how << " limit=" << limit;
        spec.load(is, sort);
        spec.useClauseMap(map);
        if (how) spec.traverse(limit);
        PBT_EQ(spec.numVars(), f.nv, "number of variables");
        omp_set_num_threads(s.range(1, 3));
        tdzdd::DdStructure<2> dd(spec, mp);
        int got = canonDd(m, dd, B);
        if (got != want) PBT_FAIL("cnfbdd: ", m.str(got), ", expected ", m.str(want));
        dd.bddReduce();
        got = canonDd(m, dd, B);
        if (got != want) PBT_FAIL("cnfbdd, reduced: ", m.str(got), ", expected ", m.str(want));
        PBT_EQ(dd.bddCardinality(f.nv), std::to_string(f.count()), "number of satisfying assignments");
        c.tag(how == 0 ? "no-analysis" : how == 1 ? "bottom-up" : how <= 3 ? "limited" : "unlimited");
        c.tag("parallel", mp);
    }
    PBT_EQ(long(Cudd_CheckZeroRef(Cudd::manager)), refs, "references to BDDs left by CnfToBdd");
}
PROPERTY(clauses2, 6) {
    Cnf f = genCnf(s, c, 9, 14);
    if (c.verbose) c.desc << show(f);
    together(s, c, f);
    long n = f.count();
    c.nontrivial(n > 0 && n < 1L << f.nv);
}
PROPERTY(clauses3, 4) {
    Cnf f = genCnf(s, c, 9, 14);
    if (c.verbose) c.desc << show(f);
    Canon m(2);
    int want = f.canon(m, B, f.nv, 0);
    long refs = Cudd_CheckZeroRef(Cudd::manager);
    {
        CnfToZtdd spec;
        std::istringstream is(f.text);
        spec.load(is);
        tdzdd::DdStructure<3> ztdd;
        if (s.chance(1, 3)) ztdd = tdzdd::DdStructure<3>(tdzdd::zddLookahead(spec)); else ztdd = tdzdd::DdStructure<3>(spec);
        std::set<std::set<int> > sets;
        for (auto const& k : f.c) { std::set<int> t(k.begin(), k.end()); bool taut = false; for (int l : t) if (t.count(-l)) taut = true; if (!taut) sets.insert(t); }
        PBT_EQ(ztdd.zddCardinality(), std::to_string(sets.size()), "number of clauses");
        if (s.chance(3, 4)) ztdd.zddReduce();
        Cudd g = ztdd.evaluate(ZtddToCudd());
        int got = canonCudd(m, g);
        if (got != want) PBT_FAIL("cnf2ztdd2bdd: ", m.str(got), ", expected ", m.str(want));
        PBT_EQ(long(g.countMinterm(f.nv)), f.count(), "number of satisfying assignments");
        tdzdd::DdStructure<2> dd(g);
        got = canonDd(m, dd, B);
        if (got != want) PBT_FAIL("diagram of the BDD: ", m.str(got), ", expected ", m.str(want));
        tdzdd::DdStructure<2> z = dd.bdd2zdd(f.nv);
        PBT_EQ(z.zddCardinality(), std::to_string(f.count()), "converted");
    }
    PBT_EQ(long(Cudd_CheckZeroRef(Cudd::manager)), refs, "references to BDDs left by CnfToZtdd");
    long n = f.count();
    c.nontrivial(n > 0 && n < 1L << f.nv);
}
/** The operations of the wrapper, on random functions. */
PROPERTY(wrapper, 3) {
    Canon m(2);
    int nv = s.range(1, 6);
    long refs = Cudd_CheckZeroRef(Cudd::manager);
    {
        typedef std::vector<char> Tab; // truth table, bit l-1: level l
        size_t n = size_t(1) << nv;
        std::vector<Cudd> pool;
        std::vector<Tab> tab;
        for (int l = 1; l <= nv; ++l) {
            Tab t(n);
            for (size_t x = 0; x < n; ++x) t[x] = x >> (l - 1) & 1;
            pool.push_back(Cudd(l, Cudd(0), Cudd(1)));
            tab.push_back(t);
        }
        pool.push_back(Cudd(0)); tab.push_back(Tab(n, 0));
        pool.push_back(Cudd(1)); tab.push_back(Tab(n, 1));
        int steps = s.range(1, 12);
        if (c.verbose) c.desc << "nv=" << nv;
        std::function<int(Tab const&, int, size_t)> canonTab = [&](Tab const& t, int l, size_t x) -> int {
            if (l == 0) return t[x];
            std::vector<int> k = {canonTab(t, l - 1, x), canonTab(t, l - 1, x | size_t(1) << (l - 1))};
            return m.mk(B, l, k);
        };
        for (int k = 0; k < steps; ++k) {
            size_t i = s.below(pool.size()), j = s.below(pool.size()), h = s.below(pool.size());
            int op = s.below(16);
            Tab t(n);
            Cudd f;
            unsigned cube = s.below(n);
            Cudd q(1);
            for (int l = 1; l <= nv; ++l) if (cube >> (l - 1) & 1) q &= Cudd(l, Cudd(0), Cudd(1));
            auto exists = [&](Tab const& a) { Tab r(n, 0); for (size_t x = 0; x < n; ++x) for (size_t y = 0; y < n; ++y) if ((x & ~cube) == (y & ~cube) && a[y]) r[x] = 1; return r; };
            if (c.verbose) c.desc << "; op" << op << "(" << i << "," << j << "," << h << " cube " << cube << ")";
            switch (op) {
            case 0: f = pool[i] & pool[j]; for (size_t x = 0; x < n; ++x) t[x] = tab[i][x] & tab[j][x]; break;
            case 1: f = pool[i] | pool[j]; for (size_t x = 0; x < n; ++x) t[x] = tab[i][x] | tab[j][x]; break;
            case 2: f = pool[i] ^ pool[j]; for (size_t x = 0; x < n; ++x) t[x] = tab[i][x] ^ tab[j][x]; break;
            case 3: f = ~pool[i]; for (size_t x = 0; x < n; ++x) t[x] = !tab[i][x]; break;
            case 4: f = pool[i].ite(pool[j], pool[h]); for (size_t x = 0; x < n; ++x) t[x] = tab[i][x] ? tab[j][x] : tab[h][x]; break;
            case 5: f = pool[i].abstract(q); t = exists(tab[i]); break;
            case 6: { f = pool[i].andAbstract(pool[j], q); Tab a(n); for (size_t x = 0; x < n; ++x) a[x] = tab[i][x] & tab[j][x]; t = exists(a); break; }
            case 7: { // support
                f = pool[i].support();
                unsigned sup = 0;
                for (int l = 0; l < nv; ++l) for (size_t x = 0; x < n; ++x) if (tab[i][x] != tab[i][x ^ size_t(1) << l]) sup |= 1u << l;
                for (size_t x = 0; x < n; ++x) t[x] = (x & sup) == sup;
                break;
            }
            case 8: { // cofactor by a cube of literals
                unsigned neg = s.below(n) & cube;
                Cudd lits(1);
                for (int l = 1; l <= nv; ++l) if (cube >> (l - 1) & 1) { Cudd v(l, Cudd(0), Cudd(1)); lits &= neg >> (l - 1) & 1 ? ~v : v; }
                f = pool[i].cofactor(lits);
                for (size_t x = 0; x < n; ++x) t[x] = tab[i][(x & ~cube) | (cube & ~neg)];
                break;
            }
            case 9: f = pool[i]; f &= pool[j]; f |= pool[h]; f ^= pool[i]; for (size_t x = 0; x < n; ++x) t[x] = ((tab[i][x] & tab[j][x]) | tab[h][x]) ^ tab[i][x]; break;
            case 10: { // compose
                std::vector<Cudd> v(nv + 1);
                std::vector<int> by(nv + 1, -1);
                for (int l = 1; l <= nv; ++l) if (s.flip()) { by[l] = s.below(pool.size()); v[l] = Cudd(pool[by[l]]); }
                f = pool[i].compose(v);
                for (size_t x = 0; x < n; ++x) { size_t y = 0; for (int l = 1; l <= nv; ++l) if (by[l] < 0 ? x >> (l - 1) & 1 : tab[by[l]][x]) y |= size_t(1) << (l - 1); t[x] = tab[i][y]; }
                break;
            }
            case 11: { // questions
                bool sub = true, meet = false;
                for (size_t x = 0; x < n; ++x) { if (tab[j][x] && !tab[i][x]) sub = false; if (tab[i][x] && tab[j][x]) meet = true; }
                PBT_EQ(pool[i].contains(pool[j]), sub, "contains");
                PBT_EQ(pool[i].intersects(pool[j]), meet, "intersects");
                PBT_EQ(pool[i] == pool[j], tab[i] == tab[j], "==");
                PBT_EQ(pool[i] != pool[j], tab[i] != tab[j], "!=");
                PBT_EQ(pool[i] == 1, tab[i] == Tab(n, 1), "== 1");
                PBT_EQ(pool[i] != 0, tab[i] != Tab(n, 0), "!= 0");
                PBT_EQ(pool[i].level(), m.level(canonTab(tab[i], nv, 0)), "level");
                PBT_EQ(pool[i].isConstant(), m.level(canonTab(tab[i], nv, 0)) == 0, "isConstant");
                f = pool[i]; t = tab[i];
                break;
            }
            case 12: { // the closure upwards in the cube's variables
                f = pool[i].abstract1(q);
                for (size_t x = 0; x < n; ++x) for (size_t y = 0; y < n; ++y) if ((x & ~cube) == (y & ~cube) && (y & ~x) == 0 && tab[i][y]) t[x] = 1;
                break;
            }
            case 13: { // any function that agrees with i where j is true
                if (pool[j] == 0) { f = pool[i]; t = tab[i]; break; }
                f = pool[i].minimize(pool[j]);
                std::function<bool(Cudd const&, size_t)> at = [&](Cudd const& g, size_t x) -> bool { return g.isConstant() ? g == 1 : at(g.child(x >> (g.level() - 1) & 1), x); };
                for (size_t x = 0; x < n; ++x) { t[x] = at(f, x); if (tab[j][x]) PBT_EQ(bool(t[x]), bool(tab[i][x]), "minimize"); }
                break;
            }
            case 14: { // empty objects, assignment and copies
                Cudd e, g(pool[i]), h2(e);
                PBT_EQ(e.isNull() && h2.isNull() && !g.isNull(), true, "isNull");
                h2 = g; g = g; f = h2; g = e;
                PBT_EQ(g.isNull(), true, "isNull after assignment");
                g = pool[j]; e = pool[h]; std::vector<Cudd> three(3, e); three[1] = g; three.resize(2);
                PBT_EQ(three[1] == pool[j], true, "assigned");
                std::vector<Cudd> both = {pool[i], pool[j]};
                PBT_CHECK(Cudd::sharingSize(both) >= std::max(pool[i].size(), pool[j].size()) && Cudd::sharingSize(both) < pool[i].size() + pool[j].size(), "sharingSize");
                PBT_EQ(pool[i].hash() == pool[j].hash() || !(tab[i] == tab[j]), true, "hash");
                PBT_EQ((pool[i] < pool[j]) + (pool[j] < pool[i]), tab[i] == tab[j] ? 0 : 1, "<");
                t = tab[i];
                break;
            }
            default: { // a child
                f = pool[i];
                t = tab[i];
                if (f.isConstant()) break;
                int l = f.level(), b = s.below(2);
                f = f.child(b);
                for (size_t x = 0; x < n; ++x) t[x] = tab[i][b ? x | size_t(1) << (l - 1) : x & ~(size_t(1) << (l - 1))];
                break;
            }
            }
            int got = canonCudd(m, f), want = canonTab(t, nv, 0);
            if (got != want) PBT_FAIL("operation ", op, ": ", m.str(got), ", expected ", m.str(want));
            pool.push_back(f);
            tab.push_back(t);
        }
        Cudd const& f = pool.back();
        tdzdd::DdStructure<2> dd(f);
        int got = canonDd(m, dd, B), want = canonTab(tab.back(), nv, 0);
        if (got != want) PBT_FAIL("as a specification: ", m.str(got), ", expected ", m.str(want));
        long cnt = 0;
        for (char x : tab.back()) cnt += x;
        PBT_EQ(long(f.countMinterm(nv)), cnt, "countMinterm");
        c.nontrivial(m.level(want) > 1);
    }
    PBT_EQ(long(Cudd_CheckZeroRef(Cudd::manager)), refs, "references left");
}
#endif

} // namespace
