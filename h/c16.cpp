// C16: exported diagrams describe exactly the diagram they were dumped from.
#include "ompcompat.hpp"
#include <fstream>
#include <iostream>
#include <cstring>
#include <unistd.h>
#include "merge.hpp"
#include "dot.hpp"
#include <tdzdd/spec/GraphillionZdd.hpp>
using namespace model;

/** Children for values above 2 sorted, as DOT does not tell them apart. */
static int blur(Canon& m, Rule r, int f, std::map<int, int>& memo) {
    if (f <= 1) return f;
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    std::vector<int> k(m.N);
    for (int b = 0; b < m.N; ++b) k[b] = blur(m, r, m.kid(f, b), memo);
    if (m.N > 4) std::sort(k.begin() + 3, k.end());
    return memo[f] = m.mk(r, m.level(f), k);
}

template<int N> static void checkDot(Canon& m, std::string const& text, int want, int top, long nodes, char const* what) {
    Dot d(text, false);
    std::map<int, int> memo;
    int w = blur(m, S, want, memo);
    int g = d.canonRoot(m, S);
    if (g != w) PBT_FAIL(what, ": DOT describes ", m.str(g), ", expected ", m.str(w));
    if (top > 0) PBT_EQ(d.levels, top, what, ": levels in DOT");
    if (nodes >= 0) PBT_EQ(long(d.declared.size()), nodes, what, ": nodes in DOT");
    for (auto const& x : d.declared) PBT_CHECK(d.rank.count(x), what, ": ", x, " has no level");
}

/** Reads the SAPPORO text back. */
static void checkSapporo(Canon& m, std::string const& text, int want, int top, int vars, size_t size) {
    std::istringstream is(text);
    std::string k;
    long i = -1, o = -1, n = -1;
    is >> k >> i;
    PBT_EQ(k, std::string("_i"), "first header of ", text);
    is >> k >> o;
    PBT_EQ(k, std::string("_o"), "second header");
    is >> k >> n;
    PBT_EQ(k, std::string("_n"), "third header");
    PBT_CHECK(bool(is), "headers");
    PBT_CHECK(i >= top && i <= vars, "variables: ", i); // empty levels above the root may be kept
    PBT_EQ(o, 1L, "outputs");
    PBT_EQ(size_t(n), size, "nodes");
    std::map<std::string, int> id;
    id["F"] = 0;
    id["T"] = 1;
    for (long j = 0; j < n; ++j) {
        std::string a, b, c;
        int lev = -1;
        is >> a >> lev >> b >> c;
        PBT_CHECK(bool(is), "node line ", j);
        PBT_CHECK(id.count(b) && id.count(c), "node ", a, " refers to something not defined above");
        PBT_CHECK(!id.count(a), "node ", a, " defined twice");
        std::vector<int> kids = {id[b], id[c]};
        PBT_CHECK(lev > m.level(kids[0]) && lev > m.level(kids[1]) && lev <= i, "level of ", a);
        id[a] = m.mk(S, lev, kids);
    }
    std::string r;
    is >> r;
    PBT_CHECK(id.count(r), "root ", r, " not defined: ", text);
    if (id[r] != want) PBT_FAIL("SAPPORO text describes ", m.str(id[r]), ", expected ", m.str(want));
    PBT_CHECK(!(is >> r), "text after the root: ", r);
}

template<int N> static std::string dotOf(Src& s, tdzdd::DdStructure<N> const& dd, int how) {
    switch (how) {
    case 0: return dd.dot();
    case 1: return dd.dot("a title");
    case 2: { std::ostringstream os; dd.dumpDot(os, ""); return os.str(); }
    default: { std::ostringstream os; os << dd; return os.str(); }
    }
}

template<int N> static void dumpDiagram(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    int kind = s.below(6), par = drawParam(s);
    bool mp = s.chance(1, 4);
    if (c.verbose) c.desc << "kind=" << kindName(kind) << " mp=" << mp << " " << a.str();
    omp_set_num_threads(mp ? s.range(1, 4) : 1);
    withSpecFew<N>(a, kind, par, [&](auto const& spec) {
        tdzdd::DdStructure<N> dd(spec, mp);
        int red = s.below(4);
        if (red == 1) dd.zddReduce();
        else if (red == 2) dd.bddReduce();
        else if (red == 3) dd.qddReduce();
        c.tag(red == 0 ? "as-built" : red == 1 ? "zdd" : red == 2 ? "bdd" : "qdd");
        if (s.chance(1, 6)) {
            int steps = s.below(4);
            tdzdd::NodeId f = dd.root();
            while (steps-- > 0 && f.row() > 0) f = dd.child(f, s.below(N));
            dd.root() = f;
            c.tag("moved-root");
        }
        Canon m(N);
        int want = canonDd(m, dd, S);
        c.tag("terminal-diagram", want <= 1);
        c.nontrivial(m.size(want) >= 3);
        int top = dd.topLevel();
        checkDot<N>(m, dotOf<N>(s, dd, s.below(4)), want, top, reachableNodes(dd), "diagram");
        if (N == 2) {
            std::ostringstream os;
            dd.dumpSapporo(os);
            checkSapporo(m, os.str(), want, top, std::max(a.root.level, 0), dd.size());
        }
        if (s.chance(1, 2)) { // node table
            std::ostringstream os;
            dd.getDiagram()->dumpDot(os, s.flip() ? "t" : "");
            Dot d(os.str(), true);
            size_t k = 0;
            for (int l = 1; l < dd.getDiagram()->numRows(); ++l) {
                for (size_t j = 0; j < (*dd.getDiagram())[l].size(); ++j, ++k) {
                    std::string f = pbt::cat(l, ":", j);
                    PBT_CHECK(d.declared.count(f), "node ", f, " missing from the table's DOT");
                    PBT_EQ(d.rank[f], l, "level of ", f);
                    std::vector<std::vector<std::string> > ks;
                    d.kids(f, N, ks);
                    std::vector<std::string> rest;
                    for (int b = 0; b < N; ++b) {
                        tdzdd::NodeId g = dd.child(tdzdd::NodeId(l, j), b);
                        std::string t = g == 1 ? "$" : pbt::cat(g.row(), ":", g.col());
                        if (b >= 3) { if (g != 0) rest.push_back(t); continue; }
                        if (g == 0) PBT_CHECK(ks[b].empty(), "edge ", f, " for ", b, " though the child is false");
                        else PBT_CHECK(ks[b].size() == 1 && ks[b][0] == t, "edge ", f, " for ", b, " to ", ks[b].empty() ? "nothing" : ks[b][0], ", expected ", t);
                    }
                    std::sort(rest.begin(), rest.end());
                    std::sort(ks[3].begin(), ks[3].end());
                    PBT_CHECK(rest == ks[3], "edges of ", f, " for higher values");
                }
            }
            PBT_EQ(d.declared.size(), k, "nodes in the table's DOT");
            PBT_EQ(size_t(d.levels), size_t(std::max(0, dd.getDiagram()->numRows() - 1)), "levels in the table's DOT");
        }
    });
    checkTracked("dump");
}

template<int N> static void dumpSpec(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    int kind = drawKind(s, a), par = drawParam(s);
    if (c.verbose) c.desc << "kind=" << kindName(kind) << " " << a.str();
    Canon m(N);
    int want = a.canon(m, S);
    c.nontrivial(m.size(want) >= 3);
    c.tag(pbt::cat("kind-", kindName(kind)));
    withSpec<N>(a, kind, par, [&](auto const& spec) {
        std::string text;
        if (s.flip()) text = spec.dot("x");
        else { std::ostringstream os; os << spec; text = os.str(); }
        checkDot<N>(m, text, want, a.root.level, a.reachable(), kindName(kind));
    });
    checkTracked("dump");
    PBT_EQ(long(Tracked::live()), 0L, "states left alive by the dump");
}

// Specifications with labels of their own (or the default ones).
template<int N, int V> struct Labelled: public tdzdd::DdSpec<Labelled<N, V>, int, N> {
    Auto const* a;
    explicit Labelled(Auto const& x) : a(&x) {}
    int getRoot(int& s) const { s = a->root.state; return a->root.level; }
    int getChild(int& s, int level, int v) const { To const& u = a->go(level, s, v); s = u.state; return u.level; }
    void printLevel(std::ostream& os, int level) const { if (V) os << "L" << level << "!"; else os << level; }
    void printStateAtLevel(std::ostream& os, int const& s, int level) const { if (V) os << s << "@" << level; else os << s; }
    static std::string want(int level, int s) { return V ? pbt::cat(s, "@", level) : pbt::cat(s); }
    static std::string wantLevel(int level) { return V ? pbt::cat("L", level, "!") : pbt::cat(level); }
};
template<int N> struct Plain: public tdzdd::DdSpec<Plain<N>, int, N> {
    Auto const* a;
    explicit Plain(Auto const& x) : a(&x) {}
    int getRoot(int& s) const { s = a->root.state; return a->root.level; }
    int getChild(int& s, int level, int v) const { To const& u = a->go(level, s, v); s = u.state; return u.level; }
    static std::string want(int, int s) { return pbt::cat(s); }
    static std::string wantLevel(int level) { return pbt::cat(level); }
};
template<int N> struct PlainArray: public tdzdd::PodArrayDdSpec<PlainArray<N>, int, N> {
    Auto const* a;
    explicit PlainArray(Auto const& x) : a(&x) { this->setArraySize(3); }
    int getRoot(int* s) const { s[0] = 7; s[1] = a->root.state; s[2] = -1; return a->root.level; }
    int getChild(int* s, int level, int v) const { To const& u = a->go(level, s[1], v); s[1] = u.state; return u.level; }
    static std::string want(int, int s) { return pbt::cat("[7,", s, ",-1]"); }
    static std::string wantLevel(int level) { return pbt::cat(level); }
};
template<int N> struct PlainHybrid: public tdzdd::HybridDdSpec<PlainHybrid<N>, int, short, N> {
    Auto const* a;
    explicit PlainHybrid(Auto const& x) : a(&x) { this->setArraySize(2); }
    int getRoot(int& s, short* t) const { s = a->root.state; t[0] = t[1] = 4; return a->root.level; }
    int getChild(int& s, short*, int level, int v) const { To const& u = a->go(level, s, v); s = u.state; return u.level; }
    static std::string want(int, int s) { return pbt::cat("[", s, ":4,4]"); }
    static std::string wantLevel(int level) { return pbt::cat(level); }
};
template<int N, typename S> static void checkLabels(Auto const& a, S const& spec, std::string const& title, bool sameStates) {
    Dot d(spec.dot(title), false);
    PBT_EQ(d.title, title, "title");
    if (a.root.level <= 0) { PBT_CHECK(d.declared.empty() && d.levels == 0, "terminal root has nodes"); return; }
    PBT_EQ(d.levels, a.root.level, "levels");
    for (int l = 1; l <= a.root.level; ++l) PBT_EQ(d.levelLabel[l], S::wantLevel(l), "label of level ", l);
    std::map<std::pair<int, int>, std::string> node; // reached from the root by the automaton's own steps
    std::vector<std::pair<int, int> > todo(1, std::make_pair(a.root.level, int(a.root.state)));
    node[todo[0]] = d.root;
    while (!todo.empty()) {
        std::pair<int, int> q = todo.back();
        todo.pop_back();
        std::string f = node[q];
        PBT_CHECK(d.declared.count(f), "edge to undeclared node ", f);
        PBT_EQ(d.rank[f], q.first, "level of ", f);
        PBT_EQ(d.label[f], S::want(q.first, q.second), "label of ", f);
        std::vector<std::vector<std::string> > ks;
        d.kids(f, N, ks);
        for (int b = 0; b < N && b < 3; ++b) {
            To const& u = a.go(q.first, q.second, b);
            if (u.level == 0) { PBT_CHECK(ks[b].empty() || d.dead.count(ks[b][0]), "edge of ", f, " for ", b, " though it is false"); continue; }
            PBT_EQ(ks[b].size(), size_t(1), "edges of ", f, " for ", b);
            if (u.level < 0) { PBT_CHECK(d.truth.count(ks[b][0]), "edge of ", f, " for ", b, " is not to true"); continue; }
            std::pair<int, int> t(u.level, int(u.state));
            auto r = node.insert(std::make_pair(t, ks[b][0]));
            if (r.second) todo.push_back(t);
            PBT_EQ(r.first->second, ks[b][0], "two nodes for one state");
        }
    }
    PBT_CHECK(sameStates ? node.size() == d.declared.size() : node.size() <= d.declared.size(), node.size(), " states, ", d.declared.size(), " nodes");
}
template<int N> static void dumpLabels(Src& s, Ctx& c, Shape sh) {
    Auto a = genAuto(s, c, N, sh);
    int v = s.below(5);
    std::string title = s.pick<std::string>({"t", "a title", "", "x_1"});
    if (c.verbose) c.desc << "labels " << v << " title '" << title << "' " << a.str();
    c.nontrivial(a.reachable() >= 3);
    c.tag(pbt::cat("labels", v));
    switch (v) {
    case 0: checkLabels<N>(a, Labelled<N, 0>(a), title, N <= 3); break;
    case 1: checkLabels<N>(a, Labelled<N, 1>(a), title, N <= 3); break;
    case 2: checkLabels<N>(a, Plain<N>(a), title, N <= 3); break;
    case 3: checkLabels<N>(a, PlainArray<N>(a), title, N <= 3); break;
    case 4: checkLabels<N>(a, PlainHybrid<N>(a), title, N <= 3); break;
    }
}

// One node per level, no state.
template<int N> static void dumpStateless(Src& s, Ctx& c) {
    Auto a = genAuto(s, c, N, Shape(10, 1), true);
    if (c.verbose) c.desc << "stateless " << a.str();
    Canon m(N);
    int want = a.canon(m, S);
    c.nontrivial(m.size(want) >= 3);
    SpecStateless<N> spec(a);
    checkDot<N>(m, spec.dot("x"), want, a.root.level, a.reachable(), "stateless");
}

template<int N> static void dumpMerging(Src& s, Ctx& c, Shape sh) {
    CostAuto ca = genCost(s, c, N, sh);
    bool atTrue = s.flip(), countRule = s.flip();
    if (c.verbose) c.desc << "atTrue=" << atTrue << " countRule=" << countRule << " seed=" << ca.seed << " maxCost=" << ca.maxCost << " " << ca.a.str();
    Canon m(N);
    size_t pruned = 0;
    int want = modelKeepBest(m, ca, atTrue, countRule, &pruned);
    c.nontrivial(pruned > 0 && want > 1);
    SpecCost<N> spec(ca, 0, atTrue, countRule);
    Dot d(spec.dot("m"), false);
    int g = d.canonRoot(m, Q);
    if (g != want) PBT_FAIL("DOT of a merging specification describes ", m.str(g), ", expected ", m.str(want));
}

/** Writes a ZDD in Graphillion's text format and reads it. */
static void importZdd(Src& s, Ctx& c) {
    Auto a = genAuto(s, c, 2, Shape(7, 4, true, 12, 10));
    Canon m(2);
    int f = a.canon(m, Z);
    c.nontrivial(m.size(f) >= 3);
    // nodes below f, children first or not
    std::vector<int> order, st(1, f);
    std::set<int> seen;
    int maxLev = m.level(f), minLev = 1 << 30;
    while (!st.empty()) {
        int x = st.back();
        st.pop_back();
        if (x <= 1 || !seen.insert(x).second) continue;
        order.push_back(x);
        minLev = std::min(minLev, m.level(x));
        st.push_back(m.kid(x, 0));
        st.push_back(m.kid(x, 1));
    }
    int how = s.below(3);
    if (how == 0) std::stable_sort(order.begin(), order.end(), [&](int x, int y) { return m.level(x) < m.level(y); });
    else if (how == 1) { Rng r(s.u64()); for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]); }
    c.tag(how == 0 ? "children-first" : how == 1 ? "any-order" : "parents-first");
    int offset = s.range(0, 5); // index of the top variable
    long idBase = s.flip() ? 0 : s.range(1, 50);
    int idStep = s.range(1, 3);
    bool lower = s.flip();
    char const* eol = s.chance(1, 5) ? "\r\n" : "\n";
    std::ostringstream os;
    auto ref = [&](int x) -> std::string {
        if (x == 0) return lower ? "b" : "B";
        if (x == 1) return lower ? "t" : "T";
        return pbt::cat(idBase + (x - 2) * idStep);
    };
    if (s.chance(1, 6)) os << "# a comment" << eol;
    if (f <= 1) os << ref(f) << eol;
    for (int x : order) {
        if (s.chance(1, 12)) os << eol;
        if (s.chance(1, 12)) os << "  ";
        os << ref(x) << " " << (offset + maxLev - m.level(x)) << (s.chance(1, 12) ? "\t" : " ") << ref(m.kid(x, 0)) << " " << ref(m.kid(x, 1)) << eol;
    }
    std::string text = os.str();
    if (s.chance(3, 4)) text += pbt::cat(".", eol);
    else if (s.flip() && !text.empty()) text.resize(text.find_last_not_of("\r\n") + 1);
    if (c.verbose) c.desc << "text:\n" << text;
    tdzdd::GraphillionZdd g;
    if (s.chance(1, 10)) {
        c.tag("file");
        char name[] = "/tmp/vpimpXXXXXX";
        int fd = mkstemp(name);
        if (fd >= 0) {
            if (write(fd, text.data(), text.size()) != ssize_t(text.size())) PBT_FAIL("cannot write scratch file");
            close(fd);
            try { g.read(name); } catch (...) { unlink(name); throw; }
            unlink(name);
        }
    }
    else {
        std::istringstream is(text);
        std::streambuf* old = std::cin.rdbuf(is.rdbuf());
        std::cin.clear();
        try { g.read(); } catch (...) { std::cin.rdbuf(old); throw; }
        std::cin.rdbuf(old);
        std::cin.clear();
    }
    tdzdd::DdStructure<2> dd(g);
    // level = (largest index) - index + 1
    std::map<int, int> memo;
    memo[0] = 0; memo[1] = 1;
    std::sort(order.begin(), order.end(), [&](int x, int y) { return m.level(x) < m.level(y); });
    for (int x : order) memo[x] = m.mk(Z, m.level(x) - minLev + 1, std::vector<int>{memo[m.kid(x, 0)], memo[m.kid(x, 1)]});
    int want = memo[f];
    int got = canonDd(m, dd, Z);
    if (f == 1 && got == 0) { c.tag("known-finding"); return; } // finding C16/graphillion-top: see known_findings.txt
    if (got != want) PBT_FAIL("imported ", m.str(got), ", expected ", m.str(want));
    c.tag("terminal-import", f <= 1);
}

#if PART == 0
PROPERTY(diagram2, 4) { Tracked::reset(); dumpDiagram<2>(s, c, Shape(7, 4, true, 12, 15)); }
PROPERTY(diagram2huge, -4000) { Tracked::reset(); dumpDiagram<2>(s, c, Shape::huge(2000)); }
PROPERTY(graphillion, 3) { importZdd(s, c); }
#elif PART == 1
PROPERTY(diagram3, 2) { Tracked::reset(); dumpDiagram<3>(s, c, Shape(6, 4, true, 8, 8)); }
PROPERTY(diagram5, 1) { Tracked::reset(); dumpDiagram<5>(s, c, Shape(4, 3, false)); }
#elif PART == 2
PROPERTY(spec2, 3) { Tracked::reset(); dumpSpec<2>(s, c, Shape(7, 4, true, 12, 15)); }
PROPERTY(spec3, 2) { Tracked::reset(); dumpSpec<3>(s, c, Shape(6, 4, false)); }
PROPERTY(spec6, 1) { Tracked::reset(); dumpSpec<6>(s, c, Shape(4, 3, false)); }
PROPERTY(labels2, 1) { dumpLabels<2>(s, c, Shape(7, 4, true, 12, 15)); }
PROPERTY(labels3, 1) { dumpLabels<3>(s, c, Shape(6, 4, true, 8, 8)); }
PROPERTY(stateless2, -12) { dumpStateless<2>(s, c); }
PROPERTY(stateless4, -20) { dumpStateless<4>(s, c); }
PROPERTY(merging2, 1) { dumpMerging<2>(s, c, Shape(6, 4, true, 10, 10)); }
PROPERTY(merging3, 1) { dumpMerging<3>(s, c, Shape(5, 3, false)); }
#endif
