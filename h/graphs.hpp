/* Random simple graphs and brute-force families of edge sets. */
#pragma once
#include "specs.hpp"
#include <fstream>
#include <tdzdd/util/Graph.hpp>

namespace model {

/** Simple graph over vertices 0..nv-1 (each on some edge), edges in the order given to the library. */
struct G {
    int nv;
    std::vector<std::pair<int, int> > e;
    std::vector<std::string> name;
    std::vector<int> color; // 0 none; 1.. group

    int m() const { return e.size(); }
    std::string str() const {
        std::ostringstream os;
        os << "edges";
        for (auto const& x : e) os << " " << name[x.first] << "-" << name[x.second];
        bool any = false;
        for (int v = 0; v < nv; ++v) if (color[v]) { os << (any ? "," : " groups ") << name[v] << ":" << color[v]; any = true; }
        return os.str();
    }
};

/** Draws a simple graph with 1..maxE edges. */
inline G genGraph(Src& s, Ctx& c, int maxV, int maxE) {
    G g;
    int kind = s.below(7);
    std::vector<std::pair<int, int> > e;
    std::set<std::pair<int, int> > have;
    auto add = [&](int a, int b) {
        if (a == b || int(e.size()) >= maxE) return;
        if (!have.insert(std::make_pair(std::min(a, b), std::max(a, b))).second) return;
        e.push_back(s.flip() ? std::make_pair(a, b) : std::make_pair(b, a));
    };
    if (kind <= 2) { // arbitrary
        int n = s.range(2, maxV), k = s.range(1, maxE);
        for (int i = 0; i < k * 2 && int(e.size()) < k; ++i) add(s.below(n), s.below(n));
        c.tag("g-arbitrary");
    }
    else if (kind == 3) { // grid
        int w = s.range(1, 4), h = s.range(1, std::max(1, maxV / w));
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            if (x + 1 < w) add(y * w + x, y * w + x + 1);
            if (y + 1 < h) add(y * w + x, (y + 1) * w + x);
        }
        c.tag("g-grid");
    }
    else if (kind == 4) { // path or cycle with chords
        int n = s.range(2, maxV);
        for (int i = 0; i + 1 < n; ++i) add(i, i + 1);
        if (s.flip()) add(n - 1, 0);
        int k = s.range(0, 4);
        for (int i = 0; i < k; ++i) add(s.below(n), s.below(n));
        c.tag("g-chain");
    }
    else if (kind == 5) { // tree with extra edges
        int n = s.range(2, maxV);
        for (int i = 1; i < n; ++i) add(i, s.below(i));
        int k = s.range(0, 4);
        for (int i = 0; i < k; ++i) add(s.below(n), s.below(n));
        c.tag("g-tree");
    }
    else { // dense
        int n = s.range(3, std::min(maxV, 6));
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (s.chance(4, 5)) add(i, j);
        c.tag("g-dense");
    }
    if (e.empty()) add(0, 1);
    if (s.flip()) { // some other edge order
        c.tag("shuffled");
        Rng r(s.u64());
        for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[r.below(i)]);
    }
    std::map<int, int> id;
    for (auto& x : e) {
        if (!id.count(x.first)) { int k = id.size(); id[x.first] = k; }
        if (!id.count(x.second)) { int k = id.size(); id[x.second] = k; }
        x = std::make_pair(id[x.first], id[x.second]);
    }
    g.e = e;
    g.nv = id.size();
    int naming = s.below(3);
    uint64_t salt = naming == 2 ? s.u64() : 0;
    for (int v = 0; v < g.nv; ++v) {
        if (naming == 0) g.name.push_back(pbt::cat(v + 1));
        else if (naming == 1) g.name.push_back(pbt::cat("v", g.nv - v));
        else g.name.push_back(pbt::cat("n", pbt::mix(salt + v) % 997, "_", v));
    }
    g.color.assign(g.nv, 0);
    return g;
}

/** Draws a graph of up to some hundred edges that has few paths and cycles. */
inline G genSparse(Src& s, Ctx& c, int maxHub) {
    std::vector<std::pair<int, int> > e;
    auto add = [&](int a, int b) { e.push_back(s.flip() ? std::make_pair(a, b) : std::make_pair(b, a)); };
    int kind = s.below(4), n = 0;
    if (kind == 0) { // cycles on a string
        int k = s.range(1, 7), at = n++;
        for (int i = 0; i < k; ++i) {
            int len = s.range(3, s.flip() ? 8 : 60), first = at, cut = s.range(1, len - 1), next = at;
            for (int j = 1, v = at; j <= len; ++j) {
                int w = j == len ? first : n++;
                add(v, w);
                if (j == cut) next = w;
                v = w;
            }
            at = next;
            if (s.chance(1, 4)) { add(at, n); at = n++; }
        }
        c.tag("g-necklace");
    }
    else if (kind == 1) { // hub and rim: wide frontier
        bool spokesFirst = s.chance(3, 4);
        n = s.range(4, spokesFirst ? maxHub : 11); // there are many sets of rim edges
        for (int i = 1; i < n; ++i) if (spokesFirst) add(0, i); else { add(i, i % (n - 1) + 1); }
        for (int i = 1; i < n; ++i) if (!spokesFirst) add(0, i); else { add(i, i % (n - 1) + 1); }
        c.tag("g-wheel");
    }
    else if (kind == 2) { // ladder
        n = s.range(2, 11);
        for (int i = 0; i < n; ++i) { add(2 * i, 2 * i + 1); if (i + 1 < n) { add(2 * i, 2 * i + 2); add(2 * i + 1, 2 * i + 3); } }
        c.tag("g-ladder");
    }
    else { // long tree with a few more edges
        n = s.range(60, 300);
        std::set<std::pair<int, int> > have;
        for (int i = 1; i < n; ++i) { int p = std::max(0, i - 1 - int(s.below(3))); add(p, i); have.insert(std::make_pair(p, i)); }
        for (int i = s.range(0, 5); i > 0; --i) { int a = s.below(n - 4), b = a + 2 + int(s.below(2)); if (have.insert(std::make_pair(a, b)).second) add(a, b); }
        c.tag("g-longtree");
    }
    std::set<std::pair<int, int> > seen; // simple
    std::vector<std::pair<int, int> > f;
    for (auto const& x : e) if (x.first != x.second && seen.insert(std::make_pair(std::min(x.first, x.second), std::max(x.first, x.second))).second) f.push_back(x);
    G g;
    std::map<int, int> id;
    for (auto& x : f) {
        if (!id.count(x.first)) { int k = id.size(); id[x.first] = k; }
        if (!id.count(x.second)) { int k = id.size(); id[x.second] = k; }
        x = std::make_pair(id[x.first], id[x.second]);
    }
    g.e = f;
    g.nv = id.size();
    bool plain = s.flip();
    for (int v = 0; v < g.nv; ++v) g.name.push_back(plain ? pbt::cat(v + 1) : pbt::cat("n", pbt::mix(v) % 997, "_", v));
    g.color.assign(g.nv, 0);
    c.tag("over-100-edges", g.m() > 100);
    return g;
}

/** Draws k disjoint pairs of terminals; returns the number of pairs placed. */
inline int genPairs(Src& s, G& g, int k) {
    std::vector<int> vs(g.nv);
    for (int i = 0; i < g.nv; ++i) vs[i] = i;
    for (size_t i = vs.size(); i > 1; --i) std::swap(vs[i - 1], vs[s.below(i)]);
    k = std::min(k, g.nv / 2);
    for (int i = 0; i < k; ++i) g.color[vs[2 * i]] = g.color[vs[2 * i + 1]] = i + 1;
    return k;
}

/** Hands the graph to the library; may repeat and reverse edges. */
inline void fill(Src& s, G const& g, tdzdd::Graph& out) {
    bool repeat = s.chance(1, 4);
    for (int i = 0; i < g.m(); ++i) {
        out.addEdge(g.name[g.e[i].first], g.name[g.e[i].second]);
        if (repeat && s.chance(1, 2)) {
            int j = s.below(i + 1);
            if (s.flip()) out.addEdge(g.name[g.e[j].second], g.name[g.e[j].first]);
            else out.addEdge(g.name[g.e[j].first], g.name[g.e[j].second]);
        }
    }
    static char const* cn[] = {"", "red", "green", "blue", "aqua", "z", "m", "k", "Q", "0", "black"};
    bool named = s.flip();
    int shift = s.below(5);
    for (int v = 0; v < g.nv; ++v) if (g.color[v]) {
        if (named && g.color[v] <= 10) out.setColor(g.name[v], std::string(cn[g.color[v]]));
        else out.setColor(g.name[v], (g.color[v] * 7 + shift) % 50);
    }
    out.update();
}

struct Uf {
    std::vector<int> p;
    explicit Uf(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; }
    int find(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
    bool join(int a, int b) { a = find(a); b = find(b); if (a == b) return false; p[a] = b; return true; }
};

/** Finding C17/stdmap-pairs: with several pairs PathZddByStdMap accepts the edge sets that
    form one cycle together with one extra edge per pair, whichever terminals they join. */
inline bool isVirtualCycle(G const& g, uint64_t x, int pairs) {
    std::vector<int> deg(g.nv, 0), first(pairs + 1, -1);
    Uf uf(g.nv);
    int closed = 0;
    auto add = [&](int a, int b) { ++deg[a]; ++deg[b]; if (!uf.join(a, b)) ++closed; };
    for (int i = 0; i < g.m(); ++i) if (x >> i & 1) add(g.e[i].first, g.e[i].second);
    for (int v = 0; v < g.nv; ++v) if (g.color[v]) {
        if (first[g.color[v]] < 0) first[g.color[v]] = v;
        else add(first[g.color[v]], v);
    }
    for (int v = 0; v < g.nv; ++v) if (deg[v] != 2 && (g.color[v] || deg[v] != 0)) return false;
    return closed == 1;
}

/** Finding C17/hamilton-window: when the path (cycle) is completed by an edge, vertices that are not
    in the window of vertices under consideration then, and for cycles the first one in it (unless it was decided before), may be missed. */
inline bool missesUnseenOnly(G const& g, tdzdd::Graph const& gr, uint64_t x, bool cycle) {
    int last = -1;
    std::vector<int> deg(g.nv, 0);
    for (int i = 0; i < g.m(); ++i) if (x >> i & 1) { last = i; ++deg[g.e[i].first]; ++deg[g.e[i].second]; }
    if (last < 0) return false;
    int v0 = gr.edgeInfo(last).v0;
    for (int v = 0; v < g.nv; ++v) if (deg[v] == 0) {
        int k = gr.getVertex(g.name[v]);
        if (k >= v0 + gr.maxFrontierSize()) continue;
        int rest = 0, total = 0; // edges of v still to come
        for (int i = 0; i < g.m(); ++i) if (g.e[i].first == v || g.e[i].second == v) { ++total; rest += i > last; }
        if (!cycle || k != v0 || rest < std::min(2, total)) return false;
    }
    return true;
}

/** Canonical ZDD of the family {S : pred(bits)}; edge i is bit i and level m - i. */
template<typename F> int familyOf(Canon& m, int edges, F pred, long* count = 0) {
    std::vector<int> cur(size_t(1) << edges);
    long k = 0;
    for (size_t x = 0; x < cur.size(); ++x) { cur[x] = pred(x) ? 1 : 0; k += cur[x]; }
    if (count) *count = k;
    // edge m-1 is level 1: fold from the highest bit
    for (int i = edges - 1; i >= 0; --i) {
        std::vector<int> nx(size_t(1) << i);
        for (size_t x = 0; x < nx.size(); ++x)
            nx[x] = m.mk(Z, edges - i, std::vector<int>{cur[x], cur[x | (size_t(1) << i)]});
        cur.swap(nx);
    }
    return cur[0];
}

/** Canonical ZDD of an explicit family of edge sets. */
inline int familyOf(Canon& m, int edges, std::vector<std::vector<int> > const& sets) {
    struct Rec {
        Canon& m; int edges; std::vector<std::vector<int> > const& sets;
        int go(int i, std::vector<std::pair<int, size_t> > const& in) { // (set index, position)
            if (in.empty()) return 0;
            if (i == edges) return 1;
            std::vector<std::pair<int, size_t> > a, b;
            for (auto const& x : in) {
                std::vector<int> const& v = sets[x.first];
                if (x.second < v.size() && v[x.second] == i) b.push_back(std::make_pair(x.first, x.second + 1));
                else a.push_back(x);
            }
            int p = go(i + 1, a), q = go(i + 1, b);
            return m.mk(Z, edges - i, std::vector<int>{p, q});
        }
    } r = {m, edges, sets};
    std::vector<std::pair<int, size_t> > in;
    for (size_t i = 0; i < sets.size(); ++i) in.push_back(std::make_pair(int(i), size_t(0)));
    return r.go(0, in);
}

/** Builds a specification in a drawn way and compares the family with the expected one.
    known: the family a recorded finding (known_findings.txt) produces instead, or -1. */
template<typename Spec> void checkFamily(Src& s, Ctx& c, Canon& m, Spec const& spec, int want, int edges, char const* what, int known = -1) {
    int how = s.below(6);
    tdzdd::DdStructure<2> dd;
    if (how <= 2) dd = tdzdd::DdStructure<2>(spec);
    else if (how == 3) dd = tdzdd::DdStructure<2>(spec, true);
    else { // as a filter of all edge sets
        c.tag("as-filter");
        dd = tdzdd::DdStructure<2>(edges);
        dd.zddSubset(spec);
    }
    if (s.flip()) dd.zddReduce();
    int got = canonDd(m, dd, Z);
    if (known >= 0 && known != want) c.tag(got == known ? "known-finding" : "finding-absent");
    if (got != want && got != known) PBT_FAIL(what, ": got ", m.paths(got), " sets ", m.str(got), ", expected ", m.paths(want), " sets ", m.str(want));
}

} // namespace model
