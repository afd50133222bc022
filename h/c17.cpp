// C17: path and cycle specifications enumerate exactly the graph's paths and cycles.
#include "ompcompat.hpp"
#include "graphs.hpp"
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
using namespace model;

/** Vertex-disjoint paths joining each pair (hamilton: through all vertices). */
static bool isPaths(G const& g, uint64_t x, int pairs, bool hamilton) {
    std::vector<int> deg(g.nv, 0);
    Uf uf(g.nv);
    for (int i = 0; i < g.m(); ++i) if (x >> i & 1) {
        ++deg[g.e[i].first];
        ++deg[g.e[i].second];
        if (!uf.join(g.e[i].first, g.e[i].second)) return false; // cycle
    }
    std::vector<int> end(pairs + 1, -1);
    for (int v = 0; v < g.nv; ++v) {
        if (g.color[v]) {
            if (deg[v] != 1) return false;
            int& r = end[g.color[v]];
            if (r < 0) r = uf.find(v);
            else if (r != uf.find(v)) return false;
        }
        else if (deg[v] != 2 && (hamilton || deg[v] != 0)) return false;
    }
    return true; // acyclic, ends are exactly the terminals, pairs match
}

static bool isCycle(G const& g, uint64_t x, bool hamilton) {
    if (x == 0) return false;
    std::vector<int> deg(g.nv, 0);
    Uf uf(g.nv);
    int closed = 0;
    for (int i = 0; i < g.m(); ++i) if (x >> i & 1) {
        ++deg[g.e[i].first];
        ++deg[g.e[i].second];
        if (!uf.join(g.e[i].first, g.e[i].second)) ++closed;
    }
    for (int v = 0; v < g.nv; ++v) if (deg[v] != 2 && (hamilton || deg[v] != 0)) return false;
    return closed == 1; // 2-regular, one component
}

static void smallGraph(Src& s, Ctx& c, int maxV, int maxE) {
    G g = genGraph(s, c, maxV, maxE);
    bool cycle = s.chance(1, 3);
    int pairs = 0;
    if (!cycle) pairs = genPairs(s, g, s.chance(1, 2) ? 1 : s.range(2, 4));
    bool hamilton = s.chance(1, 3);
    bool cleared = cycle && s.chance(1, 4);
    if (cleared) genPairs(s, g, s.range(1, 2));
    if (c.verbose) c.desc << (hamilton ? "Hamiltonian " : "") << (cycle ? "cycle " : "path ") << (cleared ? "(groups cleared) " : "") << g.str();
    tdzdd::Graph gr;
    fill(s, g, gr);
    if (cleared) { gr.clearColors(); g.color.assign(g.nv, 0); }
    PBT_EQ(int(gr.edgeSize()), g.m(), "edges");
    Canon m(2);
    long count = 0;
    int want = cycle ? familyOf(m, g.m(), [&](uint64_t x) { return isCycle(g, x, hamilton); }, &count)
                     : familyOf(m, g.m(), [&](uint64_t x) { return isPaths(g, x, pairs, hamilton); }, &count);
    int known = -1; // the recorded finding's family
    if (hamilton) known = familyOf(m, g.m(), [&](uint64_t x) { return (cycle ? isCycle(g, x, false) : isPaths(g, x, pairs, false)) && missesUnseenOnly(g, gr, x, cycle); });
    else if (pairs > 1) known = familyOf(m, g.m(), [&](uint64_t x) { return isVirtualCycle(g, x, pairs); });
    c.tag(cycle ? (hamilton ? "ham-cycle" : "cycle") : (hamilton ? "ham-path" : "path"));
    c.tag("solutions", count > 0);
    c.tag("pairs>1", pairs > 1);
    c.nontrivial(count > 0 && m.size(want) >= 2);
    bool la = s.flip();
    omp_set_num_threads(s.range(1, 3));
    if (cycle && hamilton) checkFamily(s, c, m, tdzdd::HamiltonCycleZdd(gr, la), want, g.m(), "HamiltonCycleZdd", known);
    else if (cycle) checkFamily(s, c, m, tdzdd::CycleZdd(gr, la), want, g.m(), "CycleZdd");
    else if (hamilton) checkFamily(s, c, m, tdzdd::HamiltonPathZdd(gr, la), want, g.m(), "HamiltonPathZdd", known);
    else checkFamily(s, c, m, tdzdd::PathZdd(gr, la), want, g.m(), "PathZdd");
    if (!hamilton) checkFamily(s, c, m, tdzdd::PathZddByStdMap(gr), want, g.m(), "PathZddByStdMap", known);
}

/** Larger graphs: the solutions are enumerated by backtracking. */
static void largerGraph(Src& s, Ctx& c, bool sparse = false) {
    G g = sparse ? genSparse(s, c, 40) : genGraph(s, c, 14, 24);
    std::vector<std::vector<std::pair<int, int> > > adj(g.nv);
    for (int i = 0; i < g.m(); ++i) {
        adj[g.e[i].first].push_back(std::make_pair(g.e[i].second, i));
        adj[g.e[i].second].push_back(std::make_pair(g.e[i].first, i));
    }
    bool cycle = s.chance(1, 3), hamilton = s.chance(1, 4);
    if (g.nv < 3) cycle = false;
    if (g.m() > 60) hamilton = false;
    int a = 0, b = 0;
    if (!cycle) {
        genPairs(s, g, 1);
        a = -1;
        for (int v = 0; v < g.nv; ++v) if (g.color[v]) { if (a < 0) a = v; else b = v; }
    }
    if (c.verbose) c.desc << (hamilton ? "Hamiltonian " : "") << (cycle ? "cycle " : "path ") << g.str();
    std::set<std::vector<int> > sols;
    struct Walk {
        std::vector<std::vector<std::pair<int, int> > > const& adj;
        std::set<std::vector<int> >& sols;
        std::vector<char> used;
        std::vector<int> path;
        int goal, need, start; // start >= 0: cycles through start with larger vertices only
        long steps;
        void go(int v) {
            if (++steps > 200000) return;
            for (auto const& x : adj[v]) {
                if (start >= 0) {
                    if (x.first == start && path.size() >= 2 && (!need || int(path.size()) + 1 == need)) {
                        std::vector<int> p = path;
                        p.push_back(x.second);
                        std::sort(p.begin(), p.end());
                        if (std::unique(p.begin(), p.end()) == p.end()) sols.insert(p);
                    }
                    if (x.first <= start) continue;
                }
                if (used[x.first]) continue;
                path.push_back(x.second);
                if (start < 0 && x.first == goal) {
                    if (!need || int(path.size()) + 1 == need) {
                        std::vector<int> p = path;
                        std::sort(p.begin(), p.end());
                        sols.insert(p);
                    }
                }
                else {
                    used[x.first] = 1;
                    go(x.first);
                    used[x.first] = 0;
                }
                path.pop_back();
            }
        }
    } w = {adj, sols, std::vector<char>(g.nv, 0), std::vector<int>(), b, 0, -1, 0};
    if (cycle) for (int v = 0; v < g.nv; ++v) { w.start = v; w.used.assign(g.nv, 0); w.used[v] = 1; w.path.clear(); w.go(v); }
    else { w.used[a] = 1; w.go(a); }
    if (w.steps > 200000) { c.tag("too-many"); return; }
    std::vector<std::vector<int> > all(sols.begin(), sols.end()), sets;
    for (auto const& x : all) if (!hamilton || int(x.size()) == (cycle ? g.nv : g.nv - 1)) sets.push_back(x);
    Canon m(2);
    int want = familyOf(m, g.m(), sets), known = -1;
    c.tag(cycle ? (hamilton ? "ham-cycle" : "cycle") : (hamilton ? "ham-path" : "path"));
    c.tag("solutions", !sets.empty());
    c.nontrivial(sets.size() >= 2);
    tdzdd::Graph gr;
    fill(s, g, gr);
    if (hamilton) { // the enumeration without the restriction, then the finding's condition
        std::vector<std::vector<int> > more;
        for (auto const& x : all) {
            uint64_t bits = 0;
            for (int i : x) bits |= uint64_t(1) << i;
            if (missesUnseenOnly(g, gr, bits, cycle)) more.push_back(x);
        }
        known = familyOf(m, g.m(), more);
    }
    bool la = s.flip();
    omp_set_num_threads(s.range(1, 3));
    if (cycle && hamilton) checkFamily(s, c, m, tdzdd::HamiltonCycleZdd(gr, la), want, g.m(), "HamiltonCycleZdd", known);
    else if (cycle) checkFamily(s, c, m, tdzdd::CycleZdd(gr, la), want, g.m(), "CycleZdd");
    else if (hamilton) checkFamily(s, c, m, tdzdd::HamiltonPathZdd(gr, la), want, g.m(), "HamiltonPathZdd", known);
    else checkFamily(s, c, m, tdzdd::PathZdd(gr, la), want, g.m(), "PathZdd");
    if (!hamilton && s.flip()) checkFamily(s, c, m, tdzdd::PathZddByStdMap(gr), want, g.m(), "PathZddByStdMap");
}

PROPERTY(small, 4) { smallGraph(s, c, 9, 10); }
PROPERTY(tiny, 2) { smallGraph(s, c, 6, 7); }
PROPERTY(larger, 2) { largerGraph(s, c); }
PROPERTY(sparse, -30) { largerGraph(s, c, true); }
