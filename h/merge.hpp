/* Specifications with a merging rule over a cost-labelled automaton, and their models. */
#pragma once
#include "specs.hpp"

namespace model {

/** Automaton with a cost per transition (derived from a drawn seed). */
struct CostAuto {
    Auto a;
    uint64_t seed;
    int maxCost;
    int cost(int level, int state, int b) const {
        return int(pbt::mix(seed ^ (uint64_t(level) << 40) ^ (uint64_t(state) << 8) ^ b) % (maxCost + 1));
    }
};

struct CostState { int state; int cost; int count; };

/**
 * tie 0: states of equal cost are merged (counts added up); tie 1: the new one is discarded;
 * tie 2: the stored one is discarded.  A strictly more expensive state is discarded.
 * countRule: the transition taken also depends on the accumulated count.
 */
template<int N> struct SpecCost: public tdzdd::DdSpec<SpecCost<N>, CostState, N> {
    CostAuto const* ca;
    int tie;
    bool mergeAtTrue; // pruning also applies to accepting arrivals
    bool countRule;
    SpecCost(CostAuto const& x, int tie, bool mergeAtTrue, bool countRule) :
            ca(&x), tie(tie), mergeAtTrue(mergeAtTrue), countRule(countRule) {}
    int getRoot(CostState& s) const { s.state = ca->a.root.state; s.cost = 0; s.count = 1; return ca->a.root.level; }
    static int twist(bool countRule, int count, int b) { return countRule && count % 3 == 2 ? N - 1 - b : b; }
    int getChild(CostState& s, int level, int b) const {
        int bb = twist(countRule, s.count, b);
        To const& u = ca->a.go(level, s.state, bb);
        s.cost += ca->cost(level, s.state, bb);
        s.state = u.level > 0 ? u.state : -1;
        return u.level;
    }
    size_t hashCode(CostState const& s) const { return size_t(s.state) * 7; }
    bool equalTo(CostState const& x, CostState const& y) const { return x.state == y.state; }
    int mergeStates(CostState& s1, CostState& s2) const {
        if (s1.state == -1 && !mergeAtTrue) return 0;
        if (s1.cost > s2.cost) return 1;
        if (s1.cost < s2.cost) return 2;
        if (tie == 1) return 2;
        if (tie == 2) return 1;
        s1.count += s2.count;
        s1.count %= 1000003;
        return 0;
    }
    void printState(std::ostream& os, CostState const& s) const { os << s.state; }
};

/**
 * Model of tie rule 0: breadth-first by level; returns the canonical graph of the surviving paths
 * (rule Q).  Edges that arrive with more than the best cost are false.
 */
inline int modelKeepBest(Canon& m, CostAuto const& ca, bool mergeAtTrue, bool countRule, size_t* pruned = 0) {
    Auto const& a = ca.a;
    int const N = a.N;
    if (a.root.level <= 0) return a.root.level < 0;
    struct Info { bool reached; int best; long count; };
    std::vector<std::vector<Info> > inf(a.n + 1);
    for (int l = 1; l <= a.n; ++l) { Info z = {false, 0, 0}; inf[l].assign(a.t[l].size(), z); }
    Info r = {true, 0, 1};
    inf[a.root.level][a.root.state] = r;
    bool anyTrue = false;
    int bestTrue = 0;
    // pass 1: best cost and accumulated count per state (all arrivals of a level precede its expansion)
    struct Edge { int cost; };
    for (int l = a.root.level; l >= 1; --l) {
        for (size_t s = 0; s < a.t[l].size(); ++s) {
            if (!inf[l][s].reached) continue;
            for (int b = 0; b < N; ++b) {
                int bb = countRule && inf[l][s].count % 3 == 2 ? N - 1 - b : b;
                To const& u = a.go(l, s, bb);
                int cost = inf[l][s].best + ca.cost(l, s, bb);
                if (u.level == 0) continue;
                if (u.level < 0) {
                    if (!anyTrue || cost < bestTrue) bestTrue = cost;
                    anyTrue = true;
                    continue;
                }
                Info& x = inf[u.level][u.state];
                if (!x.reached || cost < x.best) { x.reached = true; x.best = cost; x.count = inf[l][s].count; }
                else if (cost == x.best) { x.count += inf[l][s].count; x.count %= 1000003; }
            }
        }
    }
    size_t pr = 0;
    std::vector<std::vector<int> > id(a.n + 1);
    for (int l = 1; l <= a.root.level; ++l) {
        id[l].resize(a.t[l].size(), 0);
        for (size_t s = 0; s < a.t[l].size(); ++s) {
            if (!inf[l][s].reached) continue;
            std::vector<int> k(N, 0);
            for (int b = 0; b < N; ++b) {
                int bb = countRule && inf[l][s].count % 3 == 2 ? N - 1 - b : b;
                To const& u = a.go(l, s, bb);
                int cost = inf[l][s].best + ca.cost(l, s, bb);
                if (u.level == 0) continue;
                if (u.level < 0) { if (!mergeAtTrue || cost == bestTrue) k[b] = 1; else ++pr; }
                else if (cost == inf[u.level][u.state].best) k[b] = id[u.level][u.state];
                else ++pr;
            }
            id[l][s] = m.mk(Q, l, k);
        }
    }
    if (pruned) *pruned = pr;
    return id[a.root.level][a.root.state];
}

/** Cheapest accepting path cost; returns false if there is none. */
inline bool cheapest(CostAuto const& ca, int& best) {
    Auto const& a = ca.a;
    if (a.root.level < 0) { best = 0; return true; }
    if (a.root.level == 0) return false;
    int const INF = 1 << 30;
    std::vector<std::vector<int> > d(a.n + 1);
    for (int l = 1; l <= a.n; ++l) {
        d[l].assign(a.t[l].size(), INF);
        for (size_t s = 0; s < a.t[l].size(); ++s)
            for (int b = 0; b < a.N; ++b) {
                To const& u = a.go(l, s, b);
                if (u.level == 0) continue;
                int x = u.level < 0 ? 0 : d[u.level][u.state];
                if (x < INF) d[l][s] = std::min(d[l][s], x + ca.cost(l, s, b));
            }
    }
    best = d[a.root.level][a.root.state];
    return best < INF;
}

inline CostAuto genCost(Src& s, Ctx& c, int N, Shape sh) {
    CostAuto ca;
    ca.a = genAuto(s, c, N, sh);
    ca.seed = s.u64();
    ca.maxCost = s.range(0, 4);
    return ca;
}

} // namespace model
