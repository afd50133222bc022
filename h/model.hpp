/*
 * Reference models: random automata (the meaning of a specification), hash-consed
 * canonical decision graphs with naive set operations, exact counting.
 * Nothing here uses the code under test except the adaptors at the end, which go
 * through its public interface only.
 */
#pragma once
#include <atomic>
#include <unordered_map>
#include <boost/multiprecision/cpp_int.hpp>
#include "pbt.hpp"

namespace model {

using pbt::Src;
using pbt::Ctx;
using pbt::Rng;
typedef boost::multiprecision::cpp_int Big;

enum Rule { Q, B, Z, S }; // S: plain structure, nothing deleted

struct VecHash {
    size_t operator()(std::vector<int> const& v) const {
        uint64_t h = v.size();
        for (int x : v) h = pbt::mix(h ^ uint64_t(uint32_t(x)));
        return h;
    }
};

/** Hash-consed decision graph; id 0 = false, 1 = true. Key: level, children. */
class Canon {
public:
    int const N;
    std::vector<std::vector<int> > node;
    std::unordered_map<std::vector<int>, int, VecHash> uniq;
    std::unordered_map<std::vector<int>, int, VecHash> memo;

    explicit Canon(int N) : N(N), node(2) {
        node[0] = std::vector<int>(1, 0);
        node[1] = std::vector<int>(1, 0);
    }
    int level(int f) const { return f <= 1 ? 0 : node[f][0]; }
    int kid(int f, int b) const { return node[f][b + 1]; }

    int mk(Rule r, int lev, std::vector<int> const& k) {
        bool allZero = true;
        for (int b = 0; b < N; ++b) if (k[b]) allZero = false;
        if (allZero && r != S) return 0;
        if (r == Z) {
            bool z = true;
            for (int b = 1; b < N; ++b) if (k[b]) z = false;
            if (z) return k[0];
        }
        if (r == B) {
            bool e = true;
            for (int b = 1; b < N; ++b) if (k[b] != k[0]) e = false;
            if (e) return k[0];
        }
        std::vector<int> key(1, lev);
        key.insert(key.end(), k.begin(), k.end());
        auto it = uniq.find(key);
        if (it != uniq.end()) return it->second;
        int id = node.size();
        node.push_back(key);
        uniq[key] = id;
        return id;
    }

    /** Re-normalises a graph under another rule. */
    int norm(Rule r, int f) {
        if (f <= 1) return f;
        std::vector<int> key = {100 + r, f};
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        std::vector<int> k(N);
        for (int b = 0; b < N; ++b) k[b] = norm(r, kid(f, b));
        int x = mk(r, level(f), k);
        memo[key] = x;
        return x;
    }

    /** Binary operation on two graphs of the same rule (B or Z). op: 0 and, 1 or. */
    int apply(Rule r, int op, int f, int g) {
        if (op == 0) {
            if (f == 0 || g == 0) return 0;
            if (r == B) { if (f == 1) return g; if (g == 1) return f; }
        }
        else {
            if (f == 0) return g;
            if (g == 0) return f;
            if (r == B && (f == 1 || g == 1)) return 1;
        }
        if (f == g) return f;
        std::vector<int> key = {200 + r * 2 + op, f, g};
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        int l = std::max(level(f), level(g));
        std::vector<int> k(N);
        for (int b = 0; b < N; ++b) {
            int ff = level(f) == l ? kid(f, b) : (r == Z && b > 0) ? 0 : f;
            int gg = level(g) == l ? kid(g, b) : (r == Z && b > 0) ? 0 : g;
            k[b] = apply(r, op, ff, gg);
        }
        int x = mk(r, l, k);
        memo[key] = x;
        return x;
    }

    /** ZDD over n variables -> BDD and back (same function). */
    int z2b(int f, int n) {
        if (n == 0) return f;
        std::vector<int> key = {300, f, n};
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        std::vector<int> k(N, 0);
        for (int b = 0; b < N; ++b) {
            int ff = level(f) == n ? kid(f, b) : b > 0 ? 0 : f;
            k[b] = z2b(ff, n - 1);
        }
        int x = mk(B, n, k);
        memo[key] = x;
        return x;
    }
    int b2z(int f, int n) {
        if (n == 0) return f;
        std::vector<int> key = {301, f, n};
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        std::vector<int> k(N, 0);
        for (int b = 0; b < N; ++b) {
            int ff = level(f) == n ? kid(f, b) : f;
            k[b] = b2z(ff, n - 1);
        }
        int x = mk(Z, n, k);
        memo[key] = x;
        return x;
    }

    size_t size(int f) const {
        std::vector<int> st(1, f);
        std::unordered_set<int> seen;
        while (!st.empty()) {
            int x = st.back();
            st.pop_back();
            if (x <= 1 || !seen.insert(x).second) continue;
            for (int b = 0; b < N; ++b) st.push_back(kid(x, b));
        }
        return seen.size();
    }

    /** Number of root-to-true paths (= ZDD cardinality). */
    Big paths(int f) const {
        std::unordered_map<int, Big> m;
        return paths_(f, m);
    }
    Big paths_(int f, std::unordered_map<int, Big>& m) const {
        if (f <= 1) return f;
        auto it = m.find(f);
        if (it != m.end()) return it->second;
        Big r = 0;
        for (int b = 0; b < N; ++b) r += paths_(kid(f, b), m);
        m[f] = r;
        return r;
    }
    /** Number of satisfying assignments of n variables (BDD semantics). */
    Big minterms(int f, int n) const {
        std::unordered_map<int, Big> m;
        Big r = minterms_(f, m);
        for (int i = level(f); i < n; ++i) r *= N;
        return r;
    }
    Big minterms_(int f, std::unordered_map<int, Big>& m) const { // over level(f) variables
        if (f <= 1) return f;
        auto it = m.find(f);
        if (it != m.end()) return it->second;
        Big r = 0;
        for (int b = 0; b < N; ++b) {
            Big x = minterms_(kid(f, b), m);
            for (int i = level(kid(f, b)) + 1; i < level(f); ++i) x *= N;
            r += x;
        }
        m[f] = r;
        return r;
    }

    /** Membership of an assignment a[1..n]. */
    bool eval(Rule r, int f, std::vector<int> const& a) const {
        int n = a.size() - 1;
        for (int i = n; i >= 1; --i) {
            if (level(f) == i) f = kid(f, a[i]);
            else if (r == Z && a[i] != 0) return false;
            else if (level(f) > i) return false; // cannot happen
        }
        return f == 1;
    }

    std::string str(int f) const {
        if (f <= 1) return f ? "T" : "F";
        std::ostringstream os;
        std::vector<int> st(1, f);
        std::set<int> seen;
        os << "#" << f;
        while (!st.empty() && seen.size() < 60) {
            int x = st.back();
            st.pop_back();
            if (x <= 1 || !seen.insert(x).second) continue;
            os << " #" << x << "@" << level(x) << "(";
            for (int b = 0; b < N; ++b) {
                int k = kid(x, b);
                os << (b ? "," : "");
                if (k <= 1) os << (k ? "T" : "F"); else os << "#" << k;
                st.push_back(k);
            }
            os << ")";
        }
        return os.str();
    }
};

/** Target of an automaton transition. level 0 = false, -1 = true. */
struct To { int level, state; };

/** Layered automaton: the meaning of a specification. */
struct Auto {
    int N;
    int n; // number of levels
    To root;
    std::vector<std::vector<std::vector<To> > > t; // t[level][state][value]

    Auto() : N(2), n(0) { root.level = 0; root.state = 0; }

    To const& go(int level, int state, int b) const { return t[level][state][b]; }

    /** Number of distinct reachable (level, state) pairs. */
    size_t reachable() const {
        std::set<std::pair<int, int> > seen;
        std::vector<std::pair<int, int> > st;
        if (root.level > 0) st.push_back(std::make_pair(root.level, root.state));
        while (!st.empty()) {
            std::pair<int, int> x = st.back();
            st.pop_back();
            if (!seen.insert(x).second) continue;
            for (To const& u : t[x.first][x.second])
                if (u.level > 0) st.push_back(std::make_pair(u.level, u.state));
        }
        return seen.size();
    }

    int canon(Canon& c, Rule r) const {
        if (root.level <= 0) return root.level < 0 ? 1 : 0;
        std::vector<std::vector<int> > id(n + 1);
        for (int l = 1; l <= root.level; ++l) {
            id[l].resize(t[l].size());
            for (size_t s = 0; s < t[l].size(); ++s) {
                std::vector<int> k(N);
                for (int b = 0; b < N; ++b) {
                    To const& u = t[l][s][b];
                    k[b] = u.level > 0 ? id[u.level][u.state] : u.level < 0 ? 1 : 0;
                }
                id[l][s] = c.mk(r, l, k);
            }
        }
        return id[root.level][root.state];
    }

    bool eval(Rule r, std::vector<int> const& a) const {
        To u = root;
        for (int i = int(a.size()) - 1; i >= 1; --i) {
            if (u.level == i) u = t[i][u.state][a[i]];
            else if (r == Z && a[i] != 0) return false;
        }
        return u.level < 0;
    }

    std::string str() const {
        std::ostringstream os;
        os << "arity=" << N << " root=" << tos(root);
        size_t k = 0;
        for (int l = n; l >= 1; --l) {
            for (size_t s = 0; s < t[l].size(); ++s) {
                if (++k > 80) { os << " ..."; return os.str(); }
                os << " " << l << "." << s << ":";
                for (int b = 0; b < N; ++b) os << (b ? "," : "") << tos(t[l][s][b]);
            }
        }
        return os.str();
    }
    static std::string tos(To const& u) {
        if (u.level <= 0) return u.level < 0 ? "T" : "F";
        return pbt::cat(u.level, ".", u.state);
    }
};

struct Shape {
    int maxLevels, maxWidth;
    bool allowBig; // sometimes a large pseudo-random automaton
    int bigLevels, bigWidth;
    int hugeWidth = 0; // always an automaton with some very wide levels
    int tower = 0; // if not 0, an automaton of about 2^16 to this many narrow levels
    static Shape huge(int width) { Shape x; x.hugeWidth = width; return x; }
    static Shape towers(int levels) { Shape x; x.hugeWidth = 1; x.tower = levels; return x; }
    Shape(int l = 6, int w = 4, bool big = true, int bl = 24, int bw = 60) :
            maxLevels(l), maxWidth(w), allowBig(big), bigLevels(bl), bigWidth(bw) {}
};

/** Hundreds or thousands of narrow levels. */
inline Auto genTall(Src& s, Ctx& c, int N, int maxTower = 0) {
    Auto a;
    a.N = N;
    a.n = s.pick<int>({s.range(200, 600), s.range(600, 1600), s.range(1600, 3000)});
    bool tower = maxTower > 0; // more than 2^16 levels
    if (tower) a.n = s.range(65500, maxTower);
    int maxw = s.range(1, tower ? 2 : 4), pF = s.range(0, 3), pT = s.range(0, 2), pSkip = s.range(0, 6), maxSkip = s.pick<int>({1, 10, 300, 3000}), pUniform = s.range(0, 6), pZero = s.range(0, 6);
    Rng r(s.u64());
    a.t.resize(a.n + 1);
    for (int l = 1; l <= a.n; ++l) {
        a.t[l].resize(r.range(1, maxw));
        for (size_t k = 0; k < a.t[l].size(); ++k) {
            a.t[l][k].resize(N);
            int keep = r.below(N); // this edge goes on
            for (int b = 0; b < N; ++b) {
                To u = {l - 1, 0};
                int x = r.below(60);
                if (l == 1) u.level = x < 30 ? 0 : -1;
                else if (x < pF && b != keep) u.level = 0;
                else if (x < pF + pT && b != keep) u.level = -1;
                else {
                    if (x < pF + pT + pSkip && b != keep) u.level = std::max(1, l - 1 - r.range(0, maxSkip));
                    u.state = r.below(a.t[u.level].size());
                }
                a.t[l][k][b] = u;
            }
            if (int(r.below(40)) < pUniform) for (int b = 1; b < N; ++b) a.t[l][k][b] = a.t[l][k][0];
            else if (int(r.below(40)) < pZero && a.t[l][k][0].level == l - 1) for (int b = 1; b < N; ++b) { To z = {0, 0}; a.t[l][k][b] = z; }
        }
    }
    a.root.level = a.n;
    a.root.state = 0;
    c.tag("tall");
    c.tag("over-1024-levels", a.n > 1024);
    c.tag("over-65536-levels", a.n > 65536);
    return a;
}

/** Levels that grow up to thousands of reachable states and shrink again: many blocks, rehashes and columns. */
inline Auto genHuge(Src& s, Ctx& c, int N, int maxWidth) {
    Auto a;
    a.N = N;
    if (maxWidth >= 20000 && s.chance(1, 8)) { maxWidth *= 4; c.tag("giant"); } // more than 2^16 nodes on a level
    int W = s.range(maxWidth / 8 + 1, maxWidth);
    std::vector<int> width; // from the top
    for (int w = 1; w < W; w = std::min<int>(W, w * (N > 2 ? 3 : 2) + int(s.below(2)))) width.push_back(w);
    int flat = s.range(1, 3);
    for (int k = 0; k < flat; ++k) width.push_back(W);
    int shrink = s.range(2, 9);
    for (int w = W / shrink; w > 1 && width.size() < 28; w /= shrink) width.push_back(w);
    a.n = width.size();
    a.t.resize(a.n + 1);
    int pF = s.range(0, 8), pT = s.range(0, 3), pSkip = s.range(0, 6), pUniform = s.range(0, 6), pZero = s.range(0, 6), pDead = s.flip() ? s.range(10, 70) : 0;
    size_t deadEnd = s.flip() ? 100 : W / 2; // where the dead region ends: near the bottom or under the widest levels
    Rng r(s.u64());
    for (int l = 1; l <= a.n; ++l) {
        int w = width[a.n - l], next = l > 1 ? width[a.n - l + 1] : 0;
        a.t[l].resize(w);
        for (int k = 0; k < w; ++k) {
            a.t[l][k].resize(N);
            bool dead = pDead && k % 100 < pDead && w > 100;
            for (int b = 0; b < N; ++b) {
                To u = {l - 1, 0};
                int x = r.below(next > w ? 60 + 20 * (l - 1) * N : 60); // little is cut off while the levels grow
                if (x < pF) u.level = 0;
                else if (x < pF + pT || l == 1) u.level = -1;
                else {
                    if (x < pF + pT + pSkip) u.level = 1 + r.below(l - 1);
                    size_t ww = a.t[u.level].size();
                    u.state = u.level == l - 1 && next >= w && r.below(4) ? (k * N + b) % ww : r.below(ww); // most states are reachable
                }
                if (dead) { // the dead region is closed
                    size_t ww = u.level > 0 ? a.t[u.level].size() : 0;
                    if (ww <= deadEnd) u.level = u.state = 0;
                    else { u.state = u.state / 100 * 100 + r.below(pDead); if (size_t(u.state) >= ww) u.state %= pDead; }
                }
                a.t[l][k][b] = u;
            }
            if (next > w) continue;
            if (int(r.below(40)) < pUniform) for (int b = 1; b < N; ++b) a.t[l][k][b] = a.t[l][k][0];
            else if (int(r.below(40)) < pZero) for (int b = 1; b < N; ++b) { To z = {0, 0}; a.t[l][k][b] = z; }
        }
    }
    a.root.level = a.n;
    a.root.state = 0;
    c.tag("huge");
    c.tag("over-20000-states", a.reachable() > 20000);
    return a;
}

/** Draws an automaton. Every structural choice comes from s. */
inline Auto genAuto(Src& s, Ctx& c, int N, Shape sh = Shape(), bool stateless = false) {
    if (sh.hugeWidth && !stateless) return sh.tower || s.chance(1, 3) ? genTall(s, c, N, sh.tower) : genHuge(s, c, N, sh.hugeWidth);
    Auto a;
    a.N = N;
    int mode = sh.allowBig ? int(s.below(8)) : 0; // 0..4 small, 5: wide, 6: deep with skips, 7: dead regions
    if (mode <= 4) {
        a.n = s.chance(7, 8) ? s.range(std::min(3, sh.maxLevels), sh.maxLevels) : s.range(0, sh.maxLevels);
        a.t.resize(a.n + 1);
        int pT = s.range(1, 3), pF = s.range(1, 3), pNext = s.range(0, 14), pSkip = s.range(0, 5);
        for (int l = 1; l <= a.n; ++l) {
            int w = stateless ? 1 : s.range(1, sh.maxWidth);
            a.t[l].resize(w);
            for (int k = 0; k < w; ++k) {
                a.t[l][k].resize(N);
                for (int b = 0; b < N; ++b) {
                    To u = {0, 0};
                    int total = pT + pF + (l > 1 ? pNext + pSkip : 0);
                    int x = s.below(total);
                    if (x < pF) u.level = 0;
                    else if (x < pF + pT) u.level = -1;
                    else {
                        u.level = x < pF + pT + pNext ? l - 1 : s.range(1, l - 1);
                        u.state = s.below(a.t[u.level].size());
                    }
                    a.t[l][k][b] = u;
                }
            }
        }
        int x = s.below(20);
        if (a.n == 0 || x >= 18) a.root.level = s.flip() ? -1 : 0;
        else {
            a.root.level = x >= 15 ? s.range(1, a.n) : a.n;
            a.root.state = s.below(a.t[a.root.level].size());
        }
    }
    else {
        // parameters are drawn, the table is expanded from a drawn seed
        c.tag("big");
        a.n = s.range(2, mode == 6 ? sh.bigLevels * 4 : sh.bigLevels);
        int maxw = stateless ? 1 : mode == 6 ? s.range(1, 6) : s.range(1, sh.bigWidth);
        int pT = s.range(0, 3), pF = s.range(0, 6), pSkip = s.range(0, mode == 6 ? 20 : 5), maxSkip = s.range(1, mode == 6 ? 40 : 6);
        int pDead = mode == 7 ? s.range(10, 60) : 0; // percent of states in the dead region
        int pUniform = s.range(0, 3); // nodes with equal children
        Rng r(s.u64());
        a.t.resize(a.n + 1);
        std::vector<int> dead(a.n + 1); // states >= dead[l] never reach true
        for (int l = 1; l <= a.n; ++l) {
            int w = stateless ? 1 : r.range(1, maxw);
            a.t[l].resize(w);
            dead[l] = w;
            if (pDead && w > 1) dead[l] = std::max(1, w - w * pDead / 100);
            for (int k = 0; k < w; ++k) {
                a.t[l][k].resize(N);
                bool isDead = k >= dead[l];
                for (int b = 0; b < N; ++b) {
                    To u = {0, 0};
                    int x = r.below(20);
                    if (x < pF) u.level = 0;
                    else if (x < pF + pT || l == 1) u.level = -1;
                    else {
                        u.level = l - 1;
                        if (int(r.below(25)) < pSkip) u.level = std::max(1, l - 1 - r.range(0, maxSkip));
                        u.state = r.below(a.t[u.level].size());
                        if (isDead) {
                            int d = dead[u.level], ww = a.t[u.level].size();
                            if (d < ww) u.state = d + r.below(ww - d); else u.level = 0;
                        }
                    }
                    if (isDead && u.level < 0) u.level = 0;
                    a.t[l][k][b] = u;
                }
                if (int(r.below(10)) < pUniform) for (int b = 1; b < N; ++b) a.t[l][k][b] = a.t[l][k][0];
                else if (int(r.below(10)) < pUniform) for (int b = 1; b < N; ++b) { To z = {0, 0}; a.t[l][k][b] = z; }
            }
        }
        a.root.level = a.n;
        a.root.state = r.below(a.t[a.n].size());
        if (mode == 7) a.root.state = 0;
    }
    // classification
    c.tag("terminal-root", a.root.level <= 0);
    bool skip = false;
    for (int l = 1; l <= a.n && !skip; ++l)
        for (auto const& st : a.t[l]) for (To const& u : st) if (u.level > 0 && u.level < l - 1) skip = true;
    c.tag("skips", skip);
    return a;
}

/** The same automaton with every state split into up to k copies. */
inline Auto split(Auto const& a, int k, uint64_t seed) {
    Auto r = a;
    Rng g(seed);
    r.t.assign(a.n + 1, std::vector<std::vector<To> >());
    for (int l = 1; l <= a.n; ++l) {
        size_t w = a.t[l].size();
        for (size_t x = 0; x < k * w; ++x) {
            std::vector<To> v = a.t[l][x % w];
            for (To& u : v) if (u.level > 0) u.state += a.t[u.level].size() * g.below(k);
            r.t[l].push_back(v);
        }
    }
    return r;
}

/** One changed transition. */
inline Auto mutate(Auto const& a, Src& s) {
    Auto r = a;
    if (a.n == 0 || s.chance(1, 10)) {
        int x = s.below(3);
        if (x == 0) r.root.level = 0;
        else if (x == 1) r.root.level = -1;
        else if (a.n > 0) { r.root.level = s.range(1, a.n); r.root.state = s.below(a.t[r.root.level].size()); }
        return r;
    }
    int l = s.range(1, a.n);
    int st = s.below(a.t[l].size()), b = s.below(a.N);
    To u = {0, 0};
    int x = s.below(l > 1 ? 4 : 2);
    if (x == 0) u.level = 0;
    else if (x == 1) u.level = -1;
    else { u.level = x == 2 ? l - 1 : s.range(1, l - 1); u.state = s.below(a.t[u.level].size()); }
    r.t[l][st][b] = u;
    return r;
}

/** A related automaton: several changed transitions (so that the two overlap in part). */
inline Auto relative(Auto const& a, Src& s) {
    Auto r = a;
    int k = s.range(1, 6);
    for (int i = 0; i < k; ++i) r = mutate(r, s);
    if (s.chance(1, 8)) r = split(r, 2, s.u64());
    return r;
}

/** Non-trivial: at least three reachable states and neither constant. */
inline bool interesting(Auto const& a, Canon& c) {
    int f = a.canon(c, Q);
    return f > 1 && c.size(f) >= 3;
}

/** Assignments a[1..n] of arity N; calls fn for each of the N^n. */
template<typename F> void forAll(int N, int n, F fn) {
    std::vector<int> a(n + 1, 0);
    for (;;) {
        fn(a);
        int i = 1;
        while (i <= n && a[i] == N - 1) a[i++] = 0;
        if (i > n) break;
        ++a[i];
    }
}

/** Class-typed state value with a life-cycle audit. */
struct Tracked {
    static std::atomic<long>& live() { static std::atomic<long> x(0); return x; }
    static std::atomic<long>& bad() { static std::atomic<long> x(0); return x; }
    static std::atomic<long>& made() { static std::atomic<long> x(0); return x; }
    static unsigned const OK = 0x600DF00Du, DEAD = 0xDEADBEEFu;
    unsigned magic;
    int* heap;

    Tracked() : magic(OK), heap(new int(0)) { ++live(); ++made(); }
    Tracked(int v) : magic(OK), heap(new int(v)) { ++live(); ++made(); }
    Tracked(Tracked const& o) : magic(OK), heap(new int(o.get())) { ++live(); ++made(); }
    Tracked& operator=(Tracked const& o) { int v = o.get(); if (check()) *heap = v; return *this; }
    ~Tracked() {
        if (check()) { delete heap; heap = 0; --live(); magic = DEAD; }
    }
    bool check() const { if (magic != OK) { ++bad(); return false; } return true; }
    int get() const { return check() ? *heap : 0; }
    bool operator==(Tracked const& o) const { return get() == o.get(); }
    friend std::ostream& operator<<(std::ostream& os, Tracked const& o) { return os << o.get(); }
    static void reset() { live() = 0; bad() = 0; made() = 0; }
};

/** Many paths over long distances: blocks of full branching, long skips and rejoining. */
inline Auto genDeep(Src& s, int N) {
    Auto a;
    a.N = N;
    a.n = s.flip() ? s.range(1, 150) : s.range(1, 420);
    a.t.resize(a.n + 1);
    int w = s.range(1, 4), skip = s.range(0, 6), maxSkip = s.range(1, std::max(1, a.n)), pF = s.range(0, 3), pT = s.range(0, 1);
    int stride = 1; // every edge skips the same number of levels, so that counts grow at skipping edges only
    if (s.chance(1, 4)) {
        stride = s.range(2, 7);
        a.n = s.range(1, 1000);
        a.t.resize(a.n + 1);
        if (s.flip()) skip = 0;
        if (s.flip()) pF = pT = 0;
    }
    Rng r(s.u64());
    for (int l = 1; l <= a.n; ++l) {
        a.t[l].resize(w);
        for (int k = 0; k < w; ++k) {
            a.t[l][k].resize(N);
            for (int b = 0; b < N; ++b) {
                To u = {l - stride, int(r.below(w))};
                if (int(r.below(30)) < skip) u.level = l - 1 - int(r.below(maxSkip));
                if (int(r.below(60)) < pF) u.level = 0;
                if (u.level <= 0) { u.level = (l <= stride || r.below(8)) && int(r.below(60)) >= pF ? -1 : 0; u.state = 0; }
                if (int(r.below(60)) < pT) { u.level = -1; u.state = 0; }
                a.t[l][k][b] = u;
            }
        }
    }
    a.root.level = a.n;
    a.root.state = 0;
    return a;
}

} // namespace model
