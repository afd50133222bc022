// C18: connectivity and degree specifications select exactly the right edge sets.
#include "ompcompat.hpp"
#include "graphs.hpp"
#include <tdzdd/spec/FrontierBasedSearch.hpp>
#include <tdzdd/spec/DegreeConstraint.hpp>
using namespace model;

/** Random vertex groups of any size. */
static int genGroups(Src& s, G& g) {
    int k = s.range(0, 4);
    int density = s.range(1, 3);
    int used = 0;
    if (k == 0) return 0;
    for (int v = 0; v < g.nv; ++v) if (s.chance(density, 4)) { g.color[v] = s.range(1, k); ++used; }
    return used;
}

static bool okComponents(G const& g, uint64_t x, int uec, bool noLoop) {
    Uf uf(g.nv);
    std::vector<char> touched(g.nv, 0);
    for (int i = 0; i < g.m(); ++i) if (x >> i & 1) {
        if (!uf.join(g.e[i].first, g.e[i].second) && noLoop) return false;
        touched[g.e[i].first] = touched[g.e[i].second] = 1;
    }
    std::map<int, int> rootOf; // group -> component
    std::map<int, int> groupOf; // component -> group
    for (int v = 0; v < g.nv; ++v) if (g.color[v]) {
        int r = uf.find(v), k = g.color[v];
        if (rootOf.count(k) && rootOf[k] != r) return false;
        if (groupOf.count(r) && groupOf[r] != k) return false;
        rootOf[k] = r;
        groupOf[r] = k;
    }
    if (uec >= 0) {
        std::set<int> comps;
        for (int v = 0; v < g.nv; ++v) if (touched[v] && !groupOf.count(uf.find(v))) comps.insert(uf.find(v));
        if (int(comps.size()) != uec) return false;
    }
    return true;
}

static void components(Src& s, Ctx& c, int maxV, int maxE) {
    G g = genGraph(s, c, maxV, maxE);
    int used = genGroups(s, g);
    bool cleared = used && s.chance(1, 8);
    int uec = s.chance(1, 3) ? -1 : s.range(0, 3);
    bool noLoop = s.flip(), la = s.flip();
    if (c.verbose) c.desc << "uec=" << uec << " noLoop=" << noLoop << " lookahead=" << la << (cleared ? " (groups cleared) " : " ") << g.str();
    tdzdd::Graph gr;
    fill(s, g, gr);
    if (cleared) { gr.clearColors(); g.color.assign(g.nv, 0); }
    Canon m(2);
    long count = 0;
    int want = familyOf(m, g.m(), [&](uint64_t x) { return okComponents(g, x, uec, noLoop); }, &count);
    c.tag("groups", used > 0);
    c.tag(uec < 0 ? "uec-any" : pbt::cat("uec-", uec));
    c.tag("solutions", count > 0);
    c.nontrivial(count > 0 && count < (1L << g.m()));
    omp_set_num_threads(s.range(1, 3));
    checkFamily(s, c, m, tdzdd::FrontierBasedSearch(gr, uec, noLoop, la), want, g.m(), "FrontierBasedSearch");
}

/** A user's own set of integers without bounds. */
struct Unbounded: public tdzdd::IntSubset {
    std::vector<char> in;
    explicit Unbounded(std::vector<char> const& v) : in(v) {}
    bool contains(int x) const { return x >= 0 && x < int(in.size()) && in[x]; }
};
/** A user's own set of integers. */
struct Bits: public tdzdd::IntSubset {
    unsigned bits;
    bool tight;
    Bits(unsigned b, bool t) : bits(b), tight(t) {}
    bool contains(int x) const { return x >= 0 && x < 32 && (bits >> x & 1); }
    int lowerBound() const { if (!tight || !bits) return 0; int i = 0; while (!(bits >> i & 1)) ++i; return i; }
    int upperBound() const { if (!tight) return INT_MAX; int i = 31; while (i > 0 && !(bits >> i & 1)) --i; return i; }
};

static void degrees(Src& s, Ctx& c, int maxV, int maxE) {
    G g = genGraph(s, c, maxV, maxE);
    std::vector<tdzdd::IntSubset*> pool;
    std::vector<unsigned> mask; // permitted degrees
    int k = s.range(1, 4);
    std::ostringstream d;
    for (int i = 0; i < k; ++i) {
        if (s.flip()) {
            int lo = s.range(0, 3), hi = s.chance(1, 3) ? INT_MAX : lo + s.range(0, 4), st = s.range(1, 3);
            pool.push_back(new tdzdd::IntRange(lo, hi, st));
            unsigned b = 0;
            for (int x = lo; x <= std::min(hi, 20); x += st) b |= 1u << x;
            mask.push_back(b);
            d << " range(" << lo << "," << hi << "," << st << ")";
        }
        else {
            unsigned b = s.below(32);
            bool tight = s.flip();
            if (tight) pool.push_back(new Bits(b, tight));
            else { std::vector<char> in; for (int x = 0; x < 32; ++x) in.push_back(b >> x & 1); pool.push_back(new Unbounded(in)); }
            mask.push_back(b);
            d << " bits(" << b << (tight ? ",tight)" : ")");
        }
    }
    std::vector<int> which(g.nv, -1);
    int dflt = s.chance(1, 2) ? -1 : int(s.below(k));
    for (int v = 0; v < g.nv; ++v) which[v] = dflt;
    bool la = s.flip();
    tdzdd::Graph gr;
    fill(s, g, gr);
    tdzdd::DegreeConstraint dc(gr, dflt < 0 ? 0 : pool[dflt], la);
    for (int v = 0; v < g.nv; ++v) if (s.chance(2, 3)) {
        which[v] = int(s.below(k + 1)) - 1;
        tdzdd::IntSubset const* p = which[v] < 0 ? 0 : pool[which[v]];
        if (s.flip()) dc.setConstraint(g.name[v], p);
        else dc.setConstraint(gr.getVertex(g.name[v]), p);
    }
    if (c.verbose) {
        c.desc << "lookahead=" << la << " sets" << d.str() << " of vertices";
        for (int v = 0; v < g.nv; ++v) if (which[v] >= 0) c.desc << " " << g.name[v] << ":" << which[v];
        c.desc << " " << g.str();
    }
    Canon m(2);
    long count = 0;
    int want = familyOf(m, g.m(), [&](uint64_t x) {
        std::vector<int> deg(g.nv, 0);
        for (int i = 0; i < g.m(); ++i) if (x >> i & 1) { ++deg[g.e[i].first]; ++deg[g.e[i].second]; }
        for (int v = 0; v < g.nv; ++v) if (which[v] >= 0 && !(mask[which[v]] >> deg[v] & 1)) return false;
        return true;
    }, &count);
    c.tag("solutions", count > 0);
    c.nontrivial(count > 0 && count < (1L << g.m()));
    omp_set_num_threads(s.range(1, 3));
    checkFamily(s, c, m, dc, want, g.m(), "DegreeConstraint");
    for (auto p : pool) delete p;
}

static uint64_t const P61 = (uint64_t(1) << 61) - 1;
static uint64_t mulmod(uint64_t a, uint64_t b) { return uint64_t((unsigned __int128)a * b % P61); }

/** Number of spanning trees modulo P61: determinant of a minor of the Laplacian matrix. */
static uint64_t spanningTrees(G const& g) {
    int n = g.nv - 1;
    std::vector<std::vector<uint64_t> > a(n + 1, std::vector<uint64_t>(n + 1, 0));
    for (auto const& x : g.e) {
        a[x.first][x.first] = (a[x.first][x.first] + 1) % P61;
        a[x.second][x.second] = (a[x.second][x.second] + 1) % P61;
        a[x.first][x.second] = (a[x.first][x.second] + P61 - 1) % P61;
        a[x.second][x.first] = (a[x.second][x.first] + P61 - 1) % P61;
    }
    uint64_t det = 1;
    for (int i = 0; i < n; ++i) {
        int r = i;
        while (r < n && a[r][i] == 0) ++r;
        if (r == n) return 0;
        if (r != i) { std::swap(a[r], a[i]); det = (P61 - det) % P61; }
        det = mulmod(det, a[i][i]);
        uint64_t inv = 1;
        for (uint64_t k = P61 - 2, b = a[i][i]; k; k >>= 1, b = mulmod(b, b)) if (k & 1) inv = mulmod(inv, b);
        for (int j = i + 1; j < n; ++j) if (a[j][i]) {
            uint64_t q = mulmod(a[j][i], inv);
            for (int k = i; k < n; ++k) if (a[i][k]) a[j][k] = (a[j][k] + P61 - mulmod(q, a[i][k])) % P61;
        }
    }
    return det;
}

static uint64_t modP(std::string const& dec) {
    uint64_t x = 0;
    for (char ch : dec) x = (mulmod(x, 10) + uint64_t(ch - '0')) % P61;
    return x;
}

/** Larger graphs: all vertices in one group without cycles are the spanning trees; even degrees are the cycle space. */
static void counting(Src& s, Ctx& c) {
    G g = s.flip() ? genSparse(s, c, 11) : genGraph(s, c, 14, 24);
    bool trees = s.flip(), la = s.flip();
    omp_set_num_threads(s.range(1, 3));
    if (c.verbose) c.desc << (trees ? "spanning trees" : "even degrees") << " lookahead=" << la << " ";
    bool mp = s.chance(1, 4), filter = s.chance(1, 4);
    uint64_t want;
    tdzdd::DdStructure<2> dd;
    Uf uf(g.nv);
    int comps = g.nv;
    for (auto const& x : g.e) if (uf.join(x.first, x.second)) --comps;
    if (trees) {
        g.color.assign(g.nv, 1);
        want = spanningTrees(g);
        tdzdd::Graph gr;
        fill(s, g, gr);
        tdzdd::FrontierBasedSearch spec(gr, s.flip() ? -1 : 0, true, la);
        if (filter) { dd = tdzdd::DdStructure<2>(g.m()); if (mp) dd.useMultiProcessors(true); dd.zddSubset(spec); }
        else dd = tdzdd::DdStructure<2>(spec, mp);
    }
    else {
        want = 1;
        for (int i = g.m() - g.nv + comps; i > 0; --i) want = mulmod(want, 2);
        tdzdd::Graph gr;
        fill(s, g, gr);
        tdzdd::IntRange even(0, s.flip() ? INT_MAX : 1000, 2);
        tdzdd::DegreeConstraint spec(gr, &even, la);
        if (filter) { dd = tdzdd::DdStructure<2>(g.m()); if (mp) dd.useMultiProcessors(true); dd.zddSubset(spec); }
        else dd = tdzdd::DdStructure<2>(spec, mp);
    }
    if (c.verbose) c.desc << g.str();
    c.tag(trees ? "spanning-trees" : "even-degrees");
    c.nontrivial(want > 1);
    std::string got = dd.zddCardinality();
    PBT_EQ(modP(got), want, trees ? "number of spanning trees" : "number of even edge sets", " (", got, ")");
}

PROPERTY(components, 4) { components(s, c, 9, 10); }
PROPERTY(tinyComponents, 3) { components(s, c, 6, 8); }
PROPERTY(degrees, 3) { degrees(s, c, 8, 10); }
PROPERTY(bigComponents, 1) { components(s, c, 12, 13); }
PROPERTY(bigDegrees, 1) { degrees(s, c, 11, 13); }
PROPERTY(counts, -20) { counting(s, c); }
