// C19: size and linear constraints accept exactly the vectors that satisfy them.
#include "ompcompat.hpp"
#include "graphs.hpp"
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/spec/LinearConstraints.hpp>
using namespace model;

/** A user's own set of integers without bounds. */
struct Unbounded: public tdzdd::IntSubset {
    std::vector<char> in;
    explicit Unbounded(std::vector<char> const& v) : in(v) {}
    bool contains(int x) const { return x >= 0 && x < int(in.size()) && in[x]; }
};
/** A user's own set of integers. */
struct Bits: public tdzdd::IntSubset {
    std::vector<char> in;
    bool lower, upper;
    Bits(std::vector<char> const& v, bool l, bool u) : in(v), lower(l), upper(u) {}
    bool contains(int x) const { return x >= 0 && x < int(in.size()) && in[x]; }
    int lowerBound() const { int i = 0; if (lower) while (i < int(in.size()) && !in[i]) ++i; return i; }
    int upperBound() const { if (!upper) return INT_MAX; int i = int(in.size()) - 1; while (i > 0 && !in[i]) --i; return std::max(i, 0); }
};

static void sizeSets(Src& s, Ctx& c, bool large = false) {
    int n = large ? s.range(120, 400) : s.skew(1, 60);
    std::vector<char> in(n + 1, 0);
    tdzdd::IntSubset* sub = 0;
    std::ostringstream d;
    int kind = s.below(3);
    if (kind == 0) {
        int lo = s.range(0, n + 2), hi = s.chance(1, 4) ? INT_MAX : lo + s.range(0, 8), st = s.range(1, 4);
        if (s.chance(1, 10)) lo = -s.range(0, 5);
        sub = new tdzdd::IntRange(lo, hi, st);
        for (int x = 0; x <= n; ++x) in[x] = x >= lo && x <= hi && (x - lo) % st == 0;
        d << "range(" << lo << "," << hi << "," << st << ")";
    }
    else if (kind == 1) {
        bool l = s.flip(), u = s.flip();
        int p = s.range(0, 4);
        for (int x = 0; x <= n; ++x) in[x] = s.chance(p, 6);
        if (!l && !u) sub = new Unbounded(in); else sub = new Bits(in, l, u);
        d << "set{";
        for (int x = 0; x <= n; ++x) if (in[x]) d << x << " ";
        d << "}" << l << u;
    }
    else { in.assign(n + 1, 1); d << "none"; }
    if (c.verbose) c.desc << "n=" << n << " " << d.str();
    // model: (level, count) recursion
    Canon m(2);
    std::vector<int> cur(n + 1);
    for (int x = 0; x <= n; ++x) cur[x] = in[x];
    for (int l = 1; l <= n; ++l) {
        std::vector<int> nx(n + 1 - l);
        for (int x = 0; x + l <= n; ++x) nx[x] = m.mk(Z, l, std::vector<int>{cur[x], cur[x + 1]});
        cur.swap(nx);
    }
    int want = cur[0];
    c.nontrivial(n >= 3 && m.size(want) >= 3);
    c.tag(kind == 0 ? "range" : kind == 1 ? "set" : "no-constraint");
    c.tag("empty-family", want == 0);
    omp_set_num_threads(s.range(1, 3));
    if (sub && s.flip()) checkFamily(s, c, m, tdzdd::SizeConstraint(n, *sub), want, n, "SizeConstraint");
    else checkFamily(s, c, m, tdzdd::SizeConstraint(n, sub), want, n, "SizeConstraint");
    delete sub;
}

template<typename T> struct Row { std::map<int, T> w; T lb, ub; };

template<typename T> static T weight(Src& s, int mag);
template<> int weight<int>(Src& s, int mag) { return s.range(-mag, mag); }
template<> int64_t weight<int64_t>(Src& s, int mag) { return int64_t(s.range(-mag, mag)) << (mag > 40 ? 36 : 0); }
template<> short weight<short>(Src& s, int mag) { return s.range(-mag, mag); }
template<> double weight<double>(Src& s, int mag) { return s.range(-mag * 4, mag * 4) / 4.0; }

template<typename T> static void linear(Src& s, Ctx& c, int maxN) {
    int n = s.range(1, maxN);
    int k = s.range(0, 5);
    std::vector<Row<T> > rows;
    int sign = s.below(4); // 0 positive, 1 negative, 2,3 mixed
    for (int j = 0; j < k; ++j) {
        Row<T> r;
        static int const mags[] = {1, 2, 5, 100};
        int mag = mags[s.below(4)];
        int lo = 1, hi = n;
        if (s.chance(1, 3)) { lo = s.range(1, n); hi = s.range(lo, n); }
        int p = s.range(1, 4);
        T mn = 0, mx = 0;
        for (int i = lo; i <= hi; ++i) if (s.chance(p, 4)) {
            T w = weight<T>(s, mag);
            if (sign == 0 && w < 0) w = -w;
            if (sign == 1 && w > 0) w = -w;
            r.w[i] = w;
            (w > 0 ? mx : mn) += w;
        }
        // bounds: near sums that some assignment attains
        T a = 0, b = 0;
        Rng g(s.u64());
        for (auto const& x : r.w) { if (g.below(2)) a += x.second; if (g.below(2)) b += x.second; }
        if (s.chance(1, 6)) a += weight<T>(s, 2);
        if (s.chance(1, 6)) b += weight<T>(s, 2);
        r.lb = std::min(a, b);
        r.ub = std::max(a, b);
        int shape = s.below(8);
        if (shape == 0) r.ub = r.lb; // equation
        else if (shape == 1) r.lb = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); // at most
        else if (shape == 2) r.ub = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); // at least
        else if (shape == 3 && s.chance(1, 4)) std::swap(r.lb, r.ub);
        rows.push_back(r);
    }
    tdzdd::LinearConstraints<T> spec(n);
    for (auto const& r : rows) spec.addConstraint(r.w, r.lb, r.ub);
    spec.update();
    if (c.verbose) {
        c.desc << "n=" << n;
        for (auto const& r : rows) {
            c.desc << " [" << r.lb << " <=";
            for (auto const& x : r.w) c.desc << " " << x.second << "*x" << x.first;
            c.desc << " <= " << r.ub << "]";
        }
    }
    Canon m(2);
    long count = 0;
    int want = familyOf(m, n, [&](uint64_t x) {
        for (auto const& r : rows) {
            long double v = 0;
            for (auto const& y : r.w) if (x >> (n - y.first) & 1) v += y.second;
            if (v < (long double)(r.lb) || (long double)(r.ub) < v) return false;
        }
        return true;
    }, &count);
    c.tag("empty-family", count == 0);
    c.tag("everything", count == 1L << n);
    c.tag("rows>=2", k >= 2);
    c.nontrivial(count > 0 && count < (1L << n) && n >= 3);
    omp_set_num_threads(s.range(1, 3));
    if (s.chance(1, 4)) { // as a BDD: no level is skipped, so the function is the same
        c.tag("as-bdd");
        tdzdd::DdStructure<2> dd(spec);
        dd.bddReduce();
        PBT_EQ(std::string(dd.bddCardinality(n)), pbt::cat(count), "assignments of the BDD");
        int got = canonDd(m, dd, B);
        int w = m.z2b(want, n);
        if (got != w) PBT_FAIL("LinearConstraints as a BDD: got ", m.str(got), ", expected ", m.str(w));
    }
    else checkFamily(s, c, m, spec, want, n, "LinearConstraints");
}

/** Many variables: the family is made level by level from the partial sums. */
static void linearLarge(Src& s, Ctx& c) {
    int n = s.range(15, 45), k = s.range(1, 2);
    std::vector<Row<int> > rows;
    for (int j = 0; j < k; ++j) {
        Row<int> r;
        int mag = s.range(1, 4), lo = s.flip() ? 1 : s.range(1, n), hi = s.flip() ? n : s.range(lo, n), a = 0, b = 0;
        Rng g(s.u64());
        for (int i = lo; i <= hi; ++i) if (g.below(3)) {
            r.w[i] = g.range(-mag, mag);
            if (g.below(2)) a += r.w[i];
            if (g.below(2)) b += r.w[i];
        }
        r.lb = std::min(a, b);
        r.ub = std::max(a, b);
        if (s.chance(1, 4)) r.ub = r.lb;
        rows.push_back(r);
    }
    tdzdd::LinearConstraints<int> spec(n);
    for (auto const& r : rows) spec.addConstraint(r.w, r.lb, r.ub);
    spec.update();
    if (c.verbose) {
        c.desc << "n=" << n;
        for (auto const& r : rows) {
            c.desc << " [" << r.lb << " <=";
            for (auto const& x : r.w) c.desc << " " << x.second << "*x" << x.first;
            c.desc << " <= " << r.ub << "]";
        }
    }
    Canon m(2);
    std::map<std::pair<int, std::vector<int> >, int> memo;
    struct Rec {
        Canon& m; std::vector<Row<int> > const& rows;
        std::map<std::pair<int, std::vector<int> >, int>& memo;
        int go(int level, std::vector<int> const& sum) {
            if (level == 0) {
                for (size_t j = 0; j < rows.size(); ++j) if (sum[j] < rows[j].lb || rows[j].ub < sum[j]) return 0;
                return 1;
            }
            auto key = std::make_pair(level, sum);
            auto it = memo.find(key);
            if (it != memo.end()) return it->second;
            std::vector<int> with = sum;
            for (size_t j = 0; j < rows.size(); ++j) { auto w = rows[j].w.find(level); if (w != rows[j].w.end()) with[j] += w->second; }
            int p = go(level - 1, sum), q = go(level - 1, with);
            return memo[key] = m.mk(Z, level, std::vector<int>{p, q});
        }
    } rec = {m, rows, memo};
    int want = rec.go(n, std::vector<int>(k, 0));
    c.tag("empty-family", want == 0);
    c.nontrivial(m.size(want) >= 20);
    omp_set_num_threads(s.range(1, 3));
    checkFamily(s, c, m, spec, want, n, "LinearConstraints");
}

#if PART == 0
PROPERTY(sizes, 2) { sizeSets(s, c); }
PROPERTY(sizesLarge, -1000) { sizeSets(s, c, true); }
PROPERTY(linearMany, -100) { linearLarge(s, c); }
PROPERTY(linearInt, 4) { linear<int>(s, c, 9); }
PROPERTY(linearIntBig, 1) { linear<int>(s, c, 13); }
#else
PROPERTY(linearDouble, 2) { linear<double>(s, c, 9); }
PROPERTY(linearLong, 1) { linear<int64_t>(s, c, 9); }
PROPERTY(linearShort, 1) { linear<short>(s, c, 8); }
#endif
