// C21: big-number arithmetic is exact.
#include "model.hpp"
#include <tdzdd/util/BigNumber.hpp>
using namespace model;

static int wordsOf(Big const& v) { return v == 0 ? 1 : int(msb(v)) / 63 + 1; }
static Big bigU64(uint64_t x) { return Big(x); }

/** Values around word and half-word boundaries. */
static uint64_t edgeU64(Src& s) {
    switch (s.below(6)) {
    case 0: return s.below(3);
    case 1: { int k = s.below(64); return uint64_t(1) << k; }
    case 2: { int k = s.below(64); return (uint64_t(1) << k) - 1; }
    case 3: return ~uint64_t(0) - s.below(3);
    case 4: return (uint64_t(1) << 63) + s.below(5) - 2;
    default: return s.u64();
    }
}
static Big edgeBig(Src& s, int maxBits) {
    int b = s.range(0, maxBits);
    switch (s.below(5)) {
    case 0: return Big(1) << b;
    case 1: return (Big(1) << b) - 1;
    case 2: { int w = s.range(1, std::max(1, maxBits / 63)); return (Big(1) << (63 * w)) - s.below(3); }
    case 3: return Big(edgeU64(s));
    default: {
        Big v = 0;
        Rng r(s.u64());
        for (int i = 0; i < maxBits / 64 + 1; ++i) v = (v << 64) + r.next();
        return v & ((Big(1) << b) - 1);
    }
    }
}
static uint32_t edgeDivisor(Src& s) {
    switch (s.below(5)) {
    case 0: return 10;
    case 1: return s.range(1, 20);
    case 2: return ~uint32_t(0) - s.below(3);
    case 3: return (uint32_t(1) << 31) + s.below(5) - 2;
    default: { uint32_t x = s.u64(); return x ? x : 1; }
    }
}

struct Num {
    static int const CAP = 24, PAD = 4;
    std::vector<uint64_t> mem;
    tdzdd::BigNumber n;
    Big v;
    Num() : mem(PAD + CAP + PAD), v(0) {}
    void init(uint64_t seed) {
        Rng r(seed);
        for (auto& x : mem) x = r.next();
        n.setArray(&mem[PAD]);
        mem[PAD] = 0;
    }
    /** Puts a value in place, word by word (the documented layout is only assumed through add/shift below). */
    void set(Big const& x) {
        // built by Horner's rule from the library's own operations
        n.store(uint64_t(0));
        v = 0;
        std::vector<uint64_t> part;
        Big y = x;
        while (y != 0) { part.push_back(uint64_t(y & 0xffffffffu)); y >>= 32; }
        for (size_t i = part.size(); i-- > 0;) {
            n.shiftLeft(32);
            uint64_t tmp[2];
            tdzdd::BigNumber t(tmp);
            t.store(part[i]);
            n.add(t);
        }
        v = x;
    }
};

static void checkNum(Num const& a, char const* what) {
    PBT_EQ(a.n.size(), wordsOf(a.v), what, ": words in use");
    Big t = a.n.translate<Big>();
    PBT_EQ(t, a.v, what, ": value");
}

/** Runs an operation and checks that nothing outside the words in use is written. */
template<typename F> static void guarded(std::vector<Num>& pool, size_t target, char const* what, F f, int reported = -1) {
    std::vector<std::vector<uint64_t> > before;
    for (auto const& x : pool) before.push_back(x.mem);
    int oldWords = pool[target].n.size();
    long ret = f();
    int newWords = wordsOf(pool[target].v);
    if (ret >= 0) PBT_EQ(ret, long(newWords), what, ": reported words");
    for (size_t i = 0; i < pool.size(); ++i) {
        size_t lo = 0, hi = 0;
        if (i == target) { lo = Num::PAD; hi = Num::PAD + std::max(oldWords, newWords); }
        for (size_t k = 0; k < before[i].size(); ++k) if (k < lo || k >= hi)
            PBT_CHECK(pool[i].mem[k] == before[i][k], what, ": word ", long(k) - Num::PAD, " of number ", i, " changed");
    }
    checkNum(pool[target], what);
}

PROPERTY(bigHistory, 3) {
    int const CAPBITS = 63 * (Num::CAP - 1);
    int k = s.range(1, 4);
    std::vector<Num> pool(k);
    for (int i = 0; i < k; ++i) pool[i].init(s.u64());
    int steps = s.range(1, 25);
    int maxBits = 0, carries = 0;
    for (int step = 0; step < steps; ++step) {
        size_t a = s.below(k), b = s.below(k);
        Num& x = pool[a];
        Num& y = pool[b];
        switch (s.below(9)) {
        case 0: {
            uint64_t u = edgeU64(s);
            if (c.verbose) c.desc << " n" << a << "=" << u;
            x.v = u;
            guarded(pool, a, "store of an integer", [&] { return long(x.n.store(u)); });
            break;
        }
        case 1:
            if (c.verbose) c.desc << " n" << a << "=n" << b;
            x.v = Big(y.v);
            guarded(pool, a, "store", [&] { return long(x.n.store(y.n)); });
            break;
        case 2: case 3: {
            Big r = x.v + y.v;
            if (r != 0 && int(msb(r)) >= CAPBITS) break;
            if (c.verbose) c.desc << " n" << a << "+=n" << b;
            if (wordsOf(r) > std::max(wordsOf(x.v), wordsOf(y.v))) ++carries;
            x.v = r;
            guarded(pool, a, a == b ? "doubling" : "addition", [&] { return long(x.n.add(y.n)); });
            break;
        }
        case 4: {
            int sh = s.chance(1, 3) ? 63 * s.range(0, 4) + s.range(-1, 1) : s.range(0, 200);
            if (sh < 0) sh = 0;
            Big r = x.v << sh;
            if (r != 0 && int(msb(r)) >= CAPBITS) break;
            if (c.verbose) c.desc << " n" << a << "<<=" << sh;
            x.v = r;
            guarded(pool, a, "left shift", [&] { return long(x.n.shiftLeft(sh)); });
            break;
        }
        case 5: {
            uint32_t d = edgeDivisor(s);
            if (c.verbose) c.desc << " n" << a << "/=" << d;
            Big q = x.v / d, r = x.v % d;
            x.v = q;
            uint32_t got = 0;
            guarded(pool, a, "division", [&] { got = x.n.divide(d); return -1L; });
            PBT_EQ(Big(got), r, "remainder");
            break;
        }
        case 6: {
            Big v = edgeBig(s, s.range(1, CAPBITS - 2));
            if (c.verbose) c.desc << " n" << a << ":=" << v;
            x.set(v);
            checkNum(x, "assembled value");
            break;
        }
        case 7: {
            if (c.verbose) c.desc << " cmp n" << a << ",n" << b;
            PBT_EQ(x.n == y.n, x.v == y.v, "comparison of ", x.v, " and ", y.v);
            PBT_EQ(x.n != y.n, x.v != y.v, "comparison of ", x.v, " and ", y.v);
            uint64_t u = s.flip() ? edgeU64(s) : uint64_t(x.v & Big(~uint64_t(0)));
            PBT_EQ(x.n == u, x.v == bigU64(u), "comparison of ", x.v, " and ", u);
            PBT_EQ(x.n != u, x.v != bigU64(u), "comparison of ", x.v, " and ", u);
            tdzdd::BigNumber null;
            PBT_EQ(x.n == null, x.v == 0, "comparison with null of ", x.v);
            PBT_EQ(null == x.n, x.v == 0, "comparison of null with ", x.v);
            PBT_EQ(std::string(null == uint64_t(0) ? "0" : "?"), std::string("0"), "null is zero");
            PBT_EQ(null.size(), 1, "words of null");
            break;
        }
        case 8: {
            std::string t = x.n;
            PBT_EQ(t, x.v.str(), "printing");
            std::ostringstream os;
            os << x.n;
            PBT_EQ(os.str(), x.v.str(), "printing to a stream");
            checkNum(x, "printing");
            if (x.v <= Big(~uint64_t(0))) PBT_EQ(x.n.translate<uint64_t>(), uint64_t(x.v), "64-bit value");
            break;
        }
        }
        if (x.v != 0) maxBits = std::max(maxBits, int(msb(x.v)) + 1);
    }
    c.tag("carry", carries > 0);
    c.tag(maxBits > 630 ? "bits>630" : maxBits > 126 ? "bits>126" : maxBits > 63 ? "bits>63" : "bits<=63");
    c.nontrivial(steps >= 3 && maxBits > 63);
}

template<int N> static void fixedHistory(Src& s, Ctx& c) {
    int k = s.range(1, 3);
    std::vector<tdzdd::FixedBigNumber<N> > n(k);
    std::vector<Big> v(k, Big(0));
    Big const LIMIT = Big(1) << (32 * N);
    int steps = s.range(1, 60);
    Big mx = 0;
    for (int step = 0; step < steps; ++step) {
        int a = s.below(k), b = s.below(k);
        switch (s.below(7)) {
        case 0: { uint32_t u = edgeU64(s); n[a] = u; v[a] = u; if (c.verbose) c.desc << " n" << a << "=" << u; break; }
        case 1: n[a] = n[b]; v[a] = v[b]; if (c.verbose) c.desc << " n" << a << "=n" << b; break;
        case 2: case 3: {
            if (c.verbose) c.desc << " n" << a << "+=n" << b;
            Big r = v[a] + v[b];
            if (r >= LIMIT) {
                c.tag("overflow");
                tdzdd::FixedBigNumber<N> t = n[a];
                bool threw = false;
                try { t += n[b]; } catch (std::runtime_error&) { threw = true; }
                PBT_CHECK(threw, "overflow not reported for ", v[a], " + ", v[b]);
                break;
            }
            if (s.flip()) n[a] += n[b]; else n[a] = n[a] + n[b];
            v[a] = r;
            break;
        }
        case 4: {
            uint32_t d = edgeDivisor(s);
            if (c.verbose) c.desc << " n" << a << "/=" << d;
            uint32_t r = n[a].divide(d);
            PBT_EQ(Big(r), Big(v[a] % d), "remainder of ", v[a], " / ", d);
            v[a] /= d;
            break;
        }
        case 5: {
            PBT_EQ(n[a] == n[b], v[a] == v[b], "comparison");
            PBT_EQ(n[a] != n[b], v[a] != v[b], "comparison");
            uint32_t u = s.flip() ? uint32_t(edgeU64(s)) : uint32_t(v[a] & Big(0xffffffffu));
            PBT_EQ(n[a] == u, v[a] == Big(u), "comparison of ", v[a], " and ", u);
            PBT_EQ(n[a] != u, v[a] != Big(u), "comparison of ", v[a], " and ", u);
            break;
        }
        case 6: { // double it a few times
            int t = s.range(1, 40);
            while (t-- > 0 && v[a] * 2 < LIMIT) { n[a] += n[a]; v[a] *= 2; }
            if (c.verbose) c.desc << " double n" << a;
            break;
        }
        }
        PBT_EQ(n[a].template translate<Big>(), v[a], "value");
        PBT_EQ(std::string(n[a]), v[a].str(), "printing");
        if (v[a] > mx) mx = v[a];
    }
    c.nontrivial(mx > Big(0xffffffffu));
}
PROPERTY(fixed1, 1) { fixedHistory<1>(s, c); }
PROPERTY(fixed3, 1) { fixedHistory<3>(s, c); }
PROPERTY(fixed8, 1) { fixedHistory<8>(s, c); }
