// C22: container utilities behave like their mathematical models.
#include <memory>
#include <stdexcept>
#include <ostream>
#include <sstream>
#include <algorithm>
#include <cstring>
#include <list>
#include <map>
#include <set>
#include "pbt.hpp"
#include "leak.hpp"
#include <tdzdd/util/MyVector.hpp>
#include <tdzdd/util/MemoryPool.hpp>
#include <tdzdd/util/MyList.hpp>
#include <tdzdd/util/MyHashTable.hpp>
#include <tdzdd/util/MySet.hpp>
#include <tdzdd/dd/DataTable.hpp>
using namespace pbt;
using tdzdd::MyVector;
using tdzdd::MemoryPool;

/** Element whose life cycle is audited. */
struct El {
    El* self;
    int v;
    static long& alive() { static long n = 0; return n; }
    static std::string& error() { static std::string e; return e; }
    void ok(char const* what) const { if (self != this && error().empty()) error() = cat("dead element used: ", what); }
    El() : self(this), v(0) { ++alive(); }
    El(int v) : self(this), v(v) { ++alive(); }
    El(El const& o) : self(this), v(o.v) { o.ok("copied"); ++alive(); }
    El& operator=(El const& o) { ok("assigned to"); o.ok("assigned from"); v = o.v; return *this; }
    ~El() { ok("destroyed"); self = 0; --alive(); }
    bool operator==(El const& o) const { ok("compared"); o.ok("compared"); return v == o.v; }
    bool operator<(El const& o) const { return v < o.v; }
    size_t hash() const { return size_t(v) * 7919; }
    friend std::ostream& operator<<(std::ostream& os, El const& o) { return os << o.v; }
    operator int() const { ok("read"); return v; }
};
static void resetEl() { El::alive() = 0; El::error().clear(); }
static void checkEl(long n, char const* what) {
    PBT_CHECK(El::error().empty(), what, ": ", El::error());
    PBT_EQ(El::alive(), n, what, ": live elements");
}
struct Plain {  // trivially copied element with hash()
    int v;
    Plain() : v(0) {}
    Plain(int v) : v(v) {}
    operator int() const { return v; }
    bool operator==(Plain const& o) const { return v == o.v; }
    size_t hash() const { return v; }
    friend std::ostream& operator<<(std::ostream& os, Plain const& o) { return os << o.v; }
};
typedef std::vector<int> Ints;
static std::string show(Ints const& m, char const* l, char const* sep, char const* r) {
    std::string t = l;
    for (size_t i = 0; i < m.size(); ++i) { if (i) t += sep; t += std::to_string(m[i]); }
    return t + r;
}

template<typename V> static void sameVector(V const& a, Ints const& m, char const* what) {
    PBT_EQ(size_t(a.size()), m.size(), what, ": size");
    PBT_EQ(a.empty(), m.empty(), what, ": emptiness");
    PBT_CHECK(size_t(a.capacity()) >= m.size(), what, ": capacity");
    for (size_t i = 0; i < m.size(); ++i) PBT_EQ(int(a[i]), m[i], what, ": element ", i, " of ", m.size());
}
template<typename T, typename Size> static void vectorHistory(Src& s, Ctx& c, bool audited) {
    typedef MyVector<T, Size> V;
    resetEl();
    long before = heapBalance();
    int steps = s.range(1, 40), ops = 0;
    size_t most = 0;
    {
        int k = s.range(1, 3);
        std::vector<V> a(k);
        std::vector<Ints> m(k);
        int maxN = s.pick<int>({4, 12, 40});
        for (int step = 0; step < steps; ++step) {
            int i = s.below(k), j = s.below(k);
            char const* what = "";
            int val = s.range(1, 99);
            switch (s.below(16)) {
            case 0: case 1: case 2:
                what = "push_back";
                a[i].push_back(T(val)); m[i].push_back(val);
                break;
            case 3: {
                if (m[i].empty()) continue;
                what = "push_back of an element of the array";
                size_t p = s.below(m[i].size());
                int v = m[i][p];
                a[i].push_back(a[i][p]); m[i].push_back(v);
                break;
            }
            case 4:
                what = "pop_back";
                a[i].pop_back(); if (!m[i].empty()) m[i].pop_back();
                break;
            case 5: { int n = s.range(0, maxN); what = "resize"; a[i].resize(n); m[i].resize(n); break; }
            case 6: { int n = s.range(0, maxN); what = "init"; a[i].init(n); m[i].assign(n, 0); break; }
            case 7: { int n = s.range(0, maxN); what = "reserve"; a[i].reserve(n); PBT_CHECK(size_t(a[i].capacity()) >= size_t(n), "reserve"); break; }
            case 8: what = "clear"; a[i].clear(); m[i].clear(); break;
            case 9: {
                what = "copy";
                V b(a[i]);
                sameVector(b, m[i], "copy");
                PBT_CHECK(b == a[i] && a[i] == b, "a copy equals its original");
                PBT_EQ(b.hash(), a[i].hash(), "a copy hashes like its original");
                if (!m[i].empty()) { size_t p = s.below(m[i].size()); b[p] = T(val + 1000); PBT_CHECK(!(b == a[i]), "different elements"); }
                break;
            }
            case 10: what = i == j ? "self-assignment" : "assignment"; a[i] = *&a[j]; m[i] = Ints(m[j]); break;
            case 11: {
                what = "conversion from std::vector";
                Ints t(s.range(0, 6));
                for (auto& x : t) x = s.range(1, 99);
                if (s.chance(1, 4)) {
                    what = "construction with a size";
                    int n = s.range(0, maxN);
                    V b = V(Size(n), T(val)), d = V(Size(n));
                    sameVector(b, Ints(n, val), "construction with a size and a value");
                    sameVector(d, Ints(n, 0), "construction with a size");
                    a[i].swap(b); m[i] = Ints(n, val);
                }
                else if (s.flip()) { a[i] = t; m[i] = t; }
                else { V b(t); sameVector(b, t, "construction from std::vector"); a[i].swap(b); m[i] = t; }
                break;
            }
            case 12: what = "swap"; a[i].swap(a[j]); std::swap(m[i], m[j]); break;
            case 13: {
                what = "erase of a range";
                size_t p = s.below(m[i].size() + 1), q = s.below(m[i].size() + 1);
                if (p > q) std::swap(p, q);
                T* r = a[i].erase(a[i].begin() + p, a[i].begin() + q);
                m[i].erase(m[i].begin() + p, m[i].begin() + q);
                PBT_EQ(size_t(r - a[i].begin()), p, "returned position");
                break;
            }
            case 14: {
                if (m[i].empty()) continue;
                what = "erase of an element";
                size_t p = s.below(m[i].size());
                T* r = a[i].erase(a[i].begin() + p);
                m[i].erase(m[i].begin() + p);
                PBT_EQ(size_t(r - a[i].begin()), p, "returned position");
                break;
            }
            default: {
                what = "reading";
                if (!m[i].empty()) {
                    size_t p = s.below(m[i].size());
                    a[i][p] = T(val); m[i][p] = val;
                    PBT_EQ(int(a[i].back()), m[i].back(), "last element");
                    PBT_EQ(int(const_cast<V const&>(a[i]).back()), m[i].back(), "last element");
                    PBT_EQ(a[i].data(), a[i].begin(), "data");
                }
                Ints f, r, cf, cr;
                for (auto& x : a[i]) f.push_back(x);
                V const& ca = a[i];
                for (auto& x : ca) cf.push_back(x);
                for (auto t = a[i].rbegin(); t != a[i].rend(); ++t) r.push_back(*t);
                for (auto t = ca.rbegin(); t != ca.rend(); ++t) cr.push_back(*t);
                Ints rm(m[i].rbegin(), m[i].rend());
                PBT_CHECK(f == m[i] && cf == m[i], "forward iteration");
                PBT_CHECK(r == rm && cr == rm, "backward iteration");
                std::ostringstream os;
                os << a[i];
                PBT_EQ(os.str(), show(m[i], "(", ",", ")"), "printing");
                PBT_EQ(a[i] == a[j], m[i] == m[j], "comparison");
                V b(Size(s.range(0, 5)), T(val));
                for (size_t p = 0; p < size_t(b.size()); ++p) PBT_EQ(int(b[p]), val, "filled construction");
                V d(Size(s.range(0, 5)));
                for (size_t p = 0; p < size_t(d.size()); ++p) PBT_EQ(int(d[p]), 0, "sized construction");
            }
            }
            ++ops;
            if (c.verbose) c.desc << " " << i << "." << what << "(" << j << "," << val << ")";
            long total = 0;
            for (int q = 0; q < k; ++q) { sameVector(a[q], m[q], what); total += m[q].size(); most = std::max(most, m[q].size()); }
            if (audited) checkEl(total, what);
        }
    }
    if (audited) checkEl(0, "end of life");
    if (!c.verbose) PBT_EQ(long(heapBalance()), before, "allocations left behind");
    if (most >= 3 && ops >= 3) c.nontrivial();
    c.tag(audited ? "vector-class" : "vector-plain");
}
PROPERTY(vectorHistories, 4) {
    switch (s.below(3)) {
    case 0: vectorHistory<El, size_t>(s, c, true); break;
    case 1: vectorHistory<El, int>(s, c, true); break;
    default: vectorHistory<Plain, size_t>(s, c, false); break;
    }
}

PROPERTY(tableHistories, 2) {
    typedef tdzdd::DataTable<El> T;
    resetEl();
    long before = heapBalance();
    int steps = s.range(1, 40), ops = 0;
    size_t most = 0;
    {
        int k = s.range(1, 3);
        std::vector<T> a(k);
        std::vector<std::vector<Ints> > m(k);
        for (int step = 0; step < steps; ++step) {
            int i = s.below(k), j = s.below(k);
            int rows = m[i].size();
            char const* what = "";
            switch (s.below(8)) {
            case 0: { int n = s.range(0, 6); what = "init"; a[i].init(n); m[i].assign(n, Ints()); break; }
            case 1: { int n = s.range(0, 9); what = "setNumRows"; a[i].setNumRows(n); m[i].resize(n); break; }
            case 2: { if (!rows) continue; int r = s.below(rows), n = s.range(0, 9); what = "initRow"; a[i].initRow(r, n); m[i][r].assign(n, 0); break; }
            case 3: case 4: case 5: {
                if (!rows) continue;
                what = "addColumn";
                int r = s.below(rows), v = s.range(1, 99);
                size_t col = a[i].addColumn(r);
                m[i][r].push_back(0);
                PBT_EQ(col, m[i][r].size() - 1, "new column");
                PBT_EQ(int(a[i][r][col]), 0, "new element");
                a[i][r][col] = El(v); m[i][r][col] = v;
                break;
            }
            case 6: what = "assignment"; a[i] = *&a[j]; m[i] = std::vector<Ints>(m[j]); break;
            default: { what = "copy"; T b(a[j]); a[i] = b; m[i] = std::vector<Ints>(m[j]); std::ostringstream os; os << b;
                std::string e;
                for (size_t r = 0; r < m[j].size(); ++r) e += cat(r, ": ", show(m[j][r], "", ", ", ""), "\n");
                PBT_EQ(os.str(), e, "printing");
                break; }
            }
            ++ops;
            if (c.verbose) c.desc << " " << i << "." << what << "(" << j << ")";
            long total = 0;
            for (int q = 0; q < k; ++q) {
                PBT_EQ(a[q].numRows(), int(m[q].size()), what, ": rows");
                size_t t = 0;
                for (size_t r = 0; r < m[q].size(); ++r) { sameVector(a[q][r], m[q][r], what); t += m[q][r].size(); }
                PBT_EQ(a[q].totalSize(), t, what, ": total size");
                most = std::max(most, t);
                total += t;
            }
            checkEl(total, what);
        }
    }
    checkEl(0, "end of life");
    if (!c.verbose) PBT_EQ(long(heapBalance()), before, "allocations left behind");
    if (most >= 3 && ops >= 3) c.nontrivial();
    c.tag("table");
}

/** Elements are blocks of bytes with a pattern. */
template<int SZ> struct Blob { unsigned char b[SZ]; friend std::ostream& operator<<(std::ostream& os, Blob const& o) { return os << int(o.b[0]); } };
static void paint(void* p, size_t n, uint64_t seed) { unsigned char* q = static_cast<unsigned char*>(p); for (size_t i = 0; i < n; ++i) q[i] = (unsigned char)(seed + i * 37 + (i >> 8)); }
static bool painted(void const* p, size_t n, uint64_t seed) { unsigned char const* q = static_cast<unsigned char const*>(p); for (size_t i = 0; i < n; ++i) if (q[i] != (unsigned char)(seed + i * 37 + (i >> 8))) return false; return true; }
struct Piece { size_t n; uint64_t seed; void const* p; };

template<typename L> static void sameList(L& l, std::list<Piece> const& m, char const* what) {
    PBT_EQ(l.size(), m.size(), what, ": size");
    PBT_EQ(l.empty(), m.empty(), what, ": emptiness");
    auto t = l.begin();
    L const& cl = l;
    auto ct = cl.begin();
    size_t k = 0;
    for (auto const& e : m) {
        PBT_CHECK(t != l.end() && ct != cl.end(), what, ": iteration ends early at ", k);
        PBT_CHECK(static_cast<void const*>(*t) == e.p, what, ": element ", k, " moved");
        PBT_CHECK(static_cast<void const*>(*ct) == e.p, what, ": const element ", k, " moved");
        PBT_CHECK(painted(e.p, e.n, e.seed), what, ": element ", k, " was overwritten");
        ++t, ++ct, ++k;
    }
    PBT_CHECK(t == l.end() && ct == cl.end(), what, ": iteration does not end");
    if (!m.empty()) {
        PBT_CHECK(static_cast<void const*>(l.front()) == m.front().p, what, ": front");
        PBT_CHECK(static_cast<void const*>(cl.front()) == m.front().p, what, ": front");
    }
    std::string e = "(";
    for (auto const& x : m) { if (e.size() > 1) e += ","; e += std::to_string(int(*static_cast<unsigned char const*>(x.p))); }
    std::ostringstream os;
    os << cl;
    PBT_EQ(os.str(), e + ")", what, ": printing");
}
template<typename T, size_t BLOCK> static void listHistory(Src& s, Ctx& c) {
    long before = heapBalance();
    size_t most = 0;
    int ops = 0;
    {
        tdzdd::MyList<T, BLOCK> l;
        std::list<Piece> m;
        int steps = s.range(1, 60);
        bool varied = s.flip();
        for (int step = 0; step < steps; ++step) {
            char const* what = "";
            switch (s.below(10)) {
            case 0: case 1: case 2: case 3: case 4: case 5: {
                what = "alloc_front";
                size_t n = varied ? s.range(1, 5) : 1;
                uint64_t seed = s.u64();
                void* p = n == 1 && s.flip() ? l.alloc_front() : l.alloc_front(n);
                PBT_EQ(reinterpret_cast<size_t>(p) % sizeof(void*), size_t(0), "alignment");
                paint(p, n * sizeof(T), seed);
                m.push_front(Piece{n * sizeof(T), seed, p});
                break;
            }
            case 6: case 7: case 8:
                if (m.empty()) continue;
                what = "pop_front";
                l.pop_front(); m.pop_front();
                break;
            default:
                if (!s.chance(1, 4)) continue;
                what = "clear";
                l.clear(); m.clear();
            }
            ++ops;
            most = std::max(most, m.size());
            if (c.verbose) c.desc << " " << what;
            sameList(l, m, what);
        }
        if (m.empty()) { tdzdd::MyList<T, BLOCK> b(l); b = l; PBT_CHECK(b.empty(), "copy of an empty list"); }
    }
    if (!c.verbose) PBT_EQ(long(heapBalance()), before, "allocations left behind");
    if (most >= 3) c.nontrivial();
    c.tag(cat("list-block", BLOCK, most > BLOCK ? "-several" : ""));
}
PROPERTY(listHistories, 2) {
    switch (s.below(4)) {
    case 0: listHistory<Blob<1>, 3>(s, c); break;
    case 1: listHistory<Blob<24>, 2>(s, c); break;
    case 2: listHistory<Blob<8>, 4>(s, c); break;
    default: listHistory<Blob<9>, 1000>(s, c); break;
    }
}

PROPERTY(poolHistories, 4) {
    // several pools; every block handed out stays intact and disjoint until its pool is cleared
    long before = heapBalance();
    int ops = 0, joins = 0, big = 0;
    size_t most = 0;
    {
        int k = s.range(1, 3);
        std::unique_ptr<tdzdd::MemoryPools> pools(new tdzdd::MemoryPools(k));
        std::vector<std::vector<Piece> > m(k);
        // a list on the last pool
        tdzdd::MyListOnPool<Blob<10> > list;
        std::list<Piece> lm;
        int steps = s.range(1, 50);
        bool fillers = s.chance(1, 3);
        for (int step = 0; step < steps; ++step) {
            int i = s.below(pools->size()), j = s.below(pools->size());
            MemoryPool& pool = (*pools)[i];
            char const* what = "";
            switch (s.below(14)) {
            case 0: case 1: case 2: case 3: case 4: {
                what = "alloc";
                size_t n;
                switch (s.below(fillers ? 5 : 4)) {
                case 0: n = s.range(1, 9); break;
                case 1: n = s.range(1, 100); break;
                case 2: n = 40000 + s.range(-20, 20); break;
                case 3: n = s.pick<size_t>({1, 8, 39999, 40000, 40001, 50000, 399990, 400000, 500000}); break;
                default: n = s.range(30000, 40000); break;
                }
                if (n > 40000) ++big;
                uint64_t seed = s.u64();
                void* p = s.flip() ? pool.alloc(n) : pool.allocate<char>(n);
                PBT_EQ(reinterpret_cast<size_t>(p) % sizeof(void*), size_t(0), "alignment");
                paint(p, n, seed);
                m[i].push_back(Piece{n, seed, p});
                break;
            }
            case 5: {
                what = "typed allocation";
                size_t n = s.range(1, 6);
                uint64_t seed = s.u64();
                void* p = s.flip() ? static_cast<void*>(pool.allocate<Blob<12> >(n)) : static_cast<void*>(pool.allocator<Blob<12> >().allocate(n));
                paint(p, 12 * n, seed);
                m[i].push_back(Piece{12 * n, seed, p});
                break;
            }
            case 6: {
                if (i != k - 1) continue;
                what = "list on the pool";
                if (s.chance(1, 3) && !lm.empty()) { list.pop_front(); lm.pop_front(); }
                else if (s.chance(1, 10)) { list.clear(); lm.clear(); }
                else {
                    size_t n = s.range(1, 3);
                    uint64_t seed = s.u64();
                    void* p = list.alloc_front(pool, n);
                    paint(p, 10 * n, seed);
                    lm.push_front(Piece{10 * n, seed, p});
                }
                break;
            }
            case 7: what = "clear"; if (!s.chance(1, 3)) continue; pool.clear(); m[i].clear(); if (i == k - 1) { list.clear(); lm.clear(); }
                PBT_CHECK(pool.empty(), "cleared pool"); break;
            case 8: what = "reuse"; if (!s.chance(1, 2)) continue; pool.reuse(); m[i].clear(); if (i == k - 1) { list.clear(); lm.clear(); } break;
            case 9: case 10:
                if (i == j || j == k - 1) continue;
                what = "splice";
                pool.splice((*pools)[j]);
                m[i].insert(m[i].end(), m[j].begin(), m[j].end());
                m[j].clear();
                PBT_CHECK((*pools)[j].empty(), "spliced pool");
                ++joins;
                break;
            case 11:
                if (i == j || j == k - 1 || !pool.empty() || !m[i].empty()) continue;
                what = "moveFrom";
                pool.moveFrom((*pools)[j]);
                m[i].swap(m[j]);
                PBT_CHECK((*pools)[j].empty(), "moved pool");
                break;
            case 12:
                what = "growth of the collection";
                pools->reserve(pools->size() + s.range(1, 3));
                break;
            default: {
                what = "standard container on the pool";
                // lives only while the pool does not change hands
                typedef MemoryPool::Allocator<int> A;
                std::list<int, A> l{A(pool)};
                for (int t = 0; t < 20; ++t) l.push_back(t);
                int t = 0;
                for (int x : l) PBT_EQ(x, t++, "list with the pool's allocator");
                MemoryPool copy(pool);
                PBT_CHECK(copy.empty(), "a copied pool owns nothing");
            }
            }
            ++ops;
            if (c.verbose) c.desc << " " << i << "." << what << "(" << j << ")" << (m[i].empty() ? 0 : m[i].back().n);
            size_t total = 0;
            for (size_t q = 0; q < m.size(); ++q) {
                total += m[q].size();
                for (size_t t = 0; t < m[q].size(); ++t)
                    PBT_CHECK(painted(m[q][t].p, m[q][t].n, m[q][t].seed), what, ": block ", t, " of pool ", q, " (", m[q][t].n, " bytes) was overwritten");
            }
            sameList(list, lm, what);
            most = std::max(most, total);
        }
    }
    if (!c.verbose) PBT_EQ(long(heapBalance()), before, "allocations left behind");
    if (most >= 3 && ops >= 4) c.nontrivial();
    c.tag("pool");
    if (joins) c.tag("pool-spliced");
    if (big) c.tag("pool-large-blocks");
}

struct WeakHash {
    unsigned mod;
    WeakHash(unsigned mod = 1000003) : mod(mod) {}
    size_t operator()(int k) const { return unsigned(k) % mod; }
};
struct EqInt { bool operator()(int a, int b) const { return a == b; } };

PROPERTY(hashTableHistories, 3) {
    typedef tdzdd::MyHashTable<int, WeakHash, EqInt> T;
    long before = heapBalance();
    size_t most = 0;
    int ops = 0;
    {
        unsigned mod = s.pick<unsigned>({1, 3, 1000003, 1000003});
        int k = s.range(1, 2), steps = s.range(1, 60), range = s.pick<int>({8, 30, 1000});
        std::vector<std::unique_ptr<T> > a;
        std::vector<std::set<int> > m(k);
        for (int i = 0; i < k; ++i) a.emplace_back(s.flip() ? new T(WeakHash(mod)) : new T(size_t(s.range(0, 40)), WeakHash(mod)));
        for (int step = 0; step < steps; ++step) {
            int i = s.below(k), j = s.below(k), v = s.range(1, range);
            char const* what = "";
            switch (s.below(12)) {
            case 0: case 1: case 2: case 3: {
                what = "add";
                int& r = a[i]->add(v);
                PBT_EQ(r, v, "element in the table");
                m[i].insert(v);
                break;
            }
            case 4: {
                what = "bulk add";
                int n = s.range(1, 60);
                for (int t = 0; t < n; ++t) { a[i]->add(v + t); m[i].insert(v + t); }
                break;
            }
            case 5: case 6: {
                what = "get";
                int* p = a[i]->get(v);
                PBT_EQ(p != 0, m[i].count(v) != 0, "membership of ", v);
                if (p) PBT_EQ(*p, v, "element");
                break;
            }
            case 7: what = "copy"; a[i].reset(s.flip() ? new T(*a[j]) : new T(*a[j], size_t(s.range(0, 100)))); m[i] = std::set<int>(m[j]); break;
            case 8: what = i == j ? "self-assignment" : "assignment"; *a[i] = *a[j]; m[i] = std::set<int>(m[j]); break;
            case 9: what = "clear"; if (s.flip()) a[i]->clear(); else a[i]->initialize(s.range(0, 50)); m[i].clear(); break;
            case 10: what = "rehash"; if (s.flip()) a[i]->rehash(); else a[i]->rehash(s.range(0, 200)); break;
            default: if (i == j) continue; what = "move"; a[i]->moveAssign(*a[j]); m[i].swap(m[j]); m[j].clear(); break;
            }
            ++ops;
            if (c.verbose) c.desc << " " << i << "." << what << "(" << j << "," << v << ")";
            for (int q = 0; q < k; ++q) {
                PBT_EQ(a[q]->size(), m[q].size(), what, ": size");
                PBT_EQ(a[q]->empty(), m[q].empty(), what, ": emptiness");
                std::multiset<int> f, g;
                for (auto t = a[q]->begin(); t != a[q]->end(); ++t) f.insert(*t);
                T const& ct = *a[q];
                for (auto t = ct.begin(); t != ct.end(); ++t) g.insert(*t);
                std::multiset<int> e(m[q].begin(), m[q].end());
                PBT_CHECK(f == e && g == e, what, ": iteration");
                for (int x : m[q]) PBT_CHECK(a[q]->get(x) && *a[q]->get(x) == x, what, ": ", x, " is lost");
                most = std::max(most, m[q].size());
            }
        }
    }
    if (!c.verbose) PBT_EQ(long(heapBalance()), before, "allocations left behind");
    if (most >= 3 && ops >= 3) c.nontrivial();
    c.tag(most > 40 ? "hash-large" : "hash-small");
}

PROPERTY(hashMapHistories, 3) {
    typedef tdzdd::MyHashMap<int, El, WeakHash, EqInt> T;
    resetEl();
    long before = heapBalance();
    size_t most = 0;
    int ops = 0;
    {
        unsigned mod = s.pick<unsigned>({1, 3, 1000003, 1000003});
        int k = s.range(1, 2), steps = s.range(1, 60), range = s.pick<int>({8, 30, 1000});
        std::vector<std::unique_ptr<T> > a;
        std::vector<std::map<int, int> > m(k);
        for (int i = 0; i < k; ++i) a.emplace_back(s.flip() ? new T(WeakHash(mod)) : new T(size_t(s.range(0, 40)), WeakHash(mod)));
        for (int step = 0; step < steps; ++step) {
            int i = s.below(k), j = s.below(k), v = s.range(1, range), x = s.range(0, 99);
            char const* what = "";
            switch (s.below(10)) {
            case 0: case 1: case 2: case 3: {
                what = "write";
                if (!m[i].count(v)) PBT_EQ(int((*a[i])[v]), 0, "new value");
                (*a[i])[v] = El(x);
                m[i][v] = x;
                break;
            }
            case 4: { what = "add"; auto& e = a[i]->add(tdzdd::MyHashMapEntry<int, El>(v, El(x))); m[i].insert({v, x}); PBT_EQ(e.key, v, "key"); PBT_EQ(int(e.value), m[i][v], "an existing value is kept"); break; }
            case 5: case 6: {
                what = "getValue";
                El* p = a[i]->getValue(v);
                PBT_EQ(p != 0, m[i].count(v) != 0, "membership of ", v);
                if (p) PBT_EQ(int(*p), m[i][v], "value");
                break;
            }
            case 7: what = "copy"; a[i].reset(new T(*a[j], size_t(s.range(0, 60)))); m[i] = std::map<int, int>(m[j]); break;
            case 8: what = i == j ? "self-assignment" : "assignment"; *a[i] = *a[j]; m[i] = std::map<int, int>(m[j]); break;
            default: what = "clear"; if (!s.chance(1, 3)) continue; if (s.flip()) a[i]->clear(); else a[i]->initialize(s.range(0, 50)); m[i].clear(); break;
            }
            ++ops;
            if (c.verbose) c.desc << " " << i << "." << what << "(" << j << "," << v << "," << x << ")";
            for (int q = 0; q < k; ++q) {
                PBT_EQ(a[q]->size(), m[q].size(), what, ": size");
                std::map<int, int> f;
                for (auto t = a[q]->begin(); t != a[q]->end(); ++t) PBT_CHECK(f.insert({t->key, t->value}).second, what, ": key twice");
                PBT_CHECK(f == m[q], what, ": contents");
                most = std::max(most, m[q].size());
            }
        }
    }
    checkEl(0, "end of life");
    if (!c.verbose) PBT_EQ(long(heapBalance()), before, "allocations left behind");
    if (most >= 3 && ops >= 3) c.nontrivial();
    c.tag("map");
}

PROPERTY(pointerTable, 1) {
    // elements behind pointers are compared and hashed by value
    std::vector<Plain> store(s.range(1, 30));
    for (auto& x : store) x = Plain(s.range(1, 12));
    tdzdd::MyHashTable<Plain const*> t(size_t(s.range(0, 10)));
    std::map<int, Plain const*> m;
    for (auto& x : store) {
        Plain const* p = t.add(&x);
        m.insert({x.v, &x});
        PBT_CHECK(p == m[x.v], "the first of equal elements is kept");
    }
    PBT_EQ(t.size(), m.size(), "distinct elements");
    if (m.size() >= 3) c.nontrivial();
    if (c.verbose) for (auto& x : store) c.desc << " " << x.v;
    c.tag("pointers");
}

template<typename B> static std::set<size_t> elements(B const& b, char const* what) {
    std::set<size_t> r;
    long last = -1;
    for (auto t = b.begin(); t != b.end(); ++t) {
        PBT_CHECK(long(*t) > last, what, ": iteration order");
        last = *t;
        r.insert(*t);
    }
    return r;
}
template<typename B> static void bitHistory(Src& s, Ctx& c, std::vector<B*> a, std::vector<size_t> const& size) {
    size_t k = a.size(), most = 0;
    std::vector<std::set<size_t> > m(k);
    for (size_t i = 0; i < k; ++i) PBT_CHECK(a[i]->empty(), "new set");
    int steps = s.range(1, 50);
    for (int step = 0; step < steps; ++step) {
        int i = s.below(k), j = s.below(k);
        size_t bits = size[i];
        size_t x = s.flip() ? s.below(bits) : std::min(bits - 1, size_t(std::max(0, 64 * s.range(0, int(bits / 64)) + s.range(-1, 1))));
        char const* what = "";
        switch (s.below(8)) {
        case 0: case 1: case 2: what = "add"; a[i]->add(x); m[i].insert(x); break;
        case 3: what = "remove"; a[i]->remove(x); m[i].erase(x); break;
        case 4: {
            what = "pullout";
            a[i]->pullout(x);
            std::set<size_t> n;
            for (size_t e : m[i]) if (e < x) n.insert(e); else if (e > x) n.insert(e - 1);
            m[i] = n;
            break;
        }
        case 5: what = "clear"; if (!s.chance(1, 3)) continue; a[i]->clear(); m[i].clear(); break;
        case 6: {
            what = "comparison";
            if (a[i]->numWords() == a[j]->numWords()) {
                PBT_EQ(*a[i] == *a[j], m[i] == m[j], what);
                if (m[i] == m[j]) PBT_EQ(a[i]->hash(), a[j]->hash(), "hash of equal sets");
            }
            else if (m[i] != m[j]) PBT_CHECK(!(*a[i] == *a[j]), what, " of sets of different sizes");
            std::set<size_t> both;
            for (size_t e : m[i]) if (m[j].count(e)) both.insert(e);
            PBT_EQ(a[i]->intersects(*a[j]), !both.empty(), "intersection");
            break;
        }
        default: {
            what = "printing";
            std::ostringstream os;
            os << *a[i];
            std::string e = "{";
            for (size_t v : m[i]) { if (e.size() > 1) e += ","; e += std::to_string(v); }
            PBT_EQ(os.str(), e + "}", what);
        }
        }
        if (c.verbose) c.desc << " " << i << "." << what << "(" << j << "," << x << ")";
        for (size_t q = 0; q < k; ++q) {
            PBT_CHECK(elements(*a[q], what) == m[q], what, ": elements");
            PBT_EQ(a[q]->empty(), m[q].empty(), what, ": emptiness");
            if (x < size[q]) PBT_EQ(a[q]->includes(x), m[q].count(x) != 0, what, ": membership of ", x);
            most = std::max(most, m[q].size());
        }
    }
    if (most >= 3) c.nontrivial();
}
template<size_t N> static void fixedBits(Src& s, Ctx& c) {
    // the sets lie between guard words
    struct Cell { uint64_t lo; tdzdd::MyBitSet<N> b; uint64_t hi; };
    int k = s.range(1, 3);
    std::vector<std::unique_ptr<Cell> > cells;
    std::vector<tdzdd::MyBitSet<N>*> a;
    for (int i = 0; i < k; ++i) { cells.emplace_back(new Cell); cells[i]->lo = cells[i]->hi = 0xA5A5A5A5A5A5A5A5u; a.push_back(&cells[i]->b); }
    bitHistory(s, c, a, std::vector<size_t>(k, 64 * N));
    for (auto& x : cells) PBT_CHECK(x->lo == 0xA5A5A5A5A5A5A5A5u && x->hi == 0xA5A5A5A5A5A5A5A5u, "memory next to the set changed");
    tdzdd::MyBitSet<N> init(uint64_t(0x8000000000000005u));
    std::set<size_t> e{0, 2, 63};
    PBT_CHECK(elements(init, "initial word") == e, "initial word");
    PBT_EQ(init.numWords(), N, "words");
}
PROPERTY(bitSetHistories, 3) {
    switch (s.below(4)) {
    case 0: fixedBits<1>(s, c); c.tag("bits1"); break;
    case 1: fixedBits<2>(s, c); c.tag("bits2"); break;
    case 2: fixedBits<3>(s, c); c.tag("bits3"); break;
    default: {
        MemoryPool pool;
        std::vector<size_t> bits{size_t(s.range(1, 260))};
        std::vector<tdzdd::MyBitSetOnPool*> a;
        std::vector<uint64_t*> guards;
        int k = s.range(1, 3);
        for (int i = 0; i <= k; ++i) {
            guards.push_back(pool.allocate<uint64_t>());
            *guards[i] = 0x5A5A5A5A5A5A5A5Au;
            if (i > 0 && i < k) bits.push_back(s.chance(2, 3) ? bits[0] : s.range(1, 260));
            if (i < k) a.push_back(tdzdd::MyBitSetOnPool::newInstance(pool, bits[i]));
        }
        bitHistory(s, c, a, bits);
        for (auto g : guards) PBT_CHECK(*g == 0x5A5A5A5A5A5A5A5Au, "memory next to the set changed");
        c.tag("bits-pool");
    }
    }
}

template<typename B> static void smallHistory(Src& s, Ctx& c, std::vector<B*> a, size_t cap, int range) {
    size_t k = a.size(), most = 0;
    std::vector<std::set<int> > m(k);
    for (size_t i = 0; i < k; ++i) for (int x : *a[i]) m[i].insert(x);
    int steps = s.range(1, 50);
    for (int step = 0; step < steps; ++step) {
        int i = s.below(k), j = s.below(k), x = s.range(1, range);
        char const* what = "";
        switch (s.below(8)) {
        case 0: case 1: case 2: case 3:
            what = "add";
            if (m[i].size() >= cap && !m[i].count(x)) continue;
            a[i]->add(x); m[i].insert(x);
            break;
        case 4: what = "remove"; a[i]->remove(x); m[i].erase(x); break;
        case 5: what = "clear"; if (!s.chance(1, 4)) continue; a[i]->clear(); m[i].clear(); break;
        case 6: {
            what = "comparison";
            PBT_EQ(*a[i] == *a[j], m[i] == m[j], what);
            if (m[i] == m[j]) PBT_EQ(a[i]->hash(), a[j]->hash(), "hash of equal sets");
            std::set<int> o = s.flip() ? m[j] : m[i];
            if (s.flip()) o.insert(s.range(1, range));
            if (s.flip() && !o.empty()) o.erase(o.begin());
            bool inter = false, all = true;
            for (int e : o) if (m[i].count(e)) inter = true; else all = false;
            PBT_EQ(a[i]->equals(o), o == m[i], "equality with a sorted container");
            PBT_EQ(a[i]->intersects(o), inter, "intersection with a sorted container");
            PBT_EQ(a[i]->containsAll(o), all, "inclusion of a sorted container");
            PBT_EQ(a[i]->containsAll(*a[j]), std::includes(m[i].begin(), m[i].end(), m[j].begin(), m[j].end()), "inclusion");
            break;
        }
        default: {
            what = "printing";
            std::ostringstream os;
            os << *a[i];
            PBT_EQ(os.str(), show(Ints(m[i].begin(), m[i].end()), "{", ",", "}"), what);
            Ints r;
            for (auto t = a[i]->rbegin(); t != a[i]->rend(); ++t) r.push_back(*t);
            PBT_CHECK(r == Ints(m[i].rbegin(), m[i].rend()), "backward iteration");
            PBT_EQ(a[i]->rbegin() == a[i]->rend(), m[i].empty(), "comparison of backward iterators");
        }
        }
        if (c.verbose) c.desc << " " << i << "." << what << "(" << j << "," << x << ")";
        for (size_t q = 0; q < k; ++q) {
            PBT_EQ(a[q]->size(), m[q].size(), what, ": size");
            PBT_EQ(a[q]->empty(), m[q].empty(), what, ": emptiness");
            PBT_CHECK(Ints(a[q]->begin(), a[q]->end()) == Ints(m[q].begin(), m[q].end()), what, ": elements of set ", q);
            for (size_t t = 0; t < m[q].size(); ++t) PBT_EQ(int(a[q]->get(t)), *std::next(m[q].begin(), t), "element ", t);
            PBT_EQ(a[q]->includes(x), m[q].count(x) != 0, what, ": membership of ", x);
            most = std::max(most, m[q].size());
        }
    }
    if (most >= 3) c.nontrivial();
}
template<typename T, size_t N> static void fixedSmall(Src& s, Ctx& c, int range) {
    struct Cell { T lo; tdzdd::MySmallSet<T, N> b; T hi; };
    int k = s.range(1, 3);
    std::vector<std::unique_ptr<Cell> > cells;
    std::vector<tdzdd::MySmallSet<T, N>*> a;
    for (int i = 0; i < k; ++i) { cells.emplace_back(new Cell); cells[i]->lo = cells[i]->hi = 77; a.push_back(&cells[i]->b); }
    smallHistory(s, c, a, N - 1, range);
    for (auto& x : cells) PBT_CHECK(x->lo == 77 && x->hi == 77, "memory next to the set changed");
}
PROPERTY(smallSetHistories, 3) {
    switch (s.below(3)) {
    case 0: fixedSmall<int, 5>(s, c, 8); c.tag("small5"); break;
    case 1: fixedSmall<uint16_t, 12>(s, c, 20); c.tag("small12"); break;
    default: {
        MemoryPool pool;
        typedef tdzdd::MySmallSetOnPool<int> B;
        size_t cap = s.range(1, 12);
        int range = int(cap) + s.range(1, 8), k = s.range(1, 3);
        std::vector<B*> a;
        std::vector<uint64_t*> guards;
        bool copy = s.flip();
        for (int i = 0; i <= k; ++i) {
            guards.push_back(pool.allocate<uint64_t>());
            *guards[i] = 0x5A5A5A5A5A5A5A5Au;
            if (i == k) break;
            if (!copy) { a.push_back(s.flip() ? B::newInstance(pool, cap) : B::newInstance(pool, int(cap))); continue; }
            std::set<int> init;
            while (init.size() < cap) init.insert(1 + (s.below(range) + init.size()) % range);
            Ints shuffled(init.begin(), init.end());
            if (s.flip()) std::reverse(shuffled.begin(), shuffled.end());
            a.push_back(B::newInstance(pool, shuffled));
            PBT_CHECK(Ints(a[i]->begin(), a[i]->end()) == Ints(init.begin(), init.end()), "set made from a container");
        }
        smallHistory(s, c, a, cap, range);
        for (auto g : guards) PBT_CHECK(*g == 0x5A5A5A5A5A5A5A5Au, "memory next to the set changed");
        c.tag(copy ? "small-pool-copy" : "small-pool");
    }
    }
}

// Tens of thousands of elements; contents compared now and then.
PROPERTY(large, -500) {
    resetEl();
    int n = s.pick<int>({s.range(2000, 10000), s.range(10000, 70000), s.range(70000, 200000)});
    int kind = s.below(6);
    uint64_t seed = s.u64();
    if (c.verbose) c.desc << "large kind " << kind << " n=" << n << " seed=" << seed;
    c.nontrivial();
    c.tag(cat("large", kind));
    long before = heapBalance();
    auto val = [&](size_t i) { uint64_t x = (seed + i) * 0x9E3779B97F4A7C15u; return int((x >> 33) % 1000000) + 1; };
    if (kind == 0) {
        MyVector<El, size_t> a;
        Ints m;
        for (int i = 0; i < n; ++i) {
            a.push_back(El(val(i)));
            m.push_back(val(i));
            if (val(i) % 5 == 0) { a.pop_back(); m.pop_back(); }
        }
        sameVector(a, m, "push_back");
        MyVector<El, size_t> b(a);
        sameVector(b, m, "copy");
        a.resize(m.size() / 3); m.resize(m.size() / 3);
        sameVector(a, m, "shrinking");
        a.resize(m.size() * 4 + 7); m.resize(m.size() * 4 + 7);
        sameVector(a, m, "growing");
        checkEl(long(a.size() + b.size()), "large");
    }
    else if (kind == 1) {
        tdzdd::MyList<Blob<9> > l; // default block size
        std::list<Piece> m;
        for (int i = 0; i < n; ++i) {
            size_t k = 1 + val(i) % 4;
            void* p = l.alloc_front(k);
            paint(p, 9 * k, val(i));
            m.push_front(Piece{9 * k, uint64_t(val(i)), p});
            if (val(i) % 7 < 2) { l.pop_front(); m.pop_front(); }
        }
        sameList(l, m, "large list");
        while (m.size() > size_t(n) / 4) { l.pop_front(); m.pop_front(); }
        sameList(l, m, "large list, shortened");
        for (int i = 0; i < n / 4; ++i) { void* p = l.alloc_front(1); paint(p, 9, i); m.push_front(Piece{9, uint64_t(i), p}); }
        sameList(l, m, "large list, grown again");
    }
    else if (kind == 2) {
        MemoryPool pool;
        tdzdd::MyListOnPool<Blob<10> > l;
        std::list<Piece> m;
        std::vector<Piece> other;
        for (int i = 0; i < n; ++i) {
            size_t k = 1 + val(i) % 3;
            void* p = l.alloc_front(pool, k);
            paint(p, 10 * k, val(i));
            m.push_front(Piece{10 * k, uint64_t(val(i)), p});
            if (val(i) % 3 == 0) { size_t z = 1 + val(i) % 300; void* q = pool.alloc(z); paint(q, z, i); other.push_back(Piece{z, uint64_t(i), q}); }
        }
        sameList(l, m, "large list on a pool");
        for (auto const& e : other) PBT_CHECK(painted(e.p, e.n, e.seed), "a block of the pool was overwritten");
    }
    else if (kind == 3) {
        typedef tdzdd::MyHashTable<int, WeakHash, EqInt> T;
        T a((WeakHash(s.pick<unsigned>({1000003, 4000037}))));
        std::set<int> m;
        int stride = s.pick<int>({1, 2, 3, 17});
        for (int i = 0; i < n; ++i) {
            int v = s.flip() ? val(i) : (i * stride) % 4000000 + 1;
            PBT_EQ(a.add(v), v, "element in the table");
            m.insert(v);
        }
        PBT_EQ(a.size(), m.size(), "large table: size");
        T b(a);
        a.rehash();
        for (int v : m) { PBT_CHECK(a.get(v) && *a.get(v) == v, v, " is lost"); PBT_CHECK(b.get(v) && *b.get(v) == v, v, " is lost from the copy"); }
        for (int i = 0; i < 1000; ++i) { int v = int(s.below(4000000)) + 1; PBT_EQ(a.get(v) != 0, m.count(v) != 0, "membership of ", v); }
        size_t k = 0;
        std::set<int> seen;
        for (auto t = a.begin(); t != a.end(); ++t, ++k) PBT_CHECK(m.count(*t) && seen.insert(*t).second, "iteration");
        PBT_EQ(k, m.size(), "iteration");
    }
    else if (kind == 4) {
        tdzdd::MyHashMap<int, El, WeakHash, EqInt> a((WeakHash(s.pick<unsigned>({1000003, 4000037}))));
        std::map<int, int> m;
        for (int i = 0; i < n; ++i) { a[val(i)] = El(i); m[val(i)] = i; }
        PBT_EQ(a.size(), m.size(), "large map: size");
        for (auto const& e : m) PBT_CHECK(a.getValue(e.first) && int(*a.getValue(e.first)) == e.second, "value of ", e.first);
    }
    else {
        MemoryPool pool;
        size_t bits = n;
        tdzdd::MyBitSetOnPool* a = tdzdd::MyBitSetOnPool::newInstance(pool, bits);
        std::set<size_t> m;
        for (int i = 0; i < 3000; ++i) {
            size_t x = size_t(val(i)) % bits;
            if (val(i + 7777) % 4) { a->add(x); m.insert(x); } else { a->remove(x); m.erase(x); }
        }
        for (int i = 0; i < 3; ++i) {
            size_t x = s.below(bits);
            a->pullout(x);
            std::set<size_t> t;
            for (size_t e : m) if (e < x) t.insert(e); else if (e > x) t.insert(e - 1);
            m = t;
            PBT_CHECK(elements(*a, "large bit set") == m, "large bit set: elements");
        }
    }
    checkEl(0, "end of life");
    if (!c.verbose) PBT_EQ(long(heapBalance()), before, "allocations left behind");
}
