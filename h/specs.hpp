/*
 * The automaton of model.hpp written as TdZdd specifications of every kind, and the
 * translation of TdZdd diagrams into the reference graph (public interface only).
 */
#pragma once
#include <tdzdd/DdSpec.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/DdStructure.hpp>
#include "model.hpp"

namespace model {

/** Path-language canonical form (or other rule) of a diagram. */
template<int N> int canonDd(Canon& c, tdzdd::DdStructure<N> const& dd, Rule r) {
    std::unordered_map<uint64_t, int> memo;
    struct Rec {
        Canon& c; tdzdd::DdStructure<N> const& dd; Rule r; std::unordered_map<uint64_t, int>& memo;
        int go(tdzdd::NodeId f) {
            if (f.row() == 0) {
                if (f.col() > 1) PBT_FAIL("terminal id ", f.col(), " in diagram");
                return f.col();
            }
            uint64_t key = uint64_t(f.row()) << 40 | f.col();
            auto it = memo.find(key);
            if (it != memo.end()) return it->second;
            std::vector<int> k(N);
            for (int b = 0; b < N; ++b) {
                tdzdd::NodeId g = dd.child(f, b);
                if (g.row() >= f.row()) PBT_FAIL("edge from level ", f.row(), " to level ", g.row());
                k[b] = go(g);
            }
            int x = c.mk(r, f.row(), k);
            memo[key] = x;
            return x;
        }
    } rec = {c, dd, r, memo};
    return rec.go(dd.root());
}

/** Number of nodes reachable from the root of a diagram. */
template<int N> size_t reachableNodes(tdzdd::DdStructure<N> const& dd) {
    std::set<std::pair<int, size_t> > seen;
    std::vector<tdzdd::NodeId> st(1, dd.root());
    while (!st.empty()) {
        tdzdd::NodeId f = st.back();
        st.pop_back();
        if (f.row() == 0) continue;
        if (!seen.insert(std::make_pair(int(f.row()), size_t(f.col()))).second) continue;
        for (int b = 0; b < N; ++b) st.push_back(dd.child(f, b));
    }
    return seen.size();
}

/** Progress messages, switched on for a while and thrown away. */
struct Messages {
    struct Null: public std::streambuf { int overflow(int c) override { return c; } } null;
    std::streambuf* old;
    bool prev;
    explicit Messages(bool on) : old(0) {
        if (on) old = std::cerr.rdbuf(&null);
        prev = tdzdd::MessageHandler::showMessages(on);
    }
    ~Messages() {
        tdzdd::MessageHandler::showMessages(prev);
        if (old) std::cerr.rdbuf(old);
    }
};

// ---- kinds of specification ------------------------------------------------

template<int N> struct SpecStateless: public tdzdd::StatelessDdSpec<SpecStateless<N>, N> {
    Auto const* a;
    explicit SpecStateless(Auto const& x) : a(&x) {}
    int getRoot() const { return a->root.level; }
    int getChild(int level, int v) const { return a->go(level, 0, v).level; }
};

template<int N> struct SpecInt: public tdzdd::DdSpec<SpecInt<N>, int, N> {
    Auto const* a;
    explicit SpecInt(Auto const& x) : a(&x) {}
    int getRoot(int& s) const { s = a->root.state; return a->root.level; }
    int getChild(int& s, int level, int v) const {
        To const& u = a->go(level, s, v);
        s = u.state;
        return u.level;
    }
};

/** One-byte state. */
template<int N> struct SpecChar: public tdzdd::DdSpec<SpecChar<N>, unsigned char, N> {
    Auto const* a;
    explicit SpecChar(Auto const& x) : a(&x) {}
    int getRoot(unsigned char& s) const { s = a->root.state; return a->root.level; }
    void printState(std::ostream& os, unsigned char const& s) const { os << int(s); }
    int getChild(unsigned char& s, int level, int v) const {
        To const& u = a->go(level, s, v);
        s = u.state;
        return u.level;
    }
};

/** Class state with life-cycle audit. */
template<int N> struct SpecClass: public tdzdd::DdSpec<SpecClass<N>, Tracked, N> {
    Auto const* a;
    int throwAt; // level at which getChild throws (0: never)
    explicit SpecClass(Auto const& x, int throwAt = 0) : a(&x), throwAt(throwAt) {}
    int getRoot(Tracked& s) const { s = Tracked(a->root.state); return a->root.level; }
    int getChild(Tracked& s, int level, int v) const {
        if (throwAt && level == throwAt) throw std::domain_error("spec");
        To const& u = a->go(level, s.get(), v);
        s = Tracked(u.state);
        return u.level;
    }
    size_t hashCode(Tracked const& s) const { return size_t(s.get()) * 31; }
};

/** State with history noise that hash and equality ignore; coarse hash. */
struct Noisy { int junk; int state; };
template<int N> struct SpecNoisy: public tdzdd::DdSpec<SpecNoisy<N>, Noisy, N> {
    Auto const* a;
    int buckets;
    SpecNoisy(Auto const& x, int buckets) : a(&x), buckets(buckets) {}
    int getRoot(Noisy& s) const { s.junk = 17; s.state = a->root.state; return a->root.level; }
    int getChild(Noisy& s, int level, int v) const {
        To const& u = a->go(level, s.state, v);
        s.junk = s.junk * 31 + v * 7 + level;
        s.state = u.state;
        return u.level;
    }
    size_t hashCode(Noisy const& s) const { return s.state % buckets; }
    bool equalTo(Noisy const& x, Noisy const& y) const { return x.state == y.state; }
    void printState(std::ostream& os, Noisy const& s) const { os << s.state; }
};

/** Level-dependent hash and equality. */
template<int N> struct SpecAtLevel: public tdzdd::DdSpec<SpecAtLevel<N>, Noisy, N> {
    Auto const* a;
    explicit SpecAtLevel(Auto const& x) : a(&x) {}
    int getRoot(Noisy& s) const { s.junk = 1; s.state = a->root.state; return a->root.level; }
    int getChild(Noisy& s, int level, int v) const {
        To const& u = a->go(level, s.state - (s.junk == 2 ? 1000 : 0), v);
        // even levels store the state shifted, and the shift is part of the level's convention
        s.junk = u.level > 0 && u.level % 2 == 0 ? 2 : v * 3 + 3;
        s.state = u.state + (s.junk == 2 ? 1000 : 0);
        return u.level;
    }
    size_t hashCodeAtLevel(Noisy const& s, int level) const {
        if (level % 2 == 0 && s.junk != 2 && s.junk != 1) ++Tracked::bad();
        return size_t(s.state) * 1000003 + size_t(level) * 7919;
    }
    bool equalToAtLevel(Noisy const& x, Noisy const& y, int level) const {
        if (level % 2 == 0 && ((x.junk != 2 && x.junk != 1) || (y.junk != 2 && y.junk != 1))) ++Tracked::bad();
        return x.state == y.state;
    }
    void printState(std::ostream& os, Noisy const& s) const { os << s.state; }
};

/**
 * Shape of an array state, decoded from one number: how many elements, which of them
 * carry the automaton's state (the others stay constant) and how a scalar takes part.
 */
struct Layout {
    int k, pos, mode;
    static int long_(int i) { static int const K[] = {31, 63, 64, 97, 255, 300}; return K[i % 6]; }
    Layout(int par, int least) : k(par < 17 * 24 ? least + par % 17 : long_(par)) {
        int r = par < 17 * 24 ? par / 17 : par % 24; // 0..23
        mode = r % 3;
        pos = k == 0 ? 0 : r / 3 >= 7 ? k - 1 : r / 3 * k / 8;
    }
};

/** Array of E; the state index is held by one element (and its successor if it does not fit). */
template<typename E, int N> struct SpecArray: public tdzdd::PodArrayDdSpec<SpecArray<E, N>, E, N> {
    Auto const* a;
    Layout y;
    SpecArray(Auto const& x, int par) : a(&x), y(par, sizeof(E) == 1 ? 2 : 1) { this->setArraySize(y.k); }
    void put(E* p, int v) const {
        for (int i = 0; i < y.k; ++i) p[i] = E(y.mode);
        if (sizeof(E) > 1) p[y.pos] = E(v);
        else {
            p[y.pos] = E(v % 200);
            p[(y.pos + 1) % y.k] = E(v / 200);
        }
    }
    int get(E const* p) const {
        return sizeof(E) > 1 ? int(p[y.pos]) : int(p[y.pos]) + int(p[(y.pos + 1) % y.k]) * 200;
    }
    int getRoot(E* p) const { put(p, a->root.state); return a->root.level; }
    void printState(std::ostream& os, E const* p) const { for (int i = 0; i < y.k; ++i) os << (i ? "," : "") << long(p[i]); }
    int getChild(E* p, int level, int v) const {
        To const& u = a->go(level, get(p), v);
        put(p, u.state);
        return u.level;
    }
};

/** Scalar + array; the scalar, one array element, or both hold the state. */
template<typename S, typename E, int N> struct SpecHybrid: public tdzdd::HybridDdSpec<SpecHybrid<S, E, N>, S, E, N> {
    Auto const* a;
    Layout y;
    SpecHybrid(Auto const& x, int par) : a(&x), y(par, sizeof(S) == 1 ? 1 : 0) { if (sizeof(S) == 1) y.mode = 0; this->setArraySize(y.k); }
    void put(S& s, E* p, int v) const {
        for (int i = 0; i < y.k; ++i) p[i] = E(y.mode);
        if (y.k == 0 || y.mode == 1) { s = S(v); return; }
        if (y.mode == 2) { s = S(3); p[y.pos] = E(v); return; }
        s = S(v / 7);
        p[y.pos] = E(v % 7);
    }
    int get(S const& s, E const* p) const {
        return y.k == 0 || y.mode == 1 ? int(s) : y.mode == 2 ? int(p[y.pos]) : int(s) * 7 + int(p[y.pos]);
    }
    int getRoot(S& s, E* p) const { put(s, p, a->root.state); return a->root.level; }
    int getChild(S& s, E* p, int level, int v) const {
        To const& u = a->go(level, get(s, p), v);
        put(s, p, u.state);
        return u.level;
    }
};

/** Class scalar + array. */
template<int N> struct SpecHybridClass: public tdzdd::HybridDdSpec<SpecHybridClass<N>, Tracked, unsigned short, N> {
    Auto const* a;
    Layout y;
    SpecHybridClass(Auto const& x, int par) : a(&x), y(par, 0) { this->setArraySize(y.k); }
    void put(Tracked& s, unsigned short* p, int v) const {
        for (int i = 0; i < y.k; ++i) p[i] = y.mode;
        if (y.k == 0 || y.mode == 1) { s = Tracked(v); return; }
        if (y.mode == 2) { s = Tracked(5); p[y.pos] = v; return; }
        s = Tracked(v / 7);
        p[y.pos] = v % 7;
    }
    int get(Tracked const& s, unsigned short const* p) const {
        return y.k == 0 || y.mode == 1 ? s.get() : y.mode == 2 ? p[y.pos] + s.get() - 5 : s.get() * 7 + p[y.pos];
    }
    int getRoot(Tracked& s, unsigned short* p) const { put(s, p, a->root.state); return a->root.level; }
    int getChild(Tracked& s, unsigned short* p, int level, int v) const {
        To const& u = a->go(level, get(s, p), v);
        put(s, p, u.state);
        return u.level;
    }
    size_t hashCode(Tracked const& s) const { return s.get(); }
    bool equalTo(Tracked const& x, Tracked const& y) const { return x == y; }
};

/** A record of M numbers of type E without padding; one of them holds the state. */
template<typename E, int M> struct Packed {
    E e[M];
    bool operator==(Packed const& o) const { for (int i = 0; i < M; ++i) if (e[i] != o.e[i]) return false; return true; }
    friend std::ostream& operator<<(std::ostream& os, Packed const& o) { for (int i = 0; i < M; ++i) os << (i ? "/" : "") << long(o.e[i]); return os; }
    void put(int pos, int fill, int v) {
        for (int i = 0; i < M; ++i) e[i] = E(fill);
        if (sizeof(E) > 1) e[pos] = E(v); else { e[pos] = E(v % 200); e[(pos + 1) % M] = E(v / 200); }
    }
    int get(int pos) const { return sizeof(E) > 1 ? int(e[pos]) : int(e[pos]) + 200 * int(e[(pos + 1) % M]); }
};
/** Packed scalar state with the library's own hash, construction and copy. */
template<typename E, int M, int N> struct SpecPacked: public tdzdd::DdSpec<SpecPacked<E, M, N>, Packed<E, M>, N> {
    Auto const* a;
    int pos, fill;
    SpecPacked(Auto const& x, int par) : a(&x), pos(par % M), fill(par / 17 % 3) {}
    int getRoot(Packed<E, M>& s) const { s.put(pos, fill, a->root.state); return a->root.level; }
    int getChild(Packed<E, M>& s, int level, int v) const {
        To const& u = a->go(level, s.get(pos), v);
        s.put(pos, fill, u.state);
        return u.level;
    }
};
/** Packed scalar + array, everything else left to the library. */
template<typename E, int M, typename F, int N> struct SpecPackedHybrid: public tdzdd::PodHybridDdSpec<SpecPackedHybrid<E, M, F, N>, Packed<E, M>, F, N> {
    Auto const* a;
    int pos, fill;
    Layout y;
    SpecPackedHybrid(Auto const& x, int par) : a(&x), pos(par % M), fill(par / 17 % 2), y(par, 0) { this->setArraySize(y.k); }
    void put(Packed<E, M>& s, F* p, int v) const {
        for (int i = 0; i < y.k; ++i) p[i] = F(y.mode);
        if (y.k == 0 || y.mode == 1) s.put(pos, fill, v);
        else if (y.mode == 2) { s.put(pos, fill, 3); p[y.pos] = F(v); }
        else { s.put(pos, fill, v / 7); p[y.pos] = F(v % 7); }
    }
    int get(Packed<E, M> const& s, F const* p) const {
        return y.k == 0 || y.mode == 1 ? s.get(pos) : y.mode == 2 ? int(p[y.pos]) : s.get(pos) * 7 + int(p[y.pos]);
    }
    int getRoot(Packed<E, M>& s, F* p) const { put(s, p, a->root.state); return a->root.level; }
    int getChild(Packed<E, M>& s, F* p, int level, int v) const {
        To const& u = a->go(level, get(s, p), v);
        put(s, p, u.state);
        return u.level;
    }
};
/** Hand-made construction and copy of a state that owns heap memory (the class itself has no copy semantics). */
struct Handle { int* p; };
template<int N> struct SpecHandle: public tdzdd::DdSpec<SpecHandle<N>, Handle, N> {
    Auto const* a;
    explicit SpecHandle(Auto const& x) : a(&x) {}
    void construct(void* p) { static_cast<Handle*>(p)->p = new int(-1); ++Tracked::live(); ++Tracked::made(); }
    void getCopy(void* p, Handle const& s) { static_cast<Handle*>(p)->p = new int(*s.p); ++Tracked::live(); ++Tracked::made(); }
    void destruct(void* p) { if (!static_cast<Handle*>(p)->p) ++Tracked::bad(); delete static_cast<Handle*>(p)->p; static_cast<Handle*>(p)->p = 0; --Tracked::live(); }
    int getRoot(Handle& s) const { *s.p = a->root.state; return a->root.level; }
    int getChild(Handle& s, int level, int v) const {
        To const& u = a->go(level, *s.p, v);
        *s.p = u.state;
        return u.level;
    }
    size_t hashCode(Handle const& s) const { return *s.p * 3; }
    bool equalTo(Handle const& x, Handle const& y) const { return *x.p == *y.p; }
    void printState(std::ostream& os, Handle const& s) const { os << *s.p; }
};

static int const KINDS = 10;
inline char const* kindName(int k) {
    static char const* nm[] = {"int", "class", "noisy", "array8", "hybrid", "atlevel", "array32", "hybridclass", "char", "array64", "stateless"};
    return nm[k];
}
/** Kinds whose states fit the automaton. */
inline int drawKind(Src& s, Auto const& a) {
    size_t w = 0;
    for (auto const& l : a.t) w = std::max(w, l.size());
    for (;;) {
        int k = s.below(KINDS);
        if (k == 8 && w > 250) k = 0;
        return k;
    }
}
/** Very wide levels do not fit the narrow kinds, and a coarse hash would take for ever. */
inline int kindThatFits(Auto const& a, int k) {
    size_t w = 0;
    for (auto const& l : a.t) w = std::max(w, l.size());
    if (w > 32000 && (k == 3 || k == 4 || k == 7 || k == 8)) return 6;
    return w > 32000 && k == 2 ? 0 : k;
}
inline int drawParam(Src& s) { return s.below(17 * 24 + 24); }

/** Calls f(spec) for a specification of the given kind. */
template<int N, typename F> void withSpec(Auto const& a, int kind, int par, F f) {
    switch (kindThatFits(a, kind)) {
    case 0: { SpecInt<N> x(a); f(x); break; }
    case 1: { SpecClass<N> x(a); f(x); break; }
    case 2: { SpecNoisy<N> x(a, 1 + par % 9); f(x); break; }
    case 3: { SpecArray<unsigned char, N> x(a, par); f(x); break; }
    case 4: { SpecHybrid<int, unsigned short, N> x(a, par); f(x); break; }
    case 5: { SpecAtLevel<N> x(a); f(x); break; }
    case 6: { SpecArray<int, N> x(a, par); f(x); break; }
    case 7: { SpecHybridClass<N> x(a, par); f(x); break; }
    case 8: { SpecChar<N> x(a); f(x); break; }
    case 9: { SpecArray<long, N> x(a, par); f(x); break; }
    case 10: { SpecStateless<N> x(a); f(x); break; }
    }
}
/** Record states and hand-made life cycles. */
static int const KINDS2 = 8;
template<int N, typename F> void withSpecPacked(Auto const& a, int kind, int par, F f) {
    switch (kind) {
    case 0: { SpecPacked<long, 2, N> x(a, par); f(x); break; }
    case 1: { SpecPacked<int, 3, N> x(a, par); f(x); break; }
    case 2: { SpecPacked<unsigned char, 7, N> x(a, par); f(x); break; }
    case 3: { SpecPackedHybrid<long, 2, unsigned short, N> x(a, par); f(x); break; }
    case 4: { SpecPackedHybrid<unsigned char, 3, short, N> x(a, par); f(x); break; }
    case 5: { SpecPackedHybrid<short, 3, int, N> x(a, par); f(x); break; }
    case 6: { SpecPackedHybrid<int, 3, long, N> x(a, par); f(x); break; }
    case 7: { SpecHandle<N> x(a); f(x); break; }
    }
}
/** Fewer kinds, for cheaper compilation. */
template<int N, typename F> void withSpecFew(Auto const& a, int kind, int par, F f) {
    switch (kindThatFits(a, kind % 6) % 6) {
    case 0: { SpecInt<N> x(a); f(x); break; }
    case 1: { SpecClass<N> x(a); f(x); break; }
    case 2: { SpecNoisy<N> x(a, 1 + par % 9); f(x); break; }
    case 3: { SpecArray<unsigned char, N> x(a, par); f(x); break; }
    case 4: { SpecHybrid<int, unsigned short, N> x(a, par); f(x); break; }
    case 5: { SpecAtLevel<N> x(a); f(x); break; }
    }
}

inline void checkTracked(char const* where) {
    if (Tracked::bad()) PBT_FAIL("a state that is not alive was used or destroyed during ", where, " (", Tracked::bad(), "x)");
}

} // namespace model
