// C15: searching for one instance finds a genuine one if and only if one exists.
#include "ompcompat.hpp"
#include "specs.hpp"
using namespace model;

template<int N, typename Spec> static void search(Src& s, Ctx& c, Auto const& a, Spec const& spec, bool exists, char const* what) {
    std::srand(s.u64() & 0x7fffffff);
    int reps = s.range(1, 4);
    for (int i = 0; i < reps; ++i) {
        std::vector<std::pair<int, int> > r;
        bool found = true;
        try { r = spec.findOneInstance(); } catch (std::runtime_error&) { found = false; }
        PBT_EQ(found, exists, what, ": instance found");
        if (!found) continue;
        std::map<int, int> val;
        for (auto const& x : r) {
            PBT_CHECK(x.second >= 0 && x.second < N, what, ": value ", x.second);
            PBT_CHECK(val.insert(x).second, what, ": level ", x.first, " twice");
        }
        To u = a.root;
        size_t used = 0;
        while (u.level > 0) {
            auto it = val.find(u.level);
            PBT_CHECK(it != val.end(), what, ": no decision for level ", u.level);
            ++used;
            u = a.go(u.level, u.state, it->second);
        }
        PBT_EQ(u.level, -1, what, ": the returned decisions are not accepted");
        PBT_EQ(used, r.size(), what, ": decisions that are not on the path");
    }
}

template<int N> static void one(Src& s, Ctx& c, Shape sh) {
    Auto a = sh.hugeWidth ? genTall(s, c, N) : genAuto(s, c, N, sh);
    if (!sh.hugeWidth && s.chance(1, 3)) { // few accepting paths, so that the search has to back up
        c.tag("scarce");
        std::vector<To*> acc;
        for (int l = 1; l <= a.n; ++l) for (auto& st : a.t[l]) for (To& u : st) if (u.level < 0) acc.push_back(&u);
        int keep = s.range(0, 2);
        for (size_t i = 0; i < acc.size(); ++i) acc[i]->level = 0;
        for (int k = 0; k < keep && !acc.empty(); ++k) acc[s.below(acc.size())]->level = -1;
    }
    if (sh.hugeWidth) { for (int l = 1; l <= a.n; ++l) for (auto& st : a.t[l]) { bool dead = true; for (To& u : st) dead = dead && u.level == 0; if (dead) st[0].level = -1; } } // dead ends are short
    else if (a.root.level > 12) return;
    int kind = drawKind(s, a), par = drawParam(s);
    if (c.verbose) c.desc << "kind=" << kindName(kind) << " " << a.str();
    Canon m(N);
    int q = a.canon(m, Q);
    bool exists = q != 0;
    c.tag(exists ? "exists" : "none");
    c.nontrivial(a.root.level > 1 && a.reachable() >= 3);
    withSpec<N>(a, kind, par, [&](auto const& spec) {
        search<N>(s, c, a, spec, exists, kindName(kind));
        if (s.chance(1, 3)) { // on the built diagram
            tdzdd::DdStructure<N> dd(spec);
            search<N>(s, c, a, dd, exists, "diagram");
            if (s.flip()) { // reduced: decisions of deleted levels are absent; check by membership
                dd.zddReduce();
                bool found = true;
                std::vector<std::pair<int, int> > r;
                try { r = dd.findOneInstance(); } catch (std::runtime_error&) { found = false; }
                PBT_EQ(found, exists, "reduced diagram");
                if (found) {
                    std::vector<int> v(a.n + 1, 0);
                    for (auto const& x : r) v[x.first] = x.second;
                    PBT_CHECK(a.eval(Z, v), "instance of the reduced diagram is not in the family");
                }
            }
        }
    });
    checkTracked("search");
    PBT_EQ(long(Tracked::live()), 0L, "states left alive by the search");
}

#if PART == 0
PROPERTY(search2tall, -3000) { Tracked::reset(); one<2>(s, c, Shape::huge(1)); }
PROPERTY(search2, 4) { Tracked::reset(); one<2>(s, c, Shape(8, 4, true, 12, 6)); }
#elif PART == 1
PROPERTY(search3tall, -6000) { Tracked::reset(); one<3>(s, c, Shape::huge(1)); }
PROPERTY(search3, 2) { Tracked::reset(); one<3>(s, c, Shape(6, 4, false)); }
PROPERTY(search5, 1) { Tracked::reset(); one<5>(s, c, Shape(4, 3, false)); }
#endif
