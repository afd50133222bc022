// C23: the sample solvers report exactly the solutions of their puzzles.
#ifndef PART
#define PART 0
#endif
#include "graphs.hpp"
#include "apps.hpp"
#include "dot.hpp"
using namespace model;
/** The text of -export, as a family. */
static int parseExport(Canon& m, std::string const& text) {
    std::istringstream is(text);
    std::string k, r;
    long i = -1, o = -1, n = -1;
    is >> k >> i >> k >> o >> k >> n;
    PBT_CHECK(bool(is) && n >= 0, "exported header: ", text);
    std::map<std::string, int> id;
    id["F"] = 0;
    id["T"] = 1;
    for (long j = 0; j < n; ++j) {
        std::string a, b, c;
        int lev = -1;
        is >> a >> lev >> b >> c;
        PBT_CHECK(bool(is) && id.count(b) && id.count(c) && !id.count(a), "exported node: ", a);
        PBT_CHECK(lev > m.level(id[b]) && lev > m.level(id[c]), "exported level of ", a);
        id[a] = m.mk(Z, lev, std::vector<int>{id[b], id[c]});
    }
    is >> r;
    PBT_CHECK(id.count(r), "exported root: ", r);
    return id[r];
}
#if PART == 0

//---------------------------------------------------------------- ddpaths

struct Need { G g; bool def; };
/** Graph whose vertices are numbered 1..n, written as an adjacency list. */
static std::string adjacency(Src& s, G& g) {
    std::vector<std::vector<int> > lines(g.nv);
    for (auto const& e : g.e) {
        if (s.flip()) lines[e.first].push_back(e.second); else lines[e.second].push_back(e.first);
    }
    g.e.clear();
    std::string t;
    int last = g.nv - 1;
    while (last > 0 && lines[last].empty() && s.flip()) --last;
    for (int v = 0; v <= last; ++v) {
        for (size_t j = 0; j < lines[v].size(); ++j) {
            t += (j ? " " : "") + std::to_string(lines[v][j] + 1);
            g.e.push_back(std::make_pair(v, lines[v][j]));
        }
        t += "\n";
    }
    return t;
}
PROPERTY(paths, 6) {
    G g = genGraph(s, c, 9, 11);
    // numbers 1..n in a drawn order
    std::vector<int> perm(g.nv);
    for (int i = 0; i < g.nv; ++i) perm[i] = i;
    if (s.flip()) for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[s.below(i)]);
    for (auto& e : g.e) e = std::make_pair(perm[e.first], perm[e.second]);
    std::string text = adjacency(s, g);
    for (int v = 0; v < g.nv; ++v) g.name[v] = std::to_string(v + 1);

    static char const* types[] = {"path", "cycle", "cc", "forest"};
    int type = s.below(4);
    std::vector<std::string> args;
    std::string groups;
    bool haveGroups = false;
    int pairs = 0;
    if (type == 0) {
        if (s.chance(1, 3)) { // default: first to last
            pairs = 1;
            if (g.nv < 2) return;
            g.color[0] = g.color[g.nv - 1] = 1;
        }
        else { pairs = genPairs(s, g, s.range(1, 3)); haveGroups = true; }
    }
    else if (s.chance(1, 2)) {
        int k = s.range(1, 3);
        for (int v = 0; v < g.nv; ++v) if (s.chance(1, 2)) g.color[v] = s.range(1, k);
        haveGroups = true;
    }
    if (haveGroups) {
        std::map<int, std::string> lines;
        for (int v = 0; v < g.nv; ++v) if (g.color[v]) { std::string& l = lines[g.color[v]]; if (!l.empty()) l += " "; l += g.name[v]; }
        for (auto const& l : lines) groups += l.second + "\n";
        if (lines.empty()) haveGroups = false;
    }
    bool optT = type != 0 || s.flip();
    if (optT) { args.push_back("-t"); args.push_back(types[type]); }
    bool hamilton = s.chance(1, 4), slow = s.chance(1, 3), nola = s.chance(1, 3), par = s.chance(1, 3), dc = s.chance(1, 3), nored = s.chance(1, 4);
    if (hamilton) args.push_back("-hamilton");
    if (slow) args.push_back("-slow");
    if (nola) args.push_back("-nola");
    if (par) args.push_back("-p");
    if (dc) args.push_back("-dc");
    if (nored) args.push_back("-nored");
    int lb = 0, ub = INT_MAX, uec = -1;
    if (s.chance(1, 3)) { lb = s.range(0, 6); args.push_back("-lb"); args.push_back(std::to_string(lb)); }
    if (s.chance(1, 3)) { ub = lb + s.range(0, 6); args.push_back("-ub"); args.push_back(std::to_string(ub)); }
    if (type >= 2 && s.chance(1, 2)) { uec = s.range(0, 3); args.push_back("-uec"); args.push_back(std::to_string(uec)); }
    bool count = s.flip(), all = s.flip();
    if (count) args.push_back("-count");
    if (all) args.push_back("-all");
    std::string graph;
    if (s.chance(1, 4) && !all) { graph = s.pick<char const*>({"-zdd", "-export", "-zdd", "-export", "-zdd1"}); args.push_back(graph); }
    std::string gf = scratchFile("graph"), tf = scratchFile("term");
    bool viaStdin = s.chance(1, 5);
    if (!viaStdin) spit(gf, text);
    args.push_back(viaStdin ? "-" : gf);
    if (haveGroups) { spit(tf, groups); args.push_back(tf); }
    if (c.verbose) { c.desc << "ddpaths"; for (auto& a : args) c.desc << " " << a; c.desc << "; graph <<" << text << ">> groups <<" << groups << ">>"; }
    if (type == 1) g.color.assign(g.nv, 0);

    std::set<std::vector<std::string> > want, known; // as sets of edges "a--b"; known: what a recorded finding of C17 gives instead
    bool slowPairs = type == 0 && slow && !hamilton && pairs > 1, hamWindow = type <= 1 && hamilton;
    tdzdd::Graph gr;
    if (hamWindow) {
        for (auto const& e : g.e) gr.addEdge(g.name[e.first], g.name[e.second]);
        gr.update();
    }
    auto edgeName = [&](int i) { int a = g.e[i].first, b = g.e[i].second; return std::to_string(std::min(a, b) + 1) + "-" + std::to_string(std::max(a, b) + 1); };
    for (uint64_t x = 0; x < (uint64_t(1) << g.m()); ++x) {
        int sz = __builtin_popcountll(x);
        if (sz < lb || sz > ub) continue;
        std::vector<int> deg(g.nv, 0);
        Uf uf(g.nv);
        int closed = 0;
        for (int i = 0; i < g.m(); ++i) if (x >> i & 1) {
            ++deg[g.e[i].first];
            ++deg[g.e[i].second];
            if (!uf.join(g.e[i].first, g.e[i].second)) ++closed;
        }
        std::vector<std::string> st;
        for (int i = 0; i < g.m(); ++i) if (x >> i & 1) st.push_back(edgeName(i));
        std::sort(st.begin(), st.end());
        bool ok = true, full = true;
        for (int v = 0; v < g.nv; ++v) full = full && deg[v];
        if (slowPairs && isVirtualCycle(g, x, pairs)) known.insert(st);
        if (type == 0) {
            if (closed) continue;
            for (int v = 0; v < g.nv && ok; ++v) ok = g.color[v] ? deg[v] == 1 : deg[v] == 2 || deg[v] == 0;
            for (int v = 0; v < g.nv && ok; ++v) for (int w = 0; w < v; ++w) if (g.color[v] && g.color[v] == g.color[w] && uf.find(v) != uf.find(w)) ok = false;
        }
        else if (type == 1) {
            if (closed != 1) continue;
            for (int v = 0; v < g.nv && ok; ++v) ok = deg[v] == 2 || deg[v] == 0;
        }
        else {
            if (type == 3 && closed) continue;
            for (int v = 0; v < g.nv && ok; ++v) for (int w = 0; w < v; ++w) if (g.color[v] && g.color[w] && (g.color[v] == g.color[w]) != (uf.find(v) == uf.find(w))) ok = false;
            if (ok && uec >= 0) {
                std::set<int> comps, colored;
                for (int v = 0; v < g.nv; ++v) { if (deg[v]) comps.insert(uf.find(v)); if (g.color[v]) colored.insert(uf.find(v)); }
                int k = 0;
                for (int r : comps) if (!colored.count(r)) ++k;
                ok = k == uec;
            }
        }
        if (!ok) continue;
        if (hamWindow && missesUnseenOnly(g, gr, x, type == 1)) known.insert(st);
        if (hamWindow && !full) continue;
        want.insert(st);
    }
    Result r = run("ddpaths", args, viaStdin ? text : "", s.range(1, 4));
    PBT_EQ(r.rc, 0, "exit status of ddpaths: ", r.err);
    std::vector<std::string> rep = reported(r.err);
    PBT_EQ(rep.size(), size_t(count ? 2 : 1), "reported counts: ", r.err);
    if ((slowPairs || hamWindow) && want != known) {
        if (rep[0] == std::to_string(known.size())) {
            c.tag("known-finding");
            if (known.size() != want.size()) want = known;
            else if (all) return; // the lists may follow either
        }
    }
    for (auto const& x : rep) PBT_EQ(x, std::to_string(want.size()), "reported number of solutions");
    if ((graph == "-zdd" || graph == "-export") && !slowPairs && !hamWindow) {
        Canon m(2);
        std::map<std::string, int> number;
        for (int i = 0; i < g.m(); ++i) number[edgeName(i)] = i;
        std::vector<std::vector<int> > sets;
        for (auto const& x : want) { std::vector<int> v; for (auto const& e : x) v.push_back(number[e]); std::sort(v.begin(), v.end()); sets.push_back(v); }
        int w = familyOf(m, g.m(), sets), x;
        if (graph == "-zdd") { Dot d(r.out, false); x = d.canonRoot(m, Z); } else x = parseExport(m, r.out);
        if (x != w) PBT_FAIL("dumped diagram: ", m.str(x), ", expected ", m.str(w));
        c.tag("dumped");
    }
    if (all) {
        std::istringstream in(r.out);
        std::string line;
        std::vector<std::string> cur;
        std::set<std::vector<std::string> > got;
        while (std::getline(in, line)) {
            if (line == "graph {") cur.clear();
            else if (line == "}") { std::sort(cur.begin(), cur.end()); PBT_CHECK(got.insert(cur).second, "a solution is printed twice"); PBT_CHECK(want.count(cur), "a printed solution is wrong: ", line); }
            else if (line.find("--") != std::string::npos && line.find("bold") != std::string::npos) {
                int a = 0, b = 0;
                PBT_EQ(sscanf(line.c_str(), " \"%d\"--\"%d\"", &a, &b), 2, "printed edge ", line);
                cur.push_back(std::to_string(std::min(a, b)) + "-" + std::to_string(std::max(a, b)));
            }
        }
        PBT_EQ(got.size(), want.size(), "printed solutions");
    }
    c.tag(types[type]);
    c.tag("ddpaths-solutions", !want.empty());
    c.tag("bounds", lb > 0 || ub < INT_MAX);
    c.tag("dc", dc);
    c.nontrivial(want.size() >= 2);
}

//---------------------------------------------------------------- numberlink

struct Num {
    int rows, cols;
    std::vector<std::vector<int> > num;
    std::map<int, std::vector<std::pair<int, int> > > ends;
    struct Sol { std::vector<std::vector<int> > dir; int blank; }; // 1 left, 2 right, 4 up, 8 down
    std::vector<Sol> sols;
    std::vector<std::vector<int> > dir;
    std::vector<std::vector<char> > used;
    std::vector<int> labels;
    long steps;

    void solve() {
        dir.assign(rows, std::vector<int>(cols, 0));
        used.assign(rows, std::vector<char>(cols, 0));
        labels.clear();
        for (auto const& e : ends) labels.push_back(e.first);
        sols.clear();
        steps = 0;
        next(0);
    }
    void next(size_t k) {
        if (k == labels.size()) {
            Sol x;
            x.dir = dir;
            x.blank = 0;
            for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) if (!used[i][j] && !num[i][j]) ++x.blank;
            sols.push_back(x);
            return;
        }
        std::pair<int, int> a = ends[labels[k]][0];
        walk(k, a.first, a.second);
    }
    void walk(size_t k, int i, int j) {
        if (++steps > 400000) return;
        static int const di[] = {0, 0, -1, 1}, dj[] = {-1, 1, 0, 0}, fw[] = {1, 2, 4, 8}, bw[] = {2, 1, 8, 4};
        used[i][j] = 1;
        for (int d = 0; d < 4; ++d) {
            int y = i + di[d], x = j + dj[d];
            if (y < 0 || y >= rows || x < 0 || x >= cols || used[y][x]) continue;
            if (num[y][x] && num[y][x] != labels[k]) continue;
            dir[i][j] |= fw[d];
            dir[y][x] |= bw[d];
            if (num[y][x]) { used[y][x] = 1; next(k + 1); used[y][x] = 0; }
            else walk(k, y, x);
            dir[i][j] &= ~fw[d];
            dir[y][x] &= ~bw[d];
        }
        used[i][j] = 0;
    }
    std::string draw(Sol const& x) const {
        static char const* con[] = {"  ", "  ", "  ", "──", "  ", "─┘", " └", "─┴", "  ", "─┐", " ┌", "─┬", " │", "─┤", " ├", "─┼"};
        std::ostringstream os;
        os << "┏";
        for (int j = 0; j < cols; ++j) os << "━━";
        os << "━┓\n";
        for (int i = 0; i < rows; ++i) {
            os << "┃";
            for (int j = 0; j < cols; ++j) {
                if (num[i][j]) { std::string t = std::to_string(num[i][j]); os << std::string(t.size() < 2 ? 2 - t.size() : 0, ' ') << t; }
                else os << con[x.dir[i][j]];
            }
            os << " ┃\n";
        }
        os << "┗";
        for (int j = 0; j < cols; ++j) os << "━━";
        os << "━┛\n";
        return os.str();
    }
};

PROPERTY(numberlink, 6) {
    Num q;
    q.rows = s.range(1, 5);
    q.cols = s.range(1, 5);
    if (q.rows * q.cols < 2) q.cols = 2;
    if (q.rows * q.cols > 20) q.rows = 3;
    q.num.assign(q.rows, std::vector<int>(q.cols, 0));
    int pairs = s.range(0, std::min(4, q.rows * q.cols / 2)), base = s.chance(1, 5) ? 9 : s.chance(1, 10) ? 90 : 0;
    std::vector<int> cells(q.rows * q.cols);
    for (size_t i = 0; i < cells.size(); ++i) cells[i] = i;
    for (int k = 0; k < 2 * pairs; ++k) {
        std::swap(cells[k], cells[k + s.below(cells.size() - k)]);
        int i = cells[k] / q.cols, j = cells[k] % q.cols, l = base + k / 2 + 1;
        q.num[i][j] = l;
        q.ends[l].push_back(std::make_pair(i, j));
    }
    q.solve();
    if (q.steps > 400000) { c.tag("too-many"); return; }
    bool all = s.chance(2, 3), par = s.chance(1, 4);
    int k = -1, m = 10;
    std::vector<std::string> args;
    if (s.chance(2, 5)) { k = s.range(0, 6); args.push_back("-k"); args.push_back(std::to_string(k)); }
    if (all) args.push_back("-a");
    if (par) args.push_back("-p");
    if (s.chance(1, 2)) { m = s.pick<int>({0, 1, 3, 100000, 100000}); args.push_back("-m"); args.push_back(std::to_string(m)); }
    std::string text;
    if (s.chance(1, 4)) text += "A puzzle\n";
    if (s.chance(1, 3)) text += pbt::cat(q.rows, ",", s.flip() ? " " : "", q.cols, "\n");
    else text += pbt::cat(q.cols, " ", q.rows, "\n");
    bool dense = base == 0 && s.chance(1, 4);
    for (int i = 0; i < q.rows; ++i) {
        for (int j = 0; j < q.cols; ++j) {
            // adjacent numbers need a separator
            bool sep = j && (!dense || (q.num[i][j] && q.num[i][j - 1]));
            text += (sep ? " " : "") + (q.num[i][j] ? std::to_string(q.num[i][j]) : std::string("-"));
        }
        text += "\n";
    }
    bool viaStdin = s.chance(1, 4);
    std::string f = scratchFile("board");
    if (!viaStdin) spit(f, text);
    args.push_back(viaStdin ? "-" : f);
    if (c.verbose) { c.desc << "ddnumlin"; for (auto& a : args) c.desc << " " << a; c.desc << "; board <<" << text << ">>"; }
    std::set<std::string> want;
    for (auto const& x : q.sols) if (k < 0 || x.blank <= k) want.insert(q.draw(x));
    Result r = run("numberlink", args, viaStdin ? text : "", s.range(1, 3));
    PBT_EQ(r.rc, 0, "exit status of ddnumlin: ", r.err);
    std::vector<std::string> rep = reported(r.err);
    PBT_EQ(rep.size(), size_t(1), "reported counts: ", r.err);
    long n = std::atol(rep[0].c_str());
    if (all) PBT_EQ(n, long(want.size()), "reported number of solutions");
    else {
        PBT_CHECK(n <= long(want.size()), n, " solutions reported, only ", want.size(), " exist");
        if (k < 0) PBT_EQ(n > 0, !want.empty(), "some solution is found if there is one");
    }
    std::istringstream in(r.out);
    std::string line, cur;
    std::set<std::string> got;
    long shown = 0;
    double more = 0;
    while (std::getline(in, line)) {
        if (!line.empty() && line[0] == '#') { PBT_EQ(line, pbt::cat("#", ++shown), "numbering"); cur.clear(); }
        else if (line.compare(0, strlen("┏"), "┏") == 0 || line.compare(0, strlen("┃"), "┃") == 0) cur += line + "\n";
        else if (line.compare(0, strlen("┗"), "┗") == 0) {
            cur += line + "\n";
            PBT_CHECK(want.count(cur), "a printed solution is wrong:\n", cur);
            // direct links between adjacent equal numbers are not drawn, so that drawings may coincide only if solutions do
            PBT_CHECK(got.insert(cur).second, "a solution is printed twice:\n", cur);
        }
        else if (line.find(" more solution") != std::string::npos) more = std::atof(line.c_str());
    }
    PBT_EQ(shown, std::min(n, long(m)), "printed solutions");
    PBT_EQ(long(got.size()), shown, "printed boards");
    PBT_EQ(long(more), m ? n - shown : 0L, "remaining solutions");
    c.tag(all ? "numlin-all" : "numlin-some");
    c.tag("numlin-solutions", n > 0);
    c.tag("blank-limit", k >= 0);
    c.tag("one-line", q.rows == 1 || q.cols == 1);
    c.nontrivial(n >= 2);
}

//---------------------------------------------------------------- ddqueens

static void queensFrom(int n, std::vector<std::vector<int> >& out, std::vector<int>& q) {
    int i = q.size();
    if (i == n) { out.push_back(q); return; }
    for (int j = 0; j < n; ++j) {
        bool ok = true;
        for (int k = 0; k < i && ok; ++k) ok = q[k] != j && std::abs(q[k] - j) != i - k;
        if (!ok) continue;
        q.push_back(j);
        queensFrom(n, out, q);
        q.pop_back();
    }
}
static long coloredFrom(int n, int k, std::vector<std::vector<int> > const& all, std::vector<std::vector<char> >& used) {
    if (k == n) return 1;
    long r = 0;
    for (auto const& q : all) if (q[0] == k) {
        bool ok = true;
        for (int i = 0; i < n && ok; ++i) ok = !used[i][q[i]];
        if (!ok) continue;
        for (int i = 0; i < n; ++i) used[i][q[i]] = 1;
        r += coloredFrom(n, k + 1, all, used);
        for (int i = 0; i < n; ++i) used[i][q[i]] = 0;
    }
    return r;
}
PROPERTY(queens, 1) {
    int kind = s.below(4); // plain, rook, colored, colored1
    int n = s.range(1, kind < 2 ? 9 : 7);
    std::vector<std::string> args;
    if (kind == 1) args.push_back("-rook");
    if (kind == 2) args.push_back("-colored");
    if (kind == 3) args.push_back("-colored1");
    if (s.flip()) args.push_back("-p");
    bool dump = s.chance(1, 6);
    if (dump) args.push_back("-dump");
    args.push_back(std::to_string(n));
    if (s.flip()) std::rotate(args.begin(), args.end() - 1, args.end());
    std::vector<std::vector<int> > all;
    std::vector<int> q;
    queensFrom(n, all, q);
    long want = all.size();
    if (kind >= 2) { std::vector<std::vector<char> > used(n, std::vector<char>(n, 0)); want = coloredFrom(n, 0, all, used); }
    if (c.verbose) { c.desc << "ddqueens"; for (auto& a : args) c.desc << " " << a; }
    Result r = run("ddqueens", args, "", s.range(1, 4));
    PBT_EQ(r.rc, 0, "exit status of ddqueens: ", r.err);
    std::vector<std::string> rep = reported(r.err);
    PBT_EQ(rep.size(), size_t(1), "reported counts: ", r.err);
    PBT_EQ(rep[0], std::to_string(want), "reported number of solutions");
    if (dump) {
        PBT_CHECK(r.out.compare(0, 7, "digraph") == 0, "dump");
        if (kind < 2) {
            Canon m(2);
            std::vector<std::vector<int> > sets;
            for (auto const& x : all) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i * n + x[i]); sets.push_back(v); }
            int w = familyOf(m, n * n, sets);
            Dot d(r.out, false);
            int x = d.canonRoot(m, Z);
            if (x != w) PBT_FAIL("dumped diagram: ", m.str(x), ", expected ", m.str(w));
        }
    }
    c.tag(pbt::cat("queens", kind, "-", n));
    c.nontrivial(want >= 2);
}
#endif

#if PART == 1
// The queen specifications themselves, as families of cells.
#include "ompcompat.hpp"
#include <ddqueens/NQueenZdd.hpp>
#include <ddqueens/NAryZdd.hpp>

static void place(int n, int i, bool rook, int firstCol, std::vector<int>& q, std::vector<std::vector<int> >& sets) {
    if (i == n) {
        // row r (from the top), column x, counted from the top level downwards
        std::vector<int> st;
        for (int r = 0; r < n; ++r) st.push_back(r * n + q[r]);
        sets.push_back(st);
        return;
    }
    for (int j = 0; j < n; ++j) {
        if (i == 0 && firstCol >= 0 && j != firstCol) continue;
        bool ok = true;
        for (int k = 0; k < i && ok; ++k) ok = q[k] != j && (rook || std::abs(q[k] - j) != i - k);
        if (!ok) continue;
        q.push_back(j);
        place(n, i + 1, rook, firstCol, q, sets);
        q.pop_back();
    }
}
PROPERTY(queenSpecs, 2) {
    bool rook = s.flip();
    int n = s.range(1, rook ? 5 : 7);
    int first = s.flip() ? -1 : int(s.below(n));
    std::vector<std::vector<int> > sets;
    std::vector<int> q;
    place(n, 0, rook, first, q, sets);
    if (c.verbose) c.desc << (rook ? "rook" : "queen") << " n=" << n << " first=" << first;
    Canon m(2);
    int want = familyOf(m, n * n, sets);
    omp_set_num_threads(s.range(1, 3));
    if (rook) { if (first < 0) checkFamily(s, c, m, NRookZdd(n), want, n * n, "NRookZdd"); else checkFamily(s, c, m, NRookZdd(n, first), want, n * n, "NRookZdd"); }
    else { if (first < 0) checkFamily(s, c, m, NQueenZdd(n), want, n * n, "NQueenZdd"); else checkFamily(s, c, m, NQueenZdd(n, first), want, n * n, "NQueenZdd"); }
    c.tag(rook ? "rook-spec" : "queen-spec");
    c.nontrivial(sets.size() >= 2);
}
PROPERTY(narySpecs, 1) {
    int arity = s.range(2, 5), len = s.range(1, arity <= 3 ? 6 : 4);
    bool hot = s.flip();
    int w = hot ? arity : arity - 1;
    if (c.verbose) c.desc << (hot ? "one-hot " : "") << "arity=" << arity << " length=" << len;
    std::vector<std::vector<int> > sets(1);
    for (int i = 0; i < len; ++i) {
        std::vector<std::vector<int> > nx;
        for (auto const& x : sets) {
            if (!hot) nx.push_back(x);
            for (int j = 0; j < w; ++j) { nx.push_back(x); nx.back().push_back(i * w + j); }
        }
        sets.swap(nx);
    }
    Canon m(2);
    int want = familyOf(m, w * len, sets);
    omp_set_num_threads(s.range(1, 3));
    if (hot) checkFamily(s, c, m, OneHotNAryZdd(arity, len), want, w * len, "OneHotNAryZdd");
    else checkFamily(s, c, m, NAryZdd(arity, len), want, w * len, "NAryZdd");
    c.tag(hot ? "one-hot" : "n-ary");
    c.nontrivial(sets.size() >= 2);
}
#endif

#if PART == 2
//---------------------------------------------------------------- graphillion_example

PROPERTY(graphillion, 3) {
    G g = genGraph(s, c, 9, 10);
    std::vector<std::string> args;
    std::string text, groups;
    if (s.flip()) { // an adjacency list; vertices are numbers
        for (int v = 0; v < g.nv; ++v) g.name[v] = std::to_string(v + 1);
        std::vector<std::vector<int> > lines(g.nv);
        for (auto const& e : g.e) { if (s.flip()) lines[e.first].push_back(e.second); else lines[e.second].push_back(e.first); }
        g.e.clear();
        for (int v = 0; v < g.nv; ++v) {
            for (size_t j = 0; j < lines[v].size(); ++j) { text += (j ? " " : "") + g.name[lines[v][j]]; g.e.push_back(std::make_pair(v, lines[v][j])); }
            text += "\n";
        }
        args.push_back("-a");
    }
    else if (s.flip()) { // numbers in some order
        std::vector<int> perm(g.nv);
        for (int i = 0; i < g.nv; ++i) perm[i] = i + 1;
        for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[s.below(i)]);
        for (int v = 0; v < g.nv; ++v) g.name[v] = std::to_string(perm[v]);
    }
    if (text.empty()) for (auto const& e : g.e) text += g.name[e.first] + " " + g.name[e.second] + "\n";
    // vertices in the order of the program
    std::vector<int> order;
    { tdzdd::Graph gr; for (auto const& e : g.e) gr.addEdge(g.name[e.first], g.name[e.second]); gr.update();
      for (int k = 1; k <= gr.vertexSize(); ++k) for (int v = 0; v < g.nv; ++v) if (gr.vertexName(k) == g.name[v]) order.push_back(v); }
    PBT_EQ(int(order.size()), g.nv, "vertices");
    bool st = s.chance(1, 5), withGroups = !st && s.chance(1, 2) && isdigit((unsigned char)g.name[0][0]); // group files hold numbers
    if (st) { args.push_back("-st"); g.color[order.front()] = g.color[order.back()] = 1; }
    if (withGroups) {
        int k = s.range(1, 3);
        for (int v = 0; v < g.nv; ++v) if (s.chance(1, 3)) g.color[v] = s.range(1, k);
        std::map<int, std::string> lines;
        for (int v = 0; v < g.nv; ++v) if (g.color[v]) { std::string& l = lines[g.color[v]]; if (!l.empty()) l += " "; l += g.name[v]; }
        for (auto const& l : lines) groups += l.second + "\n";
        withGroups = !lines.empty();
    }
    int degree = s.below(5); // 1 path, 2 matching, 3 spanning
    if (degree == 1) args.push_back("-path");
    if (degree == 2) args.push_back("-matching");
    if (degree == 3) args.push_back("-spanning");
    bool noloop = s.chance(1, 3);
    if (noloop) args.push_back("-noloop");
    if (s.chance(1, 3)) args.push_back("-nola");
    int lb = 0, ub = INT_MAX, uec = degree == 1 ? 0 : -1;
    if (s.chance(1, 3)) { lb = s.range(0, 5); args.push_back("-lb"); args.push_back(std::to_string(lb)); }
    if (s.chance(1, 3)) { ub = lb + s.range(0, 5); args.push_back("-ub"); args.push_back(std::to_string(ub)); }
    if (s.chance(1, 3)) { uec = s.range(0, 3); args.push_back("-uec"); args.push_back(std::to_string(uec)); }
    bool count = s.flip();
    if (count) args.push_back("-count");
    if (s.chance(1, 4)) args.push_back("-sapporo");
    int out = s.below(4), most = 0; // 1 solutions, 2 diagram, 3 export
    if (out == 1) { most = s.pick<int>({1, 2, 5, 100000}); args.push_back("-solutions"); args.push_back(std::to_string(most)); }
    if (out == 2) args.push_back("-zdd");
    if (out == 3) args.push_back("-export");

    Canon m(2);
    std::string in;
    std::vector<char> base;
    if (s.chance(1, 3)) { // a family of edge sets to choose from; edge i has index i + 1
        Rng r(s.u64());
        int p = s.range(1, 9);
        base.resize(size_t(1) << g.m());
        for (auto& b : base) b = int(r.below(10)) < p;
        base[base.size() >> 1] = 1; // the last edge alone, so that the last index occurs
        base[0] = s.flip();
        int f = familyOf(m, g.m(), [&](uint64_t x) { return bool(base[x]); });
        std::vector<int> nodes, todo(1, f);
        std::set<int> seen;
        bool lowest = false;
        while (!todo.empty()) { int x = todo.back(); todo.pop_back(); if (x <= 1 || !seen.insert(x).second) continue; nodes.push_back(x); lowest = lowest || m.level(x) == 1; todo.push_back(m.kid(x, 0)); todo.push_back(m.kid(x, 1)); }
        PBT_CHECK(lowest, "generated family");
        std::sort(nodes.begin(), nodes.end(), [&](int x, int y) { return m.level(x) < m.level(y); });
        auto ref = [&](int x) { return x == 0 ? std::string("B") : x == 1 ? std::string("T") : std::to_string(x); };
        for (int x : nodes) in += pbt::cat(ref(x), " ", g.m() - m.level(x) + 1, " ", ref(m.kid(x, 0)), " ", ref(m.kid(x, 1)), "\n");
        in += ".\n";
        args.push_back("-import");
        c.tag("import");
    }
    std::string gf = scratchFile("graph"), tf = scratchFile("term");
    spit(gf, text);
    args.push_back(gf);
    if (withGroups) { spit(tf, groups); args.push_back(tf); }
    if (c.verbose) { c.desc << "graphillion_example"; for (auto& a : args) c.desc << " " << a; c.desc << "; graph <<" << text << ">> groups <<" << groups << ">> stdin <<" << in << ">>"; }

    auto edgeName = [&](int i) { std::string a = g.name[g.e[i].first], b = g.name[g.e[i].second]; return std::min(a, b) + " " + std::max(a, b); };
    std::set<std::vector<std::string> > sets;
    long n = 0;
    int want = familyOf(m, g.m(), [&](uint64_t x) {
        if (!base.empty() && !base[x]) return false;
        int sz = __builtin_popcountll(x);
        if (sz < lb || sz > ub) return false;
        std::vector<int> deg(g.nv, 0);
        Uf uf(g.nv);
        for (int i = 0; i < g.m(); ++i) if (x >> i & 1) {
            ++deg[g.e[i].first];
            ++deg[g.e[i].second];
            if (!uf.join(g.e[i].first, g.e[i].second) && noloop) return false;
        }
        for (int v = 0; v < g.nv; ++v) {
            if (degree == 1 && (g.color[v] ? deg[v] != 1 : deg[v] != 0 && deg[v] != 2)) return false;
            if (degree == 2 && deg[v] > 1) return false;
            if (degree == 3 && !g.color[v] && deg[v] == 0) return false;
            for (int w = 0; w < v; ++w) if (g.color[v] && g.color[w] && (g.color[v] == g.color[w]) != (uf.find(v) == uf.find(w))) return false;
        }
        if (uec >= 0) {
            std::set<int> comps, colored;
            for (int v = 0; v < g.nv; ++v) { if (deg[v]) comps.insert(uf.find(v)); if (g.color[v]) colored.insert(uf.find(v)); }
            int k = 0;
            for (int r : comps) if (!colored.count(r)) ++k;
            if (k != uec) return false;
        }
        std::vector<std::string> e;
        for (int i = 0; i < g.m(); ++i) if (x >> i & 1) e.push_back(edgeName(i));
        std::sort(e.begin(), e.end());
        sets.insert(e);
        return true;
    }, &n);
    Result r = run("graphillion", args, in, s.range(1, 3));
    PBT_EQ(r.rc, 0, "exit status of graphillion_example: ", r.err);
    std::vector<std::string> rep = reported(r.err);
    PBT_EQ(rep.size(), size_t(count ? 2 : 1), "reported counts: ", r.err);
    for (auto const& x : rep) PBT_EQ(x, std::to_string(n), "reported number of solutions");
    if (out == 1) {
        std::istringstream is(r.out);
        std::string line;
        std::vector<std::string> cur;
        std::set<std::vector<std::string> > got;
        while (std::getline(is, line)) {
            if (line == "graph {") cur.clear();
            else if (line == "}") { std::sort(cur.begin(), cur.end()); PBT_CHECK(got.insert(cur).second, "a solution is printed twice"); PBT_CHECK(sets.count(cur), "a printed solution is wrong"); }
            else if (line.find("--") != std::string::npos && line.find("bold") != std::string::npos) {
                size_t p = 0;
                std::string a = Dot::quoted(line, p), b = Dot::quoted(line, p);
                cur.push_back(std::min(a, b) + " " + std::max(a, b));
            }
        }
        PBT_EQ(long(got.size()), std::min<long>(n, most), "printed solutions");
    }
    if (out == 2) { Dot d(r.out, false); int x = d.canonRoot(m, Z); if (x != want) PBT_FAIL("dumped diagram: ", m.str(x), ", expected ", m.str(want)); }
    if (out == 3) { int x = parseExport(m, r.out); if (x != want) PBT_FAIL("exported diagram: ", m.str(x), ", expected ", m.str(want)); }
    c.tag(degree == 1 ? "g-path" : degree == 2 ? "g-matching" : degree == 3 ? "g-spanning" : "g-any");
    c.tag(out == 1 ? "g-solutions" : out == 2 ? "g-diagram" : out == 3 ? "g-export" : "g-count");
    c.nontrivial(n >= 2);
}
#endif
