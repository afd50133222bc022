// C20: a graph reports exactly the vertices, edges and groups it was given.
#include <fstream>
#include <iostream>
#include <unistd.h>
#include "specs.hpp"
#include <tdzdd/util/Graph.hpp>
using namespace model;
typedef std::pair<std::string, std::string> Names;

struct Model {
    std::vector<Names> edges; // as given
    std::map<std::string, std::string> group;

    std::vector<Names> unique() const {
        std::vector<Names> u;
        std::set<Names> seen;
        for (Names const& e : edges) {
            if (seen.count(e) || seen.count(Names(e.second, e.first))) continue;
            seen.insert(e);
            u.push_back(e);
        }
        return u;
    }
    std::set<std::string> vertices() const {
        std::set<std::string> v;
        for (Names const& e : edges) { v.insert(e.first); v.insert(e.second); }
        return v;
    }
    bool valid() const {
        std::set<std::string> v = vertices();
        for (auto const& x : group) if (!v.count(x.first)) return false;
        return true;
    }
};

template<typename F> static void mustThrow(F f, std::string const& what) {
    bool threw = false;
    try { f(); } catch (std::runtime_error&) { threw = true; }
    PBT_CHECK(threw, what, " was not rejected");
}

static void checkGraph(tdzdd::Graph const& g, Model const& m, bool colorFlags) {
    std::vector<Names> e = m.unique();
    std::set<std::string> vs = m.vertices();
    int const n = e.size(), nv = vs.size();
    PBT_EQ(int(g.edgeSize()), n, "number of edges");
    PBT_EQ(int(g.vertexSize()), nv, "number of vertices");
    std::set<int> nums;
    for (auto const& x : vs) {
        int v = g.getVertex(x);
        PBT_CHECK(v >= 1 && v <= nv, "number of ", x, " is ", v);
        PBT_CHECK(nums.insert(v).second, "number ", v, " used twice");
        PBT_EQ(g.vertexName(v), x, "name of ", v);
        PBT_EQ(g.vertexLabel(v), x, "label of ", v);
    }
    PBT_EQ(g.vertexName(0), std::string("?"), "name of vertex 0");
    PBT_EQ(g.vertexName(nv + 1), std::string("?"), "name of a vertex beyond the last");
    PBT_EQ(g.edgeName(-1).first, std::string("?"), "name of edge -1");
    PBT_EQ(g.edgeName(n).first, std::string("?"), "name of an edge beyond the last");
    mustThrow([&] { g.getVertex("no such"); }, "unknown vertex");
    mustThrow([&] { g.getEdge("no such", "vertex"); }, "unknown edge");
    // edge order
    std::vector<int> last(nv + 1, -1), last2(nv + 1, -1);
    for (int a = 0; a < n; ++a) {
        int x = g.getVertex(e[a].first), y = g.getVertex(e[a].second);
        last2[x] = last[x];
        if (y != x) last2[y] = last[y];
        last[x] = last[y] = a;
    }
    for (int v = 2; v <= nv; ++v) PBT_CHECK(last[v - 1] <= last[v], "vertices are not numbered in leaving order at ", v);
    // groups
    std::map<std::string, std::set<int> > groups;
    std::vector<std::string> of(nv + 1);
    for (auto const& x : m.group) { groups[x.second].insert(g.getVertex(x.first)); of[g.getVertex(x.first)] = x.second; }
    PBT_EQ(int(g.numColor()), int(groups.size()), "number of groups");
    bool pairs = !groups.empty();
    for (auto const& x : groups) if (x.second.size() != 2) pairs = false;
    PBT_EQ(g.hasColorPairs(), pairs, "groups are pairs");
    std::map<int, std::string> num2group;
    std::map<std::string, int> group2num;
    for (int v = 0; v <= nv + 1; ++v) {
        int k = g.colorNumber(v);
        bool in = v >= 1 && v <= nv && m.group.count(g.vertexName(v));
        PBT_EQ(k != 0, in, "vertex ", v, " in a group");
        int mate = 0;
        if (in) {
            PBT_CHECK(k >= 1 && k <= int(groups.size()), "group number ", k);
            PBT_CHECK(!num2group.count(k) || num2group[k] == of[v], "group number ", k, " for two groups");
            PBT_CHECK(!group2num.count(of[v]) || group2num[of[v]] == k, "two numbers for one group");
            num2group[k] = of[v];
            group2num[of[v]] = k;
            std::set<int> const& s = groups[of[v]];
            if (s.size() == 2) mate = *s.begin() == v ? *s.rbegin() : *s.begin();
        }
        PBT_EQ(int(g.virtualMate(v)), mate, "mate of ", v);
    }
    // edges and frontier
    int allSeen = groups.empty() ? 0 : -1, frontier = 0;
    std::set<std::string> touched;
    for (int a = 0; a < n; ++a) {
        int x = g.getVertex(e[a].first), y = g.getVertex(e[a].second);
        PBT_CHECK(g.edgeName(a) == e[a], "name of edge ", a, " is ", g.edgeName(a).first, ",", g.edgeName(a).second, ", expected ", e[a].first, ",", e[a].second);
        PBT_EQ(g.edgeLabel(a), e[a].first + "," + e[a].second, "label of edge ", a);
        PBT_EQ(int(g.getEdge(e[a].first, e[a].second)), a, "number of edge by names");
        PBT_EQ(int(g.getEdge(e[a].second, e[a].first)), a, "number of edge by reversed names");
        PBT_EQ(int(g.getEdge(e[a])), a, "number of edge by name pair");
        PBT_EQ(int(g.getEdge(x, y)), a, "number of edge by vertices");
        PBT_EQ(int(g.getEdge(y, x)), a, "number of edge by reversed vertices");
        tdzdd::Graph::EdgeInfo const& i = g.edgeInfo(a);
        PBT_EQ(i.v1, std::min(x, y), "first vertex of edge ", a);
        PBT_EQ(i.v2, std::max(x, y), "second vertex of edge ", a);
        int v0 = 1;
        while (last[v0] < a) ++v0;
        PBT_EQ(i.v0, v0, "first frontier vertex at edge ", a);
        PBT_EQ(i.v1final, last[i.v1] == a, "v1final at ", a);
        PBT_EQ(i.v2final, last[i.v2] == a, "v2final at ", a);
        PBT_EQ(i.v1final2, last2[i.v1] == a, "v1final2 at ", a);
        PBT_EQ(i.v2final2, last2[i.v2] == a, "v2final2 at ", a);
        PBT_EQ(i.finalEdge, a == n - 1, "finalEdge at ", a);
        if (!of[x].empty()) touched.insert(of[x]);
        if (!of[y].empty()) touched.insert(of[y]);
        if (allSeen < 0 && touched.size() == groups.size()) allSeen = a;
        if (colorFlags) PBT_EQ(i.allColorsSeen, allSeen >= 0 && a >= allSeen, "allColorsSeen at ", a);
        frontier = std::max(frontier, i.v2 - v0 + 1);
    }
    PBT_EQ(int(g.maxFrontierSize()), frontier, "largest frontier");
    // pairs of vertices without an edge
    if (nv <= 7) for (int x = 1; x <= nv; ++x) for (int y = x; y <= nv; ++y) {
        Names p(g.vertexName(x), g.vertexName(y)), q(p.second, p.first);
        if (std::find(e.begin(), e.end(), p) != e.end() || std::find(e.begin(), e.end(), q) != e.end()) continue;
        mustThrow([&] { g.getEdge(x, y); }, "edge between unconnected vertices");
        mustThrow([&] { g.getEdge(p); }, "edge between unconnected names");
    }
    // the dump lists the same vertices and edges
    std::ostringstream os;
    os << g;
    std::istringstream is(os.str());
    std::string line;
    std::set<std::string> dv;
    std::vector<std::set<std::string> > de;
    while (std::getline(is, line)) {
        size_t i = line.find('"');
        if (i == std::string::npos) continue;
        size_t j = line.find('"', i + 1);
        std::string a = line.substr(i + 1, j - i - 1);
        size_t k = line.find("--\"", j);
        if (k != std::string::npos) {
            size_t z = line.find('"', k + 3);
            std::set<std::string> p;
            p.insert(a);
            p.insert(line.substr(k + 3, z - k - 3));
            de.push_back(p);
        }
        else PBT_CHECK(dv.insert(a).second, "vertex ", a, " dumped twice");
    }
    PBT_CHECK(dv == vs, "dumped vertices");
    PBT_EQ(de.size(), e.size(), "dumped edges");
    for (int a = 0; a < n; ++a) {
        std::set<std::string> p;
        p.insert(e[a].first);
        p.insert(e[a].second);
        PBT_CHECK(de[a] == p, "dumped edge ", a);
    }
}

/** Hands text to a reader through standard input or a scratch file. */
template<typename F> static void feed(Src& s, std::string const& text, F f) {
    if (s.chance(1, 16)) {
        char name[] = "/tmp/vpgraphXXXXXX";
        int fd = mkstemp(name);
        if (fd < 0) PBT_FAIL("no scratch file");
        if (write(fd, text.data(), text.size()) != ssize_t(text.size())) PBT_FAIL("cannot write scratch file");
        close(fd);
        try { f(std::string(name)); } catch (...) { unlink(name); throw; }
        unlink(name);
        return;
    }
    std::istringstream is(text);
    std::streambuf* old = std::cin.rdbuf(is.rdbuf());
    std::cin.clear();
    try { f(std::string()); } catch (...) { std::cin.rdbuf(old); std::cin.clear(); throw; }
    std::cin.rdbuf(old);
    std::cin.clear();
}

static std::string blank(Src& s) { return s.chance(7, 8) ? " " : s.flip() ? "\t" : "  "; }

static void history(Src& s, Ctx& c, bool big) {
    tdzdd::Graph g;
    Model m;
    int names = big ? s.range(40, 700) : s.range(2, 8), scale = big ? 40 : 1, naming = s.below(3);
    auto nm = [&](int v) { return naming == 0 ? pbt::cat(v + 1) : naming == 1 ? pbt::cat("v", v) : pbt::cat("x y", 10 - v); };
    int steps = s.range(1, 12);
    bool colorFlags = true, updated = false;
    for (int step = 0; step < steps; ++step) {
        int op = s.below(12);
        bool doUpdate = false, fresh = false;
        if (op <= 3) {
            int k = s.range(1, 8 * scale);
            for (int i = 0; i < k; ++i) {
                int a = s.below(names), b = big && s.flip() ? (a + 1 + s.below(20)) % names : s.below(names);
                if (a == b && !s.chance(1, 8)) b = (a + 1) % names;
                m.edges.push_back(Names(nm(a), nm(b)));
                g.addEdge(nm(a), nm(b));
                if (c.verbose) c.desc << " edge(" << nm(a) << "," << nm(b) << ")";
            }
            doUpdate = s.chance(2, 3);
        }
        else if (op <= 5) {
            int k = s.range(1, 4 * scale);
            for (int i = 0; i < k; ++i) {
                int v = s.below(names), col = s.below(4 * scale);
                if (!m.vertices().count(nm(v)) && !s.chance(1, 10)) continue;
                if (c.verbose) c.desc << " group(" << nm(v) << "," << col << ")";
                if (s.flip()) { m.group[nm(v)] = pbt::cat("name", col); g.setColor(nm(v), pbt::cat("name", col)); }
                else { m.group[nm(v)] = pbt::cat("int", col); g.setColor(nm(v), col); }
            }
            doUpdate = s.chance(2, 3);
        }
        else if (op == 6) { // edge list text
            c.tag("edge-list");
            int k = s.range(0, 6 * scale), bad = -1;
            if (k > 0 && s.chance(1, 10)) bad = s.below(k);
            std::string text;
            std::vector<Names> add;
            char const* eol = s.chance(1, 6) ? "\r\n" : "\n";
            for (int i = 0; i < k; ++i) {
                std::string a = pbt::cat(naming == 1 ? "v" : "", s.range(0, names)), b = pbt::cat(naming == 1 ? "v" : "", s.range(0, names));
                if (s.chance(1, 8)) text += eol;
                if (s.chance(1, 8)) text += blank(s);
                text += a;
                if (i == bad && s.flip()) { text += s.flip() ? eol : " \n"; continue; }
                text += blank(s) + b;
                if (i == bad) text += blank(s) + "extra";
                if (s.chance(1, 8)) text += blank(s);
                if (i + 1 < k || bad >= 0 || s.chance(3, 4)) text += eol;
                else c.tag("no-final-newline");
                add.push_back(Names(a, b));
            }
            if (c.verbose) c.desc << " readEdges<<" << text << ">>";
            if (bad >= 0) {
                c.tag("malformed");
                mustThrow([&] { feed(s, text, [&](std::string const& f) { g.readEdges(f); }); }, "malformed edge list");
                return;
            }
            m.edges.insert(m.edges.end(), add.begin(), add.end());
            if (!m.valid()) { mustThrow([&] { feed(s, text, [&](std::string const& f) { g.readEdges(f); }); }, "group of an unknown vertex"); return; }
            feed(s, text, [&](std::string const& f) { g.readEdges(f); });
            fresh = true;
        }
        else if (op == 7) { // adjacency list text
            c.tag("adjacency-list");
            int k = s.range(0, 6 * scale);
            bool bad = s.chance(1, 10);
            std::string text;
            std::vector<Names> add;
            for (int i = 1; i <= k; ++i) {
                int d = s.range(0, 3);
                for (int j = 0; j < d; ++j) {
                    int b = s.range(1, names);
                    text += (j ? blank(s) : std::string()) + pbt::cat(b);
                    add.push_back(Names(pbt::cat(i), pbt::cat(b)));
                }
                if (s.chance(1, 8)) text += blank(s);
                if (i < k || s.chance(3, 4)) text += "\n";
            }
            if (bad) { // a token that is not a number
                size_t at = text.empty() ? 0 : s.below(text.size() + 1);
                while (at > 0 && at < text.size() && !isspace(text[at])) ++at;
                text.insert(at, s.flip() ? " abc " : " x");
            }
            if (c.verbose) c.desc << " readAdjacencyList<<" << text << ">>";
            if (bad) {
                c.tag("malformed");
                mustThrow([&] { feed(s, text, [&](std::string const& f) { g.readAdjacencyList(f); }); }, "malformed adjacency list");
                return;
            }
            m.edges = add;
            m.group.clear();
            feed(s, text, [&](std::string const& f) { g.readAdjacencyList(f); });
            fresh = true;
        }
        else if (op == 8 || op == 9) { // group file
            std::set<std::string> vs = m.vertices();
            std::vector<std::string> num;
            for (auto const& x : vs) if (isdigit(x[0])) num.push_back(x);
            if (num.empty()) continue;
            c.tag("group-file");
            bool unknown = s.chance(1, 12), bad = !unknown && s.chance(1, 12);
            int k = s.range(0, 4 * scale);
            std::string text;
            m.group.clear();
            for (int i = 0; i < k; ++i) {
                int d = s.range(0, 3);
                for (int j = 0; j < d; ++j) {
                    std::string v = num[s.below(num.size())];
                    text += (j ? blank(s) : std::string()) + v;
                    m.group[v] = pbt::cat("int", i);
                }
                if (i + 1 < k || s.chance(3, 4)) text += "\n";
            }
            if (unknown) text += " 777";
            if (bad) text += " foo";
            if (c.verbose) c.desc << " readVertexGroups<<" << text << ">>";
            if (unknown || bad) {
                c.tag("malformed");
                mustThrow([&] { feed(s, text, [&](std::string const& f) { g.readVertexGroups(f); }); }, unknown ? "group of an unknown vertex" : "malformed group file");
                return;
            }
            feed(s, text, [&](std::string const& f) { g.readVertexGroups(f); });
            fresh = true;
        }
        else if (op == 10) {
            if (!updated) continue;
            c.tag("clear");
            if (c.verbose) c.desc << " clearColors";
            // takes effect on the graph as of the last update
            m.group.clear();
            g.clearColors();
            Model now = m;
            colorFlags = false;
            doUpdate = s.flip();
            if (!doUpdate) continue;
        }
        else {
            if (!updated || !m.vertices().count("1") || !m.valid()) continue;
            g.update(); // so that vMax counts every edge
            int k = g.vertexSize();
            if (c.verbose) c.desc << " setDefaultPathColor";
            m.group.clear();
            m.group["1"] = "d";
            m.group[pbt::cat(k)] = "d";
            if (!m.valid()) { mustThrow([&] { g.setDefaultPathColor(); }, "group of an unknown vertex"); return; }
            g.setDefaultPathColor();
            fresh = true;
        }
        if (doUpdate) {
            if (!m.valid()) {
                c.tag("unknown-vertex");
                mustThrow([&] { g.update(); }, "group of an unknown vertex");
                return;
            }
            if (c.verbose) c.desc << " update";
            g.update();
            fresh = true;
        }
        if (fresh) {
            updated = true;
            colorFlags = true;
            checkGraph(g, m, true);
            c.nontrivial(m.unique().size() >= 3);
            if (!m.group.empty()) c.tag("grouped");
            if (s.chance(1, 6)) { // clearing without another update
                m.group.clear();
                g.clearColors();
                if (c.verbose) c.desc << " clearColors";
                checkGraph(g, m, false);
                c.tag("clear");
            }
            if (s.chance(1, 6)) { // a copy is independent
                tdzdd::Graph h = g;
                h.addEdge("p", "q");
                h.update();
                Model mm = m;
                mm.edges.push_back(Names("p", "q"));
                checkGraph(h, mm, true);
                checkGraph(g, m, false);
            }
        }
    }
}
PROPERTY(history, 1) { history(s, c, false); }
PROPERTY(large, -1000) { history(s, c, true); }
