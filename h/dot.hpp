// A reader for the DOT files that diagrams are dumped to.
#pragma once
#include "model.hpp"

namespace model {

/** A DOT file as a list of nodes with levels, coloured edges, a root and true terminals. */
struct Dot {
    struct Edge { std::string to, style, color; };
    std::map<std::string, std::vector<Edge> > out;
    std::map<std::string, int> rank;
    std::map<std::string, std::string> label; // of declared nodes
    std::map<int, std::string> levelLabel;
    std::string title;
    std::set<std::string> declared, truth, dead;
    std::string root;
    int levels;

    static std::string quoted(std::string const& x, size_t& pos) {
        size_t i = x.find('"', pos);
        if (i == std::string::npos) PBT_FAIL("no quoted name in: ", x);
        size_t j = x.find('"', i + 1);
        if (j == std::string::npos) PBT_FAIL("unterminated name in: ", x);
        pos = j + 1;
        return x.substr(i + 1, j - i - 1);
    }
    static std::string attr(std::string const& x, std::string const& key) {
        size_t i = x.find(key + "=");
        if (i == std::string::npos) return "";
        i += key.size() + 1;
        if (i < x.size() && x[i] == '"') { size_t j = x.find('"', i + 1); return x.substr(i + 1, j - i - 1); }
        size_t j = x.find_first_of(",];", i);
        return x.substr(i, j - i);
    }

    explicit Dot(std::string const& text, bool table) : levels(0) {
        std::istringstream is(text);
        std::string x;
        PBT_CHECK(bool(std::getline(is, x)) && x.compare(0, 8, "digraph ") == 0, "no digraph header");
        bool closed = false;
        while (std::getline(is, x)) {
            PBT_CHECK(!closed, "text after the end of the graph");
            size_t p = x.find_first_not_of(' ');
            if (p == std::string::npos) continue;
            if (x[p] == '}') { closed = true; continue; }
            if (x[p] == '{') { // {rank=same; L; "a"; "b"}
                PBT_CHECK(x.compare(p, 11, "{rank=same;") == 0, "unexpected: ", x);
                int lev = std::atoi(x.c_str() + p + 11);
                size_t q = p;
                while (x.find('"', q) != std::string::npos) {
                    std::string nm = quoted(x, q);
                    PBT_CHECK(rank.insert(std::make_pair(nm, lev)).second, "node ", nm, " in two ranks");
                }
                continue;
            }
            if (x[p] == '"') {
                size_t q = p;
                std::string a = quoted(x, q);
                size_t arrow = x.find("->", q);
                size_t br = x.find('[', q);
                if (arrow != std::string::npos && (br == std::string::npos || arrow < br)) {
                    q = arrow;
                    Edge e;
                    e.to = quoted(x, q);
                    std::string rest = x.substr(q);
                    e.style = attr(rest, "style");
                    e.color = attr(rest, "color");
                    if (a == "^") { PBT_CHECK(root.empty(), "two roots"); root = e.to; }
                    else out[a].push_back(e);
                }
                else {
                    std::string rest = x.substr(q);
                    if (a == "^") { title = attr(rest, "label"); continue; }
                    if (attr(rest, "shape") == "square") truth.insert(a);
                    else if (attr(rest, "style") == "invis") dead.insert(a);
                    else {
                        PBT_CHECK(declared.insert(a).second, "node ", a, " declared twice");
                        label[a] = attr(rest, "label");
                    }
                }
                continue;
            }
            if (isdigit(x[p])) { // level labels and their invisible chain
                if (x.find("->") == std::string::npos) {
                    int l = std::atoi(x.c_str() + p);
                    levels = std::max(levels, l);
                    levelLabel[l] = attr(x, "label");
                }
                continue;
            }
            PBT_CHECK(x.find("label") != std::string::npos, "unexpected: ", x);
            if (x.compare(p, 6, "label=") == 0) title = attr(x.substr(p), "label");
        }
        PBT_CHECK(closed, "graph not closed");
    }

    /** Children of a node by value; values above 2 share one colour, so they come back sorted. */
    void kids(std::string const& f, int N, std::vector<std::vector<std::string> >& k) {
        k.assign(4, std::vector<std::string>());
        for (Edge const& e : out[f]) {
            int b;
            if (e.style == "dashed") b = 0;
            else if (e.style == "solid") b = N == 2 ? 1 : e.color == "blue" ? 1 : e.color == "red" ? 2 : e.color == "green" ? 3 : -1;
            else b = -1;
            PBT_CHECK(b >= 0 && b < N, "edge of ", f, " with style ", e.style, " ", e.color);
            k[b].push_back(e.to);
        }
        for (int b = 0; b < 3; ++b) PBT_CHECK(k[b].size() <= 1, "several edges of ", f, " for value ", b);
        PBT_CHECK(int(k[3].size()) <= std::max(0, N - 3), "too many edges of ", f);
    }

    std::map<std::string, int> memo;
    int canon(Canon& m, Rule r, std::string const& f) {
        if (truth.count(f)) return 1;
        if (dead.count(f)) return 0;
        auto it = memo.find(f);
        if (it != memo.end()) return it->second;
        PBT_CHECK(declared.count(f), "edge to undeclared node ", f);
        PBT_CHECK(rank.count(f), "node ", f, " has no level");
        int lev = rank[f];
        std::vector<std::vector<std::string> > ks;
        kids(f, m.N, ks);
        std::vector<int> k(m.N, 0);
        for (int b = 0; b < 3 && b < m.N; ++b) if (!ks[b].empty()) k[b] = canon(m, r, ks[b][0]);
        for (size_t i = 0; i < ks[3].size(); ++i) k[3 + i] = canon(m, r, ks[3][i]);
        for (int b = 0; b < m.N; ++b) PBT_CHECK(m.level(k[b]) < lev, "edge from level ", lev, " to ", m.level(k[b]));
        if (m.N > 4) std::sort(k.begin() + 3, k.end());
        return memo[f] = m.mk(r, lev, k);
    }
    int canonRoot(Canon& m, Rule r) { return root.empty() ? 0 : canon(m, r, root); }
};

} // namespace model
