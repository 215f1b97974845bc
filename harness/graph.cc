// The graph library behind the centrality heuristic against brute force on small graphs.
#include "gen.h"
#include "candy/teexgraph/Graph.h"
#include <cmath>
typedef std::vector<std::set<int>> Adj;
static const int INF = 1 << 28;
struct Plain { // the graph as given: names 0..n-1 are the library's numbers
    int n = 0; Adj out, in, und; long self = 0;
    std::vector<std::vector<int>> dist(const Adj& a) const { std::vector<std::vector<int>> d(n, std::vector<int>(n, INF)); for (int s = 0; s < n; s++) { d[s][s] = 0; std::vector<int> q{s}; for (size_t i = 0; i < q.size(); i++) for (int w : a[q[i]]) if (d[s][w] == INF) { d[s][w] = d[s][q[i]] + 1; q.push_back(w); } } return d; }
};
static Plain build(pbt::Src& s, pbt::Ctx& ctx, Graph& g, bool undirected) {
    Plain p; std::map<int, int> name; int k = s.coin(1, 10) ? (s.coin(1, 4) ? s.range(60, 160) : s.range(15, 60)) : s.range(1, 14); unsigned shape = s.pick({5, 2, 2, 1, 1, 1, 1}); bool loops = s.coin(1, 4); std::vector<std::pair<int, int>> es;
    auto add = [&](int a, int b) { if (a == b && !loops) return; es.push_back({a, b}); };
    if (shape == 1) for (int i = 0; i + 1 < k; i++) add(i, i + 1);
    if (shape == 2) for (int i = 1; i < k; i++) add((int)s.below(i), i);
    if (shape == 3) for (int i = 0; i < std::min(k, 6); i++) for (int j = 0; j < i; j++) add(i, j);
    if (shape == 4) for (int i = 0; i < k; i++) { add(i, i); if (loops && s.coin(1, 4) && i) add(i, i - 1); }
    if (shape == 5) { int h = (int)s.below(k); for (int i = 0; i < k; i++) if (i != h && !s.coin(1, 8)) { if (s.flip()) add(h, i); else add(i, h); } } // a hub
    if (shape == 6) { int q = s.range(1, k); for (int i = 0; i < k; i++) add(i < q ? i : (int)s.below(q), i < q ? std::min(i + 1, k - 1) : i); } // a path with legs
    s.list(0, shape == 0 ? 2 * k : k > 14 ? k / 2 : 3, [&]() { int a = (int)s.below(k), b = (int)s.below(k); add(a, b); if (s.coin(1, 6)) add(a, b); if (s.coin(1, 6)) add(b, a); });
    if (es.empty()) es.push_back({0, 1});
    for (size_t i = 0; i + 1 < es.size(); i++) if (s.coin(1, 3)) std::swap(es[i], es[i + s.below(es.size() - i)]);
    long off = s.coin(1, 3) ? s.range(1, 1000) : 0;
    size_t pause = s.coin(1, 4) ? s.below(es.size()) : es.size(), at = 0; // results computed for a part of the graph are out of date once there are more edges
    if (s.coin(1, 5)) { ctx.show << "(after clear()) "; int j = s.range(1, 8); for (int i = 0; i <= j; i++) g.addEdge(g.mapNode((int)s.below(9) + 5), g.mapNode((int)s.below(9))); if (s.flip()) g.makeUndirected(); g.computeWCC(); if (s.flip() && !g.isUndirected()) g.computeSCC(); g.clear(); ctx.check(g.nodes(FULL) == 0 && g.edges(FULL) == 0 && g.selfEdges(FULL) == 0 && !g.wccComputed() && !g.sccComputed() && !g.isUndirected(), "clear() leaves something behind"); }
    for (auto& e : es) {
        if (at++ == pause && pause > 0) { ctx.show << "(computed here) "; if (undirected && s.flip()) g.makeUndirected(); else g.sortEdgeList(); if (s.flip()) { g.computeWCC(); ctx.check(g.wccComputed(), "wccComputed() is false"); } if (!undirected && s.flip()) g.computeSCC(); ctx.check(g.isSortedAndUnique(), "isSortedAndUnique() is false after sorting"); }
        int a = g.mapNode(e.first + off), b = g.mapNode(e.second + off); ctx.check(g.revMapNode(a) == e.first + off && g.revMapNode(b) == e.second + off, "revMapNode is not the inverse of mapNode"); ctx.check(g.addEdge(a, b), "addEdge refused an edge"); ctx.check(!g.wccComputed() && !g.sccComputed() && !g.isSortedAndUnique() && !g.isUndirected(), "something computed before an edge was added is still valid after it"); e = {a, b}; p.n = std::max(p.n, std::max(a, b) + 1); ctx.show << a << "-" << b << " "; }
    ctx.publish(); p.out.resize(p.n); p.in.resize(p.n); p.und.resize(p.n);
    for (auto& e : es) { p.out[e.first].insert(e.second); p.in[e.second].insert(e.first); p.und[e.first].insert(e.second); p.und[e.second].insert(e.first); }
    for (int i = 0; i < p.n; i++) p.self += p.und[i].count(i);
    if (undirected) { g.makeUndirected(); p.out = p.in = p.und; } else g.sortEdgeList();
    if (es.size() > 2) ctx.nontrivial();
    return p;
}
static std::string S(double d) { std::ostringstream o; o << d; return o.str(); }
static void near_(pbt::Ctx& c, double got, double want, const std::string& what) { c.check(std::fabs(got - want) <= 1e-9 * std::max(1.0, std::fabs(want)), what + " is " + S(got) + ", must be " + S(want)); }
static void same(pbt::Ctx& c, long got, long want, const std::string& what) { c.check(got == want, what + " is " + std::to_string(got) + ", must be " + std::to_string(want)); }
// members of a largest component as the library names it; checks the partition
static std::vector<char> component(pbt::Ctx& ctx, Graph& g, Scope sc, const std::vector<std::vector<int>>& cls, int n) {
    size_t big = 0; for (auto& c : cls) big = std::max(big, c.size()); std::vector<char> in(n, 0); int cnt = 0; for (int i = 0; i < n; i++) { in[i] = g.inScope(i, sc); cnt += in[i]; }
    same(ctx, cnt, big, "the size of the largest component (by inScope)"); same(ctx, g.nodes(sc), big, "nodes() of the largest component");
    for (auto& c : cls) { int k = 0; for (int v : c) k += in[v]; ctx.check(k == 0 || k == (int)c.size(), "the largest component takes a part of a component"); }
    return in;
}
PROPERTY(topology) {
    bool und = src.flip(); Graph g(400); ctx.show << (und ? "undirected " : "directed "); Plain p = build(src, ctx, g, und); int n = p.n;
    long m = 0; for (auto& a : p.out) m += a.size();
    same(ctx, g.nodes(FULL), n, "nodes()"); same(ctx, g.edges(FULL), m, "edges()"); same(ctx, g.selfEdges(FULL), p.self, "selfEdges()"); ctx.check(g.isUndirected() == und && g.isSortedAndUnique(), "isUndirected()/isSortedAndUnique() is wrong");
    for (int i = 0; i < n; i++) { ctx.check(g.neighbors(i) == std::vector<int>(p.out[i].begin(), p.out[i].end()), "the neighbours of node " + std::to_string(i) + " are wrong"); if (!und) ctx.check(g.revNeighbors(i) == std::vector<int>(p.in[i].begin(), p.in[i].end()), "the reverse neighbours of node " + std::to_string(i) + " are wrong"); near_(ctx, g.degreeCentrality()[i], p.out[i].size(), "the degree centrality"); same(ctx, g.outdegreeDistribution(FULL)[i], p.out[i].size(), "the out-degree"); }
    long recip = 0; for (int i = 0; i < n; i++) for (int w : p.out[i]) recip += p.out[w].count(i); near_(ctx, g.reciprocity(FULL), (double)recip / m, "reciprocity()");
    near_(ctx, g.averageDegree(FULL), (double)m / n * (und ? 1 : 2), "averageDegree()"); near_(ctx, g.density(FULL), n > 1 ? (double)m / n / (n - (p.self ? 0 : 1)) : 0, "density()");
    { auto od = g.outdegreeCentrality(); same(ctx, od.size(), n, "the number of degrees"); std::vector<double> id; std::vector<long> ids; if (!und) { id = g.indegreeCentrality(); ids = g.indegreeDistribution(FULL); } for (int i = 0; i < n; i++) { near_(ctx, od[i], p.out[i].size(), "the out-degree centrality"); if (!und) { near_(ctx, id[i], p.in[i].size(), "the in-degree centrality"); same(ctx, ids[i], p.in[i].size(), "the in-degree"); } } }
    // components
    auto du = p.dist(p.und), dd = p.dist(p.out); std::vector<std::vector<int>> wcc, scc; std::vector<int> wOf(n, -1), sOf(n, -1);
    for (int i = 0; i < n; i++) { if (wOf[i] < 0) { wcc.push_back({}); for (int j = 0; j < n; j++) if (du[i][j] < INF) { wOf[j] = wcc.size() - 1; wcc.back().push_back(j); } } if (sOf[i] < 0) { scc.push_back({}); for (int j = 0; j < n; j++) if (dd[i][j] < INF && dd[j][i] < INF) { sOf[j] = scc.size() - 1; scc.back().push_back(j); } } }
    auto edgesIn = [&](const std::vector<char>& in) { long k = 0; for (int i = 0; i < n; i++) if (in[i]) for (int w : p.out[i]) k += in[w]; return k; }; auto selfIn = [&](const std::vector<char>& in) { long k = 0; for (int i = 0; i < n; i++) if (in[i]) k += p.und[i].count(i); return k; };
    auto scope = [&](Scope sc, const std::vector<char>& in, const std::string& name) { int cn = 0; for (char c : in) cn += c; long me = edgesIn(in), se = selfIn(in); same(ctx, g.edges(sc), me, "edges() of the " + name); same(ctx, g.selfEdges(sc), se, "selfEdges() of the " + name); near_(ctx, g.averageDegree(sc), (double)me / cn * (und ? 1 : 2), "averageDegree() of the " + name); near_(ctx, g.density(sc), cn > 1 ? (double)me / cn / (cn - (se ? 0 : 1)) : 0, "density() of the " + name); };
    g.computeWCC(); same(ctx, g.wccCount(), wcc.size(), "wccCount()"); ctx.check(g.wccComputed(), "wccComputed() is false");
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) ctx.check((g.wccOf(i) == g.wccOf(j)) == (wOf[i] == wOf[j]), "wccOf() mixes or splits components"); same(ctx, g.nodesInWcc(g.wccOf(i)), wcc[wOf[i]].size(), "nodesInWcc()"); }
    auto sizes = [&](std::vector<int> got, const std::vector<std::vector<int>>& cls, const std::string& what) { std::multiset<int> a, b; for (int x : got) if (x) a.insert(x); for (auto& c : cls) b.insert((int)c.size()); ctx.check(a == b, what + " lists other component sizes"); }; sizes(g.wccSizeDistribution(), wcc, "wccSizeDistribution()");
    std::vector<char> in = component(ctx, g, LWCC, wcc, n); scope(LWCC, in, "largest weak component");
    if (!und) { g.computeSCC(); same(ctx, g.sccCount(), scc.size(), "sccCount()"); sizes(g.sccSizeDistribution(), scc, "sccSizeDistribution()"); std::vector<char> si = component(ctx, g, LSCC, scc, n); scope(LSCC, si, "largest strong component"); }
    // triangles and wedges ignore the direction
    auto check = [&](Scope sc, const std::vector<char>& in, const std::string& name) { long tri = 0, wed = 0; double avg = 0; int cn = 0; for (int i = 0; i < n; i++) if (in[i]) { cn++; long t = 0, d = 0; for (int a : p.und[i]) if (a != i) { d++; for (int b : p.und[i]) if (b != i && b > a && p.und[a].count(b)) t++; } tri += t; wed += d * (d - 1) / 2; double c = d > 1 ? 2.0 * t / (d * (d - 1)) : 0; avg += c; if (und) near_(ctx, g.nodeClusteringCoefficient(i), c, "nodeClusteringCoefficient()"); }
        same(ctx, g.triangles(sc), tri / 3, "triangles() of the " + name); same(ctx, g.wedges(sc), wed, "wedges() of the " + name); if (wed) near_(ctx, g.graphClusteringCoefficient(sc), (double)tri / wed, "graphClusteringCoefficient() of the " + name); if (und) near_(ctx, g.averageClusteringCoefficient(sc), avg / cn, "averageClusteringCoefficient() of the " + name); };
    check(FULL, std::vector<char>(n, 1), "graph"); check(LWCC, in, "largest weak component");
    ctx.label(und ? "undirected" : "directed"); if (wcc.size() > 1) ctx.label("several components");
}
PROPERTY(distances) {
    bool und = src.coin(3, 4); Graph g(400); ctx.show << (und ? "undirected " : "directed "); Plain p = build(src, ctx, g, und); int n = p.n; auto d = p.dist(p.out);
    for (int u = 0; u < n; u++) { std::vector<int> all = g.alldistances(u); for (int v = 0; v < n; v++) { int w = d[u][v] == INF ? -1 : d[u][v]; same(ctx, g.distance(u, v), w, "distance(" + std::to_string(u) + "," + std::to_string(v) + ")"); same(ctx, all[v], w, "alldistances(" + std::to_string(u) + ")[" + std::to_string(v) + "]"); } }
    g.computeWCC(); std::vector<int> comp; for (int i = 0; i < n; i++) if (g.inScope(i, LWCC)) comp.push_back(i); int c = comp.size(); 
    std::vector<long> want(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (d[i][j] < INF) want[d[i][j]]++; if (n > 1) ctx.check(g.distanceDistribution(FULL, 1.0) == want, "distanceDistribution() of the graph is wrong");
    if (und && c > 1) {
        int dia = 0, rad = INF, per = 0, cen = 0; std::map<int, int> ecc; long sum = 0; for (int u : comp) { int e = 0; for (int v : comp) { e = std::max(e, d[u][v]); sum += d[u][v]; } ecc[u] = e; dia = std::max(dia, e); rad = std::min(rad, e); } for (int u : comp) { per += ecc[u] == dia; cen += ecc[u] == rad; }
        near_(ctx, g.averageDistance(LWCC, 1.0), (double)sum / c / (c - 1), "averageDistance() of the largest component");
        same(ctx, g.diameterAPSP(), dia, "diameterAPSP()"); same(ctx, g.radiusAPSP(), rad, "radiusAPSP()"); same(ctx, g.diameterBD(), dia, "diameterBD()"); same(ctx, g.radiusBD(), rad, "radiusBD()"); same(ctx, g.peripherySizeBD(), per, "peripherySizeBD()"); same(ctx, g.centerSizeBD(), cen, "centerSizeBD()");
        std::vector<int> a = g.eccentricitiesAPSP(), b = g.eccentricitiesBD(); for (int u : comp) { same(ctx, a[u], ecc[u], "eccentricitiesAPSP()"); same(ctx, b[u], ecc[u], "eccentricitiesBD()"); }
        Scope sc = src.flip() ? LWCC : FULL; std::vector<double> ce = g.eccentricityCentrality(sc); same(ctx, ce.size(), n, "the number of eccentricities"); for (int u = 0; u < n; u++) { double w = -1; if (g.inScope(u, LWCC)) w = ecc[u]; else if (sc == FULL) { w = 0; for (int v = 0; v < n; v++) if (d[u][v] < INF) w = std::max(w, (double)d[u][v]); } near_(ctx, ce[u], w, "the eccentricity centrality of node " + std::to_string(u)); }
        ctx.label("diameter " + std::to_string(std::min(dia, 6)));
    }
}
PROPERTY(betweenness) {
    Graph g(400); Plain p = build(src, ctx, g, true); int n = p.n; bool lw = src.flip(); g.computeWCC(); auto d = p.dist(p.und);
    std::vector<std::vector<double>> sp(n, std::vector<double>(n, 0)); for (int s = 0; s < n; s++) { std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i; std::sort(o.begin(), o.end(), [&](int a, int b) { return d[s][a] < d[s][b]; }); sp[s][s] = 1; for (int v : o) if (v != s && d[s][v] < INF) for (int w : p.und[v]) if (d[s][w] + 1 == d[s][v]) sp[s][v] += sp[s][w]; }
    std::vector<double> bc(n, 0); double mx = 0; int size = 0; for (int i = 0; i < n; i++) size += !lw || g.inScope(i, LWCC);
    for (int v = 0; v < n; v++) { for (int s = 0; s < n; s++) for (int t = 0; t < n; t++) { if (s == t || s == v || t == v || (lw && !g.inScope(s, LWCC)) || d[s][t] == INF) continue; if (d[s][v] < INF && d[v][t] < INF && d[s][v] + d[v][t] == d[s][t]) bc[v] += sp[s][v] * sp[v][t] / sp[s][t]; } mx = std::max(mx, bc[v]); }
    ctx.show << (lw ? "scope LWCC" : "scope FULL"); ctx.publish(); std::vector<double> got = g.betweennessCentrality(lw ? LWCC : FULL, 1.0); same(ctx, got.size(), n, "the number of values");
    if (size < 2) return;
    for (int v = 0; v < n; v++) { double w = mx > 0 ? bc[v] / mx : 0; ctx.check(std::fabs(got[v] - w) < 1e-9, "the betweenness of node " + std::to_string(v) + " is " + S(got[v]) + ", must be " + S(w)); }
    double ss = src.coin(1, 2) ? 0.5 : 0.25; if (src.coin(1, 3)) for (double x : g.betweennessCentrality(lw ? LWCC : FULL, ss)) ctx.check(x >= 0 && x <= 1 + 1e-12, "a sampled betweenness is " + S(x) + ", not within [0,1]");
    if (!lw || g.wccCount() == 1) { std::vector<double> pr = g.pageRankCentrality(); double t = 0; for (double x : pr) { t += x; ctx.check(x > 0, "a page rank is not positive"); } near_(ctx, t, 1, "the sum of the page ranks"); }
    if (mx > 0) ctx.label("some node lies between others"); if (g.wccCount() > 1) ctx.label("several components");
}
PBT_MAIN
