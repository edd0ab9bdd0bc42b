// graph_gen.h: generated families against their definition, and histories of container operations against a reference graph.
#include "sim_engine.h"
namespace Settings { using RandomEngine = SimEngine; }
#include REPO_VALIDATE
#include REPO_GRAPH_GEN
#include <algorithm>
#include <cctype>
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>

using sim::chance;
using sim::choose;
using sim::fmt;
using std::string;
using std::vector;

namespace {
string D;
bool fairRun;
bool dead;        // a violation was reported in this process
#define BAD(cls, ...) do { if (!dead) sim::violate(cls, "%s: %s [engine %s]", D.c_str(), fmt(__VA_ARGS__).c_str(), fairRun ? "mt19937_64" : "adversarial"); dead = true; return; } while (0)
string I(std::int64_t v) { return std::to_string(v); }
typedef std::pair<std::int64_t, std::int64_t> P;

// ---- reference graph ------------------------------------------------------------------
struct Ref {
	bool dir = false;
	std::int64_t mn = 0, n = 0;
	std::map<P, std::int64_t> e;            // normalised (from<to) if undirected
	P key(std::int64_t a, std::int64_t b) const { return !dir && a > b ? P(b, a) : P(a, b); }
	bool has(std::int64_t a, std::int64_t b) const { return e.count(key(a, b)); }
	void add(std::int64_t a, std::int64_t b, std::int64_t d = 0) { e[key(a, b)] = d; }
	bool in(std::int64_t a) const { return a >= mn && a < mn + n; }
	vector<std::int64_t> adj(std::int64_t x) const { vector<std::int64_t> r; for (auto& [k, d] : e) { if (k.first == x) r.push_back(k.second); else if (!dir && k.second == x) r.push_back(k.first); } std::sort(r.begin(), r.end()); return r; }
};
string show(const Ref& g) { string s = fmt("ids [%" PRId64 ",%" PRId64 ") edges", g.mn, g.mn + g.n); int c = 0; for (auto& [k, d] : g.e) { if (c++ > 40) { s += " ..."; break; } s += fmt(" %" PRId64 "%s%" PRId64, k.first, g.dir ? ">" : "-", k.second); if (d) s += fmt("(%" PRId64 ")", d); } return s; }

template<typename E> std::int64_t val(const E& d) { if constexpr (std::is_same_v<E, NoData>) return 0; else if constexpr (std::is_convertible_v<E, std::int64_t>) return (std::int64_t)d; else return d.first * 1000003 + d.second; }
template<typename W> std::int64_t dataOf(const W& w) { return val(*w); }
template<typename G> struct Info;
template<typename E, bool DIR> struct Info<GraphDetail::GraphType<E, DIR>> { using Data = E; static constexpr bool dir = DIR; };

// everything observable about g must equal m
template<typename G> void same(const G& cg, const Ref& m, bool data = true) {
	using E = typename Info<G>::Data;
	constexpr bool hasData = !std::is_same_v<E, NoData>;
	G& g = const_cast<G&>(cg);
	if (cg.nodeCount() != m.n || (std::int64_t)cg.size() != m.n) BAD("vertices", "nodeCount %" PRId64 " size %zu, expected %" PRId64 " vertices; expected %s", cg.nodeCount(), cg.size(), m.n, show(m).c_str());
	if (cg.getMinId() != m.mn || cg.getNextId() != m.mn + m.n) BAD("ids", "ids [%" PRId64 ",%" PRId64 "), expected %s", cg.getMinId(), cg.getNextId(), show(m).c_str());
	std::map<P, std::int64_t> seen; vector<P> order; vector<std::int64_t> od;
	for (std::int64_t i = 0; i < cg.edgeCount(); i++) {
		auto x = cg.getEdgeById((size_t)i);
		std::int64_t d = 0; if constexpr (hasData) d = val(x.data);
		order.emplace_back(x.from, x.to); od.push_back(d);
		if (!seen.emplace(m.key(x.from, x.to), d).second) BAD("duplicate", "edge %" PRId64 " %" PRId64 " is stored twice; expected %s", x.from, x.to, show(m).c_str());
	}
	if (cg.edgeCount() != (std::int64_t)m.e.size()) BAD("edges", "edgeCount %" PRId64 ", expected %zu: %s", cg.edgeCount(), m.e.size(), show(m).c_str());
	for (auto& [k, d] : m.e) { auto it = seen.find(k); if (it == seen.end()) BAD("edges", "edge %" PRId64 " %" PRId64 " is missing; expected %s", k.first, k.second, show(m).c_str()); if (hasData && data && it->second != d) BAD("data", "edge %" PRId64 " %" PRId64 " carries %" PRId64 ", expected %" PRId64, k.first, k.second, it->second, d); }
	const auto& truth = seen;
	// id access, edge view, printing agree
	size_t i = 0;
	for (const auto& x : cg.getEdges()) { if (i >= order.size() || P(x.from, x.to) != order[i]) BAD("view", "getEdges() and getEdgeById() disagree at position %zu", i); if constexpr (hasData) if (val(x.data) != od[i]) BAD("view", "getEdges() shows other data than getEdgeById() at %zu", i); i++; }
	if (i != order.size()) BAD("view", "getEdges() lists %zu edges of %zu", i, order.size());
	i = 0; for (auto x : g.getEdges()) { if (i >= order.size() || P(x.from, x.to) != order[i]) BAD("view", "mutable getEdges() disagrees at %zu", i); i++; }
	if (i != order.size()) BAD("view", "mutable getEdges() lists %zu edges of %zu", i, order.size());
	try { (void)cg.getEdgeById((size_t)cg.edgeCount()); BAD("not-refused", "getEdgeById(edgeCount()) was accepted"); } catch (const std::exception&) {}
	string want = I(m.n) + " " + I((std::int64_t)order.size());
	for (size_t k = 0; k < order.size(); k++) { want += "\n" + I(order[k].first) + " " + I(order[k].second); if constexpr (std::is_same_v<E, Integer>) want += " " + I(od[k]); }
	if constexpr (!hasData || std::is_same_v<E, Integer>) {
		std::ostringstream a; a << cg;
		if (a.str() != want) BAD("print", "operator<<(std::ostream) gave %s, expected %s", sim::quote(a.str(), 300).c_str(), sim::quote(want, 300).c_str());
		std::ostringstream b; { OutputStream o(b); o << cg; }
		if (b.str() != want) BAD("print", "operator<<(OutputStream) gave %s, expected %s", sim::quote(b.str(), 300).c_str(), sim::quote(want, 300).c_str());
	}
	// per-vertex views
	std::map<std::int64_t, vector<std::pair<std::int64_t, std::int64_t>>> adj;
	for (auto& [k, d] : truth) { adj[k.first].emplace_back(k.second, d); if (!m.dir && k.first != k.second) adj[k.second].emplace_back(k.first, d); }
	size_t v = 0;
	vector<size_t> degs; for (auto x : cg.getDegrees()) degs.push_back(x);
	if ((std::int64_t)degs.size() != m.n) BAD("view", "getDegrees() has %zu entries", degs.size());
	for (std::int64_t x = m.mn; x < m.mn + m.n; x++, v++) {
		auto& a = adj[x]; std::sort(a.begin(), a.end());
		vector<std::pair<std::int64_t, std::int64_t>> got, got2;
		for (const auto& q : cg[x]) { if (q.from != x) BAD("view", "operator[](%" PRId64 ") lists an edge from %" PRId64, x, q.from); std::int64_t d = 0; if constexpr (hasData) d = val(q.data); got.emplace_back(q.to, d); }
		for (auto q : g[x]) { if (q.from != x) BAD("view", "mutable operator[](%" PRId64 ") lists an edge from %" PRId64, x, q.from); std::int64_t d = 0; if constexpr (hasData) d = val(q.data); got2.emplace_back(q.to, d); }
		std::sort(got.begin(), got.end()); std::sort(got2.begin(), got2.end());
		if (got != a) BAD("view", "operator[](%" PRId64 ") lists %zu edges which are not the %zu edges at this vertex (or carry other data); expected %s", x, got.size(), a.size(), show(m).c_str());
		if (got2 != a) BAD("view", "mutable operator[](%" PRId64 ") lists other edges", x);
		if (cg.degree(x) != (std::int64_t)a.size() || degs[v] != a.size()) BAD("degree", "degree(%" PRId64 ") is %" PRId64 ", getDegrees() says %zu, expected %zu", x, cg.degree(x), degs[v], a.size());
	}
	if (m.n <= 24) for (std::int64_t x = m.mn; x < m.mn + m.n; x++) for (std::int64_t y = m.mn; y < m.mn + m.n; y++) {
		bool h = m.has(x, y);
		if (cg.hasEdge(x, y) != h) BAD("hasEdge", "hasEdge(%" PRId64 ",%" PRId64 ") is %d", x, y, !h);
		auto f = cg.findEdge(x, y); auto f2 = g.findEdge(x, y);
		if (f.has_value() != h || f2.has_value() != h) BAD("findEdge", "findEdge(%" PRId64 ",%" PRId64 ") %s", x, y, h ? "found nothing" : "found an edge");
		if (h) { if (f->from != x || f->to != y || f2->from != x || f2->to != y) BAD("findEdge", "findEdge(%" PRId64 ",%" PRId64 ") returned %" PRId64 " %" PRId64, x, y, f->from, f->to); if constexpr (hasData) { auto d = truth.find(m.key(x, y))->second; if (val(f->data) != d || val(**f2) != d) BAD("data", "findEdge(%" PRId64 ",%" PRId64 ") shows data %" PRId64 ", expected %" PRId64, x, y, val(f->data), d); } }
	}
	for (std::int64_t x : {m.mn - 1, m.mn + m.n}) { try { (void)cg.degree(x); BAD("not-refused", "degree(%" PRId64 ") outside of the graph was accepted", x); } catch (const std::exception&) {} }
}
template<typename G> Ref observe(const G& g) {     // independent of the per-vertex structure
	Ref r; r.dir = Info<G>::dir; r.mn = g.getMinId(); r.n = g.nodeCount();
	for (std::int64_t i = 0; i < g.edgeCount(); i++) { auto x = g.getEdgeById((size_t)i); std::int64_t d = 0; if constexpr (!std::is_same_v<typename Info<G>::Data, NoData>) d = val(x.data); r.add(x.from, x.to, d); }
	return r;
}

bool isomorphic(const Ref& a, const Ref& b) {
	if (a.n != b.n || a.e.size() != b.e.size()) return false;
	int n = (int)a.n;
	auto feat = [](const Ref& g, std::int64_t x) { vector<std::int64_t> f; for (auto& [k, d] : g.e) { if (k.first == x) f.push_back(d * 2 + (g.dir ? 1 : 0)); if (k.second == x) f.push_back(d * 2); } std::sort(f.begin(), f.end()); return f; };
	vector<vector<std::int64_t>> fa, fb; for (int i = 0; i < n; i++) { fa.push_back(feat(a, a.mn + i)); fb.push_back(feat(b, b.mn + i)); }
	auto sa = fa, sb = fb; std::sort(sa.begin(), sa.end()); std::sort(sb.begin(), sb.end()); if (sa != sb) return false;
	vector<int> mp(n, -1); vector<bool> used(n); long budget = n > 20 ? 3000 : 200000;
	auto get = [](const Ref& g, std::int64_t x, std::int64_t y) { auto it = g.e.find(g.key(x, y)); return it == g.e.end() ? INT64_MIN : it->second; };
	std::function<bool(int)> rec = [&](int i) {
		if (i == n) return true;
		if (--budget < 0) return true;
		for (int j = 0; j < n; j++) if (!used[j] && fa[i] == fb[j]) {
			bool ok = true;
			for (int k = 0; k < i && ok; k++) ok = get(a, a.mn + i, a.mn + k) == get(b, b.mn + j, b.mn + mp[k]) && (!a.dir || get(a, a.mn + k, a.mn + i) == get(b, b.mn + mp[k], b.mn + j));
			if (!ok) continue;
			used[j] = true; mp[i] = j; if (rec(i + 1)) return true; used[j] = false;
		}
		return false;
	};
	return rec(0);
}

enum Out { OK, REFUSED, STARVED };
string what;
template<typename F> Out call(F f, std::uint64_t budget = 3000000) {
	SimEngine::used = 0; SimEngine::budget = budget;
	try { f(); SimEngine::budget = ~0ull; return OK; }
	catch (const std::exception& e) { SimEngine::budget = ~0ull; sim::NoFault g; what = e.what(); return REFUSED; }
	catch (const OutOfWords&) { SimEngine::budget = ~0ull; return STARVED; }
}
#define RUN(valid, expr) \
	Out o_ = call([&] { expr; }); \
	if (!D.empty() && (D[0] != 'g' || !std::isdigit((unsigned char)D[1]))) sim::probe(fmt("%s%s", D.substr(0, D.find('(')).c_str(), (valid) ? "" : " invalid").c_str()); \
	if (o_ == STARVED && !(valid)) BAD("not-refused", "invalid parameters were not refused: no end after %" PRIu64 " engine words", SimEngine::used); \
	if (o_ == STARVED) { if (fairRun && (valid)) BAD("no-progress", "no result after %" PRIu64 " words of a fair engine", SimEngine::used); return; } \
	if (!(valid)) { if (o_ == OK) BAD("not-refused", "invalid parameters were accepted"); return; } \
	if (o_ == REFUSED) BAD("refused", "valid parameters were refused: %s", what.c_str());

// mostly small sizes; now and then one far beyond them
std::int64_t sz(std::uint32_t small, std::uint32_t big) { return choose(chance(1, 30) ? big : small); }
bool bigRun = false; // graph operations on graphs of dozens of vertices

// ---- C14: families -----------------------------------------------------------------------
template<typename E, bool DIR> struct Fam {
	using G = GraphDetail::GraphType<E, DIR>;
	static string nm(const char* f) { return string(f) + (DIR ? "<DIR>" : ""); }
	static Ref ref(std::int64_t n) { Ref r; r.dir = DIR; r.n = n; return r; }
	static void independentF() { std::int64_t n = chance(1, 12) ? -1 - (int)choose(3) : sz(12, 400); D = nm("independent(") + I(n) + ")"; G g; RUN(n >= 0, (g = independent<E, DIR>(n))); same(g, ref(n)); }
	static void cliqueF() { std::int64_t n = chance(1, 12) ? -1 - (int)choose(3) : sz(14, 90); D = nm("clique(") + I(n) + ")"; G g; RUN(n >= 0, (g = clique<E, DIR>(n))); auto r = ref(n); for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) r.add(i, j); same(g, r); }
	static void bipartiteF() { std::int64_t n = sz(8, 60), m = sz(8, 60); D = nm("bipartite(") + I(n) + "," + I(m) + ")"; G g; RUN(true, (g = bipartite<E, DIR>(n, m))); auto r = ref(n + m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r.add(i, n + j); same(g, r); }
	static void pathF() { std::int64_t n = sz(20, 500); D = nm("path(") + I(n) + ")"; G g; RUN(true, (g = path<E, DIR>(n))); auto r = ref(n + 1); for (int i = 0; i < n; i++) r.add(i, i + 1); same(g, r); }
	static void cycleF() { std::int64_t n = 3 + sz(16, 500); D = nm("cycle(") + I(n) + ")"; G g; RUN(true, (g = cycle<E, DIR>(n))); auto r = ref(n); for (int i = 0; i < n; i++) r.add(i, (i + 1) % n); same(g, r); }
	static void starF() { std::int64_t n = sz(16, 500); D = nm("star(") + I(n) + ")"; G g; RUN(true, (g = star<E, DIR>(n))); auto r = ref(n + 1); for (int i = 1; i <= n; i++) r.add(0, i); same(g, r); }
	static void latticeF() { std::int64_t n = sz(6, 11); D = nm("booleanLattice(") + I(n) + ")"; G g; RUN(true, (g = booleanLattice<E, DIR>(n))); auto r = ref(1 << n); for (int a = 0; a < 1 << n; a++) for (int b = 0; b < n; b++) if (a >> b & 1) r.add(a, a ^ (1 << b)); same(g, r); }
	static void radoF() { std::int64_t n = sz(40, 300); D = nm("rado(") + I(n) + ")"; G g; RUN(true, (g = rado<E, DIR>(n))); auto r = ref(n); for (int b = 0; b < n; b++) for (int a = 0; a < b && a < 30; a++) if (b >> a & 1) r.add(a, b); same(g, r); }
	static void treeShape(Ref& r, std::int64_t layers, std::int64_t k, std::int64_t root) { if (layers <= 1) { return; } std::int64_t sub = 1, p = 1; for (int i = 1; i < layers - 1; i++) { p *= k; sub += p; } for (int i = 0; i < k; i++) { std::int64_t c = root + 1 + i * sub; r.add(root, c); treeShape(r, layers - 1, k, c); } }
	static void completeTreeF() {
		std::int64_t k = choose(3) ? 2 : 1 + (int)choose(4), level = 2 + (k == 1 ? sz(6, 300) : k == 2 ? sz(4, 8) : sz(2, 4)); bool dflt = k == 2 && choose(2);
		D = nm("completeTree(") + I(level) + "," + I(k) + ")"; G g;
		RUN(true, if (dflt) (g = completeTree<E, DIR>(level)); else (g = completeTree<E, DIR>(level, k)));
		std::int64_t n = 1, p = 1; for (int i = 1; i < level; i++) { p *= k; n += p; }
		auto r = ref(n); treeShape(r, level, k, 0); same(g, r);
	}
	static void randomTreeF() {
		std::int64_t n = chance(1, 20) ? -1 - (int)choose(3) : 1 + (int)choose(choose(8) ? 14 : 400);
		D = nm("randomTree(") + I(n) + ")"; G g; RUN(n >= 1, (g = randomTree<E, DIR>(n)));
		Ref r = observe(g);
		if (r.n != n || r.mn != 0) BAD("vertices", "%s", show(r).c_str());
		if ((std::int64_t)r.e.size() != n - 1) BAD("edges", "%zu edges: %s", r.e.size(), show(r).c_str());
		// reached from vertex 0, along the direction if directed
		std::map<std::int64_t, vector<std::int64_t>> adj; for (auto& [k, d] : r.e) { if (k.first < 0 || k.first >= n || k.second < 0 || k.second >= n || k.first == k.second) BAD("edges", "edge %" PRId64 " %" PRId64, k.first, k.second); adj[k.first].push_back(k.second); if (!DIR) adj[k.second].push_back(k.first); }
		vector<bool> seen(n); vector<std::int64_t> q = {0}; seen[0] = true; for (size_t i = 0; i < q.size(); i++) for (auto y : adj[q[i]]) if (!seen[y]) { seen[y] = true; q.push_back(y); }
		if ((std::int64_t)q.size() != n) BAD("not-a-tree", "only %zu vertices are reachable from vertex 0: %s", q.size(), show(r).c_str());
		same(g, r);
	}
	static void randomGraphF() {
		std::int64_t n = chance(1, 25) ? choose(70) : choose(12); std::int64_t lim = n * (n - 1) / (DIR ? 1 : 2);
		bool byP = choose(2);
		G g;
		if (byP) {
			double p = choose(3) == 0 ? choose(2) : choose(17) / 16.0; bool v = true; if (chance(1, 12)) { p = choose(2) ? -0.5 : 1.5; v = false; }
			D = nm("randomGraph(") + I(n) + fmt(",p=%g)", p);
			RUN(v, (g = randomGraph<E, DIR>(n, (Real)p)));
			if (p == 0 && g.edgeCount()) BAD("edges", "%" PRId64 " edges for p=0", g.edgeCount());
			if (p == 1 && g.edgeCount() != lim) BAD("edges", "%" PRId64 " of %" PRId64 " possible edges for p=1", g.edgeCount(), lim);
		} else {
			std::int64_t m = lim ? choose((std::uint32_t)lim + 1) : 0; bool v = true; if (chance(1, 12)) { m = choose(2) ? lim + 1 + (int)choose(5) : -1 - (int)choose(3); v = false; }
			D = nm("randomGraph(") + I(n) + ",m=" + I(m) + ")";
			RUN(v, (g = randomGraph<E, DIR>(n, (Integer)m)));
			if (g.edgeCount() != m) BAD("edges", "%" PRId64 " edges", g.edgeCount());
		}
		Ref r = observe(g); r.n = n; r.mn = 0;
		for (auto& [k, d] : r.e) if (k.first == k.second) BAD("edges", "self loop at %" PRId64, k.first);
		same(g, r);
	}
	static void randomBipartiteF() {
		std::int64_t n = choose(7), m = choose(7); if (chance(1, 25)) { n = choose(40); m = choose(40); } std::int64_t lim = n * m * (DIR ? 2 : 1); G g;
		if (choose(2)) {
			double p = choose(3) == 0 ? choose(2) : choose(17) / 16.0; bool v = true; if (chance(1, 12)) { p = choose(2) ? -0.5 : 1.5; v = false; }
			D = nm("randomBipartite(") + I(n) + "," + I(m) + fmt(",p=%g)", p);
			RUN(v, (g = randomBipartite<E, DIR>(n, m, (Real)p)));
			if (p == 0 && g.edgeCount()) BAD("edges", "%" PRId64 " edges for p=0", g.edgeCount());
			if (p == 1 && g.edgeCount() != lim) BAD("edges", "%" PRId64 " of %" PRId64 " possible edges for p=1", g.edgeCount(), lim);
		} else {
			std::int64_t k = lim ? choose((std::uint32_t)lim + 1) : 0; bool v = true; if (chance(1, 12)) { k = choose(2) ? lim + 1 + (int)choose(5) : -1 - (int)choose(3); v = false; }
			D = nm("randomBipartite(") + I(n) + "," + I(m) + ",k=" + I(k) + ")";
			RUN(v, (g = randomBipartite<E, DIR>(n, m, (Integer)k)));
			if (g.edgeCount() != k) BAD("edges", "%" PRId64 " edges", g.edgeCount());
		}
		Ref r = observe(g); r.n = n + m; r.mn = 0;
		for (auto& [k, d] : r.e) if ((k.first < n) == (k.second < n)) BAD("edges", "edge %" PRId64 " %" PRId64 " within one side", k.first, k.second);
		same(g, r);
	}
	// more vertices (and far more vertex pairs) than small integer types can count
	static void largeF() {
		if (!chance(1, 6)) return randomGraphF();
		std::int64_t n = 60000 + (std::int64_t)choose(20000), l = n, k = choose(300);
		int shape = choose(5);
		G g;
		switch (shape) {
			case 0: D = nm("randomGraph(") + I(n) + ",m=" + I(k) + ")"; { RUN(true, (g = randomGraph<E, DIR>(n, (Integer)k))); } break;
			case 1: l = 1 + choose(40000); n += l; D = nm("randomBipartite(") + I(l) + "," + I(n - l) + ",k=" + I(k) + ")"; { RUN(true, (g = randomBipartite<E, DIR>(l, n - l, (Integer)k))); } break;
			case 2: k = n - 1; D = nm("path(") + I(n - 1) + ")"; { RUN(true, (g = path<E, DIR>(n - 1))); } break;
			case 3: k = n; D = nm("cycle(") + I(n) + ")"; { RUN(true, (g = cycle<E, DIR>(n))); } break;
			default: k = n - 1; D = nm("randomTree(") + I(n) + ")"; { RUN(true, (g = randomTree<E, DIR>(n))); } break;
		}
		const G& cg = g;
		if (cg.nodeCount() != n || cg.getMinId() != 0) BAD("vertices", "%" PRId64 " vertices from %" PRId64, cg.nodeCount(), cg.getMinId());
		if (cg.edgeCount() != k) BAD("edges", "%" PRId64 " edges", cg.edgeCount());
		std::set<P> seen; std::int64_t upper = 0, sum = 0;
		vector<std::int64_t> up(shape == 4 ? n : 0); for (size_t i = 0; i < up.size(); i++) up[i] = (std::int64_t)i;
		for (auto e : cg.getEdges()) {
			std::int64_t a = e.from, b = e.to;
			if (a < 0 || a >= n || b < 0 || b >= n || a == b) BAD("edges", "edge %" PRId64 " %" PRId64, a, b);
			if (!seen.insert(DIR ? P(a, b) : P(std::min(a, b), std::max(a, b))).second) BAD("edges", "edge %" PRId64 " %" PRId64 " twice", a, b);
			if (!cg.hasEdge(a, b) || (!DIR && !cg.hasEdge(b, a))) BAD("edges", "edge %" PRId64 " %" PRId64 " is not found", a, b);
			if (shape == 1 && (a < l) == (b < l)) BAD("edges", "edge %" PRId64 " %" PRId64 " within one side", a, b);
			if ((shape == 2 || shape == 3) && !(b == a + 1 || (!DIR && a == b + 1) || (shape == 3 && ((a == n - 1 && b == 0) || (!DIR && a == 0 && b == n - 1))))) BAD("edges", "edge %" PRId64 " %" PRId64, a, b);
			if (shape == 4) { auto root = [&](std::int64_t x) { while (up[x] != x) x = up[x] = up[up[x]]; return x; }; auto x = root(a), y = root(b); if (x == y) BAD("not-a-tree", "edge %" PRId64 " %" PRId64 " closes a cycle", a, b); up[x] = y; }
			upper += std::max(a, b) > n / 2; sum++;
		}
		if (sum != k) BAD("edges", "lists %" PRId64 " of %" PRId64 " edges", sum, k);
		if (shape == 0 && fairRun && k >= 100 && !upper) BAD("edges", "no edge of %" PRId64 " reaches the upper half of the vertices", k);
		std::int64_t degrees = 0; for (auto d : cg.getDegrees()) degrees += (std::int64_t)d;
		if (degrees != (DIR ? k : 2 * k)) BAD("degree", "degrees add up to %" PRId64, degrees);
	}
};
template<typename E> struct UFam {
	using G = Graph<E>;
	static void wheelF() { std::int64_t n = 3 + sz(10, 300); D = "wheel(" + I(n) + ")"; G g; RUN(true, g = wheel<E>(n)); Ref r; r.n = n + 1; for (int i = 1; i <= n; i++) { r.add(0, i); r.add(i, i == n ? 1 : i + 1); } same(g, r); }
	static void lollyF() { std::int64_t p = sz(8, 100), c = 1 + sz(7, 60); D = "lolly(" + I(p) + "," + I(c) + ")"; G g; RUN(true, g = lolly<E>(p, c)); Ref r; r.n = p + c; for (int i = 0; i < p; i++) r.add(i, i + 1); for (int i = 0; i < c; i++) for (int j = 0; j < i; j++) r.add(p + j, p + i); same(g, r); }
	static void broomF() { std::int64_t p = sz(8, 200), l = sz(8, 200); D = "broom(" + I(p) + "," + I(l) + ")"; G g; RUN(true, g = broom<E>(p, l)); Ref r; r.n = p + l + 1; for (int i = 0; i < p; i++) r.add(i, i + 1); for (int i = 1; i <= l; i++) r.add(p, p + i); same(g, r); }
	static void gridF() { std::int64_t n = 1 + sz(7, 30), m = 1 + sz(7, 30); bool sq = choose(3) == 0; if (sq) m = n; D = "grid(" + I(n) + "," + I(m) + ")"; G g; RUN(true, if (sq) g = grid<E>(n); else g = grid<E>(n, m)); Ref r; r.n = n * m; for (int y = 0; y < m; y++) for (int x = 0; x < n; x++) { if (x + 1 < n) r.add(y * n + x, y * n + x + 1); if (y + 1 < m) r.add(y * n + x, y * n + n + x); } same(g, r); }
	static void cubeF() { std::int64_t n = sz(6, 11); D = "hypercube(" + I(n) + ")"; G g; RUN(true, g = hypercube<E>(n)); Ref r; r.n = 1 << n; for (int a = 0; a < 1 << n; a++) for (int b = 0; b < n; b++) r.add(a, a ^ (1 << b)); same(g, r); }
	static void prueferF() {
		int n = 2 + (int)sz(10, 300); vector<Integer> code(n - 2); for (auto& x : code) x = choose(n);
		bool v = true; if (n > 2 && chance(1, 10)) { code[choose(n - 2)] = choose(2) ? n : -1; v = false; }
		D = "pruefer({"; for (auto x : code) D += I(x) + ","; D += "})";
		G g; RUN(v, g = pruefer<E>(code));
		// decode by definition: repeatedly join the smallest leaf
		Ref r; r.n = n; vector<int> deg(n, 1); for (auto x : code) deg[x]++;
		for (auto x : code) for (int l = 0; l < n; l++) if (deg[l] == 1) { r.add(l, x); deg[l]--; deg[x]--; break; }
		vector<int> last; for (int l = 0; l < n; l++) if (deg[l] == 1) last.push_back(l); r.add(last[0], last[1]);
		same(g, r);
	}
	static void growingF() {
		std::int64_t n = choose(16); double p = choose(17) / 16.0; bool v = true; if (chance(1, 12)) { p = choose(3) == 0 ? NAN : choose(2) ? -0.5 : 1.5; v = false; }
		D = "randomGrowingGraph(" + I(n) + fmt(",%g)", p); G g; RUN(v, g = randomGrowingGraph<E>(n, p));
		Ref r = observe(g); r.n = n; r.mn = 0;
		std::map<std::int64_t, int> down; for (auto& [k, d] : r.e) { if (k.first == k.second) BAD("edges", "self loop"); down[k.second]++; }
		for (auto& [x, c] : down) if (c > p * (x + 1)) BAD("degree", "vertex %" PRId64 " joins %d earlier vertices, at most p*%" PRId64 " expected", x, c, x + 1);
		same(g, r);
	}
	static bool graphical(vector<std::int64_t> d) { std::sort(d.rbegin(), d.rend()); std::int64_t n = (std::int64_t)d.size(), s = 0; for (auto x : d) { if (x < 0 || x >= n) return false; s += x; } if (s % 2) return false; std::int64_t l = 0; for (std::int64_t k = 1; k <= n; k++) { l += d[k - 1]; std::int64_t rr = k * (k - 1); for (std::int64_t i = k; i < n; i++) rr += std::min(d[i], k); if (l > rr) return false; } return true; }
	static void degreeF() {
		int n = choose(12); vector<Integer> d(n, 0);
		switch (choose(4)) { case 0: for (auto& x : d) x = choose(n); break; case 1: break; case 2: for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (choose(2)) { d[i]++; d[j]++; } break; default: for (auto& x : d) x = n ? 1 + choose(3) : 0; if (n && choose(4) == 0) d[choose(n)] = -1; break; }
		int flips = choose(3) ? 10 : choose(3);
		bool v = graphical(vector<std::int64_t>(d.begin(), d.end()));
		D = "randomGraph({"; for (auto x : d) D += I(x) + ","; D += fmt("},%d)", flips);
		G g; RUN(v, g = randomGraph<E>(d, flips));
		Ref r = observe(g); r.n = n; r.mn = 0;
		vector<std::int64_t> deg(n); for (auto& [k, x] : r.e) { if (k.first == k.second) BAD("edges", "self loop"); deg[k.first]++; deg[k.second]++; }
		for (int i = 0; i < n; i++) if (deg[i] != d[i]) BAD("degree", "vertex %d has degree %" PRId64 " instead of %" PRId64, i, deg[i], d[i]);
		same(g, r);
	}
};
void ffF() {
	std::int64_t n = choose(4) ? 1 + choose(12) : choose(2) ? 1 + choose(63) : 0; bool v = n > 0; if (chance(1, 15)) { n = choose(2) ? 64 : -1; v = false; }
	D = "ffWorstcase(" + I(n) + ")"; DiGraph<Integer> g; RUN(v, g = ffWorstcase(n));
	Ref r; r.dir = true; r.n = 2 * n; r.add(n - 1, n, 1);
	vector<P> order = {{n - 1, n}};
	std::int64_t c = 1; for (std::int64_t k = 1; k < n; k++) { std::int64_t i = n - 1 - k, j = n + k; for (P e : {P(i, i + 1), P(i, j - 1), P(i + 1, j), P(j - 1, j)}) { r.add(e.first, e.second, c); order.push_back(e); } c = (std::int64_t)((std::uint64_t)c * 2); }
	same(g, r); if (dead) return;
	for (size_t i = 0; i < order.size(); i++) { auto e = g.getEdgeById(i); if (P(e.from, e.to) != order[i]) BAD("order", "edge %zu is %" PRId64 " %" PRId64 "; the order of the edges is part of the worst case", i, e.from, e.to); }
	// 2^(n-1) units leave the source
	std::uint64_t out = 0; if (n > 1) for (auto e : g[0]) out += (std::uint64_t)*e;
	if (n > 1 && out != 1ull << (n - 1)) BAD("flow", "%" PRIu64 " units can leave the source", out);
}
void mcmfF() {
	std::int64_t n = choose(4) ? 1 + choose(10) : choose(2) ? 1 + choose(60) : 0; bool v = n > 0; if (chance(1, 15)) { n = choose(2) ? 61 : -1; v = false; }
	D = "mcmfWorstcase(" + I(n) + ")"; DiGraph<std::pair<Integer, Integer>> g; RUN(v, g = mcmfWorstcase(n));
	Ref r; r.dir = true; r.n = 2 * n + 2;
	std::int64_t inf = (std::int64_t)(((__int128)5 << n) / 4);
	auto d = [](std::int64_t a, std::int64_t b) { return val(std::pair<Integer, Integer>(a, b)); };
	for (int i = 0; i < n; i++) { r.add(0, i + 1, d(i == 0 ? 1 : i == 1 ? 3 : (std::int64_t)5 << (i - 2), 0)); r.add(n + 1 + i, 2 * n + 1, d(i < 2 ? 2 : (std::int64_t)5 << (i - 2), 0)); for (int j = 0; j < n; j++) if (i != j) r.add(i + 1, n + 1 + j, d(inf, ((std::int64_t)1 << std::max(i, j)) - 1)); }
	r.add(1, n + 1, d(inf, 0));
	same(g, r);
}

typedef void (*Fn)();
template<typename E, bool D_> void addFam(vector<Fn>& v) { using F = Fam<E, D_>; for (Fn f : {F::independentF, F::cliqueF, F::bipartiteF, F::pathF, F::cycleF, F::starF, F::latticeF, F::radoF, F::completeTreeF, F::randomTreeF, F::randomTreeF, F::randomGraphF, F::randomGraphF, F::randomBipartiteF, F::randomBipartiteF, F::largeF}) v.push_back(f); }
template<typename E> void addU(vector<Fn>& v) { using F = UFam<E>; for (Fn f : {F::wheelF, F::lollyF, F::broomF, F::gridF, F::cubeF, F::prueferF, F::growingF, F::degreeF, F::degreeF}) v.push_back(f); }

// ---- C15: histories -----------------------------------------------------------------------
// edge data which owns memory and which a move leaves empty
struct Tag {
	string s;
	Tag() = default;
	Tag(std::int64_t d) : s(d ? "the data of this edge is " + std::to_string(d) : "") {}
	operator std::int64_t() const { return s.empty() ? 0 : std::stoll(s.substr(25)); }
	friend std::ostream& operator<<(std::ostream& os, const Tag& t) { return os << (std::int64_t)t; }
};
template<typename E> E mk(std::int64_t d) { if constexpr (std::is_same_v<E, NoData>) return NoData{}; else return d; }
template<typename E, bool DIR> struct Hist {
	using G = GraphDetail::GraphType<E, DIR>;
	static constexpr bool hasData = !std::is_same_v<E, NoData>;
	static constexpr int N = 3;
	struct S { G g[N]; Ref m[N]; };
	static std::int64_t vtx(const Ref& m) { return m.mn + choose((std::uint32_t)m.n); }
	static std::int64_t nextData() { static std::int64_t c = 0; return hasData ? ++c : 0; }
	static Ref blank(std::int64_t n) { Ref r; r.dir = DIR; r.n = n; return r; }
	template<typename R> static void adopt(S& s, int i, const R& res, const Ref& want, bool data = true) { if (dead) return; same(res, want, data); if (dead) return; s.g[i] = res; s.m[i] = want; }
	static void step(S& s) {
		int i = choose(N), j = choose(N);
		G& g = s.g[i]; Ref& m = s.m[i];
		const G& cg = g;
		string nm = fmt("g%d", i);
		switch (choose(26)) {
			case 0: case 1: case 2: case 3: case 4: {        // insert or overwrite
				if (m.n < 2) return; std::int64_t a = vtx(m), b = vtx(m), d = nextData();
				if (chance(1, 20)) { b = choose(2) ? m.mn + m.n : m.mn - 1; D = nm + ".addEdge(" + I(a) + "," + I(b) + ") outside"; RUN(false, g.addEdge(a, b, mk<E>(d))); }
				else if (a == b) { D = nm + ".addEdge(loop)"; RUN(false, g.addEdge(a, b, mk<E>(d))); }
				else {
					int k = 1; if (choose(4) == 0) k = 1 + choose(6);
					for (int q = 0; q < k; q++, a = vtx(m), b = vtx(m)) { if (a == b) continue; if (q) d = nextData(); D = nm + ".addEdge(" + I(a) + "," + I(b) + "," + I(d) + ")"; bool dflt = choose(5) == 0; auto e = dflt ? g.addEdge(a, b) : g.addEdge(a, b, mk<E>(d)); m.add(a, b, dflt ? 0 : d); sim::ev("%s", D.c_str()); if (e.from != a || e.to != b) BAD("edges", "addEdge returned %" PRId64 " %" PRId64, e.from, e.to); if constexpr (hasData) { if (val(e.data) != (dflt ? 0 : d)) BAD("data", "addEdge returned data %" PRId64, val(e.data)); } }
				}
				break;
			}
			case 5: case 6: case 7: {        // erase
				if (m.n < 1) return; std::int64_t a = vtx(m), b = vtx(m);
				if (!m.e.empty() && choose(4)) { auto it = m.e.begin(); std::advance(it, choose((std::uint32_t)m.e.size())); a = it->first.first; b = it->first.second; if (choose(2)) std::swap(a, b); }
				bool byEdge = choose(2) && m.has(a, b) ; bool h = m.has(a, b), r;
				D = nm + ".eraseEdge(" + I(a) + "," + I(b) + ")";
				if (byEdge) { auto e = g.findEdge(a, b); if (!e) BAD("findEdge", "existing edge not found"); r = g.eraseEdge(*e); } else r = g.eraseEdge(a, b);
				if (r != h) BAD("erase", "returned %d although the edge %s", r, h ? "exists" : "does not exist");
				m.e.erase(m.key(a, b)); break;
			}
			case 8: {        // write through a handle
				if constexpr (hasData) {
					if (m.e.empty()) return; auto it = m.e.begin(); std::advance(it, choose((std::uint32_t)m.e.size())); std::int64_t a = it->first.first, b = it->first.second, d = nextData(); if (!DIR && choose(2)) std::swap(a, b);
					int how = choose(5); D = nm + fmt(" data of %" PRId64 " %" PRId64 " through handle %d", a, b, how);
					if (how == 0) *(*g.findEdge(a, b)) = d; else if (how == 1) { for (auto e : g[a]) if (e.to == b) e.data = d; } else if (how == 2) { for (auto e : g.getEdges()) if (m.key(e.from, e.to) == m.key(a, b)) *e = d; } else if (how == 3) { for (size_t k = 0; k < (size_t)g.edgeCount(); k++) { auto e = g.getEdgeById(k); if (m.key(e.from, e.to) == m.key(a, b)) e.data = d; } } else { auto e = g.addEdge(a, b, d - 1); e.data = d; }
					m.add(a, b, d);
				} else return;
				break;
			}
			case 9: { std::int64_t x = sim::range(-20, 20); if (choose(8) == 0) x = choose(2) ? INT64_MAX / 4 : -(INT64_MAX / 4); bool nrm = choose(4) == 0; D = nrm ? nm + ".normalize()" : nm + ".setMinId(" + I(x) + ")"; if (nrm) { x = 0; g.normalize(); } else g.setMinId(x); Ref r = blank(m.n); r.mn = x; for (auto& [k, d] : m.e) r.add(k.first - m.mn + x, k.second - m.mn + x, d); m = r; break; }
			case 10: { std::int64_t a = m.mn + choose((std::uint32_t)m.n + 1), b = m.mn + choose((std::uint32_t)m.n + 1); bool v = a <= b; D = nm + ".range(" + I(a) + "," + I(b) + ")"; G res; Ref r; r.dir = DIR; r.mn = a; r.n = b - a; for (auto& [k, d] : m.e) if (r.in(k.first) && r.in(k.second)) r.add(k.first, k.second, d); RUN(v, res = cg.range(a, b)); adopt(s, j, res, r); break; }
			case 11: { if (m.n + s.m[j].n > (bigRun ? 130 : 14)) return; D = nm + fmt(".append(g%d)", j); Ref o = s.m[j]; std::int64_t diff = m.mn + m.n - o.mn; m.n += o.n; for (auto& [k, d] : o.e) m.add(k.first + diff, k.second + diff, d); g.append(s.g[j]); break; }
			case 12: { if (!m.n || !s.m[j].n) return; Ref o = s.m[j]; std::int64_t lo = std::min(m.mn, o.mn), hi = std::max(m.mn + m.n, o.mn + o.n); if (hi - lo > (bigRun ? 130 : 14) || hi - lo < 0) return; D = nm + fmt(".combine(g%d)", j); m.mn = lo; m.n = hi - lo; for (auto& [k, d] : o.e) m.add(k.first, k.second, d); g.combine(s.g[j]); break; }
			case 13: { D = nm + ".permutateEdges()"; RUN(true, g.permutateEdges()); break; }
			case 14: { D = nm + ".permutate()"; RUN(true, g.permutate()); Ref r = observe(g); if (r.mn != m.mn || !isomorphic(m, r)) BAD("not-isomorphic", "result %s is no renaming of %s", show(r).c_str(), show(m).c_str()); m = r; break; }
			case 15: {
				vector<Integer> p(m.n); for (size_t k = 0; k < p.size(); k++) p[k] = m.mn + (std::int64_t)k; for (size_t k = p.size(); k > 1; k--) std::swap(p[k - 1], p[choose((std::uint32_t)k)]);
				bool v = true; if (p.size() > 1 && chance(1, 8)) { v = false; if (choose(2)) p[0] = p[1]; else p.pop_back(); }
				D = nm + ".permutate({"; for (auto x : p) D += I(x) + ","; D += "})";
				RUN(v, g.permutate(p)); Ref r = blank(m.n); r.mn = m.mn; for (auto& [k, d] : m.e) r.add(p[k.first - m.mn], p[k.second - m.mn], d); m = r; break;
			}
			case 16: { std::int64_t c = choose((std::uint32_t)m.e.size() + 3); D = nm + ".subgraph(" + I(c) + ")"; G res = cg.subgraph(c); Ref r = observe(res); if (r.mn != m.mn || r.n != m.n || (std::int64_t)r.e.size() != std::min<std::int64_t>(c, (std::int64_t)m.e.size())) BAD("edges", "%s from %s", show(r).c_str(), show(m).c_str()); for (auto& [k, d] : r.e) if (!m.e.count(k) || m.e[k] != d) BAD("edges", "edge %" PRId64 " %" PRId64 " was not in the graph", k.first, k.second); adopt(s, j, res, r); break; }
			case 17: { D = nm + ".complement()"; Ref r = blank(m.n); r.mn = m.mn; for (std::int64_t a = m.mn; a < m.mn + m.n; a++) for (std::int64_t b = m.mn; b < m.mn + m.n; b++) if (a != b && !m.has(a, b)) r.add(a, b); adopt(s, j, cg.complement(), r, false); s.m[j] = observe(s.g[j]); break; }
			case 18: {
				bool tc = choose(3) == 0; std::int64_t k = tc ? m.n : choose(5); D = tc ? nm + ".transitiveClosure()" : nm + ".power(" + I(k) + ")";
				Ref r = blank(m.n); r.mn = m.mn;
				for (std::int64_t a = m.mn; a < m.mn + m.n; a++) { std::map<std::int64_t, std::int64_t> dist; dist[a] = 0; vector<std::int64_t> q = {a}; for (size_t x = 0; x < q.size(); x++) if (dist[q[x]] < k) for (auto y : m.adj(q[x])) if (!dist.count(y)) { dist[y] = dist[q[x]] + 1; q.push_back(y); } for (auto y : q) if (y != a) r.add(a, y); }
				adopt(s, j, tc ? cg.transitiveClosure() : cg.power(k), r, false); s.m[j] = observe(s.g[j]); break;
			}
			case 19: case 20: {
				const Ref& o = s.m[j]; if (m.n * o.n > (bigRun ? 150 : 20)) return; int k = DIR ? 0 : choose(3); int t = choose(N); const G& og = s.g[j];
				D = nm + (k == 0 ? ".cartesian" : k == 1 ? ".product" : ".strongProduct") + fmt("(g%d)", j);
				auto build = [&](bool sw) { Ref r = blank(m.n * o.n); auto id = [&](std::int64_t a, std::int64_t b) { a -= m.mn; b -= o.mn; return sw ? a * o.n + b : b * m.n + a; };
					if (k != 1) { for (auto& [e, d] : m.e) for (std::int64_t y = o.mn; y < o.mn + o.n; y++) r.add(id(e.first, y), id(e.second, y)); for (auto& [e, d] : o.e) for (std::int64_t x = m.mn; x < m.mn + m.n; x++) r.add(id(x, e.first), id(x, e.second)); }
					if (k != 0) for (auto& [e, d] : m.e) for (auto& [f, d2] : o.e) { r.add(id(e.first, f.first), id(e.second, f.second)); r.add(id(e.first, f.second), id(e.second, f.first)); }
					return r; };
				G res; if constexpr (DIR) res = cg.cartesian(og); else res = k == 0 ? cg.cartesian(og) : k == 1 ? cg.product(og) : cg.strongProduct(og);
				Ref r = build(false);
				if (k == 2 && observe(res).e.size() == r.e.size()) { Ref q = observe(res); bool eq = q.e.size() == r.e.size(); for (auto& [e, d] : r.e) eq = eq && q.e.count(e); if (!eq) r = build(true); }
				adopt(s, t, res, r, false); if (!dead) s.m[t] = observe(s.g[t]); break;
			}
			case 21: {
				if (m.e.size() > (bigRun ? 90u : 14u)) return; D = nm + ".lineGraph()"; vector<P> ed; for (std::int64_t k = 0; k < cg.edgeCount(); k++) { auto e = cg.getEdgeById((size_t)k); ed.emplace_back(e.from, e.to); }
				Ref r = blank((std::int64_t)ed.size()); for (size_t a = 0; a < ed.size(); a++) for (size_t b = 0; b < ed.size(); b++) if (a != b) { auto x = ed[a], y = ed[b]; if (DIR ? x.second == y.first : (x.first == y.first || x.first == y.second || x.second == y.first || x.second == y.second)) r.add((std::int64_t)a, (std::int64_t)b); }
				adopt(s, j, cg.lineGraph(), r, false); if (!dead) s.m[j] = observe(s.g[j]); break;
			}
			case 22: {
				if constexpr (DIR) {
					if (choose(2)) { D = nm + ".reverse()"; g.reverse(); Ref r = blank(m.n); r.mn = m.mn; for (auto& [k, d] : m.e) r.add(k.second, k.first, d); m = r; }
					else { D = nm + ".undirected()"; auto u = cg.undirected(); Ref r = blank(m.n); r.dir = false; r.mn = m.mn; for (auto& [k, d] : m.e) r.add(k.first, k.second, d); Ref w = observe(u); for (auto& [k, d] : w.e) { bool ok = (m.e.count(k) && m.e[k] == d) || (m.e.count(P(k.second, k.first)) && m.e[P(k.second, k.first)] == d); if (!ok) BAD("data", "edge %" PRId64 " %" PRId64 " carries %" PRId64, k.first, k.second, d); } same(u, r, false); }
				} else {
					int k = choose(3); D = nm + fmt(".directed(%d)", k); Ref r = blank(m.n); r.dir = true; r.mn = m.mn; std::int64_t mod = 2 + choose(3);
					auto p2 = [mod](std::int64_t a, std::int64_t b) { return ((a * 7 + b * 3) % mod + mod) % mod != 0; };
					auto p3 = [mod, p2](std::int64_t a, std::int64_t b, std::int64_t d) { return p2(a + d % 5, b); };
					for (auto& [e, d] : m.e) { for (P q : {e, P(e.second, e.first)}) if (k == 0 || (k == 1 && p2(q.first, q.second)) || (k == 2 && p3(q.first, q.second, d))) r.add(q.first, q.second, d); }
					if (k == 0) same(cg.directed(), r); else if (k == 1) same(cg.directed([p2](Integer a, Integer b) { return p2(a, b); }), r); else same(cg.directed([p3](Integer a, Integer b, const E& d) { return p3(a, b, val(d)); }), r);
				}
				break;
			}
			case 23: {
				int k = choose(5);
				Ref was = m;
				D = k == 0 ? fmt("g%d = g%d", j, i) : k == 1 ? fmt("g%d = g%d.copy()", j, i) : k == 2 ? fmt("G(g%d)", i) : k == 3 ? fmt("vector of g%d", i) : fmt("G() for g%d", i);
				if (k == 0) { s.g[j] = g; s.m[j] = was; }
				else if (k == 4) { G t; same(t, blank(0)); t = cg; same(t, m); }
				else if (k == 3) {
					vector<G> v;
					for (int q = 1 + choose(4); q--;) v.push_back(cg);
					v.insert(v.begin(), choose(2) ? cg : G(3));
					v.erase(v.begin());
					for (auto& t : v) same(t, was);
					s.g[j] = v.back(); s.m[j] = was;
				} else {
					// a copy is complete, and lives apart from the original
					G t = k == 1 ? cg.copy() : G(cg);
					same(t, was);
					Ref tm = was;
					for (int q = choose(4); q-- && !dead && was.n > 1;) {
						auto a = vtx(tm), b = vtx(tm), d = nextData();
						if (a == b) continue;
						G& x = choose(2) ? t : g; Ref& y = &x == &t ? tm : m;
						if (choose(2)) { x.addEdge(a, b, mk<E>(d)); y.add(a, b, d); } else { x.eraseEdge(a, b); y.e.erase(y.key(a, b)); }
					}
					same(t, tm); if (!dead) same(g, m);
					s.g[j] = t; s.m[j] = tm;
				}
				break;
			}
			case 24: { if (m.n < 1) return; std::int64_t a = vtx(m), b = choose(2) ? m.mn + m.n + choose(3) : m.mn - 1 - (int)choose(3); if (choose(2)) std::swap(a, b); int k = choose(8); D = nm + fmt(" access %d outside (%" PRId64 ",%" PRId64 ")", k, a, b); RUN(false, if (k == 0) (void)cg.hasEdge(a, b); else if (k == 1) (void)cg.findEdge(a, b); else if (k == 2) g.eraseEdge(a, b); else if (k == 3) (void)cg[m.in(a) ? b : a]; else if (k == 5) (void)g.findEdge(a, b); else if (k == 6) (void)g[m.in(a) ? b : a]; else if (k == 7) (void)g.getEdgeById((size_t)g.edgeCount() + choose(3)); else (void)cg.degree(m.in(a) ? b : a)); break; }
			default: { std::int64_t a = sim::range(-5, 5), n = choose(9); bool z = choose(2); if (z) a = 0; D = z ? nm + " = G(" + I(n) + ")" : nm + " = G(" + I(a) + "," + I(a + n) + ")"; g = z ? G(n) : G(a, a + n); m = blank(n); m.mn = a; break; }
		}
		sim::ev("%s", D.c_str());
		{ size_t b = D.find_first_of(". "), e; if (b == string::npos) b = 0; else b++; for (e = b; e < D.size() && std::isalpha((unsigned char)D[e]); e++) {} sim::probe(("op " + D.substr(b, e - b)).c_str()); }
		if (dead) return;
		for (int k = 0; k < N && !dead; k++) same(s.g[k], s.m[k]);
	}
	static void run(int steps) {
		S s;
		for (int i = 0; i < N; i++) {
			std::int64_t n = choose(bigRun ? 45 : 8), a = choose(2) ? 0 : sim::range(-4, 4); s.g[i] = G(a, a + n); s.m[i] = blank(n); s.m[i].mn = a;
			if (n > 1) for (int k = choose(bigRun ? 70 : 10); k > 0; k--) { std::int64_t x = vtx(s.m[i]), y = vtx(s.m[i]); if (x == y) continue; auto d = nextData(); s.g[i].addEdge(x, y, mk<E>(d)); s.m[i].add(x, y, d); }
			D = "initial graph"; same(s.g[i], s.m[i]);
		}
		for (int k = 0; k < steps && !dead && !sim::W->violated; k++) { if (!fairRun) SimEngine::evil = 1 + choose(20); step(s); sim::sig(std::hash<string>()(D.substr(std::min<size_t>(D.size(), 2), 8))); std::snprintf(sim::W->hist, 200, "%s", D.c_str()); }
	}
};

void drive(bool families) {
	int m = choose(3); fairRun = m == 0;
	std::uint64_t seed = sim::word();
	unsigned n = families ? 1 + choose(5) : 1 + choose(sim::thorough() ? 60 : 25);
	sim::W->nontrivial = true;
	sim::sig(m);
	int type = choose(6);
	bigRun = !families && chance(1, 25); if (bigRun) n = 1 + n % 8;
	auto st = sim::spawn([&] {
		static char argv0[] = "/sim/gen"; char* av[] = {argv0, nullptr};
		Generator::init(1, av);
		Random::seed(seed);
		SimEngine::mode = m; SimEngine::evil = m ? 1 + choose(60) : 0;
		dead = false;
		if (families) {
			static vector<Fn> f; if (f.empty()) { addFam<NoData, false>(f); addFam<NoData, true>(f); addFam<Integer, false>(f); addFam<Integer, true>(f); addU<NoData>(f); addU<Integer>(f); f.push_back(ffF); f.push_back(mcmfF); f.push_back(mcmfF); }
			for (unsigned i = 0; i < n && !dead; i++) { if (m) SimEngine::evil = 1 + choose(40); f[choose((std::uint32_t)f.size())](); sim::ev("%s", D.c_str()); sim::sig(std::hash<string>()(D.substr(0, D.find('(')))); std::snprintf(sim::W->hist, 200, "%s", D.c_str()); }
		} else switch (type) { case 4: Hist<Tag, false>::run((int)n); break; case 5: Hist<Tag, true>::run((int)n); break; case 0: Hist<NoData, false>::run((int)n); break; case 1: Hist<Integer, false>::run((int)n); break; case 2: Hist<NoData, true>::run((int)n); break; default: Hist<Integer, true>::run((int)n); break; }
	}, sim::EXIT_FAST);
	if (sim::W->violated) return;
	if (st.hang) { sim::violate("hang", "does not end after %s", sim::W->hist); return; }
	if (!(st.exited && st.code == 0)) sim::violate("crash", "process ended with %d after %s; stderr %s", st.shown(), sim::W->hist, sim::quote(sim::get("<stderr>")).c_str());
}
sim::Register r1("families", [] { drive(true); }, 1);
sim::Register r2("graph-ops", [] { drive(false); }, 1);
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
