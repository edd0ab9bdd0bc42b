// graph_val.h: every predicate after every edge, for every arrival order; and whole streaming graph validators.
#include "../sim/core.h"
#include REPO_VALIDATE
#include REPO_GRAPH_VAL
#include <algorithm>
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <map>
#include <sys/resource.h>

using sim::chance;
using sim::choose;
using sim::fmt;
using std::string;
using std::vector;

namespace {
typedef std::pair<std::int64_t, std::int64_t> P;
string D;
bool dead;
#define BAD(cls, ...) do { if (!dead) sim::violate(cls, "%s: %s", D.c_str(), fmt(__VA_ARGS__).c_str()); dead = true; return; } while (0)

// ---- reference: everything recomputed from the edge list ---------------------------------
struct Ref {
	bool dir = false; std::int64_t off = 0, n = 0; vector<P> e;
	vector<int> comp() const {
		vector<vector<int>> a(n); for (auto& x : e) { a[x.first - off].push_back((int)(x.second - off)); a[x.second - off].push_back((int)(x.first - off)); }
		vector<int> c(n, -1); int k = 0; vector<int> q;
		for (int i = 0; i < n; i++) if (c[i] < 0) { q = {i}; c[i] = k; while (!q.empty()) { int v = q.back(); q.pop_back(); for (int y : a[v]) if (c[y] < 0) { c[y] = k; q.push_back(y); } } k++; }
		return c;
	}
	int comps() const { auto c = comp(); return c.empty() ? 0 : 1 + *std::max_element(c.begin(), c.end()); }
	bool forest() const { return (std::int64_t)e.size() == n - comps(); }
	bool bipartite() const {
		vector<vector<int>> a(n); for (auto& x : e) { if (x.first == x.second) return false; a[x.first - off].push_back((int)(x.second - off)); a[x.second - off].push_back((int)(x.first - off)); }
		vector<int> c(n, -1), q; for (int i = 0; i < n; i++) if (c[i] < 0) { c[i] = 0; q = {i}; while (!q.empty()) { int v = q.back(); q.pop_back(); for (int y : a[v]) { if (c[y] < 0) { c[y] = 1 - c[v]; q.push_back(y); } else if (c[y] == c[v]) return false; } } }
		return true;
	}
	bool acyclic() const { vector<vector<int>> a(n); vector<int> d(n), q; for (auto& x : e) { a[x.first - off].push_back((int)(x.second - off)); d[x.second - off]++; } for (int i = 0; i < n; i++) if (!d[i]) q.push_back(i); size_t k = 0; for (; k < q.size(); k++) for (int y : a[q[k]]) if (--d[y] == 0) q.push_back(y); return (std::int64_t)k == n; }
	std::int64_t outTree() const {        // root or INT64_MIN
		if (!n || (std::int64_t)e.size() != n - 1) return INT64_MIN; vector<int> d(n); for (auto& x : e) d[x.second - off]++;
		int r = -1; for (int i = 0; i < n; i++) { if (d[i] > 1) return INT64_MIN; if (!d[i]) { if (r >= 0) return INT64_MIN; r = i; } }
		if (r < 0 || comps() != 1) return INT64_MIN; return r + off;
	}
	int copies(std::int64_t a, std::int64_t b) const { int c = 0; for (auto& x : e) c += x == P(a, b) || (!dir && a != b && x == P(b, a)); return c; }
	vector<std::int64_t> out(std::int64_t v) const { vector<std::int64_t> r; for (auto& x : e) { if (x.first == v) r.push_back(x.second); if (!dir && x.second == v) r.push_back(x.first); } std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
	vector<std::int64_t> in(std::int64_t v) const { vector<std::int64_t> r; for (auto& x : e) if (x.second == v) r.push_back(x.first); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
	bool loop() const { for (auto& x : e) if (x.first == x.second) return true; return false; }
	bool multi() const { for (auto& x : e) if (copies(x.first, x.second) > 1) return true; return false; }
};
string show(const Ref& g) { string s = fmt("%s ids [%" PRId64 ",%" PRId64 ") edges", g.dir ? "digraph" : "graph", g.off, g.off + g.n); int k = 0; for (auto& x : g.e) { if (k++ > 40) { s += " ..."; break; } s += fmt(" %" PRId64 "%s%" PRId64, x.first, g.dir ? ">" : "-", x.second); } return s; }

string topo(const Ref& m, const std::optional<vector<Integer>>& o) {
	if (o.has_value() != m.acyclic()) return o ? "a cyclic graph was accepted as acyclic" : "an acyclic graph was refused";
	if (!o) return "";
	vector<std::int64_t> pos(m.n, -1); if ((std::int64_t)o->size() != m.n) return fmt("the order has %zu of %" PRId64 " vertices", o->size(), m.n);
	for (size_t i = 0; i < o->size(); i++) { auto v = (*o)[i] - m.off; if (v < 0 || v >= m.n || pos[v] >= 0) return fmt("vertex %" PRId64 " is no vertex or listed twice", (std::int64_t)(*o)[i]); pos[v] = (std::int64_t)i; }
	for (auto& x : m.e) if (pos[x.first - m.off] >= pos[x.second - m.off]) return fmt("edge %" PRId64 ">%" PRId64 " is not forward in the order", x.first, x.second);
	return "";
}
template<typename G> void common(const G& g, const Ref& m, bool full) {
	if (g.nodeCount() != m.n || (std::int64_t)g.size() != m.n) BAD("count", "nodeCount %" PRId64 " size %zu: %s", g.nodeCount(), g.size(), show(m).c_str());
	if (g.edgeCount() != (std::int64_t)m.e.size()) BAD("count", "edgeCount %" PRId64 ", expected %zu", g.edgeCount(), m.e.size());
	auto l = g.hasSelfloop();
	if (l.has_value() != m.loop()) BAD("selfloop", "hasSelfloop() says %d: %s", l.has_value(), show(m).c_str());
	if (l && !m.copies(*l, *l)) BAD("selfloop", "hasSelfloop() names %" PRId64 " which has none: %s", *l, show(m).c_str());
	if (full) {
		auto u = g.hasMultiedge();
		if (u.has_value() != m.multi()) BAD("multiedge", "hasMultiedge() says %d: %s", u.has_value(), show(m).c_str());
		if (u && m.copies(u->first, u->second) < 2) BAD("multiedge", "hasMultiedge() names %" PRId64 " %" PRId64 ": %s", u->first, u->second, show(m).c_str());
	}
	if (full) for (std::int64_t x = m.off; x < m.off + m.n; x++) {
		auto want = m.out(x); vector<std::int64_t> got(g[x].begin(), g[x].end()); std::sort(got.begin(), got.end());
		if (x == m.off) { const auto& r = std::move(g)[x]; got.assign(r.begin(), r.end()); std::sort(got.begin(), got.end()); if (got != want) BAD("neighbours", "operator[](%" PRId64 ") of an expiring graph lists %zu vertices, expected %zu: %s", x, got.size(), want.size(), show(m).c_str()); got.assign(g[x].begin(), g[x].end()); std::sort(got.begin(), got.end()); }
		if (got != want) BAD("neighbours", "operator[](%" PRId64 ") lists %zu vertices, expected %zu: %s", x, got.size(), want.size(), show(m).c_str());
		for (std::int64_t y = m.off; y < m.off + m.n; y++) if (g.hasEdge(x, y) != (m.copies(x, y) > 0)) BAD("hasEdge", "hasEdge(%" PRId64 ",%" PRId64 ") is %d: %s", x, y, (int)g.hasEdge(x, y), show(m).c_str());
	}
}
void compare(Graph& g, const Ref& m, bool full) {
	common(g, m, full); if (dead) return;
	int c = m.comps();
	if (g.isConnected() != (c <= 1)) BAD("connected", "isConnected() is %d: %s", (int)g.isConnected(), show(m).c_str());
	if (g.isForest() != m.forest()) BAD("forest", "isForest() is %d: %s", (int)g.isForest(), show(m).c_str());
	if (g.isTree() != (c <= 1 && m.forest())) BAD("tree", "isTree() is %d: %s", (int)g.isTree(), show(m).c_str());
	if (g.isBipartite() != m.bipartite()) BAD("bipartite", "isBipartite() is %d: %s", (int)g.isBipartite(), show(m).c_str());
	auto cp = m.comp();
	for (std::int64_t x = 0; x < m.n; x++) {
		for (std::int64_t y = 0; full && y < m.n; y++) if (g.areConnected(x + m.off, y + m.off) != (cp[x] == cp[y])) BAD("component", "areConnected(%" PRId64 ",%" PRId64 ") is %d: %s", x + m.off, y + m.off, (int)g.areConnected(x + m.off, y + m.off), show(m).c_str());
		if (full && g.degree(x + m.off) != (std::int64_t)m.out(x + m.off).size()) BAD("degree", "degree(%" PRId64 ") is %" PRId64 ": %s", x + m.off, g.degree(x + m.off), show(m).c_str());
	}
	if (!full && m.n) for (int k = 0; k < 30; k++) { std::int64_t x = choose((std::uint32_t)m.n), y = choose((std::uint32_t)m.n); if (g.areConnected(x + m.off, y + m.off) != (cp[x] == cp[y])) BAD("component", "areConnected(%" PRId64 ",%" PRId64 ")", x, y); }
}
void compare(DiGraph& g, const Ref& m, bool full) {
	common(g, m, full); if (dead) return;
	string t = topo(m, g.isDAG()); if (!t.empty()) BAD("dag", "isDAG(): %s: %s", t.c_str(), show(m).c_str());
	if (m.n) { auto r = g.isTree(); auto want = m.outTree(); if (r.has_value() != (want != INT64_MIN) || (r && *r != want)) BAD("out-tree", "isTree() says %s: %s", r ? fmt("root %" PRId64, *r).c_str() : "no", show(m).c_str()); }
	for (std::int64_t x = m.off; full && x < m.off + m.n; x++) {
		auto want = m.in(x); vector<std::int64_t> got(g.inEdges(x).begin(), g.inEdges(x).end()); std::sort(got.begin(), got.end());
		if (x + 1 == m.off + m.n && got == want) { const auto& r = std::move(g).inEdges(x); got.assign(r.begin(), r.end()); std::sort(got.begin(), got.end()); }
		if (got != want) BAD("in-edges", "inEdges(%" PRId64 ") lists %zu vertices, expected %zu: %s", x, got.size(), want.size(), show(m).c_str());
		if (g.inDegree(x) != (std::int64_t)want.size() || g.outDegree(x) != (std::int64_t)m.out(x).size()) BAD("degree", "inDegree(%" PRId64 ") %" PRId64 " outDegree %" PRId64 ": %s", x, g.inDegree(x), g.outDegree(x), show(m).c_str());
		for (std::int64_t y = m.off; y < m.off + m.n; y++) if (g.hasReverse(x, y) != (m.copies(y, x) > 0)) BAD("hasReverse", "hasReverse(%" PRId64 ",%" PRId64 ") is %d: %s", x, y, (int)g.hasReverse(x, y), show(m).c_str());
	}
}

// ---- edge lists with structure --------------------------------------------------------------
vector<P> draft(std::int64_t n, std::int64_t off, bool dir) {
	vector<P> e; if (n == 0) return e;
	auto v = [&] { return (std::int64_t)choose((std::uint32_t)n); };
	switch (choose(8)) {
		case 0: for (int k = choose((std::uint32_t)(2 * n + 2)); k > 0; k--) e.emplace_back(v(), v()); break;                       // anything, loops and multiples included
		case 1: for (std::int64_t i = 1; i < n; i++) e.emplace_back(choose((std::uint32_t)i), i); break;                               // tree
		case 2: for (std::int64_t i = 1; i < n; i++) if (choose(4)) e.emplace_back(choose((std::uint32_t)i), i); break;                // forest
		case 3: for (std::int64_t i = 0; i < n; i++) e.emplace_back(i, (i + 1) % n); if (choose(2) && !e.empty()) e.pop_back(); break; // cycle or path
		case 4: { std::int64_t l = choose((std::uint32_t)n + 1); if (l && l < n) for (int k = choose((std::uint32_t)(2 * n + 2)); k > 0; k--) e.emplace_back(choose((std::uint32_t)l), l + choose((std::uint32_t)(n - l))); break; }
		case 5: for (std::int64_t i = 0; i < n; i++) for (std::int64_t j = i + 1; j < n; j++) if (choose(3) == 0) e.emplace_back(i, j); break;   // DAG
		case 6: { std::int64_t k = 1 + choose((std::uint32_t)n); for (std::int64_t i = 0; i < k; i++) e.emplace_back(i, (i + 1) % k); for (std::int64_t i = k; i < n; i++) e.emplace_back(choose((std::uint32_t)i), i); if (choose(2)) e.erase(e.begin() + choose((std::uint32_t)e.size())); break; }   // one cycle with trees
		default: { std::int64_t k = choose((std::uint32_t)n); for (std::int64_t i = 1; i <= k; i++) e.emplace_back(i - 1, i); for (std::int64_t i = k + 2; i < n; i++) e.emplace_back(i - 1, i); if (n > k + 2) e.emplace_back(n - 1, k + 1); break; }   // path plus disjoint cycle
	}
	vector<std::int64_t> p(n); for (std::int64_t i = 0; i < n; i++) p[i] = i;
	if (choose(2)) for (std::int64_t i = n; i > 1; i--) std::swap(p[i - 1], p[choose((std::uint32_t)i)]);
	for (auto& x : e) { x = {p[x.first] + off, p[x.second] + off}; if (!dir && choose(2)) std::swap(x.first, x.second); else if (dir && chance(1, 30)) std::swap(x.first, x.second); }
	if (!e.empty() && chance(1, 6)) e.push_back(e[choose((std::uint32_t)e.size())]);
	if (!e.empty() && chance(1, 6)) { auto x = e[choose((std::uint32_t)e.size())]; e.emplace_back(x.second, x.first); }
	if (chance(1, 6)) e.emplace_back(off + v(), off + v());
	switch (choose(4)) { case 0: break; case 1: std::reverse(e.begin(), e.end()); break; default: for (size_t i = e.size(); i > 1; i--) std::swap(e[i - 1], e[choose((std::uint32_t)i)]); }
	return e;
}
std::int64_t offset() { switch (choose(6)) { case 0: return 0; case 1: return 1; case 2: return sim::range(-30, 30); case 3: return -1000000007; case 4: return 4000000000000000000; default: return -4000000000000000000; } }

// thousands of vertices: shapes which need deep or heavy internal structure; one choice seeds the whole list
vector<P> bigDraft(std::int64_t n, std::int64_t off, bool dir) {
	std::uint64_t r = sim::word(); auto rnd = [&](std::int64_t k) { r = sim::mix(r, 77); return (std::int64_t)(r % (std::uint64_t)k); };
	vector<P> e; int shape = choose(6);
	for (std::int64_t i = 1; i < n; i++) switch (shape) { case 0: e.emplace_back(i - 1, i); break; case 1: e.emplace_back(0, i); break; case 2: e.emplace_back((i - 1) / 2, i); break; case 3: e.emplace_back(i - 1 - rnd(std::min<std::int64_t>(i, 3)), i); break; case 4: e.emplace_back(rnd(i), i); break; default: if (rnd(50)) e.emplace_back(i - 1, i); }
	int extra = choose(4); if (extra == 1) e.emplace_back(n - 1, 0); else if (extra == 2) e.emplace_back(rnd(n), rnd(n)); else if (extra == 3) e.erase(e.begin() + rnd((std::int64_t)e.size()));
	int ord = choose(4);
	if (ord == 1) std::reverse(e.begin(), e.end()); else if (ord == 2) for (size_t i = e.size(); i > 1; i--) std::swap(e[i - 1], e[rnd((std::int64_t)i)]); else if (ord == 3) { vector<P> f; for (size_t st = 1; st < e.size(); st *= 2) for (size_t i = st - 1; i < e.size(); i += 2 * st) f.push_back(e[i]); e = f; }
	bool perm = choose(2); vector<std::int64_t> p(n); for (std::int64_t i = 0; i < n; i++) p[i] = i; if (perm) for (std::int64_t i = n; i > 1; i--) std::swap(p[i - 1], p[rnd(i)]);
	int turn = choose(3); for (auto& x : e) { x = {p[x.first] + off, p[x.second] + off}; if (!dir && (turn == 2 || (turn == 1 && rnd(2)))) std::swap(x.first, x.second); }
	return e;
}
// the stack a validator usually gets, whatever the limit of the shell which runs the simulation
void ordinaryStack() { rlimit l; if (!getrlimit(RLIMIT_STACK, &l)) { l.rlim_cur = std::min<rlim_t>(l.rlim_max, 8 << 20); setrlimit(RLIMIT_STACK, &l); } }
template<typename G> void feed(bool dir) {
	bool big = chance(1, 300);
	bool huge = big && chance(1, 15); if (huge) ordinaryStack();
	std::int64_t n = huge ? 400000 : big ? 1000 + choose(20000) : choose(12), off = offset();
	Ref m; m.dir = dir; m.n = n; m.off = off;
	bool zero = off == 0 && choose(2);
	D = dir ? "DiGraph" : "Graph"; D += zero ? "(" + std::to_string(n) + ")" : "(" + std::to_string(off) + "," + std::to_string(off + n) + ")";
	G g = zero ? G(n) : G(off, off + n);
	auto e = big ? bigDraft(n, off, dir) : draft(n, off, dir);
	sim::probe(fmt("%s%s", dir ? "digraph" : "graph", big ? " large" : "").c_str());
	if (!big) compare(g, m, true);
	bool lookups = choose(2);
	std::optional<G> twin; Ref tm;
	for (size_t i = 0; i < e.size() && !dead; i++) {
		g.addEdge(e[i].first, e[i].second); m.e.push_back(e[i]);
		if (!big) sim::ev("%s %zu edge %" PRId64 " %" PRId64, D.c_str(), i, e[i].first, e[i].second);
		if (!big && lookups && i + 1 < e.size() && choose(2)) continue;     // queries compress paths; not querying must not matter
		if (!big) compare(g, m, true);
		if (!big) switch (choose(24)) {
			case 0: { G h = g; G f = h; g = f; break; }
			case 1: { G h = std::move(g); g = std::move(h); break; }
			case 2: sim::probe("graph with a twin"); twin.emplace(g); tm = m; break;          // a copy which goes its own way
			default: break;
		}
		if (twin && choose(2)) { P x = choose(3) ? e[choose((std::uint32_t)e.size())] : P(off + choose((std::uint32_t)n), off + choose((std::uint32_t)n)); twin->addEdge(x.first, x.second); tm.e.push_back(x); string d = D; D += " copied"; if (!dead) compare(*twin, tm, true); D = d; if (!dead && choose(2)) compare(g, m, true); }
		if (twin && choose(16) == 0) { std::swap(*twin, g); std::swap(tm, m); }
	}
	if (big && !dead) { compare(g, m, false); sim::ev("%s: %zu edges", D.c_str(), e.size()); }
	sim::sig((dir ? 1 : 0) + 2 * std::min<std::uint64_t>(9, e.size()) + 20 * (n > 6) + 40 * m.loop() + (big ? 0 : 80 * m.multi()));
}
void unionFind() {
	std::int64_t n = chance(1, 100) ? chance(1, 5) ? 1500000 : 50000 : 1 + choose(14); if (n > 100) ordinaryStack(); D = fmt("UnionFind(%" PRId64 ")", n);
	UnionFind u(n); vector<int> c(n); for (int i = 0; i < n; i++) c[i] = i;
	int k = choose((std::uint32_t)(n > 100 ? 30 : 2 * n + 2));
	if (n > 100) { std::uint64_t r = sim::word(); int shape = choose(3), turn = choose(3); for (std::int64_t i = 1; i < n; i++) { r = sim::mix(r, 5); std::int64_t a = shape == 0 ? i - 1 : shape == 1 ? 0 : (std::int64_t)(r % i), b = i; if (turn == 2 || (turn == 1 && r & 1 << 20)) std::swap(a, b); if (!u.unionSets(a, b)) BAD("union-find", "unionSets(%" PRId64 ",%" PRId64 ") returned false", a, b); } std::fill(c.begin(), c.end(), 0); }
	for (; k > 0 && !dead; k--) {
		std::int64_t a = choose((std::uint32_t)n), b = choose((std::uint32_t)n);
		bool same = c[a] == c[b];
		if (u.connected(a, b) != same) BAD("union-find", "connected(%" PRId64 ",%" PRId64 ") is %d", a, b, !same);
		if ((u.findSet(a) == u.findSet(b)) != same) BAD("union-find", "findSet(%" PRId64 ") and findSet(%" PRId64 ")", a, b);
		auto r = u.findSet(a); if (r < 0 || r >= n || c[r] != c[a]) BAD("union-find", "findSet(%" PRId64 ") is %" PRId64 " which is in another set", a, (std::int64_t)r);
		if (choose(3)) { bool x = u.unionSets(a, b); if (x == same) BAD("union-find", "unionSets(%" PRId64 ",%" PRId64 ") returned %d", a, b, x); int f = c[a], t = c[b]; for (auto& y : c) if (y == f) y = t; }
	}
	if (!dead) for (std::int64_t i = 0; i < n && n < 100; i++) for (std::int64_t j = 0; j < n; j++) if (u.connected(i, j) != (c[i] == c[j])) BAD("union-find", "connected(%" PRId64 ",%" PRId64 ") is %d", i, j, (int)u.connected(i, j));
	sim::probe("union-find");
}

void containers() {
	sim::W->nontrivial = true;
	auto st = sim::spawn([&] { dead = false; for (int k = 1 + choose(3); k > 0 && !dead; k--) switch (choose(5)) { case 0: case 1: feed<Graph>(false); break; case 2: case 3: feed<DiGraph>(true); break; default: unionFind(); } }, sim::EXIT_FAST);
	if (sim::W->violated) return;
	if (st.hang) { sim::violate("hang", "does not end: %s", D.c_str()); return; }
	if (!(st.exited && st.code == 0)) sim::violate("crash", "process ended with %d", st.shown());
}

// ---- whole validators -------------------------------------------------------------------------
enum Prop { TREE, FOREST, CONNECTED, BIPARTITE, SIMPLE, DAG, OUTTREE, NPROP };
const char* const propName[] = {"tree", "forest", "connected", "bipartite", "simple", "DAG", "out-tree"};
bool holds(const Ref& m, int p) {
	switch (p) {
		case TREE: return m.comps() == 1 && m.forest();
		case FOREST: return m.forest();
		case CONNECTED: return m.comps() == 1;
		case BIPARTITE: return m.bipartite();
		case SIMPLE: return !m.loop() && !m.multi();
		case DAG: return m.acyclic();
		default: return m.outTree() != INT64_MIN;
	}
}
void validator(int p, std::int64_t off, bool early, bool lists, char* argv0) {
	char* argv[] = {argv0, nullptr};
	InputValidator::init(1, argv);
	InputStream& in = InputValidator::testIn;
	Integer n = in.integer(1, 100000), nl = 0; (void)nl;
	in.space();
	Integer e = in.integer(0, 1000000);
	in.newline();
	auto reject = [&] { InputValidator::juryErr << "the graph is not what was promised" << InputValidator::WA; };
	auto run = [&](auto g, auto ok) {
		for (Integer i = 0; i < e; i++) {
			Integer a, b;
			if (lists) { auto v = in.integers(off, off + n, 2, ' '); a = v[0]; b = v[1]; }
			else { a = in.integer(off, off + n); in.space(); b = in.integer(off, off + n); }
			in.newline();
			g.addEdge(a, b);
			if (early && !ok(g, true)) reject();
		}
		in.eof();
		if (!ok(g, false)) reject();
		InputValidator::juryOut << "fine" << InputValidator::AC;
	};
	switch (p) {
		case TREE: run(Graph(off, off + n), [](Graph& g, bool e) { return e ? g.isForest() : g.isTree(); }); break;
		case FOREST: run(Graph(off, off + n), [](Graph& g, bool) { return g.isForest(); }); break;
		case CONNECTED: run(Graph(off, off + n), [](Graph& g, bool e) { return e || g.isConnected(); }); break;
		case BIPARTITE: run(Graph(off, off + n), [](Graph& g, bool) { return g.isBipartite(); }); break;
		case SIMPLE: run(Graph(off, off + n), [](Graph& g, bool) { return !g.hasSelfloop() && !g.hasMultiedge(); }); break;
		case DAG: run(DiGraph(off, off + n), [](DiGraph& g, bool) { return g.isDAG().has_value(); }); break;
		default: run(DiGraph(off, off + n), [](DiGraph& g, bool e) { return e ? g.isDAG().has_value() : g.isTree().has_value(); }); break;
	}
}
void streaming() {
	int p = choose(NPROP); bool dir = p >= DAG; std::int64_t n = 1 + choose(chance(1, 30) ? 300 : 9), off = choose(3) ? (std::int64_t)choose(2) : sim::range(-50, 50);
	Ref m; m.dir = dir; m.n = n; m.off = off; m.e = draft(n, off, dir);
	bool early = n < 20 && choose(2), lists = choose(2);
	string text = std::to_string(n) + " " + std::to_string(m.e.size()) + "\n";
	for (auto& x : m.e) text += std::to_string(x.first) + " " + std::to_string(x.second) + "\n";
	bool good = holds(m, p), complete = true;
	switch (choose(10)) {
		case 0: { text.resize(choose((std::uint32_t)text.size())); complete = false; sim::fired(sim::F_CUT); break; }
		case 1: text += "0 0\n"; complete = false; break;
		case 2: if (!m.e.empty()) { size_t k = choose((std::uint32_t)m.e.size()); auto x = m.e; x[k].second = choose(2) ? off + n : off - 1; text = std::to_string(n) + " " + std::to_string(m.e.size()) + "\n"; for (auto& q : x) text += std::to_string(q.first) + " " + std::to_string(q.second) + "\n"; complete = false; } break;
		default: break;
	}
	sim::stdio_.chunkMode = choose(3); sim::stdio_.pipe = choose(2);
	if (choose(2)) sim::plan.eintr = 0, sim::plan.shortRead = 2 + choose(6);
	sim::put("<stdin>", text);
	static char argv0[] = "/sim/validator";
	sim::W->nontrivial = true;
	sim::ev("%s off %" PRId64 " early %d lists %d input %s", propName[p], off, early, lists, sim::quote(text, 300).c_str());
	auto st = sim::spawn([&] { validator(p, off, early, lists, argv0); }, sim::EXIT_REAL);
	int want = good && complete ? 42 : 43;
	sim::sig(p * 8 + good * 4 + complete * 2 + early);
	sim::probe(fmt("%s %s", propName[p], want == 42 ? "accepted" : "rejected").c_str());
	if (!st.exited || st.code != want) sim::violate(want == 42 ? "false-reject" : "false-accept", "streaming %s validator ended %d instead of %d on %s (%s); stdout %s", propName[p], st.shown(), want, sim::quote(text, 500).c_str(), complete ? "well-formed" : "malformed", sim::quote(sim::get("<stdout>")).c_str());
}
sim::Register r1("graph-containers", containers, 1);
sim::Register r2("graph-streams", streaming, 1);
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
