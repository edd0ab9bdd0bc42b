// Interpreter of generator scripts: one list of 64-bit words describes a whole generator program.
// Used by the simulated process (h_gen.cpp) and by the differently compiled builds of it (h_genvar.cpp).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <optional>
#include <random>
#include <string>
#include <vector>
#include REPO_RNG
#include REPO_SECURE_RNG
// engine behind the documented seam Settings::RandomEngine that dispatches to one of the three supplied engines
struct RtEngine {
	using result_type = std::uint64_t;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xFFFF'FFFF'FFFF'FFFFull; }
	static inline int kind = 0;
	std::uint64_t s0;
	std::optional<std::mt19937_64> a;
	std::optional<Xoshiro256ss> b;
	std::optional<AES_RNG> c;
	explicit RtEngine(std::uint64_t s) : s0(s) {}
	result_type operator()() {
		switch (kind) {
			case 1: if (!b) b.emplace(s0); return (*b)();
			case 2: if (!c) c.emplace(s0); return (*c)();
			default: if (!a) a.emplace(s0); return (*a)();
		}
	}
};
namespace Settings { using RandomEngine = RtEngine; }
#include REPO_VALIDATE
#include REPO_GRAPH_GEN

namespace gen {
typedef std::uint64_t u64;
typedef std::int64_t i64;
enum Seeding { NOTHING, CODE, COMMAND, CODE_AFTER_USE, CODE_AFTER_COMMAND };
constexpr int OPS = 43;
inline const char* const opName[OPS] = {"integer", "integer64", "bits", "real", "real-range", "discrete", "normal", "normal-bounded", "exponential", "exponential-bounded", "geometric", "geometric-bounded", "binomial", "binomial-bounded", "maxmin", "prime",
	"select", "shuffle", "rotate", "distinct", "perm", "multiple", "ordered", "partition", "string", "brackets", "convex", "noncollinear", "tree", "ditree", "graph-m", "graph-p", "bipartite", "growing", "degrees", "pruefer", "families", "permutate", "algebra", "engine", "reseed", "print", "labelled"};

struct Script {
	const u64* w; std::size_t n, i = 0;
	u64 next() { return i < n ? w[i++] : 0; }
	i64 to(i64 k) { return (i64)(next() % (u64)k); }                       // [0,k)
	i64 in(i64 lo, i64 hi) { return lo + (i64)(next() % (u64)(hi - lo + 1)); }
	i64 wide() { u64 r = next(); switch (r % 5) { case 0: return (i64)(r >> 3 & 63) - 20; case 1: return (i64)(r >> 8); case 2: return -(i64)(r >> 8); case 3: return (i64)((u64)1 << (r >> 3 & 63)); default: return (i64)(r * 0x9E3779B97F4A7C15ull); } }
	void interval(i64& lo, i64& hi) { lo = wide(); hi = wide(); if (lo > hi) std::swap(lo, hi); if (lo == hi) { if (hi < INT64_MAX) hi++; else lo--; } }
	Real unit() { return (Real)(1 + to(998)) / 1000; }
};
inline OutputStream& out() { return Generator::testOut; }
inline void sep() { out() << NEWLINE; }
inline void num(i64 x) { out() << x << SPACE; }
inline void rl(Real x) {
	char b[64]; std::snprintf(b, sizeof b, "%La", x);                        // every bit of the value
	out() << x << SPACE << std::string(b) << SPACE;
}
inline void ints(const std::vector<Integer>& v) { out() << v.size() << ':' << SPACE << v << NEWLINE; }
template<typename P> void points(const std::vector<P>& v) { out() << v.size() << NEWLINE; for (auto& p : v) out() << p << NEWLINE; }
template<typename G> void graph(const G& g) {
	out() << g << NEWLINE;
	for (i64 v = g.getMinId(); v < g.getNextId(); v++) { out() << v << ':'; for (const auto& e : g[v]) out() << SPACE << e.to; out() << SPACE << g.degree(v) << NEWLINE; }
}

inline void op(Script& s, int depth);
inline void run(Script& s, i64 n, int depth) { for (i64 k = 0; k < n; k++) op(s, depth); }

inline void op(Script& s, int depth) {
	using namespace Random;
	int o = (int)s.to(OPS);
	i64 a, b, n = s.to(14);
	std::vector<Integer> v;
	out() << '#' << opName[o] << SPACE;
	switch (o) {
		case 0: s.interval(a, b); for (i64 k = 0; k <= n; k++) num(integer(a, b)); num(integer(1 + s.to(1000))); break;
		case 1: for (i64 k = 0; k <= n; k++) num(integer()); break;
		case 2: for (i64 k = 0; k < 70; k++) out() << (bit() ? '1' : '0'); break;
		case 3: for (i64 k = 0; k <= n; k++) rl(real()); break;
		case 4: { Real x = (Real)s.wide() / 1024, y = (Real)s.wide() / 1024; if (x > y) std::swap(x, y); if (x == y) y += 1 + std::abs(y); rl(real(x, y)); rl(real((Real)(1 + s.to(100000)) / 64)); break; }
		case 5: for (i64 k = 0; k <= n; k++) { num(discrete<1, 2, 3, 4>()); num(discrete<0, 5, 0, 1>()); num(discrete<1000000000000000000, 1, 1000000000000000000>()); } break;
		case 6: for (i64 k = 0; k <= n; k++) { Real m = (Real)s.in(-5, 5), d = (Real)s.to(40) / 4; rl(normal(m, d)); } break;
		case 7: for (i64 k = 0; k <= n; k++) { Real m = (Real)s.in(-5, 5), d = (Real)(1 + s.to(40)) / 4; Real u = m + d * (Real)(1 + s.to(4)); rl(normal(m - d, u, m, d)); } break;
		case 8: for (i64 k = 0; k <= n; k++) rl(exponential((Real)(1 + s.to(500)) / 100)); break;
		case 9: for (i64 k = 0; k <= n; k++) { Real l = (Real)(1 + s.to(500)) / 100, lo = (Real)s.in(-50, 50), u = lo + (Real)(1 + s.to(5)) / l; rl(exponential(lo, u, l)); } break;
		case 10: for (i64 k = 0; k <= n; k++) num(geometric(s.unit())); break;
		case 11: for (i64 k = 0; k <= n; k++) { a = s.in(-100, 100); b = a + 1 + s.to(100); Real p = s.unit() / 2; num(geometric(a, b, p)); } break;
		case 12: for (i64 k = 0; k <= n; k++) { i64 m = s.to(4) == 0 ? s.to(1000000000000) : s.to(300); num(binomial(m, s.unit())); } break;
		case 13: for (i64 k = 0; k <= n; k++) { i64 m = 2 + s.to(100); num(binomial(m / 4, m / 4 * 3 + 1, m, (Real)1 / 2)); } break;
		case 14: for (i64 k = 0; k <= n; k++) { s.interval(a, b); i64 c = 1 + s.to(12); num(maximum(a, b, c)); num(minimum(a, b, c)); i64 d = s.to(2) ? c : -c; num(minmax(a, b, d)); } break;
		case 15: for (i64 k = 0; k <= n; k++) { a = s.to(4) ? s.to(1000) : s.to(1000000000000000000); num(prime(a, a + 2000)); } break;
		case 16: {
			v = {10, 20, 30, 40, 50, 60, 70};
			const std::vector<Integer> cv = v; const int arr[5] = {1, 2, 3, 4, 5}; int marr[3] = {7, 8, 9};
			for (i64 k = 0; k <= n; k++) { num(select(v)); num(select(cv)); num(select(v.begin() + 1, v.end())); num(select(arr)); num(select(marr)); num(select(std::pair<Integer, Integer>(3, 9))); out() << select(std::string_view("xyz")); }
			break;
		}
		case 17: {
			v = range(1, 1 + n * 3); shuffle(v); ints(v);
			std::string t = "abcdefghijklmnop"; shuffle(t); out() << t << SPACE; shuffle(t.begin() + 2, t.begin() + 9); out() << t << SPACE;
			std::pair<Integer, Integer> p(1, 2); shuffle(p); out() << p;
			std::vector<std::vector<Integer>> vv; for (i64 k = 0; k < n; k++) vv.push_back({k, k * k}); shuffle(vv); for (auto& x : vv) ints(x);
			break;
		}
		case 18: v = range(0, 1 + n); num(rotate(v)); ints(v); num(rotate(v.begin(), v.end())); ints(v); break;
		case 19: a = s.in(-1000, 1000); ints(distinct(n, a, a + n + s.to(50))); ints(distinct(n, 1000000000000)); break;
		case 20: { ints(perm(n)); ints(perm(n, s.in(-5, 5))); for (i64 k = s.to(4); k >= 0; k--) v.push_back(1 + s.to(4)); ints(perm(v)); ints(perm(v, 1)); std::vector<Integer> f; if (n) for (i64 k = s.to(4); k > 0; k--) f.push_back(s.to(n)); ints(perm(n, f)); break; }
		case 21: s.interval(a, b); ints(multiple(n, a, b)); ints(multiple(n, 1 + s.to(100))); break;
		case 22: a = s.in(-100, 100); b = a + n + 1 + s.to(100); ints(increasing(n, a, b)); ints(decreasing(n, a, b)); ints(nonDecreasing(n, a, b)); ints(nonIncreasing(n, a, b)); ints(increasing(n, n + 3)); break;
		case 23: { i64 k = 1 + n, m = s.in(0, 3); ints(partition(k * m + 1 + s.to(100), k, m)); ints(partition(k + s.to(1000000), k)); break; }
		case 24: out() << string(n * 3) << SPACE << string(n, UPPER) << SPACE << string(n, std::string_view("01")); break;
		case 25: out() << bracketSequence(n) << SPACE << bracketSequence(n, '<', '>'); break;
		case 26: { i64 d = 20 + s.to(1000); points(convex(3 + n, d)); points(convex<std::complex<Integer>>(3 + n, 1000000)); break; }
		case 27: { i64 d = n + 1 + s.to(1000); points(nonCollinearPoints(n, d)); points(nonCollinearPoints<std::complex<Integer>>(n, 1000000)); break; }
		case 28: graph(randomTree(n * 2)); break;
		case 29: { auto g = randomTree<NoData, true>(1 + n * 2); graph(g); break; }
		case 30: { i64 m = n * (n - 1); if (m < 0) m = 0; graph(randomGraph(n, m / 2 ? s.to(m / 2 + 1) : 0)); graph(randomGraph<NoData, true>(n, m ? s.to(m + 1) : 0)); break; }
		case 31: { Real p = s.unit(); graph(randomGraph(n + 1, p)); graph(randomGraph<NoData, true>(n + 1, p / 2)); break; }
		case 32: { i64 m = 1 + s.to(6); n++; graph(randomBipartite(n, m, s.to(n * m + 1))); graph(randomBipartite<NoData, true>(n, m, s.to(2 * n * m + 1))); graph(randomBipartite(n, m, s.unit())); break; }
		case 33: graph(randomGrowingGraph(n * 2, s.unit())); break;
		case 34: { n += 4; v.assign((std::size_t)n, 2); if (s.to(2)) { v[0] = 3; v[(std::size_t)n - 1] = 3; } graph(randomGraph(v, s.to(6))); break; }
		case 35: { n += 3; v = multiple(n - 2, n); graph(pruefer(v)); break; }
		case 36: graph(clique(n)); graph(grid(2 + n / 4, 3)); graph(hypercube(n % 5)); graph(completeTree(2 + n % 3)); graph(rado(n * 2)); graph(booleanLattice<NoData, true>(n % 5)); graph(wheel(3 + n)); graph(lolly(n, 4)); graph(broom(n, 3)); graph(ffWorstcase(1 + n)); break;
		case 37: {
			auto g = randomGraph(n + 3, s.to(n + 4)); g.setMinId(s.in(0, 9)); g.permutateEdges(); graph(g); g.permutate(); graph(g); graph(g.subgraph(s.to(4)));
			auto d = randomTree<Integer, true>(n + 2); d.permutate(); graph(d);
			break;
		}
		case 38: { auto g = randomTree(n / 2 + 2); auto h = path(2); graph(g.cartesian(h)); graph(g.lineGraph()); graph(g.complement()); graph(g.strongProduct(h)); graph(g.power(2)); auto d = randomGraph<NoData, true>(5, s.to(9)); graph(d.transitiveClosure()); graph(d.reverse()); graph(d.undirected()); break; }
		case 39: {
			u64 x = s.next(), y = s.next();
			std::array<u64, 4> st{x, y, x ^ ~y, x * 3 + 1};
			Xoshiro256ss p(x), q(y), r(st);
			out() << SPACE << std::to_string(p()) << SPACE << std::to_string(q()); Xoshiro256ss p2 = p;
			for (int k = 0; k < 4; k++) out() << SPACE << std::to_string(p()) << SPACE << std::to_string(q()) << SPACE << std::to_string(p2()) << SPACE << std::to_string(r());
			r.jump(); out() << SPACE << std::to_string(r()) << SPACE << std::to_string(r());
			AES::Key key; AES::Block iv; for (std::size_t k = 0; k < key.size(); k++) key[k] = (std::uint8_t)(x >> (k % 8 * 8) ^ k * 37); for (std::size_t k = 0; k < iv.size(); k++) iv[k] = n % 3 == 0 && k < 4 + (std::size_t)n ? 255 : (std::uint8_t)(y >> (k % 8 * 8));
			AES_RNG e(x), f(key, iv), g2(y);
			for (int k = 0; k < 4; k++) { out() << SPACE << std::to_string(e()) << SPACE << std::to_string(f()) << SPACE << std::to_string(g2()); if (k == 1) { AES_RNG e2 = e; out() << SPACE << std::to_string(e2()); } }
			break;
		}
		case 40: {
			if (depth) break;
			u64 x = s.next(); i64 k = 1 + s.to(3); auto at = s.i;
			Random::seed(x); out() << "{{"; run(s, k, 1); out() << "||";
			s.i = at; Random::seed(x); run(s, k, 1); out() << "}}";
			break;
		}
		case 41: {
			out() << std::pair<Integer, Real>{integer(10), real()} << SPACE << std::tuple<Integer, std::string, bool>{integer(5), "x", bit()} << NEWLINE;
			std::vector<Real> rs; for (i64 k = 0; k < n; k++) rs.push_back(real(-1000000.0_real, 1000000.0_real)); out() << rs << NEWLINE;
			std::map<std::string, Integer> m; for (i64 k = 0; k < n; k++) m[string(3)] = integer(100); for (auto& [x, y] : m) out() << x << SPACE << y << SPACE;
			std::set<Integer> st; for (i64 k = 0; k < n; k++) st.insert(integer(1000)); out() << st << NEWLINE << join(multiple(n, 50), ',');
			break;
		}
		default: { auto g = randomTree<Integer>(n + 2); for (auto e : g.getEdges()) *e = integer(1000); g.permutate(); graph(g); auto h = g; h.append(g); graph(h); auto d = g.directed([](Integer x, Integer y) { return x < y; }); graph(d); }
	}
	sep();
}
}
