// Distribution of every draw: many simulated seedings of the supplied engines, compared with exact probabilities.
#include "../sim/core.h"
#include <cstdint>
#include <random>
#include REPO_RNG
#include REPO_SECURE_RNG
struct DistEngine {
	using result_type = std::uint64_t;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xFFFF'FFFF'FFFF'FFFFull; }
	static inline int kind = 0;
	std::mt19937_64 m; Xoshiro256ss x; AES_RNG a;
	explicit DistEngine(std::uint64_t s) : m(kind == 0 ? s : 1), x(s), a(s) {}
	void seed(std::uint64_t s) { *this = DistEngine(s); }
	std::uint64_t operator()() { return kind == 0 ? m() : kind == 1 ? x() : a(); }
};
namespace Settings { using RandomEngine = DistEngine; }
#ifdef SIM_NO128   // a judge without 128-bit integers
#include <bits/stdc++.h>
#undef __SIZEOF_INT128__
#endif
#include REPO_VALIDATE
#include REPO_GRAPH_GEN
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <numeric>
#include <algorithm>

using sim::choose;
using sim::fmt;
using std::string;
using std::vector;
typedef unsigned __int128 u128;
typedef long double ld;

namespace {
struct Test { string desc; vector<ld> prob; std::function<int()> draw; int n = 100000; string known; bool heavy = false; };
const int IMPOSSIBLE = -1;
string I(std::int64_t v) { return std::to_string(v); }

// outcomes enumerated by the model, all equally likely unless weights are given
template<typename T> Test uniformOver(string d, const vector<T>& all, std::function<T()> f, int n) {
	auto idx = std::make_shared<std::map<T, int>>();
	for (auto& x : all) idx->emplace(x, (int)idx->size());
	Test t; t.desc = d; t.prob.assign(idx->size(), (ld)1 / idx->size()); t.n = n;
	t.draw = [idx, f] { auto it = idx->find(f()); return it == idx->end() ? IMPOSSIBLE : it->second; };
	return t;
}
template<typename T> Test weightedOver(string d, const std::map<T, ld>& w, std::function<T()> f, int n) {
	auto idx = std::make_shared<std::map<T, int>>();
	Test t; t.desc = d; t.n = n;
	ld sum = 0; for (auto& [k, p] : w) sum += p;
	for (auto& [k, p] : w) { idx->emplace(k, (int)idx->size()); t.prob.push_back(p / sum); }
	t.draw = [idx, f] { auto it = idx->find(f()); return it == idx->end() ? IMPOSSIBLE : it->second; };
	return t;
}
Test cells(string d, int k, std::function<int()> f, int n) { Test t; t.desc = d; t.prob.assign(k, (ld)1 / k); t.draw = f; t.n = n; return t; }

// integers of [lo, lo+R): bucket by size or by residue, with the exact number of integers per cell
Test intCells(string d, std::uint64_t lo, u128 R, std::function<std::int64_t()> f, int prefer = 0) {
	Test t; t.desc = d; t.n = 300000;
	int mode = prefer && choose(3) ? 0 : choose(3);
	if (R <= 64) { int r = (int)R; t.prob.assign(r, (ld)1 / r); t.draw = [=] { std::uint64_t o = (std::uint64_t)f() - lo; return o < (std::uint64_t)r ? (int)o : IMPOSSIBLE; }; return t; }
	if (mode == 0) {
		int m = prefer && choose(4) ? prefer : 2 + choose(30); t.desc += fmt(" mod %d", m);
		for (int i = 0; i < m; i++) t.prob.push_back((ld)((R - i + m - 1) / m) / (ld)R);
		t.draw = [=] { u128 o = (std::uint64_t)f() - lo; return o < R ? (int)(o % m) : IMPOSSIBLE; };
	} else if (mode == 1) {
		int m = 2 + choose(62); t.desc += fmt(" in %d parts", m);
		// 128-bit safe: R < 2^65, m < 64
		auto first = [=](int i) { return (R * i + m - 1) / m; };
		for (int i = 0; i < m; i++) t.prob.push_back((ld)(first(i + 1) - first(i)) / (ld)R);
		t.draw = [=] { u128 o = (std::uint64_t)f() - lo; return o < R ? (int)(o * m / R) : IMPOSSIBLE; };
	} else {
		int m = 4; t.desc += " consecutive quarters";
		auto first = [=](int i) { return (R * i + m - 1) / m; };
		for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) t.prob.push_back((ld)(first(i + 1) - first(i)) / (ld)R * (ld)(first(j + 1) - first(j)) / (ld)R);
		t.draw = [=] { u128 o = (std::uint64_t)f() - lo, p = (std::uint64_t)f() - lo; return o < R && p < R ? (int)(o * m / R) * 4 + (int)(p * m / R) : IMPOSSIBLE; };
	}
	return t;
}
Test tInteger() {
	int k = choose(5);
	if (k == 0) return intCells("integer()", 1ull << 63, (u128)1 << 64, [] { return Random::integer(); });
	std::uint64_t R;
	int odd = 0;
	switch (choose(7)) {
		case 5: case 6: { static const int os[] = {3, 5, 7, 9, 11, 13, 15}; odd = os[choose(choose(2) ? 2 : 7)]; int sh = 0; while ((u128)odd << (sh + 1) < ((u128)1 << 64)) sh++; R = (std::uint64_t)odd << (sh - (int)choose(3)); break; } case 0: R = 2 + choose(63); break; case 1: R = 65 + choose(100000); break; case 2: R = (1ull << 63) + (sim::word() >> 1); break; case 3: R = (3ull << 62) + choose(1000); break; default: R = (sim::word() >> choose(60)) | 2; break; }
	if (k == 1) { R &= INT64_MAX; if (!R) R = 2; return intCells("integer(" + I((std::int64_t)R) + ")", 0, R, [R] { return Random::integer((std::int64_t)R); }, odd); }
	// lower + R must stay within [-2^63, 2^63)
	std::uint64_t room = ~0ull - R;                 // lower = -2^63 + [0, room]
	std::uint64_t off = room ? (choose(3) == 0 ? 0 : choose(2) ? room : sim::word() % (room + 1)) : 0;
	std::int64_t lo = (std::int64_t)((1ull << 63) + off), hi = (std::int64_t)((std::uint64_t)lo + R);
	return intCells("integer(" + I(lo) + "," + I(hi) + ")", (std::uint64_t)lo, R, [lo, hi] { return Random::integer(lo, hi); }, odd);
}
Test tBit() {
	int b = 1 + choose(8);
	return cells(fmt("bit() x %d", b), 1 << b, [b] { int r = 0; for (int i = 0; i < b; i++) r = r * 2 + Random::bit(); return r; }, 300000);
}
Test tReal() {
	int m = choose(5);
	int sh = choose(30);
	auto part = [sh](ld x, int K) { x = std::ldexp(x, sh); x -= std::floor(x); return (int)std::min<ld>(K - 1, std::floor(x * K)); };
	if (m == 0) return cells(fmt("real() bits from %d", sh), 16, [part] { return part(Random::real(), 16); }, 300000);
	if (m == 1) { Test t; t.desc = "real() magnitude"; t.n = 300000; for (int i = 0; i < 10; i++) t.prob.push_back(std::ldexp(1.0L, -i - 1)); t.prob.push_back(std::ldexp(1.0L, -10)); t.draw = [] { ld x = Random::real(); int i = 0; while (i < 10 && x < 0.5L) { x *= 2; i++; } return i; }; return t; }
	if (m == 2) return cells("real() consecutive", 36, [] { int a = (int)(Random::real() * 6), b = (int)(Random::real() * 6); return a * 6 + b; }, 200000);
	if (m == 3) { double u = std::ldexp(1 + choose(1000), (int)choose(80) - 40); return cells(fmt("real(%g)", u), 20, [u] { return (int)(Random::real(u) / u * 20 - 1e-12); }, 200000); }
	double a = (double)sim::range(-1000, 1000), b = a + (1 + choose(3000)) / 8.0;
	return cells(fmt("real(%g,%g)", a, b), 20, [a, b] { int c = (int)((Random::real(a, b) - a) / (b - a) * 20); return std::min(c, 19); }, 200000);
}
template<Integer... W> Test disc() {
	vector<std::int64_t> w = {W...};
	Test t; t.desc = "discrete<"; t.n = 200000;
	ld s = 0; for (auto x : w) s += (ld)x;
	for (auto x : w) { t.desc += I(x) + ","; t.prob.push_back((ld)x / s); }
	t.desc += ">()";
	int n = (int)w.size();
	t.draw = [n] { auto r = Random::discrete<W...>(); return r < 0 || r >= n ? IMPOSSIBLE : (int)r; };
	return t;
}
Test tDiscrete() { switch (choose(6)) { case 0: return disc<1, 1>(); case 1: return disc<1, 2, 3>(); case 2: return disc<0, 5, 0, 1>(); case 3: return disc<1000000007, 1000000009, 2>(); case 4: return disc<3, 1, 4, 1, 5, 9, 2, 6, 5, 3>(); default: return disc<2305843009213693951, 2305843009213693951, 4611686018427387904>(); } }

ld Phi(ld z) { return 0.5L * erfcl(-z / sqrtl(2)); }
Test byCdf(string d, std::function<ld(ld)> cdf, ld lo, ld hi, vector<ld> cut, std::function<ld()> f, int n) {   // cells between cut points, truncated to [lo,hi)
	vector<ld> c; for (ld x : cut) if (x > lo && x < hi) c.push_back(x);
	std::sort(c.begin(), c.end());
	Test t; t.desc = d; t.n = n;
	ld F0 = cdf(lo), F1 = cdf(hi), last = F0;
	for (ld x : c) { t.prob.push_back((cdf(x) - last) / (F1 - F0)); last = cdf(x); }
	t.prob.push_back((F1 - last) / (F1 - F0));
	t.draw = [=] { ld x = f(); if (!(x >= lo && x < hi)) return IMPOSSIBLE; return (int)(std::upper_bound(c.begin(), c.end(), x) - c.begin()); };
	return t;
}
Test tNormal() {
	double m = (double)sim::range(-50, 50), s = (1 + choose(64)) / 8.0;
	vector<ld> cut; for (int i = -12; i <= 12; i++) cut.push_back(m + s * i / 4.0L);
	auto cdf = [m, s](ld x) { return std::isinf(x) ? (x < 0 ? 0 : 1) : Phi((x - m) / s); };
	if (choose(3) == 0) return byCdf(fmt("normal(%g,%g)", m, s), cdf, -INFINITY, INFINITY, cut, [m, s] { return Random::normal(m, s); }, 100000);
	double lo = choose(4) ? m + s * ((int)choose(5) - 3) : -INFINITY, hi = choose(4) ? (std::isinf(lo) ? m : lo) + s * (1 + choose(4)) : INFINITY;
	return byCdf(fmt("normal(%g,%g,%g,%g)", lo, hi, m, s), cdf, lo, hi, cut, [=] { return Random::normal(lo, hi, m, s); }, 60000);
}
Test tExp() {
	double l = (1 + choose(40)) / (double)(1 + choose(10));
	vector<ld> cut; for (int i = 1; i < 25; i++) cut.push_back(-logl(1 - i / 25.0L) / l);
	if (choose(3) == 0) return byCdf(fmt("exponential(%g)", l), [l](ld x) { return std::isinf(x) ? 1 : -expm1l(-l * x); }, 0, INFINITY, cut, [l] { return Random::exponential(l); }, 100000);
	double lo = (double)sim::range(-20, 20), hi = choose(3) ? lo + (1 + choose(30)) / 10.0 / l : INFINITY;
	for (auto& c : cut) c += lo;
	return byCdf(fmt("exponential(%g,%g,%g)", lo, hi, l), [l, lo](ld x) { return std::isinf(x) ? 1 : -expm1l(-l * (x - lo)); }, lo, hi, cut, [=] { return Random::exponential(lo, hi, l); }, 60000);
}
Test tGeom() {
	double p = (1 + choose(60)) / 64.0;
	std::int64_t lo = sim::range(-30, 30), len = 1 + choose(20);
	bool bounded = choose(2);
	Test t; t.n = 100000;
	ld z = bounded ? -expm1l(len * log1pl(-p)) : 1;
	int k = bounded ? (int)len : 30;
	for (int i = 0; i < k; i++) t.prob.push_back(powl(1 - p, i) * p / z);
	if (!bounded) t.prob.push_back(powl(1 - p, k));
	if (bounded) { t.desc = "geometric(" + I(lo) + "," + I(lo + len) + fmt(",%g)", p); t.draw = [=] { auto x = Random::geometric(lo, lo + len, p) - lo; return x < 0 || x >= len ? IMPOSSIBLE : (int)x; }; }
	else { t.desc = fmt("geometric(%g)", p); t.draw = [=] { auto x = Random::geometric(p); return x < 0 ? IMPOSSIBLE : (int)std::min<std::int64_t>(x, k); }; }
	return t;
}
ld binPmf(std::int64_t n, ld p, std::int64_t k) { if (p == 0) return k == 0; if (p == 1) return k == n; return expl(lgammal(n + 1.0L) - lgammal(k + 1.0L) - lgammal(n - k + 1.0L) + k * logl(p) + (n - k) * log1pl(-p)); }
Test tBinom() {
	std::int64_t n; switch (choose(4)) { case 0: n = choose(12); break; case 1: n = 10 + choose(90); break; case 2: n = 100 + choose(2000); break; default: n = 1000 + choose(2000000); break; }
	double p; switch (choose(4)) { case 0: p = choose(65) / 64.0; break; case 1: p = 0.5; break; case 2: p = std::min(1.0, (1 + choose(300)) / 10.0 / (double)(n + 1)); break; default: p = (double)(sim::word() >> 11) * 0x1p-53; break; }
	if (choose(4) == 0) p = 1 - p;
	ld sd = sqrtl(n * p * (1 - p)), mean = n * p;
	std::int64_t a = std::max<std::int64_t>(0, (std::int64_t)(mean - 12 * sd - 40)), b = std::min<std::int64_t>(n, (std::int64_t)(mean + 12 * sd + 40));
	std::int64_t lo = a, hi = b + 1; bool bounded = choose(3) == 0 && sd > 0;
	if (bounded) { lo = (std::int64_t)floorl(mean - sd * choose(3)); hi = lo + 1 + (std::int64_t)(sd * (1 + choose(3))) + 1; lo -= choose(2); }
	// groups of consecutive values
	auto group = std::make_shared<vector<int>>(b - a + 1);
	Test t; t.n = 60000; ld acc = 0, z = 0; int g = 0;
	std::map<int, ld> pr;
	for (std::int64_t k = a; k <= b; k++) { if (k < lo || k >= hi) { (*group)[k - a] = -1; continue; } ld q = binPmf(n, p, k); (*group)[k - a] = g; pr[g] += q; z += q; acc += q; if (acc > 0.03L * 1) { g++; acc = 0; } }
	if (z < 0.02L) return tBinom();
	for (auto& [k, q] : pr) t.prob.push_back(q / z);
	t.desc = bounded ? "binomial(" + I(lo) + "," + I(hi) + "," + I(n) + fmt(",%.17g)", p) : "binomial(" + I(n) + fmt(",%.17g)", p);
	t.draw = [=] { auto x = bounded ? Random::binomial(lo, hi, n, p) : Random::binomial(n, p); if (x < 0 || x > n) return IMPOSSIBLE; if (x < a || x > b) return IMPOSSIBLE; return (*group)[x - a]; };
	return t;
}
Test tMaxMin() {
	int R = 1 + choose(30), n = 1 + choose(choose(2) ? 5 : 40);
	std::int64_t lo = choose(3) ? sim::range(-1000, 1000) : 0;
	int k = choose(3); bool neg = choose(2);
	Test t; t.n = 80000;
	bool mx = k == 0 || (k == 2 && !neg);
	for (int i = 0; i < R; i++) { int j = mx ? i : R - 1 - i; t.prob.push_back(powl((j + 1) / (ld)R, n) - powl(j / (ld)R, n)); }
	bool shrt = lo == 0 && choose(2);
	t.desc = string(k == 0 ? "maximum(" : k == 1 ? "minimum(" : "minmax(") + I(lo) + "," + I(lo + R) + "," + I(k == 2 && neg ? -n : n) + ")";
	t.draw = [=] {
		std::int64_t x;
		std::int64_t q = k == 2 && neg ? -n : n;
		if (shrt) x = k == 0 ? Random::maximum(R, q) : k == 1 ? Random::minimum(R, q) : Random::minmax(R, q);
		else x = k == 0 ? Random::maximum(lo, lo + R, q) : k == 1 ? Random::minimum(lo, lo + R, q) : Random::minmax(lo, lo + R, q);
		return x < lo || x >= lo + R ? IMPOSSIBLE : (int)(x - lo);
	};
	return t;
}
bool prime(std::int64_t n) { if (n < 2) return false; for (std::int64_t d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }
Test tPrime() {
	for (;;) {
		std::int64_t lo = choose(3) ? choose(200) : 0, hi = lo + 4 + choose(200);
		vector<std::int64_t> ps; for (auto x = lo; x < hi; x++) if (prime(x)) ps.push_back(x);
		if (ps.size() * 5 < (size_t)(hi - lo) || ps.empty()) continue;
		bool shrt = lo == 0 && choose(2);
		auto t = uniformOver<std::int64_t>("prime(" + I(lo) + "," + I(hi) + ")", ps, [=] { for (;;) try { return (std::int64_t)(shrt ? Random::prime(hi) : Random::prime(lo, hi)); } catch (const std::domain_error&) { return (std::int64_t)-1; } }, 30000);
		// the documented trial limit may give up with a tiny probability in small ranges; those are not counted
		auto f = t.draw; auto idx = ps.size();
		(void)idx; t.draw = f;
		ld fail = powl(1 - (ld)ps.size() / ((hi - lo + 2) / 2 + 1), 4 * (ld)(hi - lo));
		if (fail * t.n > 1e-14L) continue;
		return t;
	}
}
template<typename T> vector<T> permsOf(T base) { std::sort(base.begin(), base.end()); vector<T> r; do r.push_back(base); while (std::next_permutation(base.begin(), base.end())); return r; }
vector<Integer> iota(int n, Integer off) { vector<Integer> v(n); std::iota(v.begin(), v.end(), off); return v; }
Test tSelect() {
	int k = 1 + choose(12);
	vector<Integer> v = iota(k, 100);
	auto id = [](Integer x) { return (int)(x - 100); };
	switch (choose(6)) {
		case 0: return cells(fmt("select(vector[%d])", k), k, [v, id] { const auto& c = v; return id(Random::select(c)); }, 200000);
		case 1: return cells(fmt("select(vector&[%d])", k), k, [v, id]() mutable { return id(Random::select(v)); }, 200000);
		case 2: return cells(fmt("select(first,last)[%d]", k), k, [v, id] { return id(Random::select(v.begin(), v.end())); }, 200000);
		case 3: return cells("select(pair)", 2, [] { return Random::select(std::pair<int, int>{0, 1}); }, 200000);
		case 4: return cells("select(complex)", 2, [] { return (int)Random::select(std::complex<Integer>{0, 1}); }, 200000);
		default: return cells("select({...})", 5, [] { return Random::select({0, 1, 2, 3, 4}); }, 200000);
	}
}
Test tShuffle() {
	int k = 1 + choose(5);
	std::int64_t off = sim::range(-50, 50);
	vector<Integer> v = iota(k, off);
	string s = string("abcdef").substr(0, k); if (choose(2) && k >= 2) s[1] = 'a';
	switch (choose(6)) {
		case 0: return uniformOver<vector<Integer>>(fmt("shuffle(vector[%d])", k), permsOf(v), [v] { auto w = v; Random::shuffle(w); return w; }, 60000);
		case 1: return uniformOver<vector<Integer>>(fmt("shuffle(first,last)[%d]", k), permsOf(v), [v] { auto w = v; Random::shuffle(w.begin(), w.end()); return w; }, 60000);
		case 2: return uniformOver<string>("shuffle(\"" + s + "\")", permsOf(s), [s] { auto w = s; Random::shuffle(w); return w; }, 60000);
		case 3: return cells("shuffle(pair)", 2, [] { std::pair<int, int> p{0, 1}; Random::shuffle(p); return p.first; }, 100000);
		case 4: return cells("shuffle(complex)", 2, [] { std::complex<Integer> p{0, 1}; Random::shuffle(p); return (int)p.real(); }, 100000);
		default: return cells(fmt("rotate[%d]", k), k, [v, k, off] { auto w = v; auto r = Random::rotate(w); return (int)((w[0] - off + k) % k) == r ? (int)r : IMPOSSIBLE; }, 100000);
	}
}
void choosing(int n, int k, bool ordered, vector<Integer>& cur, vector<bool>& used, std::int64_t lo, vector<vector<Integer>>& out) {
	if ((int)cur.size() == k) { out.push_back(cur); return; }
	for (int i = 0; i < n; i++) { if (used[i] || (!ordered && !cur.empty() && cur.back() >= lo + i)) continue; used[i] = true; cur.push_back(lo + i); choosing(n, k, ordered, cur, used, lo, out); cur.pop_back(); used[i] = false; }
}
vector<vector<Integer>> chosen(int n, int k, bool ordered, std::int64_t lo) { vector<vector<Integer>> o; vector<Integer> c; vector<bool> u(n); choosing(n, k, ordered, c, u, lo, o); return o; }
Test tSeq() {
	std::int64_t lo = choose(2) ? 0 : sim::range(-100, 100);
	switch (choose(13)) {
		case 0: { int n = 1 + choose(6), k = choose(std::min(n, 4) + 1); bool sh = lo == 0 && choose(2); return uniformOver<vector<Integer>>(fmt("distinct(%d,%d,%d)", k, (int)lo, (int)lo + n), chosen(n, k, true, lo), [=] { return sh ? Random::distinct(k, n) : Random::distinct(k, lo, lo + n); }, 60000); }
		case 1: { int n = choose(6); return uniformOver<vector<Integer>>(fmt("perm(%d,%d)", n, (int)lo), permsOf(iota(n, lo)), [=] { return Random::perm(n, lo); }, 60000); }
		case 2: {
			vector<Integer> cyc; int n = 0; while (n < 5 && (cyc.empty() || choose(3))) { int c = 1 + choose(5 - n); cyc.push_back(c); n += c; }
			vector<Integer> want = cyc; std::sort(want.begin(), want.end());
			vector<vector<Integer>> all; string d = "perm({";
			for (auto c : cyc) d += I(c) + ",";
			for (auto& p : permsOf(iota(n, 0))) { vector<Integer> got; vector<bool> seen(n); for (int i = 0; i < n; i++) if (!seen[i]) { int l = 0; for (int j = i; !seen[j]; j = (int)p[j]) { seen[j] = true; l++; } got.push_back(l); } std::sort(got.begin(), got.end()); if (got == want) { auto q = p; for (auto& x : q) x += lo; all.push_back(q); } }
			return uniformOver<vector<Integer>>(d + "}," + I(lo) + ")", all, [=] { return Random::perm(cyc, lo); }, 60000);
		}
		case 3: {
			int n = 1 + choose(6); vector<Integer> fix; for (int i = 0; i < n; i++) if (choose(3) == 0) fix.push_back(lo + i);
			if (n - (int)fix.size() > 5) fix.push_back(lo);
			if (!fix.empty() && choose(6) == 0) fix.push_back(fix[0]);
			vector<Integer> rest; for (int i = 0; i < n; i++) if (std::find(fix.begin(), fix.end(), lo + i) == fix.end()) rest.push_back(lo + i);
			vector<vector<Integer>> all; for (auto& p : permsOf(rest)) { vector<Integer> q = iota(n, lo); for (size_t i = 0; i < rest.size(); i++) q[rest[i] - lo] = p[i]; all.push_back(q); }
			string d = fmt("perm(%d,{", n); for (auto x : fix) d += I(x) + ","; d += "}," + I(lo) + ")";
			return uniformOver<vector<Integer>>(d, all, [=] { return Random::perm(n, fix, lo); }, 60000);
		}
		case 4: { int n = 1 + choose(4), k = choose(4); vector<vector<Integer>> all = {{}}; for (int i = 0; i < k; i++) { vector<vector<Integer>> nx; for (auto& a : all) for (int j = 0; j < n; j++) { auto b = a; b.push_back(lo + j); nx.push_back(b); } all = nx; } return uniformOver<vector<Integer>>(fmt("multiple(%d,%d,%d)", k, (int)lo, (int)lo + n), all, [=] { return Random::multiple(k, lo, lo + n); }, 60000); }
		case 5: case 6: { bool dec = choose(2); int n = 1 + choose(8), k = choose(n + 1); auto all = chosen(n, k, false, lo); if (dec) for (auto& a : all) std::reverse(a.begin(), a.end()); return uniformOver<vector<Integer>>(fmt("%s(%d,%d,%d)", dec ? "decreasing" : "increasing", k, (int)lo, (int)lo + n), all, [=] { return dec ? Random::decreasing(k, lo, lo + n) : Random::increasing(k, lo, lo + n); }, 60000); }
		case 7: case 8: {
			int k = 1 + choose(4); std::int64_t mn = 1 + choose(4); std::int64_t n = mn * k + choose(7);
			vector<vector<Integer>> all; vector<Integer> cur;
			std::function<void(std::int64_t)> rec = [&](std::int64_t left) { if ((int)cur.size() == k - 1) { if (left >= mn) { cur.push_back(left); all.push_back(cur); cur.pop_back(); } return; } for (std::int64_t x = mn; x <= left; x++) { cur.push_back(x); rec(left - x); cur.pop_back(); } };
			rec(n);
			bool dflt = mn == 1 && choose(2);
			return uniformOver<vector<Integer>>("partition(" + I(n) + fmt(",%d,", k) + I(mn) + ")", all, [=] { return dflt ? Random::partition(n, k) : Random::partition(n, k, mn); }, 60000);
		}
		case 9: { int k = choose(4); string al = string("xyzw").substr(0, 1 + choose(4)); vector<string> all = {""}; for (int i = 0; i < k; i++) { vector<string> nx; for (auto& a : all) for (char c : al) nx.push_back(a + c); all = nx; } return uniformOver<string>(fmt("string(%d,\"%s\")", k, al.c_str()), all, [=] { return Random::string(k, al); }, 60000); }
		case 10: { return cells("string(1)", 26, [] { auto s = Random::string(1); return s.size() == 1 && s[0] >= 'a' && s[0] <= 'z' ? s[0] - 'a' : IMPOSSIBLE; }, 100000); }
		case 11: {
			int n = choose(6); vector<string> all; string cur;
			std::function<void(int, int)> rec = [&](int o, int c) { if ((int)cur.size() == 2 * n) { all.push_back(cur); return; } if (o < n) { cur += '('; rec(o + 1, c); cur.pop_back(); } if (c < o) { cur += ')'; rec(o, c + 1); cur.pop_back(); } };
			rec(0, 0);
			return uniformOver<string>(fmt("bracketSequence(%d)", n), all, [=] { return Random::bracketSequence(n); }, 60000);
		}
		default: {
			// documented as uniform over the possible outputs
			bool up = choose(2); int n = 2 + choose(3), k = 2 + choose(3);
			vector<vector<Integer>> all; vector<Integer> cur;
			std::function<void(int)> rec = [&](int from) { if ((int)cur.size() == k) { all.push_back(cur); return; } for (int x = from; x < n; x++) { cur.push_back(lo + x); rec(x); cur.pop_back(); } };
			rec(0);
			if (!up) for (auto& a : all) std::reverse(a.begin(), a.end());
			// as implemented: sorted independent draws (recorded finding); anything else is a different violation
			std::map<vector<Integer>, ld> w;
			for (auto& a : all) { ld c = 1; for (int i = 1; i <= k; i++) c *= i; std::map<Integer, int> cnt; for (auto x : a) c /= ++cnt[x]; w[a] = c; }
			auto t = weightedOver<vector<Integer>>(fmt("%s(%d,%d,%d)", up ? "nonDecreasing" : "nonIncreasing", k, (int)lo, (int)lo + n), w, [=] { return up ? Random::nonDecreasing(k, lo, lo + n) : Random::nonIncreasing(k, lo, lo + n); }, 60000);
			t.known = "nondecreasing-not-uniform";
			return t;
		}
	}
}
template<typename G> vector<std::pair<Integer, Integer>> edgesOf(const G& g, bool dir) { vector<std::pair<Integer, Integer>> e; for (const auto& x : g.getEdges()) { auto a = x.from, b = x.to; if (!dir && a > b) std::swap(a, b); e.emplace_back(a, b); } std::sort(e.begin(), e.end()); return e; }
typedef vector<std::pair<Integer, Integer>> EL;
EL allPairs(int n, bool dir) { EL r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (dir ? i != j : i < j) r.emplace_back(i, j); return r; }
// relabelling: the whole printed list (edge order, direction each edge is listed in, vertex ids)
template<bool DIR> Test tRelabel() {
	int n = 2 + choose(3); EL ap = allPairs(n, DIR); EL e;
	for (int want = 1 + choose(3); (int)e.size() < want && !ap.empty();) { size_t i = choose((std::uint32_t)ap.size()); auto x = ap[i]; if (!DIR && choose(2)) std::swap(x.first, x.second); e.push_back(x); ap.erase(ap.begin() + i); }
	Integer off = sim::range(-3, 3);
	int m = (int)e.size(), kind = choose(4);
	vector<Integer> fixed = iota(n, 0);
	if (kind == 2) for (int i = n; i > 1; i--) std::swap(fixed[i - 1], fixed[choose(i)]);
	string d = kind == 0 ? "permutateEdges()" : kind == 1 ? "permutate()" : kind == 2 ? "permutate(perm)" : "permutate().permutateEdges()";
	d = (DIR ? "DiGraph " : "Graph ") + d + " of";
	for (auto [a, b] : e) d += fmt(" %d-%d", (int)a, (int)b);
	std::map<EL, ld> w;
	vector<vector<Integer>> perms = kind == 0 ? vector<vector<Integer>>{iota(n, 0)} : kind == 2 ? vector<vector<Integer>>{fixed} : permsOf(iota(n, 0));
	for (auto& p : perms) for (auto& o : permsOf(iota(m, 0))) for (int f = 0; f < (DIR ? 1 : 1 << m); f++) {
		EL x; for (int i = 0; i < m; i++) { auto [a, b] = e[o[i]]; a = off + p[a]; b = off + p[b]; if (f >> i & 1) std::swap(a, b); x.emplace_back(a, b); }
		w[x] += 1;
	}
	return weightedOver<EL>(d, w, [=] {
		std::conditional_t<DIR, DiGraph<NoData>, Graph<NoData>> g(off, off + n);
		for (auto [a, b] : e) g.addEdge(off + a, off + b);
		auto perm = fixed; for (auto& x : perm) x += off;
		if (kind == 0) g.permutateEdges(); else if (kind == 2) g.permutate(perm); else g.permutate();
		if (kind == 3) g.permutateEdges();
		EL r; for (const auto& x : g.getEdges()) r.emplace_back(x.from, x.to);
		return r;
	}, 60000);
}
Test tSubgraph() {
	bool dir = choose(2); int n = 2 + choose(3); EL ap = allPairs(n, dir), e;
	for (auto x : ap) if (e.size() < 6 && choose(3)) e.push_back(x);
	int m = choose((std::uint32_t)e.size() + 2);
	vector<EL> all; for (unsigned k = 0; k < 1u << e.size(); k++) if (__builtin_popcount(k) == std::min<int>(m, (int)e.size())) { EL x; for (size_t i = 0; i < e.size(); i++) if (k >> i & 1) x.push_back(e[i]); std::sort(x.begin(), x.end()); all.push_back(x); }
	return uniformOver<EL>(fmt("subgraph(%d) of %zu edges%s", m, e.size(), dir ? " <DIR>" : ""), all, [=] {
		auto f = [&](auto g) { for (auto [a, b] : e) g.addEdge(a, b); return edgesOf(g.subgraph(m), dir); };
		return dir ? f(DiGraph<NoData>(n)) : f(Graph<NoData>(n));
	}, 40000);
}
Test tGraph() {
	switch (choose(11)) {
		case 7: case 8: return tRelabel<false>();
		case 9: return tRelabel<true>();
		case 10: return tSubgraph();
		case 0: case 1: case 2: {
			int n = 1 + choose(5); bool dir = choose(2);
			EL ap = allPairs(n, false); vector<EL> all;
			for (unsigned m = 0; m < 1u << ap.size(); m++) {
				if (__builtin_popcount(m) != n - 1) continue;
				EL e; vector<int> u(n); std::iota(u.begin(), u.end(), 0); bool ok = true;
				std::function<int(int)> f = [&](int x) { return u[x] == x ? x : u[x] = f(u[x]); };
				for (size_t i = 0; i < ap.size(); i++) if (m >> i & 1) { e.push_back(ap[i]); int a = f((int)ap[i].first), b = f((int)ap[i].second); if (a == b) ok = false; u[a] = b; }
				if (!ok) continue;
				if (dir) { EL o; vector<bool> seen(n); std::function<void(int)> dfs = [&](int x) { seen[x] = true; for (auto [a, b] : e) { if (a == x && !seen[b]) { o.emplace_back(x, b); dfs((int)b); } if (b == x && !seen[a]) { o.emplace_back(x, a); dfs((int)a); } } }; dfs(0); std::sort(o.begin(), o.end()); e = o; }
				all.push_back(e);
			}
			return uniformOver<EL>(fmt("randomTree%s(%d)", dir ? "<DIR>" : "", n), all, [=] { return dir ? edgesOf(randomTree<NoData, true>(n), true) : edgesOf(randomTree(n), false); }, 30000);
		}
		case 3: {
			bool dir = choose(2); int n = 1 + choose(dir ? 2 : 4) + (dir ? 1 : 0); EL ap = allPairs(n, dir); double p = choose(9) / 8.0;
			if (ap.size() > 6) n = 2, ap = allPairs(n, dir);
			std::map<EL, ld> w; for (unsigned m = 0; m < 1u << ap.size(); m++) { EL e; for (size_t i = 0; i < ap.size(); i++) if (m >> i & 1) e.push_back(ap[i]); w[e] = powl(p, e.size()) * powl(1 - p, ap.size() - e.size()); }
			return weightedOver<EL>(fmt("randomGraph%s(%d,p=%g)", dir ? "<DIR>" : "", n, p), w, [=] { return dir ? edgesOf(randomGraph<NoData, true>(n, (Real)p), true) : edgesOf(randomGraph(n, (Real)p), false); }, 40000);
		}
		case 4: {
			bool dir = choose(2); int n = 1 + choose(dir ? 3 : 5); EL ap = allPairs(n, dir); int m = choose((std::uint32_t)ap.size() + 1);
			vector<EL> all; for (unsigned k = 0; k < 1u << ap.size(); k++) if (__builtin_popcount(k) == m) { EL e; for (size_t i = 0; i < ap.size(); i++) if (k >> i & 1) e.push_back(ap[i]); all.push_back(e); }
			return uniformOver<EL>(fmt("randomGraph%s(%d,m=%d)", dir ? "<DIR>" : "", n, m), all, [=] { return dir ? edgesOf(randomGraph<NoData, true>(n, (Integer)m), true) : edgesOf(randomGraph(n, (Integer)m), false); }, 40000);
		}
		default: {
			bool dir = choose(2), byP = choose(2); int n = 1 + choose(dir ? 1 : 3), m = 1 + choose(dir ? 3 : 2); EL ap; for (int i = 0; i < n; i++) for (int j = n; j < n + m; j++) { ap.emplace_back(i, j); if (dir) ap.emplace_back(j, i); }
			std::sort(ap.begin(), ap.end());
			double p = choose(9) / 8.0; int k = choose((std::uint32_t)ap.size() + 1);
			std::map<EL, ld> w; for (unsigned b = 0; b < 1u << ap.size(); b++) { EL e; for (size_t i = 0; i < ap.size(); i++) if (b >> i & 1) e.push_back(ap[i]); if (byP) w[e] = powl(p, e.size()) * powl(1 - p, ap.size() - e.size()); else if ((int)e.size() == k) w[e] = 1; }
			return weightedOver<EL>(byP ? fmt("randomBipartite%s(%d,%d,p=%g)", dir ? "<DIR>" : "", n, m, p) : fmt("randomBipartite%s(%d,%d,k=%d)", dir ? "<DIR>" : "", n, m, k), w, [=] {
				if (dir) return edgesOf(byP ? randomBipartite<NoData, true>(n, m, (Real)p) : randomBipartite<NoData, true>(n, m, (Integer)k), true);
				return edgesOf(byP ? randomBipartite(n, m, (Real)p) : randomBipartite(n, m, (Integer)k), false); }, 40000);
		}
	}
}

// ---- structures too large to enumerate: exact distributions of what can be seen of them ---------
// a uniform value of [0,n) in b parts
void parts(Test& t, std::int64_t n, int b) { for (int i = 0; i < b; i++) t.prob.push_back((ld)((n * (i + 1) + b - 1) / b - (n * i + b - 1) / b) / n); }
ld lch(ld n, ld k) { return k < 0 || k > n ? -INFINITY : lgammal(n + 1) - lgammal(k + 1) - lgammal(n - k + 1); }
ld hyper(ld all, ld good, ld draws, ld c) { ld x = lch(good, c) + lch(all - good, draws - c) - lch(all, draws); return std::isnan(x) ? 0 : expl(x); }
ld binom(ld n, ld p, ld c) { return p <= 0 ? c == 0 : p >= 1 ? c == n : expl(lch(n, c) + c * logl(p) + (n - c) * log1pl(-p)); }
// distribution of a count, values of small probability at both ends in one cell each
void counts(Test& t, int upTo, std::function<ld(int)> pr, std::function<int()> f) {
	int a = 0; while (a < upTo && pr(a) < 1e-6L) a++;
	int b = upTo; while (b > a && pr(b) < 1e-6L) b--;
	ld sum = 0; for (int i = a; i <= b; i++) { t.prob.push_back(pr(i)); sum += t.prob.back(); }
	ld rest = std::max<ld>(0, 1 - sum); t.prob[0] += rest / 2; t.prob.back() += rest / 2;          // far below what can be observed
	t.draw = [=] { int c = f(); return c < 0 || c > upTo ? IMPOSSIBLE : std::min(std::max(c, a), b) - a; };
}
typedef vector<Integer> VI;
int cycleOf(const VI& p, std::int64_t lo, std::int64_t x) { int l = 0; std::int64_t y = x; do { y = p[y] - lo; l++; } while (y != x && l <= (int)p.size()); return l; }
Test tLarge() {
	Test t;
	std::int64_t lo = choose(2) ? 0 : sim::range(-1000, 1000);
	int n = 20 + choose(choose(4) ? 150 : 1000); t.heavy = true;
	t.n = std::min(40000, std::max(2000, 1000000 / n));
	auto idx = [&] { return (int)choose((std::uint32_t)n); };
	switch (choose(10)) {
		case 0: case 1: case 2: {           // permutations
			int how = choose(6); VI base = iota(n, lo);
			auto f = [=]() -> VI {
				switch (how) {
					case 0: { VI w = base; Random::shuffle(w); return w; }
					case 1: { VI w = base; Random::shuffle(w.begin(), w.end()); return w; }
					case 2: { std::deque<Integer> w(base.begin(), base.end()); Random::shuffle(w); return VI(w.begin(), w.end()); }
					case 3: return Random::perm(n, lo);
					case 4: return Random::distinct(n, lo, lo + n);
					default: return Random::perm(n, VI{}, lo);
				}
			};
			static const char* const nm[] = {"shuffle(vector[%d])", "shuffle(first,last)[%d]", "shuffle(deque[%d])", "perm(%d)", "distinct(all of %d)", "perm(%d,{})"};
			t.desc = fmt(nm[how], n);
			int x = idx(), y = idx(), z = idx();
			switch (choose(6)) {
				case 0: t.desc += fmt(": place of element %d", x); parts(t, n, 12); t.draw = [=] { VI p = f(); int i = (int)(std::find(p.begin(), p.end(), lo + x) - p.begin()); return i < n ? (int)((std::int64_t)i * 12 / n) : IMPOSSIBLE; }; break;
				case 1: t.desc += fmt(": element at place %d", x); parts(t, n, 12); t.draw = [=] { VI p = f(); std::int64_t v = p[x] - lo; return v >= 0 && v < n ? (int)(v * 12 / n) : IMPOSSIBLE; }; break;
				case 2: { t.desc += ": fixed points"; counts(t, 8, [](int k) -> ld { static const ld e = expl(-1); ld q = e; for (int i = 1; i <= k; i++) q /= i; return q; }, [=] { VI p = f(); int c = 0; for (int i = 0; i < n; i++) c += p[i] == lo + i; return std::min(c, 8); }); break; }
				case 3: t.desc += ": parity"; t.prob = {0.5L, 0.5L}; t.draw = [=] { VI p = f(); vector<bool> seen(n); int c = 0; for (int i = 0; i < n; i++) if (!seen[i]) { c++; for (std::int64_t j = i; !seen[j]; j = p[j] - lo) seen[j] = true; } return (n - c) & 1; }; break;
				case 4: if (x == y || y == z || x == z) { x = 0; y = n / 2; z = n - 1; } t.desc += fmt(": order at the places %d %d %d", x, y, z); t.prob.assign(6, 1.0L / 6); t.draw = [=] { VI p = f(); auto a = p[x], b = p[y], c = p[z]; return a < b ? b < c ? 0 : a < c ? 1 : 2 : a < c ? 3 : b < c ? 4 : 5; }; break;
				default: t.desc += fmt(": length of the cycle of %d", x); parts(t, n, 12); t.draw = [=] { VI p = f(); int l = cycleOf(p, lo, x); return l > n ? IMPOSSIBLE : (int)((std::int64_t)(l - 1) * 12 / n); }; break;
			}
			return t;
		}
		case 3: case 4: {                   // subsets
			int how = choose(3); std::int64_t R = n; switch (choose(4)) { case 0: R += choose(10); break; case 1: R += choose((std::uint32_t)n); break; case 2: R = (std::int64_t)n * (2 + choose(10)); break; default: R = (std::int64_t)n * (20 + choose(400)); }
			auto f = [=]() -> VI { VI w = how == 0 ? Random::distinct(n, lo, lo + R) : how == 1 ? Random::increasing(n, lo, lo + R) : Random::decreasing(n, lo, lo + R); return w; };
			static const char* const nm[] = {"distinct", "increasing", "decreasing"};
			t.desc = fmt("%s(%d,%" PRId64 ",%" PRId64 ")", nm[how], n, lo, lo + R);
			auto val = [&] { switch (choose(4)) { case 0: return lo; case 1: return lo + R - 1; default: return lo + (std::int64_t)(sim::word() % (std::uint64_t)R); } };
			std::int64_t v = val(), w = val(); int x = idx();
			switch (choose(how == 0 ? 4 : 3)) {
				case 0: t.desc += fmt(": contains %" PRId64, v); t.prob = {1 - (ld)n / R, (ld)n / R}; t.draw = [=] { VI s = f(); return (int)(std::find(s.begin(), s.end(), v) != s.end()); }; break;
				case 1: if (v == w) { v = lo; w = lo + R - 1; } t.desc += fmt(": how many of %" PRId64 " and %" PRId64, v, w); for (int c = 0; c < 3; c++) t.prob.push_back(hyper(R, 2, n, c)); t.draw = [=] { VI s = f(); return (int)(std::find(s.begin(), s.end(), v) != s.end()) + (std::find(s.begin(), s.end(), w) != s.end()); }; break;
				case 2: { std::int64_t h = 1 + (std::int64_t)(sim::word() % (std::uint64_t)(R - 1 ? R - 1 : 1)); if (R < 2) h = R; t.desc += fmt(": elements below %" PRId64, lo + h); counts(t, n, [=](int c) { return hyper(R, h, n, c); }, [=] { VI s = f(); int c = 0; for (auto q : s) c += q < lo + h; return c; }); break; }
				default: t.desc += fmt(": element at place %d", x); parts(t, R, 12); t.draw = [=] { VI s = f(); std::int64_t q = s[x] - lo; return q >= 0 && q < R ? (int)(q * 12 / R) : IMPOSSIBLE; }; break;
			}
			return t;
		}
		case 5: {                           // partitions
			std::int64_t mn = choose(6); int k = n; std::int64_t m = choose((std::uint32_t)(choose(2) ? 3 * n : n / 4 + 1)), N = mn * k + m; int x = idx();
			if (N == 0) { m = 1; N = 1; }
			t.desc = fmt("partition(%" PRId64 ",%d,%" PRId64 "): part %d", N, k, mn, x);
			counts(t, (int)m, [=](int a) { return expl(lch(m - a + k - 2, k - 2) - lch(m + k - 1, k - 1)); }, [=] { VI p = Random::partition(N, k, mn); return (int)(p[x] - mn); });
			return t;
		}
		case 6: {                           // bracket sequences
			int p = 1 + choose((std::uint32_t)(2 * n - 1)), par = p & 1;
			auto b = [](ld q, ld h) { return logl((h + 1) / (q + 1)) + lch(q + 1, (q - h) / 2); };
			ld all = lch(2 * n, n) - logl(n + 1);
			t.desc = fmt("bracketSequence(%d): depth after %d", n, p);
			counts(t, std::min(p, 2 * n - p) / 2, [=](int c) { ld h = 2 * c + par; return h > p || h > 2 * n - p ? 0 : expl(b(p, h) + b(2 * n - p, h) - all); }, [=] { auto s = Random::bracketSequence(n); int d = 0; for (int i = 0; i < p; i++) d += s[i] == '(' ? 1 : -1; return d / 2; });
			return t;
		}
		case 7: {                           // trees
			n = 10 + choose(200); t.n = std::max(2000, 300000 / n); bool dir = choose(2); int x = idx(), y = idx(); if (x == y) { x = 0; y = n - 1; }
			auto f = [=] { EL e = dir ? edgesOf(randomTree<NoData, true>(n), true) : edgesOf(randomTree(n), false); return e; };
			t.desc = fmt("randomTree%s(%d)", dir ? "<DIR>" : "", n);
			if (choose(2)) { t.desc += fmt(": degree of %d", x); counts(t, n - 2, [=](int c) { return binom(n - 2, 1.0L / n, c); }, [=] { int c = -1; for (auto [a, b] : f()) c += a == x || b == x; return c; }); }
			else { t.desc += fmt(": distance of %d and %d", x, y); counts(t, n - 2, [=](int c) { ld k = c + 1; return expl(logl(k + 1) - k * logl(n) + lgammal(n - 1) - lgammal(n - k)); }, [=] {
				EL e = f(); vector<vector<int>> adj(n); for (auto [a, b] : e) { adj[a].push_back((int)b); adj[b].push_back((int)a); }
				vector<int> d(n, -1), q = {x}; d[x] = 0; for (size_t i = 0; i < q.size(); i++) for (int u : adj[q[i]]) if (d[u] < 0) { d[u] = d[q[i]] + 1; q.push_back(u); }
				return d[y] - 1; }); }
			return t;
		}
		case 8: {                           // graphs
			bool dir = choose(2); n = 8 + choose(40); std::int64_t pairs = (std::int64_t)n * (n - 1) / (dir ? 1 : 2); int x = idx(), kind = choose(4), l = 1 + choose((std::uint32_t)(n - 1)), r = n - l;
			if (kind >= 2) pairs = (std::int64_t)l * r * (dir ? 2 : 1);
			std::int64_t m = choose((std::uint32_t)pairs + 1); double p = choose(33) / 32.0; bool byP = kind & 1;
			t.n = (int)std::min<std::int64_t>(40000, std::max<std::int64_t>(2000, 500000 / (pairs + 1))); if (byP) t.n /= 2;
			auto f = [=] {
				if (kind == 0) return dir ? edgesOf(randomGraph<NoData, true>(n, (Integer)m), true) : edgesOf(randomGraph(n, (Integer)m), false);
				if (kind == 1) return dir ? edgesOf(randomGraph<NoData, true>(n, (Real)p), true) : edgesOf(randomGraph(n, (Real)p), false);
				if (kind == 2) return dir ? edgesOf(randomBipartite<NoData, true>(l, r, (Integer)m), true) : edgesOf(randomBipartite(l, r, (Integer)m), false);
				return dir ? edgesOf(randomBipartite<NoData, true>(l, r, (Real)p), true) : edgesOf(randomBipartite(l, r, (Real)p), false);
			};
			t.desc = kind < 2 ? fmt("randomGraph%s(%d", dir ? "<DIR>" : "", n) : fmt("randomBipartite%s(%d,%d", dir ? "<DIR>" : "", l, r); t.desc += byP ? fmt(",p=%g)", p) : fmt(",%" PRId64 ")", m);
			int possible = kind < 2 ? n - 1 : x < l ? r : l;
			int what = choose(byP ? 3 : 2);
			if (what < 2) { t.desc += fmt(": %s edges of %d", dir ? what ? "leaving" : "entering" : "", x); counts(t, possible, [=](int c) { return byP ? binom(possible, p, c) : hyper(pairs, possible, m, c); }, [=] { int c = 0; for (auto [a, b] : f()) c += dir ? (what ? a == x : b == x) : a == x || b == x; return c; }); }
			else { t.desc += ": number of edges"; counts(t, (int)pairs, [=](int c) { return binom(pairs, p, c); }, [=] { return (int)f().size(); }); }
			return t;
		}
		default: {                          // given cycles, long strings and lists
			int k = choose(4), x = idx();
			if (k == 0) {
				VI cyc; int left = n; while (left) { int c = 1 + choose((std::uint32_t)(choose(2) ? std::min(left, 5) : left)); cyc.push_back(c); left -= c; }
				std::map<int, int> with; for (auto c : cyc) with[(int)c] += (int)c;
				auto id = std::make_shared<std::map<int, int>>(); for (auto [c, w] : with) { id->emplace(c, (int)id->size()); t.prob.push_back((ld)w / n); }
				t.desc = fmt("perm({%zu cycles of %d elements}): cycle of %d", cyc.size(), n, x);
				t.draw = [=] { auto it = id->find(cycleOf(Random::perm(cyc, lo), lo, x)); return it == id->end() ? IMPOSSIBLE : it->second; };
			} else if (k == 1) { t.desc = fmt("perm({%d}): image of %d", n, x); parts(t, n - 1, 12); t.draw = [=] { VI p = Random::perm(VI{n}, lo); std::int64_t d = (p[x] - lo - x + n) % n - 1; return d < 0 ? IMPOSSIBLE : (int)(d * 12 / (n - 1)); }; }
			else if (k == 2) { t.desc = fmt("string(%d): character %d", n, x); t.prob.assign(26, 1.0L / 26); t.draw = [=] { auto s = Random::string(n); return s[x] - 'a'; }; }
			else { t.desc = fmt("rotate(vector[%d])", n); parts(t, n, 12); VI base = iota(n, lo); t.draw = [=] { VI w = base; Random::rotate(w); return (int)((w[0] - lo) * 12 / n); }; }
			return t;
		}
	}
}

bool quiet = false, bad = false;
void evaluate(const Test& t, const vector<std::int64_t>& cnt, std::int64_t N, const string& ctx) {
	// merge small cells
	vector<ld> e; vector<ld> o; ld ae = 0, ao = 0;
	for (size_t i = 0; i < t.prob.size(); i++) {
		if (t.prob[i] <= 0 && cnt[i]) { sim::violate("impossible", "%s: outcome %zu of probability 0 occurred %" PRId64 " times [%s]", t.desc.c_str(), i, cnt[i], ctx.c_str()); return; }
		ae += t.prob[i] * N; ao += (ld)cnt[i];
		if (ae >= 60) { e.push_back(ae); o.push_back(ao); ae = ao = 0; }
	}
	if (ae > 0) { if (e.empty()) { e.push_back(ae); o.push_back(ao); } else { e.back() += ae; o.back() += ao; } }
	ld x = 0; size_t worst = 0; ld wd = -1;
	for (size_t i = 0; i < e.size(); i++) { ld d = (o[i] - e[i]) * (o[i] - e[i]) / e[i]; x += d; if (d > wd) { wd = d; worst = i; } }
	ld df = (ld)e.size() - 1, T = 45;
	if (e.size() > 1) {
		sim::probe("chi-square tests");
		// Laurent-Massart bound: P(chi2_df > df + 2 sqrt(df T) + 2 T) < e^-T
		if (x > df + 2 * sqrtl(df * T) + 2 * T) {
			if (quiet) { bad = true; return; }
			string s; for (size_t i = 0; i < std::min<size_t>(e.size(), 12); i++) s += fmt(" %.0Lf/%.1Lf", o[i], e[i]);
			sim::violate("biased", "%s: chi-square %.1Lf with %.0Lf degrees of freedom over %" PRId64 " draws (worst cell %zu: %.0Lf observed, %.1Lf expected; first cells%s) [%s]", t.desc.c_str(), x, df, N, worst, o[worst], e[worst], s.c_str(), ctx.c_str());
		}
	} else sim::probe("one possible outcome");
}

void scenario() {
	typedef Test (*Fn)();
	static const vector<std::pair<Fn, const char*>> fns = {{tLarge, "large structures"}, {tLarge, "large structures"}, {tLarge, "large structures"}, {tInteger, "integer"}, {tInteger, "integer"}, {tBit, "bit"}, {tReal, "real"}, {tReal, "real"}, {tDiscrete, "discrete"}, {tNormal, "normal"}, {tExp, "exponential"}, {tGeom, "geometric"}, {tBinom, "binomial"}, {tBinom, "binomial"}, {tMaxMin, "maxmin"}, {tPrime, "prime"}, {tSelect, "select"}, {tShuffle, "shuffle"}, {tSeq, "sequences"}, {tSeq, "sequences"}, {tSeq, "sequences"}, {tSeq, "sequences"}, {tGraph, "graph"}, {tGraph, "graph"}, {tGraph, "graph"}};
	unsigned which = choose((std::uint32_t)fns.size());
	static const char* const kinds[] = {"mt19937_64", "Xoshiro256ss", "AES_RNG"};
	int kind = choose(3), mode = choose(3);
	std::uint64_t seed = sim::word();
	Test t = fns[which].first();
	int N = t.n;
	if (kind == 2) N = t.heavy ? N / 3 : std::min(N, 40000);
	if (mode == 1) N = std::min(N, 20000);
	if (!sim::thorough()) N = N / 2;
	string ctx = fmt("%s, seed %" PRIu64 ", %s", kinds[kind], seed, mode == 0 ? "one seeding" : mode == 1 ? "seeded before every draw" : "unrelated draws in between");
	sim::W->nontrivial = true;
	sim::sig(sim::mix(std::hash<string>()(fns[which].second), kind * 4 + mode));
	sim::probe(fns[which].second); sim::probe(kinds[kind]);
	sim::ev("%s %d draws [%s]", t.desc.c_str(), N, ctx.c_str());
	DistEngine::kind = kind;
	auto st = sim::spawn([&] {
		static char a0[] = "/sim/gen"; char* av[] = {a0, nullptr};
		Generator::init(1, av);
		Random::seed(seed);
		vector<std::int64_t> cnt(t.prob.size());
		for (int i = 0; i < N; i++) {
			if (mode == 1) Random::seed(sim::mix(seed, i));
			if (mode == 2) for (std::uint64_t k = sim::mix(seed, i) & 3; k > 0; k--) (void)Random::integer();
			int c = t.draw();
			if (c < 0 || c >= (int)cnt.size()) { sim::violate("impossible", "%s: draw %d is not a possible outcome [%s]", t.desc.c_str(), i, ctx.c_str()); return; }
			cnt[c]++;
		}
		for (auto c : cnt) sim::ev("%" PRId64, c);
		if (!t.known.empty()) {
			Test u = t; u.prob.assign(t.prob.size(), (ld)1 / t.prob.size());
			quiet = true; bad = false; evaluate(u, cnt, N, ctx); quiet = false;
			if (!bad) return;                       // uniform, as documented
		}
		evaluate(t, cnt, N, ctx);
		if (!sim::W->violated && !t.known.empty()) sim::violate(t.known.c_str(), "%s are sorted independent draws, not uniform over the possible outputs as documented", t.desc.c_str());
	}, sim::EXIT_FAST);
	if (sim::W->violated) return;
	if (!(st.exited && st.code == 0)) { sim::W->violated = false; sim::violate("crash", "%s: process ended with %d; stderr %s [%s]", t.desc.c_str(), st.shown(), sim::quote(sim::get("<stderr>")).c_str(), ctx.c_str()); }
}
sim::Register r1("dist", scenario, 1);
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
