// Every draw of namespace Random against its documented contract, with an engine the simulator controls.
#include "sim_engine.h"
namespace Settings { using RandomEngine = SimEngine; }
#ifdef SIM_NO128   // a judge without 128-bit integers
#include <bits/stdc++.h>
#undef __SIZEOF_INT128__
#endif
#include REPO_VALIDATE
#include <cinttypes>
#include <cstdio>
#include <cstring>

using sim::chance;
using sim::choose;
using sim::fmt;
using std::string;
using std::vector;
typedef __int128 i128;

namespace {
string D;                       // description of the call in progress
bool fairRun;
#define BAD(cls, ...) do { sim::violate(cls, "%s: %s [engine %s]", D.c_str(), fmt(__VA_ARGS__).c_str(), fairRun ? "mt19937_64" : "adversarial"); return; } while (0)

std::int64_t anyInt() {
	switch (choose(6)) {
		case 0: case 1: return sim::range(-20, 20);
		case 2: return sim::range(-1000000, 1000000);
		case 3: { std::int64_t v = (std::int64_t)(1ull << choose(64)); v = (std::int64_t)((std::uint64_t)v + choose(5) - 2); return choose(2) ? v : (std::int64_t)(0 - (std::uint64_t)v); }
		case 4: { static const std::int64_t e[] = {INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_MAX - 1, 0, -1}; return e[choose(6)]; }
		default: return (std::int64_t)sim::word();
	}
}
void interval(std::int64_t& lo, std::int64_t& hi) {
	lo = anyInt();
	switch (choose(4)) { case 0: hi = lo > INT64_MAX - 9 ? INT64_MAX : lo + 1 + choose(8); if (hi <= lo) lo = hi - 1; break; case 1: case 2: hi = anyInt(); if (lo > hi) std::swap(lo, hi); if (lo == hi) { if (hi < INT64_MAX) hi++; else lo--; } break; default: if (lo == INT64_MAX) lo--; hi = INT64_MAX; break; }
}
string I(std::int64_t v) { return std::to_string(v); }
string V(const vector<Integer>& v) { string s = "{"; for (size_t i = 0; i < v.size() && i < 40; i++) s += (i ? "," : "") + I(v[i]); return s + (v.size() > 40 ? ",...}" : "}"); }

// run f; false if it was refused (std::exception) or ran out of engine words
enum Out { OK, REFUSED, STARVED };
string what;
template<typename F> Out call(F f, std::uint64_t budget = 300000) {
	SimEngine::used = 0; SimEngine::budget = budget; SimEngine::nLast = 0;
	try { f(); SimEngine::budget = ~0ull; return OK; }
	catch (const std::exception& e) { SimEngine::budget = ~0ull; sim::NoFault g; what = e.what(); return REFUSED; }
	catch (const OutOfWords&) { SimEngine::budget = ~0ull; return STARVED; }
}
#define DRAW(valid, expr, starveOk) \
	Out o_ = call([&] { expr; }); \
	sim::probe(fmt("%s%s%s", D.substr(0, D.find('(')).c_str(), (valid) ? "" : " invalid", o_ == STARVED ? " (starved)" : "").c_str()); \
	if (o_ == STARVED && !(valid)) BAD("not-refused", "invalid parameters were not refused: no end after %" PRIu64 " engine words", SimEngine::used); \
	if (o_ == STARVED) { if (fairRun && (valid) && !(starveOk)) BAD("no-progress", "no result after %" PRIu64 " words of a fair engine", SimEngine::used); return; } \
	if (!(valid)) { if (o_ == OK) BAD("not-refused", "invalid parameters were accepted"); return; } \
	if (o_ == REFUSED) BAD("refused", "valid parameters were refused: %s", what.c_str());

void sInteger() {
	std::int64_t lo, hi, r = 0;
	int k = choose(5);
	if (k == 0) { D = "integer()"; DRAW(true, r = Random::integer(), false); return; }
	if (k == 1) { hi = anyInt(); D = "integer(" + I(hi) + ")"; DRAW(hi > 0, r = Random::integer(hi), false); if (r < 0 || r >= hi) BAD("range", "returned %" PRId64, r); return; }
	interval(lo, hi);
	if (chance(1, 10)) std::swap(lo, hi);
	D = "integer(" + I(lo) + "," + I(hi) + ")";
	DRAW(lo < hi, r = Random::integer(lo, hi), false);
	if (r < lo || r >= hi) BAD("range", "returned %" PRId64, r);
}
long double anyReal() {
	switch (choose(8)) {
		case 0: return 0; case 1: return (long double)sim::range(-10, 10); case 2: return (long double)sim::range(-1000, 1000) / 1000;
		case 3: return ldexpl(1, (int)choose(200) - 100) * (choose(2) ? 1 : -1); case 4: return std::numeric_limits<long double>::max() * (choose(2) ? 1 : -1);
		case 5: return std::numeric_limits<long double>::min(); case 6: return std::numeric_limits<long double>::denorm_min() * (choose(2) ? 1 : -1);
		default: return (long double)(std::int64_t)sim::word();
	}
}
string L(long double x) { return fmt("%La", x); }
// repeat a bounded draw with one bound moved to its own result and the same words: the result must move into the new range
template<typename F> void moved(long double lo, long double hi, long double r, bool below, F draw) {
	if (choose(4)) return;
	bool up = !below || choose(2);
	if (up) { if (!(r > lo)) return; hi = r; } else { lo = std::nextafter(r, (long double)INFINITY); if (!(lo < hi)) return; }
	SimEngine::again();
	long double q = 0;
	D += fmt(" then with the %s bound moved to the result (%La) and the same words", up ? "upper" : "lower", up ? hi : lo);
	Out o = call([&] { q = draw(lo, hi); }, 20000);
	SimEngine::nEcho = 0;
	sim::probe("bound moved to the result");
	if (o == STARVED) return;
	if (o == REFUSED) BAD("refused", "valid parameters were refused: %s", what.c_str());
	if (!(q >= lo && q < hi)) BAD("range", "returned %La", q);
}
void sReal() {
	long double r = 0;
	int k = choose(5);
	if (k <= 1) { D = "real()"; DRAW(true, r = Random::real(), false); if (!(r >= 0 && r < 1)) BAD("range", "returned %La", r); return; }
	if (k == 2) { long double u = anyReal(); if (chance(1, 20)) u = choose(2) ? INFINITY : NAN; D = "real(" + L(u) + ")"; bool v = std::isfinite(u) && u > 0; DRAW(v, r = Random::real(u), false); if (!(r >= 0 && r < u)) BAD("range", "returned %La", r); moved(0, u, r, false, [](long double, long double h) { return Random::real(h); }); return; }
	long double a = anyReal(), b = anyReal();
	if (choose(3) == 1) b = std::nextafter(a, INFINITY);
	if (a > b && choose(8)) std::swap(a, b);
	if (chance(1, 20)) (choose(2) ? a : b) = choose(2) ? INFINITY : NAN;
	D = "real(" + L(a) + "," + L(b) + ")";
	bool v = std::isfinite(a) && std::isfinite(b) && a < b;
	DRAW(v, r = Random::real(a, b), false);
	if (!(r >= a && r < b)) BAD("range", "returned %La", r);
	moved(a, b, r, true, [](long double l, long double h) { return Random::real(l, h); });
}
void sBit() { D = "bit()"; bool b = false; DRAW(true, b = Random::bit(), false); (void)b; }
template<Integer... W> void disc() {
	std::int64_t w[] = {W...};
	int n = sizeof...(W);
	D = "discrete<"; for (int i = 0; i < n; i++) D += (i ? "," : "") + I(w[i]); D += ">()";
	bool pos = false; for (int i = 0; i < n; i++) pos |= w[i] > 0;
	std::int64_t r = 0;
	Out o = call([&] { r = Random::discrete<W...>(); });
	sim::probe("discrete");
	if (o == STARVED) return;
	if (!pos) { if (o == OK) BAD("not-refused", "all weights are zero but %" PRId64 " was returned", r); return; }
	if (o == REFUSED) BAD("refused", "refused: %s", what.c_str());
	if (r < 0 || r >= n || w[r] == 0) BAD("range", "returned %" PRId64, r);
}
void sDiscrete() {
	switch (choose(8)) {
		case 0: return disc<1>(); case 1: return disc<1, 1>(); case 2: return disc<0, 1>(); case 3: return disc<1, 0, 0, 2, 0>(); case 4: return disc<0, 0, 5, 0, 7, 0, 0>();
		case 5: return disc<1000000000000000000, 1, 1000000000000000000>(); case 6: return disc<0, 0>(); default: return disc<3, 1, 4, 1, 5, 9, 2, 6>();
	}
}
void sNormal() {
	long double m = (long double)sim::range(-100, 100), s = (long double)choose(50) / (choose(2) ? 1 : 8), r = 0;
	if (choose(4) == 0) {
		if (chance(1, 8)) s = choose(2) ? -1 : NAN;
		D = "normal(" + L(m) + "," + L(s) + ")";
		DRAW(s >= 0, r = Random::normal(m, s), false);
		if (!std::isfinite(r)) BAD("range", "returned %La", r);
		return;
	}
	long double w = s > 0 ? s : 1, lo = m - w * (choose(5)) / 2, hi = m + w * (1 + choose(5)) / 2;
	bool v = true;
	switch (choose(12)) { case 0: lo = -INFINITY; break; case 1: hi = INFINITY; break; case 2: std::swap(lo, hi); v = lo < hi; break; case 3: lo = NAN; v = false; break; case 4: hi = NAN; v = false; break; case 5: s = -1; v = false; break; default: break; }
	D = "normal(" + L(lo) + "," + L(hi) + "," + L(m) + "," + L(s) + ")";
	DRAW(v, r = Random::normal(lo, hi, m, s), !(m >= lo && m < hi));
	if (!(r >= lo && r < hi)) BAD("range", "returned %La", r);
	moved(lo, hi, r, true, [m, s](long double l, long double h) { return Random::normal(l, h, m, s); });
}
void sExp() {
	static const long double ls[] = {1, 0.5L, 2, 1e-3L, 1000, 1e-9L, 1e9L};
	long double l = ls[choose(7)], r = 0;
	if (choose(3) == 0) {
		if (chance(1, 8)) l = choose(3) == 0 ? 0 : choose(2) ? -1 : NAN;
		D = "exponential(" + L(l) + ")";
		DRAW(l > 0, r = Random::exponential(l), false);
		if (!(r >= 0) || std::isinf(r)) BAD("range", "returned %La", r);
		return;
	}
	long double lo = (long double)sim::range(-100, 100), hi = lo + (1 + choose(40)) / l / 8;
	bool v = true;
	switch (choose(12)) { case 0: hi = INFINITY; break; case 1: hi = lo; v = false; break; case 2: lo = -INFINITY; v = false; break; case 3: hi = NAN; v = false; break; case 4: l = 0; v = false; break; case 5: l = -l; v = false; break; default: break; }
	if (v) v = lo < hi;
	D = "exponential(" + L(lo) + "," + L(hi) + "," + L(l) + ")";
	DRAW(v, r = Random::exponential(lo, hi, l), false);
	if (!(r >= lo && r < hi)) BAD("range", "returned %La", r);
	moved(lo, hi, r, false, [l](long double a, long double b) { return Random::exponential(a, b, l); });
}
long double prob() {
	switch (choose(6)) { case 0: return 0.5L; case 1: return (1 + choose(999)) / 1000.0L; case 2: return ldexpl(1, -1 - (int)choose(70)); case 3: return 1 - ldexpl(1, -1 - (int)choose(60)); case 4: { static const long double t[] = {1e-18L, 1e-19L, 1e-20L, 1e-30L, 1e-300L, 1e-4000L}; return t[choose(6)]; } default: return (1 + choose(9)) / 10.0L; }
}
void sGeom() {
	std::int64_t lo, hi, r = 0;
	long double p = prob();
	if (choose(2)) {
		bool v = true, zero = false;
		if (chance(1, 8)) { static const long double b[] = {1, -0.1L, 2, NAN, 0}; p = b[choose(5)]; v = false; zero = p == 0; }
		D = "geometric(" + L(p) + ")";
		if (zero) { Out o = call([&] { r = Random::geometric(p); }); if (o == OK && r < 0) BAD("range", "returned %" PRId64, r); return; }
		DRAW(v, r = Random::geometric(p), false);
		if (r < 0) BAD("range", "returned %" PRId64, r);
		return;
	}
	interval(lo, hi);
	bool v = true;
	if (chance(1, 10)) { std::swap(lo, hi); v = false; }
	if (chance(1, 12)) { p = choose(2) ? 1 : 0; v = false; }
	D = "geometric(" + I(lo) + "," + I(hi) + "," + L(p) + ")";
	if (p == 0) { Out o = call([&] { r = Random::geometric(lo, hi, p); }); if (o == OK && (r < lo || r >= hi)) BAD("range", "returned %" PRId64, r); return; }
	DRAW(v, r = Random::geometric(lo, hi, p), p * ((long double)hi - lo) < 0.01L);
	if (r < lo || r >= hi) BAD("range", "returned %" PRId64, r);
}
void sBinom() {
	std::int64_t n, r = 0;
	switch (choose(4)) { case 0: n = choose(30); break; case 1: n = sim::range(0, 5000); break; case 2: n = (std::int64_t)(sim::word() >> (1 + choose(40))); break; default: n = (1ll << choose(62)) - (std::int64_t)choose(2); break; }
	long double p = prob();
	if (choose(10) == 1) p = choose(2);
	bool v = true;
	if (chance(1, 10)) { v = false; if (choose(2)) n = -1 - (std::int64_t)choose(5); else { static const long double b[] = {-0.1L, 1.1L, NAN}; p = b[choose(3)]; } }
	if (choose(3)) {
		D = "binomial(" + I(n) + "," + L(p) + ")";
		DRAW(v, r = Random::binomial(n, p), false);
		if (r < 0 || r > n) BAD("range", "returned %" PRId64, r);
		return;
	}
	if (n > 1000000) n %= 1000000;
	std::int64_t mid = (std::int64_t)(n * std::min(std::max(p, 0.0L), 1.0L));
	if (std::isnan(p)) mid = 0;
	std::int64_t lo = mid - choose(3), hi = mid + 2 + choose(200);
	if (chance(1, 12)) { hi = lo; v = false; }
	D = "binomial(" + I(lo) + "," + I(hi) + "," + I(n) + "," + L(p) + ")";
	DRAW(v, r = Random::binomial(lo, hi, n, p), n > 100000);
	if (r < lo || r >= hi || r < 0 || r > n) BAD("range", "returned %" PRId64, r);
}
void sMaxMin() {
	std::int64_t lo, hi, r = 0, n;
	static const std::int64_t ns[] = {1, 2, 3, 4, 5, 6, 7, 10, 100, 1000, 1000000, 1000000000000ll, INT64_MAX, 0, -1};
	n = ns[choose(15)];
	int k = choose(6);
	interval(lo, hi);
	bool up = k >= 3;
	if (up) lo = 0;
	bool inv = chance(1, 10);
	if (inv) { if (choose(2)) { if (up) hi = -(std::int64_t)choose(4); else std::swap(lo, hi); } else n = -(std::int64_t)choose(3); }
	if (up && !inv && hi <= 0) hi = 1 + choose(100);
	bool v = n > 0 && lo < hi;
	const char* nm[] = {"maximum", "minimum", "minmax"};
	if (k % 3 == 2) { v = n != 0 && lo < hi; if (choose(2) && n != 0) n = -n; }
	D = string(nm[k % 3]) + "(" + (up ? "" : I(lo) + ",") + I(hi) + "," + I(n) + ")";
	DRAW(v, switch (k) { case 0: r = Random::maximum(lo, hi, n); break; case 1: r = Random::minimum(lo, hi, n); break; case 2: r = Random::minmax(lo, hi, n); break; case 3: r = Random::maximum(hi, n); break; case 4: r = Random::minimum(hi, n); break; default: r = Random::minmax(hi, n); }, false);
	if (r < lo || r >= hi) BAD("range", "returned %" PRId64, r);
}
bool trialPrime(std::int64_t n) {   // independent: deterministic Miller-Rabin with the first 12 primes
	if (n < 2) return false;
	static const std::uint64_t ps[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
	for (auto p : ps) { if ((std::uint64_t)n == p) return true; if ((std::uint64_t)n % p == 0) return false; }
	std::uint64_t m = (std::uint64_t)n, d = m - 1; int s = 0;
	while (d % 2 == 0) { d /= 2; s++; }
	for (auto a : ps) {
		unsigned __int128 x = 1, b = a;
		for (std::uint64_t e = d; e; e >>= 1) { if (e & 1) x = x * b % m; b = b * b % m; }
		if (x == 1 || x == m - 1) continue;
		bool ok = false;
		for (int i = 1; i < s && !ok; i++) { x = x * x % m; ok = x == m - 1; }
		if (!ok) return false;
	}
	return true;
}
// composites which pass nearly all the strong probable prime tests to the usual bases, Carmichael numbers,
// squares, and primes at the borders of the word sizes
const std::int64_t HARD[] = {
	1411807385341, 6198534518881, 10558581750811, 107528788110061, 149251536924661, 637092980617411,
	678190622066821, 732566718537391, 1017577016060221, 1655450053198831, 2658508721224021, 2913777298555831,
	3498575484219427, 4405189345093153, 4612252004425621, 4807995967202821, 5157224922526951, 5170964326119901,
	5397002552661301, 6172200677022841, 6955596610077781, 7228785694024261, 8497129681217633, 9036938694845881,
	9859984670114881, 10400979360216061, 10698319094715253, 11109655478537461, 13811639076478981, 16017371501248981,
	22348134516425581, 35838102408285451, 47490945323958181, 58900069536369907, 65545040248120261, 85328075227486657,
	89451666695775361, 2047, 1373653, 25326001, 3215031751, 2152302898747,
	3474749660383, 341550071728321, 3825123056546413051, 4759123141, 1122004669633, 55245642489451,
	7999252175582851, 585226005592931977, 47636622961201, 154639673381, 273919523041, 350269456337,
	4230302117, 561, 1105, 1729, 2465, 6601,
	41041, 825265, 321197185, 9746347772161, 252601, 1152271,
	118901521, 172947529, 17161, 18769, 22201, 4294967291,
	4294967297, 4294967279, 4294967311, 2147483647, 9223372036854775783, 9223372036854775807,
	9223372030926249001,
};
std::int64_t hardNumber() {
	switch (choose(4)) {
	case 0: case 1: return HARD[choose(std::size(HARD))];
	case 2: {   // a prime, the square of a prime, or the product of two primes of similar size
		int bits = sim::range(3, 30);
		auto pick = [&] { std::int64_t p = ((std::int64_t)1 << bits) + sim::range(0, ((std::int64_t)1 << bits) - 1); while (!trialPrime(p)) p++; return p; };
		std::int64_t p = pick();
		return choose(2) ? p * p : p * pick();
	}
	default: {   // (k + 1) * (m * k + 1) with both factors prime, the form of most strong pseudoprimes
		int bits = sim::range(7, 28); std::int64_t m = sim::range(2, 5);
		std::int64_t k = (((std::int64_t)1 << bits) + sim::range(0, ((std::int64_t)1 << bits) - 1)) & ~1ll;
		for (int i = 0; i < 3000 && !(trialPrime(k + 1) && trialPrime(m * k + 1)); i++) k += 2;
		return choose(4) ? (k + 1) * (m * k + 1) : m * k + 1;
	}
	}
}
void sPrime() {
	std::int64_t lo, hi, r = 0;
	switch (choose(4)) { case 0: lo = sim::range(-3, 30); hi = lo + sim::range(0, 40); break; case 1: lo = sim::range(0, 1000000); hi = lo + 1 + choose(2000); break; case 2: interval(lo, hi); break; default: lo = sim::range(-5, 5); hi = sim::range(-5, 100); break; }
	bool hard = choose(3) == 0;
	if (hard) {   // a narrow range around a number which is hard to classify
		std::int64_t c = hardNumber();
		lo = c - choose(3), hi = c + 1 + (c < INT64_MAX - 3 ? choose(3) : 0);
	}
	bool one = !hard && choose(4) == 1;
	if (one) { lo = 0; if (hi < 0) hi = -(hi + 1); }
	D = one ? "prime(" + I(hi) + ")" : "prime(" + I(lo) + "," + I(hi) + ")";
	Out o = call([&] { r = one ? Random::prime(hi) : Random::prime(lo, hi); });
	if (o == STARVED) return;
	// how many primes are there?
	i128 w = (i128)hi - (lo > 0 ? lo : 0);
	if (o == OK) {
		sim::probe("prime");
		if (r < lo || r >= hi || !trialPrime(r)) BAD("range", "returned %" PRId64, r);
		return;
	}
	sim::probe("prime refused");
	if (!fairRun || lo >= hi) return;
	if (w > 100000) {
		// dense enough: among 6400 candidates of a range this wide a prime is certain for all practical purposes
		if (hi > 2) BAD("refused", "a range with many primes was refused: %s", what.c_str());
		return;
	}
	int primes = 0; std::int64_t cand = 0;
	for (std::int64_t i = std::max<std::int64_t>(lo, 2); i < hi; i++) { primes += trialPrime(i); cand += i & 1; }
	cand += 1;
	if (primes == 0) return;
	long double trials = std::min<long double>(6400, 4.0L * ((long double)hi - lo));
	long double fail = powl(1 - std::min(1.0L, (long double)primes / cand), trials);
	if (fail < 1e-12L) BAD("refused", "a range with %d primes was refused: %s", primes, what.c_str());
}

// mostly small; sometimes thousands, rarely more than 16 bit can count
std::int64_t sz(std::uint32_t small) { return choose(chance(1, 40) ? (chance(1, 25) ? 70000 : 3000) : small); }

// ---- structures ------------------------------------------------------------------
bool isPermOf(vector<Integer> v, std::int64_t off, size_t n) { if (v.size() != n) return false; std::sort(v.begin(), v.end()); for (size_t i = 0; i < n; i++) if (v[i] != off + (std::int64_t)i) return false; return true; }
void cDistinct() {
	std::int64_t lo, hi; interval(lo, hi);
	if (choose(2)) { lo = sim::range(-30, 30); hi = lo + choose(40); }
	int k = choose(10);   // 0,1 distinct 2 increasing 3 decreasing 4 multiple 5 nonInc 6 nonDec
	std::int64_t n = sz(40);
	bool up = choose(3) == 1;
	if (up) { lo = 0; if (hi < 0) hi = -(hi + 1); }
	i128 w = (i128)hi - lo;
	bool dist = k <= 3 || k == 7;
	if (dist && choose(4) && w >= 0 && w <= 60) n = (std::int64_t)w;
	else if (dist && n > w && choose(5)) n = (std::int64_t)(w < 0 ? 0 : w);
	if (chance(1, 30)) n = -1;
	vector<Integer> v;
	const char* nm[] = {"distinct", "distinct", "increasing", "decreasing", "multiple", "nonIncreasing", "nonDecreasing", "distinct", "increasing", "multiple"};
	string f = nm[k];
	dist = f == "distinct" || f == "increasing" || f == "decreasing";
	D = f + "(" + I(n) + (up ? "" : "," + I(lo)) + "," + I(hi) + ")";
	bool valid = n >= 0 && (dist ? (i128)n <= w : (n == 0 || w > 0));
	if (dist && n == 0 && w < 0) return;
	auto go = [&] {
		if (f == "distinct") v = up ? Random::distinct(n, hi) : Random::distinct(n, lo, hi);
		else if (f == "increasing") v = up ? Random::increasing(n, hi) : Random::increasing(n, lo, hi);
		else if (f == "decreasing") v = up ? Random::decreasing(n, hi) : Random::decreasing(n, lo, hi);
		else if (f == "multiple") v = up ? Random::multiple(n, hi) : Random::multiple(n, lo, hi);
		else if (f == "nonIncreasing") v = up ? Random::nonIncreasing(n, hi) : Random::nonIncreasing(n, lo, hi);
		else v = up ? Random::nonDecreasing(n, hi) : Random::nonDecreasing(n, lo, hi);
	};
	DRAW(valid, go(), false);
	if ((std::int64_t)v.size() != n) BAD("length", "%zu values", v.size());
	for (auto x : v) if (x < lo || x >= hi) BAD("range", "%" PRId64 " in %s", x, V(v).c_str());
	for (size_t i = 1; i < v.size(); i++) {
		if (f == "increasing" && !(v[i - 1] < v[i])) BAD("order", "%s", V(v).c_str());
		if (f == "decreasing" && !(v[i - 1] > v[i])) BAD("order", "%s", V(v).c_str());
		if (f == "nonDecreasing" && !(v[i - 1] <= v[i])) BAD("order", "%s", V(v).c_str());
		if (f == "nonIncreasing" && !(v[i - 1] >= v[i])) BAD("order", "%s", V(v).c_str());
	}
	if (dist) { auto s = v; std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); i++) if (s[i] == s[i - 1]) BAD("duplicate", "%" PRId64 " in %s", s[i], V(v).c_str()); }
}
std::int64_t offset() { return choose(3) ? (std::int64_t)sim::range(-5, 5) : choose(2) ? 0 : (std::int64_t)sim::range(-1000000000000ll, 1000000000000ll); }
void cPerm() {
	std::int64_t off = offset(), n = sz(30);
	bool noOff = choose(3) == 1;
	if (noOff) off = 0;
	vector<Integer> v;
	switch (choose(3)) {
		case 0: {
			if (chance(1, 20)) n = -1 - (std::int64_t)choose(3);
			D = "perm(" + I(n) + (noOff ? "" : "," + I(off)) + ")";
			DRAW(n >= 0, v = noOff ? Random::perm(n) : Random::perm(n, off), false);
			if (!isPermOf(v, off, (size_t)n)) BAD("perm", "%s", V(v).c_str());
			break;
		}
		case 1: {
			vector<Integer> c; unsigned k = chance(1, 25) ? choose(300) : choose(6); bool valid = true;
			for (unsigned i = 0; i < k; i++) c.push_back(1 + (choose(2) ? choose(3) : k < 7 ? sz(8) : choose(8)));
			if (k && chance(1, 6)) { c[choose(k)] = -(std::int64_t)choose(4); valid = false; }
			std::int64_t sum = 0; for (auto x : c) sum += x;
			D = "perm(cycles " + V(c) + (noOff ? "" : "," + I(off)) + ")";
			DRAW(valid, v = noOff ? Random::perm(c) : Random::perm(c, off), false);
			if (!isPermOf(v, off, (size_t)sum)) BAD("perm", "%s", V(v).c_str());
			vector<Integer> len; vector<char> seen(v.size());
			for (size_t i = 0; i < v.size(); i++) if (!seen[i]) { std::int64_t l = 0; for (size_t j = i; !seen[j]; j = (size_t)(v[j] - off)) { seen[j] = 1; l++; } len.push_back(l); }
			std::sort(len.begin(), len.end()); auto cs = c; std::sort(cs.begin(), cs.end());
			if (len != cs) BAD("cycles", "cycle lengths %s in %s", V(len).c_str(), V(v).c_str());
			break;
		}
		default: {
			vector<Integer> fx; unsigned k = chance(1, 25) ? choose(300) : choose(6); bool valid = n >= 0;
			for (unsigned i = 0; i < k; i++) if (n > 0) fx.push_back(off + (std::int64_t)choose((std::uint32_t)n));
			if (chance(1, 10)) { fx.push_back(choose(2) ? off - 1 - (std::int64_t)choose(3) : off + n + (std::int64_t)choose(3)); valid = false; }
			D = "perm(" + I(n) + ",fix " + V(fx) + (noOff ? "" : "," + I(off)) + ")";
			DRAW(valid, v = noOff ? Random::perm(n, fx) : Random::perm(n, fx, off), false);
			if (!isPermOf(v, off, (size_t)n)) BAD("perm", "%s", V(v).c_str());
			for (auto x : fx) if (v[(size_t)(x - off)] != x) BAD("fixpoint", "%" PRId64 " is not fixed in %s", x, V(v).c_str());
		}
	}
}
void cPartition() {
	std::int64_t n = choose(2) ? 1 + choose(60) : 1 + (std::int64_t)(sim::word() >> (4 + choose(50))), k = 1 + sz(20), mn = 1;
	bool def = choose(3) == 0;
	if (!def) mn = sim::range(-4, 6);
	if (!def && chance(1, 4) && n / k > 0) mn = 1 + (std::int64_t)(sim::word() % (std::uint64_t)(n / k));
	if (mn > 0 && k > n / mn && choose(6)) k = std::max<std::int64_t>(1, std::min<std::int64_t>(k, n / mn));
	if (choose(5) == 1 && mn > 0 && n / mn >= 1 && n / mn <= 3000) k = n / mn;
	if (chance(1, 20)) { if (choose(2)) n = -(std::int64_t)choose(3); else k = -(std::int64_t)choose(3); }
	bool valid = n > 0 && k > 0 && (mn <= 0 || k <= n / mn);
	vector<Integer> v;
	D = "partition(" + I(n) + "," + I(k) + (def ? "" : "," + I(mn)) + ")";
	DRAW(valid, v = def ? Random::partition(n, k) : Random::partition(n, k, mn), false);
	if ((std::int64_t)v.size() != k) BAD("length", "%zu parts", v.size());
	i128 s = 0; for (auto x : v) { s += x; if (x < mn) BAD("part", "part %" PRId64 " in %s", x, V(v).c_str()); }
	if (s != n) BAD("sum", "parts sum to %s", V(v).c_str());
}
void cString() {
	std::int64_t n = sz(30);
	static const std::string_view al[] = {LOWER, UPPER, DIGITS, "x", "ab", BRACKETS, "", "aab", std::string_view("\0a", 2)};
	auto a = al[choose(9)]; bool def = choose(4) == 1;
	if (def) a = LOWER;
	if (chance(1, 20)) n = choose(2) ? -1 - (std::int64_t)choose(3) : 0x1'0000'0000ll;
	bool valid = n >= 0 && n <= 0xFFFF'FFFF && !a.empty();
	string s;
	D = "string(" + I(n) + (def ? "" : "," + sim::quote(a)) + ")";
	DRAW(valid, s = def ? Random::string(n) : Random::string(n, a), false);
	if ((std::int64_t)s.size() != n) BAD("length", "length %zu", s.size());
	for (char c : s) if (a.find(c) == std::string_view::npos) BAD("alphabet", "%s", sim::quote(s).c_str());
}
void cBracket() {
	std::int64_t n = sz(20);
	if (chance(1, 30)) n = choose(2) ? -1 : 0x8000'0000ll;
	bool def = choose(2); char o = def ? '(' : '<', c = def ? ')' : '>';
	string s;
	D = "bracketSequence(" + I(n) + ")";
	DRAW(n >= 0 && n <= 0x7FFF'FFFF, s = def ? Random::bracketSequence(n) : Random::bracketSequence(n, o, c), false);
	if ((std::int64_t)s.size() != 2 * n) BAD("length", "length %zu", s.size());
	std::int64_t d = 0;
	for (char x : s) { if (x == o) d++; else if (x == c) d--; else BAD("bracket", "%s", sim::quote(s).c_str()); if (d < 0) BAD("bracket", "%s", sim::quote(s).c_str()); }
	if (d) BAD("bracket", "%s", sim::quote(s).c_str());
}
void cSelect() {
	std::int64_t n = sz(12);
	vector<Integer> v; for (std::int64_t i = 0; i < n; i++) v.push_back(100 + i * i);
	std::int64_t r = 0;
	auto has = [&] { return std::find(v.begin(), v.end(), r) != v.end(); };
	switch (choose(9)) {
		case 0: D = "select(first,last of " + V(v) + ")"; { DRAW(n > 0, r = Random::select(v.begin(), v.end()), false); } if (!has()) BAD("element", "%" PRId64, r); break;
		case 1: D = "select(const " + V(v) + ")"; { const auto& c = v; DRAW(n > 0, r = Random::select(c), false); } if (!has()) BAD("element", "%" PRId64, r); break;
		case 2: D = "select(mutable " + V(v) + ")"; { auto w = v; DRAW(n > 0, Random::select(w) = -5, false); int hit = 0; for (size_t i = 0; i < v.size(); i++) if (w[i] != v[i]) hit++; if (hit != 1) BAD("element", "assigning through the selected reference changed %d elements", hit); } break;
		case 3: D = "select(pair)"; { std::pair<Integer, Integer> p(3, 8); DRAW(true, r = Random::select(p), false); } if (r != 3 && r != 8) BAD("element", "%" PRId64, r); break;
		case 4: D = "select(complex)"; { std::complex<Real> p(3, 8); DRAW(true, r = (Integer)Random::select(p), false); } if (r != 3 && r != 8) BAD("element", "%" PRId64, r); break;
		case 5: D = "shuffle(" + V(v) + ")"; { auto w = v; DRAW(true, Random::shuffle(w), false); std::sort(w.begin(), w.end()); if (w != v) BAD("shuffle", "%s", V(w).c_str()); } break;
		case 6: D = "shuffle(pair)"; { std::pair<Integer, Integer> p(3, 8); DRAW(true, Random::shuffle(p), false); if (!(p == std::pair<Integer, Integer>(3, 8) || p == std::pair<Integer, Integer>(8, 3))) BAD("shuffle", "%" PRId64 " %" PRId64, p.first, p.second); } break;
		case 7: D = "shuffle(array part)"; { int a[7] = {0, 1, 2, 3, 4, 5, 6}; int b = choose(7), e = b + choose(8 - b); DRAW(true, Random::shuffle(a + b, a + e), false); for (int i = 0; i < 7; i++) if ((i < b || i >= e) && a[i] != i) BAD("shuffle", "element %d outside of [%d,%d) moved", i, b, e); std::sort(a + b, a + e); for (int i = 0; i < 7; i++) if (a[i] != i) BAD("shuffle", "element %d lost", i); } break;
		default: D = "rotate(" + V(v) + ")"; {
			if (!n) return;
			auto w = v; std::int64_t k = 0; bool it = choose(2);
			DRAW(true, k = it ? Random::rotate(w.begin(), w.end()) : Random::rotate(w), false);
			if (k < 0 || k >= n) BAD("rotate", "amount %" PRId64, k);
			for (int i = 0; i < n; i++) if (w[i] != v[(size_t)((i + k) % n)]) BAD("rotate", "reported %" PRId64 " but got %s", k, V(w).c_str());
		} break;
	}
}
struct P { std::int64_t x, y; };
i128 crs(const P& a, const P& b, const P& c) { return (i128)(b.x - a.x) * (c.y - a.y) - (i128)(b.y - a.y) * (c.x - a.x); }
template<typename Pt> vector<P> conv(const vector<Pt>& v) { vector<P> r; for (auto& p : v) r.push_back({(std::int64_t)getX(p), (std::int64_t)getY(p)}); return r; }
string PS(const vector<P>& v) { string s; for (size_t i = 0; i < v.size() && i < 30; i++) s += "(" + I(v[i].x) + "," + I(v[i].y) + ")"; return s; }
void cConvex() {
	std::int64_t dim, n;
	switch (choose(5)) { case 0: dim = 2; n = 3 + choose(4); break; case 1: dim = 2 + choose(5); n = 3 + choose((std::uint32_t)(4 * dim - 6)); break; case 2: dim = 2 + choose(60); n = 3 + choose((std::uint32_t)std::min<std::int64_t>(40, 3 * dim - 5)); break; case 3: dim = 0x3FFF'FFFF - choose(3); n = 3 + (chance(1, 30) ? choose(600) : choose(30)); break; default: dim = 10 + (std::int64_t)(sim::word() % 1000000000); n = 3 + choose(12); break; }
	bool valid = true;
	if (chance(1, 15)) { valid = false; switch (choose(4)) { case 0: dim = 0x4000'0000; break; case 1: dim = -(std::int64_t)choose(3); break; case 2: n = sim::range(-2, 2); break; default: dim = 2 + choose(3); n = 8 * dim - 7 + choose(5); } }
	bool hard = valid && chance(1, 2000) && fairRun;
	if (hard) { dim = 10; n = 72; }
	vector<P> v; bool cplx = choose(4) == 1;
	D = "convex(" + I(n) + "," + I(dim) + ")";
	if (hard) { Out o = call([&] { v = conv(Random::convex(n, dim)); }, 2000000); if (o == STARVED) { sim::violate("convex-no-progress", "%s: no result after 2000000 words of a fair engine", D.c_str()); return; } }
	else { DRAW(valid, if (cplx) v = conv(Random::convex<std::complex<Integer>>(n, dim)); else v = conv(Random::convex(n, dim)), n > 3 * dim); }
	if ((std::int64_t)v.size() != n) BAD("length", "%zu points", v.size());
	std::int64_t x0 = INT64_MAX, x1 = INT64_MIN, y0 = INT64_MAX, y1 = INT64_MIN;
	for (auto& p : v) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
	if (x0 != -(dim - 1) || x1 != dim - 1 || y0 != -(dim - 1) || y1 != dim - 1) BAD("extent", "spans [%" PRId64 ",%" PRId64 "]x[%" PRId64 ",%" PRId64 "]: %s", x0, x1, y0, y1, PS(v).c_str());
	// convex position, counter-clockwise, winding once: every edge has all points on its left, points distinct, not all collinear
	bool area = false;
	for (size_t i = 0; i < v.size(); i++) {
		auto& a = v[i]; auto& b = v[(i + 1) % v.size()];
		if (a.x == b.x && a.y == b.y) BAD("convex", "repeated point in %s", PS(v).c_str());
		for (auto& c : v) { i128 z = crs(a, b, c); if (z < 0) BAD("convex", "point (%" PRId64 ",%" PRId64 ") is right of edge %zu of %s", c.x, c.y, i, PS(v).c_str()); area |= z > 0; }
	}
	if (!area) BAD("degenerate", "all points are collinear: %s", PS(v).c_str());
	// order along the boundary: the boundary is traversed exactly once
	long double per = 0, turn = 0;
	for (size_t i = 0; i < v.size(); i++) { auto& a = v[i]; auto& b = v[(i + 1) % v.size()]; auto& c = v[(i + 2) % v.size()]; long double ux = b.x - a.x, uy = b.y - a.y, vx = c.x - b.x, vy = c.y - b.y; turn += atan2l(ux * vy - uy * vx, ux * vx + uy * vy); per += 1; }
	if (fabsl(turn - 2 * 3.14159265358979323846L) > 0.01L) BAD("convex", "the boundary turns by %Lf instead of once: %s", turn, PS(v).c_str());
}
void cNonCollinear() {
	std::int64_t dim, n;
	switch (choose(4)) { case 0: dim = 1 + choose(12); n = choose((std::uint32_t)dim); break; case 1: dim = 2 + choose(100); n = choose((std::uint32_t)std::min<std::int64_t>(dim, 40)); break; case 2: dim = 0x1FFF'FFFF - choose(100); n = choose(chance(1, 60) ? 150 : 30); break; default: dim = 50 + (std::int64_t)(sim::word() % 100000000); n = choose(40); }
	bool valid = true;
	if (chance(1, 15)) { valid = false; switch (choose(3)) { case 0: dim = 0x2000'0000; break; case 1: n = -1; break; default: n = dim + choose(3); } }
	vector<P> v; bool cplx = choose(4) == 1;
	D = "nonCollinearPoints(" + I(n) + "," + I(dim) + ")";
	DRAW(valid, if (cplx) v = conv(Random::nonCollinearPoints<std::complex<Integer>>(n, dim)); else v = conv(Random::nonCollinearPoints(n, dim)), false);
	if ((std::int64_t)v.size() != n) BAD("length", "%zu points", v.size());
	for (auto& p : v) if (p.x <= -dim || p.x >= dim || p.y <= -dim || p.y >= dim) BAD("range", "(%" PRId64 ",%" PRId64 ")", p.x, p.y);
	for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
		if (v[i].x == v[j].x && v[i].y == v[j].y) BAD("duplicate", "%s", PS(v).c_str());
		for (size_t k = j + 1; k < v.size(); k++) if (crs(v[i], v[j], v[k]) == 0) BAD("collinear", "points %zu %zu %zu of %s", i, j, k, PS(v).c_str());
	}
}

typedef void (*Fn)();
void drive(const vector<Fn>& fns) {
	int m = choose(3);
	fairRun = m == 0;
	std::uint64_t seed = sim::word();
	unsigned n = 1 + choose(5);
	sim::W->nontrivial = true;
	sim::sig(m);
	auto st = sim::spawn([&] {
		static char argv0[] = "/sim/gen"; char* av[] = {argv0, nullptr};
		Generator::init(1, av);
		Random::seed(seed);
		for (unsigned i = 0; i < n && !sim::W->violated; i++) {
			SimEngine::mode = m;
			SimEngine::evil = m ? 1 + choose(40) : 0;
			auto f = fns[choose((std::uint32_t)fns.size())];
			f();
			sim::sig(sim::mix((std::uint64_t)std::hash<string>()(D.substr(0, D.find('('))), 7));
			sim::ev("%s", D.c_str());
			// a digest of the position of the engine makes the result part of the history
			SimEngine::mode = 0; SimEngine::budget = ~0ull;
			std::snprintf(sim::W->hist, 100, "%s", D.c_str());
		}
	}, sim::EXIT_FAST);
	if (sim::W->violated) return;
	if (st.hang) { sim::violate("hang", "does not end after %s", sim::W->hist); return; }
	if (!(st.exited && st.code == 0)) sim::violate("crash", "process ended with %d after %s; stderr %s", st.shown(), sim::W->hist, sim::quote(sim::get("<stderr>")).c_str());
}
sim::Register r1("scalars", [] { static const vector<Fn> f = {sInteger, sInteger, sReal, sReal, sBit, sDiscrete, sNormal, sExp, sGeom, sBinom, sBinom, sMaxMin, sMaxMin, sPrime, sPrime}; drive(f); }, 4);
sim::Register r2("structures", [] { static const vector<Fn> f = {cDistinct, cDistinct, cPerm, cPerm, cPartition, cString, cBracket, cSelect, cSelect, cConvex, cNonCollinear}; drive(f); }, 4);
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
