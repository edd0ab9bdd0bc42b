// Predicates a judge's program evaluates on what it has read: the functions of validate.h and independent references.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
namespace preds {
using i64 = std::int64_t; using L = __int128; using std::string; using std::vector;
using P = std::pair<Integer, Integer>;
constexpr int COUNT = 14;
inline const char* const name[COUNT] = {"isPerm(offset)", "isPerm(other)", "areIncreasing", "areNonDecreasing", "areDecreasing", "areNonIncreasing", "areDistinct", "isPrime", "modular arithmetic", "character classes", "case conversion", "polygon predicates", "primes/range/thueMorse", "allAdjacent/anyAdjacent/noneAdjacent"};
struct In { int pat; i64 par; const vector<Integer>& I; const vector<string>& S; };
inline i64 modulus(i64 par) { i64 m = par == INT64_MIN ? INT64_MAX : par < 0 ? -par : par; return m ? m : 1; }
inline vector<Integer> other(const In& in) {
	vector<Integer> v = in.I;
	std::sort(v.begin(), v.end());
	if (v.size() > 1 && in.par % 3 == 1) v[0] = v[1];
	if (!v.empty() && in.par % 3 == 2) v.pop_back();
	std::reverse(v.begin(), v.end());
	return v;
}
inline vector<P> points(const In& in) {
	string all; for (auto& s : in.S) all += s;
	vector<P> v;
	i64 d = 2 + modulus(in.par % 4), sc = in.par % 5 == 0 ? 0x3FFFFFFF / d : 1;
	for (size_t i = 0; i + 1 < all.size() && v.size() < 9; i += 2) v.emplace_back((i64)((unsigned char)all[i] % (2 * d + 1) - d) * sc, (i64)((unsigned char)all[i + 1] % (2 * d + 1) - d) * sc);
	if (in.par % 2 && v.size() > 2) std::sort(v.begin() + 1, v.end(), [&](P a, P b) {   // rather convex
		L c = (L)(a.first - v[0].first) * (b.second - v[0].second) - (L)(a.second - v[0].second) * (b.first - v[0].first);
		return c != 0 ? c > 0 : a < b;
	});
	return v;
}
struct Ranges { i64 lo, up, from, to, step; };
inline Ranges ranges(const In& in) {
	i64 a = in.I.empty() ? 0 : in.I.front(), b = modulus(in.par);
	Ranges r;
	r.lo = a < 0 ? a % 10 : std::min<i64>(a, INT64_MAX - 50); r.up = r.lo + 1 + b % 40;
	r.from = in.par % 2 ? INT64_MAX - b % 60 : a; i64 span = b % 61 - 30; r.to = span > 0 && r.from > INT64_MAX - span ? INT64_MAX : span < 0 && r.from < INT64_MIN - span ? INT64_MIN : r.from + span;
	r.step = b % 7 == 0 ? (span < 0 ? INT64_MIN + 1 : INT64_MAX) : b % 11 - 5; if (r.step == 0) r.step = 1;
	return r;
}
inline string list(const vector<Integer>& v) { string s; for (auto x : v) s += std::to_string(x) + ","; return s; }

// ---- by the header (all text is built behind the calls: memory may be refused while they run)
inline string real(const In& in) {
	auto b = [](bool x) { return x ? "1" : "0"; };
	switch (in.pat) {
		case 0: {
			auto r = isPerm(in.I, in.par); sim::NoFault g;
			bool wit = bool(r) != r.hasReason();
			if (r.hasReason()) { i64 x = *r.reason; long n = std::count(in.I.begin(), in.I.end(), x); wit = n > 1 || (n == 1 && (x < in.par || (L)x - in.par >= (L)in.I.size())); }
			return string(b(r)) + (wit ? "" : " bad witness");
		}
		case 1: { vector<Integer> o; { sim::NoFault g; o = other(in); } auto r = isPerm(in.I, o); sim::NoFault g; return b(r) + string(!r.hasReason() || std::count(in.I.begin(), in.I.end(), *r.reason) ? "" : " bad witness"); }
		case 2: case 3: case 4: case 5: {
			auto r = in.pat == 2 ? areIncreasing(in.I) : in.pat == 3 ? areNonDecreasing(in.I) : in.pat == 4 ? areDecreasing(in.I) : areNonIncreasing(in.I);
			sim::NoFault g;
			bool wit = bool(r) != r.hasReason();
			if (r.hasReason()) { i64 i = *r.reason; wit = i >= 1 && i < (i64)in.I.size(); if (wit) { i64 x = in.I[(size_t)i - 1], y = in.I[(size_t)i]; wit = !(in.pat == 2 ? x < y : in.pat == 3 ? x <= y : in.pat == 4 ? x > y : x >= y); } }
			return string(b(r)) + (wit ? "" : " bad witness");
		}
		case 6: { auto r = areDistinct(in.I); sim::NoFault g; bool wit = bool(r) != r.hasReason(); if (r.hasReason()) wit = std::count(in.I.begin(), in.I.end(), *r.reason) > 1; return string(b(r)) + (wit ? "" : " bad witness"); }
		case 7: { vector<char> v; { sim::NoFault g; v.resize(in.I.size()); } for (size_t i = 0; i < v.size(); i++) v[i] = isPrime(in.I[i]); sim::NoFault g; string s; for (char c : v) s += b(c); return s; }
		case 8: { i64 x = in.I.empty() ? 5 : in.I.front(), y = in.I.empty() ? 7 : in.I.back(), m = modulus(in.par); i64 a = applyMod(x, m), p = mulMod(x, y, m), w = powMod(x, modulus(y), m), v = multInv(x, m); sim::NoFault g; return std::to_string(a) + " " + std::to_string(p) + " " + std::to_string(w) + " " + std::to_string(v); }
		case 9: { sim::NoFault g; string s; for (auto& t : in.S) { s += b(isLower(t)); s += b(isUpper(t)); s += b(isLetter(t)); s += b(isDigit(t)); s += b(isVowel(t)); s += b(isConsonant(t)); } return s; }
		case 10: { sim::NoFault g; string s; for (auto t : in.S) { auto u = t; toLower(t); toUpper(u); s += t + "," + u + ","; } return s; }
		case 11: { vector<P> p; { sim::NoFault g; p = points(in); } bool c = isConvex(p), t = isStrictlyConvex(p), s = isSimple(p), w = isCCW(p); sim::NoFault g; return string(b(c)) + b(t) + b(s) + (s ? b(w) : "-"); }
		case 12: { auto q = ranges(in); auto x = primes(q.lo, q.up); vector<Integer> y = range(q.from, q.to, q.step), z; if (q.lo >= 0) z = thueMorse(q.lo, q.up); sim::NoFault g; return list(x) + ";" + list(y) + ";" + list(z); }
		default: {
			auto p = [&](Integer x, Integer y) { return (x % 5 + y % 3) % 2 == 0; };
			bool x = allAdjacent(in.I, p), y = anyAdjacent(in.I, p), z = noneAdjacent(in.I, p); bool x2 = allAdjacent(in.I.begin(), in.I.end(), p);
			sim::NoFault g; return string(b(x)) + b(y) + b(z) + b(x2);
		}
	}
}

// ---- by definition
inline bool prime(i64 n) {
	if (n < 2) return false;
	for (i64 p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) if (n % p == 0) return n == p;
	auto pw = [&](L b, i64 e) { L r = 1; b %= n; for (; e; e >>= 1) { if (e & 1) r = r * b % n; b = b * b % n; } return r; };
	i64 d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, s++;
	for (i64 a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
		L x = pw(a, d); if (x == 1 || x == n - 1) continue;
		bool ok = false; for (int i = 1; i < s && !ok; i++) { x = x * x % n; ok = x == n - 1; }
		if (!ok) return false;
	}
	return true;
}
inline L cr(P a, P b, P c) { return (L)(b.first - a.first) * (c.second - a.second) - (L)(b.second - a.second) * (c.first - a.first); }
inline bool on(P a, P b, P p) { return cr(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second); }
inline int sg(L x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
inline bool simple(const vector<P>& v) {
	size_t n = v.size();
	if (n < 3) return false;
	for (size_t i = 0; i < n; i++) {
		P a = v[i], b = v[(i + 1) % n], c = v[(i + 2) % n];
		if (a == b || on(a, b, c) || on(b, c, a)) return false;
		for (size_t j = i + 2; j < n; j++) {
			if (i == 0 && j == n - 1) continue;
			P c = v[j], d = v[(j + 1) % n];
			if (on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b) || (sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0)) return false;
		}
	}
	return true;
}
inline string model(const In& in) {
	auto b = [](bool x) { return x ? "1" : "0"; };
	const auto& I = in.I;
	switch (in.pat) {
		case 0: { auto v = I; std::sort(v.begin(), v.end()); bool ok = true; for (size_t i = 0; i < v.size(); i++) ok &= (L)v[i] == (L)in.par + (L)i; return b(ok); }
		case 1: { auto v = I, w = other(in); std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end()); return b(v == w); }
		case 2: case 3: case 4: case 5: { bool ok = true; for (size_t i = 1; i < I.size(); i++) { i64 x = I[i - 1], y = I[i]; ok &= in.pat == 2 ? x < y : in.pat == 3 ? x <= y : in.pat == 4 ? x > y : x >= y; } return b(ok); }
		case 6: { auto v = I; std::sort(v.begin(), v.end()); return b(std::adjacent_find(v.begin(), v.end()) == v.end()); }
		case 7: { string s; for (auto x : I) s += b(prime(x)); return s; }
		case 8: {
			i64 x = I.empty() ? 5 : I.front(), y = I.empty() ? 7 : I.back(), m = modulus(in.par);
			auto md = [&](L a) { a %= m; return a < 0 ? a + m : a; };
			L w = md(1), q = md(x); for (i64 e = modulus(y); e; e >>= 1) { if (e & 1) w = md(w * q); q = md(q * q); }
			L r0 = m, r1 = md(x), t0 = 0, t1 = 1; while (r1 != 0) { L k = r0 / r1; std::swap(r0, r1); r1 -= k * r0; std::swap(t0, t1); t1 -= k * t0; }
			i64 inv = r0 == 1 ? (i64)md(t0) : -1;
			return std::to_string((i64)md(x)) + " " + std::to_string((i64)md(md(x) * md(y))) + " " + std::to_string((i64)w) + " " + std::to_string(inv);
		}
		case 9: {
			string s;
			for (auto& t : in.S) {
				bool lo = true, up = true, le = true, di = true, vo = true, co = true;
				for (char c : t) { bool l = c >= 'a' && c <= 'z', u = c >= 'A' && c <= 'Z', v = c && string("aeiouAEIOU").find(c) != string::npos; lo &= l; up &= u; le &= l || u; di &= c >= '0' && c <= '9'; vo &= v; co &= (l || u) && !v; }
				s += b(lo); s += b(up); s += b(le); s += b(di); s += b(vo); s += b(co);
			}
			return s;
		}
		case 10: { string s; for (auto t : in.S) { auto u = t; for (char& c : t) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); for (char& c : u) if (c >= 'a' && c <= 'z') c = (char)(c - 32); s += t + "," + u + ","; } return s; }
		case 11: {
			auto p = points(in); size_t n = p.size();
			bool s = simple(p), c = s, t = s; L A = 0;
			for (size_t i = 0; i < n; i++) { A += (L)p[i].first * p[(i + 1) % n].second - (L)p[i].second * p[(i + 1) % n].first; L z = cr(p[i], p[(i + 1) % n], p[(i + 2) % n]); c &= z >= 0; t &= z > 0; }
			return string(b(c)) + b(c && t) + b(s) + (s ? b(A > 0) : "-");
		}
		case 12: {
			auto q = ranges(in); vector<Integer> x, y, z;
			for (i64 k = q.lo; k < q.up; k++) if (prime(k)) x.push_back(k);
			for (L k = q.from; q.step > 0 ? k < q.to : k > q.to; k += q.step) y.push_back((i64)k);
			if (q.lo >= 0) for (i64 k = q.lo; k < q.up; k++) z.push_back(__builtin_popcountll((unsigned long long)k) % 2);
			return list(x) + ";" + list(y) + ";" + list(z);
		}
		default: {
			bool all = true, any = false;
			for (size_t i = 1; i < I.size(); i++) { bool k = (I[i - 1] % 5 + I[i] % 3) % 2 == 0; all &= k; any |= k; }
			return string(b(all)) + b(any) + b(!any) + b(all);
		}
	}
}
// the judge's rule: accept iff the answer ends with an odd digit (predicates: iff it is true)
inline bool favourable(const string& s) { for (size_t i = s.size(); i--;) if (s[i] >= '0' && s[i] <= '9') return (s[i] - '0') % 2; return true; }
}
