// C20: what one process of the library writes, another one reads back: generator -> validator, state -> next pass, graph -> graph validator.
#include "../sim/core.h"
#include REPO_GRAPH_GEN
#include <array>
#include <cinttypes>
#include <cmath>
#include <deque>
#include <dlfcn.h>
#include <list>
#include <map>
#include <set>
#include "trip.h"

using sim::choose;
using sim::fmt;
using std::string;
using std::vector;
typedef std::int64_t i64;

namespace {
string D;
#define BAD(cls, ...) do { if (!sim::W->violated) sim::violate(cls, "%s: %s", D.c_str(), fmt(__VA_ARGS__).c_str()); return; } while (0)

struct Tok { char type; i64 i = 0; Real r = 0; int prec = 0; string s; char sep = '\n'; };   // i r s b e(mpty)
struct Item { int how; vector<i64> iv; vector<Real> rv; vector<string> sv; int prec = 6; char sep = ' '; vector<Tok> tok; char end = '\n'; int endHow = 0; };

i64 anInt() { switch (choose(5)) { case 0: return (i64)choose(10); case 1: return -(i64)choose(1000); case 2: return choose(2) ? INT64_MIN + (i64)choose(2) : INT64_MAX - (i64)choose(2); case 3: return (choose(2) ? 1 : -1) * (i64)(1ll << choose(63)); default: return (i64)sim::word(); } }
Real aReal() { switch (choose(6)) { case 0: return (Real)choose(10); case 1: return ((Real)choose(2000001) - 1000000) / 1000; case 2: return (choose(2) ? 1 : -1) * std::ldexp((Real)(1 + choose(1u << 30)), (int)choose(80) - 60); case 3: return (Real)anInt(); case 4: return (Real)choose(1000) / 1000 - 0.5L; default: return (choose(2) ? 1 : -1) * std::ldexp((Real)(1 + choose(1u << 30)), (int)choose(400) - 100); } }
string aString() { static const char odd[] = "-+.,:;#'\"\\&<>%$!?~|{}[]()*/=@^_`0123456789eExX"; unsigned n = 1 + (choose(10) == 0 ? choose(200) : choose(8)); if (choose(2000) == 0) n = 5000 + choose(9000); string s; while (s.size() < n) { if (choose(2)) s += (char)('a' + choose(26)); else if (choose(3) == 0) s += (char)('A' + choose(26)); else s += odd[choose(sizeof odd - 1)]; } return s; }
Tok ti(i64 v) { Tok t{'i'}; t.i = v; return t; }
Tok tr(Real v, int p) { Tok t{'r'}; t.r = v; t.prec = p; return t; }
Tok ts(const string& v) { Tok t{'s'}; t.s = v; return t; }
Tok tb(bool v) { Tok t{'b'}; t.s = v ? "true" : "false"; return t; }

constexpr int NHOW = 36;
Item anItem(bool big) {
	Item x; x.how = (int)choose(NHOW);
	x.sep = choose(3) ? ' ' : '\n'; x.prec = (int)choose(choose(4) ? 10 : 26);
	unsigned n = choose(6) == 0 ? 0 : 1 + choose(big ? 1200 : 6);
	auto ints = [&](unsigned k) { for (unsigned i = 0; i < k; i++) x.iv.push_back(anInt()); };
	auto reals = [&](unsigned k) { for (unsigned i = 0; i < k; i++) x.rv.push_back(aReal()); };
	auto strs = [&](unsigned k) { for (unsigned i = 0; i < k; i++) x.sv.push_back(aString()); };
	auto add = [&](Tok t, char sep) { t.sep = sep; x.tok.push_back(t); };
	switch (x.how) {
		case 0: ints(1); add(ti(x.iv[0]), 0); break;
		case 19: ints(2); add(ti(x.iv[0]), x.sep); add(ti(x.iv[1]), x.sep); break;
		case 1: x.sep = ' '; [[fallthrough]];
		case 2: case 3: case 4: case 18: ints(n); for (auto v : x.iv) add(ti(v), x.sep); break;
		case 5: { ints(n); std::set<i64> s(x.iv.begin(), x.iv.end()); x.sep = ' '; for (auto v : s) add(ti(v), ' '); break; }
		case 6: x.sep = ' '; ints(3); for (auto v : x.iv) add(ti(v), ' '); break;
		case 7: ints(3); for (auto v : x.iv) add(ti(v), x.sep); break;
		case 8: reals(1); add(tr(x.rv[0], x.prec), 0); break;
		case 9: reals(n); for (auto v : x.rv) add(tr(v, x.prec), x.sep); break;
		case 10: strs(1); add(ts(x.sv[0]), 0); break;
		case 11: strs(n); for (auto& v : x.sv) add(ts(v), x.sep); break;
		case 12: ints(1); strs(1); x.sep = ' '; add(ti(x.iv[0]), ' '); add(ts(x.sv[0]), ' '); break;
		case 13: ints(1); strs(1); reals(1); add(ti(x.iv[0]), x.sep); add(ts(x.sv[0]), x.sep); add(tr(x.rv[0], x.prec), x.sep); break;
		case 14: { x.iv = {(i64)choose(2)}; add(tb(x.iv[0]), 0); break; }
		case 15: { unsigned rows = 1 + choose(4), cols = 1 + choose(4); ints(rows * cols); x.prec = (int)cols; x.sep = '\n'; for (unsigned i = 0; i < rows * cols; i++) add(ti(x.iv[i]), i % cols == cols - 1 ? '\n' : ' '); break; }
		case 16: { x.sep = choose(2) ? ' ' : '\n'; std::map<i64, string> m; for (unsigned i = 0; i < n && i < 50; i++) { i64 k = anInt(); string s = aString(); if (m.emplace(k, s).second) { x.iv.push_back(k); x.sv.push_back(s); } } for (auto& [k, v] : m) { add(ti(k), ' '); add(ts(v), x.sep); } break; }
		case 17: { string s = aString(); x.sv = {s}; add(ts(s), 0); break; }
		case 20: strs(1); add(ts(x.sv[0]), 0); break;
		case 21: strs(1); for (char c : x.sv[0]) add(ts(string(1, c)), x.sep); break;
		case 22: add(ts("a"), x.sep); add(ts("b"), x.sep); add(ts("c"), x.sep); break;
		case 23: ints(2); reals(1); x.sep = ' '; add(ti(x.iv[0]), ' '); add(tr(x.rv[0], x.prec), ' '); add(ti(x.iv[1]), ' '); break;
		case 24: ints(2); reals(1); add(ti(x.iv[0]), x.sep); add(tr(x.rv[0], x.prec), x.sep); add(ti(x.iv[1]), x.sep); break;
		case 25: ints(n); for (auto& v : x.iv) { v = (std::int32_t)v; add(ti(v), x.sep); } break;
		case 26: ints(n); for (auto& v : x.iv) { v = v & INT64_MAX; add(ti(v), x.sep); } break;
		case 27: for (unsigned i = 0; i < n; i++) { x.iv.push_back(choose(2)); add(tb(x.iv[i]), x.sep); } break;
		case 28: ints(n); for (size_t i = x.iv.size(); i-- > 0;) add(ti(x.iv[i]), x.sep); break;
		case 29: ints(4); for (size_t i = 0; i < 4; i++) add(ti(x.iv[i]), i % 2 ? x.sep : ' '); break;      // join of pairs
		case 30: ints(2); x.sep = ' '; strs(1); add(ti(x.iv[0]), ' '); add(ti(x.iv[1]), ' '); add(ts(x.sv[0]), ' '); break;   // nested pair
		case 32: reals(n); for (auto v : x.rv) add(tr(v, DEFAULT_PRECISION), x.sep); break;                  // joined reals as a string
		case 33: ints(1); strs(1); reals(1); add(ti(x.iv[0]), x.sep); add(tr(x.rv[0], DEFAULT_PRECISION), x.sep); add(ts(x.sv[0]), x.sep); break;
		case 34: for (unsigned i = 0; i < n; i++) { x.iv.push_back(choose(2)); add(tb(x.iv[i]), x.sep); } break;
		default: ints(1); strs(1); x.sep = ' '; add(ti(x.iv[0]), ' '); add(ts(x.sv[0]), ' '); break;          // by hand
	}
	if (x.tok.empty()) { Tok t{'e'}; x.tok.push_back(t); x.end = '\n'; }
	else { x.end = choose(3) ? '\n' : ' '; }
	x.endHow = (int)choose(x.end == '\n' ? 4 : 3);
	x.tok.back().sep = x.end;
	return x;
}
template<typename C> struct Rev { const C& c; };
void emit(OutputStream& os, const Item& x) {
	auto& iv = x.iv; auto& rv = x.rv; auto& sv = x.sv;
	os << std::setprecision(x.prec);
	switch (x.how) {
		case 0: os << iv[0]; break;
		case 1: os << iv; break;
		case 2: os << join(iv, x.sep); break;
		case 3: os << join(iv.begin(), iv.end(), x.sep); break;
		case 4: { auto t = join(vector<Integer>(iv.begin(), iv.end()), x.sep); if (iv.size() % 3 == 1) t.asString(); if (iv.size() % 3 == 2) { OutputStream nowhere; nowhere << t; } os << t; break; }   // a writer may be used before
		case 5: { std::set<Integer> s(iv.begin(), iv.end()); std::list<Integer> l(s.begin(), s.end()); std::deque<Integer> d(s.begin(), s.end()); if (iv.size() % 3 == 0) os << s; else if (iv.size() % 3 == 1) os << l; else os << d; break; }
		case 6: { Integer a[3] = {iv[0], iv[1], iv[2]}; os << a; break; }
		case 7: { std::array<Integer, 3> a{iv[0], iv[1], iv[2]}; if (x.sep == ' ') os << a; else os << join(a, x.sep); break; }
		case 8: os << rv[0]; break;
		case 9: if (x.sep == ' ') os << rv; else os << join(rv, x.sep); break;
		case 10: os << sv[0]; break;
		case 11: if (x.sep == ' ') os << sv; else os << join(sv, x.sep); break;
		case 12: os << std::make_pair(iv[0], sv[0]); break;
		case 13: os << join({iv[0], sv[0], rv[0]}, x.sep); break;
		case 14: os << (iv[0] != 0); break;
		case 15: { vector<vector<Integer>> v; for (size_t i = 0; i < iv.size(); i++) { if (i % (size_t)x.prec == 0) v.emplace_back(); v.back().push_back(iv[i]); } os << join(v, '\n'); break; }
		case 16: { std::map<Integer, string> m; for (size_t i = 0; i < iv.size(); i++) m[iv[i]] = sv[i]; if (x.sep == ' ') os << m; else os << join(m, x.sep); break; }
		case 17: { vector<char> c(sv[0].begin(), sv[0].end()); os << join(c, NOSEP); break; }
		case 18: os << join(iv, x.sep).asString(); break;
		case 19: os << join({iv[0], iv[1]}, x.sep); break;
		case 20: if (sv[0].size() % 2) os << sv[0].c_str(); else os << std::string_view(sv[0]); break;
		case 21: os << join(sv[0], x.sep); break;
		case 22: os << join("abc", x.sep); break;
		case 23: os << std::make_tuple(iv[0], rv[0], iv[1]); break;
		case 24: { auto t = std::make_tuple(iv[0], rv[0], iv[1]); if (iv[0] % 2) os << join(t, x.sep); else { auto w = join(std::make_tuple(iv[0], rv[0], iv[1]), x.sep); if (iv[1] % 2) { OutputStream nowhere; nowhere << w; } os << w; } break; }
		case 25: { vector<int> v(iv.begin(), iv.end()); os << join(v, x.sep); break; }
		case 26: { vector<std::uint64_t> v(iv.begin(), iv.end()); os << join(v, x.sep); break; }
		case 27: { vector<bool> v; for (auto b : iv) v.push_back(b != 0); if (x.sep == ' ') os << v; else os << join(v, x.sep); break; }
		case 28: os << join(iv.rbegin(), iv.rend(), x.sep); break;
		case 29: { vector<std::pair<Integer, Integer>> v{{iv[0], iv[1]}, {iv[2], iv[3]}}; if (x.sep == ' ') os << v; else os << join(v, x.sep); break; }
		case 30: os << std::make_pair(std::make_pair(iv[0], iv[1]), sv[0]); break;
		case 32: if (rv.size() % 2) os << join(rv, x.sep).asString(); else os << string(join(rv.begin(), rv.end(), x.sep)); break;
		case 33: if (iv[0] % 2) os << join({iv[0], rv[0], sv[0]}, x.sep).asString(); else os << join(std::make_tuple(iv[0], rv[0], sv[0]), x.sep).asString(); break;
		case 34: { vector<bool> v; for (auto b : iv) v.push_back(b != 0); os << join(v, x.sep).asString(); break; }
		default: os << iv[0] << " " << sv[0]; break;
	}
	if (x.end == '\n') switch (x.endHow) { case 0: os << std::endl; break; case 1: os << '\n'; break; case 2: os << "\n"; break; default: os << NEWLINE; }
	else switch (x.endHow) { case 0: os << ' '; break; case 1: os << " "; break; default: os << SPACE; }
}

string lower(string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
// what is read back; every value is compared at once
struct Reader {
	InputStream& in; const vector<Tok>& t; bool fold; size_t k = 0; bool compare;
	string exp(const string& s) const { return fold ? lower(s) : s; }
	void gotI(size_t j, i64 v) { if (compare && v != t[j].i && !sim::W->violated) sim::violate("value", "%s: token %zu reads as integer %" PRId64 " instead of %" PRId64, D.c_str(), j, v, t[j].i); }
	void gotS(size_t j, const string& v) { string w = t[j].type == 'i' ? std::to_string(t[j].i) : exp(t[j].s); if (compare && v != w && !sim::W->violated) sim::violate("value", "%s: token %zu reads as string %s instead of %s", D.c_str(), j, sim::quote(v).c_str(), sim::quote(w).c_str()); }
	void gotR(size_t j, Real v) { Real tol = 0.5L * std::pow(10.0L, -t[j].prec) * (1 + 1e-9L) + std::fabs(t[j].r) * 1e-18L; if (compare && !(std::fabs(v - t[j].r) <= tol) && !sim::W->violated) sim::violate("value", "%s: token %zu reads as real %.21Lg instead of %.21Lg to %d decimals", D.c_str(), j, (long double)v, (long double)t[j].r, t[j].prec); }
	void sep(char c) { if (c == ' ') in.space(); else in.newline(); }
	void run() {
		while (k < t.size()) {
			auto& x = t[k];
			if (x.type == 'e') { if (choose(2)) { auto v = in.integers(0, 5, 0); if (!v.empty()) sim::violate("value", "integers() of count 0 returns something"); } sep(x.sep); k++; continue; }
			// a homogeneous run may be read at once
			size_t e = k + 1; while (e < t.size() && t[e].type == x.type && t[e - 1].sep == x.sep && (e == k + 1 || t[e - 2].sep == x.sep)) e++;
			if (e - k > 1 && choose(2)) {
				size_t n = 1 + choose((std::uint32_t)(e - k)); char c = x.sep;
				for (size_t j = k; j + 1 < k + n; j++) if (t[j].sep != c) n = j - k + 1;
				sim::probe(fmt("read %c at once", x.type).c_str());
				if (x.type == 'i') {
					i64 lo = x.i, hi = x.i; for (size_t j = k; j < k + n; j++) lo = std::min(lo, t[j].i), hi = std::max(hi, t[j].i);
					auto v = choose(2) && hi != INT64_MAX ? in.integers(lo, hi + 1, (Integer)n, c) : c == ' ' && choose(2) ? in.integers((Integer)n) : in.integers((Integer)n, c);
					if (v.size() != n) sim::violate("value", "%s: %zu integers read instead of %zu", D.c_str(), v.size(), n); else for (size_t j = 0; j < n; j++) gotI(k + j, v[j]);
				} else if (x.type == 'r') { auto v = in.reals((Integer)n, c); for (size_t j = 0; j < n && j < v.size(); j++) gotR(k + j, v[j]); if (v.size() != n) sim::violate("value", "%s: %zu reals read instead of %zu", D.c_str(), v.size(), n); }
				else { auto v = choose(2) ? in.strings((Integer)n, c) : in.strings(1, 20000, (Integer)n, c); for (size_t j = 0; j < n && j < v.size(); j++) gotS(k + j, v[j]); if (v.size() != n) sim::violate("value", "%s: %zu strings read instead of %zu", D.c_str(), v.size(), n); }
				k += n; sep(t[k - 1].sep);
				continue;
			}
			int how = (int)choose(5);
			switch (x.type) {
				case 'i':
					if (how == 0) gotI(k, in.integer());
					else if (how == 1 && x.i != INT64_MAX) gotI(k, in.integer(x.i, x.i + 1));
					else if (how == 2) { sim::probe("expectInt"); in.expectInt(x.i); }
					else if (how == 3) gotS(k, in.string());
					else { if (x.i == INT64_MAX) gotI(k, in.integer()); else gotI(k, in.integer(INT64_MIN, x.i + 1 + (x.i < 0 ? (i64)choose(100) : 0))); }
					break;
				case 'r':
					if (how == 0) gotR(k, in.real());
					else if (how == 1) gotR(k, in.real(x.r - 1 - std::fabs(x.r), x.r + 1 + std::fabs(x.r)));
					else if (how == 2 && x.prec >= 8) { sim::probe("expectReal"); in.expectReal(x.r); }
					else if (how == 3) { sim::probe("realStrict"); gotR(k, in.realStrict(x.r - 1 - std::fabs(x.r), x.r + 1 + std::fabs(x.r), choose(2) ? x.prec : 0, x.prec + 1)); }
					else gotR(k, in.real());
					break;
				default:
					if (how == 0) { sim::probe("expectString"); in.expectString(x.s); }
					else if (how == 1) gotS(k, in.string((Integer)x.s.size(), (Integer)x.s.size() + 1));
					else if (how == 2 && x.s.size() < 300) gotS(k, in.string(std::regex("[^ \n]+")));
					else gotS(k, in.string());
			}
			sep(x.sep); k++;
		}
		in.eof();
	}
};

enum Chan { GEN_INPUT, GEN_ANSWER, GEN_TEAM, GEN_TESTIN, GEN_JURYANS, STATE, NEXTPASS, NCHAN };
const char* const chanName[] = {"generator to input validator", "generator to answer validator", "generator to strict output validator", "generator to test input", "generator to jury answer", "state to next pass", "next input to next pass"};
char a0[] = "/sim/prog", aIn[] = "/sim/test.in", aAns[] = "/sim/test.ans", aFb[] = "/sim/fb", aCase[] = "case_sensitive", aSpace[] = "space_change_sensitive";

void writer(int ch, const vector<Item>& items) {
	if (ch == STATE || ch == NEXTPASS) {
		char* av[] = {a0, aIn, aAns, aFb, nullptr};
		OutputValidator::init(4, av); Multipass::init();
		for (auto& x : items) emit(ch == STATE ? Multipass::nextstate : Multipass::nextpass, x);
		Multipass::NEXT();
	}
	char* av[] = {a0, nullptr};
	Generator::init(1, av);
	for (auto& x : items) emit(Generator::testOut, x);
}
void reader(int ch, const vector<Tok>& t, bool cs, bool compare) {
	if (ch == GEN_INPUT) { char* av[] = {a0, nullptr}; InputValidator::init(1, av); Reader r{InputValidator::testIn, t, false, 0, compare}; r.run(); sim::ev("read all"); InputValidator::juryOut << "ok" << InputValidator::AC; }
	if (ch == GEN_ANSWER) { char* av[] = {a0, aIn, nullptr}; AnswerValidator::init(2, av); Reader r{AnswerValidator::ans, t, false, 0, compare}; r.run(); sim::ev("read all"); AnswerValidator::juryOut << "ok" << AnswerValidator::AC; }
	char* av[7] = {a0, aIn, aAns, aFb}; int ac = 4; if (ch == GEN_TEAM) av[ac++] = aSpace; if (cs) av[ac++] = aCase;
	OutputValidator::init(ac, av);
	bool fold = !cs;
	if (ch == STATE || ch == NEXTPASS) { Multipass::init(); if (Multipass::pass != 1) sim::violate("value", "%s: the pass number is %" PRId64, D.c_str(), (i64)Multipass::pass); }
	InputStream& in = ch == GEN_TEAM ? OutputValidator::teamAns : ch == GEN_JURYANS ? OutputValidator::juryAns : ch == STATE ? Multipass::prevstate : OutputValidator::testIn;
	if (ch == STATE) fold = false;
	Reader r{in, t, fold, 0, compare}; r.run(); sim::ev("read all"); OutputValidator::juryOut << "ok" << OutputValidator::AC;
}
bool strictChan(int ch) { return ch <= GEN_TEAM; }
void delivery() {
	sim::stdio_.chunkMode = choose(3); sim::stdio_.pipe = choose(2);
	sim::plan.shortRead = choose(2) ? 2 + choose(6) : 0; sim::plan.eintr = choose(3) ? 0 : 3;
}
void trip(bool faults) {
	int ch = (int)choose(faults ? 3 : NCHAN); bool cs = choose(2), big = choose(25) == 0;
	unsigned n = 1 + choose(8);
	vector<Item> items; vector<Tok> tok;
	for (unsigned i = 0; i < n; i++) {
		Item x = anItem(big && i == 0);
		if (x.tok[0].type == 'e' && !items.empty() && items.back().end != '\n') { items.back().end = '\n'; items.back().endHow = 1; items.back().tok.back().sep = tok.back().sep = '\n'; }
		if (i + 1 == n && x.end != '\n') { x.end = '\n'; x.tok.back().sep = '\n'; }
		for (auto& t : x.tok) tok.push_back(t);
		sim::probe(fmt("written %02d", x.how).c_str()); sim::sig((std::uint64_t)x.how);
		items.push_back(std::move(x));
	}
	sim::W->nontrivial = true;
	D = fmt("%s%s, %zu tokens", chanName[ch], cs ? " case sensitive" : "", tok.size());
	sim::ev("%s", D.c_str()); sim::sig((std::uint64_t)(ch * 2 + cs));
	sim::put("/sim/test.in", "1\n"); sim::put("/sim/test.ans", "1\n");
	if (ch >= STATE) sim::put("/sim/fb/.keep", "");
	bool wfault = faults && choose(4) == 0;
	sim::plan.shortWrite = choose(3) ? 0 : 2; sim::plan.eintr = choose(3) ? 0 : 3;
	if (choose(4) == 0) sim::stdio_.bufSize = 1 + choose(100);
	if (wfault) sim::plan.stdoutErr = (long)choose(3);
	auto st = sim::spawn([&] { writer(ch, items); }, sim::EXIT_REAL);
	sim::plan = sim::Plan{}; sim::stdio_ = sim::Stdio{};
	if (sim::W->violated) return;
	if (st.hang) BAD("hang", "the writer does not end");
	if (!wfault && !(st.exited && st.code == (ch >= STATE ? 42 : 0))) BAD("writer", "the writer ended with %d; stderr %s", st.shown(), sim::quote(sim::get("<stderr>")).c_str());
	string text = ch == STATE ? sim::get("/sim/fb/.state0") : ch == NEXTPASS ? sim::get("/sim/fb/nextpass.in") : sim::get("<stdout>");
	sim::evData("text", text.data(), text.size());
	string full = text; bool complete = !wfault; string what;
	if (wfault) {
		if (st.exited && st.code == 0 && text.size() && text.back() == '\n') { complete = true; what = "perhaps cut by the writer"; }   // decided below by a fault-free writer
		sim::Status s2 = sim::spawn([&] { sim::unlinkFile("<stdout>"); writer(ch, items); }, sim::EXIT_REAL); (void)s2;
		full = sim::get("<stdout>"); complete = full == text; what = fmt("the writer's output stopped after %zu of %zu bytes", text.size(), full.size());
		if (text != full.substr(0, text.size())) BAD("writer", "with a failing output the written bytes are not a prefix of the complete output");
		sim::probe(complete ? "failing output, nothing lost" : "failing output");
	} else if (faults) {
		vector<size_t> seps; for (size_t i = 0; i < text.size(); i++) if (text[i] == ' ' || text[i] == '\n') seps.push_back(i);
		size_t p = seps[choose((std::uint32_t)seps.size())];
		switch (choose(6)) {
			case 0: p = choose((std::uint32_t)text.size()); text.resize(p); what = fmt("cut after %zu of %zu bytes", p, full.size()); sim::fired(sim::F_CUT); sim::probe("cut"); break;
			case 1: what = fmt("separator at %zu lost", p); text.erase(p, 1); sim::probe("separator lost"); sim::fired(sim::F_CORRUPT); break;
			case 2: what = fmt("separator at %zu doubled", p); text.insert(p, 1, text[p]); sim::probe("separator doubled"); sim::fired(sim::F_CORRUPT); break;
			case 3: what = fmt("separator at %zu swapped", p); text[p] = text[p] == ' ' ? '\n' : ' '; sim::probe("separator swapped"); sim::fired(sim::F_CORRUPT); break;
			case 4: what = fmt("separator at %zu replaced", p); { static const char* const by[] = {"\t", "\r", "\v", "\f", "\r\n", " \n", "\n ", "\t ", ","}; text.replace(p, 1, by[choose(9)]); } sim::probe("separator replaced"); sim::fired(sim::F_CORRUPT); break;
			default: what = "more data at the end"; { static const char* const tail[] = {"\n", " ", "0\n", "\t", "\r\n"}; text += tail[choose(5)]; } sim::probe("more data"); sim::fired(sim::F_CORRUPT); break;
		}
		complete = false;
	}
	if (ch <= GEN_TEAM) sim::put("<stdin>", text);
	else { sim::put("<stdin>", "x\n"); if (ch == GEN_TESTIN || ch == NEXTPASS) sim::put("/sim/test.in", text); else if (ch == GEN_JURYANS) sim::put("/sim/test.ans", text); }
	sim::unlinkFile("<stdout>"); sim::unlinkFile("<stderr>");
	if (ch == NEXTPASS) sim::unlinkFile("/sim/fb/nextpass.in");
	delivery();
	if (!what.empty()) { D += ", " + what; sim::ev("%s", what.c_str()); }
	st = sim::spawn([&] { reader(ch, tok, cs, complete); }, sim::EXIT_REAL);
	if (sim::W->violated) return;
	if (st.hang) BAD("hang", "the reader does not end");
	if (complete && st.shown() != 42) BAD("refused", "the reader ended with %d; it says %s", st.shown(), sim::quote(sim::get("<stdout>") + sim::get("/sim/fb/judgemessage.txt")).c_str());
	if (!complete && st.shown() == 42) BAD("damaged-accepted", "the reader accepted the damaged data");
	sim::probe(fmt("%s: %d", chanName[ch], st.shown()).c_str());
}

// ---- graphs ---------------------------------------------------------------------------------------------------------
using namespace trip;
typedef void (*GraphReader)(const GraphPlan&, char*);
GraphReader graphReader() {   // called in the reading process only: the library's guards of the writer must not see the reader's half
	const char* p = std::getenv("SIM_BIN_RT_VAL"); void* h = p ? dlopen(p, RTLD_NOW | RTLD_LOCAL) : nullptr;
	if (!h) { std::fprintf(stderr, "%s\n", p ? dlerror() : "SIM_BIN_RT_VAL is not set"); std::abort(); }
	return (GraphReader)dlsym(h, "rtReadGraph");
}
template<typename E> void setData(E& d, int k) { if constexpr (std::is_same_v<E, Integer>) d = k; else if constexpr (std::is_same_v<E, std::pair<Integer, Integer>>) d = {k, -k}; }
struct Family { const char* name; int prop; };
template<typename E, bool DIR> GraphDetail::GraphType<E, DIR> make(int f, i64 n, i64 m, string& name, int& prop) {
	using G = GraphDetail::GraphType<E, DIR>;
	const int tree = DIR ? DAG | OUTTREE | SIMPLE : TREE | FOREST | CONNECTED | BIPARTITE | SIMPLE;
	switch (f) {
		default: name = fmt("randomTree(%" PRId64 ")", n); prop = tree; return randomTree<E, DIR>(n);
		case 1: name = fmt("path(%" PRId64 ")", n); prop = tree; return path<E, DIR>(n);
		case 2: name = fmt("star(%" PRId64 ")", n); prop = tree; return star<E, DIR>(n);
		case 3: { i64 k = 1 + m % 4, l = 2 + n % 5; name = fmt("completeTree(%" PRId64 ",%" PRId64 ")", l, k); prop = tree; return completeTree<E, DIR>(l, k); }
		case 4: { i64 k = n % 30; name = fmt("clique(%" PRId64 ")", k); prop = (DIR ? DAG : 0) | SIMPLE; if (!DIR && k) prop |= CONNECTED; return clique<E, DIR>(k); }
		case 5: { i64 a = 1 + n % 15, b = 1 + m % 15; name = fmt("bipartite(%" PRId64 ",%" PRId64 ")", a, b); prop = DIR ? DAG | SIMPLE : CONNECTED | BIPARTITE | SIMPLE; return bipartite<E, DIR>(a, b); }
		case 6: { i64 a = 1 + n % 60; i64 mm = m % (a * (a - 1) / 2 + 1); name = fmt("randomGraph(%" PRId64 ",%" PRId64 ")", a, mm); prop = SIMPLE; return randomGraph<E, DIR>(a, (Integer)mm); }
		case 7: { name = fmt("independent(%" PRId64 ")", n); prop = DIR ? DAG | SIMPLE : FOREST | BIPARTITE | SIMPLE; return independent<E, DIR>(n); }
		case 8: { i64 l = n % 7; name = fmt("booleanLattice(%" PRId64 ")", l); prop = DIR ? DAG | SIMPLE : CONNECTED | BIPARTITE | SIMPLE; return booleanLattice<E, DIR>(l); }
		case 9: { i64 k = 3 + n % 100; name = fmt("cycle(%" PRId64 ")", k); prop = SIMPLE; if (!DIR) prop |= CONNECTED | (k % 2 ? 0 : BIPARTITE); return cycle<E, DIR>(k); }
		case 10: { i64 a = 1 + n % 20, b = 1 + m % 20; name = fmt("randomBipartite(%" PRId64 ",%" PRId64 ",p)", a, b); prop = DIR ? SIMPLE : BIPARTITE | SIMPLE; return randomBipartite<E, DIR>(a, b, (Real)(m % 11) / 10); }
		case 11: if constexpr (!DIR) { i64 a = 1 + n % 12, b = 1 + m % 12; name = fmt("grid(%" PRId64 ",%" PRId64 ")", a, b); prop = CONNECTED | BIPARTITE | SIMPLE; return grid<E>(a, b); } else return make<E, DIR>(0, n, m, name, prop);
		case 12: if constexpr (!DIR) { i64 d = n % 7; name = fmt("hypercube(%" PRId64 ")", d); prop = CONNECTED | BIPARTITE | SIMPLE; return hypercube<E>(d); } else return make<E, DIR>(0, n, m, name, prop);
		case 13: if constexpr (!DIR) { i64 p = 1 + n % 30, l = 1 + m % 30; name = fmt("broom(%" PRId64 ",%" PRId64 ")", p, l); prop = tree; return broom<E>(p, l); } else return make<E, DIR>(0, n, m, name, prop);
		case 14: if constexpr (!DIR) { i64 o = 3 + n % 60; name = fmt("wheel(%" PRId64 ")", o); prop = CONNECTED | SIMPLE; return wheel<E>(o); } else return make<E, DIR>(0, n, m, name, prop);
	}
}
template<typename E, bool DIR> void graphWriter(int f, i64 n, i64 m, int ops, int how, std::uint64_t seed) {
	char* av[] = {a0, nullptr};
	Generator::init(1, av); Random::seed(seed);
	string name; int prop = 0;
	auto g = make<E, DIR>(f, n, m, name, prop);
	if (ops & 1) g.permutate();
	if (ops & 2) g.permutateEdges();
	int c = 0; for (auto&& e : g.getEdges()) { (void)e; if constexpr (!std::is_same_v<E, NoData>) setData<E>(*e, ++c); }
	string rec = fmt("%s%s%s%s\n%d %" PRId64 " %" PRId64 "\n", DIR ? "directed " : "", name.c_str(), ops & 1 ? ".permutate()" : "", ops & 2 ? ".permutateEdges()" : "", prop, (i64)g.nodeCount(), (i64)g.edgeCount());
	for (const auto& e : std::as_const(g).getEdges()) { rec += fmt("%" PRId64 " %" PRId64, (i64)e.from, (i64)e.to); if constexpr (std::is_same_v<E, Integer>) rec += fmt(" %" PRId64, (i64)*e); if constexpr (std::is_same_v<E, std::pair<Integer, Integer>>) rec += fmt(" %" PRId64 " %" PRId64, (i64)(*e).first, (i64)(*e).second); rec += "\n"; }
	sim::put("/model/graph", rec);
	using Generator::testOut;
	switch (how) {
		case 0: testOut << g << std::endl; break;
		case 1: testOut << g << '\n'; break;
		default: testOut << g.nodeCount() << " " << g.edgeCount() << std::endl; for (const auto& e : std::as_const(g).getEdges()) testOut << e << '\n'; break;
	}
}
void graphs(bool faults) {
	if (!std::getenv("SIM_BIN_RT_VAL")) { sim::W->harnessError = true; return; }
	int f = (int)choose(17), data = (int)choose(3), dir = (int)choose(2), ops = (int)choose(4), how = (int)choose(3);
	i64 n = 1 + choose(choose(8) == 0 ? 2000 : 12), m = choose(choose(4) == 0 ? 2000 : 12); std::uint64_t seed = choose(1000000);
	sim::W->nontrivial = true; sim::sig((std::uint64_t)(f * 100 + data * 10 + dir * 4 + ops)); sim::sig((std::uint64_t)n);
	sim::plan.shortWrite = choose(3) ? 0 : 2;
	D = "graph generator";
	auto st = sim::spawn([&] {
		if (dir) { if (data == 0) graphWriter<NoData, true>(f, n, m, ops, how, seed); else if (data == 1) graphWriter<Integer, true>(f, n, m, ops, how, seed); else graphWriter<std::pair<Integer, Integer>, true>(f, n, m, ops, how, seed); }
		else { if (data == 0) graphWriter<NoData, false>(f, n, m, ops, how, seed); else if (data == 1) graphWriter<Integer, false>(f, n, m, ops, how, seed); else graphWriter<std::pair<Integer, Integer>, false>(f, n, m, ops, how, seed); }
	}, sim::EXIT_REAL);
	sim::plan = sim::Plan{};
	if (st.hang) BAD("hang", "the generator does not end");
	string rec = sim::get("/model/graph"), text = sim::get("<stdout>");
	if (rec.empty() || !(st.exited && st.code == 0)) BAD("writer", "the generator ended with %d; stderr %s", st.shown(), sim::quote(sim::get("<stderr>")).c_str());
	size_t nl = rec.find('\n'); D = rec.substr(0, nl);
	sim::ev("%s", D.c_str());
	int prop = atoi(rec.c_str() + nl + 1); bool complete = true;
	vector<vector<long long>> want; { std::istringstream is(rec.substr(nl + 1)); string l; while (std::getline(is, l)) { std::istringstream ls(l); vector<long long> r; long long v; if (want.empty()) ls >> v; while (ls >> v) r.push_back(v); want.push_back(r); } }
	if (want[0][0] == 0) prop &= SIMPLE | DAG | FOREST | BIPARTITE;
	if (faults) { size_t p = choose((std::uint32_t)text.size()); if (choose(2)) { text.resize(p); D += fmt(", cut after %zu bytes", p); sim::fired(sim::F_CUT); } else { size_t q = text.find('\n', p); text.erase(q, 1); D += fmt(", newline at %zu lost", q); sim::fired(sim::F_CORRUPT); } complete = false; sim::ev("%s", D.c_str()); }
	sim::evData("text", text.data(), text.size());
	sim::put("<stdin>", text); sim::unlinkFile("<stdout>");
	delivery();
	auto norm = [&](vector<vector<long long>> v) { for (size_t i = 1; i < v.size(); i++) if (!dir && v[i][0] > v[i][1]) std::swap(v[i][0], v[i][1]); std::sort(v.begin() + 1, v.end()); return v; };
	GraphPlan p{prop, (int)choose(2), data, dir != 0, [&](const vector<vector<long long>>& got) {
		if (!complete) return;
		if (got.size() != want.size()) BAD("value", "%zu edges read instead of %zu", got.size() - 1, want.size() - 1);
		if (norm(got) != norm(want)) BAD("value", "the edges read back differ from the edges of the graph");
		sim::probe("graph read back");
	}, [&](const string& s) { sim::ev("%s", s.c_str()); }};
	st = sim::spawn([&] { char* av[] = {a0, nullptr}; Generator::init(1, av); graphReader()(p, a0); }, sim::EXIT_REAL);
	if (sim::W->violated) return;
	if (st.hang) BAD("hang", "the reader does not end");
	if (complete && st.shown() != 42) BAD("graph-refused", "the graph validator ended with %d; it says %s", st.shown(), sim::quote(sim::get("<stdout>")).c_str());
	if (!complete && st.shown() == 42) BAD("damaged-accepted", "the graph validator accepted the damaged data");
	sim::probe(fmt("graph %s %d", dir ? "directed" : "undirected", st.shown()).c_str());
}
sim::Register r1("trip", [] { trip(false); }), r2("trip-faults", [] { trip(true); }), r3("graph-trip", [] { graphs(false); }), r4("graph-trip-faults", [] { graphs(true); });
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
