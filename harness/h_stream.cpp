// Whole validator processes (every role) on the simulated machine, against a small executable model.
#include "../sim/core.h"
#include <cstdlib>
// SIM_ALT: the same program built with every compile time setting overridden, as the documentation describes
#ifdef SIM_ALT
static bool throwVerdict = false;   // the way out that the comment in the header suggests first
namespace Settings {
	constexpr bool DEFAULT_CASE_LOWER = false;
	constexpr int DEFAULT_PRECISION = 3;
	constexpr long double DEFAULT_EPS = 1e-3L;
	[[noreturn]] void exitVerdict(int exitCode) {
		sim::W->user = 1;
		if (throwVerdict) throw exitCode;
		std::exit(exitCode);
	}
}
#define DOUBLE_FALLBACK
#endif
#include REPO_VALIDATE
#include <cerrno>
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <optional>
#include <set>
#include <sstream>

using sim::choose;
using sim::chance;
using sim::fmt;
using std::string;
using std::vector;

#include "preds.h"
namespace {
enum Role { IV, AV, OV, INT };
const char* const roleName[] = {"input", "answer", "output", "interactor"};
enum StreamId { TESTIN, JURY, TEAM };
const char* const streamName[] = {"testIn", "juryAns", "team"};

enum Kind {
	STR, STR_LEN, STR_LEN_C, STR_PAT, STR_PAT_LEN, STR_PAT_LEN_C, STRS, STRS_LEN, STRS_LEN_C, STRS_PAT, STRS_PAT_LEN, STRS_PAT_LEN_C,
	INTEG, INT_B, INT_BC, INTS, INTS_B, INTS_BC, REAL, REAL_B, REAL_BC, REALS, REALS_B, REALS_BC,
	RSTRICT, RSTRICT_C, RSTRICTS, RSTRICTS_C, EXP_STR, EXP_INT, EXP_REAL, K_SPACE, K_NEWLINE, K_EOF, K_NOTEOF,
	W_JURY, W_TEAM, W_ERR, W_OUT, K_CLOG_INT, K_CLOG_REAL, K_CLOG_SIZE, K_CMENTION, K_FEQ, K_FLT, K_FGT, K_SEQ, K_PRED, W_OWN, KIND_COUNT
};
const char* const kindName[] = {
	"string", "string(len)", "string(len,c)", "string(pat)", "string(pat,len)", "string(pat,len,c)", "strings", "strings(len)", "strings(len,c)", "strings(pat)", "strings(pat,len)", "strings(pat,len,c)",
	"integer", "integer(b)", "integer(b,c)", "integers", "integers(b)", "integers(b,c)", "real", "real(b)", "real(b,c)", "reals", "reals(b)", "reals(b,c)",
	"realStrict", "realStrict(c)", "realsStrict", "realsStrict(c)", "expectString", "expectInt", "expectReal", "space", "newline", "eof", "noteof",
	"write jury", "write team", "write err", "write out", "constraint.log(int)", "constraint.log(real)", "constraint.log(container)", "constraint[name]", "floatEqual", "floatLess", "floatGreater", "stringEqual", "predicate", "write own file"};

struct Write { int kind; std::int64_t i; long double r; string s; int n; char sep; };
struct Op {
	Kind k; StreamId st = TEAM;
	std::int64_t lo = 0, hi = 0; long double rlo = 0, rhi = 0; int dmin = 0, dmax = 0;
	int pat = 0; std::int64_t count = 0; char sep = ' '; string s; string cname; vector<Write> ws;
};

// ---- patterns with hand-written matchers ---------------------------------------
bool isAl(char c, char a, char b) { return c >= a && c <= b; }
struct Pat { const char* re; bool (*match)(const string&, bool icase); const char* sample[3]; };
char lc(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
#ifdef SIM_ALT
constexpr bool ALT = true;
constexpr int PREC = 3;
constexpr long double EPS = 1e-3L;
char fold(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
#else
constexpr bool ALT = false;
constexpr int PREC = 6;
constexpr long double EPS = 1e-6L;
char fold(char c) { return lc(c); }
#endif
const Pat pats[] = {
	{"[a-z]+", [](const string& t, bool ic) { for (char c : t) if (!isAl(ic ? lc(c) : c, 'a', 'z')) return false; return !t.empty(); }, {"abc", "q", "zebra"}},
	{"[01]{1,5}", [](const string& t, bool) { for (char c : t) if (c != '0' && c != '1') return false; return t.size() >= 1 && t.size() <= 5; }, {"0", "10101", "111"}},
	{"(ab)*", [](const string& t, bool ic) { if (t.size() % 2) return false; for (size_t i = 0; i < t.size(); i++) if ((ic ? lc(t[i]) : t[i]) != (i % 2 ? 'b' : 'a')) return false; return true; }, {"ab", "abab", "ababab"}},
	{"yes|no", [](const string& t, bool ic) { string u = t; if (ic) for (char& c : u) c = lc(c); return u == "yes" || u == "no"; }, {"yes", "no", "yes"}},
	{"[A-Z][a-z]*", [](const string& t, bool ic) { if (t.empty()) return false; if (!isAl(ic ? char(lc(t[0]) - 32) : t[0], 'A', 'Z')) return false; for (size_t i = 1; i < t.size(); i++) if (!isAl(ic ? lc(t[i]) : t[i], 'a', 'z')) return false; return true; }, {"Abc", "Q", "Zebra"}},
	{"[^x]*", [](const string& t, bool ic) { for (char c : t) if ((ic ? lc(c) : c) == 'x') return false; return true; }, {"hello", "1.5", "-"}},
};
const int NPAT = sizeof pats / sizeof *pats;

// ---- configuration of a run -----------------------------------------------------
struct Cfg {
	Role role = OV;
	bool allReads = true;       // typed reads
	bool onlyTokens = false;
	bool writes = false, constraints = false, diag = false, flags = false, compare = false;
	int faultMode = 0;          // 0 none, 1 hard read/alloc/open faults, 2 write faults
	bool rawBytes = false;
	int mutate = 3;             // 1/n chance of mutation
	unsigned maxOps = 9;
	bool longLines = false;
	bool preds = false;         // the verdict depends on predicates of what was read
};
struct Run {
	Cfg c;
	vector<string> args;
	bool preCase = false, preSpace = false, setCase = false, setSpace = false, setAbs = false, setRel = false;
	long double preAbs = 0, preRel = 0;
	// effective settings
	bool caseS = false, spaceS = false;
	long double absTol = EPS, relTol = EPS;
	bool initFails = false; string initWhy;
	bool constraintsFile = false;
	bool keepRefs = false;      // the judge keeps the constraint references it got
	int ownLog = 0;             // the judge logs into a logger it makes itself (2: moved, 3: replaced by assignment)
	int longStream = -1;        // stream holding a token of more than 20000 characters
	// streams which the judge has made itself
	struct Own { bool on = false, strict = false, cas = false, tol = false; int src = 0, code = 43; long double abs = EPS, rel = EPS; } own[3];   // src: 0 file, 1 stdin, 2 string
	bool strictOf(int s) const { return own[s].on ? own[s].strict : s == TEAM && spaceS; }
	bool caseOf(int s) const { return own[s].on ? own[s].cas : caseS; }
	long double absOf(int s) const { return own[s].on ? own[s].abs : s == TEAM ? absTol : EPS; }
	long double relOf(int s) const { return own[s].on ? own[s].rel : s == TEAM ? relTol : EPS; }
	int codeOf(int s) const { return own[s].on ? own[s].code : s == TEAM ? 43 : 1; }
	string data[3];
	vector<Op> ops;
	int ownMode = -1;           // an output file which the judge has opened itself
	int verdict = 0; int verdictVia = 0;   // 0 jury, 1 team, 2 exit(), 3 return from main
};

// ---- the model -------------------------------------------------------------------
bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool graph(unsigned char c) { return c > 32 && c < 127; }
struct Bound { bool real = false; int type = 0; bool hadMin = false, hadMax = false; long double rmin = 0, rmax = 0, rlo = 0, rhi = 0; std::int64_t imin = 0, imax = 0, ilo = 0, ihi = 0; bool used = false; };
struct MFail { bool failed = false; string what; bool loc = false; size_t a = 0, b = 0; vector<string> mention; bool fromNoteof = false; };
struct Model {
	Run& r;
	size_t pos[3] = {0, 0, 0};
	string data[3];
	string hist;
	vector<Integer> LI; vector<string> LS; bool refuted = false;   // what was read last, did a predicate fail
	MFail fail; int failStream = -1;
	bool ambiguous = false, aborted = false; string abortWhy;
	vector<string> cnames; std::map<string, Bound> cb;
	string jury, team, err, out, mineOut;     // explicit writes
	size_t failOp = 0;
	explicit Model(Run& r_) : r(r_) { for (int i = 0; i < 3; i++) data[i] = r_.data[i]; }

	bool strict(int s) const { return r.strictOf(s); }
	bool lower(int s) const { return !r.caseOf(s); }
	bool stop() const { return fail.failed || aborted || ambiguous; }
	void bad(int s, const string& w, size_t a, size_t b, bool loc, vector<string> m = {}) { fail = {true, w, loc, a, b, m}; failStream = s; }
	void skip(int s) { if (!strict(s)) while (pos[s] < data[s].size() && ws(data[s][pos[s]])) pos[s]++; }
	bool noteof(int s) { skip(s); if (pos[s] >= data[s].size()) { bad(s, "Unexpected EOF", 0, 0, false); return false; } return true; }
	void eof(int s) { skip(s); if (pos[s] < data[s].size()) { size_t a = pos[s], b = a + 1; if (graph(data[s][a])) while (b < data[s].size() && !ws(data[s][b])) b++; bad(s, "Missing EOF", a, b, true); } }
	void sepc(int s, char c) {
		if (!strict(s)) return;
		if (!noteof(s)) return;
		size_t a = pos[s]++;
		if (data[s][a] != c) { size_t b = a + 1; if (graph(data[s][a])) while (b < data[s].size() && !ws(data[s][b])) b++; bad(s, c == ' ' ? "Missing space" : "Missing newline", a, b, true); }
	}
	bool token(int s, string& t, size_t& a, size_t& b) {
		if (!noteof(s)) return false;
		if (strict(s) && !graph(data[s][pos[s]])) { a = pos[s]++; bad(s, "Invalid whitespace", a, a + 1, true); return false; }
		a = pos[s];
		while (pos[s] < data[s].size() && !ws(data[s][pos[s]])) pos[s]++;
		b = pos[s];
		t = data[s].substr(a, b - a);
		if (lower(s)) for (char& c : t) c = fold(c);
		return true;
	}
	static bool intToken(const string& t) {
		if (t == "0") return true;
		size_t i = t[0] == '-' ? 1 : 0;
		if (i >= t.size() || t[i] < '1' || t[i] > '9') return false;
		for (i++; i < t.size(); i++) if (t[i] < '0' || t[i] > '9') return false;
		return true;
	}
	static bool intParse(const string& t, std::int64_t& v) {
		bool neg = t[0] == '-';
		unsigned __int128 x = 0;
		for (size_t i = neg; i < t.size(); i++) { x = x * 10 + (t[i] - '0'); if (x > ((unsigned __int128)1 << 63)) return false; }
		if (!neg && x >= ((unsigned __int128)1 << 63)) return false;
		v = neg ? (std::int64_t)(0 - (std::uint64_t)x) : (std::int64_t)x;
		return true;
	}
	static bool realToken(const string& t) {
		size_t i = 0, n = t.size();
		if (i < n && (t[i] == '+' || t[i] == '-')) i++;
		size_t d1 = 0, d2 = 0; bool dot = false;
		while (i < n && isAl(t[i], '0', '9')) { i++; d1++; }
		if (i < n && t[i] == '.') { dot = true; i++; while (i < n && isAl(t[i], '0', '9')) { i++; d2++; } }
		if (d1 + d2 == 0) return false;
		(void)dot;
		if (i < n && (t[i] == 'e' || t[i] == 'E')) {
			i++;
			if (i < n && (t[i] == '+' || t[i] == '-')) i++;
			size_t d = 0;
			while (i < n && isAl(t[i], '0', '9')) { i++; d++; }
			if (!d) return false;
		}
		return i == n;
	}
	static bool realParse(const string& t, long double& v) {
		errno = 0;
		v = strtold(t.c_str(), nullptr);
		if (errno == ERANGE && (std::isinf(v) || v == 0)) return false;
		return true;
	}
	static bool strictToken(const string& t) {
		size_t i = 0, n = t.size();
		if (i < n && t[i] == '-') i++;
		if (i >= n) return false;
		if (t[i] == '0') i++;
		else if (isAl(t[i], '1', '9')) while (i < n && isAl(t[i], '0', '9')) i++;
		else return false;
		if (i < n && t[i] == '.') { i++; while (i < n && isAl(t[i], '0', '9')) i++; }
		return i == n;
	}
	int feq(long double x, long double y, long double at, long double rt) {    // 1 yes, 0 no, -1 too close to call
		if (std::isfinite(x) && std::isfinite(y)) {
			long double d = fabsl(x - y), q = fabsl((x - y) / y);
			auto close = [](long double v, long double t) { return v != t && std::isfinite(v) && fabsl(v - t) <= 1e-14L * t; };
			bool A = d <= at, B = q <= rt;
			if (close(d, at) && !B) return -1;
			if (close(q, rt) && !A) return -1;
			return A || B;
		}
		if (std::isnan(x) && std::isnan(y)) return 1;
		if (std::isinf(x) && std::isinf(y)) return std::signbit(x) == std::signbit(y);
		return 0;
	}
	void clog(const string& name, bool real, int type, std::int64_t lo, std::int64_t hi, std::int64_t v, long double rlo, long double rhi, long double rv) {
		if (std::find(cnames.begin(), cnames.end(), name) == cnames.end()) cnames.push_back(name);
		Bound& b = cb[name];
		if (b.used && b.type != type) { aborted = true; abortWhy = "constraint type changed"; return; }
		if (!real) {
			hi--;
			if (!b.used) { b.real = false; b.imin = b.imax = v; b.ilo = lo; b.ihi = hi; }
			b.hadMin |= v == lo; b.hadMax |= v == hi;
			b.imin = std::min(b.imin, v); b.imax = std::max(b.imax, v); b.ilo = std::min(b.ilo, lo); b.ihi = std::max(b.ihi, hi);
		} else {
			if (!b.used) { b.real = true; b.rmin = b.rmax = rv; b.rlo = rlo; b.rhi = rhi; }
			int p = feq(rv, rlo, EPS, EPS), q = feq(rv, rhi, EPS, EPS);
			if (p < 0 || q < 0) ambiguous = true;
			b.hadMin |= p == 1; b.hadMax |= q == 1;
			b.rmin = std::min(b.rmin, rv); b.rmax = std::max(b.rmax, rv); b.rlo = std::min(b.rlo, rlo); b.rhi = std::max(b.rhi, rhi);
		}
		b.used = true; b.type = type;
	}
	void mentionName(const string& n) { if (!n.empty() && std::find(cnames.begin(), cnames.end(), n) == cnames.end()) { cnames.push_back(n); cb[n]; } }

	static vector<string> reals(const vector<long double>& v) { vector<string> r; for (long double x : v) if (fabsl(x) < 1e30L) r.push_back(fmt("%.*Lf", PREC, x)); return r; }
	static bool badSep(const Op& o) { return o.sep != ' ' && o.sep != '\n'; }
	bool readString(const Op& o, string& t, bool len, bool pat) {
		size_t a, b;
		if (!token(o.st, t, a, b)) return false;
		if (len && ((std::int64_t)t.size() < o.lo || (std::int64_t)t.size() >= o.hi)) { bad(o.st, "String length", a, b, true, {std::to_string(t.size())}); return false; }
		if (pat && !pats[o.pat].match(t, o.sep == 'i')) { bad(o.st, "does not match", a, b, true, {t}); return false; }
		return true;
	}
	bool readInt(const Op& o, std::int64_t& v, bool bnd) {
		string t; size_t a, b;
		if (!token(o.st, t, a, b)) return false;
		if (!intToken(t)) { bad(o.st, "does not match", a, b, true, {t}); return false; }
		if (!intParse(t, v)) { bad(o.st, "Could not parse", a, b, true, {t}); return false; }
		if (bnd && (v < o.lo || v >= o.hi)) { bad(o.st, "out of range", a, b, true, {std::to_string(v), std::to_string(o.lo), std::to_string(o.hi)}); return false; }
		return true;
	}
	bool readReal(const Op& o, long double& v, bool bnd, size_t* pa = nullptr, size_t* pb = nullptr) {
		string t; size_t a, b;
		if (!token(o.st, t, a, b)) return false;
		if (pa) { *pa = a; *pb = b; }
		if (!realToken(t)) { bad(o.st, "does not match", a, b, true, {t}); return false; }
		if (!realParse(t, v)) { bad(o.st, "Could not parse", a, b, true, {t}); return false; }
		if (bnd) {
			long double at = r.absOf(o.st), rt = r.relOf(o.st);
			int p = feq(v, o.rlo, at, rt), q = feq(v, o.rhi, at, rt);
			if (p == 1 || q == 1) return true;
			if (p < 0 || q < 0) { ambiguous = true; return false; }
			if (!(v >= o.rlo) || !(v < o.rhi)) { bad(o.st, "out of range", a, b, true, reals({v, o.rlo, o.rhi})); return false; }
		}
		return true;
	}
	bool readStrict(const Op& o, long double& v) {
		string t; size_t a, b;
		if (!token(o.st, t, a, b)) return false;
		if (!strictToken(t)) { bad(o.st, "does not match", a, b, true, {t}); return false; }
		size_t d = t.find('.');
		std::int64_t dec = d == string::npos ? 0 : (std::int64_t)(t.size() - d - 1);
		if (dec < o.dmin || dec >= o.dmax) { bad(o.st, "decimals", a, b, true, {t}); return false; }
		if (!realParse(t, v)) { bad(o.st, "Could not parse", a, b, true, {t}); return false; }
		if (!(v >= o.rlo) || !(v < o.rhi)) { bad(o.st, "out of range", a, b, true, reals({v, o.rlo, o.rhi})); return false; }
		return true;
	}
	static string glue(char sep) { return sep ? string(1, sep) : string(); }
	static string fm(const Write& w) {
		char b[160];
		switch (w.kind) {
			case 0: return std::to_string(w.i);
			case 1: std::snprintf(b, sizeof b, "%.*Lf", PREC, w.r); return b;
			case 2: return w.i & 1 ? "true" : "false";
			case 3: return w.s;
			case 4: return std::to_string(w.i) + " " + w.s;
			case 5: std::snprintf(b, sizeof b, " %.*Lf ", PREC, w.r); return std::to_string(w.i) + b + (w.i & 1 ? "true" : "false");
			case 6: { string x; for (int k = 0; k < w.n; k++) x += (k ? " " : "") + std::to_string(w.i + k); return x; }
			case 7: return "\n";
			case 8: { string x; for (int k = 0; k < w.n; k++) x += (k ? glue(w.sep) : "") + std::to_string(w.i + k); return x; }
			case 9: return string((size_t)w.n, w.s.empty() ? 'q' : w.s[0]);
			case 10: { string x; for (int k = 0; k < w.n; k++) x += (k ? " " : "") + std::to_string(w.i + k) + " " + w.s; return x; }
			case 11: { std::snprintf(b, sizeof b, "%.*f", PREC, (double)w.r); return b; }
			case 12: { std::snprintf(b, sizeof b, " %.*Lf", PREC, w.r); return w.s + " " + std::to_string(w.i) + b; }
			case 13: case 14: { std::snprintf(b, sizeof b, "%.*Lf", PREC, w.r); return std::to_string(w.i) + glue(w.sep) + w.s + glue(w.sep) + b; }
			case 15: { string x; for (size_t k = 0; k < w.s.size(); k++) x += (k ? glue(w.sep) : "") + w.s[k]; return x; }
			case 16: { string x; for (int k = 0; k < w.n; k++) x += (k ? glue(w.sep) : "") + std::to_string(w.i + k) + " " + w.s; return x; }
			case 17: { string x; for (int k = 0; k < 3; k++) x += (k ? glue(w.sep) : "") + std::to_string(w.i + k); return x; }
			case 18: { string x = "["; for (int k = 0; k < w.n; k++) x += (k ? glue(w.sep) : "") + std::to_string(w.i + k); return x + "]"; }
			case 19: { string x; for (int k = 0; k < w.n; k++) for (int l = 0; l < 2; l++) x += (l ? " " : k ? glue(w.sep) : "") + ((w.i + k + l) % 2 ? "true" : "false"); return x; }
			case 20: { std::snprintf(b, sizeof b, "%.*Lf", w.n, w.r); string x = b; std::snprintf(b, sizeof b, " %.*Lf", PREC, w.r); return x + b; }
			case 22: { string x; for (int k = 0; k < w.n; k++) x += (k ? glue(w.sep) : "") + std::to_string(w.i + k) + " " + w.s; return x + "|" + x + "|" + x + x; }
			case 23: { string x = std::to_string(w.i) + glue(w.sep) + w.s + glue(w.sep) + (w.i & 1 ? "true" : "false"); return x + x + x; }
			case 24: { string x = std::to_string(w.i) + glue(w.sep) + std::to_string(w.i + 1) + glue(w.sep) + std::to_string(w.i + 2); return x + " " + x + string("a") + glue(w.sep) + "bc" + string("d") + glue(w.sep) + "e" + glue(w.sep) + "f"; }
			case 25: { string x; for (int k = 0; k < w.n; k++) x += (k ? " " : "") + std::to_string(w.i) + " " + w.s + " " + std::to_string(w.i + k) + " " + (k % 2 ? "true" : "false"); return x; }
			case 26: { std::snprintf(b, sizeof b, "%*x|%d|%05d|", w.n + 3, (unsigned)(std::uint32_t)w.i, (int)(std::int16_t)w.i, (int)(std::uint8_t)w.i); return b; }
			case 21: return std::to_string((int)(std::int32_t)w.i) + "c" + std::to_string((std::uint64_t)w.i) + "lit" + std::to_string((int)(std::int16_t)w.i);
			default: return "";
		}
	}
	void run() {
		auto add = [&](const string& s) { hist += s; hist += '\n'; };
		for (size_t i = 0; i < r.ops.size() && !stop(); i++) {
			const Op& o = r.ops[i];
			failOp = i;
			switch (o.k) {
				case STR: case STR_LEN: case STR_LEN_C: case STR_PAT: case STR_PAT_LEN: case STR_PAT_LEN_C: {
					string t;
					bool c = o.k == STR_LEN_C || o.k == STR_PAT_LEN_C;
					if (c) mentionName(o.cname);
					if (readString(o, t, o.k != STR && o.k != STR_PAT, o.k >= STR_PAT)) {
						if (c) { clog(o.cname, false, 2, o.lo, o.hi, (std::int64_t)t.size(), 0, 0, 0); if (aborted) break; }
						LS = {t}; add(fmt("%zu s ", i) + t);
					}
					break;
				}
				case STRS: case STRS_LEN: case STRS_LEN_C: case STRS_PAT: case STRS_PAT_LEN: case STRS_PAT_LEN_C: {
					vector<string> vs; string all; bool c = o.k == STRS_LEN_C || o.k == STRS_PAT_LEN_C; bool ok = true;
					if (c) mentionName(o.cname);
					if (badSep(o)) { aborted = true; break; }
					Op p = o; p.sep = 0;
					for (std::int64_t j = 0; j < o.count && ok; j++) {
						string t;
						ok = readString(p, t, o.k != STRS && o.k != STRS_PAT, o.k >= STRS_PAT);
						if (ok && c) { clog(o.cname, false, 2, o.lo, o.hi, (std::int64_t)t.size(), 0, 0, 0); if (aborted) ok = false; }
						if (ok) { if (r.c.preds) vs.push_back(t); all += t + "|"; if (j + 1 < o.count) { sepc(o.st, o.sep); ok = !stop(); } }
					}
					if (ok) { LS = vs; add(fmt("%zu S %" PRId64 " ", i, o.count) + all); }
					break;
				}
				case INTEG: case INT_B: case INT_BC: {
					std::int64_t v;
					if (o.k == INT_BC) mentionName(o.cname);
					if (readInt(o, v, o.k != INTEG)) {
						if (o.k == INT_BC) { clog(o.cname, false, 0, o.lo, o.hi, v, 0, 0, 0); if (aborted) break; }
						LI = {v}; add(fmt("%zu i %" PRId64, i, v));
					}
					break;
				}
				case INTS: case INTS_B: case INTS_BC: {
					vector<Integer> vi; string all; bool ok = true;
					if (o.k == INTS_BC) mentionName(o.cname);
					if (badSep(o)) { aborted = true; break; }
					for (std::int64_t j = 0; j < o.count && ok; j++) {
						std::int64_t v;
						ok = readInt(o, v, o.k != INTS);
						if (ok && o.k == INTS_BC) { clog(o.cname, false, 0, o.lo, o.hi, v, 0, 0, 0); if (aborted) ok = false; }
						if (ok) { if (r.c.preds) vi.push_back(v); all += std::to_string(v) + "|"; if (j + 1 < o.count) { sepc(o.st, o.sep); ok = !stop(); } }
					}
					if (ok) { LI = vi; add(fmt("%zu I %" PRId64 " ", i, o.count) + all); }
					break;
				}
				case REAL: case REAL_B: case REAL_BC: case RSTRICT: case RSTRICT_C: {
					long double v;
					bool c = o.k == REAL_BC || o.k == RSTRICT_C;
					if (c) mentionName(o.cname);
					if (o.k >= RSTRICT ? readStrict(o, v) : readReal(o, v, o.k != REAL)) {
						if (c) { clog(o.cname, true, 1, 0, 0, 0, o.rlo, o.rhi, v); if (stop()) break; }
						add(fmt("%zu r %La", i, v));
					}
					break;
				}
				case REALS: case REALS_B: case REALS_BC: case RSTRICTS: case RSTRICTS_C: {
					string all; bool ok = true; bool c = o.k == REALS_BC || o.k == RSTRICTS_C;
					if (c) mentionName(o.cname);
					if (badSep(o)) { aborted = true; break; }
					for (std::int64_t j = 0; j < o.count && ok; j++) {
						long double v;
						ok = o.k >= RSTRICTS ? readStrict(o, v) : readReal(o, v, o.k != REALS);
						if (ok && c) { clog(o.cname, true, 1, 0, 0, 0, o.rlo, o.rhi, v); if (stop()) ok = false; }
						if (ok) { all += fmt("%La|", v); if (j + 1 < o.count) { sepc(o.st, o.sep); ok = !stop(); } }
					}
					if (ok) add(fmt("%zu R %" PRId64 " ", i, o.count) + all);
					break;
				}
				case EXP_STR: {
					string t; size_t a, b;
					if (o.s.find_first_of(" \t\n\v\f\r") != string::npos || o.s.empty()) { aborted = true; break; }
					if (!token(o.st, t, a, b)) break;
					string e = o.s; if (lower(o.st)) for (char& c : e) c = fold(c);
					if (t != e) {
						size_t d = 0;
						while (d < t.size() && d < e.size() && t[d] == e[d]) d++;
						vector<string> must;
						if (t.size() < 20 && o.s.size() < 20) must.push_back("\"" + o.s + "\" but got \"" + t + "\"");
						for (const string* x : {&o.s, (const string*)&t}) if (d < x->size()) { size_t f = d < 2 ? 0 : d - 2; must.push_back(x->substr(f, std::min<size_t>(d + 3, x->size()) - f)); }
						if (d > 5) must.push_back("position: " + std::to_string(d + 1) + ")");
						bad(o.st, "Expected", a, b, true, must);
					}
					else add(fmt("%zu ok", i));
					break;
				}
				case EXP_INT: {
					string t; size_t a, b; std::int64_t v;
					if (!token(o.st, t, a, b)) break;
					if (!intToken(t)) { bad(o.st, "does not match", a, b, true, {t}); break; }
					if (!intParse(t, v)) { bad(o.st, "Could not parse", a, b, true, {t}); break; }
					if (v != o.lo) bad(o.st, "Expected", a, b, true, {std::to_string(o.lo), std::to_string(v)});
					else add(fmt("%zu ok", i));
					break;
				}
				case EXP_REAL: {
					long double v; size_t a, b;
					if (!readReal(o, v, false, &a, &b)) break;
					int p = feq(v, o.rlo, r.absOf(o.st), r.relOf(o.st));
					if (p < 0) ambiguous = true;
					else if (!p) { vector<string> must = reals({o.rlo, v}); if (fabsl(v) < 1e30L && fabsl(o.rlo) < 1e30L) { must.push_back("abs: " + fmt("%.*Lf", PREC, fabsl(v - o.rlo))); if (fabsl(o.rlo) > 1e-30L) must.push_back("rel: " + fmt("%.*Lf", PREC, fabsl((v - o.rlo) / o.rlo))); } bad(o.st, "Expected", a, b, true, must); }
					else add(fmt("%zu ok", i));
					break;
				}
				case K_SPACE: sepc(o.st, ' '); if (!stop()) add(fmt("%zu ok", i)); break;
				case K_NEWLINE: sepc(o.st, '\n'); if (!stop()) add(fmt("%zu ok", i)); break;
				case K_EOF: eof(o.st); if (!stop()) add(fmt("%zu ok", i)); break;
				case K_NOTEOF: noteof(o.st); if (!stop()) add(fmt("%zu ok", i)); break;
				case W_JURY: for (auto& w : o.ws) jury += fm(w); break;
				case W_TEAM: for (auto& w : o.ws) team += fm(w); break;
				case W_ERR: for (auto& w : o.ws) err += fm(w); break;
				case W_OUT: for (auto& w : o.ws) out += fm(w); break;
				case W_OWN: for (auto& w : o.ws) mineOut += fm(w); break;
				case K_CLOG_INT: mentionName(o.cname); clog(o.cname, false, 0, o.lo, o.hi, o.count, 0, 0, 0); break;
				case K_CLOG_SIZE: mentionName(o.cname); clog(o.cname, false, 3 + o.pat, o.lo, o.hi, o.count, 0, 0, 0); break;
				case K_CMENTION: if (o.cname.find_first_of(" \t\n") != string::npos || o.cname.empty()) { aborted = true; break; } mentionName(o.cname); for (std::int64_t j = 0; j < o.count; j++) mentionName(o.cname + "_" + std::to_string(j)); break;
				case K_CLOG_REAL: mentionName(o.cname); clog(o.cname, true, 1, 0, 0, 0, o.rlo, o.rhi, (long double)o.count / 4); break;
				case K_FEQ: case K_FLT: case K_FGT: {
					long double x = o.rlo, y = o.rhi;
					int p = feq(x, y, r.absTol, r.relTol);
					if (p < 0 && !(o.k == K_FLT && x <= y) && !(o.k == K_FGT && x >= y)) { ambiguous = true; break; }
					bool v = p == 1 || (o.k == K_FLT && x <= y) || (o.k == K_FGT && x >= y);
					add(fmt("%zu b %d", i, v));
					break;
				}
				case K_SEQ: {
					string x = o.s, y = o.cname;
					if (!r.caseS) { for (char& c : x) c = fold(c); for (char& c : y) c = fold(c); }
					add(fmt("%zu b %d", i, x == y));
					break;
				}
				case K_PRED: {
					string a = preds::model({o.pat, o.lo, LI, LS});
					refuted |= !preds::favourable(a);
					add(fmt("%zu p ", i) + a);
					break;
				}
				default: break;
			}
		}
	}
	string constraintsText() const {
		string t;
		for (auto& n : cnames) {
			const Bound& b = cb.at(n);
			if (!b.used) continue;
			t += "LocationNotSupported:" + n + " " + n + " " + (b.hadMin ? "1" : "0") + " " + (b.hadMax ? "1" : "0") + " ";
			if (b.real) t += fmt("%.*Lf %.*Lf %.*Lf %.*Lf\n", PREC, b.rmin, PREC, b.rmax, PREC, b.rlo, PREC, b.rhi);
			else t += fmt("%" PRId64 " %" PRId64 " %" PRId64 " %" PRId64 "\n", b.imin, b.imax, b.ilo, b.ihi);
		}
		return t;
	}
};

// ---- generation ---------------------------------------------------------------------
const char* const words[] = {"abc", "Hello", "impossible", "YES", "no", "x", "a-b_c", "Zebra42", "#!?", "0", "00", "-1", "1e3", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"};
string genWord() {
	switch (choose(5)) {
		case 0: return words[choose(14)];
		case 1: { string s; for (int n = 1 + choose(6); n--;) s += (char)('a' + choose(26)); return s; }
		case 2: { string s; for (int n = 1 + choose(20); n--;) s += (char)(33 + choose(94)); return s; }
		case 3: { string s; for (int n = 1 + choose(6); n--;) s += "aAbB01xX.-"[choose(10)]; return s; }
		default: { string s; int n = chance(1, 4) ? 60 + choose(80) : 10 + choose(30); while (n--) s += (char)('A' + choose(26) + (choose(2) ? 32 : 0)); return s; }
	}
}
std::int64_t genInt() {
	switch (choose(6)) {
		case 0: return sim::range(0, 10);
		case 1: return sim::range(-100, 100);
		case 2: return (std::int64_t)sim::word();
		case 3: { std::int64_t x = (std::int64_t)(1ull << choose(63)); return choose(2) ? -x : x + (std::int64_t)choose(3) - 1; }
		case 4: return std::numeric_limits<std::int64_t>::max() - choose(3);
		default: return std::numeric_limits<std::int64_t>::min() + choose(3);
	}
}
long double genReal() {
	switch (choose(5)) {
		case 0: return (long double)sim::range(0, 10);
		case 1: return (long double)sim::range(-1000, 1000) / 8;
		case 2: return (long double)sim::range(-1000000, 1000000) / 1000;
		case 3: return ldexpl((long double)sim::range(-1000, 1000), (int)choose(60) - 30);
		default: return 0;
	}
}
string realText(long double v) {
	char b[128];
	switch (choose(6)) {
		case 0: std::snprintf(b, sizeof b, "%.6Lf", v); break;
		case 1: std::snprintf(b, sizeof b, "%.12Lg", v); break;
		case 2: std::snprintf(b, sizeof b, "%.15Le", v); break;
		case 3: std::snprintf(b, sizeof b, "%.0Lf.", v); break;
		case 4: std::snprintf(b, sizeof b, "+%.3LE", fabsl(v)); break;
		default: { std::snprintf(b, sizeof b, "%.4Lf", v - truncl(v)); string s = b; size_t p = s.find("0."); if (p != string::npos) s.erase(p, 1); return s; }
	}
	return b;
}
// anything from the whole range of the type, its ends and what lies just outside
string extremeReal() {
	string s = choose(3) ? "" : choose(2) ? "-" : "+";
	int n = 1 + choose(choose(2) ? 4 : 24), dot = choose(3) ? (int)choose(n + 1) : -1;
	for (int i = 0; i < n; i++) { if (i == dot) s += '.'; s += (char)('0' + choose(10)); }
	if (dot == n) s += '.';
	int e = choose(4) ? (choose(2) ? 4920 + choose(50) : choose(5000)) : choose(400);
	return s + (choose(2) ? "e" : "E") + (choose(2) ? "-" : choose(2) ? "+" : "") + std::to_string(e);
}
// the same value in many more characters: conversion of such tokens needs memory
string padded(string t) {
	if (!chance(1, 12) || t.find_first_of("0123456789") == string::npos) return t;
	size_t n = 1 + choose(choose(2) ? 900 : 30), e = t.find_first_of("eE");
	size_t d = t.find('.');
	if (d != string::npos && choose(2)) t.insert(e == string::npos ? t.size() : e, n, '0');
	else t.insert(t[0] == '+' || t[0] == '-' ? 1 : 0, n, '0');
	return t;
}
const char* const badReals[] = {"nan", "inf", "-inf", "1e", "e5", ".", "+", "-", "1..2", "0x10", "1e99999", "1e-99999", "--1", "1,5", "1e+", "infinity", "+-1", "1.5f", "NaN", "1_0"};
const char* const badInts[] = {"-0", "007", "+5", "1.0", "1e3", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "abc", "-", "0x1", "--5", "5-", "1,000", "00", "18446744073709551616"};
const char* const badStrict[] = {"+1.5", "007", "00.5", "1e3", ".5", "-", "-.5", "0012", "01", "nan", "1.5.5", "-00", "1.5e1", "0-", "--1", "-007", "00"};
const char* const okStrict[] = {"0", "-0", "0.0", "1.", "0.", "-0.5", "10", "10.25", "-12.125", "3.14159", "1000000", "0.000001"};

string tokenFor(const Op& o, Kind base, bool big = false) {   // a token that (usually) satisfies the operation
	bool off = chance(1, 18);
	switch (base) {
		case STR: return genWord();
		case STR_LEN: {
			if (big && chance(1, 3)) {   // a length which is within the bounds only modulo a small power of two
				std::int64_t n = o.lo + (std::int64_t)(1u << (8 * (1 + choose(2)))) + (o.hi > o.lo ? sim::range(0, o.hi - o.lo - 1) : 0);
				sim::probe("string longer than its bounds by a power of two");
				string s(1, (char)('a' + choose(26))); return s + string((size_t)n - 1, (char)('a' + choose(26)));
			}
			std::int64_t n = off ? (choose(2) ? o.hi : std::max<std::int64_t>(1, o.lo - 1)) : (o.hi > o.lo ? sim::range(o.lo, std::min<std::int64_t>(o.hi - 1, o.lo + 30)) : o.lo); string s; for (std::int64_t k = 0; k < std::max<std::int64_t>(n, 1); k++) s += (char)('a' + choose(26)); return s; }
		case STR_PAT: return off ? genWord() : string(pats[o.pat].sample[choose(3)]);
		case INTEG: if (off) return badInts[choose(16)]; return std::to_string(genInt());
		case INT_B: {
			if (off) { if (choose(2)) return badInts[choose(16)]; return std::to_string(choose(2) ? o.hi : (o.lo == INT64_MIN ? o.lo : o.lo - 1)); }
			if (o.hi <= o.lo) return std::to_string(o.lo);
			std::uint64_t w = (std::uint64_t)o.hi - (std::uint64_t)o.lo;
			std::uint64_t x = choose(4) == 0 ? 0 : choose(3) == 0 ? w - 1 : sim::word() % w;
			return std::to_string((std::int64_t)((std::uint64_t)o.lo + x));
		}
		case REAL: if (off) return badReals[choose(20)]; if (chance(1, 8)) { sim::probe("real of extreme magnitude"); return extremeReal(); } return padded(realText(genReal()));
		case REAL_B: {
			if (off && choose(2)) return choose(4) ? badReals[choose(20)] : extremeReal();
			long double v;
			switch (choose(6)) {
				case 0: v = o.rlo; break;
				case 1: v = o.rhi; break;
				case 2: v = o.rlo + (o.rhi - o.rlo) * choose(1000) / 1000; break;
				case 3: { static const long double f[] = {0.5L, 0.9L, 1.1L, 2.0L, 10.0L, -0.5L, -1.1L}; long double t = choose(2) ? o.rlo : o.rhi; long double tol = (choose(2) ? EPS : ldexpl(1, -(int)choose(20))); v = t + tol * f[choose(7)] * (choose(2) ? 1 : std::max(fabsl(t), 1.0L)); break; }
				case 4: v = chance(1, 5) ? o.rlo - 1 - choose(100) : o.rlo; break;
				default: v = chance(1, 5) ? o.rhi + 1 + choose(100) : o.rlo; break;
			}
			char b[128]; std::snprintf(b, sizeof b, "%.20Lg", v); return padded(b);
		}
		case RSTRICT: {
			if (off) return badStrict[choose(17)];
			if (chance(1, 5)) return okStrict[choose(12)];
			int d = o.dmax > o.dmin ? (int)sim::range(o.dmin, o.dmax - 1) : o.dmin;
			if (chance(1, 8)) d = choose(2) ? o.dmax : std::max(0, o.dmin - 1);
			long double v = o.rlo + (o.rhi - o.rlo) * choose(1001) / 1000;
			char b[1200]; std::snprintf(b, sizeof b, "%.*Lf", d, v); return b;
		}
		case EXP_STR: { string s = o.s.empty() ? "x" : o.s; if (off) { switch (choose(3)) { case 0: s += 'q'; break; case 1: s[choose((unsigned)s.size())] ^= 1; break; default: if (s.size() > 1) s.resize(choose(3) ? s.size() - 1 : 1 + choose((unsigned)s.size() - 1)); } } else if (chance(1, 4)) for (char& c : s) c = choose(2) ? lc(c) : (isAl(c, 'a', 'z') ? char(c - 32) : c); return s; }
		case EXP_INT: return off ? std::to_string(o.lo == INT64_MAX ? 0 : o.lo + 1) : std::to_string(o.lo);
		case EXP_REAL: {
			long double v = o.rlo;
			static const long double f[] = {0, 0.5L, -0.9L, 1.5L, -3, 1000};
			v += f[choose(6)] * (choose(2) ? EPS : ldexpl(1, -(int)choose(16))) * (choose(2) ? 1 : std::max(fabsl(v), 0.001L));
			char b[128]; std::snprintf(b, sizeof b, "%.20Lg", v); return padded(b);
		}
		default: return "x";
	}
}
bool goodByte(const string& s) { for (unsigned char c : s) if (c <= 32 || c >= 127) return false; return !s.empty(); }

void genWrites(Op& o) {
	for (int n = 1 + choose(4); n--;) {
		Write w{};
		w.kind = choose(27);
		static const char seps[] = {',', '\t', ' ', '\n', '\0', ';', '0', '-', '\r', '"', '.', '\x7f', '\xe4'};
		w.sep = seps[choose(sizeof seps)];
		w.i = genInt(); if (w.kind == 6 || w.kind == 8 || w.kind == 10 || (w.kind >= 16 && w.kind <= 19) || (w.kind >= 22 && w.kind <= 25)) w.i = sim::range(-50, 50);
		w.r = genReal(); w.s = genWord(); w.n = (int)choose(6);
		if (w.kind == 9) { w.n = chance(1, 4) ? chance(1, 12) ? 65530 + choose(3000) : 500 + choose(9000) : 1 + choose(100); }
		o.ws.push_back(w);
	}
}

bool hasPattern(const Run& r, int st) { for (auto& o : r.ops) if (o.st == st && ((o.k >= STR_PAT && o.k <= STR_PAT_LEN_C) || (o.k >= STRS_PAT && o.k <= STRS_PAT_LEN_C))) return true; return false; }
void genRun(Run& r) {
	Cfg& c = r.c;
	// settings and flags
	if (c.role == OV || c.role == INT) {
		if (choose(4) == 1) { r.setCase = true; r.preCase = choose(2); }
		if (choose(4) == 1) { r.setSpace = true; r.preSpace = choose(2); }
	}
	static const char* const tols[] = {"1e-3", "0.5", "1e-9", "0", "0.25", "1e-2", "2"};
	static const long double tolv[] = {1e-3L, 0.5L, 1e-9L, 0, 0.25L, 1e-2L, 2};
	if (choose(3) == 1) { r.setAbs = true; r.preAbs = tolv[choose(7)]; }
	if (choose(3) == 1) { r.setRel = true; r.preRel = tolv[choose(7)]; }
	r.caseS = r.setCase ? r.preCase : false;
	r.spaceS = r.setSpace ? r.preSpace : false;
	if (c.role == IV || c.role == AV) r.caseS = r.spaceS = true;
	if (r.setAbs) r.absTol = r.preAbs;
	if (r.setRel) r.relTol = r.preRel;
	r.args = {"/sim/validator"};
	if (c.role != IV) r.args.push_back("/sim/test.in");
	if (c.role == OV || c.role == INT) { r.args.push_back("/sim/test.ans"); r.args.push_back(choose(2) ? "/sim/fb/" : "/sim/fb"); }
	vector<vector<string>> groups;
	bool fAbs = false, fRel = false, fTol = false;
	auto tol = [&](const char* name, bool& seen) { int k = choose(7); groups.push_back({name, tols[k]}); seen = true; return tolv[k]; };
	long double va = 0, vr = 0, vt = 0;
	if (choose(c.flags ? 2 : 4) == 1) vt = tol("float_tolerance", fTol);
	if (choose(c.flags ? 2 : 5) == 1) va = tol("float_absolute_tolerance", fAbs);
	if (choose(c.flags ? 2 : 5) == 1) vr = tol("float_relative_tolerance", fRel);
	if (choose(4) == 1) { groups.push_back({"case_sensitive"}); r.caseS = true; }
	if (choose(c.onlyTokens ? 2 : 4) == 1) { groups.push_back({"space_change_sensitive"}); r.spaceS = true; }
	if (choose(4) == 1) { groups.push_back({"--seed", std::to_string(genInt())}); }
	if (c.constraints || choose(8) == 1) { groups.push_back({"--constraints_file", "/sim/constraints.txt"}); r.constraintsFile = c.role != INT; }
	r.keepRefs = c.constraints && choose(2);
	if (c.constraints && chance(1, 6)) r.ownLog = 1 + choose(3);
	if (choose(6) == 1) groups.push_back({"--foo", "1", "bar"});
	if (choose(6) == 1) groups.push_back({"extra"});
	for (size_t i = groups.size(); i > 1; i--) std::swap(groups[i - 1], groups[choose((unsigned)i)]);
	for (auto& g : groups) for (auto& s : g) r.args.push_back(s);
	if (fTol) r.absTol = r.relTol = vt;
	if (fAbs) r.absTol = va;
	if (fRel) r.relTol = vr;

	// script and matching contents
	vector<StreamId> streams = {TEAM};
	if (c.role == AV) streams = {TEAM, TESTIN};
	if (c.role == OV) streams = {TEAM, TESTIN, JURY};
	if (c.role == INT) streams = {TEAM, TESTIN};
	if (chance(1, 6)) for (StreamId st : streams) if (choose(3)) {
		auto& w = r.own[st];
		w.on = true; w.strict = choose(2); w.cas = choose(2); w.code = choose(2) ? 43 : 1; w.src = (int)choose(3);
		if (w.src == 1 && st != TEAM) w.src = 0;
		if (c.faultMode == 1 && w.src == 0) w.code = 1;   // the judge's own file: its errors are the judge's
		if ((w.tol = choose(2))) { w.abs = tolv[choose(7)]; w.rel = tolv[choose(7)]; }
		sim::probe(w.src == 0 ? "own stream from a file" : w.src == 1 ? "own stream from stdin" : "own stream from a string");
	}
	string cn[] = {"n", "k_i", "len", "x", "value", "z"};
	unsigned nops = 1 + choose(c.maxOps);
	bool needSep[3] = {false, false, false};
	for (unsigned i = 0; i < nops; i++) {
		Op o{};
		if (c.writes && choose(2)) {
			o.k = (Kind)(W_JURY + choose(4));
			if (o.k == W_TEAM && c.role != OV && c.role != INT) o.k = W_JURY;
			if (o.k == W_OUT && c.role != INT) o.k = W_JURY;
			if (chance(1, 12)) { o.k = W_OWN; if (r.ownMode < 0) r.ownMode = (int)choose(3); }
			genWrites(o);
			r.ops.push_back(o);
			continue;
		}
		if (c.compare && choose(3) == 1) {
			o.k = (Kind)(K_FEQ + choose(4));
			o.rhi = genReal();
			static const long double f[] = {0, 0.5L, -0.9L, 1.5L, -3, 1000};
			o.rlo = o.rhi + f[choose(6)] * (choose(2) ? EPS : ldexpl(1, -(int)choose(16))) * (choose(2) ? 1 : std::max(fabsl(o.rhi), 0.001L));
			o.s = genWord(); o.cname = choose(2) ? o.s : genWord();
			if (choose(2)) for (char& ch : o.cname) ch = lc(ch);
			r.ops.push_back(o);
			continue;
		}
		if (c.constraints && c.role != INT && choose(5) == 1) {
			static const Kind ks[] = {K_CLOG_INT, K_CLOG_REAL, K_CLOG_SIZE, K_CMENTION};
			o.k = ks[choose(4)];
			o.lo = sim::range(-5, 5); o.hi = o.lo + 1 + choose(10); o.count = sim::range(o.lo, o.hi - 1);
			o.rlo = o.lo; o.rhi = o.hi; o.cname = (o.k == K_CLOG_REAL ? "real_" : "int_") + cn[choose(6)];
			if (o.k == K_CLOG_SIZE) { if (o.hi <= 0) o.hi = 1; if (o.count < 0) o.count = 0; o.pat = choose(3); static const char* const pre[] = {"vec_", "set_", "names_"}; o.cname = (choose(20) ? pre[o.pat] : pre[choose(3)]) + cn[choose(6)]; }
			else if (o.k == K_CMENTION) { static const char* const pre[] = {"str_", "int_", "real_", "vec_", "new_"}; o.cname = pre[choose(5)] + cn[choose(6)]; o.count = choose(3) ? 0 : choose(40); if (chance(1, 25)) { static const char* const in[] = {"x y", " x", "x\t", "a\nb", ""}; o.cname = in[choose(5)]; o.count = 0; } }
			else o.pat = choose(4);
			r.ops.push_back(o);
			continue;
		}
		o.st = streams[choose((unsigned)streams.size())];
		string& D = r.data[o.st];
		bool strict = r.strictOf(o.st);
		if (needSep[o.st]) {   // separator read (no-op on lenient streams)
			Op s{}; s.st = o.st; s.k = choose(2) ? K_NEWLINE : K_SPACE;
			if (strict || choose(2)) { r.ops.push_back(s); }
			if (strict) D += s.k == K_SPACE ? ' ' : '\n';
			else { static const char* const wsRuns[] = {" ", "\n", "  ", "\t", "\r\n", "\n\n", " \v\f "}; D += wsRuns[choose(7)]; }
		}
		Kind base;
		if (c.onlyTokens) { static const Kind ks[] = {STR, STR, STRS, STR_LEN}; o.k = ks[choose(4)]; }
		else if (c.constraints && choose(4)) { static const Kind ks[] = {STR_LEN_C, STR_PAT_LEN_C, STRS_LEN_C, STRS_PAT_LEN_C, INT_BC, INTS_BC, REAL_BC, REALS_BC, RSTRICT_C, RSTRICTS_C, INT_BC}; o.k = ks[choose(11)]; }
		else o.k = (Kind)choose(EXP_REAL + 1);
		bool hasC = o.k == STR_LEN_C || o.k == STR_PAT_LEN_C || o.k == STRS_LEN_C || o.k == STRS_PAT_LEN_C || o.k == INT_BC || o.k == INTS_BC || o.k == REAL_BC || o.k == REALS_BC || o.k == RSTRICT_C || o.k == RSTRICTS_C;
		if (hasC && c.role == INT) { static const std::map<Kind, Kind> plain = {{STR_LEN_C, STR_LEN}, {STR_PAT_LEN_C, STR_PAT_LEN}, {STRS_LEN_C, STRS_LEN}, {STRS_PAT_LEN_C, STRS_PAT_LEN}, {INT_BC, INT_B}, {INTS_BC, INTS_B}, {REAL_BC, REAL_B}, {REALS_BC, REALS_B}, {RSTRICT_C, RSTRICT}, {RSTRICTS_C, RSTRICTS}}; o.k = plain.at(o.k); hasC = false; }
		o.cname = "";
		if (hasC) {
			string pre = o.k <= STRS_PAT_LEN_C ? "str_" : o.k <= INTS_BC ? "int_" : "real_";
			if (chance(1, 60)) pre = "int_";
			o.cname = pre + cn[choose(6)];
		}
		o.count = chance(1, 12) ? 0 : 1 + choose(5);
		o.sep = choose(2) ? '\n' : ' ';
		o.pat = (int)choose(NPAT);
		if (o.k <= STRS_PAT_LEN_C) {
			o.lo = sim::range(0, 6); o.hi = o.lo + (chance(1, 16) ? 0 : sim::range(1, 12));
			bool pat = o.k == STR_PAT || o.k == STR_PAT_LEN || o.k == STR_PAT_LEN_C || o.k == STRS_PAT || o.k == STRS_PAT_LEN || o.k == STRS_PAT_LEN_C;
			bool len = o.k != STR && o.k != STR_PAT && o.k != STRS && o.k != STRS_PAT;
			base = pat ? STR_PAT : len ? STR_LEN : STR;
			if (pat) { o.lo = choose(4) ? 0 : 1; o.hi = std::max<std::int64_t>(o.hi, choose(4) ? 8 : 0); }
		} else if (o.k <= INTS_BC) {
			std::int64_t x = genInt(), y = genInt();
			if (choose(2)) { x = sim::range(-5, 5); y = x + (chance(1, 12) ? 0 : 1 + choose(6)); }
			o.lo = std::min(x, y); o.hi = std::max(x, y);
			base = o.k == INTEG || o.k == INTS ? INTEG : INT_B;
		} else if (o.k <= RSTRICTS_C) {
			long double x = genReal(), y = choose(2) ? x + 1 + choose(10) : genReal();
			o.rlo = std::min(x, y); o.rhi = std::max(x, y);
			o.dmin = (int)choose(3); o.dmax = o.dmin + 1 + (int)choose(4);
			if (chance(1, 12)) o.dmax += (int)choose(900);   // long tokens: their conversion needs memory
			base = o.k == REAL || o.k == REALS ? REAL : o.k <= REALS_BC ? REAL_B : RSTRICT;
		} else if (o.k == EXP_STR) { o.s = genWord(); base = EXP_STR; if (chance(1, 40)) o.s = choose(4) ? o.s + " \t\n\v\f\r"[choose(6)] + (choose(2) ? "x" : "") : ""; }
		else if (o.k == EXP_INT) { o.lo = genInt(); base = EXP_INT; }
		else { o.rlo = genReal(); base = EXP_REAL; }
		bool single = !(o.k == STRS || (o.k >= STRS && o.k <= STRS_PAT_LEN_C) || (o.k >= INTS && o.k <= INTS_BC) || (o.k >= REALS && o.k <= REALS_BC) || o.k == RSTRICTS || o.k == RSTRICTS_C);
		if (single && (o.k == STR_PAT || o.k == STR_PAT_LEN) && choose(3) == 1) o.sep = 'i';   // icase through caseSensitive.regex()
		if (o.sep == 'i' && r.caseS) o.sep = 'c';
		if (!single && !c.onlyTokens && chance(1, 60)) o.sep = "\t,\r;"[choose(4)];   // not a separator: the call is refused
		bool big = !c.faultMode && r.longStream < 0 && chance(1, 40);
		if (big && !single && D.size() < 50000 && chance(1, 6)) {   // a list with more elements than 16 bit can count
			std::int64_t x = sim::range(-9, 9); char y = (char)('a' + choose(26));
			bool str = o.k <= STRS_PAT_LEN_C, in = o.k >= INTS && o.k <= INTS_BC;
			if (str ? base != STR_PAT : in) {
				o.count = 65536 + (std::int64_t)choose(6);
				if (in) { o.lo = sim::range(-9, x); o.hi = sim::range(x + 1, 10); } else { o.lo = 1; o.hi = 2; }
				string t = str ? string(1, y) : std::to_string(x);
				char g = strict ? o.sep : " \n\t\r"[choose(4)];
				for (std::int64_t j = 0; j < o.count; j++) { if (j) D += g; D += j % 7919 ? t : tokenFor(o, base); }
				needSep[o.st] = true;
				r.longStream = o.st;
				r.ops.push_back(o);
				sim::probe("list of more than 65536 elements");
				continue;
			}
		}
		std::int64_t n = single ? 1 : o.count;
		for (std::int64_t j = 0; j < n; j++) {
			if (j) { if (strict) D += o.sep; else { static const char* const wsRuns[] = {" ", "\n", "  ", "\t", "\r\n"}; D += wsRuns[choose(5)]; } }
			size_t at = D.size();
			D += tokenFor(o, base, big && at < 100000);
			if (D.size() > at + 20000) r.longStream = o.st, big = false;
		}
		needSep[o.st] = n > 0 || needSep[o.st];
		if (n == 0 && strict && needSep[o.st]) needSep[o.st] = false;
		r.ops.push_back(o);
		if (c.preds && n < 100 && chance(1, 3)) {
			Op q{}; q.st = o.st; q.k = K_PRED; q.pat = (int)choose(preds::COUNT);
			switch (choose(5)) { case 0: q.lo = sim::range(-2, 2); break; case 1: q.lo = o.k <= INTS_BC && o.k >= INTEG ? o.lo : sim::range(0, 9); break; case 2: q.lo = (std::int64_t)1 << choose(63); break; default: q.lo = genInt(); }
			r.ops.push_back(q);
		}
		if (choose(12) == 1) { Op q{}; q.st = o.st; q.k = K_NOTEOF; r.ops.push_back(q); }
	}
	for (StreamId s : streams) {
		bool strict = r.strictOf(s);
		int end = choose(4);
		if (end < 3) {
			if (strict && needSep[s]) { Op q{}; q.st = s; q.k = K_NEWLINE; r.ops.push_back(q); }
			Op q{}; q.st = s; q.k = K_EOF; r.ops.push_back(q);
		}
		if (needSep[s]) { if (!(strict ? false : choose(4) == 1)) r.data[s] += "\n"; }
		if (end == 3 && choose(2)) r.data[s] += genWord();
	}
	// corruption of the contents
	for (int s = 0; s < 3; s++) {
		string& D = r.data[s];
		if (!choose((unsigned)c.mutate) || D.empty()) continue;
		if (choose(3) != 1) continue;
		for (int n = 1 + choose(2); n-- && !D.empty();) {
			size_t p = choose((unsigned)D.size());
			static const char wsb[] = " \n\t\r\v\f";
			switch (choose(c.rawBytes ? 10 : 8)) {
				case 0: D.erase(p, 1); break;
				case 1: D.insert(p, 1, wsb[choose(6)]); break;
				case 2: D[p] = (char)(33 + choose(94)); break;
				case 3: D.resize(p); sim::fired(sim::F_CUT); break;
				case 4: D.insert(p, 1, D[p]); break;
				case 5: if (ws(D[p])) D[p] = wsb[choose(6)]; else D[p] = ' '; break;
				case 6: { static const char tail[] = {'\0', '\xff', '\x80', '\x1a', '\x7f', '\x04', '\n', ' ', '0', '\r'}; D += tail[choose(sizeof tail)]; break; }
				case 7: { size_t q = D.find('\n', p); if (q != string::npos) D.insert(q, 1, '\r'); break; }
				default: D[p] = (char)choose(256); sim::fired(sim::F_CORRUPT); break;
			}
		}
	}
	if (!c.faultMode && r.longStream < 0 && chance(1, 60)) {
		int s = choose(3);
		string& D = r.data[s];
		if (!D.empty()) {
			size_t p = choose((unsigned)D.size());
			while (p < D.size() && !graph(D[p])) p++;
			if (p < D.size()) { D.insert(p, hasPattern(r, s) ? 130000 : 30000 + choose(100000), D[p]); r.longStream = s; sim::probe("token of more than 30000 characters"); }
		}
	}
	if (c.diag && r.longStream < 0 && chance(1, 60)) {
		// more lines (or columns) than 16 bit can count before the position of a message
		int s = choose(3);
		string& D = r.data[s];
		size_t p = D.empty() ? 0 : choose((unsigned)D.size());
		while (p > 0 && !ws(D[p])) p--;
		if (!(r.strictOf(s))) { D.insert(p, 65300 + choose(6000), "\n\n\n "[c.longLines ? 0 : choose(4)]); r.longStream = s; sim::probe("more than 65000 lines or columns"); }
	}
	if (c.longLines) {
		// long prefix on the line of the failing token: insert many tokens in a lenient stream is not possible without changing the script,
		// so lengthen existing tokens of plain string reads instead (done by genWord) and stretch whitespace of lenient streams
		for (int s = 0; s < 3; s++) if (!(r.strictOf(s))) {
			string& D = r.data[s];
			for (size_t p = 0; p < D.size(); p++) if (D[p] == ' ' && choose(3) == 1) { size_t k = choose(70); D.insert(p, k, ' '); p += k; }
		}
	}
	for (auto& D : r.data) if (D.size() > sim::FILE_CAP - 64) D.resize(sim::FILE_CAP - 64);
	static const int verdicts[] = {42, 43, 1, 43};
	r.verdict = verdicts[choose(4)];
	r.verdictVia = choose(4);
	if (r.verdictVia == 1 && c.role != OV && c.role != INT) r.verdictVia = 0;
}

// ---- execution against the real header -------------------------------------------------
template<typename F> void rec(F f) { string s; { sim::NoFault g; s = f(); sim::hist(s + "\n"); sim::ev("result %s", sim::quote(s).c_str()); } }
void doWrite(OutputStream& os, const vector<Write>& ws) {
	for (auto& w : ws) {
		switch (w.kind) {
			case 0: os << w.i; break;
			case 1: os << w.r; break;
			case 2: os << bool(w.i & 1); break;
			case 3: os << w.s; break;
			case 4: os << std::pair<Integer, std::string>(w.i, w.s); break;
			case 5: os << std::tuple<Integer, Real, bool>(w.i, w.r, w.i & 1); break;
			case 6: { vector<Integer> v; for (int k = 0; k < w.n; k++) v.push_back(w.i + k); os << v; break; }
			case 7: os << std::endl; break;
			case 8: { vector<Integer> v; for (int k = 0; k < w.n; k++) v.push_back(w.i + k); os << join(v, w.sep); break; }
			case 9: os << string((size_t)w.n, w.s.empty() ? 'q' : w.s[0]); break;
			case 10: { vector<std::pair<Integer, string>> v; for (int k = 0; k < w.n; k++) v.emplace_back(w.i + k, w.s); os << v; break; }
			case 11: os << (double)w.r; break;
			case 12: os << std::make_tuple(std::string_view(w.s), w.i, w.r); break;
			case 13: os << join(std::make_tuple(w.i, w.s, w.r), w.sep); break;
			case 14: os << join({w.i, w.s, w.r}, w.sep); break;
			case 15: os << join(w.s, w.sep); break;
			case 16: { std::map<Integer, string> m; for (int k = 0; k < w.n; k++) m.emplace(w.i + k, w.s); os << join(m, w.sep); break; }
			case 17: { std::array<Integer, 3> a{w.i, w.i + 1, w.i + 2}; os << join(a, w.sep); break; }
			case 18: { std::set<Integer> v; for (int k = 0; k < w.n; k++) v.insert(w.i + k); os << '[' << join(v, w.sep).asString() << "]"; break; }
			case 19: { vector<std::pair<bool, bool>> v; for (int k = 0; k < w.n; k++) v.emplace_back((w.i + k) % 2 != 0, (w.i + k + 1) % 2 != 0); os << join(v.begin(), v.end(), w.sep); break; }
			case 20: os << std::setprecision(w.n) << w.r << " " << std::setprecision(DEFAULT_PRECISION) << w.r; break;
			// the same writer used several times
			case 22: { vector<std::pair<Integer, string>> v; for (int k = 0; k < w.n; k++) v.emplace_back(w.i + k, w.s); auto t = join(std::move(v), w.sep); os << t << '|' << t << "|" << t.asString() << string(t); break; }
			case 23: { auto t = join(std::tuple<Integer, string, bool>(w.i, w.s, w.i & 1), w.sep); os << t << t.asString() << t; break; }
			case 24: { Integer a[3] = {w.i, w.i + 1, w.i + 2}; auto t = join(a, w.sep); os << t << " " << t.asString() << 'a'; if (w.sep) os << w.sep; os << "bc" << join("def", w.sep); break; }
			case 25: { vector<std::tuple<Integer, string, std::pair<Integer, bool>>> v; for (int k = 0; k < w.n; k++) v.emplace_back(w.i, w.s, std::pair<Integer, bool>(w.i + k, k % 2)); os << v; break; }
			case 26: os << std::hex << std::setw(w.n + 3) << (std::uint32_t)w.i << std::dec << '|' << (std::int16_t)w.i << "|" << std::setfill('0') << std::setw(5) << (int)(std::uint8_t)w.i << std::setfill(' ') << '|'; break;
			case 21: os << (std::int32_t)w.i << 'c' << (std::uint64_t)w.i << "lit" << (std::int16_t)w.i; break;
		}
	}
}
InputStream& streamOf(Role role, StreamId s) {
	if (role == IV) return InputValidator::testIn;
	if (role == AV) return s == TEAM ? AnswerValidator::ans : AnswerValidator::testIn;
	if (role == OV) return s == TEAM ? OutputValidator::teamAns : s == JURY ? OutputValidator::juryAns : OutputValidator::testIn;
	return s == TEAM ? Interactor::fromTeam : Interactor::testIn;
}
OutputStream mineOut;
void body(const Run& r) {
	vector<char*> argv;
	vector<string> args = r.args;
	for (auto& a : args) argv.push_back(a.data());
	if (r.setCase) ValidateBase::caseSensitive = r.preCase;
	if (r.setSpace) ValidateBase::spaceSensitive = r.preSpace;
	if (r.setAbs) ValidateBase::floatAbsTol = r.preAbs;
	if (r.setRel) ValidateBase::floatRelTol = r.preRel;
	int argc = (int)argv.size();
	argv.push_back(nullptr);
	switch (r.c.role) {
		case IV: InputValidator::init(argc, argv.data()); break;
		case AV: AnswerValidator::init(argc, argv.data()); break;
		case OV: OutputValidator::init(argc, argv.data()); break;
		case INT: Interactor::init(argc, argv.data()); break;
	}
	if (r.ownMode >= 0) mineOut = OutputStream(std::filesystem::path("/sim/fb/extra.txt"), r.ownMode == 0 ? std::ios::out : r.ownMode == 1 ? std::ios::out | std::ios::ate : std::ios::out | std::ios::app);
	std::optional<InputStream> mine[3];
	std::optional<std::istringstream> text[3];
	for (int s = 0; s < 3; s++) if (auto& w = r.own[s]; w.on) {
		static const char* const paths[] = {"/sim/test.in", "/sim/test.ans", "/sim/own.txt"};
		const string path = s == TESTIN ? paths[0] : s == JURY ? paths[1] : paths[2];
		Verdicts::Verdict code(w.code);
		if (w.src == 2) { text[s].emplace(r.data[s]); }
		std::istream& is = w.src == 2 ? (std::istream&)*text[s] : std::cin;
		if (w.src == 0) { if (w.tol) mine[s].emplace(path, w.strict, w.cas, ValidateBase::juryOut, code, w.abs, w.rel); else mine[s].emplace(path, w.strict, w.cas, ValidateBase::juryOut, code); }
		else if (w.tol) mine[s].emplace(is, w.strict, w.cas, ValidateBase::juryOut, code, w.abs, w.rel);
		else mine[s].emplace(is, w.strict, w.cas, ValidateBase::juryOut, code);
		if (r.verdict % 2) { InputStream moved(std::move(*mine[s])); mine[s].emplace(std::move(moved)); }
	}
	{ sim::NoFault g; sim::hist("init\n"); }
	std::map<string, Constraint*> refs;
	ConstraintsLogger* logger = &ConstraintsBase::constraint;
	if (r.ownLog) {
		static ConstraintsLogger first("/sim/own_constraints.txt"), second;
		logger = &first;
		if (r.ownLog == 2) { static ConstraintsLogger moved(std::move(first)); logger = &moved; }
		if (r.ownLog == 3) { second = std::move(first); logger = &second; }
	}
	auto con = [&](const string& n) -> Constraint& {
		if (!r.keepRefs) return (*logger)[n];
		Constraint** q; { sim::NoFault g; q = &refs[n]; }
		Constraint*& p = *q;
		if (!p) p = &(*logger)[n];
		return *p;
	};
	vector<Integer> LI; vector<string> LS; bool refuted = false;
	for (size_t i = 0; i < r.ops.size(); i++) {
		const Op& o = r.ops[i];
		if (o.k == W_OWN) { doWrite(mineOut, o.ws); continue; }
		if (o.k >= W_JURY && o.k <= W_OUT) {
			doWrite(o.k == W_JURY ? ValidateBase::juryOut : o.k == W_ERR ? ValidateBase::juryErr : o.k == W_OUT ? Interactor::toTeam : (r.c.role == OV ? OutputValidator::teamOut : Interactor::teamOut), o.ws);
			continue;
		}
		InputStream& in = mine[o.st] ? *mine[o.st] : streamOf(r.c.role, o.st);
		auto okr = [&] { rec([&] { return fmt("%zu ok", i); }); };
		auto regex = [&] { static const char* const basic[] = {"[a-z][a-z]*", "[01]\\{1,5\\}", "\\(ab\\)*", nullptr, "[A-Z][a-z]*", "[^x]*"}; return o.sep == 'i' || o.sep == 'c' ? o.count % 2 && basic[o.pat] ? ValidateBase::caseSensitive.regex(basic[o.pat], std::regex_constants::basic) : ValidateBase::caseSensitive.regex(pats[o.pat].re) : std::regex(pats[o.pat].re); };
		auto st = [&](const string& t) { if (r.c.preds) { sim::NoFault g; LS = {t}; } rec([&] { return fmt("%zu s ", i) + t; }); };
		auto sts = [&](const vector<string>& v) { if (r.c.preds) { sim::NoFault g; LS = v; } rec([&] { string all = fmt("%zu S %" PRId64 " ", i, (std::int64_t)v.size()); for (auto& t : v) all += t + "|"; return all; }); };
		auto iv = [&](Integer v) { if (r.c.preds) { sim::NoFault g; LI = {v}; } rec([&] { return fmt("%zu i %" PRId64, i, v); }); };
		auto ivs = [&](const vector<Integer>& v) { if (r.c.preds) { sim::NoFault g; LI = v; } rec([&] { string all = fmt("%zu I %" PRId64 " ", i, (std::int64_t)v.size()); for (auto t : v) all += std::to_string(t) + "|"; return all; }); };
		auto rv = [&](Real v) { rec([&] { return fmt("%zu r %La", i, v); }); };
		auto rvs = [&](const vector<Real>& v) { rec([&] { string all = fmt("%zu R %" PRId64 " ", i, (std::int64_t)v.size()); for (auto t : v) all += fmt("%La|", t); return all; }); };
		auto bv = [&](bool v) { rec([&] { return fmt("%zu b %d", i, v); }); };
		switch (o.k) {
			case STR: st(in.string()); break;
			case STR_LEN: st(in.string(o.lo, o.hi)); break;
			case STR_LEN_C: st(in.string(o.lo, o.hi, con(o.cname))); break;
			case STR_PAT: st(in.string(regex())); break;
			case STR_PAT_LEN: st(in.string(regex(), o.lo, o.hi)); break;
			case STR_PAT_LEN_C: st(in.string(std::regex(pats[o.pat].re), o.lo, o.hi, con(o.cname))); break;
			case STRS: sts(o.sep == ' ' ? in.strings(o.count) : in.strings(o.count, o.sep)); break;
			case STRS_LEN: sts(in.strings(o.lo, o.hi, o.count, o.sep)); break;
			case STRS_LEN_C: sts(in.strings(o.lo, o.hi, con(o.cname), o.count, o.sep)); break;
			case STRS_PAT: sts(in.strings(std::regex(pats[o.pat].re), o.count, o.sep)); break;
			case STRS_PAT_LEN: sts(in.strings(std::regex(pats[o.pat].re), o.lo, o.hi, o.count, o.sep)); break;
			case STRS_PAT_LEN_C: sts(in.strings(std::regex(pats[o.pat].re), o.lo, o.hi, con(o.cname), o.count, o.sep)); break;
			case INTEG: iv(in.integer()); break;
			case INT_B: iv(in.integer(o.lo, o.hi)); break;
			case INT_BC: iv(in.integer(o.lo, o.hi, con(o.cname))); break;
			case INTS: ivs(o.sep == ' ' ? in.integers(o.count) : in.integers(o.count, o.sep)); break;
			case INTS_B: ivs(o.sep == ' ' ? in.integers(o.lo, o.hi, o.count) : in.integers(o.lo, o.hi, o.count, o.sep)); break;
			case INTS_BC: ivs(in.integers(o.lo, o.hi, con(o.cname), o.count, o.sep)); break;
			case REAL: rv(in.real()); break;
			case REAL_B: rv(in.real(o.rlo, o.rhi)); break;
			case REAL_BC: rv(in.real(o.rlo, o.rhi, con(o.cname))); break;
			case REALS: rvs(o.sep == ' ' ? in.reals(o.count) : in.reals(o.count, o.sep)); break;
			case REALS_B: rvs(in.reals(o.rlo, o.rhi, o.count, o.sep)); break;
			case REALS_BC: rvs(in.reals(o.rlo, o.rhi, con(o.cname), o.count, o.sep)); break;
			case RSTRICT: rv(in.realStrict(o.rlo, o.rhi, o.dmin, o.dmax)); break;
			case RSTRICT_C: rv(in.realStrict(o.rlo, o.rhi, o.dmin, o.dmax, con(o.cname))); break;
			case RSTRICTS: rvs(in.realsStrict(o.rlo, o.rhi, o.dmin, o.dmax, o.count, o.sep)); break;
			case RSTRICTS_C: rvs(in.realsStrict(o.rlo, o.rhi, o.dmin, o.dmax, con(o.cname), o.count, o.sep)); break;
			case EXP_STR: in.expectString(o.s); okr(); break;
			case EXP_INT: in.expectInt(o.lo); okr(); break;
			case EXP_REAL: in.expectReal(o.rlo); okr(); break;
			case K_SPACE: in.space(); okr(); break;
			case K_NEWLINE: in.newline(); okr(); break;
			case K_EOF: in.eof(); okr(); break;
			case K_NOTEOF: in.noteof(); okr(); break;
			case K_CLOG_INT: {
				Constraint& c = con(o.cname);
				if (o.pat == 1) c.log(o.lo, o.hi, (int)o.count); else if (o.pat == 2) c.log(o.lo, o.hi, (signed char)o.count); else if (o.pat == 3 && o.count >= 0) c.log(o.lo, o.hi, (std::size_t)o.count); else c.log(o.lo, o.hi, o.count);
				break;
			}
			case K_CLOG_REAL: {
				Constraint& c = con(o.cname);
				if (o.pat == 1) c.log(o.rlo, o.rhi, (double)o.count / 4); else if (o.pat == 2) c.log(o.rlo, o.rhi, (float)o.count / 4); else c.log(o.rlo, o.rhi, (Real)o.count / 4);
				break;
			}
			case K_CLOG_SIZE: {
				Constraint& c = con(o.cname);
				vector<Integer> v; std::set<Integer> s; vector<string> w;
				for (std::int64_t j = 0; j < o.count; j++) { v.push_back(j / 2); s.insert(j); w.push_back("w"); }
				if (o.pat == 0) c.log(o.lo, o.hi, v); else if (o.pat == 1) c.log(o.lo, o.hi, s); else c.log(o.lo, o.hi, w);
				break;
			}
			case K_CMENTION: con(o.cname); for (std::int64_t j = 0; j < o.count; j++) con(o.cname + "_" + std::to_string(j)); break;
			case K_FEQ: bv(ValidateBase::floatEqual(o.rlo, o.rhi)); break;
			case K_FLT: bv(ValidateBase::floatLess(o.rlo, o.rhi)); break;
			case K_FGT: bv(ValidateBase::floatGreater(o.rlo, o.rhi)); break;
			case K_SEQ: bv(ValidateBase::stringEqual(o.s, o.cname)); break;
			case K_PRED: { string a = preds::real({o.pat, o.lo, LI, LS}); refuted |= !preds::favourable(a); rec([&] { return fmt("%zu p ", i) + a; }); sim::NoFault g; a = string(); break; }
			default: break;
		}
	}
	{ sim::NoFault g; sim::hist("verdict\n"); }
	Verdicts::Verdict v = r.verdict == 42 && refuted ? Verdicts::WA : r.verdict == 42 ? Verdicts::AC : r.verdict == 43 ? Verdicts::WA : Verdicts::FAIL;
	switch (r.verdictVia) {
		case 0: ValidateBase::juryOut << v; break;
		case 1: (r.c.role == OV ? OutputValidator::teamOut : Interactor::teamOut) << v; break;
		case 2: v.exit(); break;
		default: v.exit(); break;
	}
}

// ---- judging ---------------------------------------------------------------------------
enum Mask { M_STATUS = 1, M_RESULTS = 2, M_DIAG = 4, M_FEEDBACK = 8, M_CONSTRAINTS = 16 };

string describe(const Run& r) {
	string s = fmt("role=%s args=", roleName[r.c.role]);
	for (auto& a : r.args) s += a + " ";
	s += fmt("strict=%d case=%d abs=%Lg rel=%Lg", r.spaceS, r.caseS, r.absTol, r.relTol);
	for (int i = 0; i < 3; i++) s += fmt(" %s=", streamName[i]) + sim::quote(r.data[i], 160);
	for (int i = 0; i < 3; i++) if (auto& w = r.own[i]; w.on) s += fmt(" own %s(src=%d strict=%d case=%d abs=%Lg rel=%Lg code=%d)", streamName[i], w.src, w.strict, w.cas, w.abs, w.rel, w.code);
	s += " ops:";
	for (auto& o : r.ops) {
		s += fmt(" %s", kindName[o.k]);
		if (o.k < W_JURY) s += fmt("@%s", streamName[o.st]);
		if (o.k >= STR_LEN && o.k <= INTS_BC) s += fmt("[%" PRId64 ",%" PRId64 ")", o.lo, o.hi);
		if (o.k >= REAL_B && o.k <= RSTRICTS_C) s += fmt("[%.20Lg,%.20Lg)d[%d,%d)", o.rlo, o.rhi, o.dmin, o.dmax);
		if (o.k == K_PRED) s += fmt("[%s, %" PRId64 "]", preds::name[o.pat], o.lo);
		if (o.k == EXP_STR || o.k == K_SEQ) s += sim::quote(o.s) + "/" + sim::quote(o.cname);
		if (o.k == EXP_INT) s += fmt("(%" PRId64 ")", o.lo);
		if (o.k == EXP_REAL || (o.k >= K_FEQ && o.k <= K_FGT)) s += fmt("(%.20Lg %.20Lg)", o.rlo, o.rhi);
		if (!o.cname.empty() && o.k < W_JURY) s += "#" + o.cname;
	}
	s += fmt(" verdict=%d", r.verdict);
	return s;
}

// the jury's text after its own writes: failure message (+ location)
void judgeDiag(const Run& r, const Model& m, const string& tail) {
	const MFail& f = m.fail;
	string D = describe(r);
	if (tail.size() < 2 || tail.find_first_not_of("\n ") == string::npos) { sim::violate("diag-missing", "failure '%s' left no message for the jury (jury text %s) %s", f.what.c_str(), sim::quote(tail).c_str(), D.c_str()); return; }
	size_t p = tail.rfind(" Line: ");
	for (auto& x : f.mention) {
		if (tail.substr(0, p).find(x) == string::npos) { sim::violate("diag-content", "message %s does not mention %s (failure '%s') %s", sim::quote(tail, 400).c_str(), sim::quote(x).c_str(), f.what.c_str(), D.c_str()); return; }
	}
	const string& data = m.data[m.failStream];
	bool seekable = r.own[m.failStream].on ? r.own[m.failStream].src != 1 || !sim::stdio_.pipe : m.failStream != TEAM || !sim::stdio_.pipe;
	// a token may itself contain such text only if it had blanks, which tokens have not
	if (p == string::npos) {
		if (f.loc && seekable && f.b < data.size()) sim::violate("diag-location-missing", "no location for rejected bytes [%zu,%zu) of %s; message %s %s", f.a, f.b, streamName[m.failStream], sim::quote(tail, 300).c_str(), D.c_str());
		return;
	}
	sim::probe("diag: location printed");
	if (!f.loc) { sim::violate("diag-location-bogus", "location printed for '%s' %s: %s", f.what.c_str(), D.c_str(), sim::quote(tail).c_str()); return; }
	long line = 0, col = 0; int used = 0;
	if (std::sscanf(tail.c_str() + p, " Line: %ld, Char: %ld%n", &line, &col, &used) < 2 || !used) return;
	if (tail[p + (size_t)used] != '\n') { sim::violate("diag-excerpt", "no line end after the location: %s", sim::quote(tail).c_str()); return; }
	used++;
	size_t ls = f.a ? data.rfind('\n', f.a - 1) : string::npos;
	ls = ls == string::npos ? 0 : ls + 1;
	long wantLine = 1 + (long)std::count(data.begin(), data.begin() + ls, '\n'), wantCol = (long)(f.a - ls);
	if (!graph(data[f.a]) && !ws(data[f.a])) { sim::probe("diag: token starts with a non-graphic byte"); return; }
	if (line != wantLine || col != wantCol) { sim::violate("diag-location", "rejected text %s is at line %ld char %ld but the report says line %ld char %ld; %s", sim::quote(data.substr(f.a, f.b - f.a)).c_str(), wantLine, wantCol, line, col, D.c_str()); return; }
	string rest = tail.substr(p + (size_t)used);
	size_t e = rest.find('\n');
	if (e == string::npos) { sim::violate("diag-excerpt", "no excerpt after location: %s", sim::quote(tail).c_str()); return; }
	string E = rest.substr(0, e), C = rest.substr(e + 1);
	if (size_t q = C.find('\n'); q != string::npos) C.resize(q);
	size_t l = C.find('^');
	if (l == string::npos || C.find_first_not_of(' ') != l || C.find_first_not_of('~', l + 1) != string::npos) { sim::violate("diag-marker", "marker line %s is malformed", sim::quote(C).c_str()); return; }
	size_t k = C.size() - l;
	size_t le = data.find('\n', ls);
	string full = data.substr(ls, (le == string::npos ? data.size() : le) - ls);
	string T = data.substr(f.a, f.b - f.a);
	if (T == "\n") { T = " "; full += ' '; }
	bool cutL = E.rfind("[...]", 0) == 0 && full.rfind("[...]", 0) != 0, cutR = E.size() >= 5 && E.compare(E.size() - 5, 5, "[...]") == 0 && (full.size() < 5 || full.compare(full.size() - 5, 5, "[...]") != 0 || full.size() > 80);
	string vis = E;
	if (cutR) vis.resize(vis.size() - 5);
	if (l + k > E.size()) { sim::violate("diag-marker", "marker [%zu,%zu) outside of the excerpt %s", l, l + k, sim::quote(E).c_str()); return; }
	bool good = E.substr(l, k) == T;
	if (!good && cutR && l + k == E.size() && l <= vis.size() && T.compare(0, vis.size() - l, vis.substr(l)) == 0) good = true;
	if (!good && cutR && l + k > vis.size() && l <= vis.size() && T.size() == k && T.compare(0, vis.size() - l, vis.substr(l)) == 0) good = true;
	string mid = cutL ? vis.substr(5) : vis;
	if (good && !mid.empty() && full.find(mid) == string::npos) good = false;
	if (good && !cutL && full.compare(0, vis.size(), vis) != 0) good = false;
	if (!good) sim::violate("diag-marker", "marker selects %s in excerpt %s but the rejected text is %s; %s", sim::quote(E.substr(std::min(l, E.size()), k)).c_str(), sim::quote(E).c_str(), sim::quote(T).c_str(), D.c_str());
	else { sim::probe(cutL ? "diag: excerpt cut left" : "diag: excerpt from line start"); if (cutR) sim::probe("diag: excerpt cut right"); if (line > 1) sim::probe("diag: later line"); }
}

void runOne(Run r, int mask) {
	genRun(r);
	Model m(r);
	m.run();
	if (m.ambiguous) { sim::probe("ambiguous tolerance, skipped"); return; }
	// machine
	bool stale = choose(3) == 1;
	if (r.c.role != IV) sim::put("/sim/test.in", r.data[TESTIN]);
	if (r.c.role == OV || r.c.role == INT) sim::put("/sim/test.ans", r.data[JURY]);
	if (stale && (r.c.role == OV || r.c.role == INT)) { sim::put("/sim/fb/judgemessage.txt", "stale stale stale stale stale"); sim::put("/sim/fb/teammessage.txt", "old message\nold message\n"); sim::fired(sim::F_STALE); }
	if (stale && r.ownMode >= 0) sim::put("/sim/fb/extra.txt", "stale extra\n");
	if (stale && r.constraintsFile) sim::put("/sim/constraints.txt", "stale constraints from an earlier and longer run 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20\n");
	sim::put("<stdin>", r.data[TEAM]);
	if (r.own[TEAM].on && r.own[TEAM].src == 0) sim::put("/sim/own.txt", r.data[TEAM]);
	sim::stdio_.pipe = choose(2);
	if (r.c.diag) sim::stdio_.pipe = choose(8) == 1;
	sim::stdio_.chunkMode = choose(3);
	if (r.longStream >= 0 && sim::stdio_.chunkMode == 1) sim::stdio_.chunkMode = 2;
	static const unsigned rates[] = {0, 2, 5};
	sim::plan.shortRead = rates[choose(3)];
	sim::plan.shortWrite = rates[choose(3)];
	sim::plan.eintr = choose(3) == 1 ? 4 : 0;
	sim::plan.fill = (unsigned char)choose(256);
	bool hard = false, wfault = false;
	if (r.c.faultMode == 1 && choose(4)) {
		hard = true;
		switch (choose(r.c.role == IV ? 2 : 4)) {
			case 0: sim::plan.alloc = choose(220); sim::plan.allocSticky = choose(3) == 1; break;
			case 1: sim::plan.eioStdin = choose(6); break;
			case 2: sim::plan.eioRead = choose(5); break;
			case 3: sim::plan.openFail = choose(6); break;
		}
	}
	if (r.c.faultMode == 2 && choose(4)) {
		wfault = true;
		static const char* const paths[] = {"judgemessage", "teammessage", "constraints", ""};
		sim::plan.onlyPath = paths[choose(4)];
		if (choose(2)) { sim::plan.enospc = choose(3); sim::plan.enospcPartial = choose(60); sim::plan.enospcSticky = choose(2); }
		else { sim::plan.eioWrite = choose(3); }
		if (choose(4) == 1) sim::plan.closeFail = choose(4);
	}
	sim::note("%s", describe(r).c_str());
#ifdef SIM_ALT
	bool thrown = choose(3) == 1;
	auto st = sim::spawn([&] {
		throwVerdict = thrown;
		if (!thrown) return body(r);
		try { body(r); } catch (int code) { std::exit(code); }
	}, sim::EXIT_REAL);
	if (thrown) sim::probe("verdict thrown");
#else
	auto st = sim::spawn([&] { body(r); }, sim::EXIT_REAL);
#endif
	auto& w = *sim::W;
	string H(w.hist, w.histLen);
	string got = H;
	bool inited = got.rfind("init\n", 0) == 0;
	if (inited) got.erase(0, 5);
	bool reached = got.size() >= 8 && got.compare(got.size() - 8, 8, "verdict\n") == 0;
	if (reached) got.resize(got.size() - 8);

	int want = m.aborted ? 134 : m.fail.failed ? r.codeOf(m.failStream) : m.refuted && r.verdict == 42 ? 43 : r.verdict;
	w.nontrivial = r.ops.size() >= 2 && inited;
	sim::sig(sim::mix(r.c.role * 64 + (m.fail.failed ? r.ops[m.failOp].k : KIND_COUNT), (r.spaceS * 2 + r.caseS) * 1000 + want));
	sim::sig(sim::stdio_.chunkMode * 8 + sim::stdio_.pipe);
	if (hard) sim::sig(77 + (sim::plan.alloc >= 0));
	if (!hard) {
		if (m.fail.failed) sim::probe(fmt("fail: %s", m.fail.what.c_str()).c_str()); else if (m.aborted) sim::probe("refused constraint type"); else sim::probe(want == 42 ? "accepted" : "explicit rejection");
		for (auto& o : r.ops) sim::probe(fmt("op: %s", kindName[o.k]).c_str());
	}
	string D = describe(r);
	if (!st.exited && st.signal == 11 && r.longStream >= 0) {
		if (hasPattern(r, r.longStream) && (mask != M_STATUS || ALT)) { sim::probe("crash in std::regex on a huge token (a finding of C01)"); return; }
		sim::violate(hasPattern(r, r.longStream) ? "regex-stack-overflow" : "crash", "the process crashed with SIGSEGV on a token of %s characters; %s", "more than 30000", D.c_str());
		return;
	}
	if (st.hang) { sim::violate("hang", "process does not terminate; %s", D.c_str()); return; }
	if (hard) {
		bool fired = false;
		long f0 = 0; (void)f0;
		// model of what may happen under a hard fault: results are a prefix of the truth; AC needs the whole truth
		string wantH = m.hist;
		Model cut(r);
		bool haveCut = false;
		if (r.c.faultMode == 1 && sim::plan.eioStdin >= 0) { haveCut = true; }
		(void)fired;
		if (mask & (M_STATUS | M_RESULTS)) {
			if (haveCut) {
				// error on the team stream: equivalent to the stream ending somewhere
				bool okPrefix = false;
				// results must be explained by some prefix of the data
				for (size_t n = 0; n <= r.data[TEAM].size() && !okPrefix; n++) {
					Model x(r);
					x.data[TEAM].resize(n);
					x.run();
					if (x.ambiguous) { okPrefix = true; break; }
					int ws_ = x.aborted ? 134 : x.fail.failed ? r.codeOf(x.failStream) : x.refuted && r.verdict == 42 ? 43 : r.verdict;
					if (x.hist == got && ws_ == st.shown()) okPrefix = true;
				}
				if (!okPrefix) sim::violate("fault-stdin", "after an I/O error on standard input the process ended %d with results %s: no prefix of the input explains that (fault-free status %d, results %s) %s", st.shown(), sim::quote(got).c_str(), want, sim::quote(wantH).c_str(), D.c_str());
				return;
			}
			if (wantH.compare(0, got.size(), got) != 0) { sim::violate("fault-results", "with an injected fault the program was handed wrong data: %s instead of a prefix of %s; status %d %s", sim::quote(got).c_str(), sim::quote(wantH).c_str(), st.shown(), D.c_str()); return; }
			// only the earned verdict may be shown; everything else must be visible as a failure of the judge
			bool ok = st.shown() != 0;
			if ((st.shown() == 42 || st.shown() == 43) && !(inited && st.shown() == want && got == wantH)) ok = false;
			if (st.shown() == 42 && !reached) ok = false;
			// libstdc++'s from_chars copies a token of more than 511 characters and reports a refused allocation as EINVAL
			bool longReal = false;
			if (st.shown() == 43 && inited && !ALT && w.failedAlloc > 512) {
				size_t next = 0, a = got.rfind('\n', got.size() < 2 ? 0 : got.size() - 2);
				if (!got.empty()) next = std::stoul(got.substr(a == string::npos ? 0 : a + 1)) + 1;
				while (next < r.ops.size() && r.ops[next].k > K_NOTEOF) next++;   // the read under way
				Kind k = next < r.ops.size() ? r.ops[next].k : K_EOF;
				size_t run = 0, longest = 0;
				for (unsigned char c : r.data[TEAM]) { run = c > 32 ? run + 1 : 0; longest = std::max(longest, run); }
				longReal = ((k >= REAL && k <= RSTRICTS_C) || k == EXP_REAL) && longest > 511;
			}
			if (!ok) sim::violate(longReal ? "long-real-exhausted-memory" : "fault-status", "with an injected fault the process ended with %d (fault-free status %d, init %s) %s", st.shown(), want, inited ? "completed" : "not completed", D.c_str());
		}
		return;
	}
	if (!inited && wfault && st.shown() == 134) { sim::probe("output file could not be created"); return; }
	if (!inited) { if (mask & M_STATUS) sim::violate("init", "initialisation did not complete (status %d, stderr %s) %s", st.shown(), sim::quote(sim::get("<stderr>")).c_str(), D.c_str()); return; }
	if ((mask & M_RESULTS) && got != m.hist) {
		size_t i = 0; while (i < got.size() && i < m.hist.size() && got[i] == m.hist[i]) i++;
		while (i && got[i - 1] != '\n') i--;
		sim::violate("results", "values read differ from the model: got ...%s want ...%s (model failure '%s', status %d) %s", sim::quote(got.substr(i), 300).c_str(), sim::quote(m.hist.substr(i), 300).c_str(), m.fail.what.c_str(), st.shown(), D.c_str());
		return;
	}
	if ((mask & M_STATUS) && st.shown() != want) { sim::violate("status", "process ended with %d, the model says %d (model failure '%s' on %s) results %s %s", st.shown(), want, m.fail.what.c_str(), m.failStream >= 0 ? streamName[m.failStream] : "-", sim::quote(got).c_str(), D.c_str()); return; }
#ifdef SIM_ALT
	if (want != 134 && w.user != 1) { sim::violate("exit-override", "the verdict %d did not go through the overridden exitVerdict; %s", want, D.c_str()); return; }
	sim::probe("verdict through the overridden exitVerdict");
#endif
	if (got != m.hist || st.shown() != want) return;     // other checks of this run need the model to agree
	string jury = (r.c.role == IV || r.c.role == AV) ? sim::get("<stdout>") : sim::get("/sim/fb/judgemessage.txt");
	string team = (r.c.role == OV || r.c.role == INT) ? sim::get("/sim/fb/teammessage.txt") : "";
	string err = sim::get("<stderr>");
	string out = (r.c.role == OV || r.c.role == INT) ? sim::get("<stdout>") : "";
	if (m.aborted) return;
	if ((mask & M_FEEDBACK) && !wfault) {
		string wj = m.jury, wt = m.team;
		if (!m.fail.failed) { if (r.verdictVia == 0) wj += "\n"; if (r.verdictVia == 1) wt += "\n"; }
		bool jok = m.fail.failed ? jury.compare(0, wj.size(), wj) == 0 : jury == wj;
		if (!jok) sim::violate("feedback-jury", "jury output is %s, expected %s%s; %s", sim::quote(jury, 500).c_str(), sim::quote(wj, 500).c_str(), m.fail.failed ? " plus the failure report" : "", D.c_str());
		else if (team != wt) sim::violate("feedback-team", "team message is %s, expected %s; %s", sim::quote(team, 500).c_str(), sim::quote(wt, 500).c_str(), D.c_str());
		else if (err != m.err) sim::violate("feedback-stderr", "stderr is %s, expected %s; %s", sim::quote(err, 500).c_str(), sim::quote(m.err, 500).c_str(), D.c_str());
		else if (string e = sim::get("/sim/fb/extra.txt"), we = (stale && r.ownMode == 2 ? "stale extra\n" : "") + m.mineOut; r.ownMode >= 0 && e != we) sim::violate("feedback-own", "the judge's own file holds %s, expected %s; %s", sim::quote(e, 500).c_str(), sim::quote(we, 500).c_str(), D.c_str());
		else if (out != m.out) sim::violate("feedback-stdout", "standard output is %s, expected %s; %s", sim::quote(out, 500).c_str(), sim::quote(m.out, 500).c_str(), D.c_str());
	}
	if ((mask & M_CONSTRAINTS) && (r.constraintsFile || r.ownLog) && !wfault) {
		string g = sim::get(r.ownLog ? "/sim/own_constraints.txt" : "/sim/constraints.txt"), wc = m.constraintsText();
		if (r.ownLog) {
			sim::probe("logger made by the judge");
			if (r.constraintsFile && !sim::get("/sim/constraints.txt").empty()) sim::violate("constraints", "the constraints file holds %s but nothing was logged for it; %s", sim::quote(sim::get("/sim/constraints.txt"), 700).c_str(), D.c_str());
		}
		if (g != wc) sim::violate("constraints", "constraints file is %s, expected %s; %s", sim::quote(g, 700).c_str(), sim::quote(wc, 700).c_str(), D.c_str());
		if (!wc.empty()) sim::probe("constraints file compared");
	}
	if ((mask & M_DIAG) && m.fail.failed && !wfault) {
		if (jury.compare(0, m.jury.size(), m.jury) != 0) { sim::violate("diag-jury", "jury output %s does not start with what was written before the failure", sim::quote(jury).c_str()); return; }
		if (team != m.team) { sim::violate("diag-leak-team", "failure report leaked to the team: %s", sim::quote(team, 400).c_str()); return; }
		if ((r.c.role == OV || r.c.role == INT) && out != m.out) { sim::violate("diag-leak-stdout", "failure report leaked to standard output: %s", sim::quote(out, 400).c_str()); return; }
		judgeDiag(r, m, jury.substr(m.jury.size()));
	}
}

Role anyRole() { return (Role)choose(4); }
sim::Register r1("verdict", [] { Run r; r.c.role = anyRole(); r.c.rawBytes = true; r.c.preds = true; runOne(r, M_STATUS); }, 4);
sim::Register r2("verdict-faults", [] { Run r; r.c.role = anyRole(); r.c.faultMode = 1; r.c.preds = choose(3) == 1; runOne(r, M_STATUS | M_RESULTS); }, 4);
sim::Register r3("tokens", [] { Run r; r.c.role = anyRole(); r.c.onlyTokens = true; r.c.rawBytes = true; r.c.mutate = 2; r.c.maxOps = 12; runOne(r, M_STATUS | M_RESULTS); }, 4);
sim::Register r4("typed", [] { Run r; r.c.role = anyRole(); r.c.compare = false; runOne(r, M_STATUS | M_RESULTS); }, 4);
sim::Register r5("diag", [] { Run r; r.c.role = anyRole(); r.c.diag = true; r.c.writes = choose(3) == 1; r.c.longLines = choose(2); r.c.maxOps = 14; r.c.mutate = 2; runOne(r, M_DIAG); }, 4);
sim::Register r6("feedback", [] { Run r; r.c.role = anyRole(); r.c.writes = true; r.c.maxOps = 14; r.c.constraints = choose(3) == 1; runOne(r, M_FEEDBACK | M_CONSTRAINTS | M_STATUS); }, 4);
sim::Register r7("feedback-faults", [] { Run r; r.c.role = anyRole(); r.c.writes = true; r.c.maxOps = 14; r.c.constraints = choose(2); r.c.faultMode = 2; runOne(r, M_STATUS | M_RESULTS); }, 2);
sim::Register r8("constraints", [] { Run r; r.c.role = (Role)choose(3); r.c.constraints = true; r.c.maxOps = 12; runOne(r, M_CONSTRAINTS | M_STATUS); }, 4);
sim::Register r9("flags", [] { Run r; r.c.role = anyRole(); r.c.flags = true; r.c.compare = true; r.c.mutate = 8; runOne(r, M_STATUS | M_RESULTS); }, 4);
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
