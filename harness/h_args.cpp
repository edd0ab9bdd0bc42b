// Start-up of every kind of process: command line, settings, seeding, and everything that can go wrong before or during init.
#include "../sim/core.h"
#include REPO_VALIDATE
#include <cinttypes>
#include <cstdio>
#include <cstring>

using sim::chance;
using sim::choose;
using sim::fmt;
using std::string;
using std::vector;

namespace {
enum Role { IV, AV, OV, INT, GEN };
const char* const roleName[] = {"input validator", "answer validator", "output validator", "interactor", "generator"};
struct Val { const char* s; bool i; std::int64_t iv; bool r; long double rv; };
const Val pool[] = {
	{"0", true, 0, true, 0}, {"5", true, 5, true, 5}, {"-5", true, -5, true, -5}, {"+5", true, 5, true, 5}, {"+-5", false, 0, false, 0}, {"-+5", false, 0, false, 0}, {"++5", false, 0, false, 0},
	{"007", true, 7, true, 7}, {"9223372036854775807", true, INT64_MAX, true, 9223372036854775807.0L}, {"9223372036854775808", false, 0, true, 9223372036854775808.0L},
	{"-9223372036854775808", true, INT64_MIN, true, -9223372036854775808.0L}, {"-9223372036854775809", false, 0, true, -9223372036854775809.0L}, {"1e3", false, 0, true, 1000}, {"0.25", false, 0, true, 0.25L}, {".5", false, 0, true, 0.5L}, {"5.", false, 0, true, 5},
	{"1.5e-3", false, 0, true, 1.5e-3L}, {"-0.125", false, 0, true, -0.125L}, {"abc", false, 0, false, 0}, {"", false, 0, false, 0}, {"5x", false, 0, false, 0}, {"0x10", false, 0, false, 0}, {" 5", false, 0, false, 0},
	{"5 ", false, 0, false, 0}, {"1e99999", false, 0, false, 0}, {"-", false, 0, false, 0}, {"+", false, 0, false, 0}, {"--", false, 0, false, 0}, {"-x", false, 0, false, 0}, {"1,5", false, 0, false, 0}, {"1_000", false, 0, false, 0},
	{"yes", false, 0, false, 0}, {"12345678901234567890123", false, 0, true, 12345678901234567890123.0L}, {"1e", false, 0, false, 0}, {"e5", false, 0, false, 0}, {"42", true, 42, true, 42}, {"-0", true, 0, true, -0.0L},
};
const int NPOOL = sizeof pool / sizeof *pool;
std::map<string, Val> made;     // values written for this run
const Val* find(const string& s) { for (auto& v : pool) if (s == v.s) return &v; auto it = made.find(s); return it == made.end() ? nullptr : &it->second; }
string make() {
	string s; Val v{};
	switch (choose(5)) {
		case 0: { std::int64_t x = (std::int64_t)(sim::word() >> choose(64)); if (choose(2)) x = (std::int64_t)(0 - (std::uint64_t)x); s = std::to_string(x); v = {"", true, x, true, (long double)x}; break; }
		case 1: { std::int64_t k = sim::range(-100000, 100000); int e = choose(11); v.r = true; v.rv = ldexpl((long double)k, -e); s = fmt("%.*Lf", e ? 10 + (int)choose(6) : 0, v.rv); if (!e) { v.i = true; v.iv = k; } break; }
		case 2: { std::int64_t x = choose(1000); s = string(1 + choose(choose(4) ? 40 : 1500), '0') + std::to_string(x); v = {"", true, x, true, (long double)x}; break; }
		case 3: s = string(1 + choose(choose(4) ? 300 : 70000), (char)('g' + choose(20))) + "!"; break;
		default: s = "w" + std::to_string(choose(100000)); break;
	}
	made[s] = v;
	return s;
}
string brief(const string& s) {     // long answers are compared by length, ends and hash
	if (s.size() < 400) return s;
	return fmt("%s...%s (%zu bytes, hash %zu)", s.substr(0, 40).c_str(), s.substr(s.size() - 40).c_str(), s.size(), std::hash<string>()(s));
}
string anyVal() { return choose(4) ? string(pool[choose(NPOOL)].s) : make(); }
const char* const cmds[] = {"--n", "--name", "--max_n", "---", "--x=1", "--N", "--seedx", "--n2"};

struct Query { int kind; string name; std::int64_t i = 0; };
enum Misuse { NONE, DOUBLE_INIT, DOUBLE_INIT_OTHER, SET_AFTER, NO_INIT_RETURN, NO_INIT_VERDICT, MP_BEFORE, MISSING_ARGS, MISSING_TEST, MISSING_ANS, MISSING_DIR, PART_DIR, MISUSE_COUNT };
const char* const misuseName[] = {"none", "init twice", "two roles", "setting changed after init", "return without init", "verdict without init", "Multipass::init before init", "too few arguments", "no test file", "no answer file", "no feedback directory", "one message file not writable"};

struct Run {
	Role role; vector<string> args;
	Misuse mis = NONE; int which = 0;
	bool preC = false, setC = false, preS = false, setS = false, setA = false, setR = false; long double preA = 0, preR = 0;
	bool early = false;      // commands are queried with try/catch, recorded
	vector<Query> qs;
	int code = 42;
};

// ---- model ------------------------------------------------------------------------
struct Cmd { bool found = false; vector<string> p; };
bool isCmd(const string& s) { return s.size() > 2 && s[0] == '-' && s[1] == '-'; }
struct Model {
	const Run& r;
	bool initFails = false; string why;
	bool caseS = false, spaceS = false; long double A = 1e-6L, R = 1e-6L; bool seeded = false; std::int64_t seed = 0;
	explicit Model(const Run& r_) : r(r_) {}
	Cmd cmd(const string& n) const { Cmd c; for (size_t i = 0; i < r.args.size(); i++) if (r.args[i] == n && isCmd(n)) { c.found = true; for (size_t j = i + 1; j < r.args.size() && !isCmd(r.args[j]); j++) c.p.push_back(r.args[j]); break; } return c; }
	Cmd raw(const string& n) const { Cmd c; for (size_t i = 0; i < r.args.size(); i++) if (r.args[i] == n) { c.found = true; c.p.assign(r.args.begin() + i + 1, r.args.end()); break; } return c; }
	void fail(const string& w) { if (!initFails) { initFails = true; why = w; } }
	void tol(const char* n, bool a, bool b) {
		Cmd c = raw(n);
		if (c.p.empty()) return;
		const Val* v = find(c.p[0]);
		if (!v || !v->r) { fail(string("malformed ") + n); return; }
		if (a) A = v->rv;
		if (b) R = v->rv;
	}
	void run() {
		if (r.role == IV || r.role == AV) caseS = spaceS = true;
		if (r.role != IV && r.role != AV) { if (r.setC) caseS = r.preC; if (r.setS) spaceS = r.preS; }
		if (r.setA) A = r.preA;
		if (r.setR) R = r.preR;
		std::map<string, int> n;
		for (auto& a : r.args) if (isCmd(a) && n[a]++) fail("duplicate command");
		Cmd s = cmd("--seed");
		if (s.found) { const Val* v = s.p.empty() ? nullptr : find(s.p[0]); if (!v || !v->i) fail("malformed seed"); else { seeded = true; seed = v->iv; } }
		tol("float_tolerance", true, true); tol("float_absolute_tolerance", true, false); tol("float_relative_tolerance", false, true);
		if (raw("space_change_sensitive").found) spaceS = true;
		if (raw("case_sensitive").found) caseS = true;
	}
	string first(const Cmd& c, int kind, bool def) const {   // 0 string 1 integer 2 real
		if (c.p.empty()) return def ? (kind == 0 ? "dflt" : kind == 1 ? "-77" : fmt("%La", -7.5L)) : "throw";
		return one(c.p[0], kind);
	}
	string one(const string& s, int kind) const {
		if (kind == 0) return s;
		const Val* v = find(s);
		if (!v) return "throw";
		if (kind == 1) return v->i ? std::to_string(v->iv) : "throw";
		return v->r ? fmt("%La", v->rv) : "throw";
	}
	string list(const Cmd& c, int kind, int n) const {
		if (n >= 0 && (int)c.p.size() < n) return "throw";
		string s;
		for (int i = 0; i < (n < 0 ? (int)c.p.size() : n); i++) { string x = one(c.p[i], kind); if (x == "throw" && kind) return "throw"; s += x + "|"; }
		return s;
	}
	string answer(const Query& q) const {
		if (q.kind % 20 != 16 && q.kind % 20 != 17 && (q.name.empty() || q.name.find_first_of(" \t\n\v\f\r") != string::npos)) return "throw";   // no command can have such a name
		Cmd c = q.kind >= 20 ? raw(q.name) : cmd(q.name);
		switch (q.kind % 20) {
			case 0: return c.found ? "1" : "0";
			case 1: return std::to_string(c.p.size());
			case 2: return first(c, 0, false); case 3: return first(c, 0, true);
			case 4: return first(c, 1, false); case 5: return first(c, 1, true);
			case 6: return first(c, 2, false); case 7: return first(c, 2, true);
			case 8: { bool in = q.i >= 0 && q.i < (std::int64_t)c.p.size(); return in ? "1 " + one(c.p[q.i], 0) + " " + one(c.p[q.i], 1) + " " + one(c.p[q.i], 2) : "0 throw throw throw"; }
			case 9: return list(c, 0, -1); case 10: return list(c, 1, -1); case 11: return list(c, 2, -1);
			case 12: return list(c, 1, 0); case 13: return list(c, 1, 2); case 14: return list(c, 0, 1); case 15: return list(c, 2, 3);
			case 16: return q.i >= 0 && q.i < (std::int64_t)r.args.size() ? r.args[q.i] : "throw";
			case 17: { Cmd a; a.p = r.args; return std::to_string(a.p.size()) + ":" + list(a, 0, -1); }
			case 18: { bool in = q.i >= 0 && q.i < (std::int64_t)c.p.size(); return (in ? one(c.p[q.i], 1) : string("-77")); }
			default: { return c.found ? "1" : "0"; }
		}
	}
};

// ---- the process -----------------------------------------------------------------
void rec(const string& s) { sim::NoFault g; sim::hist(s + "\n"); sim::ev("%s", sim::quote(s, 200).c_str()); }
template<typename F> string tried(F f) { try { return f(); } catch (const std::exception&) { return "throw"; } }
template<typename T> string ps(const vector<T>& v) { string s; for (auto& x : v) { if constexpr (std::is_same_v<T, string>) s += x; else if constexpr (std::is_same_v<T, Integer>) s += std::to_string(x); else s += fmt("%La", (long double)x); s += "|"; } return s; }
string ps(const std::tuple<>&) { return ""; }
string rs(Real x) { return fmt("%La", (long double)x); }
string ask(const Query& q) {
	auto& A = ValidateBase::arguments;
	auto get = [&]() -> Command { return q.kind >= 20 ? A.getRaw(q.name) : A[std::string_view(q.name)]; };
	return tried([&]() -> string {
		switch (q.kind % 20) {
			case 0: return get().exists() ? "1" : "0";
			case 1: return std::to_string(get().parameterCount());
			case 2: return get().asString(); case 3: return get().asString("dflt");
			case 4: return std::to_string(get().asInteger()); case 5: return std::to_string(get().asInteger(-77));
			case 6: return rs(get().asReal()); case 7: return rs(get().asReal(-7.5L));
			case 8: { Command c = get(); Parameter p = c[q.i]; return string(p ? "1 " : "0 ") + tried([&] { return p.asString(); }) + " " + tried([&] { return std::to_string(p.asInteger()); }) + " " + tried([&] { return rs(p.asReal()); }); }
			case 9: return ps(get().asStrings()); case 10: return ps(get().asIntegers()); case 11: return ps(get().asReals());
			case 12: return ps(get().asIntegers<0>());
			case 13: { auto [a, b] = get().asIntegers<2>(); return std::to_string(a) + "|" + std::to_string(b) + "|"; }
			case 14: { auto [a] = get().asStrings<1>(); return a + "|"; }
			case 15: { auto [a, b, c] = get().asReals<3>(); return rs(a) + "|" + rs(b) + "|" + rs(c) + "|"; }
			case 16: return string(A[q.i]);
			case 17: { Command c = A.getRaw(); return std::to_string(c.parameterCount()) + ":" + ps(c.asStrings()); }
			case 18: { Command c = get(); return std::to_string(c[q.i].asInteger(-77)); }
			default: return bool(get()) ? "1" : "0";
		}
	});
}
void initRole(Role role, int argc, char** argv) {
	switch (role) {
		case IV: InputValidator::init(argc, argv); break;
		case AV: AnswerValidator::init(argc, argv); break;
		case OV: OutputValidator::init(argc, argv); break;
		case INT: Interactor::init(argc, argv); break;
		case GEN: Generator::init(argc, argv); break;
	}
}
string draws() { string s; for (int i = 0; i < 6; i++) s += std::to_string(Random::integer(0, 1'000'000'007)) + " "; return s; }
void body(const Run& r) {
	vector<string> args = r.args;
	vector<char*> argv;
	for (auto& a : args) argv.push_back(a.data());
	int argc = (int)argv.size();
	argv.push_back(nullptr);
	if (r.setC) ValidateBase::caseSensitive = r.preC;
	if (r.setS) ValidateBase::spaceSensitive = r.preS;
	if (r.setA) ValidateBase::floatAbsTol = r.preA;
	if (r.setR) ValidateBase::floatRelTol = r.preR;
	Verdicts::Verdict v(r.code);
	if (r.mis == NO_INIT_RETURN) return;
	if (r.mis == NO_INIT_VERDICT) { v.exit(); }
	if (r.mis == MP_BEFORE) { Multipass::init(); rec("multipass"); v.exit(); }
	initRole(r.role, argc, argv.data());
	rec("init");
	if (r.mis == DOUBLE_INIT) initRole(r.role, argc, argv.data());
	if (r.mis == DOUBLE_INIT_OTHER) initRole((Role)((r.role + 1 + r.which % 4) % 5), argc, argv.data());
	if (r.mis == SET_AFTER) {
		bool uncaught = r.which & 8;
		for (int i = 0; i < 4; i++) if (!uncaught || i == (r.which & 3)) {
			auto f = [&] { if (i == 0) ValidateBase::caseSensitive = !ValidateBase::caseSensitive; else if (i == 1) ValidateBase::spaceSensitive = !ValidateBase::spaceSensitive; else if (i == 2) ValidateBase::floatAbsTol = 0.5L; else ValidateBase::floatRelTol = 0.5L; };
			if (uncaught) { f(); rec("setting changed"); } else rec(tried([&] { f(); return string("changed"); }));
		}
	}
	rec(fmt("settings case=%d space=%d abs=%La rel=%La", (int)(bool)ValidateBase::caseSensitive, (int)(bool)ValidateBase::spaceSensitive, (long double)ValidateBase::floatAbsTol, (long double)ValidateBase::floatRelTol));
	rec("draws " + draws());
	for (auto& q : r.qs) rec(brief(ask(q)));
	if (r.role == GEN && r.which & 1) return;
	v.exit();
}

std::uint64_t cachedDefault = 0; string defaultDraws;

void startup(bool misuse) {
	Run r;
	r.role = (Role)choose(5);
	r.args = {"/sim/prog"};
	if (r.role != IV && r.role != GEN) r.args.push_back("/sim/test.in");
	if (r.role == OV || r.role == INT) { r.args.push_back("/sim/test.ans"); r.args.push_back("/sim/fb"); }
	size_t pos = r.args.size();
	// flags, commands, positionals in any order
	made.clear();
	bool many = chance(1, 80);
	unsigned n = many ? choose(choose(3) ? 12 : 60) : choose(9);
	vector<string> used;
	bool wild = chance(1, 4);       // malformed values allowed where init reads them
	for (unsigned i = 0; i < n; i++) {
		auto val = [&](bool real, bool tolerance) -> string {
			for (;;) { string t = anyVal(); const Val& v = *find(t); if (wild && choose(4) == 1) return t; if (real ? v.r : v.i) if (!tolerance || !(v.rv < 0)) return t; }
		};
		switch (choose(8)) {
			case 0: r.args.push_back("case_sensitive"); break;
			case 1: r.args.push_back("space_change_sensitive"); break;
			case 2: r.args.push_back("float_tolerance"); r.args.push_back(val(true, true)); break;
			case 3: r.args.push_back(choose(2) ? "float_absolute_tolerance" : "float_relative_tolerance"); r.args.push_back(val(true, true)); break;
			case 4: if (choose(2)) { bool dup = false; for (auto& u : used) if (u == "--seed") dup = true; if (!dup || wild) { used.push_back("--seed"); r.args.push_back("--seed"); if (!wild || choose(6)) r.args.push_back(val(false, false)); } } break;
			case 5: r.args.push_back(anyVal()); break;
			default: { string c = many && choose(2) ? "--c" + std::to_string(choose(1000)) : chance(1, 60) ? "--" + string(3 + choose(choose(3) ? 400 : 70000), 'n') : string(cmds[choose(8)]); bool dup = false; for (auto& u : used) if (u == c) dup = true; if (dup && !wild) break; used.push_back(c); r.args.push_back(c); unsigned k = choose(4); if (many && choose(2)) { static const unsigned ks[] = {10, 127, 128, 255, 256, 257, 300, 1000, 33000, 66000}; k = ks[choose(chance(1, 6) ? 10 : 8)]; if (k > 1000 && r.args.size() > 1000) k = 10; string a = anyVal(), b = anyVal(); if (k > 1000 && a.size() + b.size() > 12) { a = "5"; b = "x"; } while (k-- > 3) r.args.push_back(k % 3 ? a : b); sim::probe("command with many parameters"); } while (k--) r.args.push_back(anyVal()); break; }
		}
	}
	(void)pos;
	r.setC = choose(3) == 1; r.preC = choose(2); r.setS = choose(3) == 1; r.preS = choose(2);
	r.setA = choose(3) == 1; r.preA = ldexpl(1, -(int)choose(20)); r.setR = choose(3) == 1; r.preR = ldexpl(1, -(int)choose(20));
	static const int codes[] = {42, 43, 1};
	r.code = codes[choose(3)];
	r.which = choose(16);
	unsigned k = choose(8);
	for (unsigned i = 0; i < k; i++) {
		Query q;
		q.kind = choose(20) + 20 * choose(2);
		q.name = q.kind >= 20 && choose(2) ? sim::pick(vector<string>(r.args.begin(), r.args.end())) : string(cmds[choose(8)]);
		if (chance(1, 40)) { static const char* const in[] = {"", " ", "--n ", " --n", "--n 5", "--name\n", "--n\t1"}; q.name = in[choose(7)]; }
		if (!used.empty() && choose(many ? 2 : 6) == 0) q.name = sim::pick(used);
		q.i = sim::range(-1, 6);
		if (many && choose(2)) q.i = (std::int64_t)choose((std::uint32_t)r.args.size() + 2);
		if (chance(1, 8)) { static const std::int64_t far[] = {INT64_MIN, INT64_MAX, (std::int64_t)1 << 32, ((std::int64_t)1 << 32) + 1, 1 - ((std::int64_t)1 << 32), 65536, 256, 257, 128, -2, -255, (std::int64_t)1 << 61}; q.i = far[choose(12)]; }
		r.qs.push_back(q);
	}
	if (misuse) r.mis = (Misuse)choose(MISUSE_COUNT);
	Model m(r);
	m.run();
	bool needTest = r.role == AV || r.role == OV || r.role == INT, needFb = r.role == OV || r.role == INT;
	bool refuse = m.initFails;
	switch (r.mis) {
		case MISSING_ARGS: if (needTest) { r.args.resize(1 + choose((std::uint32_t)(needFb ? 3 : 1))); Model x(r); x.run(); refuse = true; } break;
		case MISSING_TEST: refuse |= needTest; break;
		case MISSING_ANS: refuse |= r.role == OV; break;
		case MISSING_DIR: if (needFb) { r.args[3] = "/sim/nodir/fb"; refuse = true; } break;
		case PART_DIR: refuse |= needFb; break;
		case DOUBLE_INIT: case DOUBLE_INIT_OTHER: case NO_INIT_RETURN: case NO_INIT_VERDICT: case MP_BEFORE: refuse = true; break;
		case SET_AFTER: if (r.which & 8) refuse = true; break;
		default: break;
	}
	if (!(r.mis == MISSING_TEST)) sim::put("/sim/test.in", "1 2 3\n");
	if (!(r.mis == MISSING_ANS)) sim::put("/sim/test.ans", "6\n");
	if (r.mis == PART_DIR && needFb) { sim::plan.openFail = r.which & 1; sim::plan.onlyPath = "message.txt"; }
	sim::put("<stdin>", "6\n");
	sim::plan.fill = (unsigned char)choose(256);
	string d = fmt("%s, misuse %s/%d, code %d, pre case=%d/%d space=%d/%d abs=%d/%La rel=%d/%La, argv", roleName[r.role], misuseName[r.mis], r.which, r.code, r.setC, r.preC, r.setS, r.preS, r.setA, r.preA, r.setR, r.preR);
	for (auto& a : r.args) { if (d.size() > 6000) { d += fmt(" ... %zu arguments", r.args.size()); break; } d += " [" + brief(a) + "]"; }
	sim::note("%s", d.c_str());
	auto st = sim::spawn([&] { body(r); }, sim::EXIT_REAL);
	auto& w = *sim::W;
	w.nontrivial = r.args.size() > 2 || r.mis;
	sim::sig(sim::mix(r.role * 16 + r.mis, refuse * 2 + m.initFails));
	sim::probe(fmt("%s: %s", roleName[r.role], refuse ? "refused" : "started").c_str());
	if (r.mis) sim::probe(fmt("misuse: %s", misuseName[r.mis]).c_str());
	if (m.initFails) sim::probe(fmt("refused: %s", m.why.c_str()).c_str());
	if (st.hang) { sim::violate("hang", "the process does not end: %s", d.c_str()); return; }
	string H(w.hist, w.histLen);
	if (refuse) {
		if (st.exited && (st.code == 42 || st.code == 43 || st.code == 0)) sim::violate("refuse", "the process should refuse to work (%s) but ended with %d; history %s; %s", m.initFails ? m.why.c_str() : misuseName[r.mis], st.shown(), sim::quote(H).c_str(), d.c_str());
		return;
	}
	int want = r.role == GEN && (r.which & 1) ? 0 : r.code;
	if (st.shown() != want) { sim::violate("status", "the process ended with %d instead of %d (stderr %s): history %s; %s", st.shown(), want, sim::quote(sim::get("<stderr>")).c_str(), sim::quote(H).c_str(), d.c_str()); return; }
	string W_ = "init\n";
	if (r.mis == SET_AFTER) W_ += "throw\nthrow\nthrow\nthrow\n";
	W_ += fmt("settings case=%d space=%d abs=%La rel=%La\n", m.caseS, m.spaceS, m.A, m.R);
	string dr;
	if (m.seeded) { Random::seed((UInteger)m.seed); dr = draws(); Random::seed(DEFAULT_SEED); sim::probe("seeded"); }
	else { if (defaultDraws.empty()) { Random::seed(DEFAULT_SEED); defaultDraws = draws(); Random::seed(DEFAULT_SEED); } dr = defaultDraws; }
	W_ += "draws " + dr + "\n";
	for (auto& q : r.qs) W_ += brief(m.answer(q)) + "\n";
	if (H != W_) {
		size_t i = 0; while (i < H.size() && i < W_.size() && H[i] == W_[i]) i++;
		while (i && W_[i - 1] != '\n') i--;
		size_t line = std::count(W_.begin(), W_.begin() + i, '\n');
		size_t base = 3 + (r.mis == SET_AFTER ? 4 : 0);
		string q = line >= base && line - base < r.qs.size() ? fmt("query %d name %s index %" PRId64, r.qs[line - base].kind, r.qs[line - base].name.c_str(), r.qs[line - base].i) : string("");
		sim::violate(line < base ? "settings" : "commands", "got %s, expected %s (%s); %s", sim::quote(H.substr(i, H.find('\n', i) - i)).c_str(), sim::quote(W_.substr(i, W_.find('\n', i) - i)).c_str(), q.c_str(), d.c_str());
	}
}
sim::Register r1("args", [] { startup(false); }, 4);
sim::Register r2("startup", [] { startup(true); }, 4);
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
