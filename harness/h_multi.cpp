// Chains of multipass validator / interactor processes over one feedback directory, with disk faults and crashes.
#include "../sim/core.h"
#include <cstdlib>
// SIM_ALT: another letter case, and the exit method the documentation suggests for validators with several threads
#ifdef SIM_ALT
namespace Settings {
	constexpr bool DEFAULT_CASE_LOWER = false;
	[[noreturn]] void exitVerdict(int exitCode) {
		sim::W->user = 1;
		std::quick_exit(exitCode);
	}
}
#endif
#include REPO_VALIDATE
#include <cinttypes>
#include <cstdio>
#include <cstring>

using sim::chance;
using sim::choose;
using sim::fmt;
using std::string;
using std::vector;

namespace {
enum Form { F_TOKENS, F_LINES, F_BIG, F_EMPTY, F_VEC };
struct Chunk { int how; string text; vector<Integer> v; };
enum End { E_NEXT, E_NEXT_MANIP_PASS, E_NEXT_MANIP_STATE, E_NEXT_MANIP_JURY, E_AC, E_WA, E_FAIL, E_BADREAD };
const char* const endName[] = {"NEXT()", "nextpass<<NEXT", "nextstate<<NEXT", "juryOut<<NEXT", "AC", "WA", "FAIL", "failed read"};
struct Pass {
	bool interactor = false;
	vector<Chunk> state, next, jury;     // interleaved by order
	vector<int> order;                   // 0 state, 1 next, 2 jury
	End end = E_AC;
	bool readPrev = true, readTest = true, flushState = false, cs = true;
	int readHow = 0;
	#ifdef SIM_ALT
	string folded(string t) const { if (!cs) for (char& c : t) if (c >= 'a' && c <= 'z') c = (char)(c - 32); return t; }
#else
	string folded(string t) const { if (!cs) for (char& c : t) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return t; }
#endif
	string stateText() const { string s; for (auto& c : state) s += c.text; if (end == E_NEXT_MANIP_STATE) s += "\n"; return s; }
	string nextText() const { string s; for (auto& c : next) s += c.text; if (end == E_NEXT_MANIP_PASS) s += "\n"; return s; }
	bool asksNext() const { return end <= E_NEXT_MANIP_JURY; }
};
struct Result { int pass = -1; bool inited = false, prevRead = false, testRead = false, verdict = false; string prev, test; };

vector<string> tokens(const string& s) { vector<string> r; string t; for (char c : s + " ") if (c == ' ' || (c >= 9 && c <= 13)) { if (!t.empty()) r.push_back(t); t.clear(); } else t += c; return r; }
string joined(const vector<string>& v) { string s; for (auto& t : v) s += t + "|"; return s; }

void genChunks(vector<Chunk>& out, bool allowBig) {
	unsigned n = choose(5);
	for (unsigned i = 0; i < n; i++) {
		Chunk c;
		c.how = choose(4);
		if (c.how == 0) { unsigned k = 1 + choose(12); for (unsigned j = 0; j < k; j++) c.text += (char)((choose(3) ? 'a' : 'A') + choose(26)); if (choose(8) == 7) { static const char odd[] = {'\0', '\x01', '\x08', '\x0e', '\x1a', '\x1b', '\x7f', '\x80', '\xc3', '\xff', '"', '%', '\\'}; c.text[choose(k)] = odd[choose(sizeof odd)]; sim::probe("unusual byte"); } c.text += choose(3) ? " " : "\n"; }
		else if (c.how == 1) { std::int64_t x = (std::int64_t)sim::word(); c.v = {x}; c.text = std::to_string(x) + "\n"; }
		else if (c.how == 2) { unsigned k = 1 + choose(allowBig && chance(1, 4) ? 4000 : 10); for (unsigned j = 0; j < k; j++) c.v.push_back((Integer)sim::range(-1000, 1000) * (Integer)(j + 1)); for (unsigned j = 0; j < k; j++) c.text += (j ? " " : "") + std::to_string(c.v[j]); c.text += "\n"; }
		else { unsigned k = allowBig && chance(1, 3) ? 1000 + choose(20000) : 1 + choose(100); for (unsigned j = 0; j < k; j++) c.text += j % 61 == 60 ? '\n' : (char)('0' + (j * 3 + i) % 75); c.text += " "; for (char& ch : c.text) if (ch == '\\') ch = '/'; }
		out.push_back(c);
	}
}
void put(OutputStream& os, const Chunk& c) {
	switch (c.how) {
		case 0: os << c.text; break;
		case 1: os << c.v[0] << std::endl; break;
		case 2: os << c.v << "\n"; break;
		default: for (size_t i = 0; i < c.text.size(); i += 997) os << c.text.substr(i, 997); break;
	}
}
void rec(const string& s) { sim::NoFault g; sim::hist(s + "\n"); sim::ev("result %s", sim::quote(s, 120).c_str()); }
void body(const Pass& p, const vector<string>& expectTest, int nprev) {
	vector<string> args = {"/sim/validator", "/sim/test.in", "/sim/test.ans", "/sim/fb"};
	if (p.cs) args.push_back("case_sensitive");
	if (nprev & 1) args[3] += "/";
	vector<char*> argv;
	for (auto& a : args) argv.push_back(a.data());
	argv.push_back(nullptr);
	if (p.interactor) Interactor::init((int)args.size(), argv.data()); else OutputValidator::init((int)args.size(), argv.data());
	Multipass::init();
	rec(fmt("pass %" PRId64, Multipass::pass));
	InputStream& test = p.interactor ? Interactor::testIn : OutputValidator::testIn;
	if (p.readTest) {
		string all;
		for (size_t i = 0; i < expectTest.size(); i++) all += test.string() + "|";
		test.eof();
		{ sim::NoFault g; rec("test " + all); }
	}
	if (p.readPrev && Multipass::pass > 0) {
		string all;
		// read whatever is there
		auto& ps = Multipass::prevstate;
		if (p.readHow == 0) { for (int i = 0; i < nprev; i++) all += ps.string() + "|"; ps.eof(); }
		else { auto v = ps.strings(nprev, ' '); for (auto& t : v) all += t + "|"; ps.eof(); }
		{ sim::NoFault g; rec("prev " + all); }
	}
	size_t a = 0, b = 0, c = 0;
	for (int o : p.order) {
		if (o == 0) put(Multipass::nextstate, p.state[a++]);
		else if (o == 1) put(Multipass::nextpass, p.next[b++]);
		else put(ValidateBase::juryOut, p.jury[c++]);
	}
	if (p.flushState) Multipass::nextstate << std::flush;
	if (p.end == E_BADREAD) (p.interactor ? Interactor::fromTeam : OutputValidator::teamAns).integer();
	{ sim::NoFault g; rec("verdict"); }
	switch (p.end) {
		case E_NEXT: Multipass::NEXT();
		case E_NEXT_MANIP_PASS: Multipass::nextpass << Multipass::NEXT; break;
		case E_NEXT_MANIP_STATE: Multipass::nextstate << Multipass::NEXT; break;
		case E_NEXT_MANIP_JURY: ValidateBase::juryOut << Multipass::NEXT; break;
		case E_AC: ValidateBase::juryOut << "ok" << Verdicts::AC; break;
		case E_WA: ValidateBase::juryOut << "no" << Verdicts::WA; break;
		default: Verdicts::FAIL.exit();
	}
}
Result parse(const string& H) {
	Result r;
	size_t p = 0;
	while (p < H.size()) {
		size_t e = H.find('\n', p);
		string l = H.substr(p, e - p);
		p = e + 1;
		if (l.rfind("pass ", 0) == 0) { r.inited = true; r.pass = atoi(l.c_str() + 5); }
		else if (l.rfind("test ", 0) == 0) { r.testRead = true; r.test = l.substr(5); }
		else if (l.rfind("prev ", 0) == 0) { r.prevRead = true; r.prev = l.substr(5); }
		else if (l == "verdict") r.verdict = true;
	}
	return r;
}
// which faults to inject into one pass: 0 none, 1 disk, 2 kill, 3 allocation, 4 read errors
const char* const faultKind[] = {"none", "disk", "kill", "alloc", "read error"};

void chain(bool faulty) {
	unsigned n = 1 + choose(chance(1, 6) ? 14 : 5);
	if (!faulty && chance(1, 400)) n = 90 + choose(220);   // more passes than a small counter holds
	bool leave = choose(4) == 1;            // the judge copies nextpass.in instead of moving it
	bool viaTest = choose(2);               // the next input is handed on as test input
	string testIn = "start 1\n";
	string prevState; bool havePrev = false;
	int done = 0;                           // passes completed
	vector<string> everState;               // complete states of all passes so far (tokens)
	bool crashed = false;                   // from now on the directory has seen a crash or failed pass
	bool torn = false;                      // ... which was an I/O error: its own files may have holes
	sim::put("/sim/test.ans", "");
	sim::put("<stdin>", "x\n");
	string D;
	string staleNext; bool haveStale = false;
	string crashedState;                    // what a crashed pass was writing
	for (unsigned k = 0; k < n; k++) {
		Pass p;
		p.interactor = choose(2);
		p.readPrev = choose(6) != 1; p.readTest = choose(6) != 1; p.readHow = choose(2); p.flushState = choose(3) == 1; p.cs = choose(3) != 1;
		genChunks(p.state, true); genChunks(p.next, true); genChunks(p.jury, false);
		size_t a = p.state.size(), b = p.next.size(), c = p.jury.size();
		while (a + b + c) { unsigned x = choose((std::uint32_t)(a + b + c)); int o = x < a ? 0 : x < a + b ? 1 : 2; p.order.push_back(o); if (o == 0) a--; else if (o == 1) b--; else c--; }
		bool last = k + 1 == n;
		p.end = last ? (End)choose(8) : (End)choose(4);
		if (last && p.end > E_NEXT_MANIP_JURY && choose(5) == 0) p.end = E_NEXT;
		sim::plan = sim::Plan();
		sim::stdio_ = sim::Stdio();
		sim::stdio_.pipe = choose(2);
		static const unsigned rates[] = {0, 2, 5};
		sim::plan.shortRead = rates[choose(3)]; sim::plan.shortWrite = rates[choose(3)]; sim::plan.eintr = choose(3) == 1 ? 4 : 0;
		sim::plan.fill = (unsigned char)choose(256);
		int f = 0;
		if (faulty && !crashed && chance(1, 2)) {
			f = 1 + choose(4);
			if (f == 1) {
				static const char* const paths[] = {"nextpass.in", "/.state", "/.pass", "", "judgemessage"};
				sim::plan.onlyPath = paths[choose(5)];
				switch (choose(4)) {
					case 0: sim::plan.enospc = choose(3); sim::plan.enospcPartial = choose(400); sim::plan.enospcSticky = choose(2); break;
					case 1: sim::plan.eioWrite = choose(4); break;
					case 2: sim::plan.openFail = choose(8); break;
					default: sim::plan.enospc = 0; sim::plan.enospcPartial = 0; sim::plan.enospcSticky = true; break;
				}
			} else if (f == 2) sim::plan.kill = choose(45);
			else if (f == 3) { sim::plan.alloc = choose(150); sim::plan.allocSticky = choose(2); }
			else sim::plan.eioRead = choose(6);
		}
		sim::put("/sim/test.in", testIn);
		auto et = tokens(testIn);
		auto pt = tokens(prevState);
		bool hadPassFile = sim::exists("/sim/fb/.pass");
		auto& w = *sim::W;
		w.histLen = 0; w.user = 0;
		string d = fmt("pass %u of %u as %s, ends with %s, fault %s, state %zu bytes, next %zu bytes", k, n, p.interactor ? "interactor" : "output validator", endName[p.end], faultKind[f], p.stateText().size(), p.nextText().size());
		sim::note("%s", d.c_str());
		// after a crash the number of tokens of the previous state is whatever the file holds
		int np = (int)pt.size();
		if (crashed) {
			string pn; int pc = -1;
			if (hadPassFile) { pn = sim::get("/sim/fb/.pass"); pc = pn.empty() ? 0 : atoi(pn.c_str()); }
			int me = pc + 1;
			np = (int)tokens(sim::get(me & 1 ? "/sim/fb/.state0" : "/sim/fb/.state1")).size();
		}
		auto st = sim::spawn([&] { body(p, et, np); }, sim::EXIT_REAL);
		Result r = parse(string(w.hist, w.histLen));
		if (D.size() > 3000) D = "... ";
		D += d + "; ";
		sim::sig(sim::mix(f * 100 + p.end * 10 + (k > 3 ? 3 : k), st.shown() * 4 + crashed * 2 + st.killed));
		w.nontrivial = true;
		if (st.hang) { sim::violate("hang", "the pass does not end: %s", D.c_str()); return; }
		sim::probe(fmt("end %s: %s", endName[p.end], f == 0 ? "no fault" : faultKind[f]).c_str());
		string nextFile = "/sim/fb/nextpass.in";
		string stFile = done % 2 == 0 ? "/sim/fb/.state0" : "/sim/fb/.state1";
		if (f == 0 && !crashed) {
			// fault-free link of the chain: everything exact
			int want = p.asksNext() || p.end == E_AC ? 42 : p.end == E_WA || p.end == E_BADREAD ? 43 : 1;
			if (!r.inited) { sim::violate("init", "initialisation failed (status %d, %s): %s", st.shown(), sim::quote(sim::get("<stderr>")).c_str(), D.c_str()); return; }
			if (r.pass != done) { sim::violate("pass-number", "the pass number is %d, expected %d: %s", r.pass, done, D.c_str()); return; }
			if (p.readTest && r.test != p.folded(joined(et))) { sim::violate("next-input", "input handed on reads %s, expected %s: %s", sim::quote(r.test).c_str(), sim::quote(p.folded(joined(et))).c_str(), D.c_str()); return; }
			if (p.readPrev && done > 0 && (!r.prevRead || r.prev != joined(pt))) { sim::violate("prev-state", "previous state reads %s (%s), expected %s; status %d: %s", sim::quote(r.prev).c_str(), r.prevRead ? "complete" : "incomplete", sim::quote(joined(pt)).c_str(), st.shown(), D.c_str()); return; }
#ifdef SIM_ALT
			if (w.user != 1) { sim::violate("exit-override", "the pass did not end through the overridden exitVerdict (status %d): %s", st.shown(), D.c_str()); return; }
			sim::probe("pass ended through the overridden exitVerdict");
#endif
			if (st.shown() != want) { sim::violate("status", "the pass ended with %d instead of %d: %s", st.shown(), want, D.c_str()); return; }
			if (p.asksNext()) {
				if (!sim::exists(nextFile) || sim::get(nextFile) != p.nextText()) { sim::violate("nextpass", "nextpass.in holds %zu bytes, %zu were written: %s vs %s: %s", sim::get(nextFile).size(), p.nextText().size(), sim::quote(sim::get(nextFile)).c_str(), sim::quote(p.nextText()).c_str(), D.c_str()); return; }
			} else {
				bool ex = sim::exists(nextFile);
				if (ex != haveStale || (ex && sim::get(nextFile) != staleNext)) { sim::violate("nextpass-leftover", "a pass ending with %s created or changed nextpass.in: %s", endName[p.end], D.c_str()); return; }
			}
		} else if (f != 0) {
			sim::probe(fmt("fault %s: status %d", faultKind[f], st.shown()).c_str());
			if (st.shown() == 42 && p.asksNext()) {
				// accepted link: what the next pass reads must be complete
				if (!r.verdict) { sim::violate("lost-pass", "the pass ended with 42 without having reached NEXT: %s", D.c_str()); return; }
				if (sim::get(nextFile) != p.nextText()) { sim::violate("lost-next", "the pass ended with 42 but nextpass.in holds %zu of %zu bytes: %s", sim::get(nextFile).size(), p.nextText().size(), D.c_str()); return; }
				if (sim::get(stFile) != p.stateText()) { sim::violate("lost-state", "the pass ended with 42 but its state file holds %zu of %zu bytes: %s", sim::get(stFile).size(), p.stateText().size(), D.c_str()); return; }
				if (atoi(sim::get("/sim/fb/.pass").c_str()) != done || sim::get("/sim/fb/.pass").empty()) { sim::violate("lost-counter", "the pass ended with 42 but the pass counter holds %s instead of %d: %s", sim::quote(sim::get("/sim/fb/.pass")).c_str(), done, D.c_str()); return; }
				if (r.pass != done) { sim::violate("pass-number", "the pass number is %d, expected %d, and the pass ended with 42: %s", r.pass, done, D.c_str()); return; }
			}
			if (r.inited && st.shown() == 42 && r.pass != done) { sim::violate("pass-number", "the pass number is %d, expected %d, and the pass ended with 42: %s", r.pass, done, D.c_str()); return; }
			if (r.prevRead && r.prev != joined(pt)) { sim::violate("prev-state", "with an injected fault the previous state reads %s, expected %s (status %d): %s", sim::quote(r.prev).c_str(), sim::quote(joined(pt)).c_str(), st.shown(), D.c_str()); return; }
			if (r.testRead && r.test != p.folded(joined(et))) { sim::violate("next-input", "with an injected fault the input reads %s, expected %s (status %d): %s", sim::quote(r.test).c_str(), sim::quote(p.folded(joined(et))).c_str(), st.shown(), D.c_str()); return; }
			if (st.shown() == 42 && !p.asksNext() && p.end != E_AC) { sim::violate("status", "ended with 42 although the judge's code says %s: %s", endName[p.end], D.c_str()); return; }
		} else {
			// first pass after a crash or a failed pass
			sim::probe("pass after a crash");
			if (r.prevRead && !torn) {
				// a complete read must be (a prefix of) the state of one single pass
				bool one = false;
				string got = r.prev;
				vector<string> all = everState;
				all.push_back(crashedState);
				for (auto& s : all) {
					string j = joined(tokens(s));
					// a torn state may end inside a token
					string g = got.empty() ? got : got.substr(0, got.size() - 1);
					if (j.compare(0, g.size(), g) == 0) one = true;
				}
				if (!one) { sim::violate("mixed-state", "after a crash the previous state reads %s, which no single pass has written: %s", sim::quote(got, 400).c_str(), D.c_str()); return; }
				sim::probe("state read after a crash");
			}
			int want = p.asksNext() || p.end == E_AC ? 42 : 0;
			if (st.shown() == 42 && !want) { sim::violate("status", "ended with 42 although the judge's code says %s: %s", endName[p.end], D.c_str()); return; }
			if (st.shown() == 42 && p.asksNext()) {
				if (sim::get(nextFile) != p.nextText()) { sim::violate("nextpass", "nextpass.in after a crash holds %zu bytes, %zu were written: %s", sim::get(nextFile).size(), p.nextText().size(), D.c_str()); return; }
				// its state must be where the following pass looks for it
				string pn = sim::get("/sim/fb/.pass");
				int pc = atoi(pn.c_str());
				string f2 = pc % 2 == 0 ? "/sim/fb/.state0" : "/sim/fb/.state1";
				if (pn.empty() || pc != r.pass || sim::get(f2) != p.stateText()) { sim::violate("lost-state", "after a crash a pass ended with 42 but counter %s / state %s (%zu bytes) are not its own (%d, %zu bytes): %s", sim::quote(pn).c_str(), f2.c_str(), sim::get(f2).size(), r.pass, p.stateText().size(), D.c_str()); return; }
			}
			return;
		}
		if (f != 0 && !(st.shown() == 42 && p.asksNext())) {
			crashed = true;
			torn = f != 2;
			crashedState = p.stateText();
			if (k + 1 == n) n++;          // always look at the directory once more
			continue;
		}
		if (!p.asksNext()) break;
		everState.push_back(p.stateText());
		prevState = p.stateText(); havePrev = true;
		(void)havePrev;
		done++;
		if (viaTest) testIn = p.nextText();
		if (leave) { staleNext = p.nextText(); haveStale = true; } else { sim::unlinkFile(nextFile); haveStale = false; }
		sim::probe(fmt("chain length %d", done > 8 ? 9 : done).c_str());
	}
}
sim::Register r1("chain", [] { chain(false); }, 3);
sim::Register r2("chain-faults", [] { chain(true); }, 3);
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
