// An interactor process and a scripted team, connected by bounded pipes, under one seeded scheduler.
#include "../sim/core.h"
#include REPO_VALIDATE
#include <cinttypes>
#include <cstdio>
#include <cstring>

using sim::chance;
using sim::choose;
using sim::fmt;
using std::string;
using std::vector;

namespace {
enum StepKind { SEND, RECV, JUDGEREAD, LOG };
enum RecvKind { R_STR, R_INT, R_INTB, R_EXP, R_REAL, R_INTS, R_SP, R_NL, R_EOF };
struct Step {
	StepKind k = SEND;
	int how = 0;            // SEND: way of writing
	string text;            // SEND: exact bytes; LOG: bytes
	vector<std::int64_t> v;
	RecvKind r = R_STR; std::int64_t lo = 0, hi = 0; string exp; int count = 0;
	string reply;           // RECV: what a correct team sends for it
};
enum TeamMode { FOLLOW, EAGER, CUT, DIE, GARBAGE, STOPREAD, STALL, SILENT };
const char* const teamName[] = {"follow", "eager", "close early", "die", "garbage", "stop reading", "stall then die", "silent"};
struct Run { vector<Step> steps; bool strict = false; string testIn; int verdict = 42, via = 0; TeamMode mode = FOLLOW; int untied = 0; vector<string> args; };

bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
char lcc(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }

// ---- model: what the interactor must read from the byte sequence D and how it must end --------------------
struct Model {
	string hist; bool failed = false, needsMore = false; string toTeam; string jury, teamMsg;   // needsMore: the last read depends on what comes after D
	void run(const Run& r, const string& D) {
		size_t p = 0;
		auto add = [&](const string& s) { hist += s + "\n"; };
		auto tok = [&](string& t) {
			if (!r.strict) while (p < D.size() && ws(D[p])) p++;
			if (p >= D.size()) { needsMore = true; return false; }
			if (r.strict && !((unsigned char)D[p] > 32 && (unsigned char)D[p] < 127)) return false;
			size_t a = p;
			while (p < D.size() && !ws(D[p])) p++;
			if (p >= D.size()) needsMore = true;
			t = D.substr(a, p - a);
			for (char& c : t) c = lcc(c);
			return true;
		};
		auto integer = [&](std::int64_t& v) {
			string t;
			if (!tok(t)) return false;
			size_t i = t[0] == '-';
			if (t.size() - i > 18 || t.size() == i) return false;
			for (size_t j = i; j < t.size(); j++) if (t[j] < '0' || t[j] > '9') return false;
			if (t != "0" && t[i] == '0') return false;
			v = std::stoll(t);
			return true;
		};
		for (size_t i = 0; i < r.steps.size() && !failed; i++) {
			const Step& s = r.steps[i];
			if (s.k == SEND) toTeam += s.text;
			if (s.k == LOG) { if (s.how == 1) teamMsg += s.text; else jury += s.text; }
			if (s.k != RECV) continue;
			string t; std::int64_t v = 0;
			needsMore = false;
			switch (s.r) {
				case R_STR: if (tok(t)) add(fmt("%zu s ", i) + t); else failed = true; break;
				case R_INT: case R_INTB: if (integer(v) && (s.r == R_INT || (v >= s.lo && v < s.hi))) add(fmt("%zu i %" PRId64, i, v)); else failed = true; break;
				case R_EXP: { string e = s.exp; for (char& c : e) c = lcc(c); if (tok(t) && t == e) add(fmt("%zu ok", i)); else failed = true; break; }
				case R_REAL: { if (!tok(t)) { failed = true; break; } int n = 0; double d = 0; if (std::sscanf(t.c_str(), "%lf%n", &d, &n) == 1 && (size_t)n == t.size() && t.find_first_not_of("0123456789.-") == string::npos) add(fmt("%zu r %a", i, d)); else failed = true; break; }
				case R_INTS: { string all; for (int j = 0; j < s.count && !failed; j++) { if (!integer(v)) failed = true; else { all += std::to_string(v) + "|"; if (j + 1 < s.count && r.strict) { needsMore = p >= D.size(); if (p >= D.size() || D[p] != ' ') failed = true; p++; } } } if (!failed) add(fmt("%zu I ", i) + all); break; }
				case R_SP: case R_NL: if (r.strict) { needsMore = p >= D.size(); if (p >= D.size() || D[p] != (s.r == R_SP ? ' ' : '\n')) failed = true; p++; } if (!failed) add(fmt("%zu ok", i)); break;
				case R_EOF: if (!r.strict) while (p < D.size() && ws(D[p])) p++; needsMore = p >= D.size(); if (p < D.size()) failed = true; else add(fmt("%zu ok", i)); break;
			}
		}
		if (!failed && r.via == 1) toTeam += "\n";      // a verdict ends its line
	}
};

string describe(const Run& r) {
	string s = fmt("strict=%d untied=%d team=%s capacity=%u chunk=%u verdict=%d steps:", r.strict, r.untied, teamName[r.mode], sim::stdio_.capacity, sim::stdio_.chunkMode, r.verdict);
	static const char* const rn[] = {"string", "integer", "integer(b)", "expect", "real", "integers", "space", "newline", "eof"};
	for (auto& x : r.steps) {
		if (x.k == SEND) s += fmt(" send%d[%zu]", x.how, x.text.size());
		else if (x.k == RECV) s += fmt(" %s", rn[x.r]);
		else s += x.k == LOG ? " log" : " judgeread";
	}
	return s;
}

// ---- the team -------------------------------------------------------------------------
struct Team {
	const Run& r;
	size_t step = 0, need = 0, got = 0;       // bytes expected up to this step, bytes received
	size_t replyPos = 0;
	size_t dieAfter = SIZE_MAX;               // bytes sent before the fault hits
	size_t stopReadAt = SIZE_MAX;
	size_t sent = 0;
	bool gone = false, silent = false, mute = false;   // mute: waits for a reply after it has sent garbage
	string garbage;
	explicit Team(const Run& r_) : r(r_) {}
	bool drain() {
		if (got >= stopReadAt) return false;
		size_t a = sim::toPeer.avail();
		if (!a) return false;
		size_t k = 1 + choose((std::uint32_t)std::min<size_t>(a, 8192));
		if (stopReadAt != SIZE_MAX) k = std::min(k, stopReadAt - got);
		if (choose(2)) k = a < k ? a : k;
		sim::toPeer.rd += k;
		got += k;
		sim::ev("team reads %zu", k);
		return true;
	}
	void leave(const char* how) { gone = true; sim::fromPeer.wclosed = true; sim::toPeer.rclosed = true; sim::fired(sim::F_PEERDEATH); sim::ev("team %s", how); }
	void send(const string& s) { sim::peerWrite(s); sent += s.size(); }
	// returns true if it did something
	bool act() {
		while (step < r.steps.size() && r.steps[step].k != RECV) {
			if (r.steps[step].k == SEND) need += r.steps[step].text.size();
			step++;
			replyPos = 0;
		}
		if (step >= r.steps.size()) {
			if (sim::fromPeer.wclosed) return false;
			if (r.mode == FOLLOW || r.mode == EAGER) {
				// end of the protocol: close the sending side
				if (got < need && r.mode == FOLLOW) return false;
				sim::fromPeer.wclosed = true; sim::ev("team closes"); return true;
			}
			sim::fromPeer.wclosed = true;
			return true;
		}
		if (r.mode != EAGER && got < need) return false;
		const string& rep = r.steps[step].reply;
		if (sent >= dieAfter) {
			switch (r.mode) {
				case CUT: if (!sim::fromPeer.wclosed) { sim::fromPeer.wclosed = true; sim::fired(sim::F_CUT); sim::ev("team closes its output"); return true; } return false;
				case DIE: leave("dies"); return true;
				case STALL: return false;       // never continues
				case GARBAGE: if (!garbage.empty()) { send(garbage); garbage.clear(); sim::fired(sim::F_CORRUPT); return true; } if (mute) return false; break;
				default: break;
			}
		}
		if (replyPos < rep.size()) {
			size_t left = rep.size() - replyPos;
			size_t k = choose(3) ? left : 1 + choose((std::uint32_t)left);
			if (dieAfter != SIZE_MAX && r.mode != GARBAGE) k = std::max<size_t>(1, std::min(k, dieAfter - sent));
			send(rep.substr(replyPos, k));
			replyPos += k;
			return true;
		}
		step++;
		replyPos = 0;
		return true;
	}
	sim::PeerState operator()() {
		if (gone) return sim::PEER_GONE;
		bool first = choose(2);
		if (first && drain()) return sim::PEER_PROGRESS;
		if (r.mode != SILENT && act()) return sim::PEER_PROGRESS;
		if (!first && drain()) return sim::PEER_PROGRESS;
		return sim::PEER_BLOCKED;
	}
};

// ---- the interactor -----------------------------------------------------------------------
size_t written;
template<typename F> void rec(F f) { string s; { sim::NoFault g; s = f(); sim::hist(s + "\n"); sim::ev("result %s", sim::quote(s).c_str()); } }
// after std::flush or std::endl everything written is in the pipe
const Run* current;
void flushed() {
	sim::NoFault g;
	if (sim::toPeer.rclosed) return;
	sim::File* f = sim::file("<toteam>");
	size_t d = f ? f->len : 0;
	if (d != written) sim::violate("unflushed", "only %zu of %zu bytes were delivered after a flush; %s", d, written, describe(*current).c_str());
}
void body(const Run& r) {
	current = &r;
	vector<char*> argv; vector<string> args = r.args;
	for (auto& a : args) argv.push_back(a.data());
	int argc = (int)argv.size();
	argv.push_back(nullptr);
	Interactor::init(argc, argv.data());
	if (r.untied) std::cin.tie(nullptr);
	written = 0;
	using Interactor::toTeam;
	using Interactor::fromTeam;
	for (size_t i = 0; i < r.steps.size(); i++) {
		const Step& s = r.steps[i];
		if (r.untied && s.k == RECV && (!i || r.steps[i - 1].k != RECV)) { if (r.untied == 1) toTeam << std::flush; else toTeam << "" << std::flush; flushed(); }
		switch (s.k) {
			case SEND:
				switch (s.how) {
					case 0: toTeam << s.text; break;
					case 1: toTeam << s.text.substr(0, s.text.size() - 1) << std::endl; break;
					case 2: toTeam << s.v << '\n'; break;
					case 3: toTeam << s.v[0] << ' ' << s.v[1] << std::endl; break;
					case 4: for (char c : s.text) toTeam << c; break;
					case 5: toTeam << std::make_tuple(s.v[0], true, s.v[1]) << '\n'; break;
					case 6: toTeam << join(s.v, ',') << "\n" << std::flush; break;
				}
				written += s.text.size();
				if (s.how == 1 || s.how == 3 || s.how == 6) flushed();
				break;
			case RECV:
				switch (s.r) {
					case R_STR: { auto t = fromTeam.string(); rec([&] { return fmt("%zu s ", i) + t; }); break; }
					case R_INT: { auto v = fromTeam.integer(); rec([&] { return fmt("%zu i %" PRId64, i, v); }); break; }
					case R_INTB: { auto v = fromTeam.integer(s.lo, s.hi); rec([&] { return fmt("%zu i %" PRId64, i, v); }); break; }
					case R_EXP: fromTeam.expectString(s.exp); rec([&] { return fmt("%zu ok", i); }); break;
					case R_REAL: { auto v = fromTeam.real(); rec([&] { return fmt("%zu r %a", i, (double)v); }); break; }
					case R_INTS: { auto v = fromTeam.integers(s.count, ' '); rec([&] { string all = fmt("%zu I ", i); for (auto x : v) all += std::to_string(x) + "|"; return all; }); break; }
					case R_SP: fromTeam.space(); rec([&] { return fmt("%zu ok", i); }); break;
					case R_NL: fromTeam.newline(); rec([&] { return fmt("%zu ok", i); }); break;
					case R_EOF: fromTeam.eof(); rec([&] { return fmt("%zu ok", i); }); break;
				}
				break;
			case JUDGEREAD: Interactor::testIn.integer(); break;
			case LOG:
				if (s.how == 0) Interactor::juryOut << s.text;
				else if (s.how == 1) Interactor::teamOut << s.text;
				else Interactor::juryOut << s.text.substr(0, s.text.size() - 1) << std::endl;
				break;
		}
	}
	{ sim::NoFault g; sim::hist("verdict\n"); }
	auto v = r.verdict == 42 ? Verdicts::AC : r.verdict == 43 ? Verdicts::WA : Verdicts::FAIL;
	if (r.via == 0) Interactor::juryOut << "done" << v;
	else if (r.via == 1) Interactor::toTeam << v;
	else v.exit();
}

string word() { string s; for (unsigned n = 1 + choose(8); n--;) s += (char)((choose(2) ? 'a' : 'A') + choose(26)); return s; }
void gen(Run& r, bool faulty) {
	r.args = {"/sim/interactor", "/sim/test.in", "/sim/test.ans", "/sim/fb"};
	r.strict = choose(3) == 1;
	if (r.strict) r.args.push_back("space_change_sensitive");
	r.mode = faulty ? (TeamMode)(CUT + choose(6)) : (TeamMode)choose(2);
	bool many = chance(1, 300);
	unsigned n = many ? 200 + choose(500) : 1 + choose(14);
	if (many) sim::probe("interaction of more than 200 steps");
	size_t total = 0;
	for (unsigned i = 0; i < n; i++) {
		Step s;
		switch (choose(8)) {
			case 0: case 1: case 2: {
				s.k = SEND; s.how = choose(7);
				s.v = {(std::int64_t)choose(1000), -(std::int64_t)choose(1000)};
				for (unsigned k = choose(6); k--;) s.v.push_back(sim::range(-1000000, 1000000));
				if (s.how == 2 || s.how == 6) { if (!many && choose(6) == 1) for (int k = 0; k < 3000; k++) s.v.push_back(k); string t; for (size_t k = 0; k < s.v.size(); k++) t += (k ? (s.how == 6 ? "," : " ") : "") + std::to_string(s.v[k]); s.text = t + "\n"; }
				else if (s.how == 3) s.text = fmt("%" PRId64 " %" PRId64 "\n", s.v[0], s.v[1]);
				else if (s.how == 5) s.text = fmt("%" PRId64 " true %" PRId64 "\n", s.v[0], s.v[1]);
				else {
					static const unsigned sizes[] = {1, 4, 60, 500, 4095, 4096, 4097, 20000, 70000};
					unsigned sz = sizes[choose(many ? 3 : chance(1, 4) ? 9 : 4)];
					if (s.how == 4) sz = std::min(sz, 600u);
					if (total + sz > 200000) sz = 5;
					for (unsigned k = 0; k + 1 < sz; k++) s.text += (char)('a' + (k * 7 + i) % 26);
					s.text += choose(4) || s.how == 1 ? '\n' : '?';
				}
				total += s.text.size();
				break;
			}
			case 3: case 4: case 5: {
				s.k = RECV;
				s.r = (RecvKind)choose(6);
				std::int64_t v = sim::range(-100, 1000);
				s.lo = v - choose(10); s.hi = v + 1 + choose(10);
				switch (s.r) {
					case R_STR: s.reply = word(); break;
					case R_INT: case R_INTB: s.reply = std::to_string(v); break;
					case R_EXP: s.exp = word(); s.reply = s.exp; break;
					case R_REAL: s.reply = fmt("%" PRId64 ".%u", v, choose(100)); break;
					default: s.count = 1 + (int)choose(!many && chance(1, 6) ? 2000 : 5); for (int k = 0; k < s.count; k++) s.reply += (k ? " " : "") + std::to_string((v + k) % 977); break;
				}
				if (!r.strict) { static const char* const e[] = {"\n", " ", "\r\n", "\n\n"}; s.reply += e[choose(4)]; }
				break;
			}
			case 6: s.k = JUDGEREAD; r.testIn += std::to_string(choose(100)) + "\n"; break;
			default: s.k = LOG; s.how = choose(3); s.text = word() + "\n"; if (!many && chance(1, 6)) s.text = string(3000, 'L') + "\n"; break;
		}
		r.steps.push_back(s);
		// the separator follows at once: the end of a token is only known when the next byte is there
		if (r.strict && s.k == RECV) { Step q; q.k = RECV; q.r = choose(2) ? R_NL : R_SP; q.reply = q.r == R_NL ? "\n" : " "; r.steps.push_back(q); }
	}
	if (choose(3) == 1) { Step q; q.k = RECV; q.r = R_EOF; r.steps.push_back(q); }
	static const int vs[] = {42, 42, 43, 1};
	r.verdict = vs[choose(4)];
	r.via = choose(3);
	r.untied = choose(4) == 1 ? 1 + choose(2) : 0;
}

void exchange(bool faulty) {
	Run r;
	gen(r, faulty);
	static const unsigned caps[] = {65536, 4096, 1, 16, 512};
	sim::stdio_.interactive = true;
	sim::stdio_.capacity = caps[choose(5)];
	if (sim::stdio_.capacity < 512) for (auto& s : r.steps) if (s.k == SEND && s.text.size() > 2500 && s.how != 2 && s.how != 6) { s.text = s.text.substr(0, 2000) + "\n"; }
	sim::stdio_.chunkMode = choose(3);
	static const unsigned bufs[] = {0, 1024, 16, 65536};
	sim::stdio_.bufSize = bufs[choose(4)];
	sim::stdio_.sigpipeDefault = choose(2);
	sim::plan.shortWrite = choose(3) == 1 ? 3 : 0;
	sim::plan.shortRead = choose(3) == 1 ? 3 : 0;
	sim::plan.fill = (unsigned char)choose(256);
	sim::put("/sim/test.in", r.testIn);
	sim::put("/sim/test.ans", "");
	size_t totalReply = 0, totalSend = 0;
	for (auto& s : r.steps) { totalReply += s.reply.size(); if (s.k == SEND) totalSend += s.text.size(); }
	Team team(r);
	if (faulty) {
		if (r.mode == STOPREAD) team.stopReadAt = choose((std::uint32_t)totalSend + 1);
		else team.dieAfter = choose((std::uint32_t)totalReply + 1);
		if (r.mode == GARBAGE) { static const char* const g[] = {"\0\x01garbage\xff ", "999999999999999999999999 ", "-", "\n\n\n", " ", "x", "1e99999 ", "nan "}; int k = choose(8); team.garbage = k == 0 ? string("\0\x01garbage\xff ", 11) : g[k]; if (choose(5) == 1) team.garbage = string(20000, 'z'); team.mute = choose(2); if (team.mute && choose(2)) team.garbage = " " + team.garbage + " "; }
	}
	sim::note("%s", describe(r).c_str());
	sim::peerStep = [&] { return team(); };
	bool lagged = false;
	sim::onReadBlock = [&] {
		sim::NoFault g;
		if (sim::toPeer.rclosed || lagged) return;
		sim::File* f = sim::file("<toteam>");
		size_t d = f ? f->len : 0;
		if (d != written) { lagged = true; sim::violate("undelivered", "the interactor waits for the team although only %zu of %zu bytes it has written were delivered; %s", d, written, describe(r).c_str()); }
	};
	auto st = sim::spawn([&] { body(r); }, sim::EXIT_REAL);
	auto& w = *sim::W;
	string H(w.hist, w.histLen);
	bool reached = H.size() >= 8 && H.compare(H.size() - 8, 8, "verdict\n") == 0;
	if (reached) H.resize(H.size() - 8);
	string D = sim::get("<fromteam>");
	Model m;
	m.run(r, D);
	w.nontrivial = r.steps.size() >= 3;
	sim::sig(sim::mix(r.mode * 100 + (m.failed ? 50 : 0) + st.shown(), sim::stdio_.capacity * 4 + sim::stdio_.chunkMode));
	sim::sig(r.steps.size() * 8 + st.deadlock * 2 + r.strict);
	string DD = describe(r);
	if (st.hang) { sim::violate("hang", "the interactor does not end: %s", DD.c_str()); return; }
	if (w.violated) return;
	bool follows = r.mode == FOLLOW || r.mode == EAGER;
	if (follows && st.deadlock) { sim::violate("deadlock", "both sides follow the protocol but neither can continue; delivered %zu bytes, team sent %zu; %s", sim::get("<toteam>").size(), D.size(), DD.c_str()); return; }
	string got = sim::get("<toteam>");
	if (st.deadlock) sim::probe("team stalled until killed");
	if (st.deadlock && !m.needsMore && got.size() >= m.toTeam.size()) { sim::violate("waits-in-vain", "the interactor waits for the team although what it got (%s) already %s; %s", sim::quote(D, 200).c_str(), m.failed ? "is to be rejected" : "answers all reads", DD.c_str()); return; }
	if (m.toTeam.compare(0, got.size(), got) != 0 && (m.failed || got.size() <= m.toTeam.size())) { size_t i = 0; while (i < got.size() && i < m.toTeam.size() && got[i] == m.toTeam[i]) i++; sim::violate("to-team", "bytes received by the team differ from those written at offset %zu; %s", i, DD.c_str()); return; }
	if (got.size() > m.toTeam.size()) { sim::violate("to-team", "the team received %zu bytes but only %zu were written: extra %s; %s", got.size(), m.toTeam.size(), sim::quote(got.substr(m.toTeam.size())).c_str(), DD.c_str()); return; }
	if (st.sigpipe) {
		sim::probe("ended by SIGPIPE");
		if (m.hist.compare(0, H.size(), H) != 0) sim::violate("from-team", "values read differ: got %s want a prefix of %s; %s", sim::quote(H).c_str(), sim::quote(m.hist).c_str(), DD.c_str());
		if (follows) sim::violate("sigpipe", "SIGPIPE with a team that follows the protocol; %s", DD.c_str());
		return;
	}
	if (H != m.hist) { sim::violate("from-team", "values read differ: got %s want %s (team sent %s, status %d); %s", sim::quote(H, 400).c_str(), sim::quote(m.hist, 400).c_str(), sim::quote(D, 300).c_str(), st.shown(), DD.c_str()); return; }
	int want = m.failed ? 43 : r.verdict;
	if (st.shown() != want) { sim::violate("status", "ended with %d instead of %d; team sent %s; %s", st.shown(), want, sim::quote(D, 300).c_str(), DD.c_str()); return; }
	if (reached == m.failed) { sim::violate("status", "continued after a failed read; %s", DD.c_str()); return; }
	bool lost = sim::W->fired[sim::F_EPIPE] || team.gone;
	if (got.size() != m.toTeam.size() && (follows || r.mode == CUT || r.mode == GARBAGE) && !lost) { sim::violate("undelivered-at-verdict", "only %zu of %zu bytes were delivered when the process had ended; %s", got.size(), m.toTeam.size(), DD.c_str()); return; }
	string jury = sim::get("/sim/fb/judgemessage.txt"), tm = sim::get("/sim/fb/teammessage.txt");
	string wj = m.jury;
	if (!m.failed && r.via == 0) wj += "done\n";
	if (m.failed ? jury.compare(0, wj.size(), wj) != 0 || jury.size() == wj.size() : jury != wj) sim::violate("jury", "judge message %s, expected %s; %s", sim::quote(jury).c_str(), sim::quote(wj).c_str(), DD.c_str());
	if (tm != m.teamMsg) sim::violate("team-message", "team message %s, expected %s; %s", sim::quote(tm).c_str(), sim::quote(m.teamMsg).c_str(), DD.c_str());
	sim::probe(fmt("team %s: %s", teamName[r.mode], m.failed ? "rejected" : "verdict reached").c_str());
}
sim::Register r1("inter", [] { exchange(false); }, 3);
sim::Register r2("inter-faults", [] { exchange(true); }, 4);
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
