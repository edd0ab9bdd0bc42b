// C10: the bytes of a generator are a function of seed and arguments.  One script is executed under different
// machine states in the simulator and by differently compiled builds of the same interpreter.
#include "../sim/core.h"
#include "gen_script.h"
#include <cinttypes>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <fcntl.h>

using sim::chance;
using sim::choose;
using sim::fmt;
using std::string;
using std::vector;
using gen::u64;
using gen::i64;

namespace {
// ---- builds by other compilers ------------------------------------------------------------
struct Variant { const char* name; const char* env; int to = -1, from = -1; };
Variant variants[] = {{"g++ -O0", "SIM_BIN_GENVAR_G0"}, {"g++ -O3", "SIM_BIN_GENVAR_G3"}, {"clang++ -O2", "SIM_BIN_GENVAR_C2"}, {"g++ -m32 -O2", "SIM_BIN_GENVAR_M32"}, {"clang++ -m32 -O1", "SIM_BIN_GENVAR_CM32"}};
constexpr int NV = sizeof variants / sizeof *variants;
bool io(int fd, void* p, std::size_t n, bool wr) { char* c = (char*)p; while (n) { long r = syscall(wr ? SYS_write : SYS_read, fd, c, n); if (r <= 0) return false; c += r; n -= (std::size_t)r; } return true; }
bool startVariant(Variant& v) {
	const char* bin = std::getenv(v.env);
	if (!bin) return false;
	int a[2], b[2];
	if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return false;
	pid_t p = fork();
	if (p == 0) { dup2(a[0], 0); dup2(b[1], 1); char* av[] = {(char*)bin, nullptr}; execv(bin, av); syscall(SYS_exit_group, 127); }
	close(a[0]); close(b[1]);
	v.to = a[1]; v.from = b[0];
	return true;
}
struct Req { int mode, kind; u64 seed; vector<u64> w; };
bool ask(Variant& v, const Req& r) {
	if (v.to < 0 && !startVariant(v)) return false;
	struct { std::uint32_t mode, kind; std::uint64_t seed; std::uint32_t prio, n; } h{(std::uint32_t)r.mode, (std::uint32_t)r.kind, r.seed, 0, (std::uint32_t)r.w.size()};
	return io(v.to, &h, sizeof h, true) && io(v.to, (void*)r.w.data(), 8 * r.w.size(), true);
}
bool answer(Variant& v, int& st, string& out) {
	std::uint32_t a[2];
	if (!io(v.from, a, sizeof a, false)) return false;
	st = (int)a[0]; out.resize(a[1]);
	return io(v.from, out.data(), a[1], false);
}

// ---- one simulated generator process ----------------------------------------------------------
struct World1 { bool disturb = false; u64 env = 0; int prior = 0; u64 priorSeed = 0; };
void unrelated(int k, u64 s, bool mayDraw) {
	// activity of the judge's program before the generator proper
	vector<string> junk;
	for (int i = 0; i < k; i++) {
		s = sim::mix(s, (u64)i + 1);
		switch (s % 7) {
			case 0: junk.emplace_back(s % 3000, 'x'); break;
			case 1: { auto g = clique((i64)(s / 7 % 6)); auto h = g.complement(); (void)h; break; }
			case 2: std::srand((unsigned)s); (void)std::rand(); break;
			case 3: { auto v = range((i64)(s / 7 % 50)); std::sort(v.begin(), v.end(), std::greater<Integer>()); (void)isPerm(v, 0); break; }
			case 4: { std::mt19937_64 other(s); (void)other(); Xoshiro256ss x(s); (void)x(); x.jump(); AES_RNG e(s); (void)e(); break; }
			case 5: if (mayDraw) { (void)Random::integer(1, 100); (void)Random::normal(0, 1); (void)Random::perm(5); auto t = randomTree(6); t.permutate(); (void)Random::prime(100, 200); (void)Random::string(3); if (s % 4 == 0) for (int k = 0; k < 2500; k++) { (void)Random::real(); (void)Random::integer(0, 7); (void)Random::normal(0, 1); } if (s % 16 == 0) for (int k = 0; k < 70000; k++) (void)Random::integer(); } break;
			default: { std::map<string, Integer> m; m["a"] = (i64)s; std::set<double> d{1.5, 2.5}; errno = (int)(s % 100); break; }
		}
		if (junk.size() > 3 && s % 2) junk.erase(junk.begin());
	}
}
struct Result { string out; sim::Status st; };
Result execute(const Req& r, const World1& d) {
	sim::unlinkFile("<stdout>"); sim::unlinkFile("<stderr>");
	RtEngine::kind = r.kind;
	auto st = sim::spawn([&] {
		if (d.disturb) {
			static const char* const loc[] = {"C", "de_DE.UTF-8", "C.UTF-8", "tr_TR.UTF-8", ""};
			setenv("LC_ALL", loc[d.env % 5], 1); setenv("LANG", loc[d.env / 5 % 5], 1); setenv("LC_NUMERIC", loc[d.env / 25 % 5], 1); setenv("TZ", d.env % 2 ? "Asia/Tokyo" : "UTC", 1); setenv("SEED", fmt("%u", (unsigned)(d.env % 977)).c_str(), 1); setenv("HOME", d.env % 3 ? "/" : "/nonexistent", 1);
			if (chdir(d.env % 2 ? "/" : "/usr")) return;
		}
		string name = d.disturb ? fmt("/sim/bin%u/gen", (unsigned)(d.env % 100)) : "/sim/gen";
		string sd = std::to_string((i64)r.seed), other = std::to_string((i64)d.priorSeed);
		char opt[] = "--seed";
		vector<char*> av{name.data()};
		if (r.mode == gen::COMMAND) { av.push_back(opt); av.push_back(sd.data()); }
		if (r.mode == gen::CODE_AFTER_COMMAND) { av.push_back(opt); av.push_back(other.data()); }
		int ac = (int)av.size(); av.push_back(nullptr);
		Generator::init(ac, av.data());
		bool reseed = r.mode == gen::CODE || r.mode == gen::CODE_AFTER_USE || r.mode == gen::CODE_AFTER_COMMAND;
		unrelated(d.prior, d.priorSeed, reseed);
		if (reseed) Random::seed(r.seed);
		gen::Script s{r.w.data(), r.w.size()};
		i64 k = 1 + s.to(9);
		gen::run(s, k, 0);
	}, sim::EXIT_REAL);
	return {sim::get("<stdout>"), st};
}
string ops(const string& out) { string s; for (size_t i = 0; (i = out.find('#', i)) != string::npos; i++) { auto e = out.find(' ', i); if (e == string::npos) break; s += (s.empty() ? "" : " ") + out.substr(i + 1, e - i - 1); } return s; }
string firstOp(const string& out, size_t at) { auto p = out.rfind('#', at); if (p == string::npos) return "?"; auto e = out.find(' ', p); return out.substr(p + 1, e == string::npos ? 20 : e - p - 1); }
void differ(const char* cls, const string& a, const string& b, const string& how) {
	size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	sim::violate(cls, "%s: outputs differ at byte %zu (in %s): %s vs %s [operations: %s]", how.c_str(), i, firstOp(a, i ? i - 1 : 0).c_str(), sim::quote(a.substr(i > 20 ? i - 20 : 0, 120)).c_str(), sim::quote(b.substr(i > 20 ? i - 20 : 0, 120)).c_str(), ops(a).c_str());
}
void scenario() {
	Req r;
	static const char* const en[] = {"mt19937_64", "Xoshiro256ss", "AES_RNG"};
	r.kind = (int)choose(3);
	switch (choose(5)) { case 0: r.seed = choose(20); break; case 1: r.seed = (u64)-1 - choose(3); break; case 2: r.seed = 1ull << choose(64); break; case 3: r.seed = DEFAULT_SEED; break; default: r.seed = sim::word(); }
	unsigned n = 2 + choose(70);
	for (unsigned i = 0; i < n; i++) r.w.push_back(choose(8) == 0 ? sim::word() : (u64)choose(1u << 30));
	r.mode = gen::CODE;
	sim::ev("engine %s seed %" PRIu64 " script of %u words", en[r.kind], r.seed, n);
	sim::W->nontrivial = true;
	bool stable = r.kind == 0;
	// what the other builds say, asked first so that they work meanwhile
	bool asked[NV] = {};
	for (int v = 0; v < NV; v++) { asked[v] = ask(variants[v], r); if (!asked[v]) { sim::W->harnessError = true; sim::note("cannot run %s", variants[v].name); return; } }
	auto base = execute(r, World1{});
	struct Other { int st; string out; } other[NV];
	for (int v = 0; v < NV; v++) if (!answer(variants[v], other[v].st, other[v].out)) { variants[v].to = -1; sim::W->harnessError = true; sim::note("%s gave no answer", variants[v].name); return; }
	sim::sig(sim::mix((u64)r.kind, std::hash<string>()(ops(base.out))));
	{ string o = ops(base.out); size_t i = 0; while (i < o.size()) { auto e = o.find(' ', i); if (e == string::npos) e = o.size(); sim::probe(("op " + o.substr(i, e - i)).c_str()); i = e + 1; } }
	(void)stable;
	if (base.st.hang) { sim::violate("hang", "the script does not end: %s", ops(base.out).c_str()); return; }
	if (!base.st.exited || base.st.code) {
		string e = sim::get("<stderr>");
		if (e.find("range contains no primes") == string::npos) { sim::violate("crash", "generator ended %d after %s: %s", base.st.shown(), ops(base.out).c_str(), sim::quote(e).c_str()); return; }
		sim::probe("prime gave up");
	}
	// re-seeding in the middle restarts the sequence
	for (size_t i = 0; (i = base.out.find("{{", i)) != string::npos; i++) {
		auto m = base.out.find("||", i), e = base.out.find("}}", i);
		if (m == string::npos || e == string::npos) break;
		sim::probe("re-seeded sequences compared");
		auto x = base.out.substr(i + 2, m - i - 2), y = base.out.substr(m + 2, e - m - 2);
		if (x != y) { differ("reseed", x, y, fmt("%s: the same operations after the same Random::seed() within one run", en[r.kind])); return; }
	}
	// the same program on another machine state
	unsigned k = 1 + choose(2);
	for (unsigned t = 0; t < k; t++) {
		Req q = r; World1 d; d.disturb = true;
		static const unsigned char fills[] = {0x00, 0xFF, 0xA5, 0x7F, 0x3C};
		sim::plan.fill = fills[choose(5)];
		sim::plan.heapShift = choose(3) ? 1 + choose(1u << 20) : 0;
		sim::plan.scatter = choose(3) ? 1 + choose(1u << 20) : 0;
		sim::plan.perturbClock = choose(2);
		sim::plan.entropy = choose(1u << 20);
		sim::plan.shortWrite = choose(3) ? 0 : 2;
		if (choose(4) == 0) sim::stdio_.bufSize = 1 + choose(100);
		d.env = choose(10000); d.prior = (int)choose(12); d.priorSeed = choose(1u << 30);
		q.mode = (int)choose(5);
		if (q.mode == gen::NOTHING && q.seed != DEFAULT_SEED) q.mode = gen::COMMAND;
		static const char* const mn[] = {"default seed", "Random::seed", "--seed", "Random::seed after use", "Random::seed after --seed"};
		sim::ev("again: %s fill %02x heap %d clock %d prior %d", mn[q.mode], sim::plan.fill, (sim::plan.heapShift != 0) * 2 + (sim::plan.scatter != 0), sim::plan.perturbClock, d.prior);
		sim::sig((u64)q.mode);
		auto again = execute(q, d);
		sim::plan.shortWrite = 0;
		sim::probe(mn[q.mode]);
		string how = fmt("%s, seed %" PRIu64 ", reference run (Random::seed) against a run with %s, memory fill %02x, %s heap, %s clock, %d unrelated actions before", en[r.kind], r.seed, mn[q.mode], sim::plan.fill, sim::plan.scatter ? "scattered" : "other", sim::plan.perturbClock ? "another" : "the same", d.prior);
		if (again.st.shown() != base.st.shown()) { sim::violate("status", "%s: ended %d and %d [operations: %s]", how.c_str(), base.st.shown(), again.st.shown(), ops(base.out).c_str()); return; }
		if (again.out != base.out) { differ("machine-state", base.out, again.out, how); return; }
	}
	for (int v = 0; v < NV; v++) {
		sim::probe(variants[v].name);
		string how = fmt("%s, seed %" PRIu64 ", build with g++ -O1 against build with %s", en[r.kind], r.seed, variants[v].name);
		if ((WIFEXITED(other[v].st) ? WEXITSTATUS(other[v].st) : 128 + WTERMSIG(other[v].st)) != base.st.shown()) { sim::violate("build-status", "%s: ended %d and raw status %d [operations: %s]", how.c_str(), base.st.shown(), other[v].st, ops(base.out).c_str()); return; }
		if (other[v].out != base.out) { differ("build", base.out, other[v].out, how); return; }
	}
}

// ---- reference engines -----------------------------------------------------------------------
struct RefXo {
	u64 s[4];
	static u64 rot(u64 x, int k) { return x << k | x >> (64 - k); }
	u64 next() { u64 r = rot(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rot(s[3], 45); return r; }
	void jump() { static const u64 J[] = {0x180ec6d33cfd0aba, 0xd5a61266f0c9392c, 0xa9582618e03fc9aa, 0x39abdc4529b1661c}; u64 n[4] = {}; for (u64 j : J) for (int b = 0; b < 64; b++) { if (j >> b & 1) for (int i = 0; i < 4; i++) n[i] ^= s[i]; next(); } std::memcpy(s, n, sizeof n); }
	explicit RefXo(u64 seed) { static const u64 pi[] = {0x3243F6a8885a308d, 0x313198a2e0370734, 0x4a4093822299f31d, 0x0082efa98ec4e6c8}; for (int i = 0; i < 4; i++) s[i] = pi[i] ^ seed; jump(); }
	explicit RefXo(const std::array<u64, 4>& a) { for (int i = 0; i < 4; i++) s[i] = a[i]; }
};
struct RefAes {     // FIPS-197, AES-256, written from the standard: S-box from inversion in GF(2^8)
	std::uint8_t sb[256], rk[240], iv[16];
	static std::uint8_t mul(unsigned a, unsigned b) { unsigned r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a = a << 1 ^ (a & 0x80 ? 0x11b : 0); } return (std::uint8_t)r; }
	void init(const std::uint8_t* key) {
		for (int x = 0; x < 256; x++) { unsigned inv = 0; for (int y = 1; y < 256 && x; y++) if (mul((unsigned)x, (unsigned)y) == 1) { inv = (unsigned)y; break; } unsigned s = inv; for (int i = 1; i < 5; i++) s ^= (inv << i | inv >> (8 - i)) & 255; sb[x] = (std::uint8_t)(s ^ 0x63); }
		std::memcpy(rk, key, 32);
		unsigned rc = 1;
		for (int i = 8; i < 60; i++) { std::uint8_t t[4]; std::memcpy(t, rk + 4 * (i - 1), 4); if (i % 8 == 0) { std::uint8_t f = t[0]; t[0] = sb[t[1]] ^ (std::uint8_t)rc; t[1] = sb[t[2]]; t[2] = sb[t[3]]; t[3] = sb[f]; rc <<= 1; } else if (i % 8 == 4) for (auto& x : t) x = sb[x]; for (int j = 0; j < 4; j++) rk[4 * i + j] = rk[4 * (i - 8) + j] ^ t[j]; }
	}
	void enc(const std::uint8_t* in, std::uint8_t* o) {
		std::uint8_t a[16]; for (int i = 0; i < 16; i++) a[i] = in[i] ^ rk[i];
		for (int r = 1; r <= 14; r++) {
			std::uint8_t b[16]; for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) b[4 * c + w] = sb[a[4 * ((c + w) % 4) + w]];
			if (r < 14) for (int c = 0; c < 4; c++) { std::uint8_t* x = b + 4 * c; std::uint8_t y[4]; for (int w = 0; w < 4; w++) y[w] = mul(x[w], 2) ^ mul(x[(w + 1) % 4], 3) ^ x[(w + 2) % 4] ^ x[(w + 3) % 4]; std::memcpy(x, y, 4); }
			for (int i = 0; i < 16; i++) a[i] = b[i] ^ rk[16 * r + i];
		}
		std::memcpy(o, a, 16);
	}
	u64 next() { for (int i = 0; i < 16 && ++iv[i] == 0; i++) {} std::uint8_t o[16]; enc(iv, o); u64 r = 0; for (int i = 0; i < 16; i++) r ^= (u64)o[i] << 8 * (i % 8); return r; }
	explicit RefAes(u64 seed) { static const std::uint8_t k[32] = {0x32, 0x43, 0xF6, 0xa8, 0x88, 0x5a, 0x30, 0x8d, 0x31, 0x31, 0x98, 0xa2, 0xe0, 0x37, 0x07, 0x34, 0x4a, 0x40, 0x93, 0x82, 0x22, 0x99, 0xf3, 0x1d, 0x00, 0x82, 0xef, 0xa9, 0x8e, 0xc4, 0xe6, 0xc8}, v[16] = {0x94, 0x52, 0x82, 0x1e, 0x63, 0x8d, 0x01, 0x37, 0x7b, 0xe5, 0x46, 0x6c, 0xf3, 0x4e, 0x90, 0xc6}; init(k); for (int i = 0; i < 16; i++) iv[i] = v[i] ^ (i < 8 ? (std::uint8_t)(seed >> 8 * i) : 0); }
	RefAes(const std::uint8_t* k, const std::uint8_t* v) { init(k); std::memcpy(iv, v, 16); }
};
void engines() {
	// several instances of the engines, interleaved, copied and jumped at random; every word against the reference
	struct Inst { int kind; std::optional<Xoshiro256ss> x; std::optional<AES_RNG> a; std::optional<RefXo> rx; std::optional<RefAes> ra; u64 seed; };
	sim::W->nontrivial = true;
	unsigned steps = 1 + choose(40);
	sim::plan.fill = (unsigned char)choose(256);
	string bad;
	auto st = sim::spawn([&] {
		vector<Inst> v;
		for (unsigned k = 0; k < steps; k++) {
			unsigned o = v.empty() ? 0 : choose(8);
			if (o == 0 && v.size() < 4) {
				Inst n{}; n.kind = (int)choose(4);
				switch (choose(4)) { case 0: n.seed = choose(4); break; case 1: n.seed = ~0ull; break; case 2: n.seed = 1ull << choose(64); break; default: n.seed = sim::word(); }
				if (n.kind == 0) { n.x.emplace(n.seed); n.rx.emplace(n.seed); }
				if (n.kind == 1) { n.a.emplace(n.seed); n.ra.emplace(n.seed); }
				if (n.kind == 2) { std::array<u64, 4> s{n.seed, sim::word(), choose(2), choose(2) ? sim::word() : 1}; n.x.emplace(s); n.rx.emplace(s); }
				if (n.kind == 3) { AES::Key key; AES::Block iv; std::uint8_t kk[32], vv[16]; for (int i = 0; i < 32; i++) { kk[i] = (std::uint8_t)sim::word(); key[(std::size_t)i] = kk[i]; } unsigned ff = choose(17); for (unsigned i = 0; i < 16; i++) { vv[i] = i < ff ? 255 : (std::uint8_t)sim::word(); iv[i] = vv[i]; } n.a.emplace(key, iv); n.ra.emplace(kk, vv); }
				sim::probe(fmt("engine ctor %d", n.kind).c_str());
				sim::ev("new engine %d seed %" PRIx64, n.kind, n.seed);
				v.push_back(n);
			} else if (o == 1 && v.size() > 1) {                 // replace by a copy of another engine of the same type
				auto i = choose((std::uint32_t)v.size()), j = choose((std::uint32_t)v.size()); auto& p = v[i]; auto& q = v[j];
				if (i == j || bool(p.x) != bool(q.x)) continue;
				if (p.x) { p.x.emplace(*q.x); p.rx = q.rx; } else { p.a.emplace(*q.a); p.ra = q.ra; }
				p.kind = q.kind; sim::probe("engine copied"); sim::ev("copy");
			} else if (o == 2) {
				auto& p = v[choose((std::uint32_t)v.size())];
				if (p.x) { p.x->jump(); p.rx->jump(); sim::probe("engine jump"); sim::ev("jump"); }
			} else {
				auto& p = v[choose((std::uint32_t)v.size())];
				unsigned c = 1 + choose(choose(10) == 0 ? 700 : 6);
				for (unsigned i = 0; i < c; i++) {
					u64 g = p.x ? (*p.x)() : (*p.a)(), w = p.x ? p.rx->next() : p.ra->next();
					sim::W->hash = sim::mix(sim::W->hash, g);
					if (g != w) { sim::violate("engine", "%s engine constructed %s (seed %016" PRIx64 ") yields %016" PRIx64 " instead of %016" PRIx64, p.x ? "Xoshiro256ss" : "AES_RNG", p.kind < 2 ? "from a seed" : "from a state", p.seed, g, w); return; }
				}
			}
		}
	}, sim::EXIT_FAST);
	sim::sig(steps);
	if (!sim::W->violated && !(st.exited && st.code == 0)) sim::violate("crash", "ended with %d", st.shown());
}
sim::Register r1("generator", scenario), r2("engines", engines);
}
int main(int argc, char** argv) { return sim::simMain(argc, argv); }
