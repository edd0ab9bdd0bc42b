// Random engine behind the library's documented seam (Settings::RandomEngine): the simulator decides every word.
#pragma once
#include "../sim/core.h"
#include <cstdint>
#include <random>
struct OutOfWords {};
struct SimEngine {
	using result_type = std::uint64_t;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xFFFF'FFFF'FFFF'FFFFull; }
	// 0: real mt19937_64, 1: adversarial words from the tape, 2: adversarial start, then fair
	static inline int mode = 0;
	static inline std::uint64_t used = 0, budget = ~0ull, evil = 0;
	// the words of the current draw, and words to be handed out again (a draw repeated with a bound moved to its own result)
	static inline std::uint64_t last[64] = {}, echo[64] = {};
	static inline unsigned nLast = 0, nEcho = 0, atEcho = 0;
	static void again() { nEcho = nLast < 64 ? nLast : 0; atEcho = 0; for (unsigned i = 0; i < nEcho; i++) echo[i] = last[i]; }
	std::mt19937_64 fair;
	explicit SimEngine(std::uint64_t s) : fair(s) {}
	void seed(std::uint64_t s) { fair.seed(s); }
	static std::uint64_t evilWord() {
		std::uint64_t w;
		switch (sim::choose(12)) {
			case 0: w = 0; break;
			case 1: w = ~0ull; break;
			case 2: w = 1; break;
			case 3: w = 1ull << 63; break;
			case 4: w = ~(1ull << 63); break;
			case 5: w = ~0ull << sim::choose(64); break;
			case 6: w = ~0ull >> sim::choose(64); break;
			case 7: w = 1ull << sim::choose(64); break;
			case 8: w = ~0ull / (2 + sim::choose(30)) * (1 + sim::choose(30)) + sim::choose(3) - 1; break;
			case 9: w = ~(std::uint64_t)sim::choose(4096); break;
			default: w = sim::word(); break;
		}
		sim::fired(sim::F_ENGINE);
		return w;
	}
	std::uint64_t operator()() {
		if (++used > budget) throw OutOfWords();
		std::uint64_t w = next();
		if (nLast < 64) last[nLast++] = w;
		return w;
	}
	std::uint64_t next() {
		if (atEcho < nEcho) { sim::fired(sim::F_ENGINE); return echo[atEcho++]; }
		if (mode == 0) return fair();
		if (evil && (mode == 2 || sim::choose(3))) { evil--; return evilWord(); }
		return fair();
	}
};
