// The generator interpreter as an ordinary program, built with another compiler, optimisation level or word size.
// Requests on stdin: u32 seeding mode, u32 engine, u64 seed, u32 count, words; answer: u32 status, u32 length, bytes.
#include "gen_script.h"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

static bool all(int fd, void* p, std::size_t n, bool wr) {
	char* c = (char*)p;
	while (n) { ssize_t r = wr ? write(fd, c, n) : read(fd, c, n); if (r <= 0) return false; c += r; n -= (std::size_t)r; }
	return true;
}
int main(int, char** argv) {
	signal(SIGPIPE, SIG_DFL);
	for (;;) {
		struct { std::uint32_t mode, kind; std::uint64_t seed; std::uint32_t prio, n; } h;
		if (!all(0, &h, sizeof h, false)) _exit(0);
		std::vector<std::uint64_t> w(h.n);
		if (h.n && !all(0, w.data(), 8 * h.n, false)) _exit(0);
		int p[2];
		if (pipe(p)) _exit(1);
		pid_t c = fork();
		if (c < 0) _exit(1);
		if (c == 0) {
			dup2(p[1], 1); close(p[0]); close(p[1]); close(0); close(2);
			alarm(30);
			RtEngine::kind = (int)h.kind;
			std::string sd = std::to_string((std::int64_t)h.seed);
			char opt[] = "--seed"; char* av[] = {argv[0], opt, sd.data(), nullptr};
			Generator::init(h.mode == gen::COMMAND ? 3 : 1, av);
			if (h.mode == gen::CODE) Random::seed(h.seed);
			gen::Script s{w.data(), w.size()};
			gen::i64 k = 1 + s.to(9);
			gen::run(s, k, 0);
			std::exit(0);
		}
		close(p[1]);
		std::string out; char b[65536]; ssize_t r;
		while ((r = read(p[0], b, sizeof b)) > 0) out.append(b, (std::size_t)r);
		close(p[0]);
		int st = 0; waitpid(c, &st, 0);
		std::uint32_t a[2] = {(std::uint32_t)st, (std::uint32_t)out.size()};
		if (!all(1, a, sizeof a, true) || !all(1, out.data(), out.size(), true)) _exit(0);
	}
}
