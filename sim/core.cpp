#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <map>
#include <set>

static void mapHeaps();
static void* heapAlloc(std::size_t n);
static void simFree(void* p);
namespace sim {
const char* const faultName[F_COUNT] = {
	"short_read", "short_write", "eintr", "late_delivery", "eio_read", "eio_stdin", "enospc", "eio_write", "open_failure",
	"close_failure", "remove_failure", "process_kill", "alloc_failure", "epipe", "sigpipe", "stall", "cut_input", "corrupt_byte", "stale_file",
	"clock_jump", "entropy_change", "heap_layout", "adversarial_engine_word", "stdout_error", "peer_death"};

World* W = nullptr;
// never destroyed: the last flushes of a process happen after its static destructors
Plan& plan = *new Plan;
Stdio& stdio_ = *new Stdio;
Channel& toPeer = *new Channel; Channel& fromPeer = *new Channel;
std::function<PeerState()>& peerStep = *new std::function<PeerState()>;
std::function<void()>& onDeadlock = *new std::function<void()>;
std::function<void()>& onReadBlock = *new std::function<void()>;
bool active = false;
static bool optThorough = false;
bool inAllocator = false;
bool thorough() { return optThorough; }

static std::uint64_t splitmix(std::uint64_t& s) {
	std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
	std::uint64_t s = a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull);
	splitmix(s);
	return splitmix(s);
}

std::uint32_t choose(std::uint32_t n) {
	if (n <= 1) return 0;
	std::uint32_t v;
	// past the end of the recorded choices every choice is 0; a caller that keeps asking is
	// waiting for another answer, so after a while the answers vary (as a function of the position)
	if (W->pos >= TAPE_CAP) { W->tapeOverflow = true; return (std::uint32_t)(mix(++W->past, 0x7061) % n); }
	if (W->replay) v = W->pos < W->nreplay ? W->replayTape[W->pos] : W->pos < W->nreplay + 5000 ? 0 : (std::uint32_t)(mix(W->pos, 0x7061) % n);
	else v = (std::uint32_t)(splitmix(W->prng) >> 32);
	if (W->replay) { if (v >= n) v = n - 1; }
	else v = (std::uint32_t)(((std::uint64_t)v * n) >> 32);
	W->tape[W->pos] = v;
	W->bound[W->pos] = n;
	W->pos++;
	return v;
}
std::int64_t range(std::int64_t lo, std::int64_t hi) {
	return lo + (std::int64_t)choose((std::uint32_t)(hi - lo + 1));
}
std::uint64_t word() {
	std::uint64_t a = choose(0xFFFFFFFFu), b = choose(0xFFFFFFFFu);
	return (a << 32) | b;
}

static void hashBytes(const void* p, std::size_t n) {
	const unsigned char* c = (const unsigned char*)p;
	std::uint64_t h = W->hash;
	for (std::size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001B3ull; }
	W->hash = h ^ (h >> 29);
	W->events++;
}
static void traceAdd(const char* s, std::size_t n) {
	if (!W->tracing) return;
	std::size_t room = sizeof(W->trace) - 2 - W->traceLen;
	if (n > room) n = room;
	std::memcpy(W->trace + W->traceLen, s, n);
	W->traceLen += n;
	W->trace[W->traceLen++] = '\n';
	if (W->traceLen >= sizeof(W->trace) - 1) W->traceLen = sizeof(W->trace) - 2;
}
void ev(const char* f, ...) {
	char b[2048];
	va_list ap; va_start(ap, f);
	int n = vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	hashBytes(b, n);
	traceAdd(b, n);
}
std::string quote(std::string_view s, std::size_t max) {
	std::string r = "\"";
	for (std::size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i];
		if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
		else if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32 || c >= 127) { char t[8]; std::snprintf(t, sizeof t, "\\x%02x", c); r += t; }
		else r += (char)c;
	}
	r += '"';
	if (s.size() > max) r += fmt("...(%zu bytes)", s.size());
	return r;
}
void evData(const char* what, const void* p, std::size_t n) {
	hashBytes(p, n);
	if (W->tracing) { std::string s = std::string(what) + " " + quote(std::string_view((const char*)p, n)); traceAdd(s.data(), s.size()); }
}
void note(const char* f, ...) {
	if (!W->tracing) return;
	char b[4096];
	va_list ap; va_start(ap, f);
	int n = vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	traceAdd(b, n);
}
std::string fmt(const char* f, ...) {
	char b[4096];
	va_list ap; va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}
void probe(const char* name, std::uint64_t n) {
	for (std::uint32_t i = 0; i < W->nprobes; i++)
		if (!std::strncmp(W->probes[i].name, name, sizeof(W->probes[i].name) - 1)) { W->probes[i].count += n; return; }
	if (W->nprobes >= MAX_PROBES) return;
	Probe& p = W->probes[W->nprobes++];
	std::strncpy(p.name, name, sizeof p.name - 1);
	p.name[sizeof p.name - 1] = 0;
	p.count = n;
}
void sig(std::uint64_t v) { W->sig = mix(W->sig, v); }
void fired(Fault f) { W->fired[f]++; ev("fault %s", faultName[f]); }
void violate(const char* cls, const char* f, ...) {
	if (W->violated) return;
	W->violated = true;
	std::snprintf(W->vclass, sizeof W->vclass, "%s", cls);
	va_list ap; va_start(ap, f);
	vsnprintf(W->vmsg, sizeof W->vmsg, f, ap);
	va_end(ap);
	ev("VIOLATION %s: %s", cls, W->vmsg);
}
void hist(std::string_view s) {
	if (W->histLen + s.size() + 1 >= sizeof W->hist) return;
	std::memcpy(W->hist + W->histLen, s.data(), s.size());
	W->histLen += s.size();
}

// ---- disk -------------------------------------------------------------------
File* file(const std::string& name, bool create) {
	for (std::uint32_t i = 0; i < W->nfiles; i++)
		if (W->files[i].used && name == W->files[i].name) return &W->files[i];
	if (!create) return nullptr;
	std::uint32_t k = 0;
	while (k < W->nfiles && W->files[k].used) k++;
	if (k >= MAX_FILES) { W->harnessError = true; return nullptr; }
	if (k == W->nfiles) W->nfiles++;
	File& f = W->files[k];
	std::snprintf(f.name, sizeof f.name, "%s", name.c_str());
	f.used = true;
	f.len = 0;
	return &f;
}
static bool append(File* f, std::size_t pos, const char* p, std::size_t n) {
	if (pos + n > FILE_CAP) return false;
	if (pos > f->len) std::memset(f->data + f->len, 0, pos - f->len);
	std::memcpy(f->data + pos, p, n);
	if (pos + n > f->len) f->len = pos + n;
	return true;
}
void put(const std::string& name, std::string_view c) {
	File* f = file(name, true);
	f->len = 0;
	append(f, 0, c.data(), std::min(c.size(), FILE_CAP));
}
bool exists(const std::string& n) { return file(n) != nullptr; }
std::string get(const std::string& n) { File* f = file(n); return f ? std::string(f->data, f->len) : std::string(); }
void unlinkFile(const std::string& n) { if (File* f = file(n)) f->used = false; }
std::vector<std::string> listFiles() {
	std::vector<std::string> r;
	for (std::uint32_t i = 0; i < W->nfiles; i++) if (W->files[i].used) r.push_back(W->files[i].name);
	std::sort(r.begin(), r.end());
	return r;
}

// ---- process internals --------------------------------------------------------
constexpr std::uint64_t STEP_LIMIT = 400000;
constexpr int FD0 = 1000;
struct Open { bool used; int magic; File* f; std::size_t pos; bool rd, wr, app; bool failed; };
static Open opens[64];
static FILE *cIn = nullptr, *cOut = nullptr, *cErr = nullptr;
static std::size_t stdinPos = 0;

void childExit(int code) {
	active = false;
	syscall(SYS_exit_group, code);
	__builtin_unreachable();
}
static void killNow() {
	W->killed = true;
	fired(F_KILL);
	childExit(137);
}
static bool isSim(const char* p) { return active && p && !std::strncmp(p, "/sim", 4) && (p[4] == '/' || p[4] == 0); }
static bool isDir(const std::string& p) {
	if (p == "/sim" || p == "/sim/" || p == "/sim/fb" || p == "/sim/fb/") return true;
	return false;
}
// returns false if the process has to die *inside* this call (caller does the torn part, then killNow)
static bool sysEnter(const char* what) {
	W->steps++;
	W->clockNs += 1000;
	if (W->steps > STEP_LIMIT) { W->hang = true; ev("step limit in %s", what); childExit(97); }
	if (stdio_.interactive && peerStep) {
		std::uint32_t k = choose(3);
		while (k--) if (peerStep() != PEER_PROGRESS) break;
	}
	if (plan.kill >= 0 && plan.kill-- == 0) return false;
	return true;
}
static bool countdown(long& c) { if (c < 0) return false; return c-- == 0; }
static bool benign(std::uint32_t den) { return den && choose(den) == den - 1; }

static int openFile(const char* path, bool rd, bool wr, bool create, bool trunc, bool app, bool excl = false) {
	NoFault noFault;
	if (!sysEnter("open")) killNow();
	if (countdown(plan.openFail) ) { fired(F_OPEN_FAIL); ev("open %s -> EACCES", path); errno = EACCES; return -1; }
	if (isDir(path)) { ev("open %s -> EISDIR", path); if (wr) { errno = EISDIR; return -1; } }
	std::string n = path;
	for (std::size_t i; (i = n.find("//")) != std::string::npos;) n.erase(i, 1);
	File* f = file(n);
	if (!f) {
		auto dir = n.substr(0, n.rfind('/'));
		if (!create || !isDir(dir)) { ev("open %s -> ENOENT", path); errno = ENOENT; return -1; }
		if ((plan.enospc == 0) && plan.enospcSticky && n.find(plan.onlyPath) != std::string::npos) { fired(F_ENOSPC); errno = ENOSPC; return -1; }
		f = file(n, true);
	} else if (create && excl) { errno = EEXIST; return -1; }
	if (trunc) f->len = 0;
	for (int i = 0; i < 64; i++) if (!opens[i].used) {
		opens[i] = {true, 0x51F11E, f, 0, rd, wr, app, false};
		ev("open %s%s%s -> ok", path, wr ? " w" : "", trunc ? " trunc" : "");
		return FD0 + i;
	}
	errno = EMFILE;
	return -1;
}
static Open* fdOpen(int fd) { return fd >= FD0 && fd < FD0 + 64 && opens[fd - FD0].used ? &opens[fd - FD0] : nullptr; }
static int closeFd(int fd) {
	NoFault noFault;
	Open* o = fdOpen(fd);
	if (!o) { errno = EBADF; return -1; }
	if (!sysEnter("close")) killNow();
	o->used = false;
	if (o->wr && countdown(plan.closeFail)) { fired(F_CLOSE_FAIL); errno = EIO; return -1; }
	return 0;
}
static ssize_t fileRead(int fd, void* buf, std::size_t n) {
	NoFault noFault;
	Open* o = fdOpen(fd);
	if (!o) { errno = EBADF; return -1; }
	if (!sysEnter("read")) killNow();
	if (benign(plan.eintr)) { fired(F_EINTR); errno = EINTR; return -1; }
	if (countdown(plan.eioRead)) { fired(F_EIO_READ); errno = EIO; return -1; }
	std::size_t av = o->pos < o->f->len ? o->f->len - o->pos : 0;
	std::size_t k = std::min(n, av);
	if (k > 1 && benign(plan.shortRead)) { fired(F_SHORT_READ); k = 1 + choose((std::uint32_t)std::min<std::size_t>(k - 1, 64)); }
	std::memcpy(buf, o->f->data + o->pos, k);
	o->pos += k;
	ev("read fd%d %zu", fd, k);
	return k;
}
static ssize_t fileWrite(int fd, const char* buf, std::size_t n) {
	NoFault noFault;
	Open* o = fdOpen(fd);
	if (!o || !o->wr) { errno = EBADF; return -1; }
	if (o->app) o->pos = o->f->len;
	if (!sysEnter("write")) {
		std::size_t k = n ? choose((std::uint32_t)std::min<std::size_t>(n + 1, 1u << 20)) : 0;
		append(o->f, o->pos, buf, k);
		ev("torn write %zu of %zu to %s", k, n, o->f->name);
		killNow();
	}
	if (benign(plan.eintr)) { fired(F_EINTR); errno = EINTR; return -1; }
	bool inScope = plan.onlyPath.empty() || std::strstr(o->f->name, plan.onlyPath.c_str());
	if (inScope && plan.eioWrite >= 0 && countdown(plan.eioWrite)) { fired(F_EIO_WRITE); errno = EIO; return -1; }
	if (inScope && plan.enospc >= 0) {
		if (plan.enospc == 0) {
			std::size_t k = std::min<std::size_t>(n, plan.enospcPartial);
			plan.enospcPartial = 0;
			if (!plan.enospcSticky) plan.enospc = -1;
			if (k == 0) { fired(F_ENOSPC); ev("write %s -> ENOSPC", o->f->name); errno = ENOSPC; return -1; }
			if (!plan.enospcSticky) plan.enospc = 0;
			append(o->f, o->pos, buf, k);
			o->pos += k;
			ev("write %s %zu of %zu (disk filling up)", o->f->name, k, n);
			return k;
		}
		plan.enospc--;
	}
	std::size_t k = n;
	if (k > 1 && benign(plan.shortWrite)) { fired(F_SHORT_WRITE); k = 1 + choose((std::uint32_t)std::min<std::size_t>(k - 1, 64)); }
	if (!append(o->f, o->pos, buf, k)) { ev("write %s: file too large", o->f->name); errno = EFBIG; return -1; }   // far beyond what a scenario writes
	o->pos += k;
	ev("write %s %zu", o->f->name, k);
	evData("data", buf, k);
	return k;
}

// ---- peer ---------------------------------------------------------------------
void peerWrite(std::string_view s) {
	if (fromPeer.wclosed) return;
	fromPeer.buf.append(s);
	File* f = file("<fromteam>", true);
	if (!append(f, f->len, s.data(), s.size())) W->harnessError = true;
	ev("team sends %zu", s.size());
	evData("team", s.data(), s.size());
}
static bool peerOrDeadlock(const char* where) {   // true: retry
	PeerState st = peerStep ? peerStep() : PEER_GONE;
	if (st == PEER_PROGRESS) return true;
	if (st == PEER_GONE) { fromPeer.wclosed = true; toPeer.rclosed = true; ev("peer gone"); return true; }
	W->deadlock = true;
	fired(F_STALL);
	ev("no progress possible in %s", where);
	if (onDeadlock) onDeadlock();
	W->clockNs += stdio_.stallKillNs;            // the judge kills the team after its time limit
	fromPeer.wclosed = true;
	toPeer.rclosed = true;
	return true;
}
static ssize_t stdinRead(char* buf, std::size_t n) {
	NoFault noFault;
	if (!sysEnter("read stdin")) killNow();
	if (n == 0) return 0;
	if (countdown(plan.eioStdin)) { fired(F_EIO_STDIN); errno = EIO; return -1; }
	std::size_t k = 0;
	if (stdio_.interactive) {
		while (true) {
			if (fromPeer.avail()) { k = std::min(n, fromPeer.avail()); break; }
			if (fromPeer.wclosed) { ev("stdin eof"); return 0; }
			if (onReadBlock) onReadBlock();
			peerOrDeadlock("read");
		}
		if (stdio_.chunkMode == 1) k = 1;
		else if (stdio_.chunkMode == 2 && k > 1) k = 1 + choose((std::uint32_t)std::min<std::size_t>(k, 4096));
		if (k > n) k = n;
		std::memcpy(buf, fromPeer.buf.data() + fromPeer.rd, k);
		fromPeer.rd += k;
	} else {
		File* f = file("<stdin>");
		std::size_t len = f ? f->len : 0;
		std::size_t av = stdinPos < len ? len - stdinPos : 0;
		k = std::min(n, av);
		if (k > 1 && stdio_.chunkMode == 1) { k = 1; W->fired[F_SHORT_READ]++; }
		else if (k > 1 && stdio_.chunkMode == 2) { std::size_t c = 1 + choose((std::uint32_t)std::min<std::size_t>(k, 48)); if (c < k) { W->fired[F_SHORT_READ]++; k = c; } if (choose(4) == 3) { W->fired[F_LATE]++; W->clockNs += 50'000'000; } }
		if (k) std::memcpy(buf, f->data + stdinPos, k);
		stdinPos += k;
	}
	ev("stdin %zu", k);
	return k;
}
static ssize_t stdoutWrite(int which, const char* buf, std::size_t n) {
	NoFault noFault;
	std::size_t done = 0;
	while (done < n) {
		if (!sysEnter(which == 1 ? "write stdout" : "write stderr")) {
			if (!(which == 1 && stdio_.interactive)) {
				std::size_t k = choose((std::uint32_t)(n - done + 1));
				File* f = file(which == 1 ? "<stdout>" : "<stderr>", true);
				append(f, f->len, buf + done, k);
			}
			killNow();
		}
		if (which == 1 && stdio_.interactive) {
			if (toPeer.rclosed) {
				if (stdio_.sigpipeDefault) { fired(F_SIGPIPE); W->sigpipe = 1; childExit(141); }
				fired(F_EPIPE);
				errno = EPIPE;
				return done ? (ssize_t)done : -1;
			}
			std::size_t free = stdio_.capacity > toPeer.avail() ? stdio_.capacity - toPeer.avail() : 0;
			if (!free) { peerOrDeadlock("write"); continue; }
			std::size_t k = std::min(n - done, free);
			if (k > 1 && benign(plan.shortWrite)) { fired(F_SHORT_WRITE); k = 1 + choose((std::uint32_t)std::min<std::size_t>(k - 1, 4096)); }
			toPeer.buf.append(buf + done, k);
			{ File* f = file("<toteam>", true); if (!append(f, f->len, buf + done, k)) W->harnessError = true; }
			evData("to team", buf + done, k);
			done += k;
			continue;
		}
		if (which == 1 && countdown(plan.stdoutErr)) { fired(F_STDOUT_ERR); errno = EIO; return done ? (ssize_t)done : -1; }
		std::size_t k = n - done;
		if (k > 1 && benign(plan.shortWrite)) { fired(F_SHORT_WRITE); k = 1 + choose((std::uint32_t)std::min<std::size_t>(k - 1, 64)); }
		File* f = file(which == 1 ? "<stdout>" : "<stderr>", true);
		if (!append(f, f->len, buf + done, k)) { ev("write: file too large"); errno = EFBIG; return -1; }
		evData(which == 1 ? "stdout" : "stderr", buf + done, k);
		done += k;
	}
	return n;
}
static ssize_t ckRead(void*, char* b, std::size_t n) { return stdinRead(b, n); }
static ssize_t ckWrite1(void*, const char* b, std::size_t n) { ssize_t r = stdoutWrite(1, b, n); return r < 0 ? 0 : r; }
static ssize_t ckWrite2(void*, const char* b, std::size_t n) { ssize_t r = stdoutWrite(2, b, n); return r < 0 ? 0 : r; }
static int ckSeek(void*, off64_t* off, int whence) {
	if (stdio_.pipe || stdio_.interactive) { errno = ESPIPE; return -1; }
	File* f = file("<stdin>");
	off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)stdinPos : (off64_t)(f ? f->len : 0);
	off64_t p = base + *off;
	if (p < 0) { errno = EINVAL; return -1; }
	stdinPos = (std::size_t)p;
	*off = p;
	return 0;
}
static int ckNoSeek(void*, off64_t*, int) { errno = ESPIPE; return -1; }

Status spawn(const std::function<void()>& body, ExitMode mode) {
	W->steps = 0; W->allocs = 0; W->failedAlloc = 0; W->killed = W->hang = W->deadlock = false; W->sigpipe = 0;
	pid_t pid = fork();
	if (pid < 0) { W->harnessError = true; return {}; }
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF, SIGTERM, SIGPIPE}) signal(s, SIG_DFL);
		itimerval it{};
		it.it_value.tv_sec = 6;
		setitimer(ITIMER_PROF, &it, nullptr);
		rlimit rl{3ull << 30, 3ull << 30};
		setrlimit(RLIMIT_AS, &rl);
		stdinPos = 0;
		std::memset(opens, 0, sizeof opens);
		cIn = fopencookie(nullptr, "r", {ckRead, nullptr, ckSeek, nullptr});
		cOut = fopencookie(nullptr, "w", {nullptr, ckWrite1, ckNoSeek, nullptr});
		cErr = fopencookie(nullptr, "w", {nullptr, ckWrite2, ckNoSeek, nullptr});
		setvbuf(cOut, nullptr, _IOFBF, stdio_.bufSize ? stdio_.bufSize : 4096);
		setvbuf(cErr, nullptr, _IONBF, 0);
		if (plan.heapShift) {
			fired(F_HEAP);
			std::uint64_t s = plan.heapShift;
			std::vector<void*> keep;
			keep.reserve(24);
			for (int i = 0; i < 24; i++) { std::size_t n = 16 + splitmix(s) % 3000; void* p = heapAlloc(n); if (!p) break; std::memset(p, (int)splitmix(s), n); keep.push_back(p); }
			for (std::size_t i = 0; i < keep.size(); i++) if (splitmix(s) & 1) simFree(keep[i]);
		}
		{ // stack garbage
			volatile unsigned char junk[49152];
			for (std::size_t i = 0; i < sizeof junk; i++) junk[i] = (unsigned char)(plan.fill + (plan.heapShift ? i * 37 : 0));
		}
		active = true;
		W->allocs = 0;
		body();
		if (mode == EXIT_FAST) childExit(0);
		std::exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Status r{};
	r.exited = WIFEXITED(st);
	r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
	r.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
	r.killed = W->killed;
	r.hang = W->hang || r.signal == SIGPROF || r.signal == SIGKILL;
	r.deadlock = W->deadlock;
	r.sigpipe = W->sigpipe;
	ev("process ended: %s %d%s%s", r.exited ? "exit" : "signal", r.exited ? r.code : r.signal, r.killed ? " killed" : "", r.hang ? " hang" : "");
	return r;
}

std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

// ---- runner ---------------------------------------------------------------------
static void resetWorld() {
	World& w = *W;
	w.pos = 0; w.past = 0; w.tapeOverflow = false;
	w.hash = 0xCBF29CE484222325ull; w.events = 0; w.traceLen = 0; w.sig = 0; w.nontrivial = false;
	w.violated = false; w.vclass[0] = 0; w.vmsg[0] = 0; w.harnessError = false; w.user = 0;
	w.clockNs = 1'700'000'000'000'000'000ull;
	w.steps = 0; w.allocs = 0; w.failedAlloc = 0; w.killed = w.hang = w.deadlock = false; w.sigpipe = 0; w.lateBytes = 0;
	w.histLen = 0;
	for (std::uint32_t i = 0; i < w.nfiles; i++) w.files[i].used = false;
	w.nfiles = 0;
	plan = Plan{};
	stdio_ = Stdio{};
	toPeer = Channel{}; fromPeer = Channel{};
	peerStep = nullptr; onDeadlock = nullptr; onReadBlock = nullptr;
}
static std::vector<const Scenario*> selected;
static std::vector<unsigned> cumul;
static const char* lastScenario = "";
static void execute() {
	unsigned total = cumul.back();
	unsigned k = choose(total);
	std::size_t i = 0;
	while (cumul[i] <= k) i++;
	lastScenario = selected[i]->name;
	ev("scenario %s", selected[i]->name);
	selected[i]->run();
	if (W->tapeOverflow) probe("tape overflow");
}
static void runSeed(std::uint64_t seed) { resetWorld(); W->replay = false; W->prng = seed; W->seed = seed; execute(); }
static void runTape(const std::vector<std::uint32_t>& t) {
	resetWorld(); W->replay = true;
	W->nreplay = (std::uint32_t)std::min<std::size_t>(t.size(), TAPE_CAP);
	std::copy(t.begin(), t.begin() + W->nreplay, W->replayTape);
	execute();
}
static std::vector<std::uint32_t> currentTape() { return std::vector<std::uint32_t>(W->tape, W->tape + W->pos); }

static double nowReal() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// what the minimiser has reached so far, visible to the worker even if a candidate never ends
struct Best { volatile int cur; volatile long tries; std::uint32_t n[2]; std::uint32_t v[2][TAPE_CAP]; };
static void shrinkIn(Best& shared, std::vector<std::uint32_t> best, const std::string& cls, double budget) {
	double end = nowReal() + budget;
	long tries = 0;
	auto keep = [&] {
		int o = 1 - shared.cur;
		shared.n[o] = (std::uint32_t)std::min<std::size_t>(best.size(), TAPE_CAP);
		std::copy(best.begin(), best.begin() + shared.n[o], shared.v[o]);
		__sync_synchronize();
		shared.cur = o;
	};
	auto attempt = [&](const std::vector<std::uint32_t>& cand) {
		if (nowReal() > end) return false;
		shared.tries = ++tries;
		runTape(cand);
		if (!W->violated || W->harnessError || cls != W->vclass) return false;
		auto got = currentTape();
		while (!got.empty() && got.back() == 0) got.pop_back();
		auto key = [](const std::vector<std::uint32_t>& v) { std::uint64_t s = 0; std::size_t nz = 0; for (auto x : v) { s += std::min<std::uint32_t>(x, 1u << 20); nz += x != 0; } return std::make_tuple(v.size(), nz, s); };
		if (key(got) < key(best)) { best = got; keep(); return true; }
		return false;
	};
	bool progress = true;
	while (progress && nowReal() < end) {
		progress = false;
		for (std::size_t win = std::max<std::size_t>(1, best.size() / 2); win >= 1; win /= 2) {
			for (std::size_t i = 0; i + win <= best.size() && nowReal() < end;) {   // delete
				auto c = best; c.erase(c.begin() + i, c.begin() + i + win);
				if (attempt(c)) progress = true; else i += std::max<std::size_t>(1, win / 2 + (win == 1));
			}
			for (std::size_t i = 0; i + win <= best.size() && nowReal() < end; i += win) { // zero
				bool any = false; auto c = best;
				for (std::size_t j = i; j < i + win; j++) { any |= c[j] != 0; c[j] = 0; }
				if (any && attempt(c)) progress = true;
			}
			if (win == 1) break;
		}
		for (std::size_t i = 0; i < best.size() && nowReal() < end; i++) { // reduce values
			std::uint32_t lo = 0;
			while (i < best.size() && best[i] > lo && nowReal() < end) {
				std::uint32_t mid = lo + (best[i] - lo) / 2;
				auto c = best; c[i] = mid;
				if (attempt(c)) progress = true; else lo = mid + 1;
			}
		}
	}
}
// The minimiser runs in a child of its own: code that is broken in the right way can make a candidate
// that never ends, and that must cost the minimisation, not the report.
static std::vector<std::uint32_t> shrink(std::vector<std::uint32_t> best, const std::string& cls, double budget, long& tries) {
	static Best* shared = (Best*)mmap(nullptr, sizeof(Best), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	shared->cur = 0; shared->tries = 0;
	shared->n[0] = (std::uint32_t)std::min<std::size_t>(best.size(), TAPE_CAP);
	std::copy(best.begin(), best.begin() + shared->n[0], shared->v[0]);
	double end = nowReal() + budget + 20;
	pid_t p = fork();
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		shrinkIn(*shared, best, cls, budget);
		syscall(SYS_exit_group, 0);
	}
	if (p > 0) {
		int st;
		while (waitpid(p, &st, WNOHANG) == 0) {
			if (nowReal() > end) { kill(p, SIGKILL); waitpid(p, &st, 0); timespec ts{0, 50'000'000}; syscall(SYS_nanosleep, &ts, nullptr); break; }
			timespec ts{0, 20'000'000};
			syscall(SYS_nanosleep, &ts, nullptr);
		}
	}
	tries = shared->tries;
	int c = shared->cur;
	return std::vector<std::uint32_t>(shared->v[c], shared->v[c] + shared->n[c]);
}
static void writeAll(const std::string& path, const std::string& s) {
	int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) return;
	std::size_t o = 0;
	while (o < s.size()) { long k = syscall(SYS_write, fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; }
	syscall(SYS_close, fd);
}
static std::string readAll(const std::string& path) {
	std::string r; char b[65536];
	int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY);
	if (fd < 0) return r;
	long k;
	while ((k = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, k);
	syscall(SYS_close, fd);
	return r;
}
static std::string jsonStr(std::string_view s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { char t[8]; std::snprintf(t, sizeof t, "\\u%04x", c); r += t; }
		else r += (char)c;
	}
	return r + "\"";
}
static void say(const std::string& s) { std::size_t o = 0; while (o < s.size()) { long k = syscall(SYS_write, 1, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } }

bool thorough();

static int simMain2(int argc, char** argv) {
	std::map<std::string, std::string> opt;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[++i];
	}
	if (!getenv("SIM_NOASLR")) {
		setenv("SIM_NOASLR", "1", 1);
		rlimit stk{8u << 20, RLIM_INFINITY};
		rlimit cur{};
		getrlimit(RLIMIT_STACK, &cur);
		stk.rlim_max = cur.rlim_max;
		if (stk.rlim_max == RLIM_INFINITY || stk.rlim_max >= stk.rlim_cur) setrlimit(RLIMIT_STACK, &stk);
		int p = personality(0xffffffff);
		if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
	}
	mapHeaps();
	rlimit noc{0, 0};
	setrlimit(RLIMIT_CORE, &noc);
	optThorough = opt["tier"] == "thorough";
	std::string want = opt.count("scenarios") ? opt["scenarios"] : "";
	std::string replayFile = opt.count("replay") ? opt["replay"] : "";
	std::vector<std::uint32_t> rtape;
	std::string rclass; std::uint64_t rhash = 0; bool unstable = false;
	if (!replayFile.empty()) {
		std::string s = readAll(replayFile);
		std::size_t p = 0;
		while (p < s.size()) {
			std::size_t e = s.find('\n', p);
			if (e == std::string::npos) e = s.size();
			std::string line = s.substr(p, e - p);
			p = e + 1;
			if (line.rfind("scenarios ", 0) == 0) want = line.substr(10);
			else if (line.rfind("tier ", 0) == 0) optThorough = line.substr(5) == "thorough";
			else if (line.rfind("class ", 0) == 0) rclass = line.substr(6);
			else if (line.rfind("unstable ", 0) == 0) unstable = true;
			else if (line.rfind("hash ", 0) == 0) rhash = strtoull(line.c_str() + 5, nullptr, 16);
			else if (line.rfind("tape", 0) == 0) { const char* q = line.c_str() + 4; char* n; while (true) { unsigned long v = strtoul(q, &n, 10); if (n == q) break; rtape.push_back((std::uint32_t)v); q = n; } }
		}
	}
	unsigned tot = 0;
	std::string sel = "," + want + ",";
	for (auto& s : scenarios()) if (want.empty() || sel.find("," + std::string(s.name) + ",") != std::string::npos) {
		selected.push_back(&s); tot += s.weight; cumul.push_back(tot);
	}
	if (selected.empty()) { say("no scenario selected\n"); return 2; }
	long runs = opt.count("runs") ? atol(opt["runs"].c_str()) : 1000;
	int workers = opt.count("workers") ? atoi(opt["workers"].c_str()) : 8;
	std::uint64_t seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
	double cap = opt.count("time") ? atof(opt["time"].c_str()) : 1e9;
	std::string out = opt.count("outdir") ? opt["outdir"] : ".";
	std::string id = opt.count("id") ? opt["id"] : "X";
	std::string ignore = opt.count("ignore") ? "," + opt["ignore"] + "," : "";   // known findings, by class
	std::uint64_t base = mix(seed, std::hash<std::string>{}(id));

	auto newWorld = [] { W = (World*)mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
	if (!replayFile.empty()) {
		newWorld();
		W->tracing = true;
		runTape(rtape);
		say(std::string(W->trace, W->traceLen));
		char b[256];
		std::snprintf(b, sizeof b, "REPLAY violated=%d class=%s hash=%016llx expected-class=%s expected-hash=%016llx\n", W->violated, W->vclass, (unsigned long long)W->hash, rclass.c_str(), (unsigned long long)rhash);
		say(b);
		say(std::string(W->vmsg) + "\n");
		bool same = W->violated && rclass == W->vclass && (unstable || rhash == W->hash);
		return same ? 1 : W->violated ? 4 : 0;
	}
	if (opt.count("one")) {
		newWorld();
		W->tracing = true;
		std::uint64_t i = strtoull(opt["one"].c_str(), nullptr, 10);
		runSeed(mix(base, i));
		say(std::string(W->trace, W->traceLen));
		say(fmt("violated=%d class=%s hash=%016llx choices=%u\n%s\n", W->violated, W->vclass, (unsigned long long)W->hash, W->pos, W->vmsg));
		return W->violated;
	}
	std::vector<pid_t> pids;
	for (int w = 0; w < workers; w++) {
		pid_t p = fork();
		if (p) { pids.push_back(p); continue; }
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		newWorld();
		double t0 = nowReal();
		long done = 0, nontriv = 0, nd = 0, recheck = 0;
		std::uint64_t events = 0, simNs = 0, choices = 0;
		std::unordered_set<std::uint64_t> hashes, sigs;
		std::map<std::string, long> perScenario, knownSeen;
		std::vector<std::string> samples;
		std::string viol;
		bool bad = false;
		std::string badWhy;
		for (long i = w; i < runs; i += workers) {
			if (nowReal() - t0 > cap) break;
			std::uint64_t s = mix(base, i);
			W->tracing = samples.size() < 1 && w < 3;
			runSeed(s);
			if (W->harnessError) { bad = true; badWhy = fmt("harness error in run %ld (%s)", i, lastScenario); break; }
			done++;
			perScenario[lastScenario]++;
			events += W->events;
			choices += W->pos;
			simNs += W->clockNs - 1'700'000'000'000'000'000ull;
			if (W->nontrivial) { nontriv++; hashes.insert(W->hash); }
			sigs.insert(W->sig);
			if (W->tracing && W->nontrivial) samples.push_back(fmt("run %ld seed %llu: ", i, (unsigned long long)s) + std::string(W->trace, std::min<std::size_t>(W->traceLen, 1500)));
			std::uint64_t h = W->hash;
			bool v = W->violated;
			std::string cls = W->vclass, msg = W->vmsg;
			if (!v && ((i / workers) % 40) != 0) continue;
			W->tracing = false;
			// determinism gate: same PRNG again
			std::uint64_t savedFired[F_COUNT];
			std::memcpy(savedFired, W->fired, sizeof savedFired);
			std::uint32_t np = W->nprobes;
			static Probe savedProbes[MAX_PROBES];
			std::memcpy(savedProbes, W->probes, sizeof savedProbes);
			runSeed(s);
			recheck++;
			bool same = W->hash == h && W->violated == v && cls == W->vclass;
			// the code under test depends on something no seed decides (uninitialised memory, say): if both executions
			// violate the property in the same way that is the report, otherwise the search goes on
			bool unstable = !same && v && W->violated && cls == W->vclass && !W->harnessError;
			if (!same && !unstable) { if (++nd >= 20 || W->harnessError) bad = true; badWhy = fmt("run %ld (%s) is not deterministic: hash %016llx vs %016llx, class '%s' vs '%s'", i, lastScenario, (unsigned long long)h, (unsigned long long)W->hash, cls.c_str(), W->vclass); }
			auto restore = [&] { std::memcpy(W->fired, savedFired, sizeof savedFired); std::memcpy(W->probes, savedProbes, sizeof savedProbes); W->nprobes = np; };
			if (bad) break;
			if (!same && !unstable) { restore(); continue; }
			if (v) {
				if (ignore.find("," + cls + ",") != std::string::npos) { knownSeen[cls]++; restore(); continue; }
				long tries = 0;
				auto tape = currentTape();
				auto small = shrink(tape, cls, optThorough ? 60 : 25, tries);
				W->tracing = true;
				runTape(small);
				if (unstable && (!W->violated || cls != W->vclass)) { nd++; badWhy = fmt("run %ld (%s) is not deterministic", i, lastScenario); restore(); continue; }
				std::string r = "sim-replay 1\nproperty " + id + "\nbinary " + opt["binary"] + "\nscenarios " + want + "\ntier " + (optThorough ? "thorough" : "quick") + "\n";
				r += fmt("origin VERIF_SEED=%llu run=%ld seed=%llu\n", (unsigned long long)seed, i, (unsigned long long)s);
				r += std::string("class ") + W->vclass + "\n" + fmt("hash %016llx\n", (unsigned long long)W->hash);
				if (unstable) r += "unstable the executions of this run differ in details; the violation is the same\n";
				r += fmt("minimised %zu choices -> %zu in %ld runs\n", tape.size(), small.size(), tries);
				r += "tape";
				for (auto x : small) r += fmt(" %u", x);
				r += "\n";
				std::string m = W->vmsg;
				r += "message " + quote(m, 4000) + "\n# history of the minimised run\n";
				std::string tr(W->trace, W->traceLen);
				r += "# ";
				for (char c : tr) { r += c; if (c == '\n') r += "# "; }
				r += "\n";
				std::string rp = out + fmt("/%s-%ld.replay", id.c_str(), i);
				writeAll(rp, r);
				viol = fmt("{\"run\":%ld,\"class\":", i) + jsonStr(cls) + ",\"message\":" + jsonStr(m) + ",\"original\":" + jsonStr(msg) + ",\"replay\":" + jsonStr(rp) + fmt(",\"choices\":%zu,\"from\":%zu}", small.size(), tape.size());
				restore();
				break;
			}
			restore();
		}
		double t1 = nowReal();
		std::string j = fmt("{\"runs\":%ld,\"nontrivial\":%ld,\"rechecked\":%ld,\"nondet\":%ld,\"events\":%llu,\"choices\":%llu,\"sim_s\":%.3f,\"wall_s\":%.3f,\"complete\":%s,", done, nontriv, recheck, nd, (unsigned long long)events, (unsigned long long)choices, simNs * 1e-9, t1 - t0, "true");
		j += "\"error\":" + (bad || nd ? jsonStr(badWhy) : std::string("null")) + ",\"faults\":{";
		for (int i = 0; i < F_COUNT; i++) j += fmt("%s\"%s\":%llu", i ? "," : "", faultName[i], (unsigned long long)W->fired[i]);
		j += "},\"probes\":{";
		for (std::uint32_t i = 0; i < W->nprobes; i++) j += fmt("%s", i ? "," : "") + jsonStr(W->probes[i].name) + fmt(":%llu", (unsigned long long)W->probes[i].count);
		j += "},\"scenarios\":{";
		bool first = true;
		for (auto& [k, v] : perScenario) { j += (first ? "" : ",") + jsonStr(k) + fmt(":%ld", v); first = false; }
		j += "},\"known\":{";
		first = true;
		for (auto& [k, v] : knownSeen) { j += (first ? "" : ",") + jsonStr(k) + fmt(":%ld", v); first = false; }
		j += "},\"samples\":[";
		for (std::size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + jsonStr(samples[i]);
		j += "],\"violation\":" + (viol.empty() ? "null" : viol) + "}";
		std::string hb;
		for (auto h : hashes) hb.append((const char*)&h, 8);
		writeAll(out + fmt("/w%d.hashes", w), hb);
		hb.clear();
		for (auto h : sigs) hb.append((const char*)&h, 8);
		writeAll(out + fmt("/w%d.sigs", w), hb);
		writeAll(out + fmt("/w%d.json", w), j);
		syscall(SYS_exit_group, 0);
	}
	int rc = 0;
	for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 3; }
	syscall(SYS_exit_group, rc);
	return rc;
}
// the simulator itself never initialises the library, so its exit handlers must not run
int simMain(int argc, char** argv) { int rc = simMain2(argc, argv); syscall(SYS_exit_group, rc); return rc; }
} // namespace sim

// =============================================================================
// interposed libc symbols (the seam below libstdc++)
// =============================================================================
using namespace sim;
template<typename F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto real = next<decltype(&name)>(#name)

static Open* asOpen(FILE* f) {
	Open* o = (Open*)f;
	return o >= opens && o < opens + 64 ? o : nullptr;
}
static FILE* remap(FILE* f) {
	if (!active) return f;
	if (f == stdin) return cIn;
	if (f == stdout) return cOut;
	if (f == stderr) return cErr;
	return f;
}
static FILE* simOpen(const char* path, const char* mode) {
	bool plus = std::strchr(mode, '+');
	bool x = std::strchr(mode, 'x');
	int fd = mode[0] == 'r' ? openFile(path, true, plus, false, false, false)
	       : mode[0] == 'w' ? openFile(path, plus, true, true, true, false, x)
	                        : openFile(path, plus, true, true, false, true);
	return fd < 0 ? nullptr : (FILE*)&opens[fd - FD0];
}
#pragma GCC visibility push(default)
extern "C" {
#undef getc
#undef putc
FILE* fopen(const char* p, const char* m) { REAL(fopen); return isSim(p) ? simOpen(p, m) : real(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); return isSim(p) ? simOpen(p, m) : real(p, m); }
int fclose(FILE* f) { REAL(fclose); if (Open* o = asOpen(f)) return closeFd(FD0 + (int)(o - opens)); return real(remap(f)); }
int fileno(FILE* f) { REAL(fileno); if (Open* o = asOpen(f)) return FD0 + (int)(o - opens); return real(f); }
int fflush(FILE* f) { REAL(fflush); if (asOpen(f)) return 0; return real(remap(f)); }
int getc(FILE* f) { REAL(getc); return real(remap(f)); }
int fgetc(FILE* f) { REAL(fgetc); return real(remap(f)); }
int ungetc(int c, FILE* f) { REAL(ungetc); return real(c, remap(f)); }
size_t fread(void* p, size_t s, size_t n, FILE* f) { REAL(fread); return real(p, s, n, remap(f)); }
int putc(int c, FILE* f) { REAL(putc); return real(c, remap(f)); }
int fputc(int c, FILE* f) { REAL(fputc); return real(c, remap(f)); }
int fputs(const char* s, FILE* f) { REAL(fputs); return real(s, remap(f)); }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { REAL(fwrite); return real(p, s, n, remap(f)); }
int fseeko64(FILE* f, off64_t o, int w) { REAL(fseeko64); return real(remap(f), o, w); }
off64_t ftello64(FILE* f) { REAL(ftello64); return real(remap(f)); }
int setvbuf(FILE* f, char* b, int m, size_t n) { REAL(setvbuf); if (asOpen(f)) return 0; return real(remap(f), b, m, n); }

static int openFlags(const char* p, int fl) {
	int acc = fl & O_ACCMODE;
	return openFile(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
}
int open(const char* p, int fl, ...) {
	va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a);
	if (isSim(p)) return openFlags(p, fl);
	return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open64(const char* p, int fl, ...) {
	va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a);
	if (isSim(p)) return openFlags(p, fl);
	return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int close(int fd) { if (fd >= FD0) return closeFd(fd); return (int)syscall(SYS_close, fd); }
ssize_t read(int fd, void* b, size_t n) {
	if (fd >= FD0 && fdOpen(fd)) return fileRead(fd, b, n);
	if (active && fd == 0) return stdinRead((char*)b, n);
	return syscall(SYS_read, fd, b, n);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) {
	if (fd >= FD0 && fdOpen(fd)) return fileWrite(fd, (const char*)b, n);
	if (active && (fd == 1 || fd == 2)) return stdoutWrite(fd, (const char*)b, n);
	return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
	if ((fd >= FD0 && fdOpen(fd)) || (active && (fd == 1 || fd == 2))) {
		NoFault noFault;
		std::string all;
		for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
		return write(fd, all.data(), all.size());
	}
	return syscall(SYS_writev, fd, v, c);
}
off64_t lseek64(int fd, off64_t off, int wh) {
	if (Open* o = fdOpen(fd)) {
		off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)o->pos : (off64_t)o->f->len;
		if (base + off < 0) { errno = EINVAL; return -1; }
		o->pos = (size_t)(base + off);
		return o->pos;
	}
	return syscall(SYS_lseek, fd, off, wh);
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
int ftruncate(int fd, off_t n) { if (Open* o = fdOpen(fd)) { o->f->len = (uint32_t)n; return 0; } return (int)syscall(SYS_ftruncate, fd, n); }
int fsync(int fd) { if (fdOpen(fd)) { if (!sysEnter("fsync")) killNow(); return 0; } return (int)syscall(SYS_fsync, fd); }
int poll(struct pollfd* p, nfds_t n, int t) {
	if (n == 1 && (fdOpen(p[0].fd) || (active && p[0].fd <= 2))) { p[0].revents = POLLIN; return 1; }
	return (int)syscall(SYS_poll, p, n, t);
}
int ioctl(int fd, unsigned long req, ...) {
	va_list a; va_start(a, req); void* arg = va_arg(a, void*); va_end(a);
	if (Open* o = fdOpen(fd)) {
		if (req == FIONREAD) { *(int*)arg = (int)(o->f->len > o->pos ? o->f->len - o->pos : 0); return 0; }
		errno = ENOTTY; return -1;
	}
	if (active && fd <= 2) { errno = ENOTTY; return -1; }
	return (int)syscall(SYS_ioctl, fd, req, arg);
}
static int simStat(const char* p, struct stat* st) {
	NoFault noFault;
	if (!sysEnter("stat")) killNow();
	std::memset(st, 0, sizeof *st);
	std::string n = p;
	if (isDir(n)) { st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; return 0; }
	File* f = file(n);
	ev("stat %s -> %s", p, f ? "ok" : "ENOENT");
	if (!f) { errno = ENOENT; return -1; }
	st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = f->len; st->st_ino = (ino_t)(f - W->files) + 1; st->st_blksize = 4096;
	return 0;
}
int stat(const char* p, struct stat* st) { REAL(stat); return isSim(p) ? simStat(p, st) : real(p, st); }
int lstat(const char* p, struct stat* st) { REAL(lstat); return isSim(p) ? simStat(p, st) : real(p, st); }
int stat64(const char* p, struct stat64* st) { REAL(stat64); return isSim(p) ? simStat(p, (struct stat*)st) : real(p, st); }
int lstat64(const char* p, struct stat64* st) { REAL(lstat64); return isSim(p) ? simStat(p, (struct stat*)st) : real(p, st); }
int fstat(int fd, struct stat* st) { REAL(fstat); if (Open* o = fdOpen(fd)) return simStat(o->f->name, st); return real(fd, st); }
int fstat64(int fd, struct stat64* st) { REAL(fstat64); if (Open* o = fdOpen(fd)) return simStat(o->f->name, (struct stat*)st); return real(fd, st); }
int access(const char* p, int m) { if (isSim(p)) { struct stat s; return simStat(p, &s); } return (int)syscall(SYS_access, p, m); }
static int simRemove(const char* p) {
	NoFault noFault;
	if (!sysEnter("remove")) killNow();
	if (countdown(plan.removeFail)) { fired(F_REMOVE_FAIL); errno = EACCES; return -1; }
	File* f = file(p);
	ev("remove %s -> %s", p, f ? "ok" : "ENOENT");
	if (!f) { errno = ENOENT; return -1; }
	f->used = false;
	return 0;
}
int remove(const char* p) { REAL(remove); return isSim(p) ? simRemove(p) : real(p); }
int unlink(const char* p) { if (isSim(p)) return simRemove(p); return (int)syscall(SYS_unlink, p); }
int rename(const char* a, const char* b) {
	NoFault noFault;
	if (isSim(a)) {
		if (!sysEnter("rename")) killNow();
		File* f = file(a);
		if (!f) { errno = ENOENT; return -1; }
		if (File* g = file(b)) if (g != f) g->used = false;
		std::snprintf(f->name, sizeof f->name, "%s", b);
		ev("rename %s %s", a, b);
		return 0;
	}
	return (int)syscall(SYS_rename, a, b);
}
int truncate(const char* p, off_t n) { if (isSim(p)) { File* f = file(p); if (!f) { errno = ENOENT; return -1; } f->len = (uint32_t)n; return 0; } return (int)syscall(SYS_truncate, p, n); }

// clocks and entropy
static std::uint64_t simNow() {
	W->clockNs += plan.perturbClock ? 1000 + (plan.entropy % 977) * 1'000'000 : 1000;
	if (plan.perturbClock) W->fired[F_CLOCK]++;
	return W->clockNs + (plan.perturbClock ? plan.entropy % 100'000'000ull * 1'000'000'000ull : 0);
}
time_t time(time_t* t) { if (!active) { timespec x; syscall(SYS_clock_gettime, CLOCK_REALTIME, &x); if (t) *t = x.tv_sec; return x.tv_sec; } time_t r = (time_t)(simNow() / 1'000'000'000ull); if (t) *t = r; return r; }
int clock_gettime(clockid_t c, struct timespec* ts) { if (!active) return (int)syscall(SYS_clock_gettime, c, ts); auto n = simNow(); ts->tv_sec = n / 1'000'000'000ull; ts->tv_nsec = n % 1'000'000'000ull; return 0; }
int gettimeofday(struct timeval* tv, void*) { if (!active) { timespec x; syscall(SYS_clock_gettime, CLOCK_REALTIME, &x); tv->tv_sec = x.tv_sec; tv->tv_usec = x.tv_nsec / 1000; return 0; } auto n = simNow(); tv->tv_sec = n / 1'000'000'000ull; tv->tv_usec = n / 1000 % 1000000; return 0; }
clock_t clock() { return (clock_t)(active ? simNow() / 1000 : 0); }
int nanosleep(const struct timespec* r, struct timespec*) { if (active) { W->clockNs += r->tv_sec * 1'000'000'000ull + r->tv_nsec; return 0; } return (int)syscall(SYS_nanosleep, r, nullptr); }
static void entropy(void* p, size_t n) { if (active) W->fired[F_ENTROPY]++; std::uint64_t s = plan.entropy; for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)splitmix(s); plan.entropy = s; }
ssize_t getrandom(void* p, size_t n, unsigned fl) { if (!active) return syscall(SYS_getrandom, p, n, fl); entropy(p, n); return n; }
int getentropy(void* p, size_t n) { if (!active) return syscall(SYS_getrandom, p, n, 0) == (long)n ? 0 : -1; entropy(p, n); return 0; }
std::uint32_t arc4random() { std::uint32_t x; entropy(&x, 4); return x; }
pid_t getpid() { if (!active) return (pid_t)syscall(SYS_getpid); return 100 + (pid_t)(plan.entropy % 30000); }
unsigned simRdGetval(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned simRdGetval(void*) { unsigned x; entropy(&x, sizeof x); return x; }
} // extern "C"
#pragma GCC visibility pop

// allocation seam
// The heap of a simulated process is the simulator's own: which addresses come out depends on the process and its plan only,
// never on what the simulator did before. Either a plain first-in-last-out heap, or (plan.scatter) small blocks from randomly
// chosen arenas with random gaps: then the order of addresses says nothing about the order of allocation.
static constexpr std::size_t ARENA = 48u << 20, HEAP = 512u << 20, BIG = 1u << 20;
static char *arena[8], *arenaNext[8];
static char *heap, *heapNext;
static void* heapFree[128];
static void mapHeaps() {
	void* m = mmap(nullptr, HEAP + 8 * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { std::fprintf(stderr, "cannot map the simulated heap\n"); std::exit(3); }
	heap = heapNext = (char*)m;
	for (int i = 0; i < 8; i++) arenaNext[i] = arena[i] = (char*)m + HEAP + i * ARENA;
}
static bool inHeap(void* p) { return heap && (char*)p >= heap && (char*)p < heap + HEAP; }
static bool inArena(void* p) { return heap && (char*)p >= arena[0] && (char*)p < arena[0] + 8 * ARENA; }
static void* scatterAlloc(std::size_t n) {
	if (!heap) return nullptr;
	if (arenaNext[0] == arena[0]) W->fired[F_HEAP]++;
	std::uint64_t r = splitmix(plan.scatter);
	int k = r & 7;
	std::size_t gap = 16 * (r >> 3 & 7), need = (n + 15) / 16 * 16 + gap;
	if (arenaNext[k] + need > arena[k] + ARENA) return nullptr;
	char* p = arenaNext[k] + gap;
	arenaNext[k] += need;
	return p;
}
static void* heapAlloc(std::size_t n) {
	if (!heap || n > BIG) return nullptr;
	std::size_t size = 16;
	unsigned c = 0;
	if (n <= 1024) { c = (unsigned)((n + 15) / 16); size = c * 16; }
	else for (c = 65, size = 2048; size < n; size *= 2) c++;
	char* p;
	if (heapFree[c]) { p = (char*)heapFree[c]; std::memcpy(&heapFree[c], p, sizeof(void*)); }
	else {
		if (heapNext + 16 + size > heap + HEAP) return nullptr;
		p = heapNext + 16;
		heapNext = p + size;
		std::memcpy(p - 16, &c, sizeof c);
	}
	return p;
}
static void simFree(void* p) {
	if (inArena(p)) return;
	if (!inHeap(p)) { std::free(p); return; }
	unsigned c;
	std::memcpy(&c, (char*)p - 16, sizeof c);
	std::size_t size = c <= 64 ? c * 16 : (std::size_t)2048 << (c - 65);
	std::memset(p, plan.fill ^ 0x5A, size < 4096 ? size : 4096);
	std::memcpy(p, &heapFree[c], sizeof(void*));
	heapFree[c] = p;
}
static void* simAlloc(std::size_t n) {
	if (active && !inAllocator) {
		W->allocs++;
		if (plan.alloc >= 0) {
			if (plan.alloc == 0) {
				if (!plan.allocSticky) plan.alloc = -1;
				W->fired[F_ALLOC]++;
				if (n > W->failedAlloc) W->failedAlloc = n;
				throw std::bad_alloc();
			}
			plan.alloc--;
		}
		if (W->allocs > 8'000'000) { W->hang = true; childExit(97); }
	}
	void* p = active && plan.scatter && n <= 32768 ? scatterAlloc(n ? n : 1) : nullptr;
	if (!p && active) p = heapAlloc(n ? n : 1);
	if (!p) p = std::malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	if (active) std::memset(p, plan.fill, n < 4096 ? n : 4096);
	return p;
}
void* operator new(std::size_t n) { return simAlloc(n); }
void* operator new[](std::size_t n) { return simAlloc(n); }
void operator delete(void* p) noexcept { simFree(p); }
void operator delete[](void* p) noexcept { simFree(p); }
void operator delete(void* p, std::size_t) noexcept { simFree(p); }
void operator delete[](void* p, std::size_t) noexcept { simFree(p); }
