// Deterministic simulator core: one choice tape decides every run.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

// ---- fault kinds -----------------------------------------------------------
enum Fault : int {
	F_SHORT_READ, F_SHORT_WRITE, F_EINTR, F_LATE, F_EIO_READ, F_EIO_STDIN, F_ENOSPC, F_EIO_WRITE, F_OPEN_FAIL,
	F_CLOSE_FAIL, F_REMOVE_FAIL, F_KILL, F_ALLOC, F_EPIPE, F_SIGPIPE, F_STALL, F_CUT, F_CORRUPT, F_STALE,
	F_CLOCK, F_ENTROPY, F_HEAP, F_ENGINE, F_STDOUT_ERR, F_PEERDEATH, F_COUNT
};
extern const char* const faultName[F_COUNT];

constexpr std::size_t FILE_CAP = 384 * 1024;
constexpr int MAX_FILES = 40;
constexpr int TAPE_CAP = 1 << 17;
constexpr int MAX_PROBES = 400;

struct File {
	char name[112];
	bool used;
	std::uint32_t len;
	char data[FILE_CAP];
};

struct Probe { char name[56]; std::uint64_t count; };

struct World {
	// choices
	std::uint64_t prng, seed;
	bool replay;
	std::uint32_t nreplay, pos;
	std::uint32_t tape[TAPE_CAP];
	std::uint32_t bound[TAPE_CAP];
	std::uint32_t replayTape[TAPE_CAP];
	bool tapeOverflow; std::uint32_t past;
	// history
	std::uint64_t hash;
	std::uint64_t events;
	bool tracing;
	std::uint32_t traceLen;
	char trace[1 << 18];
	std::uint64_t sig;            // coarse state signature
	bool nontrivial;
	// verdict of the oracle
	bool violated;
	char vclass[96];
	char vmsg[6000];
	bool harnessError;
	std::uint32_t user;           // scratch of the harness, shared with the simulated process
	// coverage
	std::uint64_t fired[F_COUNT];
	std::uint32_t nprobes;
	Probe probes[MAX_PROBES];
	// simulated machine
	std::uint64_t clockNs;
	std::uint64_t steps;          // simulated system calls of the current process
	std::uint64_t allocs;
	std::uint64_t failedAlloc;    // largest request of the current process that was refused
	bool killed, hang, deadlock;
	int sigpipe;                  // process died of SIGPIPE
	std::uint64_t lateBytes;
	// scratch for harness <-> judge communication (child writes, judge reads)
	std::uint32_t histLen;
	char hist[1 << 19];
	std::uint32_t nfiles;
	File files[MAX_FILES];
};
extern World* W;

// ---- choices ---------------------------------------------------------------
std::uint32_t choose(std::uint32_t n);            // [0,n), 0 is the simplest
inline bool chance(std::uint32_t num, std::uint32_t den) { return choose(den) >= den - num; } // 0 -> false
std::int64_t range(std::int64_t lo, std::int64_t hi); // inclusive, lo simplest
std::uint64_t word();                             // arbitrary 64-bit word
template<typename T> const T& pick(const std::vector<T>& v) { return v[choose((std::uint32_t)v.size())]; }

// ---- history / oracle ------------------------------------------------------
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void evData(const char* what, const void* p, std::size_t n);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // trace only, not hashed
void probe(const char* name, std::uint64_t n = 1);
void sig(std::uint64_t v);                        // mix into coarse state signature
void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void hist(std::string_view s);                    // append a record to the history buffer
void fired(Fault f);

// ---- simulated disk --------------------------------------------------------
File* file(const std::string& name, bool create = false);
void put(const std::string& name, std::string_view content);
bool exists(const std::string& name);
std::string get(const std::string& name);
void unlinkFile(const std::string& name);
std::vector<std::string> listFiles();

// ---- fault plan (private to the process; inherited by spawn) ----------------
struct Plan {
	// delivery (benign): never change any result
	std::uint32_t shortRead = 0, shortWrite = 0, eintr = 0;    // denominators; 0 = off
	// hard faults: countdown of eligible operations, <0 = off
	long eioRead = -1, eioStdin = -1, enospc = -1, eioWrite = -1, openFail = -1, closeFail = -1, removeFail = -1;
	long kill = -1;                    // die just before the k-th simulated system call
	long alloc = -1;                   // k-th allocation fails
	bool allocSticky = false;          // ... and all later ones
	long stdoutErr = -1;
	bool enospcSticky = false;         // disk stays full
	long enospcPartial = 0;            // bytes that still fit
	std::string onlyPath;              // restrict hard write faults to paths containing this
	unsigned char fill = 0xA5;         // content of fresh memory
	std::uint64_t heapShift = 0;
	std::uint64_t scatter = 0;         // seed of a randomised address order of small blocks (0: plain malloc)
	bool perturbClock = false;
	std::uint64_t entropy = 0x1234;
};
extern Plan& plan;

// ---- standard streams of the simulated process ------------------------------
struct Stdio {
	bool pipe = false;                 // stdin not seekable
	bool interactive = false;          // stdin/stdout are pipes to a peer
	std::uint32_t capacity = 65536;    // capacity of the pipe towards the peer (and back)
	std::uint32_t chunkMode = 0;       // 0: as asked, 1: single bytes, 2: random chunks
	std::uint32_t readCap = 0;
	std::uint32_t bufSize = 0;         // stdio buffer size of stdout (0: default)
	bool sigpipeDefault = true;
	std::uint64_t stallKillNs = 10'000'000'000ull;
};
extern Stdio& stdio_;
// peer of an interactive process (lives in the same child, driven by the scheduler)
enum PeerState { PEER_PROGRESS, PEER_BLOCKED, PEER_GONE };
struct Channel { std::string buf; std::size_t rd = 0; bool wclosed = false, rclosed = false; std::size_t avail() const { return buf.size() - rd; } };
extern Channel &toPeer, &fromPeer;
extern std::function<PeerState()>& peerStep;
extern std::function<void()>& onReadBlock;         // called whenever the process is about to wait for its peer
extern std::function<void()>& onDeadlock;          // called when nobody can make progress
void peerWrite(std::string_view s);

// ---- processes ---------------------------------------------------------------
struct Status { bool exited; int code; int signal; bool killed, hang, deadlock; int sigpipe; int shown() const { return exited ? code : 128 + signal; } };
enum ExitMode { EXIT_REAL, EXIT_FAST };
Status spawn(const std::function<void()>& body, ExitMode mode);
extern bool active;
[[noreturn]] void childExit(int code);            // leave without destructors

// code of the harness itself (oracle, peer, simulator) never sees injected allocation failures
extern bool inAllocator;
struct NoFault { bool old; NoFault() : old(inAllocator) { inAllocator = true; } ~NoFault() { inAllocator = old; } };

// ---- scenarios ---------------------------------------------------------------
struct Scenario { const char* name; std::function<void()> run; unsigned weight; };
std::vector<Scenario>& scenarios();
struct Register { Register(const char* n, std::function<void()> f, unsigned w = 1) { scenarios().push_back({n, f, w}); } };
int simMain(int argc, char** argv);
bool thorough();

std::string quote(std::string_view s, std::size_t max = 200);
std::uint64_t mix(std::uint64_t a, std::uint64_t b);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}
