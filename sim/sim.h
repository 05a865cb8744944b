// Core of the deterministic simulator: PRNG, scenarios, event log, seams
// (allocator, simulated disk), step budget, violation reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>

typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- PRNG
struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
	u64 next() {
		u64 z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	i64 range(i64 a, i64 b) { return b <= a ? a : a + (i64)(next() % (u64)(b - a + 1)); } // inclusive
	bool chance(int pct) { return (int)(next() % 100) < pct; }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
	// log-ish distributed size
	i64 size(i64 a, i64 b) {
		if (b <= a) return a;
		int bits = 0; for (i64 d = b - a; d; d >>= 1) bits++;
		i64 m = ((i64)1 << range(0, bits)) - 1;
		i64 v = a + (m ? (i64)(next() % (u64)(m + 1)) : 0);
		return v > b ? b : v;
	}
};

// ---------------------------------------------------------------- scenarios
struct Op {
	std::string n;
	std::vector<i64> a;
	Op() {}
	Op(const std::string & n_, std::initializer_list<i64> l) : n(n_), a(l) {}
	Op(const std::string & n_, const std::vector<i64> & l) : n(n_), a(l) {}
	i64 at(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
	std::string str() const;
};
struct Scenario {
	std::string prop;
	u64 seed = 0;
	std::vector<Op> ops;
	void add(const std::string & n, std::initializer_list<i64> l) { ops.emplace_back(n, l); }
	void add(const std::string & n, const std::vector<i64> & l) { ops.emplace_back(n, l); }
	std::string str() const;
	static bool parse(const std::string & text, Scenario & out);
};

// ---------------------------------------------------------------- violations
struct Violation { std::string cls, msg; };
// throws Violation; never call it from a callback invoked by the library
[[noreturn]] void violate(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
// records the first violation; thrown by checkPending()
void pend(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
void checkPending();
bool pending();

// ---------------------------------------------------------------- run state
struct Stats {
	std::map<std::string, u64> probes;   // conditions reached
	std::map<std::string, u64> faults;   // faults that actually fired
	u64 frames = 0;                      // simulated audio frames rendered
	u64 steps = 0;                       // library basic blocks executed
	double simSeconds = 0;               // simulated audio time covered
};
struct Run {
	u64 hash = 0;
	bool trace = false;
	bool nontrivial = false;
	std::set<u64> states;                // distinct abstract states of this run
	Stats st;
};
extern Run R;

void logHash(const void * p, size_t n);
void logv(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
#define LOG(...) logv(__VA_ARGS__)
inline void probe(const char * name, u64 n = 1) { R.st.probes[name] += n; }
inline void fault(const char * name, u64 n = 1) { R.st.faults[name] += n; }
inline void simFrames(u64 frames, u32 rate) { R.st.frames += frames; R.st.simSeconds += rate ? (double)frames / rate : 0; }

// ---------------------------------------------------------------- step budget
void budgetSet(u64 steps);      // library basic blocks allowed from here on
u64 budgetUsed();

// ---------------------------------------------------------------- simulated threads
// each body runs on its own stack; they take turns as `next` says: it names the thread to
// run and how many basic blocks of the library it may execute (0: until it ends)
struct Slice { int thread; u64 steps; };
u64 simThreads(const std::vector<std::function<void()>> & bodies, const std::function<Slice(const std::vector<bool> & alive)> & next);   // returns the number of preemptions

// ---------------------------------------------------------------- allocator seam
struct AllocPlan {
	std::set<u64> failAt;     // indices (1-based, counted from planReset) that fail
	u64 failFrom = 0;         // every allocation from this index on fails (0: off)
};
extern AllocPlan allocPlan;
void allocReset(u64 poisonSeed);        // forget everything, set poison pattern
u64 allocCount();                       // allocations attempted since allocMark
void allocMark();                       // restart index counting
size_t allocLive();                     // live library allocations
size_t allocLiveBytes();
bool allocOwns(const void * p);
std::string allocDescribe();

// ---------------------------------------------------------------- simulated disk
struct IoPlan {
	// index (1-based) of the low-level call of that kind -> action
	std::map<u64, int> rd, wr, sk;
	i64 diskFull = -1;     // bytes that still fit (-1: unlimited)
	i64 chunk = 0;         // max bytes a low-level read/write moves (0: unlimited)
	bool seekable = true;
	int bufMode = 0;       // 0 full buffering default, 1 unbuffered, 2 small buffer
};
enum { IO_SHORT = 1, IO_EIO = 2, IO_EINTR = 3, IO_ENOSPC = 4, IO_CRASH = 5 };
struct SimFile {
	std::vector<unsigned char> data;   // what the simulated disk holds
	i64 pos = 0;
	int mode = 2;                      // 0 rdonly 1 wronly 2 rdwr
	bool crashed = false;
	IoPlan plan;
	u64 nrd = 0, nwr = 0, nsk = 0;
	u64 hardErrors = 0;                // errors that were reported to the program
	std::vector<char> vbuf;
	FILE * fp = nullptr;
	u64 generation = 0;
};
FILE * simOpen(SimFile & f);
void simClose(SimFile & f);
u64 simRand();                          // deterministic rand() seen by the library

// ---------------------------------------------------------------- property registry
struct Prop {
	const char * id;
	void (*gen)(Scenario & sc, Rng & r, bool thorough);
	void (*exec)(const Scenario & sc);
	const char * rule;
};
void registerProp(const Prop & p);
struct PropReg { PropReg(const Prop & p) { registerProp(p); } };
