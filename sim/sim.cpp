#include "sim.h"
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <ucontext.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

Run R;

std::string Op::str() const {
	std::string s = n;
	for (i64 v : a) { s += ' '; s += std::to_string(v); }
	return s;
}
std::string Scenario::str() const {
	std::string s = "prop " + prop + " seed " + std::to_string(seed) + "\n";
	for (auto & o : ops) { s += o.str(); s += '\n'; }
	return s;
}
bool Scenario::parse(const std::string & text, Scenario & out) {
	out = Scenario();
	size_t i = 0; bool first = true;
	while (i < text.size()) {
		size_t e = text.find('\n', i); if (e == std::string::npos) e = text.size();
		std::string line = text.substr(i, e - i); i = e + 1;
		if (line.empty() || line[0] == '#') continue;
		std::vector<std::string> w; size_t p = 0;
		while (p < line.size()) {
			size_t q = line.find(' ', p); if (q == std::string::npos) q = line.size();
			if (q > p) w.push_back(line.substr(p, q - p));
			p = q + 1;
		}
		if (w.empty()) continue;
		if (first) {
			if (w.size() < 4 || w[0] != "prop") return false;
			out.prop = w[1]; out.seed = strtoull(w[3].c_str(), 0, 10); first = false; continue;
		}
		Op o; o.n = w[0];
		for (size_t k = 1; k < w.size(); k++) o.a.push_back(strtoll(w[k].c_str(), 0, 10));
		out.ops.push_back(o);
	}
	return !first;
}

// ---------------------------------------------------------------- violations
static bool g_pending = false;
static Violation g_pend;
static std::string vfmt(const char * fmt, va_list ap) {
	char b[2048]; vsnprintf(b, sizeof b, fmt, ap); return b;
}
void violate(const char * cls, const char * fmt, ...) {
	va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
	throw Violation{cls, m};
}
void pend(const char * cls, const char * fmt, ...) {
	if (g_pending) return;
	va_list ap; va_start(ap, fmt); g_pend.msg = vfmt(fmt, ap); va_end(ap);
	g_pend.cls = cls; g_pending = true;
}
bool pending() { return g_pending; }
void checkPending() { if (g_pending) { g_pending = false; throw g_pend; } }
void pendClear() { g_pending = false; }

// ---------------------------------------------------------------- log
void logHash(const void * p, size_t n) {
	const unsigned char * c = (const unsigned char *)p;
	u64 h = R.hash;
	while (n >= 8) { u64 w; memcpy(&w, c, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; c += 8; n -= 8; }
	for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
	h ^= h >> 32;
	R.hash = h;
}
void logv(const char * fmt, ...) {
	char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	logHash(b, n);
	if (R.trace) { fputs(b, stdout); fputc('\n', stdout); fflush(stdout); }
}

// ---------------------------------------------------------------- step budget (library is built with trace-pc-guard)
static u64 g_budget = ~0ull, g_budget0 = ~0ull;
void budgetSet(u64 s) { R.st.steps += g_budget0 - g_budget; g_budget = g_budget0 = s; }
u64 budgetUsed() { return g_budget0 - g_budget; }
extern "C" void simDeath(const char * what);
extern "C" void __sanitizer_cov_trace_pc_guard_init(u32 * start, u32 * stop) {
	static u32 n = 0;
	if (start == stop || *start) return;
	for (u32 * p = start; p < stop; p++) *p = ++n;
}
unsigned char g_edge[1 << 16];
static u64 g_slice = ~0ull; static void preempt(u32 at);
extern "C" void __sanitizer_cov_trace_pc_guard(u32 * g) {
	g_edge[*g & 0xffff] = 1;
	if (--g_budget == 0) simDeath("hang");
	if (--g_slice == 0) preempt(*g);
}

// ---------------------------------------------------------------- simulated threads
static u64 g_rand = 1;
enum { NTHREAD = 4 };
static const size_t STACK = 512 << 10;
struct Fiber { ucontext_t uc; char * stack = nullptr; bool done = true; u64 rnd = 1; u32 at = 0; const std::function<void()> * body = nullptr; };
static Fiber g_fiber[NTHREAD]; static ucontext_t g_main; static int g_cur = -1; static const void * g_mainStack; static size_t g_mainSize; static u64 g_switches;
static void toMain(bool end) {
	void * fake = nullptr; g_slice = ~0ull;
	__sanitizer_start_switch_fiber(end ? nullptr : &fake, g_mainStack, g_mainSize);
	swapcontext(&g_fiber[g_cur].uc, &g_main);
	__sanitizer_finish_switch_fiber(fake, &g_mainStack, &g_mainSize);
}
static void preempt(u32 at) { if (g_cur < 0) { g_slice = ~0ull; return; } g_fiber[g_cur].at = at; g_switches++; toMain(false); }
static void fiberMain() {
	__sanitizer_finish_switch_fiber(nullptr, &g_mainStack, &g_mainSize);
	try { (*g_fiber[g_cur].body)(); } catch (Violation & v) { pend(v.cls.c_str(), "%s", v.msg.c_str()); }
	g_fiber[g_cur].done = true;
	toMain(true);
}
u64 simThreads(const std::vector<std::function<void()>> & bodies, const std::function<Slice(const std::vector<bool> & alive)> & next) {
	size_t n = bodies.size(); if (n > NTHREAD) n = NTHREAD;
	g_switches = 0; u64 rnd0 = g_rand;
	for (size_t i = 0; i < n; i++) {
		Fiber & f = g_fiber[i]; if (!f.stack) f.stack = (char *)malloc(STACK);
		__asan_unpoison_memory_region(f.stack, STACK);
		getcontext(&f.uc); f.uc.uc_stack.ss_sp = f.stack; f.uc.uc_stack.ss_size = STACK; f.uc.uc_link = nullptr; f.done = false; f.rnd = rnd0; f.at = 0; f.body = &bodies[i];
		makecontext(&f.uc, fiberMain, 0);
	}
	std::vector<bool> alive;
	for (;;) {
		alive.assign(n, false); bool any = false; for (size_t i = 0; i < n; i++) any |= (alive[i] = !g_fiber[i].done);
		if (!any) break;
		Slice s = next(alive); if (s.thread < 0 || s.thread >= (int)n || !alive[(size_t)s.thread]) continue;
		u64 h = 0; for (size_t i = 0; i < n; i++) h = h * 65537 + (i == (size_t)s.thread ? 70000 + i : g_fiber[i].at + g_fiber[i].done);
		if (R.states.size() < 300) R.states.insert(h * 0x9E3779B97F4A7C15ull);
		Fiber & f = g_fiber[s.thread]; void * fake = nullptr;
		g_cur = s.thread; g_rand = f.rnd; g_slice = s.steps ? s.steps : ~0ull;     // rand() gives every thread its own numbers
		__sanitizer_start_switch_fiber(&fake, f.stack, STACK);
		swapcontext(&g_main, &f.uc);
		__sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
		f.rnd = g_rand; g_cur = -1;
	}
	g_slice = ~0ull;
	return g_switches;
}

// ---------------------------------------------------------------- allocator
AllocPlan allocPlan;
struct Blk { size_t n; u64 id; };
static std::unordered_map<const void *, Blk> * g_live;
static u64 g_allocIdx, g_allocId, g_poison;
static size_t g_bytes;
static std::unordered_map<const void *, Blk> & live() { if (!g_live) g_live = new std::unordered_map<const void *, Blk>; return *g_live; }
void allocReset(u64 poison) {
	for (auto & b : live()) free((void *)b.first);
	live().clear(); g_allocIdx = 0; g_allocId = 0; g_bytes = 0; g_poison = poison; allocPlan = AllocPlan();
}
u64 allocCount() { return g_allocIdx; }
void allocMark() { g_allocIdx = 0; }
size_t allocLive() { return live().size(); }
size_t allocLiveBytes() { return g_bytes; }
bool allocOwns(const void * p) { return live().count(p) != 0; }
std::string allocDescribe() {
	std::map<u64, size_t> m; for (auto & b : live()) m[b.second.id] = b.second.n;
	std::string s; int k = 0;
	for (auto & b : m) { if (k++ == 6) { s += "..."; break; } s += "#" + std::to_string(b.first) + "(" + std::to_string(b.second) + " bytes) "; }
	return s;
}
static void * doAlloc(size_t n, bool zero) {
	g_allocIdx++;
	bool fail = allocPlan.failAt.count(g_allocIdx) || (allocPlan.failFrom && g_allocIdx >= allocPlan.failFrom);
	if (fail) { fault("alloc_fail"); errno = ENOMEM; return nullptr; }
	if (n > (size_t)256 << 20) { fault("alloc_too_big"); errno = ENOMEM; return nullptr; }
	void * p = malloc(n ? n : 1);
	if (!p) { errno = ENOMEM; return nullptr; }
	if (zero) memset(p, 0, n);
	else {
		unsigned char * c = (unsigned char *)p;
		u64 x = g_poison * 0x9E3779B97F4A7C15ull + 77;
		for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) x = x * 6364136223846793005ull + 1442695040888963407ull; c[i] = g_poison ? (unsigned char)(x >> (8 * (i & 7))) : 0xA5; }
	}
	live()[p] = Blk{n, ++g_allocId}; g_bytes += n;
	return p;
}
extern "C" {
void * sim_malloc(size_t n) { return doAlloc(n, false); }
void * sim_calloc(size_t a, size_t b) {
	if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
	return doAlloc(a * b, true);
}
void sim_free(void * p) {
	if (!p) return;
	auto it = live().find(p);
	if (it == live().end()) {
		pend("free-foreign", "the library freed memory it does not own (freed twice, or belonging to the caller)");
		return;
	}
	g_bytes -= it->second.n;
	live().erase(it); free(p);
}
void * sim_realloc(void * p, size_t n) {
	if (!p) return doAlloc(n, false);
	auto it = live().find(p);
	if (it == live().end()) { pend("free-foreign", "the library reallocated memory it does not own"); return doAlloc(n, false); }
	size_t old = it->second.n;
	if (n == 0) { sim_free(p); g_allocIdx++; return nullptr; }    // glibc semantics
	void * q = doAlloc(n, false);
	if (!q) return nullptr;
	memcpy(q, p, old < n ? old : n);
	sim_free(p);
	return q;
}
void * sim_reallocarray(void * p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
char * sim_strdup(const char * s) { size_t n = strlen(s) + 1; char * p = (char *)doAlloc(n, false); if (p) memcpy(p, s, n); return p; }
int sim_posix_memalign(void ** o, size_t, size_t n) { void * p = doAlloc(n, false); if (!p) return ENOMEM; *o = p; return 0; }
void * sim_aligned_alloc(size_t, size_t n) { return doAlloc(n, false); }
int sim_rand(void) { g_rand = g_rand * 6364136223846793005ull + 1442695040888963407ull; return (int)(g_rand >> 33); }
void sim_srand(unsigned s) { g_rand = s; }
}

// ---------------------------------------------------------------- simulated disk
static std::unordered_map<FILE *, SimFile *> g_files;
static ssize_t ckRead(void * c, char * buf, size_t n) {
	SimFile * f = (SimFile *)c; f->nrd++;
	if (f->mode == 1) { errno = EBADF; return -1; }
	auto it = f->plan.rd.find(f->nrd);
	int act = it == f->plan.rd.end() ? 0 : it->second;
	if (act == IO_EIO) { f->hardErrors++; fault("read_eio"); errno = EIO; return -1; }
	i64 av = (i64)f->data.size() - f->pos; if (av < 0) av = 0;
	size_t m = n; if ((i64)m > av) m = (size_t)av;
	if (act == IO_SHORT && m > 1) { m = 1 + m / 3; fault("read_short"); }
	if (f->plan.chunk && m > (size_t)f->plan.chunk) { m = (size_t)f->plan.chunk; fault("read_chunked"); }
	memcpy(buf, f->data.data() + f->pos, m); f->pos += (i64)m;
	return (ssize_t)m;
}
static ssize_t ckWrite(void * c, const char * buf, size_t n) {
	SimFile * f = (SimFile *)c; f->nwr++;
	if (f->crashed) return (ssize_t)n;           // after a simulated crash nothing reaches the disk
	if (f->mode == 0) { errno = EBADF; return 0; }
	auto it = f->plan.wr.find(f->nwr);
	int act = it == f->plan.wr.end() ? 0 : it->second;
	if (act == IO_CRASH) { f->crashed = true; fault("crash"); size_t keep = n / 2; if (keep) { if (f->data.size() < f->pos + keep) f->data.resize(f->pos + keep); memcpy(f->data.data() + f->pos, buf, keep); } return (ssize_t)n; }
	if (act == IO_EIO) { f->hardErrors++; fault("write_eio"); errno = EIO; return 0; }
	size_t m = n;
	if (f->plan.diskFull >= 0 || act == IO_ENOSPC) {
		i64 grow = f->pos + (i64)n - (i64)f->data.size(); if (grow < 0) grow = 0;
		i64 room = act == IO_ENOSPC ? 0 : f->plan.diskFull;
		if (grow > room) {
			i64 mm = (i64)n - (grow - room);
			if (mm <= 0) { f->hardErrors++; fault("disk_full"); errno = ENOSPC; return 0; }
			m = (size_t)mm; fault("write_short");
		}
	}
	if (act == IO_SHORT && m > 1) { m = 1 + m / 3; fault("write_short"); }
	if (f->plan.chunk && m > (size_t)f->plan.chunk) { m = (size_t)f->plan.chunk; fault("write_chunked"); }
	i64 before = (i64)f->data.size();
	if ((i64)f->data.size() < f->pos + (i64)m) f->data.resize((size_t)(f->pos + (i64)m));
	memcpy(f->data.data() + f->pos, buf, m); f->pos += (i64)m;
	if (f->plan.diskFull >= 0) f->plan.diskFull -= (i64)f->data.size() - before;
	return (ssize_t)m;
}
static int ckSeek(void * c, off64_t * off, int wh) {
	SimFile * f = (SimFile *)c; f->nsk++;
	auto it = f->plan.sk.find(f->nsk);
	int act = it == f->plan.sk.end() ? 0 : it->second;
	if (!f->plan.seekable) { fault("seek_espipe"); f->hardErrors++; errno = ESPIPE; return -1; }
	if (act == IO_EIO) { f->hardErrors++; fault("seek_eio"); errno = EIO; return -1; }
	i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : (i64)f->data.size();
	i64 p = b + *off; if (p < 0) { errno = EINVAL; return -1; }
	f->pos = p; *off = p; return 0;
}
static int ckClose(void *) { return 0; }
FILE * simOpen(SimFile & f) {
	cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
	const char * m = f.mode == 0 ? "r" : f.mode == 1 ? "w" : "r+";
	f.fp = fopencookie(&f, m, io);
	if (f.plan.bufMode == 1) setvbuf(f.fp, nullptr, _IONBF, 0);
	if (f.plan.bufMode == 2) { f.vbuf.resize(64); setvbuf(f.fp, f.vbuf.data(), _IOFBF, 64); }
	g_files[f.fp] = &f;
	return f.fp;
}
void simClose(SimFile & f) { if (f.fp) { g_files.erase(f.fp); fclose(f.fp); f.fp = nullptr; } }
void simCloseAll() { auto m = g_files; g_files.clear(); for (auto & x : m) { x.second->crashed = true; fclose(x.first); x.second->fp = nullptr; } }
static const int FD_BASE = 1 << 20;
extern "C" {
int sim_fileno(FILE * fp) {
	auto it = g_files.find(fp);
	if (it == g_files.end()) return fileno(fp);
	return FD_BASE + it->second->mode;
}
int sim_fcntl(int fd, int cmd, ...) {
	if (fd >= FD_BASE && fd <= FD_BASE + 2 && cmd == F_GETFL) { int m = fd - FD_BASE; return m == 0 ? O_RDONLY : m == 1 ? O_WRONLY : O_RDWR; }
	errno = EBADF; return -1;
}
int sim_fsync(int fd) { if (fd >= FD_BASE) return 0; errno = EBADF; return -1; }
int sim_ftruncate(int, long) { errno = EINVAL; return -1; }
}

// ---------------------------------------------------------------- registry
std::vector<Prop> & props() { static std::vector<Prop> v; return v; }
void registerProp(const Prop & p) { props().push_back(p); }
