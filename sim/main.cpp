// simrun: batch | gen | exec
#include "sim.h"
#include <csignal>
#include <time.h>
#include <cstdarg>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sanitizer/asan_interface.h>
extern std::vector<Prop> & props();
extern void simCloseAll();
extern void pendClear();
extern unsigned char g_edge[1 << 16];
extern "C" void sim_srand(unsigned);

static const u64 BUDGET = 600000000ull;
static bool inExec = false;
static void say(const char * fmt, ...) {
	char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	ssize_t w = write(1, b, n); (void)w;
}
extern "C" void simDeath(const char * what) {
	say("D %s %016llx\n", what, (unsigned long long)R.hash);
	_exit(70);
}
static void onDeath() { if (inExec) say("D asan %016llx\n", (unsigned long long)R.hash); }
static void onAlarm(int) { say("D wallclock %016llx\n", (unsigned long long)R.hash); _exit(71); }
extern "C" const char * __asan_default_options() {
	return "exitcode=66:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:handle_abort=1:handle_sigfpe=1:handle_sigill=1:detect_stack_use_after_return=0:quarantine_size_mb=64";
}
static std::string oneline(std::string s) { for (auto & c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

// returns false and fills v on violation
static bool execOne(const Prop & p, const Scenario & sc, Violation & v) {
	R.hash = 0xcbf29ce484222325ull; R.nontrivial = false; R.states.clear();
	allocReset(0); pendClear(); sim_srand(1);
	budgetSet(BUDGET);
	alarm(60);
	bool ok = true;
	inExec = true;
	try { p.exec(sc); checkPending(); }
	catch (Violation & x) { v = x; ok = false; }
	inExec = false;
	alarm(0);
	budgetSet(~0ull);
	simCloseAll();
	pendClear();
	allocReset(0);
	if (!ok) { logHash(v.cls.data(), v.cls.size()); logHash(v.msg.data(), v.msg.size()); }
	return ok;
}
int main(int argc, char ** argv) {
	// fixed addresses, so that even code reading stray memory repeats
	int per = personality(0xffffffff);
	if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIMRUN_RE") && personality(per | ADDR_NO_RANDOMIZE) != -1) {
		setenv("SIMRUN_RE", "1", 1); execv("/proc/self/exe", argv);
	}
	signal(SIGALRM, onAlarm);
	__asan_set_death_callback(onDeath);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	if (argc < 2) return 2;
	std::string cmd = argv[1];
	auto find = [&](const std::string & id) -> const Prop * { for (auto & p : props()) if (id == p.id) return &p; return nullptr; };
	if (cmd == "list") { for (auto & p : props()) printf("%s\t%s\n", p.id, p.rule); return 0; }
	if (cmd == "gen" && argc >= 5) {
		const Prop * p = find(argv[2]); if (!p) return 2;
		Scenario sc; sc.prop = argv[2]; sc.seed = strtoull(argv[3], 0, 10);
		Rng r(sc.seed ^ 0xB11BC17ull); p->gen(sc, r, atoi(argv[4]));
		fputs(sc.str().c_str(), stdout); return 0;
	}
	if (cmd == "exec" && argc >= 3) {
		FILE * f = fopen(argv[2], "r"); if (!f) return 2;
		std::string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
		Scenario sc; if (!Scenario::parse(t, sc)) return 2;
		const Prop * p = find(sc.prop); if (!p) return 2;
		R.trace = argc > 3 && !strcmp(argv[3], "--trace");
		Violation v; bool ok = execOne(*p, sc, v);
		if (ok) { say("OK %016llx\n", (unsigned long long)R.hash); return 0; }
		say("V %s %016llx %s\n", v.cls.c_str(), (unsigned long long)R.hash, oneline(v.msg).c_str());
		return 10;
	}
	if (cmd == "batch" && argc >= 6) {
		// batch PROP thorough first count stride [maxseconds]
		const Prop * p = find(argv[2]); if (!p) return 2;
		int thorough = atoi(argv[3]); u64 first = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
		u64 stride = argc > 6 ? strtoull(argv[6], 0, 10) : 1;
		double maxs = argc > 7 ? atof(argv[7]) : 0;
		struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
		std::set<u64> states, ops; u64 nontriv = 0, done = 0;
		for (u64 i = 0; i < count; i++) {
			u64 seed = first + i * stride;
			if (maxs > 0) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > maxs) break; }
			Scenario sc; sc.prop = p->id; sc.seed = seed;
			Rng r(seed ^ 0xB11BC17ull); p->gen(sc, r, thorough);
			say("S %llu\n", (unsigned long long)seed);
			Violation v; bool ok = execOne(*p, sc, v);
			done++;
			if (ok) say("R %llu %016llx %d\n", (unsigned long long)seed, (unsigned long long)R.hash, R.nontrivial ? 1 : 0);
			else say("V %llu %016llx %s %s\n", (unsigned long long)seed, (unsigned long long)R.hash, v.cls.c_str(), oneline(v.msg).c_str());
			if (R.nontrivial) nontriv++;
			states.insert(R.states.begin(), R.states.end());
		}
		for (auto & x : R.st.probes) say("P %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
		for (auto & x : R.st.faults) say("F %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
		u64 edges = 0; for (auto e : g_edge) edges += e;
		std::string eb; for (int i = 0; i < (1 << 16); i++) if (g_edge[i]) { eb += std::to_string(i); eb += ','; if (eb.size() > 3500) { say("E %s\n", eb.c_str()); eb.clear(); } }
		if (!eb.empty()) say("E %s\n", eb.c_str());
		std::string sb; for (u64 s : states) { char q[24]; snprintf(q, sizeof q, "%llx,", (unsigned long long)s); sb += q; if (sb.size() > 3500) { say("T %s\n", sb.c_str()); sb.clear(); } }
		if (!sb.empty()) say("T %s\n", sb.c_str());
		say("Z %llu %llu %llu %llu %.3f\n", (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)R.st.frames, (unsigned long long)R.st.steps, R.st.simSeconds);
		return 0;
	}
	return 2;
}
