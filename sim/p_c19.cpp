// C19: both representations of time give the same results.
#include "world.h"
#include "common.h"
#include "p_c19.h"

static void gen(Scenario & sc, Rng & r, bool thorough) {
	GenCfg c; c.ntrack = (int)r.range(1, 4); c.nctx = r.chance(15) ? 2 : 1; c.ndiv = (int)r.range(0, 4); c.nclock = (int)r.range(0, 4);
	c.ops = (int)r.range(5, thorough ? 80 : 40); c.maxGen = r.pick({100, 600, 2500});
	c.samples = r.chance(50); c.instruments = r.chance(50); c.effects = r.chance(75); c.lifecycle = r.chance(60); c.resets = r.chance(25);
	sc.add("form", {r.range(0, 2)});
	if (r.chance(80)) { std::vector<i64> v; for (int i = 0, n = (int)r.range(1, 5); i < n; i++) v.push_back(r.size(1, (i64)1 << 30)); sc.add("pieces", v); }
	auto frames = [&]() -> i64 { switch (r.range(0, 3)) { case 0: return r.range(-3, 3); case 1: return r.range(-0x3ff00000, 0x3ff00000); case 2: return (1LL << r.range(1, 29)) + r.range(-1, 1); default: return r.range(-5000, 5000); } };
	auto frac = [&]() -> i64 { switch (r.range(0, 2)) { case 0: return r.pick({0, 1, 0xfffff}); default: return r.range(0, 0xfffff); } };
	auto fuint = [&]() -> i64 { switch (r.range(0, 3)) { case 0: return (1LL << r.range(0, 31)) + r.range(-1, 1); case 1: return r.range(0, 0xffffffffLL); case 2: return 0xffffffffLL - r.range(0, 1 << 21); default: return r.range(0, 1 << 22); } };
	for (int i = 0, n = (int)r.range(0, 12); i < n; i++) {
		i64 a = frames(), b = r.chance(30) ? a : frames(), u = fuint();
		if (r.chance(20)) { a = u >> 20; sc.add("tm", {a, r.chance(50) ? u & 0xfffff : frac(), b, frac(), u}); continue; }
		sc.add("tm", {a, r.chance(15) ? fuint() : frac(), b, frac(), u});
	}
	size_t from = sc.ops.size();
	Gen g(sc, r, c); g.setup(); g.body();
	for (int i = 0, n = (int)r.range(0, 2); i < n; i++) {
		i64 a = r.chance(50) ? r.range(0, (i64)0x7e000000 << 20) : r.size(1, (i64)0x7e000000 << 20), b = r.chance(50) ? a : r.range(0, (i64)0x7e000000 << 20);
		sc.ops.insert(sc.ops.begin() + (long)r.range((i64)from, (i64)sc.ops.size()), Op("age", {r.range(0, c.nctx - 1), a, b}));
	}
}
static void exec(const Scenario & sc) {
	TimeRun a, b; timeRun64(sc, a); checkPending(); timeRun32(sc, b); checkPending();
	for (int c = 0; c < 3; c++) for (auto x : a.audio[c]) if (x) R.nontrivial = true;
	if (a.aged) fault("time_jump"); if (!a.times.empty()) probe("time_helpers", a.times.size() / 16);
	static const char * const kName[16] = {"Make", "Make", "GetTime", "GetFrac", "GetFUInt20", "Add", "Sub", "AddFUInt20", "SubFUInt20", "IsEqual", "IsGreater", "IsGreaterEqual", "IsLess", "IsLessEqual", "IsGreaterFUInt20", "IsLessFUInt20"};
	for (size_t i = 0; i < std::min(a.times.size(), b.times.size()); i++) if (a.times[i] != b.times[i]) violate("helpers", "BKTime%s of %lld and %lld is %lld with 64 bit and %lld with 32 bit time", kName[i % 16], (long long)a.times[i - i % 16], (long long)a.times[i - i % 16 + 1], (long long)a.times[i], (long long)b.times[i]);
	size_t k = 0;
	for (auto & o : sc.ops) if (o.n == "tm") {       // and both are right
		i64 x = (i64)(BKInt)o.at(0) * 1048576 + (i64)(u32)o.at(1), y = (i64)(BKInt)o.at(2) * 1048576 + (i64)(u32)o.at(3), u = (u32)o.at(4);
		i64 e[16] = {x, y, x >> 20, x & 0xfffff, (i64)(u32)x, x + y, x - y, x + u, x - u, x == y, x > y, x >= y, x < y, x <= y, x > u, x < u};
		for (int i = 0; i < 16; i++) if (k * 16 + i < a.times.size() && a.times[k * 16 + i] != e[i]) violate("helpers", "BKTime%s of %lld and %lld (%lld) is %lld instead of %lld", kName[i], (long long)x, (long long)y, (long long)u, (long long)a.times[k * 16 + i], (long long)e[i]);
		k++;
	}
	if (a.results != b.results) violate("results", "results of the calls differ");
	for (int c = 0; c < 3; c++) {
		if (a.audio[c].size() != b.audio[c].size()) violate("frames", "context %d: %zu samples with 64 bit and %zu with 32 bit time", c, a.audio[c].size(), b.audio[c].size());
		for (size_t i = 0; i < a.audio[c].size(); i++) if (a.audio[c][i] != b.audio[c][i]) violate("samples", "context %d sample %zu is %d with 64 bit and %d with 32 bit time", c, i, a.audio[c][i], b.audio[c][i]);
		logHash(a.audio[c].data(), a.audio[c].size() * 2);
	}
	for (size_t i = 0; i < std::min(a.events.size(), b.events.size()); i++) if (a.events[i] != b.events[i]) violate("callbacks", "callback %zu differs: %c%lld t=%lld n=%lld with 64 bit, %c%lld t=%lld n=%lld with 32 bit time", i / 4, (char)a.events[i - i % 4], (long long)a.events[i - i % 4 + 1], (long long)a.events[i - i % 4 + 2], (long long)a.events[i - i % 4 + 3], (char)b.events[i - i % 4], (long long)b.events[i - i % 4 + 1], (long long)b.events[i - i % 4 + 2], (long long)b.events[i - i % 4 + 3]);
	if (a.events.size() != b.events.size()) violate("callbacks", "%zu callbacks with 64 bit and %zu with 32 bit time", a.events.size() / 4, b.events.size() / 4);
	if (a.state != b.state) violate("state", "at the end %s", firstDiff(a.state, b.state).c_str());
	logHash(a.state.data(), a.state.size());
}
static PropReg reg(Prop{"C19", gen, exec,
	"one case = one random script with clocks, dividers, tracks and rendering by generate, end and read or push, and calculations with times, run by the library built with 64 bit times and by the library built with two part times; non-trivial when the audio is not all silence; distinct by event-log hash"});
