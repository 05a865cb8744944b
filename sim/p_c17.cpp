// C17: objects which are not connected can be used on different threads at the same time.
#include "world.h"
#include "common.h"
#include <memory>

enum { MAXT = 3 };
static void fileOps(Scenario & sc, Rng & r, Gen & g, int nd) {
	i64 d = r.range(0, nd - 1), s = r.range(0, nd - 1), seed = r.range(1, 1 << 20);
	switch (r.range(0, 8)) {
		case 0: sc.add("dataset", {d, r.size(2, 300), r.range(1, 2), r.range(0, 7), seed}); break;
		case 1: sc.add("load", {d, r.range(0, 2), r.size(2, 900), r.range(1, 2), seed}); break;
		case 2: sc.add("datanorm", {d}); break;
		case 3: sc.add("dataconv", {d, r.range(0, 14)}); break;
		case 4: sc.add("datadel", {d}); sc.add("datacopy", {d, s}); break;
		case 5: sc.add("instrdel", {0}); sc.add("instrcopy", {0, 1}); break;
		case 6: sc.add("setinstr", {r.range(0, 2), r.range(0, 1)}); break;
		default: sc.add("file", {r.size(1, 300), r.range(1, 3), r.pick({8, 16, 16}), seed, r.range(1, 4)}); break;
	}
	(void)g;
}
// th:<op> thread args...   sl thread blocks
static void gen(Scenario & sc, Rng & r, bool thorough) {
	int nt = r.chance(75) ? 2 : MAXT;
	std::vector<std::vector<Op>> all;
	bool files = r.chance(20);                           // mostly loading, converting and writing
	bool same = r.chance(45); u64 seed0 = r.next();     // threads which do the same meet in the same places
	for (int k = 0; k < nt; k++) {
		Scenario s; u64 mine = r.next(); Rng q(same ? seed0 : mine);
		GenCfg c; c.nctx = 1; c.ntrack = (int)q.range(1, 3); c.ndata = 2; c.ninstr = 2; c.nclock = 1; c.ndiv = (int)q.range(0, 2);
		c.maxGen = q.pick({40, 150, 500}); c.resets = q.chance(40); c.samples = files || q.chance(75); if (files) c.maxGen = 60; c.instruments = q.chance(75); c.effects = q.chance(80); c.genWeight = 40;
		c.ops = (int)q.range(3, thorough ? 30 : 16);
		if (q.chance(30)) s.add("push", {0});
		Gen g(s, q, c); g.setup(); size_t from = s.ops.size(); g.body();
		if (files || q.chance(60)) for (int i = 0, n = (int)(files ? q.range(4, 10) : q.range(1, 4)); i < n; i++) { Scenario x; fileOps(x, q, g, c.ndata); s.ops.insert(s.ops.begin() + (long)(from + (size_t)q.range(0, (i64)(s.ops.size() - from))), x.ops.begin(), x.ops.end()); }
		s.add("gen", {0, q.range(20, 300)});
		if (same) { Rng m(mine); for (auto & o : s.ops) if (o.n == "attr" && o.a.size() > 2 && m.chance(30)) { if (o.a[1] == A_NOTE && o.a[2] >= 0) o.a[2] = m.range(12, 84) << 20; else if (o.a[1] == A_DUTY) o.a[2] = m.range(1, 15); else if (o.a[1] == A_VOLUME) o.a[2] = m.range(0, 32767); } else if ((o.n == "data" || o.n == "dataframes" || o.n == "load") && m.chance(50)) o.a[o.n == "load" ? 4 : 3] = m.range(1, 1 << 20); else if (o.n == "file") o.a[3] = m.range(1, 1 << 20); }
		all.push_back(s.ops);
	}
	for (int k = 0; k < nt; k++) for (auto & o : all[(size_t)k]) { std::vector<i64> a = {k}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("th:" + o.n, a); }
	int n = (int)r.range(1, thorough ? 120 : 60); i64 top = r.pick({3, 30, 300, 3000, 20000});
	for (int i = 0; i < n; i++) sc.add("sl", {r.range(0, nt - 1), r.chance(10) ? r.size(1, 20000) : r.size(1, top)});
}
struct Thread { World w; std::vector<i64> results; std::string state; i64 pos[NCTX] = {}; };
static BKInt onWrite(BKFrame * f, BKUInt n, void * info) {
	auto & p = *(std::pair<World *, int> *)info; World & w = *p.first;
	w.out[p.second].insert(w.out[p.second].end(), f, f + (size_t)n * w.nch[p.second]);
	return 0;
}
static int fileOp(World & w, const Op & o) {
	i64 n = o.at(0), nch = o.at(1), bits = o.at(2), pieces = o.at(4); if (n < 1 || n > 10000 || nch < 1 || nch > 8 || pieces < 1) return SKIP;
	SimFile f; FILE * fp = simOpen(f); std::vector<BKFrame> v = makeFrames(n, nch, o.at(3));
	BKWaveFileWriter * x = (BKWaveFileWriter *)malloc(sizeof *x);
	int res = BKWaveFileWriterInit(x, fp, (BKInt)nch, 44100, (BKInt)bits);
	if (res == 0) {
		for (i64 i = 0; i < pieces && res == 0; i++) { i64 a = n * i / pieces * nch, b = n * (i + 1) / pieces * nch; res = BKWaveFileWriterAppendFrames(x, v.data() + a, (BKInt)(b - a)); }
		if (res == 0) res = BKWaveFileWriterTerminate(x);
		BKDispose(x);
	}
	free(x); fflush(fp);
	u64 h = 5; for (unsigned char c : f.data) h = (h ^ c) * 0x9E3779B97F4A7C15ull, h ^= h >> 30;
	w.events.push_back({'f', res, (i64)(h >> 1), (i64)f.data.size()});
	simClose(f);
	return res;
}
static void script(Thread & t, const std::vector<Op> & ops) {
	for (auto & o : ops) if (o.n == "push") t.w.render = [&t](World & w, int c, i64 n) { std::pair<World *, int> info(&w, c); t.pos[c] += n; simFrames((u64)n, w.rate[c]); return (i64)BKContextGenerateToTime(w.ctx[c], (BKTime)t.pos[c] << 20, onWrite, &info); };
	t.w.around = [&t](World & w, const Op & o) { i64 c = o.at(0); if ((o.n == "ctx" || o.n == "ctxreset" || o.n == "ctxdel") && c >= 0 && c < NCTX && (o.n != "ctx" || !w.ctx[c])) t.pos[c] = 0; int r = o.n == "file" ? fileOp(w, o) : w.applyRaw(o); t.results.push_back(r); return r; };
	for (auto & o : ops) { int r = t.w.apply(o); if (o.n == "gen") t.results.push_back(r); }
	t.state = deepState(t.w);
	t.w.destroyAll();
}
static void exec(const Scenario & sc) {
	std::vector<Op> ops[MAXT]; std::vector<Slice> sl; int nt = 0;
	for (auto & o : sc.ops) {
		i64 k = o.at(0); if (k < 0 || k >= MAXT || o.a.empty()) continue;
		if (o.n == "sl") { if (o.at(1) >= 1) sl.push_back({(int)k, (u64)o.at(1)}); }
		else if (o.n.compare(0, 3, "th:") == 0) { ops[k].push_back(Op(o.n.substr(3), std::vector<i64>(o.a.begin() + 1, o.a.end()))); if (k + 1 > nt) nt = (int)k + 1; }
	}
	if (!nt) return;
	budgetSet(400000000ull);
	std::vector<std::unique_ptr<Thread>> alone, both;
	for (int k = 0; k < nt; k++) { alone.emplace_back(new Thread); script(*alone.back(), ops[k]); checkPending(); }
	for (int k = 0; k < nt; k++) both.emplace_back(new Thread);
	std::vector<std::function<void()>> bodies;
	for (int k = 0; k < nt; k++) { Thread * t = both[(size_t)k].get(); const std::vector<Op> * o = &ops[k]; bodies.push_back([t, o] { script(*t, *o); }); }
	size_t at = 0;
	u64 n = simThreads(bodies, [&](const std::vector<bool> & alive) {
		int first = 0; while (!alive[(size_t)first]) first++;
		int living = 0; for (bool x : alive) living += x;
		bool any = false; for (auto & s : sl) if (s.thread < (int)alive.size() && alive[(size_t)s.thread]) any = true;
		if (!any || living < 2) return Slice{first, 0};
		for (;;) { Slice s = sl[at++ % sl.size()]; if (s.thread < (int)alive.size() && alive[(size_t)s.thread]) { s.steps <<= std::min<size_t>(at / 2500, 24); return s; } }
	});
	checkPending();
	probe("preemptions", n); if (n) R.nontrivial = true;
	for (int k = 0; k < nt; k++) {
		Thread & a = *alone[(size_t)k], & b = *both[(size_t)k];
		std::string c = "thread " + std::to_string(k) + " differs when others run at the same time";
		for (size_t i = 0; i < std::min(a.results.size(), b.results.size()); i++) if (a.results[i] != b.results[i]) violate("threads", "%s: result %zu is %lld, alone %lld", c.c_str(), i, (long long)b.results[i], (long long)a.results[i]);
		if (a.results.size() != b.results.size()) violate("threads", "%s: %zu calls, alone %zu", c.c_str(), b.results.size(), a.results.size());
		for (int x = 0; x < NCTX; x++) cmpAudio("threads", x, b.w, a.w);
		cmpEvents("threads", b.w, a.w);
		if (a.state != b.state) violate("threads", "%s: at the end %s", c.c_str(), firstDiff(b.state, a.state).c_str());
		for (int x = 0; x < NCTX; x++) logHash(b.w.out[x].data(), b.w.out[x].size() * 2);
		logHash(b.state.data(), b.state.size());
	}
	if (allocLive()) violate("leak", "%s left after all objects were disposed", allocDescribe().c_str());
}
static PropReg reg(Prop{"C17", gen, exec,
	"one case = two or three random scripts, each on its own simulated thread with its own objects, preempted at basic blocks of the library by a random schedule and compared with the same scripts run alone; non-trivial when a thread was preempted inside the library; distinct by event-log hash"});
