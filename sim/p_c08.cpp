// C08: a failing allocation is reported and changes nothing else.
#include "world.h"
#include "common.h"

static void extra(Gen & g, Scenario & sc, Rng & r, const GenCfg & c) {
	int i = (int)r.range(0, NINSTR - 1), j = (int)r.range(0, NINSTR - 1), d = (int)r.range(0, NDATA - 1), e = (int)r.range(0, NDATA - 1);
	switch (r.range(0, 11)) {
		case 0: if (!g.instr[i] && g.instr[j]) { sc.add("instrcopy", {i, j}); g.instr[i] = true; } break;
		case 1: if (!g.data[d] && g.data[e]) { sc.add("datacopy", {d, e}); g.data[d] = true; } break;
		case 2: if (g.data[d]) sc.add("dataset", {d, r.size(4, 600), r.range(1, 2), r.range(0, 7), r.range(1, 1 << 20)}); break;
		case 3: if (g.data[d]) sc.add("datanorm", {d}); break;
		case 4: if (g.data[d]) sc.add("dataconv", {d, r.range(0, 14)}); break;
		case 5: if (g.data[d]) sc.add("load", {d, r.range(0, 2), r.size(2, 700), r.chance(75) ? 1 : g.nchOf[0], r.range(1, 1 << 20)}); break;
		case 6: if (g.data[d]) sc.add("dataframes", {d, r.size(2, 600), r.chance(80) ? 1 : r.range(1, 3), r.range(1, 1 << 20), r.range(0, 1)}); break;
		case 7: case 8: if (g.instr[i]) g.instrOp(i); break;
		case 9: if (g.instr[i] && r.chance(30)) { sc.add("instrdetach", {i}); break; } if (g.instr[i]) { sc.add("instrdel", {i}); g.instr[i] = false; } break;
		case 10: if (g.data[d] && r.chance(30)) { sc.add("datadetach", {d}); break; } if (g.data[d]) { sc.add("datadel", {d}); g.data[d] = false; } break;
		case 11: { int k = (int)r.range(0, 3); if (k == 0) sc.add("clock", {r.range(0, NCLOCK - 1), r.range((i64)10 << 20, (i64)900 << 20), 1}); else if (k == 1) sc.add("div", {r.range(0, NDIV - 1), r.range(1, 8), 1}); else if (k == 2) sc.add("ctx", {r.range(0, NCTX - 1), r.range(1, 8), 44100, r.range(0, 1)}); else sc.add("track", {r.range(0, NTRACK - 1), r.range(1, 5), r.range(0, 1)}); break; }
	}
	(void)c;
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	GenCfg c; c.ntrack = (int)r.range(1, 4); c.nctx = r.chance(15) ? 2 : 1; c.ndiv = (int)r.range(0, 3); c.nclock = (int)r.range(0, 2); c.ninstr = NINSTR; c.ndata = NDATA;
	c.maxGen = 1500; c.clocks = r.chance(50); c.genWeight = 25;
	int total = (int)r.range(4, thorough ? 60 : 34);
	int nf = r.chance(70) ? 1 : (int)r.range(2, 4);
	for (int i = 0; i < nf; i++) sc.add("fault", {r.range(0, 1 << 20), r.range(0, 1 << 20), r.range(0, 1), r.chance(35)});
	Gen g(sc, r, c); g.setup();
	if (r.chance(50)) for (int v = 0; v < c.ndiv; v++) if (g.divi[v]) { int k = (int)r.range(1, 4); while (k--) {     // allocations inside of callbacks
		Scenario tmp; Gen h(tmp, r, c); memcpy(h.instr, g.instr, sizeof g.instr); memcpy(h.data, g.data, sizeof g.data); h.nchOf[0] = g.nchOf[0];
		extra(h, tmp, r, c); for (auto & o : tmp.ops) if (o.n != "ctx") { std::vector<i64> a = {v, r.size(1, 12)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("at:" + o.n, a); } } }
	while (total > 0) { g.c.ops = (int)r.range(1, 5); total -= g.c.ops + 1; g.body(); int k = (int)r.range(0, 3); while (k--) extra(g, sc, r, c); }
	sc.add("gen", {0, r.range(200, 1500)});
}
struct Fault { i64 sel, idx, from, retry; u64 seq = 0, at = 0; bool fired = false; };
static void step(World & w, const Scenario & sc) {
	w.dropFailed = true; w.logAtFire = true;
	for (auto & o : sc.ops) { if (o.n == "fault") continue; budgetSet(60000000); w.apply(o); checkPending(); }
}
static void exec(const Scenario & sc) {
	std::vector<Fault> fs;
	for (auto & o : sc.ops) if (o.n == "fault") { Fault f; f.sel = o.at(0); f.idx = o.at(1); f.from = o.at(2); f.retry = o.at(3); fs.push_back(f); }
	// run without faults: which calls allocate
	std::vector<std::pair<u64, u64>> sites; World a; u64 seq = 0;
	a.around = [&](World & w, const Op & o) { u64 s = ++seq; allocMark(); int r = w.applyRaw(o); if (allocCount() && r != SKIP) sites.push_back({s, allocCount()}); return r; };
	step(a, sc);
	for (int c = 0; c < NCTX; c++) logHash(a.out[c].data(), a.out[c].size() * 2);
	std::string ga = deepState(a);
	a.around = nullptr; a.destroyAll();
	if (allocLive()) violate("leak", "without faults: %s left after all objects were disposed", allocDescribe().c_str());
	if (sites.empty() || fs.empty()) return;
	for (auto & f : fs) { auto & s = sites[(size_t)f.sel % sites.size()]; f.seq = s.first; f.at = 1 + (u64)f.idx % s.second; }
	// run with faults
	World b; u64 sb = 0; bool allRetry = true;
	b.around = [&](World & w, const Op & o) {
		u64 s = ++sb; Fault * hit = nullptr;
		for (auto & f : fs) if (f.seq == s && !f.fired) { hit = &f; break; }
		if (!hit) return w.applyRaw(o);
		size_t live = allocLive(), bytes = allocLiveBytes(); std::string before = deepState(w);
		allocMark(); allocPlan = AllocPlan();
		if (hit->from) allocPlan.failFrom = hit->at; else allocPlan.failAt.insert(hit->at);
		u64 f0 = R.st.faults["alloc_fail"];
		int r = w.applyRaw(o);
		allocPlan = AllocPlan();
		if (R.st.faults["alloc_fail"] == f0) return r;       // an earlier fault changed what this call does
		hit->fired = true; R.nontrivial = true; if (w.inCallback) probe("fault_in_callback");
		probe(("fault:" + o.n).c_str());
		if (r >= 0 || r == SKIP) { pend("unreported", "allocation %llu of \"%s\" failed but the call returned %d", (unsigned long long)hit->at, o.str().c_str(), r); return r; }
		if (allocLive() != live || allocLiveBytes() != bytes) pend("leak", "\"%s\" failed at allocation %llu: %zu blocks (%zu bytes) before, %zu (%zu) after: %s", o.str().c_str(), (unsigned long long)hit->at, live, bytes, allocLive(), allocLiveBytes(), allocDescribe().c_str());
		std::string after = deepState(w);
		if (after != before) pend("changed", "\"%s\" failed at allocation %llu but changed: %s", o.str().c_str(), (unsigned long long)hit->at, firstDiff(before, after).c_str());
		R.states.insert((std::hash<std::string>()(o.n) * 31 + hit->at) * 7 + abstractState(w));
		if (!hit->retry) return r;
		probe("retried");
		int r2 = w.applyRaw(o);
		if (r2 != 0) pend("retry", "\"%s\" returned %d when it was repeated with memory available", o.str().c_str(), r2);
		return r2;
	};
	step(b, sc);
	for (auto & f : fs) if (f.fired && !f.retry) allRetry = false;
	std::string gb = deepState(b); b.around = nullptr; b.destroyAll();
	if (allocLive()) violate("leak", "%s left after all objects were disposed", allocDescribe().c_str());
	// twin in which the failed calls are not made at all
	std::string gt; World t;
	if (!allRetry) {
		u64 st = 0;
		t.around = [&](World & w, const Op & o) { u64 s = ++st; for (auto & f : fs) if (f.seq == s && f.fired && !f.retry) return -1; return w.applyRaw(o); };
		step(t, sc); gt = deepState(t); t.around = nullptr; t.destroyAll();
	}
	World & x = allRetry ? a : t;
	for (int c = 0; c < NCTX; c++) cmpAudio(allRetry ? "retry-audio" : "audio", c, x, b);
	cmpEvents("events", x, b);
	if ((allRetry ? ga : gt) != gb) violate("state", "final attributes differ: without the call / with the failed call: %s", firstDiff(allRetry ? ga : gt, gb).c_str());
}
static PropReg reg(Prop{"C08", gen, exec,
	"one case = one random script in which 1-4 allocations (single ones, or all from some point of the call on) of calls made by the caller or by callbacks fail; compared with a twin that does not make the failed calls (or, when the call is repeated, with the undisturbed run); non-trivial when an allocation failed; distinct by event-log hash"});
