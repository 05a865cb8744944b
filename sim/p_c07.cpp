// C07: shared objects survive every order of attach, replace and dispose.
#include "world.h"
#include "common.h"

static const char * const kObj[] = {"ctx", "track", "instr", "data", "clock", "div"};
static const int kN[] = {NCTX, NTRACK, NINSTR, NDATA, NCLOCK, NDIV};

// pools and favoured operations vary from run to run
static int L[6]; static i64 focus[4];
static void create(Scenario & sc, Rng & r, int kind, int slot, int nch) {
	switch (kind) {
		case 0: sc.add("ctx", {slot, nch, r.pick({(i64)16000, (i64)44100, (i64)96000}), r.range(0, 1)}); break;
		case 1: if (r.chance(15)) sc.add("unit", {slot, r.range(0, 5)}); else sc.add("track", {slot, r.range(1, 5), r.range(0, 1)}); if (r.chance(30)) sc.add("attr", {slot, A_VOLUME, r.range(1000, 9000)}); sc.add("attr", {slot, A_MASTER, r.range(1000, 9000)}); if (r.chance(80)) sc.add("attach", {slot, r.range(0, L[0] - 1)}); if (r.chance(80)) sc.add("attr", {slot, A_NOTE, r.range(12, 84) << 20}); break;
		case 2: sc.add("instr", {slot, r.range(0, 1)}); break;
		case 3: sc.add("data", {slot, r.size(2, 300), r.chance(80) ? 1 : nch, r.range(1, 1 << 20), r.range(0, 1), r.range(0, 1)}); break;
		case 4: sc.add("clock", {slot, r.range((i64)10 << 20, (i64)900 << 20), r.range(0, 1), r.chance(10)}); if (r.chance(80)) sc.add("clockattach", {slot, r.range(0, L[0] - 1), r.range(-2, L[4] - 1)}); break;
		case 5: sc.add("div", {slot, r.range(1, 6), r.range(0, 1), r.chance(10)}); if (r.chance(80)) sc.add("divattach", {slot, r.range(-2, L[4] - 1), r.range(0, L[0] - 1)}); break;
	}
}
static bool linkOp(Gen & g, Rng & r, Op & o, bool cb) {
	i64 t = r.range(0, L[1] - 1), k = r.range(0, L[4] - 1), v = r.range(0, L[5] - 1), c = r.range(0, L[0] - 1);
	i64 kind = r.range(0, cb ? 17 : 24); if (r.chance(40)) { i64 f = focus[r.range(0, 3)]; if (!cb || f <= 17) kind = f; }
	switch (kind) {
		case 0: o = Op("attach", {t, c}); return true;
		case 1: o = Op("detach", {t}); return true;
		case 2: o = Op("setinstr", {t, r.range(-1, L[2] - 1)}); return true;
		case 3: o = Op("samp", {t, r.range(-1, L[3] - 1)}); return true;
		case 4: o = Op("wave", {t, r.range(-1, L[3] - 1)}); return true;
		case 5: o = Op("attr", {t, A_WAVE, r.range(1, 5)}); return true;
		case 6: o = Op("trackdel", {t}); return true;
		case 7: o = Op(r.chance(30) ? "instrdetach" : "instrdel", {r.range(0, L[2] - 1)}); return true;
		case 8: o = Op(r.chance(30) ? "datadetach" : "datadel", {r.range(0, L[3] - 1)}); return true;
		case 9: o = Op("clockattach", {k, c, r.range(-2, L[4] - 1)}); return true;
		case 10: o = Op("clockdetach", {k}); return true;
		case 11: o = r.chance(80) ? Op("divattach", {v, r.range(-3, L[4] - 1), c}) : r.chance(50) ? Op("clockdrive", {k, r.size(1, 20), 0}) : Op("grouptick", {r.size(1, 20)}); return true;
		case 12: o = Op("divdetach", {v}); return true;
		case 13: o = Op("attr", {t, A_NOTE, r.chance(70) ? r.range(12, 84) << 20 : -r.range(1, 2)}); return true;
		case 14: o = Op("dataframes", {r.range(0, L[3] - 1), r.size(0, 300), r.chance(80) ? 1 : r.range(0, 3), r.range(1, 1 << 20), r.range(0, 1)}); return true;
		case 15: { std::vector<i64> a = {r.range(0, L[2] - 1), r.range(0, 3), 0, 0}; int n = (int)r.range(0, 4); for (int i = 0; i < n; i++) a.push_back(a[1] == 2 ? r.range(-3, 3) << 20 : a[1] == 3 ? r.range(1, 15) : r.range(0, 32767)); a[2] = r.range(0, n); a[3] = r.range(0, n - a[2]); o = Op("seq", a); return true; }
		case 16: { std::vector<i64> a = {r.range(0, L[2] - 1), r.range(0, 3), 0, 0}; int n = (int)r.range(0, 4); for (int i = 0; i < n; i++) { a.push_back(r.range(0, 9)); a.push_back(a[1] == 2 ? r.range(-3, 3) << 20 : a[1] == 3 ? r.range(1, 15) : r.range(0, 32767)); } a[2] = r.range(0, n); a[3] = r.range(0, n - a[2]); o = Op("env", a); return true; }
		case 17: o = Op(r.pick({"clockreset", "divreset", "tclear", "treset"}), {r.range(0, L[4] - 1)}); return true;
		case 18: o = Op("ctxdel", {c}); return true;
		case 19: o = Op("clockdel", {k}); return true;
		case 20: o = Op("divdel", {v}); return true;
		case 21: o = Op("ctxreset", {c}); return true;
		case 22: o = Op("datacopy", {r.range(0, L[3] - 1), r.range(0, L[3] - 1)}); return true;
		case 23: o = Op("instrcopy", {r.range(0, L[2] - 1), r.range(0, L[2] - 1)}); return true;
		case 24: { i64 d = r.range(0, L[3] - 1); int z = (int)r.range(0, 3); o = z == 0 ? Op("dataset", {d, r.size(0, 400), r.range(1, 2), r.range(0, 7), r.range(1, 1 << 20)}) : z == 1 ? Op("datanorm", {d}) : z == 2 ? Op("dataconv", {d, r.range(0, 14)}) : Op("adsr", {r.range(0, L[2] - 1), r.range(0, 9), r.range(0, 9), r.range(0, 32767), r.range(0, 9)}); return true; }
	}
	(void)g; return false;
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	GenCfg c; c.ntrack = NTRACK; c.ninstr = NINSTR; c.ndata = NDATA;
	Gen g(sc, r, c);
	for (int i = 0; i < NTRACK; i++) g.track[i] = true;
	for (int i = 0; i < NINSTR; i++) g.instr[i] = true;
	for (int i = 0; i < NDATA; i++) g.data[i] = true;
	for (int k = 0; k < 6; k++) L[k] = r.chance(40) ? kN[k] : (int)r.range(1, kN[k]);
	for (auto & f : focus) f = r.range(0, 24);
	int nch = r.chance(60) ? 2 : (int)r.range(1, 8);
	int dens[6]; for (int & x : dens) x = (int)r.range(20, 100);
	dens[0] = 100;
	for (int k = 0; k < 6; k++) for (int i = 0; i < L[k]; i++) if (r.chance(k == 0 && i == 0 ? 100 : k == 0 ? 50 : dens[k])) create(sc, r, k, i, nch);
	for (int v = 0; v < NDIV; v++) { int acts = (int)r.range(0, 4); while (acts--) { Op o; if (!linkOp(g, r, o, true)) continue; std::vector<i64> a = {v, r.size(1, 30)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("at:" + o.n, a); } }
	if (r.chance(35)) for (int t = 0; t < L[1]; t++) if (r.chance(50)) {      // the sample callback changes the track or the objects it uses
		std::vector<i64> a = {t}; int n = (int)r.range(1, 5); while (n--) a.push_back(r.chance(80) ? r.range(1, 2) : 0);
		sc.add("scb", a); sc.add("samp", {t, r.range(0, L[3] - 1)}); sc.add("attr", {t, A_NOTE, r.range(36, 96) << 20});
		int acts = (int)r.range(1, 6); while (acts--) {
			Op o; if (r.chance(50)) { linkOp(g, r, o, true); if (o.n == "trackdel") continue; if (r.chance(70) && (o.n == "samp" || o.n == "wave" || o.n == "setinstr" || o.n == "attr")) o.a[0] = t; }
			else if (!g.trackOp(o, t)) continue;
			std::vector<i64> b = {t, r.size(0, 30)}; b.insert(b.end(), o.a.begin(), o.a.end()); sc.add("st:" + o.n, b);
		}
	}
	int ops = (int)r.range(5, thorough ? 120 : 60);
	for (int i = 0; i < ops; i++) {
		int k = (int)r.range(0, 99);
		if (k < 25) sc.add("gen", {r.range(0, NCTX - 1), r.size(1, 900)});
		else if (k < 40) { int kind = (int)r.range(0, 5); create(sc, r, kind, (int)r.range(0, L[kind] - 1), nch); }
		else if (k < 50) { Op o; if (g.trackOp(o, (int)r.range(0, NTRACK - 1))) sc.ops.push_back(o); }
		else if (k < 57) {      // many users of one object, then some of them leave
			i64 x = r.range(0, 3);
			for (int u = 0; u < 2; u++) for (int t = 0; t < L[1]; t++) if (r.chance(u ? 35 : 75)) {
				if (x == 0) sc.add("setinstr", {t, u ? -1 : r.range(0, L[2] > 1 ? 1 : 0)});
				else sc.add(x == 1 ? "wave" : "samp", {t, u ? -1 : x == 3 ? r.range(0, L[3] - 1) : 0});
			}
			if (r.chance(60)) sc.add(x == 0 ? "instrdel" : r.chance(70) ? "datadel" : "dataframes", {0, r.size(2, 100), 1, 7, 1});
		}
		else { Op o; linkOp(g, r, o, false); sc.ops.push_back(o); }
	}
	sc.add("end", {r.range(1, 1 << 30)});
}
static void refs(World & w, const Op & o) {
	i64 q = o.at(0); void * gone = o.n == "instrdetach" && q >= 0 && q < NINSTR ? (void *)w.instr[q] : o.n == "datadetach" && q >= 0 && q < NDATA ? (void *)w.data[q] : nullptr;
	for (int t = 0; t < NTRACK; t++) if (w.track[t]) {
		for (BKEnum a : {(BKEnum)BK_INSTRUMENT, (BKEnum)BK_SAMPLE, (BKEnum)BK_WAVEFORM}) {
			void * p = nullptr; if (BKGetPtr(w.track[t], a, &p, sizeof p) != 0 || !p) continue;
			if (p == gone) violate("dangling", "after %s: track %d still uses the object", o.str().c_str(), t);
			bool ok = false;
			for (auto x : w.instr) if (x && (void *)x == p) ok = a == (BKEnum)BK_INSTRUMENT;
			for (auto x : w.data) if (x && (void *)x == p) ok = a != (BKEnum)BK_INSTRUMENT;
			if (!ok) violate("dangling", "after %s: track %d still refers to an object which does not exist (attribute %x)", o.str().c_str(), t, (unsigned)a);
		}
	}
}
// a track's attributes do not depend on the existence of other tracks
static Scenario project(const Scenario & sc, int keep) {
	static const std::set<std::string> tops = {"track", "unit", "trackdel", "attach", "detach", "treset", "tclear", "attr", "arp", "eff", "setinstr", "samp", "wave", "range", "sustain", "scb"};
	Scenario p; p.prop = sc.prop; p.seed = sc.seed;
	for (auto & o : sc.ops) {
		if (tops.count(o.n) && o.at(0) != keep) continue;
		if (o.n.compare(0, 3, "st:") == 0 && (o.at(0) != keep || (tops.count(o.n.substr(3)) && o.at(2) != keep))) continue;
		if (o.n.compare(0, 3, "at:") == 0 && tops.count(o.n.substr(3)) && o.at(2) != keep) continue;
		p.ops.push_back(o);
	}
	return p;
}
static std::string trackLine(World & w, int t) {
	std::string g = getters(w); char b[24]; snprintf(b, sizeof b, "track %d:", t);
	size_t i = g.find(b); if (i == std::string::npos) return "";
	return g.substr(i, g.find('\n', i) - i);
}
// a silent divider keeps the clock of each context going from the beginning, with or without tracks
struct Keep { BKDivider d[NCTX]; bool has[NCTX] = {};
	void made(World & w, int c) { if (has[c]) BKDispose(&d[c]); BKDividerInit(&d[c], 1000, nullptr); BKContextAttachDivider(w.ctx[c], &d[c], BK_CLOCK_TYPE_BEAT); has[c] = true; }
	void done() { for (int c = 0; c < NCTX; c++) if (has[c]) BKDispose(&d[c]); } };
static void runOne(World & w, const Scenario & sc, std::vector<std::string> * snaps, int bystander, bool main, Keep & keep) {
	for (auto & o : sc.ops) {
		if (o.n == "end") continue;
		budgetSet(40000000);
		int res = w.apply(o);
		if (o.n == "ctx" && res == 0) keep.made(w, (int)o.at(0));
		checkPending();
		if (main) {
			if (res != SKIP && o.n != "gen") { probe("op"); if (o.n.size() > 3 && o.n.compare(o.n.size() - 3, 3, "del") == 0) { R.nontrivial = true; probe(o.n.c_str()); } }
			refs(w, o);
			if (o.n == "gen" && res > 0) R.states.insert(abstractState(w));
		}
		if (o.n == "gen" && bystander >= 0 && snaps) snaps->push_back(trackLine(w, bystander));
	}
}
static void destroyRandom(World & w, u64 seed) {
	Rng r(seed); std::vector<Op> v;
	for (i64 i = 0; i < NTRACK; i++) v.push_back(Op("trackdel", {i}));
	for (i64 i = 0; i < NDIV; i++) v.push_back(Op("divdel", {i}));
	for (i64 i = 0; i < NCLOCK; i++) v.push_back(Op("clockdel", {i}));
	for (i64 i = 0; i < NINSTR; i++) v.push_back(Op("instrdel", {i}));
	for (i64 i = 0; i < NDATA; i++) v.push_back(Op("datadel", {i}));
	for (i64 i = 0; i < NCTX; i++) v.push_back(Op("ctxdel", {i}));
	for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[(size_t)r.range(0, (i64)i - 1)]);
	for (auto & o : v) { budgetSet(20000000); w.apply(o); refs(w, o); }
	if (allocLive()) violate("leak", "%s left after all objects were disposed", allocDescribe().c_str());
}
static void exec(const Scenario & sc) {
	u64 end = 1; for (auto & o : sc.ops) if (o.n == "end") end = (u64)o.at(0, 1);
	int by = (int)(end % NTRACK);
	// callbacks of other tracks which act on more than tracks have an effect on all users
	static const std::set<std::string> own = {"treset", "tclear", "attr", "arp", "eff", "setinstr", "samp", "wave", "range", "sustain", "scb"};
	for (auto & o : sc.ops) if (o.n.compare(0, 3, "st:") == 0 && o.at(0) != by && (!own.count(o.n.substr(3)) || o.at(2) == by)) by = -1;
	std::vector<std::string> sa, sb; 
	{ World w; Keep k; runOne(w, sc, &sa, by, true, k); for (int c = 0; c < NCTX; c++) logHash(w.out[c].data(), w.out[c].size() * 2); destroyRandom(w, end); k.done(); }
	// callbacks may dispose or attach things that change who gets a tick; only tracks are removed here
	if (by >= 0) { World w; Keep k; runOne(w, project(sc, by), &sb, by, false, k);
	  // a context without any attached track may have no clock: ticks differ, so events are compared only if the kept track was attached
	  for (size_t i = 0; i < sa.size() && i < sb.size(); i++) if (sa[i] != sb[i]) violate("bystander", "track %d, render %zu: with the other tracks / without them: %s", by, i, firstDiff(sa[i], sb[i]).c_str());
	  probe("bystander_snapshots", sa.size());
	  destroyRandom(w, end * 7 + 1); k.done(); }
}
static PropReg reg(Prop{"C07", gen, exec,
	"one case = one random history of creating, sharing, attaching, replacing, copying, resetting and disposing contexts, tracks, instruments, data, clocks and dividers interleaved with rendering (also from callbacks), ending with disposal in random order; non-trivial when an object was disposed in mid-history; distinct by event-log hash"});
