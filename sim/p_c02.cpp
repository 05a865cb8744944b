// C02: clocks and dividers fire at exactly their due times and in order.
#include "model.h"

static i64 period(Rng & r, i64 base) {
	switch (r.range(0, 7)) {
		case 0: case 1: return base;
		case 2: return base * r.range(1, 6);
		case 3: return base + r.pick({-1, 1, 1 << 20, -(1 << 20)}) < 1000 ? base : base + r.pick({-1, 1, 1 << 20, -(1 << 20)});
		case 4: return r.range(1 << 19, (i64)40 << 20);                 // about one frame and more
		case 5: return r.range((i64)100 << 20, (i64)3000 << 20);
		case 6: return r.chance(30) ? r.range((i64)2000 << 20, (i64)90000 << 20) : (i64)r.range(1, 1500) << 20;   // whole frames
		default: return base / r.range(1, 3) + 1;
	}
}
static bool step(Op & o, Rng & r, int nc, int nk, int nv, int nt, i64 base, bool inside) {
	int k = (int)r.range(0, nk - 1), v = (int)r.range(0, nv - 1), c = (int)r.range(0, nc - 1), t = (int)r.range(0, nt - 1);
	switch (r.range(0, 15)) {
		case 0: case 1: o = Op("clockattach", {k, c, r.range(-3, nk - 1)}); return true;
		case 2: case 3: o = Op("clockdetach", {k}); return true;
		case 4: o = Op("clockreset", {k}); return true;
		case 5: o = Op("clockperiod", {k, period(r, base)}); return true;
		case 6: case 7: case 8: o = Op("divattach", {v, r.range(-3, nk - 1), c}); return true;
		case 9: case 10: o = Op("divdetach", {v}); return true;
		case 11: o = Op("divreset", {v}); return true;
		case 12: o = Op("ctxperiod", {c, r.chance(5) ? r.range(-5, 0) : period(r, base)}); return true;
		case 13: o = Op("attach", {t, c}); return true;
		case 14: o = Op("detach", {t}); return true;
		case 15:
			if (inside) { o = r.chance(50) ? Op("divreset", {v}) : Op("clockreset", {k}); return true; }
			switch (r.range(0, 7)) {
				case 6: o = Op("clockdrive", {k, r.size(1, 40), r.chance(80) ? 0 : r.range(0, base)}); return true;
				case 7: o = Op("grouptick", {r.size(1, 40)}); return true;
				case 0: o = Op("clockdel", {k}); return true;
				case 1: o = Op("clock", {k, r.chance(8) ? r.pick({(i64)0, (i64)-1, -(base), (i64)INT64_MIN}) : period(r, base), r.range(0, 1), r.chance(12)}); return true;
				case 2: o = Op("divdel", {v}); return true;
				case 3: case 4: o = Op("div", {v, r.range(0, 9), r.range(0, 1), r.chance(12)}); return true;
				default: o = Op("ctxreset", {c}); return true;
			}
	}
	return false;
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	int nc = r.chance(25) ? (int)r.range(2, NCTX) : 1, nk = (int)r.range(1, NCLOCK), nv = (int)r.range(1, NDIV), nt = (int)r.range(1, 2);
	i64 base = r.pick({(i64)r.range(5, 400) << 20, r.range(3 << 20, (i64)500 << 20)});
	bool quiet = r.chance(15);   // no acts in callbacks
	for (int c = 0; c < nc; c++) { sc.add("ctx", {c, 1, r.pick({16000, 44100, 48000, 96000}), r.range(0, 1)}); if (r.chance(60)) sc.add("ctxperiod", {c, period(r, base)}); }
	for (int k = 0; k < nk; k++) { sc.add("clock", {k, r.chance(2) ? -r.range(0, base) : period(r, base), r.range(0, 1), r.chance(6)}); if (r.chance(80)) sc.add("clockattach", {k, r.range(0, nc - 1), r.range(-3, k - 1)}); }
	for (int v = 0; v < nv; v++) { sc.add("div", {v, r.chance(40) ? r.range(1, 2) : r.range(0, 12), r.range(0, 1), r.chance(6)}); if (r.chance(85)) sc.add("divattach", {v, r.range(-2, nk - 1), r.range(0, nc - 1)}); }
	for (int t = 0; t < nt; t++) { sc.add("track", {t, r.range(1, 5), 0}); if (r.chance(30)) sc.add("attach", {t, r.range(0, nc - 1)}); }
	int n = (int)r.range(0, 4);
	while (n--) sc.add("vnext", {r.range(0, nv - 1), r.size(1, 30), r.range(0, 9)});
	n = (int)r.range(0, 3);
	while (n--) sc.add("knext", {r.range(0, nk - 1), r.size(1, 30), r.chance(8) ? r.range(-9, 0) : period(r, base)});
	if (!quiet) {
		n = (int)r.range(0, 14);
		while (n--) { Op o; if (!step(o, r, nc, nk, nv, nt, base, true)) continue; bool onClock = r.chance(40); std::vector<i64> a = {onClock ? r.range(0, nk - 1) : r.range(0, nv - 1), r.size(1, 20)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add((onClock ? "kt:" : "at:") + o.n, a); }
	}
	n = (int)r.range(3, thorough ? 60 : 36);
	while (n--) {
		if (r.chance(45)) sc.add("gen", {r.range(0, nc - 1), r.chance(15) ? r.range(1, 3) : r.size(1, r.pick({200, 1500, 6000}))});
		else { Op o; if (step(o, r, nc, nk, nv, nt, base, false)) sc.ops.push_back(o); }
	}
	for (int c = 0; c < nc; c++) sc.add("gen", {c, r.range(100, 3000)});
}
static void exec(const Scenario & sc) {
	World w; Model m; ModelOpts o; o.audio = false; o.levels = false;
	runAgainstModel(sc, o, w, m);
	i64 same = 0; for (size_t i = 1; i < w.events.size(); i++) if (w.events[i].time == w.events[i - 1].time && w.events[i].slot != w.events[i - 1].slot) same++;
	if (same) probe("simultaneous_firings", (u64)same);
	u64 h = 0; for (auto & e : w.events) { h = h * 1099511628211ull + (u64)e.kind * 131 + (u64)e.slot; if (R.states.size() < 16) R.states.insert(h); logHash(&e.time, sizeof e.time); }
	probe("firings", w.events.size());
	R.nontrivial = w.events.size() > 1;
	w.destroyAll();
}
static PropReg reg(Prop{"C02", gen, exec,
	"one case = one random history of clocks, dividers and tracks attached, detached, reset and re-timed from outside and from callbacks while 1-3 contexts render in random pieces, compared with the model after every operation; non-trivial when at least two callbacks fire; distinct by event-log hash"});
