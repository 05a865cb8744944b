// C06: sample playback reads exactly the selected frames in the selected order.
#include "model.h"

static i64 note(Rng & r) { return r.chance(50) ? r.range(30, 66) << 20 : r.chance(70) ? r.range(0, 96) << 20 : r.range(0, (i64)96 << 20); }
static i64 pos(Rng & r, i64 len) { return r.chance(12) ? r.pick({(i64)-1, (i64)-2, -len, -len - 1, -len - 5, len, len + 1, len + 100, (i64)0, (i64)1, (i64)1 << 30, -((i64)1 << 30)}) : r.range(-len, len); }
static void control(Op & o, Rng & r, int nt, int nd, const i64 * len, bool inside, int nch) {
	i64 t = r.range(0, nt - 1), d = r.range(0, nd - 1);
	int k = (int)r.range(0, 99);
	if (r.chance(2)) { o = r.chance(60) ? Op("attr", {t, A_MUTE, 0}) : Op("attr", {t, r.pick({A_VOL0, A_VOL1, A_PERIOD}), r.range(0, 32767)}); return; }
	if (k < 20) o = Op("attr", {t, A_NOTE, note(r)});
	else if (k < 28) o = Op("attr", {t, A_NOTE, r.chance(70) ? -1 : -2});
	else if (k < 40) o = Op("samp", {t, r.chance(8) ? -1 : d});
	else if (k < 43) o = Op("wave", {t, r.chance(12) ? -1 : d});
	else if (k < 55) o = Op("range", {t, r.chance(10), pos(r, len[d]), pos(r, len[d])});
	else if (k < 65) o = Op("sustain", {t, r.chance(12), pos(r, len[d]), pos(r, len[d])});
	else if (k < 72) o = Op("attr", {t, A_REPEAT, r.chance(5) ? r.range(-1, 5) : r.range(0, 2)});
	else if (k < 75) o = Op("attr", {t, A_IMMED, r.range(0, 1)});
	else if (k < 77) o = Op("attr", {t, A_RELEASE, r.range(0, 1)});
	else if (k < 79) o = Op("attr", {t, A_PHASE, pos(r, len[d])});
	else if (k < 82) o = Op("attr", {t, A_SPITCH, r.range(-48, 48) << 20});
	else if (k < 84) o = Op("attr", {t, A_PITCH, r.range(-(12 << 20), 12 << 20)});
	else if (k < 86) o = Op("attr", {t, A_VOLUME, r.chance(15) ? 0 : r.range(0, 32767)});
	else if (k < 87) o = Op("attr", {t, A_PANNING, r.range(-32767, 32767)});
	else if (k < 88) o = Op("attr", {t, A_MUTE, r.range(0, 1)});
	else if (k < 90) o = Op("attr", {t, A_WAVE, r.range(1, 5)});
	else if (k < 92) o = Op("attr", {t, A_SPERIOD, r.chance(20) ? r.pick({(i64)1, (i64)1 << 12, (i64)1 << 28, (i64)1 << 30}) : r.range(1 << 15, 1 << 23)});
	else if (k < 94) { std::vector<i64> a = {t}; int n = (int)r.range(0, 5); while (n--) a.push_back(r.range(0, 2)); o = Op("scb", a); }
	else if (k < 95) o = Op("setinstr", {t, r.range(-1, 0)});
	else if (k < 96) o = Op("eff", {t, r.range(0, 4), 3, r.range(0, 30), r.range(0, 32767), r.range(0, 20)});
	else if (!inside && k < 98) o = Op("dataframes", {d, r.chance(8) ? r.range(0, 3) : r.size(2, 300), r.chance(75) ? 1 : r.chance(50) ? nch : r.range(0, 9), r.range(1, 99999), r.range(0, 1)});
	else if (!inside && k < 99) o = r.chance(50) ? Op(r.pick({"datadel", "datadetach"}), {d}) : Op("data", {d, r.size(2, 300), r.chance(70) ? 1 : nch, r.range(1, 99999), r.range(0, 1), 0});
	else o = Op("datapitch", {d, r.range(-24, 24) << 20});
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	int nc = r.chance(10) ? 2 : 1, nt = (int)r.range(1, 4), nv = (int)r.range(0, 2), nd = (int)r.range(1, NDATA);
	i64 len[NDATA]; int nch = 1;
	for (int c = 0; c < nc; c++) { nch = r.chance(60) ? 2 : (int)r.range(1, 8); sc.add("ctx", {c, nch, r.pick({16000, 44100, 96000}), 0}); if (r.chance(60)) sc.add("ctxperiod", {c, r.range(4 << 20, (i64)200 << 20)}); }
	sc.add("instr", {0, 0}); if (r.chance(50)) sc.add("adsr", {0, r.range(0, 9), r.range(0, 9), r.range(0, 32767), r.range(0, 20)});
	for (int d = 0; d < nd; d++) { len[d] = r.chance(25) ? r.range(2, 5) : r.size(2, 400); sc.add("data", {d, len[d], r.chance(75) ? 1 : nch, r.range(1, 99999), r.range(0, 1), 0}); if (r.chance(30)) sc.add("datapitch", {d, r.range(-24, 24) << 20}); }
	for (int t = 0; t < nt; t++) {
		bool unit = r.chance(12);
		if (unit) { sc.add("unit", {t, r.range(0, 5)}); sc.add("attr", {t, r.pick({A_VOLUME, A_VOLUME, A_VOL0}), r.range(3000, 32767)}); if (r.chance(60)) sc.add("attr", {t, A_SPERIOD, r.range(1 << 15, 1 << 23)}); sc.add("attr", {t, A_MUTE, 0}); }
		else { sc.add("track", {t, r.range(1, 5), 0}); sc.add("attr", {t, A_MASTER, r.range(3000, 32767)}); }
		if (r.chance(95)) sc.add("attach", {t, r.range(0, nc - 1)});
		if (r.chance(50)) { std::vector<i64> a = {t}; int n = (int)r.range(1, 5); while (n--) a.push_back(r.range(0, 2)); sc.add("scb", a); }
		if (r.chance(85)) sc.add(r.chance(88) ? "samp" : "wave", {t, r.range(0, nd - 1)});
		if (r.chance(60)) sc.add("attr", {t, A_REPEAT, r.range(0, 2)});
		if (r.chance(85)) sc.add("attr", {t, A_NOTE, note(r)});
	}
	for (int v = 0; v < nv; v++) {
		sc.add("div", {v, r.range(1, 6), 0}); sc.add("divattach", {v, r.range(-2, -1), 0});
		int n = (int)r.range(0, 6); while (n--) { Op o; control(o, r, nt, nd, len, true, nch); std::vector<i64> a = {v, r.size(1, 30)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("at:" + o.n, a); }
	}
	if (r.chance(35)) for (int t = 0; t < nt; t++) if (r.chance(60)) {        // the sample callback changes samples, ranges, notes…
		int n = (int)r.range(1, 6); if (r.chance(70)) sc.add("scb", {t, r.range(1, 2), r.range(0, 2), r.range(1, 2)});
		while (n--) { Op o; control(o, r, nt, nd, len, true, nch); if (r.chance(75) && o.n != "datapitch") o.a[0] = t; std::vector<i64> a = {t, r.size(0, 20)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("st:" + o.n, a); }
	}
	int n = (int)r.range(4, thorough ? 80 : 45);
	while (n--) {
		if (r.chance(42)) sc.add("gen", {r.range(0, nc - 1), r.size(1, r.pick({100, 1200, 3000}))});
		else if (r.chance(4)) sc.add(r.pick({"detach", "attach", "attach", "treset", "tclear"}), {r.range(0, nt - 1), r.range(0, nc - 1)});
		else if (r.chance(2)) {   // data taken to a context of another number of channels
			i64 t = r.range(0, nt - 1), d = r.range(0, nd - 1);
			sc.add("detach", {t}); if (r.chance(60)) { len[d] = r.size(2, 300); sc.add("dataframes", {d, len[d], r.range(1, 8), r.range(1, 99999), r.range(0, 1)}); }
			if (r.chance(80)) sc.add("samp", {t, d}); sc.add("attach", {t, r.range(0, nc - 1)});
		}
		else if (r.chance(6)) {
			i64 d = r.range(0, nd - 1), e = r.range(0, nd - 1), seed = r.range(1, 99999);
			switch (r.range(0, 4)) {
				case 0: sc.add("datadel", {d}); sc.add("datacopy", {d, e}); if (r.chance(70)) sc.add("samp", {r.range(0, nt - 1), d}); break;
				case 1: sc.add("dataset", {d, r.size(2, 900), r.chance(75) ? 1 : nch, r.range(1, 6), seed}); break;
				case 2: sc.add("load", {d, r.range(0, 2), r.size(2, 300), r.chance(75) ? 1 : nch, seed}); break;
				case 3: sc.add("datanorm", {d}); break;
				case 4: sc.add("dataconv", {d, r.range(0, 14)}); break;
			}
		}
		else { Op o; control(o, r, nt, nd, len, false, nch); sc.ops.push_back(o); }
	}
	for (int c = 0; c < nc; c++) sc.add("gen", {c, r.range(20, 1500)});
}
static void exec(const Scenario & sc) {
	World w; Model m; ModelOpts o; o.levels = (sc.seed & 1) != 0; runAgainstModel(sc, o, w, m);
	for (int c = 0; c < NCTX; c++) { logHash(w.out[c].data(), w.out[c].size() * 2); for (auto x : w.out[c]) if (x) R.nontrivial = true; }
	u64 rs = 0; for (auto & e : w.events) if (e.kind == 's') rs++;
	if (rs) probe("sample_ends_reported", rs);
	for (auto & t : m.T) if (t.live && t.wf == 7) { probe("sample_at_end"); if (t.speriod < 0) probe("backwards_at_end"); if (t.repeatCount) probe("repeated"); if (t.fRange) probe("sustain_range_at_end"); if (t.nch > 1) probe("multichannel"); }
	w.destroyAll();
}
static PropReg reg(Prop{"C06", gen, exec,
	"one case = one random history of samples and custom waves (any length, channels, ranges, sustain ranges, repeat modes, speeds, callbacks, replaced and removed while playing), every delivered sample and sample callback compared with the model; non-trivial when sound is rendered; distinct by event-log hash"});
