// C05: the output is the exact saturated mix of all voices.
#include "model.h"

static i64 note(Rng & r) { return r.chance(70) ? r.range(24, 90) << 20 : r.range(0, (i64)96 << 20); }
static void control(Op & o, Rng & r, int nt, int nd, bool raw, bool loud) {
	i64 t = r.range(0, nt - 1);
	int k = (int)r.range(0, 99);
	if (k < 22) o = Op("attr", {t, A_NOTE, note(r)});
	else if (k < 30) o = Op("attr", {t, A_NOTE, r.range(-2, -1)});
	else if (k < 38) o = Op("attr", {t, A_VOLUME, r.chance(15) ? 0 : r.range(0, 32767)});
	else if (raw && k < 40) o = Op(r.pick({"samp", "range", "sustain", "arp", "eff"}), {t, r.range(-1, 4), r.range(0, 3), r.range(-9, 99), r.range(0, 99), 0});
	else if (k < 44) o = Op("attr", {t, A_MASTER, r.chance(10) ? 0 : loud ? r.range(10000, 32767) : r.range(0, 12000)});
	else if (k < 50) o = Op("attr", {t, A_PANNING, r.range(-32767, 32767)});
	else if (k < 60) o = Op("attr", {t, A_WAVE, r.range(1, 5)});
	else if (k < 65) o = Op("attr", {t, A_DUTY, r.range(1, 15)});
	else if (k < 72) o = Op("attr", {t, A_WRAP, r.chance(30) ? 0 : r.size(1, 200)});
	else if (k < 77) o = Op("attr", {t, A_PHASE, r.range(-1, 70)});
	else if (k < 82) o = Op("attr", {t, A_MUTE, r.range(0, 1)});
	else if (raw && k < 87) o = Op("attr", {t, A_PERIOD, r.size(1, (i64)400 << 20)});
	else if (raw && k < 91) o = Op("attr", {t, A_VOL0 + r.range(0, 1), r.range(0, 32767)});
	else if (nd && k < 96) o = Op("wave", {t, r.range(-1, nd - 1)});
	else if (nd && k < 97) o = Op("dataframes", {r.range(0, nd - 1), r.size(2, 80), 1, r.range(1, 99999), r.range(0, 1)});
	else o = Op("attr", {t, A_PITCH, r.range(-(12 << 20), 12 << 20)});
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	int nc = r.chance(10) ? 2 : 1, nt = (int)r.range(1, NTRACK), nv = (int)r.range(0, 2), nd = r.chance(45) ? (int)r.range(1, 3) : 0;
	bool raw = r.chance(40), loud = r.chance(35);
	for (int c = 0; c < nc; c++) { sc.add("ctx", {c, r.chance(45) ? 2 : r.range(0, 9), r.chance(80) ? r.pick({16000, 22050, 44100, 48000, 96000}) : r.range(0, 120000), 0}); if (r.chance(40)) sc.add("kernel", {c, r.range(-1, 1)}); if (r.chance(40)) sc.add("ctxperiod", {c, r.range(10 << 20, (i64)800 << 20)}); }
	for (int d = 0; d < nd; d++) sc.add("data", {d, r.size(2, 80), 1, r.range(1, 99999), r.range(0, 1), 0});
	for (int t = 0; t < nt; t++) {
		bool unit = raw && r.chance(40); sc.add(unit ? "unit" : "track", {t, r.range(unit ? 0 : 1, 5), 0});
		if (unit) { sc.add("attr", {t, A_PERIOD, r.size(1, (i64)400 << 20)}); sc.add("attr", {t, r.pick({A_VOLUME, A_VOL0, A_VOL1}), loud ? r.range(15000, 32767) : r.range(500, 12000)}); }
		sc.add("attr", {t, A_MASTER, loud ? r.range(15000, 32767) : r.range(500, 12000)});
		if (r.chance(92)) sc.add("attach", {t, r.range(0, nc - 1)});
		if (nd && r.chance(30)) sc.add("wave", {t, r.range(0, nd - 1)});
		if (r.chance(85)) sc.add("attr", {t, A_NOTE, note(r)});
	}
	for (int v = 0; v < nv; v++) {
		sc.add("div", {v, r.range(1, 6), 0}); sc.add("divattach", {v, r.range(-2, -1), 0});
		int n = (int)r.range(0, 6); while (n--) { Op o; control(o, r, nt, nd, raw, loud); if (o.n == "dataframes") continue; std::vector<i64> a = {v, r.size(1, 30)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("at:" + o.n, a); }
	}
	int n = (int)r.range(3, thorough ? 70 : 40);
	while (n--) {
		if (r.chance(45)) sc.add("gen", {r.range(0, nc - 1), r.size(1, r.pick({100, 1200, 3000}))});
		else if (r.chance(8)) sc.add(r.pick({"detach", "attach", "attach", "treset", "tclear"}), {r.range(0, nt - 1), r.range(0, nc - 1)});
		else if (r.chance(2)) sc.add("ctxreset", {r.range(0, nc - 1)});
		else if (r.chance(3)) sc.add("kernel", {r.range(0, nc - 1), r.range(-1, 1)});
		else if (r.chance(3)) { i64 t = r.range(0, nt - 1); sc.add("trackdel", {t}); sc.add("track", {t, r.range(1, 5), 0}); sc.add("attr", {t, A_MASTER, r.range(500, 32767)}); sc.add("attach", {t, r.range(0, nc - 1)}); sc.add("attr", {t, A_NOTE, note(r)}); }
		else { Op o; control(o, r, nt, nd, raw, loud); sc.ops.push_back(o); }
	}
	for (int c = 0; c < nc; c++) sc.add("gen", {c, r.range(20, 1500)});
}
static void exec(const Scenario & sc) {
	World w; Model m; ModelOpts o; o.levels = false; runAgainstModel(sc, o, w, m);
	u64 sat = 0; for (int c = 0; c < NCTX; c++) { logHash(w.out[c].data(), w.out[c].size() * 2); for (auto x : w.out[c]) { if (x) R.nontrivial = true; if (x == 32767 || x == -32768) sat++; } }
	if (sat) probe("saturated_samples", sat);
	probe("steps_mixed", m.pulses);
	w.destroyAll();
}
static PropReg reg(Prop{"C05", gen, exec,
	"one case = one random set of voices (all waveforms, custom waves, phase wraps, 1-8 channels, all rates and kernels, up to saturation) changed, muted, detached and reset between rendered pieces and inside callbacks, every delivered sample compared with the model; non-trivial when sound is rendered; distinct by event-log hash"});
