// C03: effects and note controls move every value exactly tick by tick.
#include "model.h"

static i64 wide(Rng & r, i64 lo, i64 hi) {   // mostly inside, sometimes at and beyond the limits
	if (r.chance(12)) return r.pick({lo, hi, lo - 1, hi + 1, lo - 100000, hi + 100000, (i64)0});
	return r.range(lo, hi);
}
static i64 note(Rng & r) { return r.chance(5) ? r.pick({(i64)0, (i64)96 << 20, ((i64)96 << 20) + 5, (i64)95 << 20}) : r.chance(60) ? r.range(0, 96) << 20 : r.range(0, (i64)96 << 20); }
static bool control(Op & o, Rng & r, int nt, bool instr) {
	i64 t = r.range(0, nt - 1);
	int k = (int)r.range(0, 99);
	if (k < 20) o = Op("attr", {t, A_NOTE, note(r)});
	else if (k < 26) o = Op("attr", {t, A_NOTE, r.range(-2, -1)});
	else if (k < 33) o = Op("attr", {t, A_VOLUME, wide(r, 0, 32767)});
	else if (k < 39) o = Op("attr", {t, A_PANNING, wide(r, -32767, 32767)});
	else if (k < 42) o = Op("attr", {t, A_PITCH, wide(r, -(48 << 20), 48 << 20)});
	else if (k < 45) o = Op("attr", {t, A_DUTY, wide(r, 1, 15)});
	else if (k < 48) o = Op("attr", {t, A_MASTER, wide(r, 0, 32767)});
	else if (k < 50) o = Op("attr", {t, A_MUTE, r.range(0, 1)});
	else if (k < 53) o = Op("attr", {t, A_TRIIGN, r.range(0, 1)});
	else if (k < 58) o = Op("attr", {t, r.range(A_ARPDIV, A_INSTRDIV), r.chance(10) ? r.range(-3, 0) : r.range(1, 9)});
	else if (k < 62) o = Op("attr", {t, A_WAVE, r.chance(10) ? r.range(-1, 9) : r.range(1, 5)});
	else if (k < 64) o = Op("attr", {t, r.pick({(i64)A_VSLIDE, (i64)A_PSLIDE, (i64)A_PORTA}), r.range(0, 60)});
	else if (k < 86) {
		i64 e = r.range(0, 4), sz = r.chance(10) ? r.range(0, 2) : 3;
		i64 steps = r.chance(20) ? 0 : r.chance(8) ? r.pick({65535, 65536, 70000, -5, 1}) : r.size(1, 200);
		i64 d = e == 4 ? (r.chance(10) ? r.pick({-(i64)(96 << 20), (i64)96 << 20, ((i64)96 << 20) + 1, (i64)200 << 20, (i64)0x7fffffff, -(i64)0x80000000ll}) : r.range(-(12 << 20), 12 << 20)) : wide(r, 0, 32767);
		o = Op("eff", {t, e, sz, steps, d, r.chance(45) ? 0 : r.chance(8) ? r.pick({-1, 70000, 1}) : r.size(1, 100)});
	}
	else if (k < 95) { std::vector<i64> a = {t}; int n = r.chance(20) ? 0 : (int)r.range(1, r.chance(10) ? 12 : 8); while (n--) a.push_back(r.chance(80) ? r.range(-24, 24) << 20 : r.chance(90) ? r.range(-(48 << 20), 48 << 20) : r.pick({(i64)0x7fffffff, -(i64)0x80000000ll, (i64)2000 << 20, -((i64)2000 << 20)})); o = Op("arp", a); }
	else if (k < 97) o = Op("attr", {t, A_PHASE, r.range(-1, 40)});
	else if (instr) o = Op("setinstr", {t, r.range(-1, 1)});
	else o = Op("attr", {t, A_NOTE, note(r)});
	return true;
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	int nt = (int)r.range(1, 4), nv = (int)r.range(0, 3); bool instr = r.chance(20);
	i64 rate = r.pick({(i64)16000, (i64)44100, (i64)96000, r.range(16000, 96000)});
	int nch = r.chance(70) ? 2 : (int)r.range(1, 4);
	sc.add("ctx", {0, nch, rate, 0});
	i64 tick = (rate << 20) / 240;
	if (r.chance(60)) { tick = r.range(4 << 20, (i64)300 << 20); sc.add("ctxperiod", {0, tick}); }
	if (instr) for (int i = 0; i < 2; i++) { sc.add("instr", {i, 0}); sc.add("seq", {i, r.range(0, 3), 0, r.range(0, 3), r.range(1, 15), r.range(1, 15), r.range(1, 15)}); }
	for (int t = 0; t < nt; t++) {
		sc.add("track", {t, r.range(1, 5), 0});
		sc.add("attr", {t, A_MASTER, r.range(1000, 32767)});
		if (r.chance(92)) sc.add("attach", {t, 0});
		if (r.chance(50)) sc.add("attr", {t, A_EFFDIV, r.range(1, 3)});
		if (r.chance(75)) sc.add("attr", {t, A_NOTE, note(r)});
		int n = (int)r.range(0, 3); while (n--) { Op o; if (control(o, r, t + 1, false)) sc.ops.push_back(o); }
	}
	for (int v = 0; v < nv; v++) {
		sc.add("div", {v, r.chance(60) ? 1 : r.range(1, 6), 0}); sc.add("divattach", {v, r.range(-2, -1), 0});
		int n = (int)r.range(0, 6); while (n--) { Op o; if (!control(o, r, nt, instr)) continue; std::vector<i64> a = {v, r.size(1, 50)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("at:" + o.n, a); }
	}
	int n = (int)r.range(4, thorough ? 80 : 45);
	i64 tf = tick >> 20; if (tf < 1) tf = 1;
	while (n--) {
		if (r.chance(45)) sc.add("gen", {0, r.chance(30) ? r.range(1, 2 * tf + 1) : r.size(1, r.pick({tf * 4, tf * 12, tf * 40}) + 1)});
		else if (r.chance(4)) { i64 t = r.range(0, nt - 1); sc.add(r.pick({"detach", "attach", "attach"}), {t, 0}); }
		else if (r.chance(3)) sc.add(r.chance(50) ? "treset" : "tclear", {r.range(0, nt - 1)});
		else { Op o; if (control(o, r, nt, instr)) sc.ops.push_back(o); }
	}
	sc.add("gen", {0, r.range(1, 12 * tf)});
}
static void exec(const Scenario & sc) {
	World w; Model m; ModelOpts o; o.audio = (sc.seed % 4) == 0; runAgainstModel(sc, o, w, m);
	for (auto & s : w.snaps) logHash(s.data(), s.size() * 8);
	for (int c = 0; c < NCTX; c++) { logHash(w.out[c].data(), w.out[c].size() * 2); for (auto x : w.out[c]) if (x) R.nontrivial = true; }
	for (auto & t : m.T) if (t.live) { if (t.fEff[0] && t.volume.steps) probe("volume_slide_at_end"); if (t.fEff[2] && t.note.step > 0) probe("portamento_running_at_end"); if (t.fEff[3] && t.tremD.step > 0) probe("tremolo_depth_sliding_at_end"); if (t.fEff[4] && t.vibD.step > 0) probe("vibrato_depth_sliding_at_end"); if (t.fArp) probe("arpeggio_at_end"); }
	w.destroyAll();
}
static PropReg reg(Prop{"C03", gen, exec,
	"one case = one random history of notes, volumes, pannings, pitches, waveforms, dividers, slides, portamento, tremolo, vibrato and arpeggios placed between rendered pieces and inside divider callbacks, compared with the model after every operation and at every callback; non-trivial when sound is rendered; distinct by event-log hash"});
