// C04: instrument sequences and envelopes run their whole life cycle exactly.
#include "model.h"

// small: a sequence whose own range is much smaller than what its state may hold when it starts (the
// track's duty cycle, the value left by an earlier sequence)
static i64 val(Rng & r, int slot, bool small) {
	if (small) { static const int m[4] = {300, 200, 5000, 3}; return r.range(slot == 1 || slot == 2 ? -m[slot] : slot == 3 ? 1 : 0, m[slot]); }
	if (r.chance(2)) return r.pick({(i64)0x7fffffff, -(i64)0x7fffffff, (i64)70000, (i64)100000, (i64)1 << 30, -((i64)1 << 30), r.range(-(i64)0x7fffffff, 0x7fffffff)});
	switch (slot) {
		case 0: return r.chance(8) ? r.pick({0, 32767, 40000, -5}) : r.range(0, 32767);
		case 1: return r.chance(8) ? r.pick({-32767, 32767, 50000, -50000}) : r.range(-32767, 32767);
		case 2: return r.chance(5) ? r.range(-(200 << 20), 200 << 20) : r.range(-12, 12) * (1 << 20) + (r.chance(30) ? r.range(-99999, 99999) : 0);
		default: return r.chance(8) ? r.pick({0, 16, 20, -3}) : r.range(1, 15);
	}
}
static void edit(Op & o, Rng & r, int ni) {
	i64 i = r.range(0, ni - 1); int slot = (int)r.range(0, 3);
	if (r.chance(7)) { o = Op(r.chance(50) ? "seq" : "env", {i, slot, 0, 0}); return; }
	if (r.chance(15)) { o = Op("adsr", {i, r.chance(20) ? 0 : r.range(1, 30), r.chance(20) ? 0 : r.range(1, 30), r.range(0, 32767), r.chance(20) ? 0 : r.range(1, 40)}); return; }
	bool env = r.chance(50), small = r.chance(20); int len = (int)r.range(1, r.chance(20) ? 12 : 5);
	i64 so = r.chance(10) ? r.range(0, len + 3) : r.range(0, len), sl = r.chance(10) ? r.range(0, len + 3) : r.range(0, so > len ? 0 : len - so);
	std::vector<i64> a = {i, r.chance(2) ? r.pick({-1, 4, 9}) : slot, so, sl};
	for (int k = 0; k < len; k++) { if (env) a.push_back(r.chance(18) ? 0 : r.size(1, 40)); a.push_back(val(r, slot, small)); }
	o = Op(env ? "env" : "seq", a);
}
static i64 note(Rng & r) { return r.chance(70) ? r.range(12, 84) << 20 : r.range(0, (i64)96 << 20); }
static void control(Op & o, Rng & r, int nt, int ni, int nd, bool inside) {
	i64 t = r.range(0, nt - 1);
	int k = (int)r.range(0, 99);
	if (k < 26) o = Op("attr", {t, A_NOTE, note(r)});
	else if (k < 42) o = Op("attr", {t, A_NOTE, -1});
	else if (k < 48) o = Op("attr", {t, A_NOTE, -2});
	else if (k < 62) o = Op("setinstr", {t, r.chance(18) ? -1 : r.range(0, ni - 1)});
	else if (k < 72) edit(o, r, ni);
	else if (k < 76) o = Op("attr", {t, A_INSTRDIV, r.range(1, 5)});
	else if (k < 78) o = Op("attr", {t, A_VOLUME, r.range(0, 32767)});
	else if (k < 80) o = Op("attr", {t, A_PANNING, r.range(-32767, 32767)});
	else if (k < 82) o = Op("attr", {t, A_DUTY, r.range(1, 15)});
	else if (k < 84) o = Op("attr", {t, A_WAVE, r.range(1, 5)});
	else if (k < 85) o = Op("attr", {t, A_MUTE, r.range(0, 1)});
	else if (k < 86) o = Op("attr", {t, A_TRIIGN, r.range(0, 1)});
	else if (k < 89) o = Op("eff", {t, r.range(0, 4), 3, r.chance(30) ? 0 : r.range(1, 40), r.range(0, 32767), r.range(0, 20)});
	else if (k < 91) o = Op("arp", {t, 0, 4 << 20, 7 << 20});
	else if (k < 92) o = Op("arp", {t});
	else if (nd && k < 95) o = Op("samp", {t, r.range(-1, nd - 1)});
	else if (nd && k < 97) o = Op(r.chance(50) ? "sustain" : "range", {t, 0, r.range(0, 20), r.range(0, 60)});
	else if (nd && k < 98) o = Op("attr", {t, A_REPEAT, r.range(0, 2)});
	else if (!inside && k < 99) o = r.chance(50) ? Op(r.pick({"instrdel", "instrdetach"}), {r.range(0, ni - 1)}) : Op("instr", {r.range(0, ni - 1), r.range(0, 1)});
	else if (!inside) o = Op("instrcopy", {r.range(0, ni - 1), r.range(0, ni - 1)});
	else o = Op("attr", {t, A_NOTE, -1});
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	int nt = (int)r.range(1, 4), nv = (int)r.range(0, 2), ni = (int)r.range(1, NINSTR), nd = r.chance(30) ? 1 : 0;
	sc.add("ctx", {0, r.chance(75) ? 2 : r.range(1, 3), r.pick({16000, 44100, 96000}), 0});
	i64 tick = r.range(4 << 20, (i64)120 << 20); sc.add("ctxperiod", {0, tick});
	for (int i = 0; i < ni; i++) { if (i && r.chance(25)) { sc.add("instrcopy", {i, r.range(0, i - 1)}); if (r.chance(40)) { Op o; edit(o, r, ni); o.a[0] = i; sc.ops.push_back(o); } continue; } sc.add("instr", {i, r.range(0, 1)}); int n = (int)r.range(1, 5); while (n--) { Op o; edit(o, r, ni); o.a[0] = i; sc.ops.push_back(o); } }
	if (nd) sc.add("data", {0, r.range(2, 80), 1, r.range(1, 9999), 0, 0});
	for (int t = 0; t < nt; t++) {
		sc.add("track", {t, r.range(1, 5), 0}); sc.add("attr", {t, A_MASTER, r.range(1000, 32767)});
		if (r.chance(92)) sc.add("attach", {t, 0});
		if (r.chance(70)) sc.add("attr", {t, A_INSTRDIV, r.range(1, 3)});
		if (r.chance(80)) sc.add("setinstr", {t, r.range(0, ni - 1)});
		if (r.chance(75)) sc.add("attr", {t, A_NOTE, note(r)});
	}
	for (int v = 0; v < nv; v++) {
		sc.add("div", {v, r.chance(60) ? 1 : r.range(1, 6), 0}); sc.add("divattach", {v, r.range(-2, -1), 0});
		int n = (int)r.range(0, 6); while (n--) { Op o; control(o, r, nt, ni, nd, true); std::vector<i64> a = {v, r.size(1, 50)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("at:" + o.n, a); }
	}
	int n = (int)r.range(4, thorough ? 80 : 45); i64 tf = (tick >> 20) < 1 ? 1 : tick >> 20;
	while (n--) {
		if (r.chance(45)) sc.add("gen", {0, r.chance(30) ? r.range(1, 2 * tf + 1) : r.size(1, r.pick({tf * 4, tf * 20, tf * 60}) + 1)});
		else if (r.chance(3)) sc.add(r.pick({"treset", "tclear", "detach", "attach", "attach"}), {r.range(0, nt - 1), 0});
		else if (ni > 1 && r.chance(4)) { i64 j = r.range(0, ni - 1), q = r.range(0, ni - 1); sc.add("instrdel", {j}); sc.add("instrcopy", {j, q}); if (r.chance(60)) { i64 t = r.range(0, nt - 1); sc.add("setinstr", {t, j}); if (r.chance(60)) sc.add("attr", {t, A_NOTE, note(r)}); } }
		else { Op o; control(o, r, nt, ni, nd, false); sc.ops.push_back(o); }
	}
	sc.add("gen", {0, r.range(1, 12 * tf)});
}
static void exec(const Scenario & sc) {
	World w; Model m; ModelOpts o; o.audio = (sc.seed % 4) == 0; runAgainstModel(sc, o, w, m);
	for (auto & s : w.snaps) logHash(s.data(), s.size() * 8);
	for (int c = 0; c < NCTX; c++) { logHash(w.out[c].data(), w.out[c].size() * 2); for (auto x : w.out[c]) if (x) R.nontrivial = true; }
	for (auto & t : m.T) if (t.live && t.instr >= 0) probe(t.iphase == 1 ? "held_at_end" : t.iphase == 2 ? "releasing_at_end" : "muted_at_end");
	w.destroyAll();
}
static PropReg reg(Prop{"C04", gen, exec,
	"one case = one random set of instruments (sequences and envelopes in all slots, ADSR) and one random history of notes, releases, mutes, instrument changes and edits of instruments in use, placed between rendered pieces and inside divider callbacks, compared with the model after every operation and at every callback; non-trivial when sound is rendered; distinct by event-log hash"});
