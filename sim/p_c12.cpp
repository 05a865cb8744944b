// C12: reset objects behave exactly like new ones.
#include "model.h"
#include "common.h"
#include <algorithm>

static void gen(Scenario & sc, Rng & r, bool thorough) {
	GenCfg c; c.nctx = 1; c.ntrack = (int)r.range(1, 4); c.ndiv = (int)r.range(0, 4); c.nclock = (int)r.range(0, 3);
	c.maxGen = r.pick({300, 1500}); c.samples = r.chance(60); c.instruments = r.chance(60); c.effects = r.chance(80); c.resets = r.chance(15);
	c.ops = (int)r.range(2, thorough ? 60 : 30);
	Gen g(sc, r, c); g.setup();
	int nunit = r.chance(25) ? (int)r.range(1, 2) : 0;   // units without tracks
	auto unitOp = [&](int t) {
		switch (r.range(0, 9)) {
			case 0: case 1: return Op("attr", {t, A_WAVE, r.range(1, 5)});
			case 2: return Op("attr", {t, r.pick({A_VOLUME, A_VOL0, A_VOL1}), r.range(0, 12000)});
			case 3: return Op("attr", {t, A_PERIOD, r.size(1 << 16, (i64)400 << 20)});
			case 4: return Op("attr", {t, A_SPERIOD, r.range(-(1 << 22), 1 << 22)});
			case 5: return Op("attr", {t, A_DUTY, r.range(1, 15)});
			case 6: return Op("attr", {t, A_MUTE, r.range(0, 3) == 0});
			case 7: return Op("attr", {t, A_PHASE, r.range(0, 40)});
			case 8: return Op("attr", {t, A_WRAP, r.range(0, 60)});
			default: return Op(r.chance(70) ? "samp" : "wave", {t, r.range(0, NDATA - 1)});
		}
	};
	auto unitOps = [&](size_t from) { if (nunit) for (int i = 0, k = (int)r.range(1, 8); i < k; i++) sc.ops.insert(sc.ops.begin() + (long)(from + (size_t)r.range(0, (i64)(sc.ops.size() - from))), unitOp(c.ntrack + (int)r.range(0, nunit - 1))); };
	for (int i = 0; i < nunit; i++) { int t = c.ntrack + i; sc.add("unit", {t, r.range(0, 5)}); sc.add("attr", {t, r.pick({A_VOLUME, A_VOL0}), r.range(1000, 10000)}); sc.add("attr", {t, A_PERIOD, r.size(1 << 16, (i64)400 << 20)}); sc.add("attr", {t, A_MUTE, 0}); sc.add("attach", {t, 0}); }
	size_t from = sc.ops.size(); g.body(); unitOps(from);
	int n = thorough ? (int)r.range(1, 3) : r.chance(80) ? 1 : 2;
	while (n--) {
		int k = (int)r.range(0, 9);
		if (k < 4) { if (r.chance(30)) sc.add("unread", {0, r.size(1, 900)}); sc.add("reset", {0, 0}); }
		else if (k < 7) sc.add("reset", {1, r.range(0, c.ntrack - 1)});
		else if (k < 8) sc.add("reset", {2, r.range(0, c.ntrack - 1)});
		else if (k < 9 && c.nclock) sc.add("reset", {3, r.range(0, c.nclock - 1)});
		else if (c.ndiv) sc.add("reset", {4, r.range(0, c.ndiv - 1)});
		else sc.add("reset", {0, 0});
		c.ops = (int)r.range(3, thorough ? 40 : 22); g.c = c;
		// notes first, so that the tracks are heard again
		for (int t = 0; t < c.ntrack; t++) if (g.track[t] && r.chance(70)) sc.add("attr", {t, A_NOTE, g.note()});
		for (int i = 0; i < nunit; i++) if (r.chance(70)) sc.add("attr", {c.ntrack + i, A_WAVE, r.range(1, 5)});
		from = sc.ops.size(); g.body(); unitOps(from);
	}
	sc.add("gen", {0, r.range(50, 1500)});
}
static bool is(const Op & o, const char * n) { return o.n == n; }
struct Pair { World a, b; Model m; std::vector<int> ra, rb; };

static void keepFires(World & w, const std::function<void()> & f) {   // script positions belong to the script, not to the objects
	i64 d[NDIV], k[NCLOCK], s[NTRACK]; std::copy(w.divFires, w.divFires + NDIV, d); std::copy(w.clockFires, w.clockFires + NCLOCK, k); std::copy(w.sampFires, w.sampFires + NTRACK, s);
	f();
	std::copy(d, d + NDIV, w.divFires); std::copy(k, k + NCLOCK, w.clockFires); std::copy(s, s + NTRACK, w.sampFires);
}
static void newTrack(World & w, const Model & m, int t) {   // what a track keeps when it is reset
	int wave = waveIndex((BKEnum)w.get(t, BK_WAVEFORM)); if (wave < 0 || wave > 5) wave = 0;
	int master = w.get(t, BK_MASTER_VOLUME), tri = w.get(t, BK_TRIANGLE_IGNORES_VOLUME); std::vector<i64> ret = w.sampRet[t];
	w.apply(Op("trackdel", {t})); w.apply(Op("track", {t, wave, w.trackA[t]}));
	w.apply(Op("attr", {t, A_MASTER, master})); w.apply(Op("attr", {t, A_TRIIGN, tri}));
	if (!ret.empty()) { ret.insert(ret.begin(), t); w.apply(Op("scb", ret)); }
}
static void newUnit(World & w, int t) {   // a unit without track becomes silent and keeps its other settings
	static const BKEnum keep[] = {BK_PERIOD, BK_DUTY_CYCLE, BK_MUTE, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3, BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7};
	BKInt v[11]; for (int i = 0; i < 11; i++) { v[i] = 0; w.getAttr(t, keep[i], &v[i]); }
	std::vector<i64> ret = w.sampRet[t];
	w.apply(Op("trackdel", {t})); w.apply(Op("unit", {t, 0}));
	for (int i = 0; i < 11; i++) if (i || v[i]) BKSetAttr(w.track[t], keep[i], v[i]);
	if (!ret.empty()) { ret.insert(ret.begin(), t); w.apply(Op("scb", ret)); }
	probe("unit_renewed");
}
static void newDiv(World & w, const Model & m, int v) { w.apply(Op("divdel", {v})); w.apply(Op("div", {v, m.V[v].divider, w.divA[v]})); }
static void newClock(World & w, const Model & m, int k) { w.apply(Op("clockdel", {k})); w.apply(Op("clock", {k, m.K[k].period, w.clockA[k]})); }

// the other world gets new objects instead of reset ones; m is the configuration before the reset
static bool renew(World & w, const Model & m, int kind, int i) {
	auto group = [&](int g, int sel) { for (int v : m.G[g].list) if (v < NDIV) { newDiv(w, m, v); w.apply(Op("divattach", {v, sel, 0})); } };
	if (kind == 0) {
		if (!w.ctx[0]) return false;
		const MCtx & c = m.C[0]; int eg = NCLOCK + 1;
		std::vector<i64> rate = {0, w.nch[0], w.rate[0], w.ctxA[0]};
		std::vector<int> eff = m.G[eg].list; bool master = m.K[NCLOCK].ctx == 0;
		keepFires(w, [&] {
			for (int t : c.units) if (w.bare[t]) newUnit(w, t); else newTrack(w, m, t);
			for (int k : c.clocks) if (k < NCLOCK) newClock(w, m, k);
			for (int g : {(int)NCLOCK, eg}) for (int v : m.G[g].list) if (v < NDIV) newDiv(w, m, v);
			w.apply(Op("ctxdel", {0})); w.apply(Op("ctx", rate));
			w.apply(Op("kernel", {0, c.kernel})); w.apply(Op("ctxperiod", {0, m.K[NCLOCK].period}));
			size_t un = 0; auto upTo = [&](int t) { while (un < c.units.size()) { int x = c.units[un++]; if (x == t || w.bare[x]) w.apply(Op("attach", {x, 0})); if (x == t) return; } };   // units without track are not in the group
			for (int v : eff) if (v >= NDIV) upTo(v - NDIV); else w.apply(Op("divattach", {v, -1, 0}));
			upTo(-1);
			for (int v : m.G[NCLOCK].list) if (v < NDIV) w.apply(Op("divattach", {v, -2, 0}));
			if (master && eff.empty() && m.G[NCLOCK].list.empty()) { BKDivider d; BKCallback cb = {nullptr, nullptr}; BKDividerInit(&d, 1, &cb); BKContextAttachDivider(w.ctx[0], &d, BK_CLOCK_TYPE_EFFECT); BKDispose(&d); }
			size_t at = (size_t)(std::find(c.clocks.begin(), c.clocks.end(), NCLOCK) - c.clocks.begin());
			if (at < c.clocks.size()) for (size_t k = at; k-- > 0;) w.apply(Op("clockattach", {c.clocks[k], 0, -2}));
			for (size_t k = at < c.clocks.size() ? at + 1 : 0; k < c.clocks.size(); k++) w.apply(Op("clockattach", {c.clocks[k], 0, -1}));
			for (int k : c.clocks) if (k < NCLOCK) group(k, k);
		});
		probe("context_renewed"); return true;
	}
	if (kind == 1) {
		if (i >= NTRACK || !w.track[i] || w.bare[i]) return false;
		bool att = m.T[i].ctx >= 0;
		if (att) { auto & l = m.G[NCLOCK + 1].list; for (auto it = std::find(l.begin(), l.end(), NDIV + i); it != l.end(); ++it) if (*it < NDIV) return false; }   // the order would change
		keepFires(w, [&] { newTrack(w, m, i); if (att) w.apply(Op("attach", {i, 0})); });
		probe("track_renewed"); return true;
	}
	if (kind == 2) {   // cleared: everything switched off by hand
		if (i >= NTRACK || !w.track[i] || w.bare[i]) return false;
		if (m.T[i].tfrac || m.T[i].cbRet.size() || (w.get(i, BK_PHASE_WRAP) && w.get(i, BK_WAVEFORM) == BK_NOISE)) return false;   // cannot be set back by hand; would be reported
		w.apply(Op("attr", {i, A_NOTE, -2}));
		if (w.get(i, BK_WAVEFORM) == BK_CUSTOM) w.apply(Op("wave", {i, -1}));
		w.apply(Op("samp", {i, -1})); w.apply(Op("setinstr", {i, -1})); w.apply(Op("arp", {i}));
		for (int e = 0; e < 5; e++) w.apply(Op("eff", {i, e, 0}));
		for (int a : {A_ARPDIV, A_INSTRDIV}) w.apply(Op("attr", {i, a, 4}));
		w.apply(Op("attr", {i, A_EFFDIV, 1})); for (int a : {A_REPEAT, A_IMMED}) w.apply(Op("attr", {i, a, 0}));
		for (int a : {A_PANNING, A_PITCH, A_SPITCH}) w.apply(Op("attr", {i, a, 0}));
		w.apply(Op("attr", {i, A_VOLUME, 32767})); w.apply(Op("attr", {i, A_DUTY, m.T[i].dutyCycle})); w.apply(Op("attr", {i, A_NOTE, 0})); w.apply(Op("attr", {i, A_NOTE, -2})); w.apply(Op("attr", {i, A_MUTE, 1}));
		{ int wave = waveIndex((BKEnum)w.get(i, BK_WAVEFORM)); int wrap = w.get(i, BK_PHASE_WRAP); if (wrap) { int ph = w.get(i, BK_PHASE); w.apply(Op("attr", {i, A_WRAP, 0})); w.apply(Op("attr", {i, A_PHASE, ph})); } }
		probe("track_cleared"); return true;
	}
	if (kind == 3) {
		if (i >= NCLOCK || !w.clock[i]) return false;
		int before = -1; bool att = m.K[i].ctx == 0;
		if (att) { auto & l = m.C[0].clocks; auto it = std::find(l.begin(), l.end(), i) + 1; if (it != l.end()) { if (*it >= NCLOCK) { if (it - l.begin() != 1) return false; before = -2; } else before = *it; } }
		keepFires(w, [&] { std::vector<int> l = m.G[i].list; newClock(w, m, i); if (att) w.apply(Op("clockattach", {i, 0, before})); group(i, i); });
		probe("clock_renewed"); return true;
	}
	if (kind == 4) {
		if (i >= NDIV || !w.divi[i]) return false;
		int g = m.V[i].group; if (g >= 0 && m.G[g].list.back() != i) return false;
		keepFires(w, [&] { newDiv(w, m, i); if (g >= 0) w.apply(Op("divattach", {i, g < NCLOCK ? g : g == NCLOCK ? -2 : -1, 0})); });
		probe("divider_renewed"); return true;
	}
	return false;
}
static std::vector<Event> chan(const World & w, size_t from, char kind, int slot) { std::vector<Event> v; for (size_t i = from; i < w.events.size(); i++) { auto & e = w.events[i]; bool s = e.kind == 's' || e.kind == 'b'; if (kind == 's' ? s && e.slot == slot : !s) v.push_back(e); } return v; }
static void cmpEv(const char * cls, const World & a, const World & b, size_t fa, size_t fb) {
	for (int ch = -1; ch < NTRACK; ch++) {
		auto x = chan(a, fa, ch < 0 ? 'k' : 's', ch), y = chan(b, fb, ch < 0 ? 'k' : 's', ch);
		for (size_t i = 0; i < std::min(x.size(), y.size()); i++) if (!(x[i] == y[i])) violate(cls, "callback %zu after the reset is %s, with new objects %s", i, evStr(x[i]).c_str(), evStr(y[i]).c_str());
		if (x.size() != y.size()) violate(cls, "%zu callbacks after the reset, with new objects %zu", x.size(), y.size());
	}
}
static bool cleanName(const World & w, const std::string & n) { if (n.compare(0, 6, "track ") == 0 && w.bare[n[6] - '0']) return true; return n.find(" PERIOD") == std::string::npos && n.find("SAMPLE_PERIOD") == std::string::npos && n.find("VOLUME_0") == std::string::npos && n.find("VOLUME_1") == std::string::npos && n.find("VOLUME_2") == std::string::npos && n.find("VOLUME_7") == std::string::npos; }
static void exec(const Scenario & sc) {
	static const char * kName[] = {"context reset", "track reset", "track clear", "clock reset", "divider reset"};
	World a, b; Model m; m.audio = false; size_t fa = 0, fb = 0; bool armed = false; std::string cls = "before"; int kind = -1, which = -1;
	size_t oa = 0, ob = 0; bool anyClear = false;
	auto compare = [&](const std::string & at) {
		cmpEv(cls.c_str(), a, b, fa, fb);
		auto & x = a.out[0]; auto & y = b.out[0];
		for (size_t i = 0; oa + i < x.size() && ob + i < y.size(); i++) if (x[oa + i] != y[ob + i]) violate(cls.c_str(), "%s: sample %zu after the %s is %d, with new objects %d", at.c_str(), i, kName[kind], x[oa + i], y[ob + i]);
		if (x.size() - oa != y.size() - ob) violate(cls.c_str(), "%s: different number of frames", at.c_str());
		std::vector<i64> p = snapWorld(a), q = snapWorld(b);
		for (size_t i = 0; i < p.size(); i++) if (p[i] != q[i]) { std::string n = snapName(i); if (!cleanName(a, n) || (anyClear && n.find(" range") != std::string::npos)) continue; violate(cls.c_str(), "%s: after the %s %s is %lld, with new objects %lld", at.c_str(), kName[kind], n.c_str(), (long long)p[i], (long long)q[i]); }
	};
	size_t step = 0; int renewed = 0;
	for (auto & o : sc.ops) {
		step++; std::string at = "op " + std::to_string(step) + " (" + o.str().substr(0, 50) + ")";
		budgetSet(2000000000ull);
		if (is(o, "unread")) {
			if (!a.ctx[0] || o.at(1) < 1 || o.at(1) > 900) continue;
			// generated but not read: gone with the reset. The other world has read it.
			bool next = step < sc.ops.size() && is(sc.ops[step], "reset") && sc.ops[step].at(0) == 0; if (!next) continue;
			a.curGen = 0; BKContextEnd(a.ctx[0], (BKFUInt20)(o.at(1) << 20)); a.curGen = -1; b.apply(Op("gen", {0, o.at(1)})); m.apply(Op("gen", {0, o.at(1)})); checkPending(); probe("unread_frames_at_reset");
			continue;
		}
		if (is(o, "reset")) {
			if (armed && (a.events.size() - fa != b.events.size() - fb)) violate(cls.c_str(), "different number of callbacks");
			kind = (int)o.at(0); which = (int)o.at(1); if (kind < 0 || kind > 4 || which < 0) continue;
			if (!renew(b, m, kind, which)) { kind = -1; armed = false; // both reset in the same way: nothing to compare
				return; }
			Op x = kind == 0 ? Op("ctxreset", {0}) : kind == 1 ? Op("treset", {which}) : kind == 2 ? Op("tclear", {which}) : kind == 3 ? Op("clockreset", {which}) : Op("divreset", {which});
			a.apply(x); m.apply(x); checkPending();
			if (kind == 2) anyClear = true;
			fa = a.events.size(); fb = b.events.size(); oa = a.out[0].size(); ob = b.out[0].size();
			armed = true; renewed++; cls = kind == 0 ? "context-reset" : kind == 1 ? "track-reset" : kind == 2 ? "track-clear" : kind == 3 ? "clock-reset" : "divider-reset";
			if (kind != 2) compare(at);
			continue;
		}
		int x = a.apply(o), y = b.apply(o); m.apply(o); checkPending();
		if (x != y) violate(cls.c_str(), "%s: result %d, with new objects %d", at.c_str(), x, y);
		if (armed && is(o, "gen") && x != SKIP) { compare(at); R.states.insert(abstractState(a)); }
	}
	for (size_t i = oa; i < a.out[0].size(); i++) if (a.out[0][i]) { R.nontrivial = renewed > 0; break; }
	logHash(a.out[0].data(), a.out[0].size() * 2);
	a.destroyAll(); b.destroyAll();
	if (allocLive()) violate("leak", "%s left after all objects were disposed", allocDescribe().c_str());
}
static PropReg reg(Prop{"C12", gen, exec,
	"one case = one random history, a reset of the context, a track, a clock or a divider or a clear of a track, and one random continuation; the other world continues with newly created objects of the same persistent settings (cleared tracks: everything switched off by hand); sound, callbacks and attributes of the continuations are compared; non-trivial when the continuation sounds; distinct by event-log hash"});
