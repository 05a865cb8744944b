// C14: every request to render completes in proportion to its length, silenced voices fall silent, a held note keeps sounding.
#include "common.h"
#include <climits>
#include <cmath>

static bool is(const Op & o, const char * n) { return o.n == n; }
static i64 clampI(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
static const i64 MAXVIB = (i64)96 << 20;

struct Lab {
	World w;
	i64 minPer[NCTX], maxPer[NCTX];          // periods of the master clock so far
	i64 minClk = INT64_MAX;                  // of the other clocks
	i64 maxInstrDiv[NTRACK], maxEffDiv[NTRACK], seqSteps = 1, acts = 0;
	u64 worst = 0;
	static i64 defPeriod(u32 rate) { return ((i64)rate << 20) / 240 + 2; }
	Lab() { for (int c = 0; c < NCTX; c++) minPer[c] = INT64_MAX, maxPer[c] = 0; for (int t = 0; t < NTRACK; t++) maxInstrDiv[t] = maxEffDiv[t] = 4; }
	void note(const Op & o) {
		if (is(o, "ctxperiod")) { i64 c = o.at(0); if (c >= 0 && c < NCTX && o.at(1) > 0) { if (o.at(1) < minPer[c]) minPer[c] = o.at(1); if (o.at(1) > maxPer[c]) maxPer[c] = o.at(1); } }
		if ((is(o, "clock") || is(o, "clockperiod")) && o.at(1) > 0 && o.at(1) < minClk) minClk = o.at(1);
		if (is(o, "attr") && o.at(0) >= 0 && o.at(0) < NTRACK) { i64 & d = o.at(1) == A_INSTRDIV ? maxInstrDiv[o.at(0)] : maxEffDiv[o.at(0)]; if ((o.at(1) == A_INSTRDIV || o.at(1) == A_EFFDIV) && (BKInt)o.at(2) > d) d = (BKInt)o.at(2); }
		i64 s = 0;
		if (is(o, "seq")) s = (i64)o.a.size();
		if (is(o, "env")) for (size_t k = 4; k + 1 < o.a.size(); k += 2) s += (i64)(u32)o.a[k] + 1;
		if (is(o, "adsr")) s = (i64)(u32)o.at(1) + (i64)(u32)o.at(2) + (i64)(u32)o.at(4) + 4;
		if (s > seqSteps) seqSteps = s;
	}
	void noteCtx(int c) { if (w.ctx[c]) { i64 p = defPeriod(w.rate[c]); if (p < minPer[c]) minPer[c] = p; if (p > maxPer[c]) maxPer[c] = p; } }
	// library basic blocks allowed for n frames of context c
	u64 allowance(int c, i64 n) {
		n += maxPer[c] / (1 << 20) + 1;      // voices run ahead to the end of the tick
		i64 u = 1, d = 1, k = 1; for (int t = 0; t < NTRACK; t++) u += w.track[t] != nullptr; for (int v = 0; v < NDIV; v++) d += w.divi[v] != nullptr;
		for (int i = 0; i < NCLOCK; i++) k += w.clock[i] != nullptr;
		double ticks = (double)n * (1 << 20) / (double)minPer[c] + 4; if (minClk != INT64_MAX) ticks += (k - 1) * ((double)n * (1 << 20) / (double)minClk + 4);
		ticks += (double)acts * 4;
		double voice = 0; for (int t = 0; t < NTRACK; t++) if (w.track[t] && w.trackCtx[t] == c) voice += 1;
		double steps = (double)n * 256 + ticks;              // the shortest period of a sample is 1/256 frame
		double v = voice * steps * 60 * (w.nch[c] + 1) + ticks * ((double)u * 400 + d * 100 + k * 50) + (double)n * w.nch[c] * 40 + 20000;
		return v > 1.5e9 ? (u64)3000000000ull : (u64)(v * 2);
	}
	i64 request(const char * what, int c, i64 n, std::function<i64()> f) {
		noteCtx(c); u64 al = allowance(c, n);
		budgetSet(al);
		i64 r = f();
		u64 used = budgetUsed(); u64 pm = used * 1000 / al; if (pm > worst) worst = pm;
		budgetSet(2000000000ull);
		checkPending();
		LOG("%s c%d n=%lld -> %lld", what, c, (long long)n, (long long)r);
		return r;
	}
	i64 gen(int c, i64 n) {
		i64 r = request("gen", c, n, [&]() { return (i64)w.apply(Op("gen", {c, n})); });
		if (r != SKIP && r != n) violate("frames", "%lld frames requested, %lld delivered", (long long)n, (long long)r);
		return r;
	}
	// frames rendered now, per channel
	std::vector<BKFrame> take(int c, i64 n) { size_t at = w.out[c].size(); gen(c, n); std::vector<BKFrame> v(w.out[c].begin() + (long)at, w.out[c].end()); w.out[c].resize(at); logHash(v.data(), v.size() * 2); return v; }
};

static BKInt onWrite(BKFrame in[], BKUInt n, void * info) { auto * p = (std::pair<World *, int> *)info; (void)in; simFrames(n, p->first->rate[p->second]); p->second += 0; return 0; }

// every attached track of context c is silenced in its own way; returns the frames after which none may be heard
static void dropFrames(Lab & l, int c, i64 n, Rng & r);
static i64 silence(Lab & l, int c, Rng & r, int except = -1) {
	World & w = l.w; i64 wait = 0;
	w.actsOff = true;
	i64 tick = l.maxPer[c] / (1 << 20) + 2;
	for (int t = 0; t < NTRACK; t++) {
		if (t == except || !w.track[t] || w.trackCtx[t] != c) continue;
		int mode = (int)r.range(0, 10); i64 need = 2 * tick;
		if (mode == 7 && (i64)w.get(t, BK_EFFECT_DIVIDER) == 0x7fffffff) mode = 0;
		std::string how;
		auto call = [&](const Op & o) { w.apply(o); how += o.str() + "; "; };
		if (mode == 7) {   // fade out
			i64 n = r.range(0, 30); need = (n + 2) * l.maxEffDiv[t] * tick;
			if (need > 40000) mode = 0; else { call(Op("attr", {t, A_TRIIGN, 0})); call(Op("eff", {t, 0, 1, n, 0, 0})); call(Op("attr", {t, A_VOLUME, 0})); }
		}
		void * in = nullptr; BKGetPtr(w.track[t], BK_INSTRUMENT, &in, sizeof in);
		BKInt wave = 0; BKGetAttr(w.track[t], BK_WAVEFORM, &wave);
		if (in && mode < 7 && r.chance(50)) mode = 8;
		if ((BKEnum)wave == BK_SAMPLE && !in && r.chance(50)) {   // release out of the sustain range; the rest is played
			BKInt frames = 0; BKGetAttr(w.track[t], BK_NUM_PHASES, &frames);
			need = (i64)frames * 4 + 3 * tick; mode = 0;
			if (need <= 40000) {
				mode = 11;
				for (auto & o : std::vector<Op>{Op("eff", {t, 2, 0, 0, 0, 0}), Op("eff", {t, 4, 0, 0, 0, 0}), Op("arp", {t}), Op("attr", {t, A_PITCH, 0}), Op("attr", {t, A_SPITCH, 0}), Op("scb", {t}), Op("attr", {t, A_REPEAT, 0}), Op("attr", {t, A_WRAP, 0}), Op("attr", {t, A_NOTE, (i64)48 << 20})}) call(o);
				if (r.chance(70)) call(Op("sustain", {t, 0, r.range(0, frames), r.range(0, frames)}));
				if (r.chance(60)) dropFrames(l, c, r.size(1, 800), r);
				call(Op("attr", {t, A_NOTE, -1})); probe("hush_release_sample");
			}
		}
		if (mode >= 8 && mode < 11) {   // release
			need = in ? (l.seqSteps + 3) * l.maxInstrDiv[t] * tick : 2 * tick;
			if (need > 40000 || l.seqSteps > 40000) mode = 0;
			else {
				if ((BKEnum)wave == BK_SAMPLE || (BKEnum)wave == BK_CUSTOM) { call(Op("sustain", {t, 1, 0, 0})); }   // a sustained sample may play on after its release
				if (w.get(t, BK_NOTE) < 0) call(Op("attr", {t, A_NOTE, r.range(0, 96) << 20}));   // unmuted by hand without a note
				if (r.chance(30)) dropFrames(l, c, r.size(1, 800), r);
				if (w.get(t, BK_NOTE) >= 0) call(Op("attr", {t, A_NOTE, -1})); else call(Op("attr", {t, A_NOTE, -2}));
				probe(in ? "hush_release_instrument" : "hush_release");
			}
		}
		switch (mode) {
			case 0: call(Op("attr", {t, A_NOTE, -2})); need = 0; break;
			case 1: call(Op("attr", {t, A_MUTE, 1})); need = 0; break;
			case 2: call(Op("detach", {t})); need = 0; break;
			case 3: call(Op("trackdel", {t})); need = 0; break;
			case 4: call(Op("attr", {t, A_MASTER, 0})); call(Op("attr", {t, A_TRIIGN, 0})); break;
			case 5: call(Op("treset", {t})); need = 0; break;
			case 6: call(Op("tclear", {t})); need = 0; break;
		}
		LOG("silence t%d mode %d need %lld: %s", t, mode, (long long)need, how.c_str());
		probe("silenced");
		if (need > wait) wait = need;
	}
	return wait;
}
static void dropFrames(Lab & l, int c, i64 n, Rng & r) { while (n > 0) { i64 k = r.size(1, 6000); if (k > n) k = n; l.take(c, k); n -= k; } }
static void hush(Lab & l, int c, u64 seed) {
	Rng r(seed);
	if (c < 0 || c >= NCTX || !l.w.ctx[c]) return;
	bool reset = r.chance(5);
	i64 wait = silence(l, c, r);
	if (reset) { l.w.apply(Op("ctxreset", {c})); wait = 0; }
	dropFrames(l, c, wait, r);
	// a note that has been released, with every sequence at its end, is muted
	dropFrames(l, c, 16000, r);
	i64 check = r.range(200, 3000), done = 0;
	while (done < check) {
		i64 k = r.size(1, 1500); std::vector<BKFrame> v = l.take(c, k);
		for (size_t i = 0; i < v.size(); i++) if (v[i]) violate("not-silent", "frame %zu of channel %zu is %d although every voice was silenced %lld frames ago", i / l.w.nch[c], i % l.w.nch[c], v[i], (long long)(wait + 16000 + done) + (i64)i / l.w.nch[c]);
		done += k;
	}
	probe(l.w.anyTrack(c) ? "silent_with_tracks" : "silent_without_tracks");
	l.w.actsOff = false;
}
static void hold(Lab & l, int c, int t, u64 seed) {
	Rng r(seed); World & w = l.w;
	if (c < 0 || c >= NCTX || !w.ctx[c] || t < 0 || t >= NTRACK || !w.track[t] || w.trackCtx[t] != c) return;
	i64 wait = silence(l, c, r, t);
	dropFrames(l, c, wait + 16000, r);
	int wave = (int)r.range(1, 5), note = (int)r.range(wave == 3 ? 48 : 12, 84);
	std::vector<Op> ops = { Op("setinstr", {t, -1}), Op("eff", {t, 3, 0, 0, 0, 0}), Op("eff", {t, 4, 0, 0, 0, 0}), Op("eff", {t, 0, 0, 0, 0, 0}), Op("eff", {t, 1, 0, 0, 0, 0}), Op("eff", {t, 2, 0, 0, 0, 0}),
		Op("arp", {t}), Op("attr", {t, A_PITCH, 0}), Op("attr", {t, A_MUTE, 0}), Op("attr", {t, A_WAVE, wave}), Op("attr", {t, A_WRAP, 0}), Op("attr", {t, A_DUTY, r.range(2, 14)}),
		Op("attr", {t, A_PANNING, r.range(-8000, 8000)}), Op("attr", {t, A_VOLUME, r.range(16000, 32767)}), Op("attr", {t, A_MASTER, r.range(10000, 20000)}) };
	for (size_t i = ops.size() - 1; i > 0; i--) { size_t j = (size_t)r.range(0, (i64)i); if (r.chance(60)) std::swap(ops[i], ops[j]); }
	ops.push_back(Op("attr", {t, A_NOTE, (i64)note << 20}));
	for (auto & o : ops) { if (w.apply(o) != 0) violate("rejected", "%s was rejected", o.str().c_str()); if (r.chance(10)) dropFrames(l, c, r.size(1, 500), r); }
	i64 tick = l.maxPer[c] / (1 << 20) + 2;
	if (tick > 20000) { w.actsOff = false; return; }
	dropFrames(l, c, 2 * tick + 8000, r);           // whatever was pending is done, former levels have been filtered out
	double freq = 440.0 * std::pow(2.0, (note - 57) / 12.0);
	i64 period = (i64)(w.rate[c] / freq) + 1, win = wave == 3 ? 40 * period : 3 * period + 8;
	if (win < 64) win = 64;
	for (int k = 0; k < 4; k++) {
		std::vector<BKFrame> v; while ((i64)v.size() < win * w.nch[c]) { std::vector<BKFrame> x = l.take(c, r.size(1, win)); v.insert(v.end(), x.begin(), x.end()); }
		for (int ch = 0; ch < (w.nch[c] < 2 ? 1 : 2); ch++) {
			BKFrame lo = 32767, hi = -32768; for (size_t i = (size_t)ch; i < v.size(); i += (size_t)w.nch[c]) { if (v[i] < lo) lo = v[i]; if (v[i] > hi) hi = v[i]; }
			if (hi - lo < 40) violate("died-away", "note %d of waveform %d is held with volume %d, but %lld frames of channel %d lie between %d and %d", note, wave, w.get(t, BK_VOLUME), (long long)v.size() / w.nch[c], ch, lo, hi);
		}
	}
	probe("held"); R.nontrivial = true;
	w.actsOff = false;
}
static void toTime(Lab & l, int c, i64 d) {
	World & w = l.w;
	if (c < 0 || c >= NCTX || !w.ctx[c]) return;
	i64 now = w.time(c), n = d > 0 ? d / (1 << 20) + 1 : 1;
	std::pair<World *, int> info(&w, c);
	l.noteCtx(c);
	n += l.maxPer[c] / (1 << 20) + 1;              // at least one whole tick is rendered
	w.curGen = c;
	i64 r = l.request("totime", c, n, [&]() { return (i64)BKContextGenerateToTime(w.ctx[c], (BKTime)(now + d), onWrite, &info); });
	w.curGen = -1;
	if (r < 0) violate("frames", "BKContextGenerateToTime reports %lld", (long long)r);
	if (w.time(c) < now) violate("time", "time went backwards from %lld to %lld", (long long)now, (long long)w.time(c));
	if (w.time(c) < now + d) violate("time", "rendered to time %lld although %lld was requested", (long long)w.time(c), (long long)(now + d));
	probe(d > 0 ? "to_time" : "to_past_time");
}
static void endRead(Lab & l, int c, i64 part, i64 more) {
	World & w = l.w;
	if (c < 0 || c >= NCTX || !w.ctx[c] || part <= 0) return;
	part = clampI(part, 1, (i64)1024 << 20);
	std::vector<BKFrame> b((size_t)(2200 * w.nch[c]));
	w.curGen = c;
	i64 r = l.request("end", c, part / (1 << 20) + 1, [&]() { return (i64)BKContextEnd(w.ctx[c], (BKFUInt20)part); });
	w.curGen = -1;
	if (r < 0) violate("frames", "BKContextEnd reports %lld", (long long)r);
	i64 have = BKContextSize(w.ctx[c]);
	if (have < part / (1 << 20) || have > part / (1 << 20) + 1) violate("frames", "%lld frames ready after a span of %lld/2^20", (long long)have, (long long)part);
	i64 got = l.request("read", c, 2200, [&]() { return (i64)BKContextRead(w.ctx[c], b.data(), (BKUInt)(have + more)); });
	if (got != have) violate("frames", "%lld frames ready, %lld read", (long long)have, (long long)got);
	simFrames((u64)got, w.rate[c]);
	probe("end_read");
}

static void exec(const Scenario & sc) {
	Lab l; World & w = l.w;
	for (auto & o : sc.ops) { if (o.n.compare(0, 3, "at:") == 0 || o.n.compare(0, 3, "kt:") == 0) { l.acts++; l.note(Op(o.n.substr(3), std::vector<i64>(o.a.begin() + 2, o.a.end()))); } }
	for (auto & o : sc.ops) {
		budgetSet(2000000000ull);
		if (is(o, "hush")) { for (int c = 0; c < NCTX; c++) if (w.ctx[c]) l.noteCtx(c); hush(l, (int)o.at(0), (u64)o.at(1)); R.nontrivial = true; }
		else if (is(o, "hold")) { for (int c = 0; c < NCTX; c++) if (w.ctx[c]) l.noteCtx(c); hold(l, (int)o.at(0), (int)o.at(1), (u64)o.at(2)); }
		else if (is(o, "totime")) toTime(l, (int)o.at(0), o.at(1));
		else if (is(o, "endread")) endRead(l, (int)o.at(0), o.at(1), o.at(2));
		else if (is(o, "gen")) { int c = (int)o.at(0); if (c < 0 || c >= NCTX || !w.ctx[c]) continue; R.states.insert(abstractState(w)); l.noteCtx(c); l.gen(c, o.at(1)); }
		else { l.note(o); w.apply(o); if (is(o, "track") && o.at(0) >= 0 && o.at(0) < NTRACK) {} }
		checkPending();
	}
	budgetSet(2000000000ull);
	probe(l.worst > 500 ? "work_above_50_percent_of_allowance" : l.worst > 200 ? "work_above_20_percent_of_allowance" : l.worst > 100 ? "work_above_10_percent_of_allowance" : l.worst > 50 ? "work_above_5_percent_of_allowance" : "work_below_5_percent_of_allowance");
	if (R.trace) printf("worst use of the allowance: %llu/1000\n", (unsigned long long)l.worst);
	for (int c = 0; c < NCTX; c++) logHash(w.out[c].data(), w.out[c].size() * 2);
	w.destroyAll();
}

// ---------------------------------------------------------------- scripts
static i64 extreme(Rng & r) { return r.chance(30) ? r.range(-40, 40) : r.pick({(i64)0, (i64)1, (i64)-1, (i64)-2, (i64)2, (i64)15, (i64)16, (i64)32767, (i64)32768, (i64)-32767, (i64)65535, (i64)65536, (i64)1 << 20, (i64)95 << 20, (i64)96 << 20, (i64)97 << 20, -((i64)96 << 20), (i64)INT_MAX, (i64)INT_MIN, (i64)INT_MIN + 1}); }
static bool extra(Op & o, Rng & r, const GenCfg & c, bool bigDiv) {
	i64 t = r.range(0, c.ntrack - 1), d = r.range(0, c.ndata - 1);
	switch (r.range(0, 9)) {
		case 0: case 1: case 2: { i64 k = r.range(0, A_COUNT - 1); if (!bigDiv && (k == A_ARPDIV || k == A_EFFDIV || k == A_INSTRDIV)) return false; o = Op("attr", {t, k, k == A_WAVE ? r.range(0, 5) : extreme(r)}); return true; }
		case 3: { i64 e = r.range(0, 4); o = Op("eff", {t, e, r.range(0, 3), extreme(r), e == 4 && r.chance(50) ? r.pick({MAXVIB, -MAXVIB, (i64)1, (i64)12 << 20}) : extreme(r), extreme(r)}); return true; }
		case 4: { std::vector<i64> a = {t}; int n = (int)r.range(0, 9); while (n--) a.push_back(r.chance(50) ? r.range(-96, 96) << 20 : r.range(-12, 12) << 20); o = Op("arp", a); return true; }
		case 5: o = Op(r.chance(50) ? "range" : "sustain", {t, r.chance(10), extreme(r), extreme(r)}); return true;
		case 6: o = r.chance(50) ? Op("datapitch", {d, extreme(r)}) : Op("samp", {t, d}); return true;
		case 7: o = Op("attr", {t, A_NOTE, r.pick({(i64)0, (i64)96 << 20, (i64)95 << 20, (i64)84 << 20})}); return true;
		case 8: o = Op("attr", {t, (i64)r.pick({(int)A_PITCH, (int)A_SPITCH}), r.pick({(i64)96 << 20, -((i64)96 << 20), (i64)48 << 20})}); return true;
		default: { i64 i = r.range(0, c.ninstr - 1); if (r.chance(50)) o = Op("env", {i, r.range(0, 3), r.range(0, 4), r.range(0, 4), r.pick({(i64)0, (i64)1, (i64)100000}), extreme(r), r.range(0, 2), extreme(r), 0, extreme(r)}); else o = Op("seq", {i, r.range(0, 3), r.range(0, 4), r.range(0, 4), extreme(r), extreme(r), extreme(r)}); return true; }
	}
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	GenCfg c; c.nctx = r.chance(85) ? 1 : 2; c.ntrack = (int)r.range(1, 4); c.ndiv = (int)r.range(0, 3); c.nclock = (int)r.range(0, 2); c.ndata = 3; c.ninstr = 2;
	c.maxGen = r.pick({50, 300, 1500}); c.samples = r.chance(60); c.instruments = r.chance(60); c.effects = r.chance(70); c.resets = r.chance(20);
	c.ops = (int)r.range(2, thorough ? 50 : 25);
	Gen g(sc, r, c); g.setup();
	bool bigDiv = r.chance(15), wild = r.chance(70);
	if (wild) for (int v = 0; v < c.ndiv; v++) if (g.divi[v]) { int n = (int)r.range(0, 4); while (n--) { Op o; if (!extra(o, r, c, bigDiv)) continue; std::vector<i64> a = {v, r.size(1, 30)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("at:" + o.n, a); } }
	size_t from = sc.ops.size();
	g.body();
	auto put = [&](const Op & o) { sc.ops.insert(sc.ops.begin() + (long)(from + (size_t)r.range(0, (i64)(sc.ops.size() - from))), o); };
	if (wild) { int n = (int)r.range(1, thorough ? 40 : 20); while (n--) { Op o; if (extra(o, r, c, bigDiv)) put(o); } }
	if (c.samples && r.chance(30)) put(Op("dataframes", {r.range(0, 2), r.range(1, 3), 1, r.range(1, 1 << 20), 1}));
	int n = (int)r.range(0, 3); while (n--) put(r.chance(50) ? Op("totime", {r.range(0, c.nctx - 1), r.pick({(i64)0, (i64)-1, -((i64)1 << 40), r.range(1, (i64)1 << 20), r.range(1, (i64)600 << 20)})}) : Op("endread", {r.range(0, c.nctx - 1), r.chance(30) ? r.range(1, 3 << 20) : r.range(1, (i64)1024 << 20), r.range(0, 20)}));
	bool tiny = r.chance(8);
	if (tiny) {   // very short ticks
		i64 at = (i64)sc.ops.size(); (void)at;
		sc.add("ctxperiod", {0, (i64)1 << r.range(10, 20)}); int k = (int)r.range(1, 3); while (k--) { sc.add("gen", {0, r.range(1, 12)}); Op o; if (extra(o, r, c, bigDiv)) sc.ops.push_back(o); }
		return;
	}
	if (r.chance(20)) sc.add("ctxperiod", {0, r.pick({(i64)1 << 20, (i64)3 << 20, (i64)40 << 20, (i64)1 << 34})});
	for (int k = (int)r.range(1, 2); k--; ) {
		if (r.chance(60)) sc.add("hush", {r.range(0, c.nctx - 1), r.range(1, 1 << 30)});
		else sc.add("hold", {r.range(0, c.nctx - 1), r.range(0, c.ntrack - 1), r.range(1, 1 << 30)});
		if (r.chance(40)) { Op o; int t = g.liveTrack(); if (t >= 0 && g.trackOp(o, t)) sc.ops.push_back(o); sc.add("gen", {0, r.size(1, 1000)}); }
	}
}
static PropReg reg(Prop{"C14", gen, exec,
	"one case = one random history with values at and beyond every limit; each render request has a budget of library basic blocks proportional to its length, then every voice is silenced in a randomly chosen way and the output must be exactly zero after a bounded time, or a note is held and must be heard in every window of a few periods; non-trivial when a silence or a held note was checked; distinct by event-log hash"});
