#include "model.h"
#include "common.h"
#include "kernels.inc"
#include <algorithm>
#include <cmath>
#pragma clang diagnostic ignored "-Wdeprecated-declarations"

enum { MUTE = 0, ATTACK = 1, RELEASE = 2, NONE = 0, STEP = 1, REPEAT = 2, FINISH = 4 };
static const i64 OFF_END = 0x7fffffff;
static const i64 F = (i64)1 << 20;
static i64 clamp(i64 v, i64 a, i64 b) { return v < a ? a : v > b ? b : v; }
static int w32(i64 v) { return (int)(u32)(u64)v; }
static int shl(int v, int s) { return w32((i64)v * ((i64)1 << s)); }

// ---------------------------------------------------------------- slides
void MSlide::set(int e, i64 n) {
	n = clamp(n, 0, 1 << 23);
	if (n) { int x = shl(e, shift); delta = w32((i64)w32((i64)x - value) / n); end = x; steps = step = (int)n; bias = shift ? 1 << (shift - 1) : 0; }
	else { value = end = shl(e, shift); steps = step = delta = 0; }
}
void MSlide::halt(bool toEnd) { step = 0; if (toEnd) value = end; }
void MSlide::tick() { if (step > 0) { value = w32((i64)value + delta); if (--step <= 0) value = end; } }
int MSlide::get() const { return w32((i64)value + bias) >> shift; }
int MInterval::get() const { return w32((i64)value + bias) >> shift; }
void MInterval::set(int d, i64 n) {
	n = clamp(n, 0, 1 << 23);
	if (!n) { delta = steps = value = sdelta = phase = step = 0; return; }
	d = shl(d, shift);
	if (n == steps && d == delta) return;
	int s = 0;
	if (steps) { s = w32((i64)shl(step, 8) + 128); int fr = s / steps; s = w32((i64)fr * n) >> 8; }
	int sd = d / (int)n, v = 0;
	if (phase == 0) v = w32((i64)sd * s);
	else if (phase == 1) { v = w32((i64)sd * (n - s)); sd = -sd; }
	else if (phase == 2) { v = w32((i64)-sd * s); sd = -sd; }
	else v = w32((i64)-sd * (n - s));
	delta = d; steps = (int)n; value = v; sdelta = sd; bias = shift ? 1 << (shift - 1) : 0; step = s;
}
void MInterval::tick() {
	if (!steps) return;
	if (step < steps - 1) { value = w32((i64)value + sdelta); step++; return; }
	phase = (phase + 1) & 3;
	if (phase == 0 || phase == 2) value = 0;
	else { value = phase == 1 ? delta : -delta; sdelta = -sdelta; }
	step = 0;
}

// ---------------------------------------------------------------- pitch tables
static u32 toneTab(int i) { return (u32)std::floor(524288.0 / (440.0 * std::pow(2.0, (i - 57) / 12.0))); }
static u32 log2Tab(int i) { return (u32)std::floor(1048576.0 * std::pow(2.0, (i - 48) / 12.0) + 1e-6); }
struct Tabs { u32 tone[97], lg[97]; Tabs() { for (int i = 0; i <= 96; i++) { tone[i] = toneTab(i); lg[i] = log2Tab(i); } } };
static const Tabs tabs;
static u32 toneLookup(i64 note, u32 rate) {
	i64 n = clamp(note, 0, 96 * F); u32 fr = (u32)(n % F) >> 4; int k = (int)(n / F);
	u32 p = tabs.tone[k] * (65536 - fr) + tabs.tone[k < 96 ? k + 1 : 96] * fr;
	return ((p >> 18) * rate) << 2;
}
static u32 log2Lookup(i64 note) {
	i64 n = clamp(note, 0, 96 * F); u32 fr = (u32)(n % F) >> 12; int k = (int)(n / F);
	u32 p = (tabs.lg[k] >> 2) * (256 - fr) + (tabs.lg[k < 96 ? k + 1 : 96] >> 2) * fr;
	return p >> 6;
}
static int squareAt(int duty, u32 ph) {
	static const struct { int on, off, neg; } s[17] = {{1,2,0},{1,2,0},{2,4,0},{2,5,0},{3,7,0},{3,8,0},{4,10,0},{4,11,0},{5,13,0},{6,15,1},{5,15,1},{4,15,1},{3,15,1},{2,15,1},{1,15,1},{0,15,1},{0,15,1}};
	return (int)ph >= s[duty].on && (int)ph < s[duty].off ? (s[duty].neg ? -32767 : 32767) : 0;
}
static const int kTri[32] = {0,2047,4095,6143,8191,10239,12287,14335,14335,12287,10239,8191,6143,4095,2047,0,-2047,-4095,-6143,-8191,-10239,-12287,-14335,-16383,-16383,-14335,-12287,-10239,-8191,-6143,-4095,-2047};
static const int kSine[9] = {0,6392,12539,18204,23169,27244,30272,32137,32767};
static int sineAt(u32 p) { int q = (int)(p & 15), v = kSine[q <= 8 ? q : 16 - q]; return (p & 16 ? -v : v) / 2; }

// ---------------------------------------------------------------- time, clocks, dividers
void Model::clockReset(int k) {
	MClock & c = K[k];
	c.own = c.next = 0;
	if (c.ctx >= 0) { C[c.ctx].resetFlag = true; c.next = C[c.ctx].now; }
	if (k < NCLOCK) for (int v : G[k].list) V[v].counter = 0;
}
int Model::clockAttach(int k, int c, int before) {   // before: -1 last, -2 first, clock
	if (K[k].ctx >= 0) return BK_INVALID_STATE;
	auto & L = C[c].clocks; auto it = L.end();
	if (before == -2) it = L.begin();
	else if (before >= 0) { if (K[before].ctx != c) return BK_INVALID_VALUE; it = std::find(L.begin(), L.end(), before); }
	K[k].ctx = c; L.insert(it, k); clockReset(k);
	return 0;
}
void Model::clockDetach(int k) {
	int c = K[k].ctx; if (c < 0) return;
	auto & L = C[c].clocks; L.erase(std::find(L.begin(), L.end(), k));
	K[k].ctx = -1; clockReset(k);
}
int Model::divAttach(int v, int g) {
	if (V[v].group >= 0) return BK_INVALID_STATE;
	V[v].group = g; G[g].list.push_back(v); if (G[g].cur == -1) V[v].markGroup = -1;
	return 0;
}
void Model::divDetach(int v) {
	int g = V[v].group; if (g < 0) return;
	if (G[g].cur == v) G[g].cur = -2;
	auto & L = G[g].list; L.erase(std::find(L.begin(), L.end(), v)); V[v].group = -1;
}
void Model::divFire(int v, i64 & nd) {
	MDiv & d = V[v]; if (!d.cb) return;
	i64 n = ++d.fires, tm = curGen >= 0 ? C[curGen].now : -1;
	events.push_back({'v', v, tm, n});
	if (logAtFire) snaps.push_back(levelsAt());
	auto x = divNext.find({v, n}); if (x != divNext.end()) nd = x->second;
	auto a = divActs.find({v, n});
	if (a != divActs.end()) { inCallback++; std::vector<Op> ops = a->second; for (auto & o : ops) { int r = apply(o); results.push_back(r); } inCallback--; }
}
void Model::groupTick(int g, i64 &) {
	MGroup & gr = G[g];
	if (gr.list.empty()) return;
	gr.tick++;
	for (;;) {
		int v = -1; for (int x : gr.list) if (!(V[x].markGroup == g && V[x].mark == gr.tick)) { v = x; break; }
		if (v < 0) break;
		MDiv & d = V[v]; d.markGroup = g; d.mark = gr.tick; gr.cur = v;
		if (d.counter <= 0) {
			i64 nd = d.divider; d.counter = d.divider - 1;
			if (v >= NDIV) trackTick(v - NDIV); else divFire(v, nd);
			if (gr.cur != v) continue;
			d.divider = (int)(nd < 1 ? 1 : nd); d.counter = d.divider;
		}
		d.counter--;
	}
	gr.cur = -1;
}
void Model::clockTick(int k) {
	MClock & c = K[k]; int cx = c.ctx; i64 time = cx >= 0 ? C[cx].now : c.own, next = 0, dummy = 0; bool have = false;
	if (k < NCLOCK && !c.cb) groupTick(k, dummy);
	else if (k < NCLOCK) {
		i64 n = ++clockFires[k];
		events.push_back({'k', k, time, n});
		if (logAtFire) snaps.push_back(levelsAt());
		auto d = clockNext.find({k, n}); if (d != clockNext.end()) { next = d->second; have = true; }
		auto a = clockActs.find({k, n});
		if (a != clockActs.end()) { inCallback++; std::vector<Op> ops = a->second; for (auto & o : ops) { int r = apply(o); results.push_back(r); } inCallback--; }
		groupTick(k, dummy);
	}
	else { groupTick(NCLOCK + 2 * cx, dummy); groupTick(NCLOCK + 2 * cx + 1, dummy); }
	if (have && next > 0) c.period = next;
	c.next = (c.ctx >= 0 ? C[c.ctx].now : c.own) + c.period;
}
void Model::advanceClocks(int c) {
	MCtx & x = C[c];
	do {
		x.resetFlag = false;
		for (size_t i = 0; i < x.clocks.size();) {
			int k = x.clocks[i];
			if (K[k].next == x.now) clockTick(k);
			if (K[k].ctx != c) { i = 0; continue; }
			i = (size_t)(std::find(x.clocks.begin(), x.clocks.end(), k) - x.clocks.begin()) + 1;
		}
	} while (x.resetFlag);
	i64 d = 0x7fffffff / 3;
	for (int k : x.clocks) d = std::min(d, K[k].next - x.now);
	x.now += d;
}
void Model::gen(int c, i64 n) {
	MCtx & x = C[c]; curGen = c;
	while (n > 0) {
		i64 f = n < 1024 ? n : 1024; n -= f;
		i64 target = (x.rendered + f) * F;
		if (!x.clocks.empty()) while (x.now < target) { advanceClocks(c); for (size_t i = 0; i < x.units.size(); i++) run(x.units[i], x.now); }
		else { if (x.now < target) x.now = target; for (size_t i = 0; i < x.units.size(); i++) run(x.units[i], x.now); }
		if (audio) for (i64 i = 0; i < f; i++) for (int ch = 0; ch < x.nch; ch++) {
			i64 & a = x.accum[ch]; auto & m = x.mix[ch]; size_t at = (size_t)(x.rendered + i);
			a -= a >> 9; if (at < m.size()) a += m[at];
			out[c].push_back((BKFrame)clamp(a >> 14, -32768, 32767));
		}
		x.rendered += f;
	}
	curGen = -1;
}

// ---------------------------------------------------------------- sound
void Model::pulse(MCtx & c, int ch, i64 t, i64 amp) {
	if (!amp || !audio) return;
	pulses++;
	auto & m = c.mix[ch]; size_t at = (size_t)(t / F); int row = (int)((t % F) >> 15);
	if (m.size() < at + 32) m.resize(at + 32 + m.size() / 2);
	for (int i = 0; i < 32; i++) m[at + i] += kKernel[c.kernel][row][i] * amp;
}
void Model::run(int ti, i64 target) {
	MTrack & t = T[ti];
	updateUnit(t);
	i64 time = t.time;
	if (t.wf == 7 || (t.period && t.wf)) time = t.wf == 7 ? runSample(ti, target) : runWave(t, target);
	t.time = time < target ? target : time;
}
i64 Model::runWave(MTrack & t, i64 target) {
	i64 time = 0; u32 ph0 = t.phase, wc0 = t.wrapCount; MCtx & c = C[t.ctx];
	if (t.mute) return 0;
	for (int i = 0; i < c.nch; i++) {
		if (!t.vol[i]) continue;
		u32 ph = ph0, wc = wc0; if (t.wf == 3 && !ph) ph = 0x4a41;
		for (time = t.time; time < target; time += t.period) {
			int p = 0;
			switch (t.wf) {
				case 1: p = squareAt(t.duty, ph); ph = (ph + 1) & 15; break;
				case 2: p = kTri[ph]; ph = (ph + 1) & 31; break;
				case 3: { if (t.wrap && --wc == 0) { wc = t.wrap; ph = 0x4a41; }
					u32 b = (ph ^ (ph >> 2) ^ (ph >> 3) ^ (ph >> 5)) & 1; ph = (ph >> 1) | (b << 15); p = b ? 16383 : -16383; break; }
				case 4: p = 5461 * (6 - (int)ph); ph = ph >= 6 ? 0 : ph + 1; break;
				case 5: p = sineAt(ph); ph = (ph + 1) & 31; break;
				case 6: if (t.wrap && --wc == 0) { wc = t.wrap; ph = 0; } p = t.frames[ph]; if (++ph >= t.count) ph = 0; break;
			}
			int a = (p * t.vol[i]) >> 15; pulse(c, i, time, a - t.last[i]); t.last[i] = a;
		}
		t.phase = ph; t.wrapCount = wc;
	}
	return time;
}
bool Model::canRun(const MTrack & t) const { return t.ctx >= 0 && t.wf == 7 && !t.mute && std::llabs((i64)t.end - (i64)t.offset) >= 2; }
i64 Model::callSample(int ti, int ev) {
	MTrack & t = T[ti]; if (!t.hasCb) return 0;
	i64 n = t.cbFires++; events.push_back({ev == 1 ? 'b' : 's', ti, 0, n});
	i64 ret = ev == 2 && !t.cbRet.empty() ? t.cbRet[(size_t)n % t.cbRet.size()] : 0;
	auto a = sampActs.find({ti, n});
	if (a != sampActs.end()) { inCallback++; std::vector<Op> ops = a->second; for (auto & o : ops) { int r = apply(o); results.push_back(r); } inCallback--; }
	return ret;
}
bool Model::resetSample(int ti) {   // true: stopped
	MTrack & t = T[ti]; i64 mode = t.repeatMode;
	bool go = true; if (t.hasCb) { mode = callSample(ti, 2); go = canRun(t); if (!go && t.wf != 7) return true; }
	i64 ph = (int)t.phase, len = (int)t.length; int dir = 0, m = 0;
	if (!go) { t.phase = len <= 0 ? 0 : (u32)(((ph % len) + len) % len); return true; }      // stopped in the callback
	if (ph >= len) { dir = 1; ph %= len; } else if (ph < 0) { dir = -1; ph = ((ph % len) + len) % len; }
	if (mode == 1) m = dir;
	else if (mode == 2) { if (dir == 1) ph = len - ph - 1; else if (dir == -1) ph = std::min(len - ph, len - 1); m = -dir; }
	if (dir == 0 && (mode == 1 || mode == 2)) m = t.speriod < 0 ? -1 : 1;
	t.phase = (u32)ph;
	if (m) t.speriod = m < 0 ? -std::llabs(t.speriod) : std::llabs(t.speriod);
	t.repeatCount++;
	if (!m) t.mute = 1;
	return !m;
}
i64 Model::runSample(int ti, i64 target) {
	MTrack & t = T[ti]; if (!canRun(t)) return target;
	MCtx & c = C[t.ctx]; i64 time; bool held = t.fRange && !t.fRelease;
	for (time = t.time; time < target; time += F) {
		const BKFrame * fr = t.frames + (size_t)t.phase * t.nch;
		for (int i = 0; i < c.nch; i++) { int a = (fr[t.nch == 1 ? 0 : i] * t.vol[i]) >> 15; pulse(c, i, time + t.tfrac, a - t.last[i]); t.last[i] = a; }
		i64 nx = t.tfrac + t.speriod; i64 adv = (nx >> 20); t.phase += (u32)adv; t.tfrac = nx & (F - 1);
		if ((int)t.phase < 0 || (int)t.phase >= (int)t.length) { if (resetSample(ti)) break; held = t.fRange && !t.fRelease; }
		if (held) { if (t.speriod > 0) { if ((int)t.phase >= (int)t.susEnd) t.phase = t.susOff; } else if ((int)t.phase < (int)t.susOff) t.phase = t.susEnd - 1; }
	}
	return time;
}

// ---------------------------------------------------------------- unit parameters
void Model::updVol(MTrack & t) {
	i64 v = t.volume.get(); if (t.ignVol && v) v = 32767;
	i64 pan = t.panning.get();
	if (t.fInstr) { int x = t.st[0].value; if (!t.ignVol || x == 0) v = (v * x) >> 15; pan += t.st[1].value; }
	if (t.fEff[3] && !t.ignVol) { int x = 32767 - std::abs(t.trem.get()); v = (v * x) >> 15; }
	v = clamp(v, 0, 32767); v = (v * t.master) >> 15;
	if (pan && t.panEn) {
		pan = clamp(pan, -32767, 32767);
		t.vol[0] = (int)clamp(pan > 0 ? ((32767 - pan) * v) >> 15 : v, 0, 32767); t.vol[1] = (int)clamp(pan < 0 ? ((32767 + pan) * v) >> 15 : v, 0, 32767);
	}
	else for (int & x : t.vol) x = (int)v;
}
void Model::updNote(MTrack & t) {
	if (t.ctx < 0 || t.bare) return;
	i64 n = t.note.get();
	if (t.fArp) n += t.arpDelta;
	if (t.fEff[4]) n += t.vib.get();
	if (t.fInstr) n += t.st[2].value;
	n += t.pitch;
	if (t.waveform != 7) { i64 p = toneLookup(n, C[t.ctx].rate); p /= (int)(t.count < 64 ? t.count : 64); p = std::llabs(p); t.period = (u32)(p < F / 32 ? F / 32 : p); }
	else { i64 p = clamp(std::llabs((i64)log2Lookup(n + t.samplePitch)), 1 << 12, 1 << 28); t.speriod = t.speriod < 0 ? -p : p; }
}
void Model::setDuty(MTrack & t, i64 v) {
	v = clamp(v, 1, 15); if (v == t.duty) return;
	if (t.wf == 1 && v > t.duty && t.phase < (u32)v) t.phase = 0;
	t.duty = (int)v;
}
void Model::updDuty(MTrack & t) { int d = t.dutyCycle; if (t.fInstr && t.st[3].value) d = t.st[3].value; setDuty(t, d); }
void Model::updateUnit(MTrack & t) {
	if (t.bare) return;
	if (t.uVol) { updVol(t); t.uVol = false; }
	if (t.uNote) { updNote(t); t.uNote = false; }
	if (t.uDuty) { updDuty(t); t.uDuty = false; }
}
void Model::updIgn(MTrack & t) { t.ignVol = t.waveform == 2 && t.triIgn; t.uVol = true; }

// ---------------------------------------------------------------- data
void Model::linkData(int ti, int d) {
	MTrack & t = T[ti];
	if (t.data >= 0) { auto & u = D[t.data].users; u.erase(std::remove(u.begin(), u.end(), ti), u.end()); }
	t.data = d; if (d >= 0) D[d].users.push_back(ti);
}
static void clearSustain(MTrack & t) { t.susOff = t.susEnd = 0; t.fRange = t.fJump = t.fRelease = false; }
int Model::trySetData(int ti, int d, bool sample, bool dispose) {
	MTrack & t = T[ti];
	bool set = d >= 0 && !dispose; MData * x = set ? &D[d] : nullptr;
	if (!sample) {
		if (set) {
			if (x->nf < 2) return BK_INVALID_NUM_FRAMES;
			t.wf = 6; t.count = (u32)std::min<i64>(x->nf, 64); t.phase = 0; t.offset = 0; t.end = (u32)x->nf; t.frames = x->fr->data(); t.repeatCount = 0; clearSustain(t);
		}
		else if (t.wf == 6) { t.wf = 0; t.offset = t.end = 0; t.frames = nullptr; t.count = 16; t.phase = 0; }
		return 0;
	}
	if (set) {
		if (x->nch != 1 && t.ctx >= 0 && x->nch != C[t.ctx].nch) return BK_INVALID_NUM_CHANNELS;
		if (x->nf < 2) return BK_INVALID_NUM_FRAMES;
		t.wf = 7; t.count = 1; t.length = (u32)x->nf; t.nch = (u32)x->nch; t.offset = 0; t.end = (u32)x->nf; t.frames = x->fr->data(); t.speriod = std::llabs(t.speriod);
		t.phase = 0; t.repeatMode = t.repeatCount = 0; t.susOff = t.susEnd = 0;
		t.fRange = t.fJump = t.fRelease = false;
	}
	else if (t.wf == 7) { t.wf = 0; t.offset = t.end = 0; t.susOff = t.susEnd = 0; t.frames = nullptr; t.count = 16; t.phase = 0; t.repeatMode = 0; t.fRange = t.fJump = t.fRelease = false; }
	return 0;
}
int Model::setData(int ti, bool sample, int d) {
	MTrack & t = T[ti];
	if (t.ctx < 0 && d >= 0) return BK_INVALID_STATE;
	if (d < 0 && ((sample && t.wf == 6) || (!sample && t.wf == 7))) return 0;
	int r = trySetData(ti, d, sample, false);
	if (r == 0) { linkData(ti, d); if (sample && d >= 0) callSample(ti, 1); }
	return r;
}
void Model::dataEvent(int d, bool dispose) {
	std::vector<int> u = D[d].users;
	struct In { int & n; In(int & x) : n(x) { n++; } ~In() { n--; } } in_(dataEvents);
	for (int ti : u) {
		MTrack & t = T[ti]; int r = -1;
		if (t.wf == 6 || t.wf == 7) {
			bool sample = t.wf == 7;
			r = trySetData(ti, t.data, t.wf == 7, dispose);
			if (r < 0) { t.wf = 0; t.offset = t.end = 0; t.frames = nullptr; t.count = 16; t.phase = 0; clearSustain(t); }
			else if (sample && !dispose) callSample(ti, 1);
		}
		if (r == 0) updNote(t);
		if (r < 0 || dispose) linkData(ti, -1);
	}
}
int Model::setDataFrames(int d, i64 nf, i64 ch, i64 seed) {
	i64 gch = ch < 1 ? 1 : ch > 8 ? 8 : ch; if (nf < 0) nf = 0;
	auto fr = std::make_shared<std::vector<BKFrame>>(makeFrames(nf, gch, seed));
	if (nf < 2) return BK_INVALID_NUM_FRAMES;
	if (ch < 1 || ch > 8) return BK_INVALID_NUM_CHANNELS;
	replaceFrames(d, *fr, ch);
	return 0;
}
void Model::replaceFrames(int d, std::vector<BKFrame> v, i64 ch) {
	auto old = D[d].fr;
	D[d].nf = (i64)v.size() / ch; D[d].nch = ch; D[d].fr = std::make_shared<std::vector<BKFrame>>(std::move(v)); dataEvent(d, false);
}
// bytes of packed frames: the first one in the highest bits of a byte
int Model::setDataBytes(int d, const std::vector<unsigned char> & b, i64 ch, i64 params) {
	if ((BKUInt)ch < 1 || (BKUInt)ch > 8) return BK_INVALID_NUM_CHANNELS;
	static const int width[16] = {0, 1, 2, 4, 8, 8, 16};
	i64 w = width[params & 15]; if (!w) return BK_INVALID_NUM_BITS;
	i64 n = (i64)b.size() * 8 / (w * ch); if (n < 2) return BK_INVALID_NUM_FRAMES;
	std::vector<BKFrame> v; bool big = (params >> 16 & 3) == 1;
	for (i64 i = 0; i < n * ch; i++) {
		i64 bit = i * w; int x = b[(size_t)(bit / 8)];
		if (w < 8) { int m = (1 << w) - 1; x = x >> (8 - w - bit % 8) & m; v.push_back((BKFrame)(x * 32767 / m)); }
		else if (w == 8) v.push_back((BKFrame)((params & 15) == 4 ? std::max((int)(signed char)x, -127) * 32767 / 127 : x * 32767 / 255));
		else { int y = b[(size_t)(bit / 8 + 1)]; v.push_back((BKFrame)(big ? x << 8 | y : y << 8 | x)); }
	}
	replaceFrames(d, v, ch);
	return 0;
}
static std::vector<BKFrame> normalised(std::vector<BKFrame> v) {
	int mx = 0; for (int x : v) mx = std::max(mx, std::abs(x));
	if (mx) { int f = (32767 << 16) / mx; for (auto & x : v) x = (BKFrame)(((i64)x * f) >> 16); }
	return v;
}
void Model::range(MTrack & t, i64 a, i64 b) {
	if (t.data < 0) return;
	i64 len = D[t.data].nf;
	if (a < 0) a += len + 1; a = clamp(a, 0, len);
	if (b < 0) b += len + 1; b = clamp(b, 0, len);
	i64 oo = std::min((i64)(int)t.offset, (i64)(int)t.end), no = std::min(a, b), nl = std::llabs(a - b);
	i64 ph = (i64)(int)t.phase + oo - no; if (ph < 0 || ph >= nl) ph = 0;
	t.offset = (u32)a; t.end = (u32)b; t.frames = D[t.data].fr->data() + no * t.nch; t.length = (u32)nl; t.speriod = std::llabs(t.speriod); if (a > b) t.speriod = -t.speriod;
	if (t.repeatCount == 0) {
		if (a < b && t.phase == t.length - 1) ph = 0;
		else if (a > b && t.phase == 0) ph = nl - 1;
	}
	t.phase = (u32)ph;
}
void Model::sustain(MTrack & t, i64 a, i64 b) {
	if (t.data < 0) return;
	i64 len = (int)t.length;
	if (a < 0) a += len + 1; if (b < 0) b += len + 1;
	a = clamp(a, 0, len); b = clamp(b, 0, len); if (b < a) std::swap(a, b);
	t.fRange = a != b; t.susOff = (u32)a; t.susEnd = (u32)b;
}

// ---------------------------------------------------------------- sequences and instruments
void Model::stateValue(MSState & s, int v) {
	if (s.seq && s.seq->env) { s.shifted = (i64)v * (1 << s.seq->shift); if (s.steps) s.delta = (s.end - s.shifted) / s.steps; }
	s.value = v;
}
int Model::seqStep(MSState & s, int level) {
	MSeq & q = *s.seq; i64 send = q.so + q.sl; int r = STEP;
	if (!q.env) {
		if (level < 1 || s.offset == OFF_END) return NONE;
		if (s.phase == ATTACK && s.offset >= send) { s.offset = q.so; r = REPEAT; }
		if (s.offset < q.len) s.value = q.v[(size_t)s.offset++]; else { s.offset = OFF_END; r = FINISH; }
		return r;
	}
	if (level < 0 || s.offset == OFF_END) return NONE;
	do {
		if (s.steps) {
			if (--s.steps > 0) { s.shifted += s.delta; s.value = (int)(s.shifted >> q.shift); break; }
			s.shifted = s.end; s.value = (int)(s.shifted >> q.shift); s.offset++;
		}
		if (s.phase == ATTACK && s.offset >= send) { s.offset = q.so; r = REPEAT; }
		if (s.offset < q.len) {
			auto & p = q.ph[(size_t)s.offset];
			if (p.first) { s.steps = (int)p.first; s.end = (i64)p.second * (1 << q.shift); s.delta = (s.end - s.shifted) / (int)p.first; }
			else { s.shifted = (i64)p.second * (1 << q.shift); s.steps = 0; s.offset++; }
			s.value = (int)(s.shifted >> q.shift);
		}
		else { s.offset = OFF_END; r = FINISH; break; }
	} while (s.steps == 0);
	return r;
}
bool Model::seqPhase(MSState & s, int ph) {   // true: finished
	MSeq & q = *s.seq; int r = NONE;
	if (!q.env) {
		s.offset = ph == MUTE ? q.len : ph == ATTACK ? 0 : q.so + q.sl;
		if (s.offset < q.len) s.value = q.v[(size_t)s.offset]; else { s.offset = OFF_END; r = FINISH; }
		s.phase = ph;
		return r == FINISH;
	}
	s.steps = 0; s.phase = ph;
	if (ph == MUTE) { s.delta = 0; s.offset = q.len; s.shifted = (i64)s.value * (1 << q.shift); s.end = 0; }
	else { s.offset = ph == ATTACK ? 0 : q.so + q.sl; r = seqStep(s, 0); }
	if (r == NONE && s.offset >= q.len) { s.offset = q.len; r = FINISH; }
	return r == FINISH;
}
void Model::stateDefaults(MTrack & t) { static const int d[4] = {32767, 0, 0, 0}; for (int i = 0; i < 4; i++) stateValue(t.st[i], t.st[i].seq ? 0 : d[i]); }
void Model::statePhase(int ti, int ph) {
	MTrack & t = T[ti]; if (t.instr < 0) return;
	if (t.iphase == RELEASE && ph == RELEASE) return;
	t.iactive = 0; MInstr & in = I[t.instr];
	for (int i = 0; i < in.num; i++) if (in.seq[i] && !seqPhase(t.st[i], ph)) t.iactive++;
	if (t.iactive == 0 && ph == RELEASE) ph = MUTE;
	if (ph != MUTE) t.iphase = ph;
	else if (t.iphase != MUTE) { t.iphase = MUTE; setNote(ti, -2); }
}
void Model::stateTick(int ti, int level) {
	MTrack & t = T[ti];
	for (int i = 0; t.instr >= 0 && i < I[t.instr].num; i++) if (t.st[i].seq && seqStep(t.st[i], level) == FINISH) { if (--t.iactive == 0) statePhase(ti, MUTE); }
}
void Model::stateSetInstr(int ti, int i) {
	MTrack & t = T[ti];
	if (t.instr >= 0) { auto & u = I[t.instr].users; u.erase(std::remove(u.begin(), u.end(), ti), u.end()); }
	t.instr = i;
	if (i >= 0) {
		I[i].users.insert(I[i].users.begin(), ti); stateDefaults(t);
		for (int k = 0; k < 4; k++) t.st[k].seq = I[i].seq[k].get();
		stateDefaults(t); statePhase(ti, ATTACK);
	}
	else for (auto & s : t.st) s.seq = nullptr;
}
void Model::instrFlags(MTrack & t, bool all) {
	if (all || t.st[0].seq || t.st[1].seq) t.uVol = true;
	if (all || t.st[2].seq) t.uNote = true;
	if (all || t.st[3].seq) t.uDuty = true;
}
void Model::initDuty(MTrack & t) { if (t.fInstr && I[t.instr].seq[3]) stateValue(t.st[3], t.dutyCycle); }
void Model::instrAttack(int ti) { MTrack & t = T[ti]; initDuty(t); t.instrDiv.counter = 0; statePhase(ti, ATTACK); instrFlags(t, false); }
void Model::instrRelease(int ti) { statePhase(ti, RELEASE); instrFlags(T[ti], false); }
void Model::instrMute(int ti) { statePhase(ti, MUTE); instrFlags(T[ti], false); }
void Model::setInstr(int ti, int i) {
	MTrack & t = T[ti];
	if (i != t.instr) {
		stateSetInstr(ti, i);
		if (i >= 0) { t.fInstr = true; t.instrDiv.counter = 0; initDuty(t); if (t.curNote == -1) instrMute(ti); else instrAttack(ti); }
		else { t.fInstr = false; if (t.curNote == -1) setNote(ti, -2); }
	}
	instrFlags(t, true);
}
int Model::setSeq(int i, i64 slot, std::shared_ptr<MSeq> s) {
	MInstr & in = I[i]; auto old = in.seq[slot];
	in.seq[slot] = s; in.num = 0; for (int k = 0; k < 4; k++) if (in.seq[k]) in.num = k + 1;
	for (int u : in.users) T[u].st[slot].seq = s.get();
	for (int u : std::vector<int>(in.users)) { stateDefaults(T[u]); statePhase(u, MUTE); }
	for (int u : std::vector<int>(in.users)) { instrFlags(T[u], true); updateUnit(T[u]); }
	return 0;
}

// ---------------------------------------------------------------- tracks
void Model::setRelease(MTrack & t, bool v) {
	if (v && !t.fRange) return;
	t.fRelease = v;
	if (v && t.fJump && !t.mute) t.phase = (u32)(t.speriod > 0 ? std::max<i64>(0, std::min<i64>((int)t.susEnd, (i64)(int)t.length - 1)) : std::max<i64>(0, (i64)(int)t.susOff - 1));
}
void Model::setPhase(int ti, i64 v) {
	MTrack & t = T[ti];
	if (t.wf == 7) callSample(ti, 1);      // may change the sample or its range
	if (t.wf != 7) v = clamp(v, 0, (i64)t.count - 1);
	else {
		if (v < 0) v = t.end > t.offset ? 0 : (i64)(int)t.length - 1;
		v = v < 0 ? 0 : t.length && v > (i64)t.length - 1 ? (i64)t.length - 1 : v;
	}
	t.phase = (u32)v;
}
void Model::setNote(int ti, i64 n) {
	MTrack & t = T[ti];
	if (n >= 0) {
		n = clamp(n, 0, 96 * F); t.note.set((int)n, t.note.steps);
		if (t.curNote == -1) { t.note.halt(true); if (t.fInstr) instrAttack(ti); t.arpOffset = 0; }
		if (t.waveform == 7 && t.curNote == -1) setPhase(ti, -1);
		t.curNote = (int)n; t.mute = 0; setRelease(t, false);
	}
	else if (n == -1) {
		t.curNote = -1;
		if (t.fInstr) { instrRelease(ti); setRelease(t, true); }
		else if (t.fRange) setRelease(t, true);
		else { t.note.halt(false); t.mute = 1; }
	}
	else if (n == -2) {
		t.curNote = -1; t.note.halt(true);
		if (t.fInstr) instrMute(ti);
		t.mute = 1; setRelease(t, false);
	}
	t.uNote = true;
}
int Model::setEffect(int ti, int e, const int v[3]) {
	MTrack & t = T[ti]; i64 st = clamp(v[0], 0, 65536), sl = clamp(v[2], 0, 65536);
	if (e == 0) { t.volume.set(t.volume.end >> 15, st); t.uVol = true; }
	else if (e == 1) { t.panning.set(t.panning.end >> 15, st); t.uVol = true; }
	else if (e == 2) { t.note.set(t.note.end, st); t.uNote = true; }
	else {
		MSlide & d = e == 3 ? t.tremD : t.vibD; MSlide & s = e == 3 ? t.tremS : t.vibS; MInterval & iv = e == 3 ? t.trem : t.vib;
		int delta = e == 3 ? (int)clamp(v[1], 0, 32767) : (int)clamp(v[1], -96 * F, 96 * F);
		d.set(delta, sl); s.set((int)st, sl); if (sl == 0 || st == 0) iv.set(delta, st);
		if (e == 3) t.uVol = true; else t.uNote = true;
	}
	t.fEff[e] = v[0] != 0;
	return 0;
}
void Model::setArp(MTrack & t, const std::vector<i64> & a) {
	t.arpCount = (int)clamp((i64)a.size(), 0, 8); if (t.arpOffset >= t.arpCount) t.arpOffset = 0;
	if (t.arpCount) for (int i = 0; i < t.arpCount; i++) t.arpNotes[i] = (int)a[(size_t)i];
	else { t.arpDelta = 0; t.arpDiv.counter = 0; }
	t.fArp = t.arpCount > 0; t.uNote = true;
}
void Model::trackTick(int ti) {
	MTrack & t = T[ti];
	if (t.fEff[2] || t.fEff[4]) t.uNote = true;
	if (t.fEff[0] || t.fEff[1] || t.fEff[3]) t.uVol = true;
	if (t.fArp && t.arpDiv.tick()) { t.arpDelta = t.arpNotes[t.arpOffset++]; if (t.arpOffset >= t.arpCount) t.arpOffset = 0; t.uNote = true; }
	if (t.fInstr) { bool k = t.instrDiv.tick(); stateTick(ti, k ? 1 : 0); instrFlags(t, false); }
	updateUnit(t);
	if ((t.fEff[0] || t.fEff[1] || t.fEff[2] || t.fEff[3] || t.fEff[4]) && t.effDiv.tick()) {
		if (t.fEff[2]) t.note.tick();
		if (t.fEff[0]) t.volume.tick();
		if (t.fEff[1]) t.panning.tick();
		if (t.fEff[3]) { if (t.tremD.steps) { t.tremD.tick(); t.tremS.tick(); t.trem.set(t.tremD.get(), t.tremS.get()); } t.trem.tick(); }
		if (t.fEff[4]) { if (t.vibD.steps) { t.vibD.tick(); t.vibS.tick(); t.vib.set(t.vibD.get(), t.vibS.get()); } t.vib.tick(); }
	}
}
int Model::setWaveform(int ti, i64 v) {
	MTrack & t = T[ti]; if (v < 0 || v > 5) return BK_INVALID_VALUE;
	static const int cnt[6] = {16, 16, 32, 8, 7, 32}; t.count = (u32)cnt[v];
	if (t.wf != v) { t.phase = 0; t.wf = (int)v; }
	linkData(ti, -1); clearSustain(t);
	if (t.bare) return 0;
	t.waveform = t.wf; updIgn(t); updNote(t);
	return 0;
}
int Model::trackAttr(int ti, int a, i64 v) {
	MTrack & t = T[ti]; v = (int)v;
	if (t.bare) switch (a) {
		case A_MASTER: case A_PANNING: case A_NOTE: case A_PITCH: case A_SPITCH: case A_ARPDIV: case A_EFFDIV: case A_INSTRDIV: case A_TRIIGN: case A_VSLIDE: case A_PSLIDE: case A_PORTA: return BK_INVALID_ATTRIBUTE;
		case A_VOLUME: for (int & x : t.vol) x = (int)clamp(v, 0, 32767); return 0;
		case A_DUTY: setDuty(t, v); return 0;
	}
	switch (a) {
		case A_MASTER: t.master = (int)clamp(v, 0, 32767); t.uVol = true; return 0;
		case A_VOLUME: t.volume.set((int)clamp(v, 0, 32767), t.volume.steps); t.uVol = true; return 0;
		case A_PANNING: t.panning.set((int)clamp(v, -32767, 32767), t.panning.steps); t.uVol = true; return 0;
		case A_NOTE: setNote(ti, v); return 0;
		case A_PITCH: t.pitch = (int)clamp(v, -48 * F, 48 * F); t.uNote = true; return 0;
		case A_SPITCH: t.samplePitch = (int)clamp(v, -48 * F, 48 * F); t.uNote = true; return 0;
		case A_ARPDIV: t.arpDiv.divider = (int)std::max<i64>(1, v); t.arpDiv.counter = 0; return 0;
		case A_EFFDIV: t.effDiv.divider = (int)std::max<i64>(1, v); t.effDiv.counter = 0; return 0;
		case A_INSTRDIV: t.instrDiv.divider = (int)std::max<i64>(1, v); t.instrDiv.counter = 0; return 0;
		case A_TRIIGN: t.triIgn = v != 0; updIgn(t); return 0;
		case A_DUTY: setDuty(t, v); t.dutyCycle = t.duty; t.uDuty = true; return 0;
		case A_MUTE: t.mute = v ? 1 : 0; return 0;
		case A_PHASE: setPhase(ti, v); return 0;
		case A_WRAP: t.wrap = t.wrapCount = (u32)(v ? std::max<i64>(v, 2) : 0); t.phase = 0; return 0;
		case A_REPEAT: t.repeatMode = v == 1 || v == 2 ? (int)v : 0; return 0;
		case A_IMMED: t.fJump = v != 0; return 0;
		case A_RELEASE: setRelease(t, v != 0); return 0;
		case A_PERIOD: { i64 p = std::llabs(v); t.period = (u32)(p < F / 32 ? F / 32 : p); return 0; }
		case A_SPERIOD: { i64 p = clamp(std::llabs(v), 1 << 12, 1 << 28); t.speriod = t.speriod < 0 ? -p : p; return 0; }
		case A_VOL0: t.vol[0] = (int)clamp(v, 0, 32767); return 0;
		case A_VOL1: t.vol[1] = (int)clamp(v, 0, 32767); return 0;
		case A_VSLIDE: { int x[3] = {(int)v, 0, 0}; return setEffect(ti, 0, x); }
		case A_PSLIDE: { int x[3] = {(int)v, 0, 0}; return setEffect(ti, 1, x); }
		case A_PORTA: { int x[3] = {(int)v, 0, 0}; return setEffect(ti, 2, x); }
	}
	return BK_INVALID_ATTRIBUTE;
}
void Model::resetPulse(MTrack & t) { for (int i = 0; i < 8; i++) { if (t.ctx >= 0 && i < C[t.ctx].nch && t.last[i]) pulse(C[t.ctx], i, C[t.ctx].now, -t.last[i]); t.last[i] = 0; } }
void Model::trackDetach(int ti) {
	MTrack & t = T[ti]; divDetach(NDIV + ti);
	if (t.ctx >= 0) { resetPulse(t); auto & u = C[t.ctx].units; u.erase(std::find(u.begin(), u.end(), ti)); t.ctx = -1; t.time = 0; }
	t.panEn = false;
}
void Model::unitClear(int ti) {
	MTrack & t = T[ti];
	setData(ti, false, -1); setData(ti, true, -1);
	t.fRange = t.fJump = t.fRelease = false; t.wrap = t.wrapCount = 0;
	t.offset = t.end = 0; t.repeatMode = t.repeatCount = 0; t.susOff = t.susEnd = 0; t.speriod = F; t.tfrac = 0;
}
void Model::unitReset(int ti) { MTrack & t = T[ti]; unitClear(ti); t.wf = 0; t.count = 16; t.phase = 0; t.time = t.ctx >= 0 ? C[t.ctx].now : 0; resetPulse(t); }
void Model::trackClear(int ti) {
	MTrack & t = T[ti]; int wave = t.waveform, duty = t.dutyCycle;
	unitClear(ti); setInstr(ti, -1);
	t.fArp = t.fInstr = false; for (bool & b : t.fEff) b = false; t.uVol = t.uNote = t.uDuty = false;
	t.arpDiv = t.effDiv = t.instrDiv = MDivState(); t.arpDiv.divider = t.instrDiv.divider = 4;
	t.arpCount = t.arpOffset = t.arpDelta = 0; for (int & x : t.arpNotes) x = 0;
	t.volume = t.panning = t.note = t.tremD = t.tremS = t.vibD = t.vibS = MSlide(); t.trem = t.vib = MInterval();
	t.volume.shift = t.panning.shift = t.tremD.shift = 15; t.tremS.shift = t.vibS.shift = 14; t.trem.shift = 14;
	t.iphase = t.iactive = 0; for (auto & s : t.st) s = MSState();
	t.pitch = t.samplePitch = 0; t.curNote = 0;
	trackAttr(ti, A_VOLUME, 32767); t.uVol = true;
	t.waveform = 0; t.dutyCycle = 0; setWaveform(ti, wave); trackAttr(ti, A_DUTY, duty); setNote(ti, -2); t.mute = 1;
}
void Model::trackReset(int ti) { unitReset(ti); trackAttr(ti, A_DUTY, 4); trackClear(ti); }

// ---------------------------------------------------------------- ops
#define NEED(cond) do { if (!(cond)) return SKIP; } while (0)
static bool in(i64 v, i64 n) { return v >= 0 && v < n; }
int Model::apply(const Op & o) {
	if (depth > 3 || (dataEvents && !allowedInDataEvent(o))) return SKIP;
	depth++; int r = applyOp(o); depth--;
	return r;
}
int Model::applyOp(const Op & o) {
	const std::string & n = o.n;
	i64 a = o.at(0);
	auto track = [&](i64 t) { return in(t, NTRACK) && T[t].live; };
	if (n == "gen") { NEED(!inCallback && in(a, NCTX) && C[a].live && o.at(1) > 0 && o.at(1) <= 200000); gen((int)a, o.at(1)); return (int)o.at(1); }
	if (n == "attr") { NEED(track(a) && in(o.at(1), A_COUNT)); if (o.at(1) == A_WAVE) return setWaveform((int)a, o.at(2)); return trackAttr((int)a, (int)o.at(1), o.at(2)); }
	if (n.compare(0, 3, "at:") == 0) { NEED(o.a.size() >= 2); divActs[{(int)a, o.at(1)}].push_back(Op(n.substr(3), std::vector<i64>(o.a.begin() + 2, o.a.end()))); return 0; }
	if (n.compare(0, 3, "st:") == 0) { NEED(o.a.size() >= 2); sampActs[{(int)a, o.at(1)}].push_back(Op(n.substr(3), std::vector<i64>(o.a.begin() + 2, o.a.end()))); return 0; }
	if (n.compare(0, 3, "kt:") == 0) { NEED(o.a.size() >= 2); clockActs[{(int)a, o.at(1)}].push_back(Op(n.substr(3), std::vector<i64>(o.a.begin() + 2, o.a.end()))); return 0; }
	if (n == "vnext") { divNext[{(int)a, o.at(1)}] = o.at(2); return 0; }
	if (n == "knext") { clockNext[{(int)a, o.at(1)}] = o.at(2); return 0; }
	if (n == "ctx") {
		NEED(in(a, NCTX) && !C[a].live); MCtx & c = C[a]; c = MCtx(); c.live = true; c.nch = (int)clamp((u32)o.at(1), 1, 8); c.rate = (u32)clamp((u32)o.at(2), 16000, 96000); c.mix.resize((size_t)c.nch);
		MClock & k = K[NCLOCK + a]; k = MClock(); k.live = true; k.period = (i64)((double)((i64)c.rate << 20) * (1.0 / 240)); return 0;
	}
	if (n == "kernel") { NEED(in(a, NCTX) && C[a].live); C[a].kernel = o.at(1) < 0 ? 1 : (int)(o.at(1) & 1); return 0; }
	if (n == "ctxperiod") { NEED(in(a, NCTX) && C[a].live); if (o.at(1) <= 0) return BK_INVALID_VALUE; K[NCLOCK + a].period = o.at(1); return 0; }
	if (n == "ctxreset") {
		NEED(!inCallback && in(a, NCTX) && C[a].live); MCtx & c = C[a]; c.now = 0;
		c.rendered = 0; for (auto & m : c.mix) m.clear(); for (auto & x : c.accum) x = 0;
		for (int t : std::vector<int>(c.units)) if (T[t].bare) unitReset(t); else trackReset(t);
		for (int k : c.clocks) clockReset(k);
		for (int g : {NCLOCK + 2 * (int)a, NCLOCK + 2 * (int)a + 1}) for (int v : G[g].list) V[v].counter = 0;
		for (auto & m : c.mix) m.clear();
		return 0;
	}
	if (n == "track") {
		NEED(in(a, NTRACK) && !T[a].live); MTrack & t = T[a]; t = MTrack(); t.live = true;
		MDiv & d = V[NDIV + a]; d = MDiv(); d.live = true;
		t.duty = 2; t.data = -1; setWaveform((int)a, (i64)((u64)o.at(1) % 6)); trackReset((int)a); return 0;
	}
	if (n == "unit") {
		NEED(in(a, NTRACK) && !T[a].live); MTrack & t = T[a]; t = MTrack(); t.live = t.bare = true; t.uVol = t.uNote = t.uDuty = false;
		t.duty = 2; t.data = -1; return setWaveform((int)a, (i64)((u64)o.at(1) % 6));
	}
	if (n == "trackdel") { NEED(track(a)); if (!T[a].bare) stateSetInstr((int)a, -1); trackDetach((int)a); linkData((int)a, -1); T[a].live = false; V[NDIV + a].live = false; return 0; }
	if (n == "attach") {
		i64 c = o.at(1); NEED(track(a) && in(c, NCTX) && C[c].live); MTrack & t = T[a]; if (t.ctx >= 0) return BK_INVALID_STATE;
		t.ctx = (int)c; t.time = C[c].now; C[c].units.push_back((int)a);
		if (t.wf == 7 && t.nch != 1 && (int)t.nch != C[c].nch) setData((int)a, true, -1);
		if (t.bare) return 0;
		if (divAttach(NDIV + (int)a, NCLOCK + 2 * (int)c + 1) == 0) clockAttach(NCLOCK + (int)c, (int)c, C[c].clocks.empty() ? -1 : -2);
		t.panEn = C[c].nch == 2; t.uVol = t.uNote = true; updateUnit(t); return 0;
	}
	if (n == "detach") { NEED(track(a)); trackDetach((int)a); return 0; }
	if (n == "treset") { NEED(track(a) && !T[a].bare); trackReset((int)a); return 0; }
	if (n == "tclear") { NEED(track(a) && !T[a].bare); trackClear((int)a); return 0; }
	if (n == "arp") { NEED(track(a)); if (T[a].bare) return BK_INVALID_ATTRIBUTE; std::vector<i64> v(o.a.begin() + 1, o.a.end()); setArp(T[a], v); return 0; }
	if (n == "eff") { NEED(track(a) && in(o.at(1), 5)); if (T[a].bare) return BK_INVALID_ATTRIBUTE; int v[3] = {0, 0, 0}; i64 sz = o.at(2); for (int i = 0; i < 3 && i < sz; i++) v[i] = (int)o.at(3 + (size_t)i); return setEffect((int)a, (int)o.at(1), v); }
	if (n == "instr") { NEED(in(a, NINSTR) && !I[a].live); I[a] = MInstr(); I[a].live = true; return 0; }
	if (n == "instrcopy") { i64 s = o.at(1); NEED(in(a, NINSTR) && !I[a].live && in(s, NINSTR) && I[s].live); I[a] = MInstr(); I[a].live = true; I[a].num = I[s].num; for (int k = 0; k < 4; k++) if (I[s].seq[k]) I[a].seq[k] = std::make_shared<MSeq>(*I[s].seq[k]); return 0; }
	if (n == "instrdetach") { NEED(in(a, NINSTR) && I[a].live); for (int u : std::vector<int>(I[a].users)) setInstr(u, -1); return 0; }
	if (n == "instrdel") { NEED(in(a, NINSTR) && I[a].live); for (int u : std::vector<int>(I[a].users)) setInstr(u, -1); I[a] = MInstr(); return 0; }
	if (n == "seq" || n == "env" || n == "adsr") {
		NEED(in(a, NINSTR) && I[a].live);
		std::vector<i64> l = o.a; i64 slot = o.at(1); auto s = std::make_shared<MSeq>(); s->env = n != "seq";
		if (n == "adsr") { slot = 0; l = {a, 0, 2, 1, o.at(1), 32767, o.at(2), o.at(3), 240, o.at(3), o.at(4), 0}; }
		if (!in(slot, 4)) return BK_INVALID_ATTRIBUTE;
		if (s->env) for (size_t k = 4; k + 1 < l.size(); k += 2) s->ph.push_back({(u32)l[k], (int)l[k + 1]}); else for (size_t k = 4; k < l.size(); k++) s->v.push_back((int)l[k]);
		s->len = (i64)(s->env ? s->ph.size() : s->v.size()); i64 so = l.size() > 2 ? l[2] : 0, sl = l.size() > 3 ? l[3] : 0;
		s->so = std::min<i64>((u32)so, s->len); s->sl = std::min<i64>((u32)sl, s->len - s->so);
		if (!s->len) return setSeq((int)a, slot, nullptr);
		if (s->env) {
			u32 sum = 0; for (i64 k = s->so; k < s->so + s->sl; k++) sum += s->ph[(size_t)k].first;
			if (s->so != s->len && sum == 0) return BK_INVALID_VALUE;
			i64 mx = 0; for (auto & p : s->ph) mx = std::max<i64>(mx, std::llabs((i64)p.second));
			int sh = 0; while (((i64)1 << sh) <= mx && sh < 30) sh++; s->shift = 30 - sh;
		}
		return setSeq((int)a, slot, s);
	}
	if (n == "setinstr") { i64 i = o.at(1); NEED(track(a) && i < NINSTR && (i < 0 || I[i].live)); if (T[a].bare) return BK_INVALID_ATTRIBUTE; setInstr((int)a, i < 0 ? -1 : (int)i); return 0; }
	if (n == "data") { NEED(in(a, NDATA) && !D[a].live && o.at(1) <= 100000); D[a] = MData(); D[a].live = true; return o.at(1) > 0 ? setDataFrames((int)a, o.at(1), o.at(2), o.at(3)) : 0; }
	if (n == "dataframes") { NEED(in(a, NDATA) && D[a].live && o.at(1) <= 100000); return setDataFrames((int)a, o.at(1), o.at(2), o.at(3)); }
	if (n == "datapitch") { NEED(in(a, NDATA) && D[a].live); D[a].pitch = (int)clamp((int)o.at(1), -48 * F, 48 * F); return 0; }
	if (n == "datasus") {
		NEED(in(a, NDATA) && D[a].live); i64 x = (int)o.at(2), y = (int)o.at(3), len = D[a].nf; if (o.at(1) || x == y) x = y = 0;
		if (x < 0) x += len + 1; if (y < 0) y += len + 1; x = clamp(x, 0, len); y = clamp(y, 0, len); D[a].susOff = std::min(x, y); D[a].susEnd = std::max(x, y); return 0;
	}
	if (n == "dataset" || n == "loadraw") {
		i64 c = o.at(1); NEED(in(a, NDATA) && D[a].live && c >= 0 && c <= 100000);
		std::vector<unsigned char> b((size_t)c); Rng r((u64)o.at(4)); for (auto & x : b) x = (unsigned char)r.next();
		return setDataBytes((int)a, b, o.at(2), o.at(3));
	}
	if (n == "load" || n == "loadwave") {
		bool old = n == "load"; i64 nf = o.at(old ? 2 : 1), ch = o.at(old ? 3 : 2); NEED(in(a, NDATA) && D[a].live && nf >= 1 && nf <= 100000 && ch >= 1 && ch <= (old ? 8 : 12));
		std::vector<BKFrame> v = makeFrames(nf, ch, o.at(4)); bool eight = old ? o.at(1) == 2 : o.at(3) == 8;
		if (old && o.at(1) == 0) { std::vector<unsigned char> b; for (BKFrame x : v) { b.push_back((unsigned char)x); b.push_back((unsigned char)(x >> 8)); } return setDataBytes((int)a, b, ch, BK_LITTLE_ENDIAN | BK_16_BIT_SIGNED); }
		if (nf < 2 || ch > 8) return BK_INVALID_RETURN_VALUE;
		if (eight) for (auto & x : v) x = (BKFrame)(x & ~0xff);
		i64 cut = old ? 0 : o.at(5), bytes = (i64)v.size() * (eight ? 1 : 2), total = 44 + bytes + (bytes & 1);
		if (cut > 0 && cut < total) { i64 left = total - cut - 44; if (left < 0) return BK_INVALID_RETURN_VALUE; left = std::min(left, bytes) / (eight ? 1 : 2); for (size_t i = (size_t)left; i < v.size(); i++) v[i] = 0; }
		replaceFrames((int)a, v, ch); return 0;
	}
	if (n == "datanorm") { NEED(in(a, NDATA) && D[a].live && D[a].nf > 0); replaceFrames((int)a, normalised(*D[a].fr), D[a].nch); return 0; }
	if (n == "dataconv") {
		NEED(in(a, NDATA) && D[a].live && D[a].nf > 0);
		int bits = (int)(1 + ((u64)o.at(1)) % 15), smooth = 0; float slope = 0, curve = 0, thr = 0;
		if (o.a.size() > 2) { bits = (int)o.at(1); smooth = (int)o.at(2); slope = o.at(3) / 100.0f; curve = o.at(4) / 100.0f; thr = o.at(5) / 1000.0f; }
		if (bits > 15 || bits < 0) bits = 15; if (!smooth) smooth = 64; if (slope == 0) slope = 1; if (curve == 0) curve = 1; if (thr == 0) thr = 0.02f;
		std::vector<BKFrame> v = *D[a].fr; int threshold = (int)(thr * 32767), drop = 16 - bits;
		for (auto & x : v) {
			int y = x;
			if (std::abs(y) < threshold) y = 0;
			else if (bits <= 8) {
				int dither = (1 << drop) - 1; if (nextRand() & 1) dither = -dither;
				float f = (float)std::pow((double)(std::fabs((float)x / smooth) / 32767), (double)curve); f = (float)((1.0 - slope) + (f * slope));
				y += (int)(dither * f);
			}
			y = (int)clamp(y, -32767, 32767);
			if (bits <= 8) y = -((y >> 1) - 16384 >> (drop - 1)) * 32767 / (1 << (16 - drop)); else y = -(y >> drop) * 32767 / (1 << (15 - drop));
			x = (BKFrame)y;
		}
		replaceFrames((int)a, v, D[a].nch); return 0;
	}
	if (n == "datacopy") { i64 s = o.at(1); NEED(in(a, NDATA) && !D[a].live && in(s, NDATA) && D[s].live); D[a] = D[s]; D[a].users.clear(); if (D[s].fr) D[a].fr = std::make_shared<std::vector<BKFrame>>(*D[s].fr); return 0; }
	if (n == "datadetach") { NEED(in(a, NDATA) && D[a].live); dataEvent((int)a, true); return 0; }
	if (n == "datadel") { NEED(in(a, NDATA) && D[a].live); dataEvent((int)a, true); D[a] = MData(); return 0; }
	if (n == "samp" || n == "wave") {
		i64 d = o.at(1); NEED(track(a) && d < NDATA && (d < 0 || D[d].live)); MTrack & t = T[a]; bool s = n == "samp"; if (d < 0) d = -1;
		if (t.bare) return setData((int)a, s, (int)d);
		if (!(s && t.wf == 7) || d != t.data) { int r = setData((int)a, s, (int)d); if (r) return r; }
		t.waveform = t.wf; updIgn(t); t.samplePitch = t.data >= 0 ? D[t.data].pitch : 0; updNote(t); return 0;
	}
	if (n == "range") { NEED(track(a)); MTrack & t = T[a]; if (t.wf != 7) return BK_INVALID_STATE; range(t, o.at(1) ? 0 : (int)o.at(2), o.at(1) ? -1 : (int)o.at(3)); sustain(t, 0, 0); return 0; }
	if (n == "sustain") { NEED(track(a)); MTrack & t = T[a]; if (t.wf != 7) return BK_INVALID_STATE; bool z = o.at(1) || (int)o.at(2) == (int)o.at(3); sustain(t, z ? 0 : (int)o.at(2), z ? 0 : (int)o.at(3)); return 0; }
	if (n == "scb") { NEED(track(a)); MTrack & t = T[a]; t.cbRet.assign(o.a.begin() + 1, o.a.end()); t.hasCb = !t.cbRet.empty(); return 0; }
	if (n == "clock") { NEED(in(a, NCLOCK) && !K[a].live); clockFires[a] = 0; if (o.at(1) <= 0) return BK_INVALID_VALUE; K[a] = MClock(); K[a].live = true; K[a].cb = !o.at(3); K[a].period = o.at(1); clockFires[a] = 0; return 0; }
	if (n == "clockattach") { i64 c = o.at(1), b = o.at(2); NEED(in(a, NCLOCK) && K[a].live && in(c, NCTX) && C[c].live && ((b < 0 && b >= -3) || (in(b, NCLOCK) && K[b].live && b != a))); return clockAttach((int)a, (int)c, b == -3 ? -1 : (int)b); }
	if (n == "clockdetach") { NEED(in(a, NCLOCK) && K[a].live); clockDetach((int)a); return 0; }
	if (n == "clockperiod") { NEED(in(a, NCLOCK) && K[a].live && o.at(1) > 0); K[a].period = o.at(1); return 0; }
	if (n == "clockreset") { NEED(in(a, NCLOCK) && K[a].live); clockReset((int)a); return 0; }
	if (n == "clockdrive") {   // the user ticks a clock which is in no context
		NEED(!inCallback && in(a, NCLOCK) && K[a].live && K[a].ctx < 0);
		for (i64 i = 0; i < o.at(1) && K[a].ctx < 0; i++) { if (K[a].own == K[a].next) clockTick((int)a); if (K[a].ctx >= 0) break; K[a].own += driveStep(o, i, K[a].next - K[a].own); }
		return 0;
	}
	if (n == "grouptick") { NEED(!inCallback); i64 x = 0; for (i64 i = 0; i < o.at(0); i++) groupTick(NCLOCK + 2 * NCTX, x); return 0; }
	if (n == "clockdel") { NEED(!inCallback && in(a, NCLOCK) && K[a].live); clockDetach((int)a); while (!G[a].list.empty()) divDetach(G[a].list[0]); K[a].live = false; return 0; }
	if (n == "div") { NEED(in(a, NDIV) && !V[a].live); i64 f = V[a].fires; (void)f; V[a] = MDiv(); V[a].live = true; V[a].cb = !o.at(3); u32 cnt = (u32)o.at(1); V[a].divider = (int)(cnt < 1 ? 1 : cnt); return 0; }
	if (n == "divattach") {
		i64 g = o.at(1), c = o.at(2); NEED(in(a, NDIV) && V[a].live && in(c, NCTX) && (g >= 0 || C[c].live) && (g < 0 || (in(g, NCLOCK) && K[g].live)));
		if (g >= 0) return divAttach((int)a, (int)g);
		if (g == -3) return divAttach((int)a, NCLOCK + 2 * NCTX);
		int r = divAttach((int)a, NCLOCK + 2 * (int)c + (g == -1 ? 1 : 0)); if (r) return r;
		clockAttach(NCLOCK + (int)c, (int)c, C[c].clocks.empty() ? -1 : -2); return 0;
	}
	if (n == "divdetach") { NEED(in(a, NDIV) && V[a].live); divDetach((int)a); return 0; }
	if (n == "divreset") { NEED(in(a, NDIV) && V[a].live); V[a].counter = 0; return 0; }
	if (n == "divdel") { NEED(!inCallback && in(a, NDIV) && V[a].live); divDetach((int)a); V[a].live = false; return 0; }
	return SKIP;
}

// ---------------------------------------------------------------- comparison
static const char * const kLevelName[] = { "volume 0", "volume 1", "period", "sample period", "duty cycle", "phase", "mute" };
std::vector<i64> Model::levelsAt() const {
	std::vector<i64> v;
	for (auto & t : T) { if (!t.live) { v.insert(v.end(), 7, -1); continue; } v.insert(v.end(), {t.vol[0], t.vol[1], (i64)t.period, std::llabs(t.speriod), t.duty, (i64)(int)t.phase, t.mute}); }
	return v;
}
std::string levelName(size_t i) { return "track " + std::to_string(i / 7) + " " + kLevelName[i % 7]; }

static const struct { BKEnum a; const char * n; } kSnap[] = {
	{BK_MASTER_VOLUME, "MASTER_VOLUME"}, {BK_VOLUME, "VOLUME"}, {BK_PANNING, "PANNING"}, {BK_NOTE, "NOTE"}, {BK_PITCH, "PITCH"}, {BK_SAMPLE_PITCH, "SAMPLE_PITCH"},
	{BK_ARPEGGIO_DIVIDER, "ARPEGGIO_DIVIDER"}, {BK_EFFECT_DIVIDER, "EFFECT_DIVIDER"}, {BK_INSTRUMENT_DIVIDER, "INSTRUMENT_DIVIDER"}, {BK_TRIANGLE_IGNORES_VOLUME, "TRIANGLE_IGNORES_VOLUME"},
	{BK_WAVEFORM, "WAVEFORM"}, {BK_DUTY_CYCLE, "DUTY_CYCLE"}, {BK_MUTE, "MUTE"}, {BK_PHASE, "PHASE"}, {BK_PHASE_WRAP, "PHASE_WRAP"}, {BK_PERIOD, "PERIOD"}, {BK_SAMPLE_PERIOD, "SAMPLE_PERIOD"},
	{BK_SAMPLE_REPEAT, "SAMPLE_REPEAT"}, {BK_SAMPLE_IMMED_RELEASE, "SAMPLE_IMMED_RELEASE"}, {BK_FLAG_RELEASE, "FLAG_RELEASE"}, {BK_NUM_PHASES, "NUM_PHASES"},
	{BK_VOLUME_0, "VOLUME_0"}, {BK_VOLUME_1, "VOLUME_1"}, {BK_VOLUME_2, "VOLUME_2"}, {BK_VOLUME_7, "VOLUME_7"} };
enum { NSNAP = sizeof kSnap / sizeof kSnap[0], NEXTRA = 2 + 15 + 9 + 4, PERTRACK = NSNAP + NEXTRA };
static const i64 NOTHING = -77777;
std::vector<i64> snapWorld(World & w) {
	std::vector<i64> v;
	for (int t = 0; t < NTRACK; t++) {
		if (!w.track[t]) { v.insert(v.end(), PERTRACK, NOTHING); continue; }
		for (auto & s : kSnap) { BKInt x = NOTHING; int r = w.getAttr(t, s.a, &x); if (s.a == BK_WAVEFORM && r == 0) x = waveIndex((BKEnum)x); v.push_back(r ? -99999 : x); }
		void * p = nullptr; int id = -1; w.getPtr(t, BK_INSTRUMENT, &p, sizeof p); if (p) { id = -2; for (int i = 0; i < NINSTR; i++) if (p == w.instr[i]) id = i; } v.push_back(id);
		p = nullptr; id = -1; w.getPtr(t, BK_SAMPLE, &p, sizeof p); if (p) { id = -2; for (int i = 0; i < NDATA; i++) if (p == w.data[i]) id = i; } v.push_back(id);
		for (int e = 0; e < 5; e++) { BKInt x[3] = {0, 0, 0}; w.getEff(t, e, x); v.insert(v.end(), {x[0], x[1], x[2]}); }
		BKInt arp[BK_MAX_ARPEGGIO + 1]; for (auto & x : arp) x = -1; w.getPtr(t, BK_ARPEGGIO, arp, sizeof arp); for (int i = 0; i < 9; i++) v.push_back(i > arp[0] ? -1 : arp[i]);
		BKInt x[2] = {0, 0}; w.getPtr(t, BK_SAMPLE_RANGE, x, sizeof x); v.insert(v.end(), {x[0], x[1]}); w.getPtr(t, BK_SAMPLE_SUSTAIN_RANGE, x, sizeof x); v.insert(v.end(), {x[0], x[1]});
	}
	for (int c = 0; c < NCTX; c++) { BKTime t = NOTHING, p = NOTHING; if (w.ctx[c]) { BKGetPtr(w.ctx[c], BK_TIME, &t, sizeof t); BKGetPtr(w.ctx[c], BK_CLOCK_PERIOD, &p, sizeof p); } v.push_back(t); v.push_back(p); }
	for (int d = 0; d < NDATA; d++) { BKInt x[3] = {(BKInt)NOTHING, (BKInt)NOTHING, (BKInt)NOTHING}; if (w.data[d]) { BKGetAttr(w.data[d], BK_NUM_FRAMES, &x[0]); BKDataGetAttr(w.data[d], BK_NUM_CHANNELS, &x[1]); BKGetAttr(w.data[d], BK_SAMPLE_PITCH, &x[2]); } v.insert(v.end(), {x[0], x[1], x[2]}); }
	for (int i = 0; i < NINSTR; i++) for (int k = 0; k < 4; k++) v.push_back(w.instr[i] ? BKInstrumentGetSequence(w.instr[i], (BKEnum)(BK_SEQUENCE_VOLUME + k)) != nullptr : NOTHING);
	return v;
}
std::vector<i64> Model::snap() const {
	std::vector<i64> v;
	for (auto & t : T) {
		if (!t.live) { v.insert(v.end(), PERTRACK, NOTHING); continue; }
		v.insert(v.end(), {t.master, t.volume.end >> 15, t.panning.end >> 15, t.curNote, t.pitch, t.samplePitch, t.arpDiv.divider, t.effDiv.divider, t.instrDiv.divider, t.triIgn,
			t.wf, t.duty, t.mute, (i64)(int)t.phase, (i64)(int)t.wrap, (i64)(int)t.period, std::llabs(t.speriod), t.repeatMode, t.fJump, t.fRelease, (i64)(int)(t.wf == 7 ? t.length : t.count), t.vol[0], t.vol[1], t.vol[2], t.vol[7]});
		if (t.bare) { size_t b = v.size() - NSNAP; for (size_t i = 0; i < NSNAP; i++) { BKEnum a = kSnap[i].a; if (a == BK_MASTER_VOLUME || a == BK_VOLUME || a == BK_PANNING || a == BK_NOTE || a == BK_PITCH || a == BK_SAMPLE_PITCH || a == BK_ARPEGGIO_DIVIDER || a == BK_EFFECT_DIVIDER || a == BK_INSTRUMENT_DIVIDER || a == BK_TRIANGLE_IGNORES_VOLUME) v[b + i] = -99999; } }
		v.push_back(t.instr); v.push_back(t.wf == 6 || t.wf == 7 ? t.data : -1);
		v.insert(v.end(), {t.volume.steps, 0, 0, t.panning.steps, 0, 0, t.note.steps, 0, 0});
		v.insert(v.end(), {t.tremS.end >> t.tremS.shift, t.tremD.end >> t.tremD.shift, t.tremD.steps, t.vibS.end >> t.vibS.shift, t.vibD.end >> t.vibD.shift, t.vibD.steps});
		v.push_back(t.bare ? -1 : t.arpCount); for (int i = 0; i < 8; i++) v.push_back(i < t.arpCount ? t.arpNotes[i] : -1);
		v.insert(v.end(), {(i64)(int)t.offset, (i64)(int)t.end, (i64)(int)t.susOff, (i64)(int)t.susEnd});
	}
	for (int c = 0; c < NCTX; c++) { if (C[c].live) { v.push_back(C[c].now); v.push_back(K[NCLOCK + c].period); } else { v.push_back(NOTHING); v.push_back(NOTHING); } }
	for (auto & d : D) { if (d.live) v.insert(v.end(), {d.nf, d.nch, d.pitch}); else v.insert(v.end(), 3, NOTHING); }
	for (auto & in : I) for (int k = 0; k < 4; k++) v.push_back(in.live ? in.seq[k] != nullptr : NOTHING);
	return v;
}
std::string snapName(size_t i) {
	if (i < (size_t)PERTRACK * NTRACK) {
		std::string s = "track " + std::to_string(i / PERTRACK) + " "; size_t k = i % PERTRACK;
		if (k < NSNAP) return s + kSnap[k].n; k -= NSNAP;
		if (k == 0) return s + "instrument"; if (k == 1) return s + "data"; k -= 2;
		if (k < 15) return s + "effect " + std::to_string(k / 3) + " value " + std::to_string(k % 3); k -= 15;
		if (k < 9) return s + "arpeggio " + std::to_string(k); k -= 9;
		return s + (k < 2 ? "sample range" : "sustain range");
	}
	i -= (size_t)PERTRACK * NTRACK;
	if (i < 2 * NCTX) return "context " + std::to_string(i / 2) + (i % 2 ? " clock period" : " time");
	i -= 2 * NCTX;
	if (i >= 3 * NDATA) { i -= 3 * NDATA; return "instrument " + std::to_string(i / 4) + " sequence " + std::to_string(i % 4); }
	return "data " + std::to_string(i / 3) + (i % 3 == 0 ? " frames" : i % 3 == 1 ? " channels" : " pitch");
}

void runAgainstModel(const Scenario & sc, const ModelOpts & mo, World & w, Model & m) {
	w.logAtFire = false; w.snapAtFire = mo.levels; m.logAtFire = mo.levels; m.audio = mo.audio;
	std::vector<int> wres;
	w.around = [&](World & ww, const Op & o) { int r = ww.applyRaw(o); if (ww.inCallback) wres.push_back(r); return r; };
	size_t ne = 0, ns = 0, nr = 0;
	std::vector<size_t> no(NCTX, 0);
	size_t step = 0;
	for (auto & o : sc.ops) {
		step++;
		if (o.n == "gen") budgetSet(2000000000ull);
		int r = mo.run ? mo.run(w, o) : w.apply(o); checkPending();
		bool no_ = mo.refused && mo.refused(w, o, r);
		int q = no_ ? r : m.apply(o);
		std::string at = "op " + std::to_string(step) + " (" + o.str().substr(0, 60) + ")";
		if (r != q) violate("result", "%s: result %d, specified %d", at.c_str(), r, q);
		size_t k = std::min(w.events.size(), m.events.size()), sn = 0;
		(void)sn;
		for (; ne < k; ne++) if (!(w.events[ne] == m.events[ne])) violate("callback", "%s: callback %zu is %s, specified %s", at.c_str(), ne, evStr(w.events[ne]).c_str(), evStr(m.events[ne]).c_str());
		if (mo.levels) for (size_t e = std::min(w.snaps.size(), m.snaps.size()); ns < e; ns++) {
			auto & x = w.snaps[ns]; auto & y = m.snaps[ns];
			for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) violate("levels", "%s: at clock/divider callback %zu %s is %lld, specified %lld", at.c_str(), ns, levelName(i).c_str(), (long long)x[i], (long long)y[i]);
		}
		if (w.events.size() != m.events.size()) violate("callback", "%s: %zu callbacks until now, specified %zu", at.c_str(), w.events.size(), m.events.size());
		for (size_t e = std::min(wres.size(), m.results.size()); nr < e; nr++) if (wres[nr] != m.results[nr]) violate("result", "%s: result of an operation in a callback %d, specified %d", at.c_str(), wres[nr], m.results[nr]);
		std::vector<i64> x = snapWorld(w), y = m.snap();
		for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) violate("attribute", "%s: %s is %lld, specified %lld", at.c_str(), snapName(i).c_str(), (long long)x[i], (long long)y[i]);
		if (o.n == "gen" && r != SKIP) {
			int c = (int)o.at(0); auto & p = w.out[c]; auto & s = m.out[c]; size_t ch = (size_t)w.nch[c];
			if (mo.audio) {
				for (size_t i = no[c]; i < std::min(p.size(), s.size()); i++) if (p[i] != s[i]) violate("sound", "%s: context %d frame %zu channel %zu is %d, specified %d", at.c_str(), c, i / ch, i % ch, p[i], s[i]);
				if (p.size() != s.size()) violate("sound", "%s: %zu frames, specified %zu", at.c_str(), p.size() / ch, s.size() / ch);
				no[c] = p.size();
				if (p.size() > 400000) { /* keep */ }
			}
			R.states.insert(abstractState(w));
		}
		if (mo.after) mo.after(w, m, o, at.c_str());
	}
}
