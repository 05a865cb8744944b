// C21: buffers, slides, oscillations, sequences and objects used on their own.
#include "sim.h"
extern "C" {
#include "BlipKit.h"
}
#include <cmath>
#include <memory>
#include <algorithm>

typedef long double LD;
static const int NB = 2, NS = 3, NI = 3, NQ = 4, NT = 4, NO = 3;
static bool is(const Op & o, const char * n) { return o.n == n; }

// ---------------------------------------------------------------- generator
static i64 genMax(Rng & r) { switch (r.range(0, 4)) { case 0: return 1LL << r.range(0, 30); case 1: return (1LL << r.range(1, 30)) - 1; case 2: return r.pick({0, 1, 2, 3, 127, 255, 32767, 32768, 65536}); case 3: return r.size(1, 0x7fffffff); default: return r.size(1, 70000); } }
static void genBuffer(Scenario & sc, Rng & r, int b) {
	switch (r.range(0, 11)) {
		case 0: sc.add("bkernel", {b, r.range(0, 1)}); break;
		case 1: case 2: case 3: case 4: { i64 k = r.range(1, 12); while (k--) sc.add("bpulse", {b, r.chance(60) ? r.size(0, 100LL << 20) : r.range(0, 4095LL << 20), r.chance(75) ? r.range(-65535, 65535) : r.size(0, 0x7fffffff) * (r.chance(50) ? 1 : -1)}); break; }
		case 5: sc.add("bframe", {b, r.size(0, 500LL << 20), r.range(-32768, 32767)}); break;
		case 6: case 7: sc.add("bend", {b, r.chance(70) ? r.size(1, 300LL << 20) : r.range(1, 4095LL << 20), r.chance(80) ? 0 : r.range(1, 1000)}); break;
		case 8: case 9: case 10: sc.add("bread", {b, r.chance(40) ? 4096 : r.size(0, 700), r.range(0, 4)}); break;
		case 11: if (r.chance(25)) sc.add("bclear", {b}); break;
	}
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	int what = (int)r.range(0, 5); i64 smax[NS] = {}, imax[NI] = {}; std::vector<i64> dims(NQ, 0);
	for (int i = 0; i < NS; i++) { smax[i] = genMax(r); sc.add("sinit", {i, smax[i]}); }
	for (int i = 0; i < NI; i++) { imax[i] = genMax(r); sc.add("iinit", {i, imax[i]}); }
	auto steps = [&](i64 top) { return r.chance(12) ? 0 : r.chance(80) ? r.size(1, 60) : r.size(1, top); };
	for (int i = 0, n = (int)r.range(10, thorough ? 250 : 90); i < n; i++) {
		int w = what < 5 && r.chance(85) ? what : (int)r.range(0, 4);
		if (w == 0) genBuffer(sc, r, (int)r.range(0, NB - 1));
		else if (w == 1) {
			int s = (int)r.range(0, NS - 1); i64 lim = smax[s] ? smax[s] : 100LL << 20; auto val = [&] { return r.chance(20) ? lim * r.pick({-1, 1}) : r.chance(20) ? 0 : r.range(-lim, lim); };
			switch (r.range(0, 7)) {
				case 0: case 1: sc.add("sset", {s, val(), steps(1 << 23)}); break;
				case 2: sc.add("sval", {s, val()}); break;
				case 3: sc.add("sstp", {s, steps(1 << 16)}); break;
				case 4: if (r.chance(40)) sc.add("shalt", {s, r.range(0, 1)}); break;
				default: sc.add("sstep", {s, r.chance(80) ? r.size(1, 80) : r.size(1, 3000)});
			}
		}
		else if (w == 2) {
			int s = (int)r.range(0, NI - 1); i64 lim = imax[s] ? imax[s] : 100LL << 20; auto val = [&] { return r.chance(20) ? lim : r.chance(15) ? -r.size(0, lim) : r.size(0, lim); };
			switch (r.range(0, 6)) {
				case 0: sc.add("iset", {s, val(), steps(1 << 23)}); break;
				case 1: sc.add("idelta", {s, val()}); break;
				case 2: sc.add("istp", {s, r.chance(85) ? r.size(1, 60) : r.size(1, 1 << 16)}); break;
				default: sc.add("istep", {s, r.chance(80) ? r.size(1, 80) : r.size(1, 3000)});
			}
		}
		else if (w == 3) {
			int q = (int)r.range(0, NQ - 1), t = (int)r.range(0, NT - 1);
			switch (r.range(0, 11)) {
				case 0: { std::vector<i64> v = {q, r.range(0, 1), 0, 0, r.chance(8) ? 1 : 0}; i64 len = r.chance(10) ? 0 : r.range(1, 8); v[2] = r.chance(10) ? r.range(0, 12) : r.range(0, len); v[3] = r.chance(10) ? r.range(0, 12) : r.range(0, len - v[2]); i64 m = genMax(r) & 0x3fffffff; for (i64 k = 0; k < len; k++) { if (v[1]) v.push_back(r.chance(20) ? 0 : r.size(1, 40)); v.push_back(r.range(-m, m)); } sc.add("qnew", v); break; }
				case 1: if (r.chance(50)) sc.add("qcopy", {q, r.range(0, NQ - 1), r.chance(10) ? 1 : 0}); break;
				case 2: if (r.chance(40)) sc.add("qdel", {q}); break;
				case 3: case 4: sc.add("qset", {t, r.range(-1, NQ - 1)}); break;
				case 5: case 6: sc.add("qphase", {t, r.chance(92) ? r.range(0, 2) : r.range(3, 9)}); break;
				case 7: sc.add("qval", {t, r.range(-2000, 2000)}); break;
				case 8: if (r.chance(30)) sc.add("qsdel", {t}); break;
				default: sc.add("qstep", {t, r.range(0, 1), r.size(1, 60)});
			}
		}
		else switch (r.range(0, 5)) {
			case 0: case 1: sc.add("onew", {r.range(0, NO - 1), r.range(0, 15), r.range(0, 1), r.size(0, 200), r.chance(10) ? r.range(1, 3) : 0}); break;
			case 2: sc.add("odel", {r.range(0, NO - 1), r.range(0, 1)}); break;
			case 3: case 4: sc.add("oattr", {r.range(0, NO - 1), r.range(0, 3), r.range(-100, 100), r.range(-100000, 100000)}); break;
			case 5: sc.add("tone", {r.chance(90) ? r.range(-(5LL << 20), 105LL << 20) : r.range(-0x7fffffff, 0x7fffffff), r.chance(90) ? r.range(10000, 200000) : r.size(0, 0xffffffff)}); sc.add("status", {r.range(0, 30)}); break;
		}
	}
}

// ---------------------------------------------------------------- buffers
struct Buf { std::unique_ptr<BKBuffer> b; std::vector<i64> diff; i64 time = 0, read = 0, last = 0; i64 accum = 0; int kernel = 1; };
static i64 floorDiv2(i64 v, int s) { i64 d = (i64)1 << s; i64 q = v / d; if (v % d && v < 0) q--; return q; }
struct Slide { BKSlideState s; bool live = false; i64 max = 0; int shift = 0; LD v = 0, err = 0, end = 0, start = 0; i64 steps = 0, left = 0, done = 0; BKInt last = 0; };
struct Osc { BKIntervalState s; bool live = false, off = true; i64 max = 0; int shift = 0; i64 d = 0, n = 0, step = 0; int phase = 0; bool fresh = true; };
struct Seq { BKSequence * q = nullptr; int kind = 0; std::vector<i64> steps, val; i64 so = 0, sl = 0; int shift = 0; i64 max = 0; };
struct St { BKSequenceState * s = nullptr; int q = -1; int phase = 0; i64 off = 0, left = 0, end = 0; LD v = 0, err = 0, delta = 0, derr = 0; };
static int shiftFor(i64 max, i64 top) { int s = 0; if (max <= 0) return 0; while (s < 30 && (max << (s + 1)) <= top) s++; return s; }
static const i64 DONE = INT32_MAX;

struct ObjLog { int disposed = 0, sets = 0; };
static ObjLog gObj[NO];
struct MyObj { BKObject object; int slot; BKInt v[4]; };
static BKInt mySet(void * o, BKEnum a, BKInt v) { MyObj * m = (MyObj *)o; if (a > 3) return BK_INVALID_ATTRIBUTE; m->v[a] = v; gObj[m->slot].sets++; return 0; }
static BKInt myGet(void const * o, BKEnum a, BKInt * v) { const MyObj * m = (const MyObj *)o; if (a > 3) return BK_INVALID_ATTRIBUTE; *v = m->v[a]; return 0; }
static BKInt mySetP(void * o, BKEnum a, void * p, BKSize n) { MyObj * m = (MyObj *)o; if (a > 3) return BK_INVALID_ATTRIBUTE; if (n < sizeof(BKInt)) return BK_INVALID_VALUE; m->v[a] = *(BKInt *)p; return 0; }
static BKInt myGetP(void const * o, BKEnum a, void * p, BKSize n) { const MyObj * m = (const MyObj *)o; if (a > 3) return BK_INVALID_ATTRIBUTE; if (n < sizeof(BKInt)) return BK_INVALID_VALUE; *(BKInt *)p = m->v[a]; return 0; }
static void myDispose(void * o) { gObj[((MyObj *)o)->slot].disposed++; }
struct Obj { MyObj * p = nullptr; bool own = false; int mask = 0; BKClass cls; BKInt v[4] = {}; };

struct Sim {
	Buf B[NB]; Slide S[NS]; Osc I[NI]; Seq Q[NQ]; St T[NT]; Obj O[NO]; std::string at;
	void fail(const char * cls, const char * fmt, ...) __attribute__((format(printf, 3, 4))) { char m[300]; va_list l; va_start(l, fmt); vsnprintf(m, sizeof m, fmt, l); va_end(l); violate(cls, "%s: %s", at.c_str(), m); }

	// ---- buffers
	Buf * buf(i64 i) { if (i < 0 || i >= NB) return nullptr; Buf & b = B[i]; if (!b.b) { b.b.reset(new BKBuffer); memset(b.b.get(), 0xA7, sizeof(BKBuffer)); if (BKBufferInit(b.b.get()) != 0) fail("result", "BKBufferInit failed"); b.diff.clear(); b.time = b.read = b.last = b.accum = 0; b.kernel = BK_PULSE_KERNEL_HARM; } return &b; }
	void add(Buf & b, i64 frame, i64 v) { if ((i64)b.diff.size() <= frame) b.diff.resize((size_t)frame + 1, 0); b.diff[(size_t)frame] += v; }
	void buffer(const Op & o) {
		Buf * p = buf(o.at(0)); if (!p) return; Buf & b = *p; i64 rel = b.time - (b.read << 20), t = o.at(1);      // time of the buffer
		if (is(o, "bkernel")) { if (t != 0 && t != 1) return; b.b->pulse = BKBufferPulseKernels[t]; b.kernel = (int)t; return; }
		if (is(o, "bclear")) { BKBufferClear(b.b.get()); b.diff.clear(); b.time = b.read = b.last = b.accum = 0; if (BKBufferSize(b.b.get())) fail("buffer", "a cleared buffer has %d frames", BKBufferSize(b.b.get())); return; }
		if (t < 0) return;
		if (is(o, "bpulse") || is(o, "bframe")) {
			if (rel + t >= (4095LL << 20)) return;
			i64 f = b.time + t, v = (BKInt)o.at(2); b.last = std::max(b.last, f);
			if (is(o, "bframe")) { v = (int16_t)v; BKBufferAddFrame(b.b.get(), (BKFUInt20)t, (BKFrame)v); add(b, f >> 20, v * BK_MAX_VOLUME); probe("frame_added"); return; }
			BKBufferAddPulse(b.b.get(), (BKFUInt20)t, (BKInt)v);
			for (int i = 0; i < 32; i++) add(b, (f >> 20) + i, v * BKBufferPulseKernels[b.kernel]->frames[(f & 0xfffff) >> 15][i]);
			probe("pulse_added"); return;
		}
		if (is(o, "bend")) {   // end the frame, then move the time, in one or in several steps
			if (t < 1 || rel + t >= (4095LL << 20)) return;
			BKBufferEnd(b.b.get(), (BKFUInt20)t); i64 parts = o.at(2) > 0 ? 3 : 1, left = t;
			for (i64 k = 0; k < parts; k++) { i64 s = k == parts - 1 ? left : left * (o.at(2) % 1000) / 1000 / 2; BKBufferShift(b.b.get(), (BKFUInt20)s); left -= s; }
			b.time += t; i64 n = (b.time >> 20) - b.read;
			if (BKBufferSize(b.b.get()) != n) fail("buffer", "%d frames can be read instead of %lld", BKBufferSize(b.b.get()), (long long)n);
			return;
		}
		if (is(o, "bread")) {
			if (b.last >> 20 > b.time >> 20) return;      // pulses have to be within the frame which was ended
			i64 n = t > 5000 ? 5000 : t, avail = (b.time >> 20) - b.read, il = o.at(2) < 0 || o.at(2) > 8 ? 1 : o.at(2), st = il ? il : 1;
			std::vector<BKFrame> f((size_t)(n * st + 1), 0x2222);
			i64 got = BKBufferRead(b.b.get(), f.data(), (BKUInt)n, (BKUInt)il), want = std::min(n, avail);
			if (got != want) fail("buffer", "%lld frames were read instead of %lld", (long long)got, (long long)want);
			for (i64 i = 0; i < want; i++) {
				i64 d = b.read + i < (i64)b.diff.size() ? b.diff[(size_t)(b.read + i)] : 0;
				b.accum -= floorDiv2(b.accum, 9); b.accum += d; i64 a = floorDiv2(b.accum, 14); a = a < -32768 ? -32768 : a > 32767 ? 32767 : a;
				if (f[(size_t)(i * st)] != a) fail("buffer", "frame %lld is %d instead of %lld", (long long)(b.read + i), f[(size_t)(i * st)], (long long)a);
				if (a) R.nontrivial = true;
				logHash(&a, sizeof a);
			}
			for (size_t i = 0; i < f.size(); i++) if ((i % (size_t)st || (i64)(i / (size_t)st) >= want) && f[i] != 0x2222) fail("buffer", "value %zu of the output was written", i);
			b.read += want; if (BKBufferSize(b.b.get()) != (b.time >> 20) - b.read) fail("buffer", "%d frames are left instead of %lld", BKBufferSize(b.b.get()), (long long)((b.time >> 20) - b.read));
			R.states.insert(1 + 16 * (u64)(st) + 256 * (u64)(want == avail) + 512 * (u64)(want > 0) + 1024 * (u64)((b.time & 0xfffff) >> 17)); probe("buffer_read"); return;
		}
	}
	// ---- slides
	void checkSlide(Slide & s, bool stepped) {
		BKInt g = BKSlideStateGetValue(&s.s);
		LD tol = 0.5L + s.err + 1e-9L * (1 + fabsl(s.v));
		if (fabsl((LD)g - s.v) > tol) fail("slide", "the value is %d instead of %.3Lf (%lld of %lld steps done)", g, s.v, (long long)s.done, (long long)s.steps);
		if (!s.left && s.err == 0 && s.v == s.end && (LD)g != s.end) fail("slide", "the value at the end is %d instead of %.0Lf", g, s.end);
		if (stepped && (s.end >= s.start ? g < s.last : g > s.last)) fail("slide", "the value moved from %d to %d, away from %.0Lf", s.last, g, s.end);
		s.last = g; logHash(&g, sizeof g);
	}
	void begin(Slide & s, i64 end, i64 steps) {
		if (steps > 0) { s.end = end; s.start = s.v; s.steps = steps; s.left = steps; s.done = 0; s.last = BKSlideStateGetValue(&s.s); }
		else { s.v = s.end = s.start = end; s.err = 0; s.steps = 0; s.left = 0; s.done = 0; }
	}
	void slide(const Op & o) {
		i64 i = o.at(0); if (i < 0 || i >= NS) return; Slide & s = S[i];
		if (is(o, "sinit")) { if (o.at(1) < 0 || o.at(1) > 0x7fffffff) return; memset(&s.s, 0x5A, sizeof s.s); BKSlideStateInit(&s.s, (BKInt)o.at(1)); BKSlideState t = s.s; s = Slide(); s.s = t; s.live = true; s.max = o.at(1); s.shift = shiftFor(s.max, 1LL << 30); checkSlide(s, false); return; }
		if (!s.live) return; i64 lim = s.max ? s.max : 100LL << 20; auto in = [&](i64 v) { return v < -lim ? -lim : v > lim ? lim : v; };
		if (is(o, "sset")) { i64 v = in(o.at(1)), n = o.at(2); if (n < 0 || n > BK_STATE_MAX_STEPS) return; BKSlideStateSetValueAndSteps(&s.s, (BKInt)v, (BKInt)n); begin(s, v, n); checkSlide(s, false); return; }
		if (is(o, "sval")) { i64 v = in(o.at(1)); BKSlideStateSetValue(&s.s, (BKInt)v); begin(s, v, s.steps); checkSlide(s, false); return; }
		if (is(o, "sstp")) { i64 n = o.at(1); if (n < 0 || n > BK_STATE_MAX_STEPS) return; BKSlideStateSetSteps(&s.s, (BKInt)n); begin(s, (i64)s.end, n); checkSlide(s, false); return; }
		if (is(o, "shalt")) { BKSlideStateHalt(&s.s, o.at(1) != 0); if (o.at(1)) { s.v = s.end; s.err = 0; } s.left = 0; checkSlide(s, false); probe("slide_halted"); return; }
		if (is(o, "sstep")) {
			LD unit = 1.0L / (LD)((i64)1 << s.shift), e0 = s.err, v0 = s.v; i64 n0 = s.left;
			for (i64 k = 1; k <= o.at(1) && k <= 20000; k++) {
				BKSlideStateStep(&s.s);
				if (s.left) { s.left--; s.done++; if (s.left) { s.v = v0 + (s.end - v0) * (LD)k / (LD)n0; s.err = e0 + (LD)k * unit; } else { s.v = s.end; s.err = 0; probe("slide_arrived"); R.nontrivial = true; } }
				checkSlide(s, true);
			}
			R.states.insert(2 + 16 * (u64)s.shift + 1024 * (u64)(s.left > 0) + 2048 * (u64)(s.end < v0) + 4096 * (u64)(s.steps == 1)); return;
		}
	}
	// ---- oscillations
	void checkOsc(Osc & s) {
		BKInt g = BKIntervalStateGetValue(&s.s); LD v = 0, err = 0, unit = 1.0L / (LD)((i64)1 << s.shift);
		if (!s.off) {
			LD x = (LD)s.d * (LD)s.step / (LD)s.n; v = s.phase == 0 ? x : s.phase == 1 ? (LD)s.d - x : s.phase == 2 ? -x : x - (LD)s.d;
			err = (LD)s.n * unit; if (s.step == 0 && s.fresh) err = 0;
		}
		if (fabsl((LD)g - v) > 0.5L + err + 1e-9L * (1 + fabsl(v))) fail("oscillation", "the value is %d instead of %.3Lf (step %lld of %lld in phase %d)", g, v, (long long)s.step, (long long)s.n, s.phase);
		if (g > llabs(s.d) || g < -llabs(s.d)) fail("oscillation", "the value %d is larger than %lld", g, (long long)s.d);
		logHash(&g, sizeof g);
	}
	void setOsc(Osc & s, i64 d, i64 n) {
		if (n <= 0) { s.off = true; s.d = s.n = s.step = 0; s.phase = 0; return; }
		bool was = !s.off; i64 on = s.n, os = s.step; bool same = was && on == n && s.d == d;
		s.off = false; s.d = d; s.n = n; i64 st = s.s.step;
		if (!was) { if (st != 0) fail("oscillation", "it begins at step %lld", (long long)st); s.phase = 0; s.step = 0; s.fresh = true; return; }
		if (same) return;
		if (st < 0 || st >= n || fabsl((LD)st / n - (LD)os / on) > 1.0L / 256 + 1.0L / n + 0.5L / on) fail("oscillation", "step %lld of %lld became step %lld of %lld", (long long)os, (long long)on, (long long)st, (long long)n);
		s.step = st; s.fresh = false; probe("oscillation_changed");
	}
	void osc(const Op & o) {
		i64 i = o.at(0); if (i < 0 || i >= NI) return; Osc & s = I[i];
		if (is(o, "iinit")) { if (o.at(1) < 0 || o.at(1) > 0x7fffffff) return; memset(&s.s, 0x5A, sizeof s.s); BKIntervalStateInit(&s.s, (BKInt)o.at(1)); BKIntervalState t = s.s; s = Osc(); s.s = t; s.live = true; s.max = o.at(1); s.shift = shiftFor(s.max, 1LL << 29); checkOsc(s); return; }
		if (!s.live) return; i64 lim = s.max ? s.max : 100LL << 20; auto in = [&](i64 v) { return v < -lim ? -lim : v > lim ? lim : v; };
		if (is(o, "iset")) { i64 d = in(o.at(1)), n = o.at(2); if (n < 0 || n > BK_STATE_MAX_STEPS) return; BKIntervalStateSetDeltaAndSteps(&s.s, (BKInt)d, (BKInt)n); setOsc(s, d, n); checkOsc(s); return; }
		if (s.off) return;     // no steps or delta to keep
		if (is(o, "idelta")) { i64 d = in(o.at(1)); BKIntervalStateSetDelta(&s.s, (BKInt)d); setOsc(s, d, s.n); checkOsc(s); return; }
		if (is(o, "istp")) { i64 n = o.at(1); if (n < 1 || n > BK_STATE_MAX_STEPS) return; BKIntervalStateSetSteps(&s.s, (BKInt)n); setOsc(s, s.d, n); checkOsc(s); return; }
		if (is(o, "istep")) {
			for (i64 k = 0; k < o.at(1) && k < 20000; k++) {
				BKIntervalStateStep(&s.s);
				if (++s.step >= s.n) { s.step = 0; s.phase = (s.phase + 1) & 3; s.fresh = true; if (s.phase == 0) { probe("oscillation_period"); R.nontrivial = true; } }
				checkOsc(s);
			}
			R.states.insert(3 + 16 * (u64)s.shift + 1024 * (u64)s.phase + 4096 * (u64)s.fresh + 8192 * (u64)(s.d < 0) + 16384 * (u64)(s.n < 3)); return;
		}
	}
	// ---- sequences
	static const int NONE = BK_SEQUENCE_RETURN_NONE, STEP = BK_SEQUENCE_RETURN_STEP, REPEAT = BK_SEQUENCE_RETURN_REPEAT, FINISH = BK_SEQUENCE_RETURN_FINISH;
	St * state(i64 i) { if (i < 0 || i >= NT) return nullptr; St & t = T[i]; if (!t.s) { t = St(); t.s = (BKSequenceState *)std::calloc(1, sizeof(BKSequenceState)); } return &t; }
	int envStep(St & t) {
		Seq & q = Q[t.q]; int r = STEP; i64 len = (i64)q.val.size(); LD unit = 1.0L / (LD)((i64)1 << q.shift);
		if (t.off == DONE) return NONE;
		do {
			if (t.left) { t.left--; if (t.left > 0) { t.v += t.delta; t.err += t.derr; break; } t.v = (LD)t.end; t.err = 0; t.off++; }
			if (t.phase == BK_SEQUENCE_PHASE_ATTACK && t.off >= q.so + q.sl) { t.off = q.so; r = REPEAT; }
			if (t.off >= len) { t.off = DONE; return FINISH; }
			if (q.steps[(size_t)t.off]) { t.left = q.steps[(size_t)t.off]; t.end = q.val[(size_t)t.off]; t.delta = ((LD)t.end - t.v) / (LD)t.left; t.derr = unit; }
			else { t.v = (LD)q.val[(size_t)t.off]; t.err = 0; t.left = 0; t.off++; }
		} while (t.left == 0);
		return r;
	}
	int phase(St & t, int ph) {
		Seq & q = Q[t.q]; i64 len = (i64)q.val.size(); int r = NONE;
		if (q.kind == 0) {
			t.off = ph == 0 ? len : ph == 1 ? 0 : q.so + q.sl; t.phase = ph;
			if (t.off < len) t.v = (LD)q.val[(size_t)t.off], t.err = 0; else { t.off = DONE; r = FINISH; }
			return r;
		}
		t.left = 0; t.off = ph == 0 ? len : ph == 1 ? 0 : q.so + q.sl; t.phase = ph;
		if (ph) r = envStep(t);
		if (r == NONE && t.off >= len) { t.off = len; r = FINISH; }
		return r;
	}
	void checkSt(St & t, int res, int want) {
		if (want >= 0 && res != want) fail("sequence", "the result is %d instead of %d", res, want);
		LD g = (LD)t.s->value, e = t.err + 1e-9L * (1 + fabsl(t.v)); bool exact = t.err == 0 && t.v == floorl(t.v);
		if (exact ? g != t.v : (g > t.v + e || g < t.v - e - 1)) fail("sequence", "the value is %d instead of %.3Lf", t.s->value, t.v);
		if (t.q >= 0 && t.s->sequence != Q[t.q].q) fail("sequence", "the state belongs to another sequence");
		logHash(&t.s->value, sizeof t.s->value);
	}
	void lists() {         // every sequence knows exactly the states which use it
		for (int i = 0; i < NQ; i++) if (Q[i].q) {
			std::set<BKSequenceState *> want, have; for (auto & t : T) if (t.s && t.q == i) want.insert(t.s);
			BKSequenceState * prev = nullptr; for (BKSequenceState * s = Q[i].q->stateList; s; s = s->nextState) { if (!have.insert(s).second) fail("sequence", "the states of a sequence form a circle"); if (s->prevState != prev) fail("sequence", "the states of a sequence are linked wrongly"); prev = s; }
			if (have != want) fail("sequence", "a sequence knows %zu states instead of %zu", have.size(), want.size());
		}
	}
	void sequence(const Op & o) {
		i64 i = o.at(0);
		if (is(o, "qnew")) {
			if (i < 0 || i >= NQ || Q[i].q) return; Seq q; q.kind = o.at(1) != 0; q.so = o.at(2) < 0 ? 0 : o.at(2); q.sl = o.at(3) < 0 ? 0 : o.at(3);
			std::vector<BKInt> v; std::vector<BKSequencePhase> p;
			for (size_t k = 5; k + (size_t)q.kind < o.a.size(); k += 1 + (size_t)q.kind) { i64 val = o.a[k + (size_t)q.kind]; if (llabs(val) > 0x3fffffff) val = 0; i64 st = q.kind ? o.a[k] : 0; if (st < 0 || st > 100000) st = 0; q.val.push_back(val); q.steps.push_back(st); v.push_back((BKInt)val); p.push_back({(BKUInt)st, (BKInt)val}); if (llabs(val) > q.max) q.max = llabs(val); }
			i64 len = (i64)q.val.size(); i64 so = q.so, sl = q.sl; if (q.so > len) q.so = len; if (q.sl > len - q.so) q.sl = len - q.so; q.shift = q.kind ? shiftFor(q.max + 1, 1LL << 30) : 0;
			bool bad = false; if (q.kind && q.so < len) { i64 sum = 0; for (i64 k = q.so; k < q.so + q.sl; k++) sum += q.steps[(size_t)k]; bad = sum == 0; }
			BKSequence * out = (BKSequence *)0x10; v.push_back(0); p.push_back({0, 0}); allocMark(); if (o.at(4)) allocPlan.failAt = {1};
			BKInt r = BKSequenceCreate(&out, q.kind ? &BKSequenceFuncsEnvelope : &BKSequenceFuncsSimple, q.kind ? (void *)p.data() : (void *)v.data(), (BKUInt)len, (BKUInt)so, (BKUInt)sl); allocPlan.failAt.clear();
			if (bad ? r != BK_INVALID_VALUE : o.at(4) ? r != BK_ALLOCATION_ERROR : r != 0) fail("result", "creating a sequence returned %d", r);
			if (r) { if (out != (BKSequence *)0x10) fail("result", "a sequence which was not created was returned"); return; }
			q.q = out; Q[i] = q; lists(); return;
		}
		if (is(o, "qcopy")) {
			i64 j = o.at(1); if (i < 0 || i >= NQ || j < 0 || j >= NQ || Q[i].q || !Q[j].q) return;
			BKSequence * out = (BKSequence *)0x10; allocMark(); if (o.at(2)) allocPlan.failAt = {1};
			BKInt r = BKSequenceCopy(&out, Q[j].q); allocPlan.failAt.clear(); if (o.at(2) ? r != BK_ALLOCATION_ERROR : r != 0) fail("result", "copying a sequence returned %d", r);
			if (r) return; Q[i] = Q[j]; Q[i].q = out; if (out == Q[j].q) fail("result", "the copy is the sequence itself"); probe("sequence_copied"); lists(); return;
		}
		if (is(o, "qdel")) { if (i < 0 || i >= NQ || !Q[i].q) return; for (auto & t : T) if (t.s && t.q == i) { BKSequenceStateSetSequence(t.s, nullptr); t.q = -1; } lists(); BKSequenceDispose(Q[i].q); Q[i] = Seq(); return; }
		St * p = state(i); if (!p) return; St & t = *p;
		if (is(o, "qset")) {
			i64 j = o.at(1); if (j < -1 || j >= NQ || (j >= 0 && !Q[j].q)) return;
			BKSequenceStateSetSequence(t.s, j < 0 ? nullptr : Q[j].q); 
			if (j != t.q) { t.q = (int)j; if (t.err) { t.v = (LD)t.s->value; t.err = 0; } if (j >= 0) { if (Q[j].kind) t.v = (LD)t.s->value + (t.v - (LD)t.s->value), t.left = 0; phase(t, t.phase); } }
			checkSt(t, 0, -1); lists(); probe("sequence_set"); return;
		}
		if (is(o, "qsdel")) { BKSequenceStateSetSequence(t.s, nullptr); std::free(t.s); t = St(); lists(); return; }
		if (is(o, "qphase")) { i64 ph = o.at(1); if (ph < 0 || ph > 100) return; BKInt r = BKSequenceStateSetPhase(t.s, (BKEnum)ph); if (t.q < 0) { if (r != BK_INVALID_STATE) fail("sequence", "setting the phase without sequence returned %d", r); return; } if (ph > 2) { if (r != BK_INVALID_ATTRIBUTE) fail("sequence", "an unknown phase returned %d", r); checkSt(t, 0, -1); return; } checkSt(t, r, phase(t, (int)ph)); probe(ph == 2 ? "sequence_released" : ph ? "sequence_attacked" : "sequence_muted"); return; }
		if (is(o, "qval")) { i64 v = o.at(1); if (llabs(v) > 0x3fffffff) return; if (t.q >= 0 && Q[t.q].kind && llabs(v) > Q[t.q].max) probe("sequence_value_out_of_range"); BKInt r = BKSequenceStateSetValue(t.s, (BKInt)v); t.v = (LD)v; t.err = 0; if (t.q >= 0 && Q[t.q].kind && t.left) t.delta = ((LD)t.end - t.v) / (LD)t.left; checkSt(t, r, 0); return; }
		if (is(o, "qstep")) {
			for (i64 k = 0; k < o.at(2) && k < 2000; k++) {
				BKInt r = BKSequenceStateStep(t.s, o.at(1) ? BK_SEQUENCE_STEP_DIVIDED : BK_SEQUENCE_STEP_MAX);
				if (t.q < 0) { if (r != BK_INVALID_STATE) fail("sequence", "a step without sequence returned %d", r); return; }
				Seq & q = Q[t.q]; int want = NONE;
				if (q.kind) want = envStep(t);
				else if (o.at(1) && t.off != DONE) { want = STEP; if (t.phase == 1 && t.off >= q.so + q.sl) { t.off = q.so; want = REPEAT; } if (t.off < (i64)q.val.size()) { t.v = (LD)q.val[(size_t)t.off++]; t.err = 0; } else { t.off = DONE; want = FINISH; } }
				checkSt(t, r, want); if (want == REPEAT) { probe("sequence_repeated"); R.nontrivial = true; } if (want == FINISH) { probe("sequence_finished"); R.nontrivial = true; }
			}
			if (t.q >= 0) R.states.insert(4 + 16 * (u64)Q[t.q].kind + 32 * (u64)t.phase + 128 * (u64)(t.off == DONE) + 256 * (u64)Q[t.q].shift + 8192 * (u64)(t.left > 0)); return;
		}
	}
	// ---- objects of own classes
	void object(const Op & o) {
		i64 i = o.at(0); if (i < 0 || i >= NO) return; Obj & x = O[i];
		if (is(o, "onew")) {
			if (x.p) return; x.mask = (int)o.at(1); memset(&x.cls, 0, sizeof x.cls); x.cls.instanceSize = sizeof(MyObj); x.cls.dispose = myDispose;
			if (x.mask & 1) x.cls.setAttr = mySet; if (x.mask & 2) x.cls.getAttr = myGet; if (x.mask & 4) x.cls.setPtr = mySetP; if (x.mask & 8) x.cls.getPtr = myGetP;
			gObj[i] = ObjLog(); x.own = o.at(2) != 0; i64 bad = o.at(4);
			if (x.own) { MyObj * m = (MyObj *)std::malloc(sizeof(MyObj)); memset(m, 0x77, sizeof *m); BKInt r = BKObjectInit(bad == 1 ? nullptr : m, bad == 2 ? nullptr : &x.cls, bad == 3 ? sizeof(MyObj) - 1 : sizeof(MyObj)); if ((bad != 0) != (r != 0)) fail("result", "BKObjectInit returned %d", r); if (r) { std::free(m); return; } x.p = m; }
			else { i64 extra = o.at(3) < 0 || o.at(3) > 10000 ? 0 : o.at(3); void * m = (void *)0x10; allocMark(); if (bad == 3) allocPlan.failAt = {1}; BKInt r = BKObjectAlloc(bad == 1 ? nullptr : &m, bad == 2 ? nullptr : &x.cls, (BKSize)extra); allocPlan.failAt.clear(); if ((bad != 0) != (r != 0)) fail("result", "BKObjectAlloc returned %d", r); if (r) { if (bad != 1 && m) fail("result", "an object which was not allocated was returned"); return; } x.p = (MyObj *)m; memset(x.p + 1, 0x33, (size_t)extra); }
			for (int k = 0; k < 4; k++) { if (x.p->v[k]) fail("object", "a new object is not empty"); x.v[k] = 0; }
			x.p->slot = (int)i; return;
		}
		if (!x.p) return;
		if (is(o, "odel")) { BKDispose(x.p); if (gObj[i].disposed != 1) fail("object", "dispose was called %d times", gObj[i].disposed); if (x.own) { if (o.at(1)) BKDispose(x.p); for (size_t k = 0; k < sizeof(MyObj); k++) if (((unsigned char *)x.p)[k]) fail("object", "a disposed object is not emptied"); std::free(x.p); if (gObj[i].disposed != 1) fail("object", "dispose was called again for a disposed object"); } x.p = nullptr; probe("object_disposed"); return; }
		if (is(o, "oattr")) {
			i64 a = o.at(2) < 0 ? 9 : o.at(2) % 5; BKInt v = (BKInt)o.at(3), g = -7; BKInt r; int k = (int)o.at(1) & 3;
			if (k == 0) { r = BKSetAttr(x.p, (BKEnum)a, v); if (r == 0) x.v[a] = v; }
			else if (k == 1) { r = BKGetAttr(x.p, (BKEnum)a, &g); if (r == 0 && g != x.v[a]) fail("object", "attribute %lld is %d instead of %d", (long long)a, g, x.v[a]); }
			else if (k == 2) { r = BKSetPtr(x.p, (BKEnum)a, &v, sizeof v); if (r == 0) x.v[a] = v; }
			else { r = BKGetPtr(x.p, (BKEnum)a, &g, sizeof g); if (r == 0 && g != x.v[a]) fail("object", "pointer attribute %lld is %d instead of %d", (long long)a, g, x.v[a]); }
			BKInt want = !(x.mask >> k & 1) ? BK_INVALID_STATE : a > 3 ? BK_INVALID_ATTRIBUTE : 0;
			if (r != want) fail("object", "the result is %d instead of %d", r, want);
			for (int e = 0; e < 4; e++) if (x.p->v[e] != x.v[e]) fail("object", "attribute %d is %d instead of %d", e, x.p->v[e], x.v[e]);
			probe("object_attribute");
		}
	}
	void tone(const Op & o) {
		i64 t = (BKInt)o.at(0); u32 rate = (u32)o.at(1); i64 c = t < 0 ? 0 : t > 96LL << 20 ? 96LL << 20 : t; u32 rt = rate < BK_MIN_SAMPLE_RATE ? BK_MIN_SAMPLE_RATE : rate > BK_MAX_SAMPLE_RATE ? BK_MAX_SAMPLE_RATE : rate;
		u32 p = BKTonePeriodLookup((BKFInt20)t, rate), l = BKLog2PeriodLookup((BKFInt20)t);
		if (p != BKTonePeriodLookup((BKFInt20)c, rt) || l != BKLog2PeriodLookup((BKFInt20)c)) fail("tone", "the period of tone %lld is not that of the nearest one", (long long)t);
		LD want = 1048576.0L * powl(2.0L, ((LD)c / 1048576.0L - 48) / 12); if (fabsl((LD)l / want - 1) > 0.003L) fail("tone", "the factor of tone %lld is %u instead of %.0Lf", (long long)c, l, want);
		if (c < 96LL << 20) { i64 d = c + 1 + (i64)((u64)o.at(0) * 2654435761u % (1 << 20)); if (d > 96LL << 20) d = 96LL << 20; if (BKTonePeriodLookup((BKFInt20)d, rt) > p) fail("tone", "the period of tone %lld is greater than that of tone %lld", (long long)d, (long long)c); if (BKLog2PeriodLookup((BKFInt20)d) < l) fail("tone", "the factor of tone %lld is less than that of tone %lld", (long long)d, (long long)c); }
		probe("tone");
	}
	void status(const Op & o) {
		i64 k = o.at(0); if (k < 0 || k > 40) return; BKEnum s = (BKEnum)((u32)BK_RETURN_TYPE + (u32)k); const char * n = BKStatusGetName(s); bool known = k >= 1 && s <= (BKEnum)BK_OTHER_ERROR;
		if (!n || !*n) fail("status", "a status has no name"); if (known != (strcmp(n, BKStatusGetName(0x12345)) != 0)) fail("status", "status %lld is called %s", (long long)k, n);
		if (known) for (u32 j = (u32)BK_RETURN_TYPE + 1; j <= (u32)BK_OTHER_ERROR; j++) if (j != s && !strcmp(n, BKStatusGetName((BKEnum)j))) fail("status", "two status have the name %s", n);
	}
};
static void exec(const Scenario & sc) {
	Sim m; int step = 0;
	for (auto & o : sc.ops) {
		m.at = "op " + std::to_string(++step) + " (" + o.str().substr(0, 50) + ")"; budgetSet(50000000);
		switch (o.n[0]) {
			case 'b': m.buffer(o); break; case 'q': m.sequence(o); break; case 'i': m.osc(o); break; case 'o': m.object(o); break;
			case 's': if (is(o, "status")) m.status(o); else m.slide(o); break; case 't': m.tone(o); break;
		}
		checkPending();
	}
	for (int i = 0; i < NB; i++) if (m.B[i].b) BKBufferDispose(m.B[i].b.get());
	for (int i = 0; i < NQ; i++) m.sequence(Op("qdel", {i}));
	for (int i = 0; i < NT; i++) if (m.T[i].s) std::free(m.T[i].s);
	for (int i = 0; i < NO; i++) m.object(Op("odel", {i, 1}));
	checkPending();
	if (allocLive()) violate("leak", "%s left", allocDescribe().c_str());
}
static PropReg reg(Prop{"C21", gen, exec,
	"one case = one random history of calls on two buffers, three slides, three oscillations, four sequences with four states and three objects of own classes; non-trivial when sound was read, a slide arrived, an oscillation went round or a sequence repeated or ended; distinct by event-log hash"});
