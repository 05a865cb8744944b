// C13: settings read back as set, and rejected calls change nothing.
#include "model.h"
#include "common.h"
#include <deque>
#include <climits>
#pragma clang diagnostic ignored "-Wdeprecated-declarations"

// ---------------------------------------------------------------- attributes that an op may change
enum Field { F_MASTER, F_VOLUME, F_PANNING, F_NOTE, F_PITCH, F_SPITCH, F_ARPDIV, F_EFFDIV, F_INSTRDIV, F_TRIIGN, F_WAVE, F_DUTY, F_MUTE, F_PHASE, F_WRAP, F_PERIOD, F_SPERIOD,
	F_REPEAT, F_IMMED, F_RELEASE, F_NPHASES, F_V0, F_V1, F_V2, F_V7, F_INSTR, F_DATA, F_EFF, F_ARP = F_EFF + 15, F_RANGE = F_ARP + 9, F_SUSTAIN = F_RANGE + 2, NFIELD = F_SUSTAIN + 2 };
typedef unsigned __int128 Mask;
static Mask bit(int f) { return (Mask)1 << f; }
static Mask bits(std::initializer_list<int> l) { Mask m = 0; for (int f : l) m |= bit(f); return m; }
static const Mask DERIVED = bits({F_PERIOD, F_SPERIOD, F_V0, F_V1, F_V2, F_V7});
static const Mask SAMPLE = bits({F_REPEAT, F_IMMED, F_WAVE, F_DATA, F_PHASE, F_NPHASES, F_RANGE, F_RANGE + 1, F_SUSTAIN, F_SUSTAIN + 1, F_RELEASE});
static const Mask PLAY = DERIVED | bits({F_PHASE, F_MUTE});
static Mask effect(int e) { return bits({F_EFF + 3 * e, F_EFF + 3 * e + 1, F_EFF + 3 * e + 2}); }
static Mask arpeggio() { Mask m = 0; for (int i = 0; i < 9; i++) m |= bit(F_ARP + i); return m; }

static const int kFieldOf[A_COUNT] = { F_MASTER, F_VOLUME, F_PANNING, F_NOTE, F_PITCH, F_SPITCH, F_ARPDIV, F_EFFDIV, F_INSTRDIV, F_TRIIGN, F_WAVE, F_DUTY, F_MUTE, F_PHASE, F_WRAP, F_REPEAT, F_IMMED, F_RELEASE, F_PERIOD, F_SPERIOD,
	F_EFF, F_EFF + 3, F_EFF + 6, F_V0, F_V1 };
static i64 clampI(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
static i64 absI(i64 v) { return v < 0 ? -v : v; }
static bool is(const Op & o, const char * n) { return o.n == n; }
static const i64 LIVE0 = -77777;

struct Frame { Mask track[NTRACK]; u32 ctxTime, ctxPeriod, dataSize, dataPitch, instrSeq; };
static int attrIndex(BKEnum a) { for (int i = 0; i < A_COUNT; i++) if (kAttr[i] == a) return i; return -1; }

static Mask attrMask(int k, bool hasInstr) {
	Mask m = bit(kFieldOf[k]) | DERIVED;
	switch (k) {
		case A_NOTE: return m | bits({F_MUTE, F_PHASE, F_RELEASE}) | (hasInstr ? bit(F_DUTY) : 0);
		case A_WAVE: return m | SAMPLE;
		case A_DUTY: case A_WRAP: case A_RELEASE: return m | bit(F_PHASE);
		default: return m;
	}
}
static void frameOf(World & w, const Op & o, Frame & f, bool duty[NTRACK]) {
	for (auto & m : f.track) m = 0; f.ctxTime = f.ctxPeriod = f.dataSize = f.dataPitch = f.instrSeq = 0;
	i64 i = o.at(0); const std::string & n = o.n;
	auto tr = [&](i64 t, Mask m) { if (t >= 0 && t < NTRACK) f.track[t] |= m; };
	bool hasInstr = i >= 0 && i < NTRACK && duty[i];
	if (n == "ctxperiod") f.ctxPeriod = 1u << i;
	else if (n == "ctxreset") { f.ctxTime = 1u << i; for (int t = 0; t < NTRACK; t++) if (w.track[t] && w.trackCtx[t] == i) f.track[t] = ~(bits({F_MASTER, F_TRIIGN})); }
	else if (n == "treset") tr(i, ~bits({F_MASTER, F_TRIIGN}));
	else if (n == "tclear") tr(i, ~bits({F_MASTER, F_TRIIGN}));
	else if (n == "attach" || n == "detach") tr(i, DERIVED | SAMPLE | bit(F_SPITCH) | (hasInstr ? bit(F_DUTY) : 0));
	else if (n == "attr") { if (o.at(1) >= 0 && o.at(1) < A_COUNT) tr(i, attrMask((int)o.at(1), hasInstr)); }
	else if (n == "xset") { if (i == 1) { int k = attrIndex((BKEnum)o.at(2)); bool h = o.at(1) >= 0 && o.at(1) < NTRACK && duty[o.at(1)]; tr(o.at(1), k >= 0 ? attrMask(k, h) : DERIVED); } else if (i == 3) f.dataPitch = 1u << o.at(1); }
	else if (n == "xptr") {
		if (i == 1) {
			Mask m = DERIVED; BKEnum a = (BKEnum)o.at(2);
			for (int e = 0; e < 5; e++) if (a == kEffect[e]) m |= effect(e);
			if (a == BK_ARPEGGIO) m |= arpeggio();
			if (a == BK_SAMPLE_RANGE) m |= bits({F_RANGE, F_RANGE + 1, F_SUSTAIN, F_SUSTAIN + 1, F_PHASE, F_NPHASES, F_RELEASE});
			if (a == BK_SAMPLE_SUSTAIN_RANGE) m |= bits({F_SUSTAIN, F_SUSTAIN + 1, F_RELEASE});
			if (a == BK_WAVEFORM || a == BK_SAMPLE) m |= SAMPLE | bit(F_SPITCH);
			if (a == BK_INSTRUMENT) m |= bits({F_INSTR, F_MUTE, F_RELEASE, F_DUTY});
			tr(o.at(1), m);
		} else if (i == 0) f.ctxPeriod = 1u << o.at(1);
	}
	else if (n == "arp") tr(i, DERIVED | arpeggio());
	else if (n == "eff") { if (o.at(1) >= 0 && o.at(1) < 5) tr(i, DERIVED | effect((int)o.at(1))); }
	else if (n == "xeff") { Mask m = DERIVED; for (int e = 0; e < 5; e++) if ((BKEnum)o.at(1) == kEffect[e]) m |= effect(e); tr(i, m); }
	else if (n == "setinstr") tr(i, DERIVED | bits({F_INSTR, F_MUTE, F_RELEASE, F_DUTY}));
	else if (n == "samp" || n == "wave") tr(i, DERIVED | SAMPLE | bit(F_SPITCH));
	else if (n == "range") tr(i, DERIVED | bits({F_RANGE, F_RANGE + 1, F_SUSTAIN, F_SUSTAIN + 1, F_PHASE, F_NPHASES, F_RELEASE}));
	else if (n == "sustain") tr(i, DERIVED | bits({F_SUSTAIN, F_SUSTAIN + 1, F_RELEASE}));
	else if (n == "instrcopy" || n == "instr") { if (i >= 0 && i < NINSTR) f.instrSeq |= 15u << (4 * i); }
	else if (n == "instrdel" || n == "instrdetach" || n == "seq" || n == "env" || n == "adsr") {
		if (i >= 0 && i < NINSTR && n != "instrdetach") f.instrSeq |= n == "instrdel" ? 15u << (4 * i) : n == "adsr" ? 1u << (4 * i) : o.at(1) >= 0 && o.at(1) < 4 ? 1u << (4 * i + o.at(1)) : 0;
		for (int t = 0; t < NTRACK; t++) if (w.track[t]) { void * p = nullptr; BKGetPtr(w.track[t], BK_INSTRUMENT, &p, sizeof p); if (p && i >= 0 && i < NINSTR && p == w.instr[i]) f.track[t] |= DERIVED | bits({F_MUTE, F_DUTY, F_NOTE}) | (n == "instrdel" || n == "instrdetach" ? bits({F_INSTR, F_RELEASE}) : 0); }
	}
	else if (n == "datapitch") f.dataPitch = 1u << i;
	else if (n == "dataframes" || n == "dataset" || n == "load" || n == "xload" || n == "datanorm" || n == "dataconv" || n == "datadel" || n == "datadetach" || n == "data") {
		if (i >= 0 && i < NDATA) {
			f.dataSize = 1u << i; if (n == "xload" || n == "load") f.dataPitch = 0;
			for (int t = 0; t < NTRACK; t++) if (w.track[t] && w.data[i]) { const BKTrack * k = w.track[t]; if (k->unit.sample.dataState.data == w.data[i]) f.track[t] |= DERIVED | SAMPLE | bit(F_SPITCH); }
		}
	}
}
static void cmpFrame(World & w, const char * what, const std::vector<i64> & p, const std::vector<i64> & q, const Frame & f) {
	size_t per = NFIELD;
	for (size_t i = 0; i < p.size(); i++) if (p[i] != q[i]) {
		if (i < per * NTRACK) { size_t t = i / per, k = i % per; if (p[t * per] == LIVE0 || q[t * per] == LIVE0) continue; if (f.track[t] >> k & 1) continue; if (k == F_PHASE && (f.track[t] >> F_DUTY & 1)) continue; }
		else {
			size_t j = i - per * NTRACK;
			if (p[i] == LIVE0 || q[i] == LIVE0) continue;
			if (j < 2 * NCTX) { if ((j % 2 ? f.ctxPeriod : f.ctxTime) >> (j / 2) & 1) continue; }
			else if (j >= 2 * NCTX + 3 * NDATA) { if (f.instrSeq >> (j - 2 * NCTX - 3 * NDATA) & 1) continue; }
			else { j -= 2 * NCTX; if ((j % 3 == 2 ? f.dataPitch : f.dataSize) >> (j / 3) & 1) continue; }
		}
		pend("unrelated-change", "%s changed %s from %lld to %lld", what, snapName(i).c_str(), (long long)p[i], (long long)q[i]); return;
	}
}

// what an accepted call leaves behind
static bool expectAttr(World & w, int t, int k, i64 v, const std::vector<i64> & before, i64 & want) {
	auto was = [&](int f) { return before[(size_t)t * NFIELD + f]; };
	if (w.bare[t] && k == A_VOLUME) { if (before.size()) for (int i : {F_V0, F_V1, F_V2, F_V7}) { BKInt x = -1; BKGetAttr(w.track[t], i == F_V0 ? BK_VOLUME_0 : i == F_V1 ? BK_VOLUME_1 : i == F_V2 ? BK_VOLUME_2 : BK_VOLUME_7, &x); if (x != clampI(v, 0, BK_MAX_VOLUME)) pend("read-back", "after the volume %lld of a unit was accepted a channel has volume %d", (long long)v, x); } return false; }
	switch (k) {
		case A_MASTER: case A_VOLUME: want = clampI(v, 0, BK_MAX_VOLUME); return true;
		case A_VOL0: case A_VOL1: want = clampI(v, 0, BK_MAX_VOLUME); return true;
		case A_PANNING: want = clampI(v, -BK_MAX_VOLUME, BK_MAX_VOLUME); return true;
		case A_NOTE: want = v >= 0 ? clampI(v, (i64)BK_MIN_NOTE << 20, (i64)BK_MAX_NOTE << 20) : v == -1 || v == -2 ? -1 : was(F_NOTE); return true;
		case A_PITCH: case A_SPITCH: want = clampI(v, (i64)BK_MIN_SAMPLE_TONE << 20, (i64)BK_MAX_SAMPLE_TONE << 20); return true;
		case A_ARPDIV: case A_EFFDIV: case A_INSTRDIV: want = v < 1 ? 1 : v; return true;
		case A_TRIIGN: case A_MUTE: case A_IMMED: want = v != 0; return true;
		case A_WAVE: want = waveIndex((BKEnum)v); return true;
		case A_DUTY: want = clampI(v, BK_MIN_DUTY_CYCLE, BK_MAX_DUTY_CYCLE); return true;
		case A_PHASE: {
			i64 n = was(F_NPHASES); if (w.sampRet[t].size()) return false;
			if (was(F_WAVE) != 7) { want = clampI(v, 0, n - 1); return true; }
			if (n < 1) return false;
			if (v < 0) { want = was(F_RANGE) < was(F_RANGE + 1) ? 0 : n - 1; return true; }
			want = clampI(v, 0, n - 1); return true;
		}
		case A_WRAP: want = v == 0 ? 0 : v < 2 ? 2 : v; return true;
		case A_REPEAT: want = v == BK_REPEAT || v == BK_PALINDROME ? v : BK_NO_REPEAT; return true;
		case A_RELEASE: want = v == 0 ? 0 : was(F_SUSTAIN) != was(F_SUSTAIN + 1) ? v != 0 : was(F_RELEASE); return true;
		case A_PERIOD: if (v == INT_MIN) v++; want = absI(v) < BK_MIN_PERIOD ? (i64)BK_MIN_PERIOD : absI(v); return true;
		case A_SPERIOD: want = clampI(absI(v), BK_MIN_SAMPLE_PERIOD, BK_MAX_SAMPLE_PERIOD); return true;
		case A_VSLIDE: case A_PSLIDE: case A_PORTA: want = clampI(v, 0, 65536); return true;
	}
	return false;
}
static void expect(const char * what, const std::vector<i64> & q, size_t i, i64 want) { if (q[i] != want) pend("read-back", "after %s was accepted %s is %lld instead of %lld", what, snapName(i).c_str(), (long long)q[i], (long long)want); }
static void readBack(World & w, const Op & o, const std::vector<i64> & p, const std::vector<i64> & q) {
	i64 t = o.at(0); std::string s = o.str().substr(0, 70); const char * what = s.c_str(); size_t b = (size_t)t * NFIELD;
	int k = -1; i64 v = 0;
	if (is(o, "attr")) { k = (int)o.at(1); v = o.at(2); if (k == A_WAVE) v = (v >= 0 && v < 6) ? (i64)kWave[v] : v; }
	if (is(o, "xset") && o.at(0) == 1) { t = o.at(1); b = (size_t)t * NFIELD; k = attrIndex((BKEnum)o.at(2)); v = o.at(3); }
	if (k >= 0) { i64 want; v = (BKInt)v; if (expectAttr(w, (int)t, k, v, p, want)) expect(what, q, b + kFieldOf[k], want);
		BKInt g = -123456; if (BKGetAttr(w.track[t], kAttr[k], &g) == 0 && k != A_WAVE && expectAttr(w, (int)t, k, v, p, want) && g != want) pend("read-back", "after %s was accepted BKGetAttr answers %d instead of %lld", what, g, (long long)want);
		if (k == A_NOTE && v >= 0) { expect(what, q, b + F_MUTE, 0); expect(what, q, b + F_RELEASE, 0); }
		if (k == A_NOTE && v == -2) expect(what, q, b + F_MUTE, 1);
		return; }
	if (is(o, "eff") || is(o, "xeff") || (is(o, "xptr") && o.at(0) == 1)) {
		int e = is(o, "eff") ? (int)o.at(1) : -1; i64 x[3] = {0, 0, 0};
		if (e >= 0) { i64 sz = clampI(o.at(2), 0, 3); for (int i = 0; i < sz; i++) x[i] = (BKInt)o.at(3 + i); }
		else { size_t at = is(o, "xeff") ? 2 : 3; t = is(o, "xeff") ? o.at(0) : o.at(1); b = (size_t)t * NFIELD; BKEnum a = (BKEnum)(is(o, "xeff") ? o.at(1) : o.at(2)); for (int i = 0; i < 5; i++) if (a == kEffect[i]) e = i; if (o.at(at + 1) == 0) for (int i = 0; i < 3; i++) { i64 have = clampI(o.at(at) - 4 * i, 0, 4); u32 u = (u32)o.at(at + 2 + i); x[i] = (BKInt)(have == 4 ? u : have == 0 ? 0 : u & ((1u << (8 * have)) - 1)); } }
		if (e < 0) {
			if (is(o, "xptr") && (BKEnum)o.at(2) == BK_ARPEGGIO) { i64 n = o.at(4) || o.at(3) < 4 ? 0 : clampI((BKInt)o.at(5), 0, BK_MAX_ARPEGGIO); expect(what, q, b + F_ARP, n); for (int i = 0; i < n; i++) expect(what, q, b + F_ARP + 1 + i, (BKInt)o.at(6 + i)); }
			return;
		}
		i64 st = clampI(x[0], 0, 65536);
		if (e < 3) { expect(what, q, b + F_EFF + 3 * e, st); return; }
		expect(what, q, b + F_EFF + 3 * e, st);
		expect(what, q, b + F_EFF + 3 * e + 1, e == 3 ? clampI(x[1], 0, BK_MAX_VOLUME) : clampI(x[1], -((i64)96 << 20), (i64)96 << 20));
		expect(what, q, b + F_EFF + 3 * e + 2, clampI(x[2], 0, 65536));
		return;
	}
	if (is(o, "arp")) { i64 n = clampI((i64)o.a.size() - 1, 0, 8); expect(what, q, b + F_ARP, n); for (int i = 0; i < n; i++) expect(what, q, b + F_ARP + 1 + i, (BKInt)o.at(1 + i)); return; }
	if (is(o, "setinstr")) { expect(what, q, b + F_INSTR, o.at(1) < 0 ? -1 : o.at(1)); return; }
	if (is(o, "samp") || is(o, "wave")) {
		if (o.at(1) >= 0) { expect(what, q, b + F_DATA, o.at(1)); expect(what, q, b + F_WAVE, is(o, "samp") ? 7 : 6); if (!w.bare[t]) expect(what, q, b + F_SPITCH, q[(size_t)NTRACK * NFIELD + 2 * NCTX + 3 * o.at(1) + 2]); }
		else if (p[b + F_WAVE] == (is(o, "samp") ? 6 : 7)) { expect(what, q, b + F_DATA, p[b + F_DATA]); expect(what, q, b + F_WAVE, p[b + F_WAVE]); }   // unsets only its own kind
		else { expect(what, q, b + F_DATA, -1); if (q[b + F_WAVE] == 6 || q[b + F_WAVE] == 7) pend("read-back", "after %s the waveform is still that of a sample", what); }
		return;
	}
	if (is(o, "range") || is(o, "sustain")) {
		i64 d = q[b + F_DATA]; if (d < 0) return;
		bool su = is(o, "sustain"); i64 n = su ? q[b + F_NPHASES] : q[(size_t)NTRACK * NFIELD + 2 * NCTX + 3 * d];
		i64 x = (BKInt)o.at(2), y = (BKInt)o.at(3); if (o.at(1)) { x = 0; y = su ? 0 : -1; }
		if (su && x == y) x = y = 0;
		auto fix = [&](i64 z) { if (z < 0) z += n + 1; return clampI(z, 0, n); };
		x = fix(x); y = fix(y); if (su && y < x) std::swap(x, y);
		expect(what, q, b + (su ? F_SUSTAIN : F_RANGE), x); expect(what, q, b + (su ? F_SUSTAIN : F_RANGE) + 1, y);
		return;
	}
	if (is(o, "ctxperiod") || (is(o, "xptr") && o.at(0) == 0 && (BKEnum)o.at(2) == BK_CLOCK_PERIOD)) { i64 c = is(o, "ctxperiod") ? t : o.at(1); i64 v2 = is(o, "ctxperiod") ? o.at(1) : o.at(5); expect(what, q, (size_t)NTRACK * NFIELD + 2 * c + 1, v2); return; }
	if (is(o, "datapitch") || (is(o, "xset") && o.at(0) == 3)) { i64 d = is(o, "datapitch") ? t : o.at(1); expect(what, q, (size_t)NTRACK * NFIELD + 2 * NCTX + 3 * d + 2, clampI((BKInt)(is(o, "datapitch") ? o.at(1) : o.at(3)), (i64)BK_MIN_SAMPLE_TONE << 20, (i64)BK_MAX_SAMPLE_TONE << 20)); return; }
	if (is(o, "dataframes")) { expect(what, q, (size_t)NTRACK * NFIELD + 2 * NCTX + 3 * t, o.at(1)); expect(what, q, (size_t)NTRACK * NFIELD + 2 * NCTX + 3 * t + 1, o.at(2)); return; }
	if (is(o, "seq") || is(o, "env") || is(o, "adsr")) { size_t slot = is(o, "adsr") ? 0 : (size_t)o.at(1); expect(what, q, (size_t)NTRACK * NFIELD + 2 * NCTX + 3 * NDATA + 4 * (size_t)t + slot, is(o, "adsr") || o.a.size() > (is(o, "env") ? 5 : 4)); return; }
	if (is(o, "kernel")) { void * p2 = nullptr; BKGetPtr(w.ctx[t], BK_PULSE_KERNEL, &p2, sizeof p2); if (p2 != BKBufferPulseKernels[o.at(1) < 0 ? BK_PULSE_KERNEL_HARM : o.at(1) & 1]) pend("read-back", "after %s another kernel is reported", what); return; }
}

// ---------------------------------------------------------------- calls that World does not make
static void * object(World & w, i64 k, i64 i) {
	if (i < 0) return nullptr;
	switch (k) { case 0: return i < NCTX ? w.ctx[i] : nullptr; case 1: return i < NTRACK ? w.track[i] : nullptr; case 2: return i < NINSTR ? w.instr[i] : nullptr; case 3: return i < NDATA ? w.data[i] : nullptr; case 4: return i < NCLOCK ? w.clock[i] : nullptr; case 5: return i < NDIV ? w.divi[i] : nullptr; }
	return nullptr;
}
static int xcall(World & w, const Op & o) {
	if (is(o, "xset")) {
		if (o.at(0) == 6) return BKSetAttr(nullptr, (BKEnum)o.at(2), (BKInt)o.at(3));
		void * p = object(w, o.at(0), o.at(1)); if (!p) return SKIP;
		BKEnum a = (BKEnum)o.at(2); BKInt v = (BKInt)o.at(3);
		if ((u64)(o.at(2) + o.at(3)) % 3 == 0) switch (o.at(0)) {   // the same by the function of its kind
			case 0: return BKContextSetAttr((BKContext *)p, a, v);
			case 1: return w.bare[o.at(1)] ? BKUnitSetAttr((BKUnit *)p, a, v) : BKTrackSetAttr((BKTrack *)p, a, v);
			case 3: return BKDataSetAttr((BKData *)p, a, v);
		}
		return BKSetAttr(p, a, v);
	}
	if (is(o, "xptr")) {   // xptr kind i attr size isnull v...
		i64 sz = o.at(3), nul = o.at(4), k = o.at(0); BKEnum a = (BKEnum)o.at(2);
		if (sz < 0 || sz > 64) return SKIP;
		if (k == 6) return BKSetPtr(nullptr, a, nullptr, (BKSize)sz);
		void * p = object(w, k, o.at(1)); if (!p) return SKIP;
		if (!nul && (a == BK_INSTRUMENT || a == BK_SAMPLE || a == BK_WAVEFORM || a == BK_SAMPLE_CALLBACK || a == BK_PULSE_KERNEL)) return SKIP;   // needs a real object
		if (a == BK_CLOCK_PERIOD && o.at(5) > 0 && o.at(5) < (1 << 20)) return SKIP;   // accepted, but ticks without end
		if (nul && a == BK_CLOCK_PERIOD && k == 0) return SKIP;
		if (a == BK_SAMPLE_CALLBACK) return SKIP;
		if (!nul && (a == BK_SAMPLE_RANGE || a == BK_SAMPLE_SUSTAIN_RANGE || a == BK_CLOCK_PERIOD) && sz < 8) return SKIP;
		std::vector<BKInt> v(17, 0); for (size_t i = 0; i < 16 && 5 + i < o.a.size(); i++) v[i] = (BKInt)o.a[5 + i];
		if (a == BK_CLOCK_PERIOD) { BKTime t = o.at(5); memcpy(v.data(), &t, sizeof t); }
		if (a == BK_ARPEGGIO && !nul && sz >= 4 && (clampI(v[0], 0, 8) + 1) * 4 > sz) return SKIP;
		if (a == BK_ARPEGGIO && !nul && sz > 0 && sz < 4) return SKIP;
		unsigned char * b = nullptr; if (!nul) { b = (unsigned char *)malloc((size_t)sz); memcpy(b, v.data(), (size_t)sz); }
		int r = BKSetPtr(p, a, b, (BKSize)sz);
		free(b);
		return r;
	}
	if (is(o, "xeff")) {   // xeff t effect size isnull v v v
		i64 t = o.at(0), sz = o.at(2); if (t < 0 || t >= NTRACK || !w.track[t] || w.bare[t] || sz < 0 || sz > 32) return SKIP;
		unsigned char * b = nullptr; BKInt v[8] = {}; for (int i = 0; i < 3; i++) v[i] = (BKInt)o.at(4 + i);
		if (!o.at(3)) { b = (unsigned char *)malloc((size_t)sz + 0); memcpy(b, v, (size_t)sz); }
		int r = BKTrackSetEffect(w.track[t], (BKEnum)o.at(1), b, (BKUInt)sz);
		free(b);
		return r;
	}
	if (is(o, "xget")) {   // reading is not seen by anyone: xget kind i attr size
		void * p = object(w, o.at(0), o.at(1)); BKEnum a = (BKEnum)o.at(2); BKInt * v = (BKInt *)malloc(sizeof(BKInt)); *v = 0x5a5a5a5a;
		int r = BKGetAttr(p, a, v); if (r && *v != 0x5a5a5a5a) pend("failed-read", "rejected BKGetAttr of %x has written a value", (unsigned)a);
		if (p) {
			BKInt u = 0x5a5a5a5a; int r2 = r; switch (o.at(0)) { case 0: r2 = BKContextGetAttr((BKContext *)p, a, &u); break; case 1: r2 = w.bare[o.at(1)] ? BKUnitGetAttr((BKUnit *)p, a, &u) : BKTrackGetAttr((BKTrack *)p, a, &u); break; case 3: r2 = BKDataGetAttr((BKData *)p, a, &u); break; default: u = *v; }
			if (r2 != r || u != *v) pend("failed-read", "attribute %x of an object is read as %d (%d) by the function of its kind and as %d (%d) by BKGetAttr", (unsigned)a, u, r2, *v, r);
		}
		free(v);
		i64 sz = clampI(o.at(3), 0, 64); bool fixed = (a & BK_ATTR_TYPE_MASK) != BK_EFFECT_TYPE; if (fixed) sz = 48;
		unsigned char * b = (unsigned char *)malloc((size_t)sz); memset(b, 0x5a, (size_t)sz);
		r = BKGetPtr(p, a, b, (BKSize)sz); if (r) for (i64 i = 0; i < sz; i++) if (b[i] != 0x5a) { pend("failed-read", "rejected BKGetPtr of %x has written a value", (unsigned)a); break; }
		free(b);
		return 1;
	}
	if (is(o, "xseq")) {   // slot out of range
		i64 i = o.at(0); if (i < 0 || i >= NINSTR || !w.instr[i] || o.at(1) < BK_MAX_SEQUENCES) return SKIP;
		BKInt v[3] = {1, 2, 3}; BKSequencePhase p[2] = {{3, 100}, {2, 5}};
		return o.at(2) ? BKInstrumentSetEnvelope(w.instr[i], (BKEnum)o.at(1), p, 2, 0, 1) : BKInstrumentSetSequence(w.instr[i], (BKEnum)o.at(1), v, 3, 0, 1);
	}
	if (is(o, "xload")) {   // xload d kind bytes seed   a file that is not what it should be
		i64 d = o.at(0); if (d < 0 || d >= NDATA || !w.data[d]) return SKIP;
		Rng r((u64)o.at(3)); SimFile f;
		f.data = waveBytes(makeFrames(20, 1, o.at(3)), 1, 22050, 16);
		if (o.at(1) == 0) f.data.resize((size_t)clampI(o.at(2), 0, 44));                    // cut within the header
		else if (o.at(1) == 1) { size_t at = (size_t)clampI(o.at(2), 0, 35); if (at >= 4 && at < 8) at = 20; f.data[at] ^= (unsigned char)(1 + r.range(0, 254)); }
		else { f.data.resize((size_t)clampI(o.at(2), 0, 3)); }
		FILE * fp = simOpen(f);
		int x = o.at(1) == 2 ? BKDataLoadRaw(w.data[d], fp, (BKUInt)r.range(0, 9), (BKEnum)(BK_LITTLE_ENDIAN | BK_16_BIT_SIGNED)) : BKDataLoadWAVE(w.data[d], fp);
		simClose(f);
		if (x == 0) { free(w.userFrames[d]); w.userFrames[d] = nullptr; }
		return x;
	}
	if (is(o, "xperiod")) { i64 k = o.at(0); if (k < 0 || k >= NCLOCK || !w.clock[k] || o.at(1) > 0) return SKIP; BKClockSetPeriod(w.clock[k], o.at(1)); return 1; }
	if (is(o, "xdiv")) { i64 v = o.at(0), c = o.at(1); if (v < 0 || v >= NDIV || !w.divi[v] || c < 0 || c >= NCTX || !w.ctx[c] || o.at(2) == BK_CLOCK_TYPE_EFFECT || o.at(2) == BK_CLOCK_TYPE_BEAT) return SKIP; return BKContextAttachDivider(w.ctx[c], w.divi[v], (BKEnum)o.at(2)); }
	if (is(o, "xinit")) {
		BKTrack * t = (BKTrack *)malloc(sizeof(BKTrack)); memset((void *)t, 0x33, sizeof *t); int r = BKTrackInit(t, (BKEnum)o.at(0)); if (r == 0) BKDispose(t); free(t);
		return r ? r : 1;
	}
	return SKIP;
}
static bool isX(const Op & o) { return o.n.size() > 1 && o.n[0] == 'x'; }

// ---------------------------------------------------------------- scripts
static const BKEnum kCodes[] = { BK_CONTEXT_ATTR_TYPE, BK_NUM_CHANNELS, BK_SAMPLE_RATE, BK_TIME, BK_PULSE_KERNEL, BK_TRACK_ATTR_TYPE, BK_WAVEFORM, BK_DUTY_CYCLE, BK_PERIOD, BK_PHASE, BK_PHASE_WRAP, BK_NUM_PHASES,
	BK_MASTER_VOLUME, BK_VOLUME, BK_VOLUME_2, BK_VOLUME_7, BK_MUTE, BK_PITCH, BK_SAMPLE_RANGE, BK_SAMPLE_REPEAT, BK_SAMPLE_SUSTAIN_RANGE, BK_SAMPLE_IMMED_RELEASE, BK_SAMPLE_PERIOD, BK_SAMPLE_PITCH,
	BK_SAMPLE_CALLBACK, BK_FLAG_RELEASE, BK_NOTE, BK_ARPEGGIO, BK_PANNING, BK_INSTRUMENT, BK_CLOCK_PERIOD, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME,
	BK_DATA_ATTR_TYPE, BK_NUM_FRAMES, BK_WAVEFORM_TYPE, BK_SQUARE, BK_SAMPLE, BK_EFFECT_TYPE, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO, BK_EVENT_TYPE, BK_EVENT_CLOCK };
static i64 code(Rng & r) { int k = (int)r.range(0, 99); if (k < 70) return (i64)kCodes[r.range(0, (i64)(sizeof kCodes / sizeof kCodes[0]) - 1)]; if (k < 80) return (i64)BK_EFFECT_TYPE + r.range(0, 40); if (k < 90) return (i64)BK_TRACK_ATTR_TYPE + r.range(0, 60); return r.pick({(i64)0, (i64)1, (i64)-1, (i64)INT_MAX, (i64)INT_MIN, (i64)r.range(0, 1 << 20)}); }
static i64 extreme(Rng & r) { return r.chance(30) ? r.range(-40, 40) : r.pick({(i64)0, (i64)1, (i64)-1, (i64)-2, (i64)-3, (i64)2, (i64)15, (i64)16, (i64)32767, (i64)32768, (i64)-32767, (i64)-32768, (i64)65535, (i64)65536, (i64)1 << 20, (i64)95 << 20, (i64)96 << 20, (i64)97 << 20, -((i64)96 << 20), (i64)INT_MAX, (i64)INT_MIN, (i64)INT_MAX - 1, (i64)INT_MIN + 1}); }
static bool extra(Op & o, Rng & r, const GenCfg & c, bool callback) {
	i64 t = r.range(0, c.ntrack - 1), d = r.range(0, c.ndata - 1);
	switch (r.range(0, 15)) {
		case 0: case 1: { i64 k = r.range(0, A_COUNT - 1); o = Op("attr", {t, k, k == A_WAVE ? r.range(-2, 9) : extreme(r)}); return true; }
		case 2: { i64 k = r.chance(60) ? 1 : r.range(0, 6); o = Op("xset", {k, r.range(0, 3), code(r), extreme(r)}); return true; }
		case 3: { std::vector<i64> a = {r.chance(60) ? 1 : r.range(0, 6), r.range(0, 3), code(r), r.pick({0, 1, 4, 8, 12, 16, 20, 36, 40, 64}), r.chance(25)}; for (int i = 0; i < 9; i++) a.push_back(i ? extreme(r) : r.chance(50) ? r.range(0, 9) : extreme(r)); o = Op("xptr", a); return true; }
		case 4: { i64 e = r.chance(60) ? (i64)BK_EFFECT_TYPE + r.range(0, 8) : code(r); o = Op("xeff", {t, e, r.range(0, 20), r.chance(15), extreme(r), r.chance(50) ? extreme(r) : r.range(-(4 << 20), 4 << 20), extreme(r)}); return true; }
		case 5: o = Op("xget", {r.range(0, 6), r.range(0, 3), code(r), r.range(0, 40)}); return true;
		case 6: o = Op("xseq", {r.range(0, c.ninstr - 1), r.pick({4, 5, 100, INT_MAX}), r.range(0, 1)}); return true;
		case 7: if (callback) return false; o = Op("xload", {d, r.range(0, 2), r.range(0, 44), r.range(1, 1 << 20)}); return true;
		case 8: o = r.chance(50) ? Op("xperiod", {r.range(0, NCLOCK - 1), r.pick({(i64)0, (i64)-1, -((i64)1 << 40)})}) : Op("xdiv", {r.range(0, NDIV - 1), 0, r.pick({(i64)0, (i64)7, (i64)-1})}); return true;
		case 9: o = Op("attach", {t, r.range(0, c.nctx - 1)}); return true;          // often attached already
		case 10: if (callback) return false; o = r.chance(50) ? Op("clockattach", {r.range(0, NCLOCK - 1), r.range(0, c.nctx - 1), r.range(-2, NCLOCK - 1)}) : Op("divattach", {r.range(0, NDIV - 1), r.range(-2, NCLOCK - 1), 0}); return true;
		case 11: if (callback) return false; o = r.chance(60) ? Op("dataframes", {d, r.range(0, 3), r.range(0, 10), r.range(1, 1 << 20), 1}) : Op("dataset", {d, r.range(0, 12), r.range(0, 10), r.range(0, 9), r.range(1, 1 << 20)}); return true;
		case 12: o = Op(r.chance(50) ? "range" : "sustain", {t, r.chance(10), extreme(r), extreme(r)}); return true;
		case 13: o = Op("ctxperiod", {0, r.pick({(i64)0, (i64)-1, (i64)-500 << 20, (i64)77 << 20, (i64)300 << 20})}); return true;
		case 14: o = r.chance(50) ? Op("xinit", {r.pick({(i64)99, (i64)-1, (i64)BK_SAMPLE, (i64)BK_CUSTOM, (i64)BK_NOTE, (i64)BK_SQUARE, (i64)0})}) : Op("kernel", {0, r.range(-1, 1)}); return true;
		default: o = r.chance(50) ? Op("datapitch", {d, extreme(r)}) : Op("samp", {t, d}); return true;
	}
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	GenCfg c; c.nctx = r.chance(85) ? 1 : 2; c.ntrack = (int)r.range(1, 4); c.ndiv = (int)r.range(0, 3); c.nclock = (int)r.range(0, 2); c.ndata = NDATA; c.ninstr = 2;
	c.maxGen = r.pick({200, 1200}); c.samples = r.chance(75); c.instruments = r.chance(50); c.effects = r.chance(70); c.resets = r.chance(20);
	c.ops = (int)r.range(2, thorough ? 60 : 30);
	Gen g(sc, r, c); g.setup();
	if (r.chance(25)) {   // a unit without track
		int t = c.ntrack; c.ntrack = ++g.c.ntrack; g.track[t] = true; g.att[t] = -1;
		sc.add("unit", {t, r.range(0, 5)}); sc.add("attr", {t, r.pick({A_VOLUME, A_VOL0}), r.range(1000, 10000)}); sc.add("attr", {t, A_PERIOD, r.size(1 << 16, (i64)400 << 20)}); sc.add("attr", {t, A_MUTE, 0});
		if (r.chance(85)) { sc.add("attach", {t, r.range(0, c.nctx - 1)}); g.att[t] = 0; }
	}
	if (c.samples && r.chance(40)) for (int d = 0; d < NDATA; d++) if (g.data[d] && r.chance(40)) sc.add("dataframes", {d, r.size(2, 300), r.range(1, 4), r.range(1, 1 << 20), 1});   // does not fit every context
	for (int v = 0; v < c.ndiv; v++) if (g.divi[v]) { int n = (int)r.range(0, 4); while (n--) { Op o; if (!extra(o, r, c, true)) continue; std::vector<i64> a = {v, r.size(1, 30)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("at:" + o.n, a); } }
	i64 bare = -1; if (c.samples && r.chance(35)) for (int d = 0; d < NDATA; d++) if (!g.data[d]) { sc.add("data", {d, 0, 1, 1, 0, r.range(0, 1)}); bare = d; break; }   // a data object without frames
	if (bare >= 0) for (int v = 0; v < c.ndiv; v++) if (g.divi[v] && r.chance(40)) sc.add(r.chance(50) ? "at:samp" : "at:wave", {v, r.size(1, 30), r.range(0, c.ntrack - 1), bare});
	size_t from = sc.ops.size();
	g.body();
	if (bare >= 0) for (int i = 0, k = (int)r.range(1, 4); i < k; i++) sc.ops.insert(sc.ops.begin() + (long)(from + (size_t)r.range(0, (i64)(sc.ops.size() - from))), Op(r.chance(50) ? "samp" : "wave", {r.range(0, c.ntrack - 1), bare}));
	int n = (int)r.range(1, thorough ? 50 : 25);
	while (n--) { Op o; if (!extra(o, r, c, false)) continue; sc.ops.insert(sc.ops.begin() + (long)(from + (size_t)r.range(0, (i64)(sc.ops.size() - from))), o); }
	sc.add("gen", {0, r.range(20, 800)});
}

static bool omittable(const Op & o) { return !is(o, "data") && !is(o, "ctx") && !is(o, "track") && !is(o, "instr") && !is(o, "clock") && !is(o, "div") && !is(o, "instrcopy") && !is(o, "datacopy"); }
static void exec(const Scenario & sc) {
	World a, b; std::deque<std::pair<std::string, int>> q; std::vector<i64> cur; bool duty[NTRACK] = {}; u64 rejected = 0;
	std::string now;
	auto playing = [&](Frame & f) {
		for (auto & m : f.track) m = 0; f.ctxTime = f.ctxPeriod = f.dataSize = f.dataPitch = f.instrSeq = 0;
		f.ctxTime = a.curGen >= 0 ? 1u << a.curGen : 0;
		for (int t = 0; t < NTRACK; t++) if (a.track[t] && a.trackCtx[t] == a.curGen && a.curGen >= 0) f.track[t] = PLAY | (duty[t] ? bits({F_DUTY, F_NOTE, F_RELEASE}) : 0);
	};
	a.around = [&](World & w, const Op & o) {
		if (!(w.curGen < 0)) { std::vector<i64> p = snapWorld(w); Frame f; playing(f); cmpFrame(w, "rendering", cur, p, f); cur = p; }
		else cur = snapWorld(w);
		Frame f; frameOf(w, o, f, duty);
		int r = isX(o) ? xcall(w, o) : w.applyRaw(o);
		std::vector<i64> p = snapWorld(w);
		bool rej = r != 0 && r != SKIP && omittable(o);
		if (rej) {
			rejected++; probe(w.inCallback ? "rejected_in_callback" : "rejected"); probe(("rejected_" + o.n).c_str());
			for (size_t i = 0; i < p.size(); i++) if (p[i] != cur[i]) { pend("rejected-call", "%s was rejected (%d) and changed %s from %lld to %lld", o.str().substr(0, 70).c_str(), r, snapName(i).c_str(), (long long)cur[i], (long long)p[i]); break; }
		} else {
			cmpFrame(w, o.str().substr(0, 70).c_str(), cur, p, f);
			if (r == 0) readBack(w, o, cur, p);
			if (r == 0 && is(o, "xset") && o.at(0) == 1 && attrIndex((BKEnum)o.at(2)) < 0 && !((BKEnum)o.at(2) >= BK_VOLUME_0 && (BKEnum)o.at(2) <= BK_VOLUME_7)) pend("accepted", "%s was accepted", o.str().c_str());
			if (r == 0 && is(o, "xset") && o.at(0) != 1 && !(o.at(0) == 3 && (BKEnum)o.at(2) == BK_SAMPLE_PITCH)) pend("accepted", "%s was accepted", o.str().c_str());
		}
		for (int t = 0; t < NTRACK; t++) { if (p[(size_t)t * NFIELD] == LIVE0) duty[t] = false; else if (p[(size_t)t * NFIELD + F_INSTR] >= 0) duty[t] = true; }
		cur = p; q.push_back({o.n, r});
		return r;
	};
	b.around = [&](World & w, const Op & o) {
		if (q.empty() || q.front().first != o.n) { pend("rejected-effect", "without the rejected calls the callbacks do something else (%s)", o.n.c_str()); return (int)SKIP; }
		int r = q.front().second; q.pop_front();
		if (r != 0 && r != SKIP && omittable(o)) return r;
		int x = isX(o) ? xcall(w, o) : w.applyRaw(o);
		if (x != r) pend("rejected-effect", "%s: result %d, without the rejected calls before %d", o.str().substr(0, 70).c_str(), r, x);
		return x;
	};
	size_t step = 0;
	for (auto & o : sc.ops) {
		step++; now = "op " + std::to_string(step);
		budgetSet(2000000000ull);
		if (is(o, "gen")) cur = snapWorld(a);
		int x = a.apply(o);
		if (is(o, "gen") && x != SKIP) { int c = (int)o.at(0); a.curGen = c; std::vector<i64> p = snapWorld(a); Frame f; playing(f); a.curGen = -1; cmpFrame(a, "rendering", cur, p, f); cur = p; }
		checkPending();
		int y = b.apply(o); checkPending();
		if (!q.empty()) violate("rejected-effect", "op %zu (%s): without the rejected calls some callbacks did not happen", step, o.str().substr(0, 60).c_str());
		if (is(o, "gen")) {
			if (x != y) violate("rejected-effect", "op %zu: %d frames, without the rejected calls %d", step, x, y);
			if (x != SKIP) { R.states.insert(abstractState(a) ^ (rejected > 0)); cmpAudio("rejected-effect", (int)o.at(0), a, b); cmpEvents("rejected-effect", a, b); }
		}
	}
	for (int c = 0; c < NCTX; c++) cmpAudio("rejected-effect", c, a, b);
	cmpEvents("rejected-effect", a, b);
	std::string s = deepState(a), t = deepState(b);
	if (s != t) violate("rejected-effect", "at the end: %s (without the rejected calls the second)", firstDiff(s, t).c_str());
	for (int c = 0; c < NCTX; c++) { logHash(a.out[c].data(), a.out[c].size() * 2); for (auto v : a.out[c]) if (v && rejected) { R.nontrivial = true; break; } }
	logHash(s.data(), s.size());
	a.destroyAll(); b.destroyAll();
	if (allocLive()) violate("leak", "%s left after all objects were disposed", allocDescribe().c_str());
}
static PropReg reg(Prop{"C13", gen, exec,
	"one case = one random history of accepted and rejected calls with values at and beyond every limit, from outside and from divider callbacks; around every call all attributes are compared with what the call may change and must have set, and a second world goes without the rejected calls; non-trivial when there were rejected calls and sound; distinct by event-log hash"});
