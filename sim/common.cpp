#include "common.h"
std::string evStr(const Event & e) { char b[128]; snprintf(b, sizeof b, "%c%d t=%lld n=%lld", e.kind, e.slot, (long long)e.time, (long long)e.n); return b; }
static const BKEnum kTrackGet[] = {
	BK_MASTER_VOLUME, BK_VOLUME, BK_PANNING, BK_NOTE, BK_PITCH, BK_SAMPLE_PITCH, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER,
	BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME, BK_WAVEFORM, BK_DUTY_CYCLE, BK_MUTE, BK_PHASE, BK_PHASE_WRAP, BK_PERIOD, BK_SAMPLE_PERIOD,
	BK_SAMPLE_REPEAT, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3, BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7 };
std::string getters(World & w) {
	std::string s; char b[96];
	for (int t = 0; t < NTRACK; t++) if (w.track[t]) {
		snprintf(b, sizeof b, "track %d:", t); s += b;
		for (BKEnum a : kTrackGet) { BKInt v = -77777; int r = w.getAttr(t, a, &v); snprintf(b, sizeof b, " %x=%d", (unsigned)a, r ? -99999 : v); s += b; }
		s += "\n";
	}
	for (int c = 0; c < NCTX; c++) if (w.ctx[c]) {
		BKTime t0 = BK_TIME_ZERO, p0 = BK_TIME_ZERO; BKGetPtr(w.ctx[c], BK_TIME, &t0, sizeof t0); BKGetPtr(w.ctx[c], BK_CLOCK_PERIOD, &p0, sizeof p0); i64 t = timeOf(t0) - (w.leadOf ? w.leadOf(c) : 0), p = timeOf(p0);
		snprintf(b, sizeof b, "ctx %d: time=%lld period=%lld\n", c, (long long)t, (long long)p); s += b;
	}
	return s;
}
std::string firstDiff(const std::string & a, const std::string & b) {
	size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	size_t s = a.rfind('\n', i ? i - 1 : 0); s = s == std::string::npos ? 0 : s + 1;
	size_t f = i > 40 ? i - 40 : 0; if (f < s) f = s;
	return a.substr(s, 8) + " ..." + a.substr(f, 70) + "... / ..." + b.substr(f < b.size() ? f : b.size(), 70);
}
void cmpAudio(const char * cls, int c, const World & a, const World & b) {
	size_t n = a.out[c].size() < b.out[c].size() ? a.out[c].size() : b.out[c].size();
	int ch = a.nch[c] ? a.nch[c] : 1;
	for (size_t i = 0; i < n; i++) if (a.out[c][i] != b.out[c][i])
		violate(cls, "context %d frame %zu channel %zu: %d / %d", c, i / ch, i % ch, a.out[c][i], b.out[c][i]);
	if (a.out[c].size() != b.out[c].size()) violate(cls, "context %d: %zu / %zu frames delivered", c, a.out[c].size() / ch, b.out[c].size() / ch);
}
void cmpEvents(const char * cls, const World & a, const World & b) {
	size_t m = a.events.size() < b.events.size() ? a.events.size() : b.events.size();
	for (size_t i = 0; i < m; i++) if (!(a.events[i] == b.events[i])) violate(cls, "event %zu differs: %s / %s", i, evStr(a.events[i]).c_str(), evStr(b.events[i]).c_str());
	if (a.events.size() != b.events.size()) violate(cls, "%zu / %zu callback events", a.events.size(), b.events.size());
}
u64 abstractState(World & w) {
	u64 h = 1469598103934665603ull;
	auto mix = [&](u64 v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 31; };
	for (int t = 0; t < NTRACK; t++) {
		if (!w.track[t]) { mix(0); continue; }
		BKInt v = 0; w.getAttr(t, BK_WAVEFORM, &v); mix(v + 1);
		v = 0; w.getAttr(t, BK_NOTE, &v); mix(v < 0 ? 2 : 3);
		v = 0; w.getAttr(t, BK_MUTE, &v); mix(v);
		for (int e = 0; e < 5; e++) { BKInt x[3] = {0, 0, 0}; w.getEff(t, e, x); mix(x[0] != 0); }
		void * p = nullptr; w.getPtr(t, BK_INSTRUMENT, &p, sizeof p); mix(p != nullptr); mix((u64)(w.trackCtx[t] + 1));
		v = 0; w.getAttr(t, BK_VOLUME_0, &v); mix(v == 0 ? 0 : 1);
	}
	return h;
}
std::string deepState(World & w) {
	std::string s = getters(w); char b[128];
	for (int d = 0; d < NDATA; d++) if (w.data[d]) {
		BKInt nf = -1, nc = -1, sp = -1; BKGetAttr(w.data[d], BK_NUM_FRAMES, &nf); BKGetAttr(w.data[d], BK_NUM_CHANNELS, &nc); BKGetAttr(w.data[d], BK_SAMPLE_PITCH, &sp);
		u64 h = 5; const BKData * q = w.data[d];
		if (q->frames) for (i64 i = 0; i < (i64)nf * nc; i++) { h = (h ^ (u64)(uint16_t)q->frames[i]) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; }
		snprintf(b, sizeof b, "data %d: frames=%d channels=%d pitch=%d hash=%llx\n", d, nf, nc, sp, (unsigned long long)h); s += b;
	}
	for (int t = 0; t < NTRACK; t++) if (w.track[t]) {
		snprintf(b, sizeof b, "track %d refs:", t); s += b;
		for (BKEnum a : {(BKEnum)BK_INSTRUMENT, (BKEnum)BK_SAMPLE, (BKEnum)BK_WAVEFORM}) {
			void * p = nullptr; int r = w.getPtr(t, a, &p, sizeof p); int id = -1;
			for (int i = 0; i < NINSTR; i++) if (p && p == w.instr[i]) id = i;
			for (int i = 0; i < NDATA; i++) if (p && p == w.data[i]) id = 10 + i;
			snprintf(b, sizeof b, " %x=%d,%d", (unsigned)a, r, p ? id : -2); s += b;
		}
		for (int e = 0; e < 5; e++) { BKInt x[3] = {0, 0, 0}; int r = w.getEff(t, e, x); snprintf(b, sizeof b, " e%d=%d,%d,%d,%d", e, r, x[0], x[1], x[2]); s += b; }
		BKInt arp[BK_MAX_ARPEGGIO + 1]; memset(arp, 0, sizeof arp); int r = w.getPtr(t, BK_ARPEGGIO, arp, sizeof arp);
		snprintf(b, sizeof b, " arp=%d:", r); s += b; for (int i = 0; i <= arp[0] && i <= BK_MAX_ARPEGGIO; i++) { snprintf(b, sizeof b, "%d,", arp[i]); s += b; }
		s += "\n";
	}
	return s;
}
