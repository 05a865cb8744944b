#include "world.h"
#pragma clang diagnostic ignored "-Wdeprecated-declarations"

const BKEnum kAttr[A_COUNT] = {
	BK_MASTER_VOLUME, BK_VOLUME, BK_PANNING, BK_NOTE, BK_PITCH, BK_SAMPLE_PITCH, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER,
	BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME, BK_WAVEFORM, BK_DUTY_CYCLE, BK_MUTE, BK_PHASE, BK_PHASE_WRAP,
	BK_SAMPLE_REPEAT, BK_SAMPLE_IMMED_RELEASE, BK_FLAG_RELEASE, BK_PERIOD, BK_SAMPLE_PERIOD,
	BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_VOLUME_0, BK_VOLUME_1 };
const char * const kAttrName[A_COUNT] = {
	"MASTER_VOLUME", "VOLUME", "PANNING", "NOTE", "PITCH", "SAMPLE_PITCH", "ARPEGGIO_DIVIDER", "EFFECT_DIVIDER",
	"INSTRUMENT_DIVIDER", "TRIANGLE_IGNORES_VOLUME", "WAVEFORM", "DUTY_CYCLE", "MUTE", "PHASE", "PHASE_WRAP",
	"SAMPLE_REPEAT", "SAMPLE_IMMED_RELEASE", "FLAG_RELEASE", "PERIOD", "SAMPLE_PERIOD",
	"EFFECT_VOLUME_SLIDE", "EFFECT_PANNING_SLIDE", "EFFECT_PORTAMENTO", "VOLUME_0", "VOLUME_1" };
const BKEnum kWave[8] = { 0, BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE, BK_CUSTOM, BK_SAMPLE };
const BKEnum kEffect[5] = { BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO, BK_EFFECT_TREMOLO, BK_EFFECT_VIBRATO };
int waveIndex(BKEnum w) { for (int i = 0; i < 8; i++) if (kWave[i] == w) return i; return -1; }

std::vector<BKFrame> makeFrames(i64 nframes, i64 nch, i64 seed) {
	std::vector<BKFrame> v((size_t)(nframes * nch));
	Rng r((u64)seed + 0x51ull);
	i64 amp = r.range(500, 9000);
	for (auto & x : v) x = (BKFrame)r.range(-amp, amp);
	return v;
}

std::vector<unsigned char> waveBytes(const std::vector<BKFrame> & v, int nch, int rate, int bits) {
	std::vector<unsigned char> o;
	auto p32 = [&](u32 x) { for (int i = 0; i < 4; i++) o.push_back((unsigned char)(x >> (8 * i))); };
	auto p16 = [&](u32 x) { for (int i = 0; i < 2; i++) o.push_back((unsigned char)(x >> (8 * i))); };
	auto tag = [&](const char * t) { for (int i = 0; i < 4; i++) o.push_back((unsigned char)t[i]); };
	u32 n = (u32)v.size() * (bits / 8);
	tag("RIFF"); p32(36 + n + (n & 1)); tag("WAVE"); tag("fmt "); p32(16); p16(1); p16((u32)nch); p32((u32)rate); p32((u32)(rate * nch * bits / 8)); p16((u32)(nch * bits / 8)); p16((u32)bits);
	tag("data"); p32(n);
	for (BKFrame x : v) { if (bits == 16) p16((u32)(uint16_t)x); else o.push_back((unsigned char)((x >> 8) + 128)); }
	if (n & 1) o.push_back(0);
	return o;
}

// objects initialised in place live in exactly sized blocks, so overruns are seen
int gFill = 0xCD;
template <class T> static T * blk() { T * p = (T *)malloc(sizeof(T)); memset((void *)p, gFill, sizeof(T)); return p; }

extern "C" void sim_srand(unsigned);
World::World() {
	sim_srand(1);
	render = [](World & w, int c, i64 n) { return w.genDefault(c, n); };
	for (int & x : trackCtx) x = -1;
	for (int & x : clockCtx) x = -1;
	for (int & x : divCtx) x = -1;
	for (int i = 0; i < NDIV; i++) divRef[i] = {this, i};
	for (int i = 0; i < NCLOCK; i++) clockRef[i] = {this, i};
	for (int i = 0; i < NTRACK; i++) trackRef[i] = {this, i};
}
// memory is released by the allocator seam; in-place blocks are leaked only after a violation
World::~World() { free(userGroup); }

i64 World::time(int c) {
	if (c < 0 || !ctx[c]) return -1;
	BKTime t = BK_TIME_ZERO;
	if ((++alt % 3 ? BKGetPtr(ctx[c], BK_TIME, &t, sizeof t) : BKContextGetPtr(ctx[c], BK_TIME, &t)) != 0) return -1;
	return leadOf ? timeOf(t) - leadOf(c) : timeOf(t);
}
int World::getAttr(int t, BKEnum attr, BKInt * v) {
	if (++alt % 3) return BKGetAttr(track[t], attr, v);
	return bare[t] ? BKUnitGetAttr((BKUnit *)track[t], attr, v) : BKTrackGetAttr(track[t], attr, v);
}
int World::getPtr(int t, BKEnum attr, void * p, size_t n) {
	if (++alt % 3) return BKGetPtr(track[t], attr, p, n);
	return bare[t] ? BKUnitGetPtr((BKUnit *)track[t], attr, p) : BKTrackGetPtr(track[t], attr, p);
}
int World::getEff(int t, int e, BKInt v[3]) { return bare[t] ? BKGetPtr(track[t], kEffect[e], v, 3 * sizeof(BKInt)) : ++alt % 2 ? BKTrackGetEffect(track[t], kEffect[e], v, 3 * sizeof(BKInt)) : BKGetPtr(track[t], kEffect[e], v, 3 * sizeof(BKInt)); }
int World::get(int t, BKEnum attr) { BKInt v = 0; if (getAttr(t, attr, &v) != 0) return 0x7fffffff; return v; }

std::vector<i64> levelsWorld(World & w) {
	std::vector<i64> v;
	for (int t = 0; t < NTRACK; t++) { if (!w.track[t]) { v.insert(v.end(), 7, -1); continue; } for (BKEnum a : {BK_VOLUME_0, BK_VOLUME_1, BK_PERIOD, BK_SAMPLE_PERIOD, BK_DUTY_CYCLE, BK_PHASE, BK_MUTE}) v.push_back(w.get(t, a)); }
	return v;
}
static i64 levels(World & w) {
	u64 h = 7;
	for (int t = 0; t < NTRACK; t++) if (w.track[t]) for (BKEnum a : {BK_VOLUME_0, BK_VOLUME_1, BK_PERIOD, BK_SAMPLE_PERIOD, BK_DUTY_CYCLE, BK_PHASE, BK_MUTE}) h = (h ^ (u64)(unsigned)w.get(t, a)) * 0x9E3779B97F4A7C15ull, h ^= h >> 30;
	return (i64)(h >> 1);
}
void World::callNest() {
	if (!nest || curGen < 0 || dataEvents) return;
	int g = curGen, d = depth, cd = curDiv; u32 ic = inCallback;
	depth = 0; curDiv = -1; inCallback = 0;
	nest(*this);
	curGen = g; depth = d; curDiv = cd; inCallback = ic;
}
static BKEnum onDivider(BKCallbackInfo * info, void * ui) {
	CbRef * ref = (CbRef *)ui; World & w = *ref->w; int v = ref->slot;
	i64 n = ++w.divFires[v];
	i64 tm = w.time(w.curGen);
	if (info->event != BK_EVENT_DIVIDER) pend("callback-event", "divider v%d called with event %u", v, info->event);
	w.events.push_back({'v', v, tm, n});
	if (w.logAtFire) w.events.push_back({'l', v, tm, levels(w)});
	if (w.snapAtFire) w.snaps.push_back(levelsWorld(w));
	LOG("fire v%d n=%lld t=%lld", v, (long long)n, (long long)tm);
	if (w.actsOff) return 0;
	auto d = w.divNext.find({v, n}); if (d != w.divNext.end()) info->divider = (BKUInt)d->second;
	auto a = w.divActs.find({v, n});
	if (a != w.divActs.end()) {
		int sc = w.curDiv; w.curDiv = v; w.inCallback++;
		std::vector<Op> ops = a->second;
		for (auto & o : ops) { int res = w.apply(o); if (res != SKIP) probe("op_in_callback"); }
		w.inCallback--; w.curDiv = sc;
	}
	w.callNest();
	return 0;
}
static BKEnum onClock(BKCallbackInfo * info, void * ui) {
	CbRef * ref = (CbRef *)ui; World & w = *ref->w; int k = ref->slot;
	i64 n = ++w.clockFires[k];
	i64 tm = w.curGen >= 0 ? w.time(w.curGen) : timeOf(w.clock[k]->time);
	if (info->event != BK_EVENT_CLOCK) pend("callback-event", "clock k%d called with event %u", k, info->event);
	if (info->object != w.clock[k]) pend("callback-event", "clock k%d called with another object", k);
	w.events.push_back({'k', k, tm, n});
	if (w.logAtFire) w.events.push_back({'l', 100 + k, tm, levels(w)});
	if (w.snapAtFire) w.snaps.push_back(levelsWorld(w));
	LOG("fire k%d n=%lld t=%lld", k, (long long)n, (long long)tm);
	if (w.actsOff) return 0;
	auto d = w.clockNext.find({k, n}); if (d != w.clockNext.end()) info->nextTime = timeMk(timeOf(info->nextTime) + d->second);
	auto a = w.clockActs.find({k, n});
	if (a != w.clockActs.end()) {
		w.inCallback++;
		std::vector<Op> ops = a->second;
		for (auto & o : ops) { int res = w.apply(o); if (res != SKIP) probe("op_in_clock_callback"); }
		w.inCallback--;
	}
	w.callNest();
	return 0;
}
static BKEnum onSample(BKCallbackInfo * info, void * ui) {
	CbRef * ref = (CbRef *)ui; World & w = *ref->w; int t = ref->slot;
	i64 n = w.sampFires[t]++;
	i64 ev = info->event == BK_EVENT_SAMPLE_BEGIN ? 1 : info->event == BK_EVENT_SAMPLE_RESET ? 2 : 0;
	w.events.push_back({ev == 1 ? 'b' : 's', t, 0, n});
	LOG("fire s t%d n=%lld ev=%lld", t, (long long)n, (long long)ev);
	BKEnum ret = BK_NO_REPEAT; auto & s = w.sampRet[t]; if (ev == 2 && !s.empty()) ret = (BKEnum)s[(size_t)n % s.size()];
	auto a = w.sampActs.find({t, n});
	if (!w.actsOff && a != w.sampActs.end()) {
		w.inCallback++;
		std::vector<Op> ops = a->second;
		for (auto & o : ops) { int res = w.apply(o); if (res != SKIP) probe("op_in_sample_callback"); }
		w.inCallback--;
	}
	w.callNest();
	return ret;
}

i64 World::genDefault(int c, i64 n) {
	size_t at = out[c].size();
	// exactly sized scratch, so writing too much is caught
	size_t cnt = (size_t)n * nch[c];
	BKFrame * buf = (BKFrame *)malloc(cnt * sizeof(BKFrame) + 1);
	for (size_t i = 0; i < cnt; i++) buf[i] = 0x5a5a;
	i64 got = BKContextGenerate(ctx[c], buf, (BKUInt)n);
	i64 keep = got < 0 ? 0 : got > n ? n : got;
	out[c].resize(at + (size_t)keep * nch[c]);
	if (keep) memcpy(&out[c][at], buf, (size_t)keep * nch[c] * sizeof(BKFrame));
	free(buf);
	simFrames((u64)n, rate[c]);
	return got;
}

#define NEED(cond) do { if (!(cond)) return SKIP; } while (0)
static bool in(i64 v, i64 n) { return v >= 0 && v < n; }

static bool changesData(const std::string & n) { return n == "dataframes" || n == "dataset" || n == "load" || n == "loadraw" || n == "loadwave" || n == "datanorm" || n == "dataconv" || n == "datadel" || n == "datadetach"; }
// the users of data are told one after the other: until then they may not be given other data
bool allowedInDataEvent(const Op & o) { return o.n == "range" || o.n == "sustain" || o.n == "scb" || (o.n == "attr" && o.at(1) != A_WAVE); }
int World::apply(const Op & o) {
	if (around && o.n != "gen" && o.n.compare(0, 3, "at:") != 0 && o.n.compare(0, 3, "kt:") != 0 && o.n.compare(0, 3, "st:") != 0) return around(*this, o);
	return applyRaw(o);
}
int World::applyRaw(const Op & o) {
	const std::string & n = o.n;
	int res = 0;
	if (depth > 3) return SKIP;
	auto period = [](i64 v) { return v >= 0 && (v >> 20) <= 0x7fffffff ? BKTimeMake((BKInt)(v >> 20), (BKFUInt20)(v & 0xfffff)) : timeMk(v); };
	// every third call uses the functions of the class instead of those of all objects
	u64 oh = 3; for (i64 x : o.a) oh = (oh ^ (u64)x) * 0x9E3779B97F4A7C15ull, oh ^= oh >> 31; bool other = oh % 3 == 0;
	auto setA = [&](i64 t, BKEnum a, BKInt v) { return !other ? BKSetAttr(track[t], a, v) : bare[t] ? BKUnitSetAttr((BKUnit *)track[t], a, v) : BKTrackSetAttr(track[t], a, v); };
	auto setP = [&](i64 t, BKEnum a, void * p, size_t sz) { return !other ? BKSetPtr(track[t], a, p, sz) : bare[t] ? BKUnitSetPtr((BKUnit *)track[t], a, p) : BKTrackSetPtr(track[t], a, p); };
	if (dataEvents && !allowedInDataEvent(o)) return SKIP;
	struct D { int & d; D(int & x) : d(x) { d++; } ~D() { d--; } } dd(depth);
	struct E { int & d; bool on; E(int & x, bool o) : d(x), on(o) { d += on; } ~E() { d -= on; } } ee(dataEvents, changesData(n));
	if (n == "gen") {
		i64 c = o.at(0), f = o.at(1);
		NEED(!inCallback && in(c, NCTX) && ctx[c] && f > 0 && f <= 200000);
		curGen = (int)c;
		res = (int)render(*this, (int)c, f);
		curGen = -1;
		LOG("gen c%lld %lld -> %d", (long long)c, (long long)f, res);
		return res;
	}
	if (n == "ctx") {
		i64 c = o.at(0); NEED(in(c, NCTX) && !ctx[c]);
		if (o.at(3) && allowAlloc) { res = BKContextAlloc(&ctx[c], (BKUInt)o.at(1), (BKUInt)o.at(2)); ctxA[c] = true; }
		else { ctx[c] = blk<BKContext>(); res = BKContextInit(ctx[c], (BKUInt)o.at(1), (BKUInt)o.at(2)); ctxA[c] = false; if (res) { free(ctx[c]); ctx[c] = nullptr; } }
		if (res) ctx[c] = nullptr;
		if (ctx[c]) { BKInt x = 0; BKGetAttr(ctx[c], BK_NUM_CHANNELS, &x); nch[c] = x; x = 0; BKContextGetAttr(ctx[c], BK_SAMPLE_RATE, &x); rate[c] = x; }
	}
	else if (n == "ctxdel") {
		i64 c = o.at(0); NEED(!inCallback && in(c, NCTX) && ctx[c]);
		BKDispose(ctx[c]); if (!ctxA[c]) free(ctx[c]); ctx[c] = nullptr;
		for (auto & x : trackCtx) if (x == c) x = -1;
		for (auto & x : clockCtx) if (x == c) x = -1;
		for (auto & x : divCtx) if (x == c) x = -1;
	}
	else if (n == "ctxreset") { i64 c = o.at(0); NEED(!inCallback && in(c, NCTX) && ctx[c]); BKContextReset(ctx[c]); }
	else if (n == "kernel") { i64 c = o.at(0); NEED(in(c, NCTX) && ctx[c]); void * p = o.at(1) < 0 ? nullptr : (void *)BKBufferPulseKernels[o.at(1) & 1]; res = other ? BKContextSetPtr(ctx[c], BK_PULSE_KERNEL, p) : BKSetPtr(ctx[c], BK_PULSE_KERNEL, p, sizeof(void *)); }
	else if (n == "ctxperiod") { i64 c = o.at(0); NEED(in(c, NCTX) && ctx[c]); BKTime t = timeMk(o.at(1)); res = other ? BKContextSetPtr(ctx[c], BK_CLOCK_PERIOD, &t) : BKSetPtr(ctx[c], BK_CLOCK_PERIOD, &t, sizeof t); }
	else if (n == "track") {
		i64 t = o.at(0); NEED(in(t, NTRACK) && !track[t]);
		BKEnum w = kWave[((u64)o.at(1)) % 6];
		if (o.at(2) && allowAlloc) { res = BKTrackAlloc(&track[t], w); trackA[t] = true; }
		else { track[t] = blk<BKTrack>(); res = BKTrackInit(track[t], w); trackA[t] = false; if (res) { free(track[t]); } }
		if (res) track[t] = nullptr;
		trackCtx[t] = -1; sampFires[t] = 0; sampRet[t].clear(); bare[t] = false;
	}
	else if (n == "unit") {   // unit t wave: a unit without track in the slot of a track
		i64 t = o.at(0); NEED(in(t, NTRACK) && !track[t]);
		track[t] = (BKTrack *)blk<BKUnit>(); res = BKUnitInit((BKUnit *)track[t], kWave[((u64)o.at(1)) % 6]); trackA[t] = false; bare[t] = true;
		if (res) { free(track[t]); track[t] = nullptr; }
		trackCtx[t] = -1; sampFires[t] = 0; sampRet[t].clear();
	}
	else if (n == "trackdel") {
		i64 t = o.at(0); NEED(in(t, NTRACK) && track[t]);
		BKDispose(track[t]); if (!trackA[t]) free(track[t]); track[t] = nullptr; trackCtx[t] = -1;
	}
	else if (n == "attach") {
		i64 t = o.at(0), c = o.at(1); NEED(in(t, NTRACK) && track[t] && in(c, NCTX) && ctx[c]);
		res = bare[t] ? BKUnitAttach((BKUnit *)track[t], ctx[c]) : BKTrackAttach(track[t], ctx[c]); if (res == 0) trackCtx[t] = (int)c;
	}
	else if (n == "detach") { i64 t = o.at(0); NEED(in(t, NTRACK) && track[t]); if (bare[t]) BKUnitDetach((BKUnit *)track[t]); else BKTrackDetach(track[t]); trackCtx[t] = -1; }
	else if (n == "treset") { i64 t = o.at(0); NEED(in(t, NTRACK) && track[t] && !bare[t]); BKTrackReset(track[t]); }
	else if (n == "tclear") { i64 t = o.at(0); NEED(in(t, NTRACK) && track[t] && !bare[t]); BKTrackClear(track[t]); }
	else if (n == "attr") {
		i64 t = o.at(0), k = o.at(1); NEED(in(t, NTRACK) && track[t] && in(k, A_COUNT));
		i64 v = o.at(2); if (k == A_WAVE) v = (v >= 0 && v < 6) ? kWave[v] : v;
		res = setA(t, kAttr[k], (BKInt)v);
	}
	else if (n == "arp") {
		i64 t = o.at(0); NEED(in(t, NTRACK) && track[t]);
		BKInt a[16] = {}; int cnt = (int)o.a.size() - 1; if (cnt > 15) cnt = 15; a[0] = cnt; for (int i = 0; i < cnt; i++) a[1 + i] = (BKInt)o.at(1 + i);
		res = setP(t, BK_ARPEGGIO, cnt > 0 ? a : nullptr, sizeof(BKInt) * (cnt + 1));
	}
	else if (n == "eff") {
		i64 t = o.at(0), e = o.at(1); NEED(in(t, NTRACK) && track[t] && in(e, 5));
		i64 sz = o.at(2); BKInt v[3] = {(BKInt)o.at(3), (BKInt)o.at(4), (BKInt)o.at(5)};
		void * p = sz <= 0 ? nullptr : v; if (sz < 0) sz = 0; if (sz > 3) sz = 3;
		if (bare[t] || oh % 2) res = BKSetPtr(track[t], kEffect[e], p, (size_t)sz * sizeof(BKInt));
		else if (other && (sz <= 0 || e <= 2 || sz == 2)) res = BKTrackSetPtr(track[t], kEffect[e], p);
		else res = BKTrackSetEffect(track[t], kEffect[e], p, (BKUInt)(sz * sizeof(BKInt)));
	}
	else if (n == "instr") {
		i64 i = o.at(0); NEED(in(i, NINSTR) && !instr[i]);
		if (o.at(1) && allowAlloc) { res = BKInstrumentAlloc(&instr[i]); instrA[i] = true; }
		else { instr[i] = blk<BKInstrument>(); res = BKInstrumentInit(instr[i]); instrA[i] = false; if (res) free(instr[i]); }
		if (res) instr[i] = nullptr;
	}
	else if (n == "instrcopy") {
		i64 i = o.at(0), s = o.at(1); NEED(in(i, NINSTR) && !instr[i] && in(s, NINSTR) && instr[s]);
		instr[i] = blk<BKInstrument>(); res = BKInstrumentInitCopy(instr[i], instr[s]); instrA[i] = false;
		if (res) { free(instr[i]); instr[i] = nullptr; }
	}
	else if (n == "instrdetach") { i64 i = o.at(0); NEED(in(i, NINSTR) && instr[i]); BKInstrumentDetach(instr[i]); }
	else if (n == "instrdel") { i64 i = o.at(0); NEED(in(i, NINSTR) && instr[i]); BKDispose(instr[i]); if (!instrA[i]) free(instr[i]); instr[i] = nullptr; }
	else if (n == "seq") {   // seq i slot susOff susLen v...
		i64 i = o.at(0); NEED(in(i, NINSTR) && instr[i]);
		std::vector<BKInt> v; for (size_t k = 4; k < o.a.size(); k++) v.push_back((BKInt)o.a[k]);
		BKInt * p = v.empty() ? nullptr : (BKInt *)malloc(v.size() * sizeof(BKInt));
		if (p) memcpy(p, v.data(), v.size() * sizeof(BKInt));
		if (!p && ++alt % 3) { BKInt none; res = alt % 3 == 1 ? BKInstrumentSetSequence(instr[i], (BKEnum)o.at(1), &none, 0, (BKInt)o.at(2), (BKInt)o.at(3)) : BKInstrumentSetSequence(instr[i], (BKEnum)o.at(1), nullptr, 3, (BKInt)o.at(2), (BKInt)o.at(3)); }   // also without values
		else res = BKInstrumentSetSequence(instr[i], (BKEnum)o.at(1), p, (BKUInt)v.size(), (BKInt)o.at(2), (BKInt)o.at(3));
		free(p);
	}
	else if (n == "env") {   // env i slot susOff susLen (steps value)...
		i64 i = o.at(0); NEED(in(i, NINSTR) && instr[i]);
		size_t cnt = o.a.size() > 4 ? (o.a.size() - 4) / 2 : 0;
		BKSequencePhase * p = cnt ? (BKSequencePhase *)malloc(cnt * sizeof(BKSequencePhase)) : nullptr;
		for (size_t k = 0; k < cnt; k++) { p[k].steps = (BKUInt)o.a[4 + 2 * k]; p[k].value = (BKInt)o.a[5 + 2 * k]; }
		if (!p && ++alt % 3) { BKSequencePhase none; res = alt % 3 == 1 ? BKInstrumentSetEnvelope(instr[i], (BKEnum)o.at(1), &none, 0, (BKInt)o.at(2), (BKInt)o.at(3)) : BKInstrumentSetEnvelope(instr[i], (BKEnum)o.at(1), nullptr, 2, (BKInt)o.at(2), (BKInt)o.at(3)); }
		else res = BKInstrumentSetEnvelope(instr[i], (BKEnum)o.at(1), p, (BKUInt)cnt, (BKInt)o.at(2), (BKInt)o.at(3));
		free(p);
	}
	else if (n == "adsr") { i64 i = o.at(0); NEED(in(i, NINSTR) && instr[i]); res = BKInstrumentSetEnvelopeADSR(instr[i], (BKUInt)o.at(1), (BKUInt)o.at(2), (BKInt)o.at(3), (BKUInt)o.at(4)); }
	else if (n == "setinstr") {
		i64 t = o.at(0), i = o.at(1); NEED(in(t, NTRACK) && track[t] && i < NINSTR && (i < 0 || instr[i]));
		res = setP(t, BK_INSTRUMENT, i < 0 ? nullptr : instr[i], sizeof(void *));
	}
	else if (n == "data") {   // data d nframes nch seed copy alloc
		i64 d = o.at(0); NEED(in(d, NDATA) && !data[d] && o.at(1) <= 100000);
		if (o.at(5) && allowAlloc) { res = BKDataAlloc(&data[d]); dataA[d] = true; }
		else { data[d] = blk<BKData>(); res = BKDataInit(data[d]); dataA[d] = false; if (res) free(data[d]); }
		if (res) { data[d] = nullptr; LOG("data -> %d", res); return res; }
		Op f("dataframes", {d, o.at(1), o.at(2), o.at(3), o.at(4)});
		if (o.at(1) > 0) {
			res = applyRaw(f);
			if (res && dropFailed) { BKDispose(data[d]); if (!dataA[d]) free(data[d]); data[d] = nullptr; }
		}
	}
	else if (n == "dataframes") {   // dataframes d nframes nch seed copy
		i64 d = o.at(0); NEED(in(d, NDATA) && data[d] && o.at(1) <= 100000);
		i64 nf = o.at(1), ch = o.at(2); if (ch < 1) ch = 1; if (ch > 8) ch = 8; if (nf < 0) nf = 0;
		std::vector<BKFrame> v = makeFrames(nf, ch, o.at(3));
		BKFrame * p = (BKFrame *)malloc(v.size() * sizeof(BKFrame) + 1); memcpy((void *)p, v.data(), v.size() * sizeof(BKFrame));
		res = BKDataSetFrames(data[d], p, (BKUInt)nf, (BKUInt)o.at(2), o.at(4) ? 1 : 0);
		if (o.at(4)) { free(p); if (res == 0 && userFrames[d]) { free(userFrames[d]); userFrames[d] = nullptr; } }
		else if (res == 0) { free(userFrames[d]); userFrames[d] = p; }
		else free(p);
	}
	else if (n == "dataset") {   // dataset d bytes nch bits seed
		i64 d = o.at(0); NEED(in(d, NDATA) && data[d] && o.at(1) >= 0 && o.at(1) <= 100000);
		std::vector<unsigned char> v((size_t)o.at(1)); Rng r((u64)o.at(4)); for (auto & x : v) x = (unsigned char)r.next();
		unsigned char * p = (unsigned char *)malloc(v.size() + 1); memcpy(p, v.data(), v.size());
		res = BKDataSetData(data[d], p, (BKUInt)v.size(), (BKUInt)o.at(2), (BKEnum)o.at(3));
		free(p);
		if (res == 0) { free(userFrames[d]); userFrames[d] = nullptr; }
	}
	else if (n == "load") {      // load d kind(0 raw, 1 wave 16 bit, 2 wave 8 bit) nframes nch seed
		i64 d = o.at(0), nf = o.at(2), ch = o.at(3); NEED(in(d, NDATA) && data[d] && nf >= 1 && nf <= 100000 && ch >= 1 && ch <= 8);
		SimFile f; f.mode = 0; std::vector<BKFrame> v = makeFrames(nf, ch, o.at(4));
		if (o.at(1)) f.data = waveBytes(v, (int)ch, 22050, o.at(1) == 2 ? 8 : 16); else { f.data.resize(v.size() * 2); memcpy(f.data.data(), v.data(), v.size() * 2); }
		FILE * fp = simOpen(f);
		res = o.at(1) ? BKDataLoadWAVE(data[d], fp) : BKDataLoadRaw(data[d], fp, (BKUInt)ch, (BKEnum)(BK_LITTLE_ENDIAN | BK_16_BIT_SIGNED));
		simClose(f);
		if (res == 0) { free(userFrames[d]); userFrames[d] = nullptr; }
	}
	else if (n == "loadraw" || n == "loadwave") {   // loadraw d bytes nch params seed offset fault at | loadwave d nframes nch bits seed cut fault at
		i64 d = o.at(0), c = o.at(1); NEED(in(d, NDATA) && data[d] && c >= 0 && c <= 100000);
		bool raw = n == "loadraw"; SimFile f; f.mode = 0;
		if (raw) { f.data.assign((size_t)((u64)o.at(5) % 64), 0x77); Rng r((u64)o.at(4)); while (c--) f.data.push_back((unsigned char)r.next()); }
		else { NEED(o.at(2) >= 1 && o.at(2) <= 12 && c >= 1); f.data = waveBytes(makeFrames(c, o.at(2), o.at(4)), (int)o.at(2), 22050, o.at(3) == 8 ? 8 : 16); i64 cut = o.at(5); if (cut > 0 && cut < (i64)f.data.size()) f.data.resize(f.data.size() - (size_t)cut); }
		u64 at = 1 + (u64)o.at(7) % 5; i64 fk = o.at(6);
		f.plan.bufMode = fk == 5 || fk == 7 ? 1 : fk == 6 ? 2 : 0;
		FILE * fp = simOpen(f); size_t off = raw ? (size_t)((u64)o.at(5) % 64) : 0; unsigned char skip[64];
		if (off) { size_t g = fread(skip, 1, off, fp); (void)g; f.nrd = f.nsk = 0; }
		switch (fk) {
			case 1: case 7: f.plan.rd[at] = IO_EIO; break;
			case 2: f.plan.sk[at] = IO_EIO; break;
			case 3: f.plan.seekable = false; break;
			case 4: f.plan.chunk = 1 + (i64)at * 7; break;
			case 6: f.plan.rd[at] = IO_SHORT; break;
		}
		res = raw ? BKDataLoadRaw(data[d], fp, (BKUInt)o.at(2), (BKEnum)o.at(3)) : BKDataLoadWAVE(data[d], fp);
		diskErrors += f.hardErrors;
		simClose(f);
		if (res == 0) { free(userFrames[d]); userFrames[d] = nullptr; }
	}
	else if (n == "datasus") { i64 d = o.at(0); NEED(in(d, NDATA) && data[d]); BKInt v[2] = {(BKInt)o.at(2), (BKInt)o.at(3)}; res = BKSetPtr(data[d], BK_SAMPLE_SUSTAIN_RANGE, o.at(1) ? nullptr : v, sizeof v); }
	else if (n == "datapitch") { i64 d = o.at(0); NEED(in(d, NDATA) && data[d]); res = other ? BKDataSetAttr(data[d], BK_SAMPLE_PITCH, (BKInt)o.at(1)) : BKSetAttr(data[d], BK_SAMPLE_PITCH, (BKInt)o.at(1)); }
	else if (n == "datanorm") { i64 d = o.at(0); BKInt nf = 0; NEED(in(d, NDATA) && data[d] && BKGetAttr(data[d], BK_NUM_FRAMES, &nf) == 0 && nf > 0); res = BKDataNormalize(data[d]); if (res == 0) { free(userFrames[d]); userFrames[d] = nullptr; } }
	else if (n == "dataconv") {
		i64 d = o.at(0); BKInt nf = 0; NEED(in(d, NDATA) && data[d] && BKGetAttr(data[d], BK_NUM_FRAMES, &nf) == 0 && nf > 0);
		BKDataConvertInfo ci; memset(&ci, 0, sizeof ci); ci.targetNumBits = (BKEnum)(1 + ((u64)o.at(1)) % 15);
		if (o.a.size() > 2) { ci.targetNumBits = (BKEnum)o.at(1); ci.ditherSmoothLength = (BKInt)o.at(2); ci.ditherSlope = o.at(3) / 100.0f; ci.ditherCurve = o.at(4) / 100.0f; ci.threshold = o.at(5) / 1000.0f; }
		res = BKDataConvert(data[d], &ci); if (res == 0) { free(userFrames[d]); userFrames[d] = nullptr; }
	}
	else if (n == "datacopy") {
		i64 d = o.at(0), s = o.at(1); NEED(in(d, NDATA) && !data[d] && in(s, NDATA) && data[s]);
		data[d] = blk<BKData>(); res = BKDataInitCopy(data[d], data[s]); dataA[d] = false;
		if (res) { free(data[d]); data[d] = nullptr; }
	}
	else if (n == "datadetach") { i64 d = o.at(0); NEED(in(d, NDATA) && data[d]); BKDataDetach(data[d]); }
	else if (n == "datadel") {
		i64 d = o.at(0); NEED(in(d, NDATA) && data[d]);
		BKDispose(data[d]); if (!dataA[d]) free(data[d]); data[d] = nullptr; free(userFrames[d]); userFrames[d] = nullptr;
	}
	else if (n == "samp" || n == "wave") {
		i64 t = o.at(0), d = o.at(1); NEED(in(t, NTRACK) && track[t] && d < NDATA && (d < 0 || data[d]));
		res = setP(t, n == "samp" ? BK_SAMPLE : BK_WAVEFORM, d < 0 ? nullptr : data[d], sizeof(void *));
	}
	else if (n == "range" || n == "sustain") {   // range t isnull a b
		i64 t = o.at(0); NEED(in(t, NTRACK) && track[t]);
		BKInt v[2] = {(BKInt)o.at(2), (BKInt)o.at(3)};
		res = setP(t, n == "range" ? BK_SAMPLE_RANGE : BK_SAMPLE_SUSTAIN_RANGE, o.at(1) ? nullptr : v, sizeof v);
	}
	else if (n == "scb") {   // scb t [ret...]   without results: remove
		i64 t = o.at(0); NEED(in(t, NTRACK) && track[t]);
		sampRet[t].assign(o.a.begin() + 1, o.a.end());
		BKCallback cb; cb.func = onSample; cb.userInfo = &trackRef[t];
		res = setP(t, BK_SAMPLE_CALLBACK, sampRet[t].empty() ? nullptr : &cb, sizeof cb);
	}
	else if (n == "clock") {  // clock k period alloc nocallback
		i64 k = o.at(0); NEED(in(k, NCLOCK) && !clock[k]);
		BKCallback cb; cb.func = onClock; cb.userInfo = &clockRef[k]; BKCallback * cp = o.at(3) ? nullptr : &cb;
		if (o.at(2) && allowAlloc) { res = BKClockAlloc(&clock[k], period(o.at(1)), cp); clockA[k] = true; }
		else { clock[k] = blk<BKClock>(); res = BKClockInit(clock[k], period(o.at(1)), cp); clockA[k] = false; if (res) free(clock[k]); }
		if (res) clock[k] = nullptr;
		clockCtx[k] = -1; clockFires[k] = 0;
	}
	else if (n == "clockattach") {   // clockattach k c before(-1 last, -2 first, k)
		i64 k = o.at(0), c = o.at(1), b = o.at(2); NEED(in(k, NCLOCK) && clock[k] && in(c, NCTX) && ctx[c] && ((b < 0 && b >= -3) || (in(b, NCLOCK) && clock[b] && b != k)));
		res = BKClockAttach(clock[k], ctx[c], b == -1 ? nullptr : b == -2 ? (BKClock *)BK_FIRST_ELEMENT_PTR : b == -3 ? nullptr : clock[b]);
		if (res == 0) clockCtx[k] = (int)c;
	}
	else if (n == "clockdetach") { i64 k = o.at(0); NEED(in(k, NCLOCK) && clock[k]); BKClockDetach(clock[k]); clockCtx[k] = -1; }
	else if (n == "clockperiod") { i64 k = o.at(0); NEED(in(k, NCLOCK) && clock[k] && o.at(1) > 0); BKClockSetPeriod(clock[k], period(o.at(1))); }
	else if (n == "clockreset") { i64 k = o.at(0); NEED(in(k, NCLOCK) && clock[k]); BKClockReset(clock[k]); }
	else if (n == "clockdel") {
		i64 k = o.at(0); NEED(!inCallback && in(k, NCLOCK) && clock[k]); BKDispose(clock[k]); if (!clockA[k]) free(clock[k]); clock[k] = nullptr; clockCtx[k] = -1;
	}
	else if (n == "clockdrive") {   // clockdrive k count step
		i64 k = o.at(0); NEED(!inCallback && in(k, NCLOCK) && clock[k] && clockCtx[k] < 0);
		for (i64 i = 0; i < o.at(1) && clockCtx[k] < 0; i++) { BKClockTick(clock[k]); if (clockCtx[k] >= 0) break; BKClockAdvance(clock[k], (BKFUInt20)driveStep(o, i, timeOf(clock[k]->nextTime) - timeOf(clock[k]->time))); }
		probe("clock_driven");
	}
	else if (n == "grouptick") {   // grouptick count
		NEED(!inCallback); if (userGroup) for (i64 i = 0; i < o.at(0); i++) { BKCallbackInfo info; memset(&info, 0, sizeof info); BKDividerTick(userGroup->firstDivider, &info); }
		probe("group_ticked");
	}
	else if (n == "knext") { clockNext[{(int)o.at(0), o.at(1)}] = o.at(2); }
	else if (n == "div") {
		i64 v = o.at(0); NEED(in(v, NDIV) && !divi[v]);
		BKCallback cb; cb.func = onDivider; cb.userInfo = &divRef[v]; BKCallback * cp = o.at(3) ? nullptr : &cb;
		if (o.at(2) && allowAlloc) { res = BKDividerAlloc(&divi[v], (BKUInt)o.at(1), cp); divA[v] = true; }
		else { divi[v] = blk<BKDivider>(); res = BKDividerInit(divi[v], (BKUInt)o.at(1), cp); divA[v] = false; if (res) free(divi[v]); }
		if (res) divi[v] = nullptr;
		divCtx[v] = -1; divFires[v] = 0;
	}
	else if (n == "divattach") {   // divattach v target(-1 effect, -2 beat, k clock) c
		i64 v = o.at(0), g = o.at(1), c = o.at(2); NEED(in(v, NDIV) && divi[v] && in(c, NCTX) && (g >= 0 || ctx[c]) && (g < 0 || (in(g, NCLOCK) && clock[g])));
		if (g == -3) { if (!userGroup) userGroup = (BKDividerGroup *)calloc(1, sizeof *userGroup); res = BKDividerAttachToGroup(divi[v], userGroup); }
		else if (g < 0) res = BKContextAttachDivider(ctx[c], divi[v], g == -1 ? BK_CLOCK_TYPE_EFFECT : BK_CLOCK_TYPE_BEAT);
		else res = BKDividerAttachToClock(divi[v], clock[g]);
		if (res == 0 && divCtx[v] < 0) divCtx[v] = g < 0 ? (int)c : clockCtx[g] >= 0 ? clockCtx[g] : (int)c;
	}
	else if (n == "divdetach") { i64 v = o.at(0); NEED(in(v, NDIV) && divi[v]); BKDividerDetach(divi[v]); divCtx[v] = -1; }
	else if (n == "divreset") { i64 v = o.at(0); NEED(in(v, NDIV) && divi[v]); BKDividerReset(divi[v]); }
	else if (n == "divdel") { i64 v = o.at(0); NEED(!inCallback && in(v, NDIV) && divi[v]); BKDispose(divi[v]); if (!divA[v]) free(divi[v]); divi[v] = nullptr; divCtx[v] = -1; }
	else if (n == "vnext") { divNext[{(int)o.at(0), o.at(1)}] = o.at(2); }
	else if (n.compare(0, 3, "at:") == 0) {   // at:<op> v n args...
		NEED(o.a.size() >= 2);
		divActs[{(int)o.at(0), o.at(1)}].push_back(Op(n.substr(3), std::vector<i64>(o.a.begin() + 2, o.a.end())));
		return 0;
	}
	else if (n.compare(0, 3, "st:") == 0) {   // st:<op> t n args...
		NEED(o.a.size() >= 2);
		sampActs[{(int)o.at(0), o.at(1)}].push_back(Op(n.substr(3), std::vector<i64>(o.a.begin() + 2, o.a.end())));
		return 0;
	}
	else if (n.compare(0, 3, "kt:") == 0) {   // kt:<op> k n args...
		NEED(o.a.size() >= 2);
		clockActs[{(int)o.at(0), o.at(1)}].push_back(Op(n.substr(3), std::vector<i64>(o.a.begin() + 2, o.a.end())));
		return 0;
	}
	else return SKIP;
	LOG("%s -> %d", o.str().c_str(), res);
	return res;
}

void World::destroyAll() {
	for (i64 i = 0; i < NTRACK; i++) apply(Op("trackdel", {i}));
	for (i64 i = 0; i < NDIV; i++) apply(Op("divdel", {i}));
	for (i64 i = 0; i < NCLOCK; i++) apply(Op("clockdel", {i}));
	for (i64 i = 0; i < NINSTR; i++) apply(Op("instrdel", {i}));
	for (i64 i = 0; i < NDATA; i++) apply(Op("datadel", {i}));
	for (i64 i = 0; i < NCTX; i++) apply(Op("ctxdel", {i}));
	free(userGroup); userGroup = nullptr;
}
void World::logTracks() {
	for (int t = 0; t < NTRACK; t++) if (track[t]) {
		LOG("t%d vol=%d,%d per=%d sper=%d duty=%d mute=%d phase=%d note=%d", t, get(t, BK_VOLUME_0), get(t, BK_VOLUME_1), get(t, BK_PERIOD),
			get(t, BK_SAMPLE_PERIOD), get(t, BK_DUTY_CYCLE), get(t, BK_MUTE), get(t, BK_PHASE), get(t, BK_NOTE));
	}
}

// ---------------------------------------------------------------- random scripts
i64 Gen::note() {
	i64 n = r.range(12, 84) << 20;
	if (r.chance(25)) n += r.range(-(1 << 19), 1 << 19);
	return n;
}
int Gen::liveTrack() {
	int k = (int)r.range(0, c.ntrack - 1);
	for (int i = 0; i < c.ntrack; i++) { int t = (k + i) % c.ntrack; if (track[t]) return t; }
	return -1;
}
void Gen::instrOp(int i) {
	int slot = (int)r.range(0, 3);
	i64 lo = slot == 0 ? 0 : slot == 1 ? -32767 : slot == 2 ? -(6 << 20) : 1, hi = slot == 0 ? 32767 : slot == 1 ? 32767 : slot == 2 ? 6 << 20 : 15;
	int len = (int)r.range(1, 6);
	i64 so = r.range(0, len), sl = r.range(0, len - so);
	std::vector<i64> a = {i, slot, so, sl};
	bool env = r.chance(40);
	if (r.chance(6)) { sc.add(r.chance(50) ? "seq" : "env", {i, slot, 0, 0}); return; }
	if (env && slot == 0 && r.chance(30)) { sc.add("adsr", {i, r.range(0, 20), r.range(0, 20), r.range(0, 32767), r.range(0, 30)}); return; }
	for (int k = 0; k < len; k++) { if (env) a.push_back(r.chance(15) ? 0 : r.range(1, 25)); a.push_back(r.range(lo, hi)); }
	sc.add(env ? "env" : "seq", a);
}
bool Gen::trackOp(Op & o, int t) {
	for (int tries = 0; tries < 20; tries++) {
		int k = (int)r.range(0, 99);
		if (k < 34) { i64 v = r.chance(72) ? note() : r.chance(50) ? -1 : -2; o = Op("attr", {t, A_NOTE, v}); return true; }
		if (k < 42) { o = Op("attr", {t, A_VOLUME, r.chance(20) ? 0 : r.range(0, 32767)}); return true; }
		if (k < 46) { o = Op("attr", {t, A_PANNING, r.range(-32767, 32767)}); return true; }
		if (k < 49) { o = Op("attr", {t, A_PITCH, r.range(-(5 << 20), 5 << 20)}); return true; }
		if (k < 52) { o = Op("attr", {t, A_DUTY, r.range(1, 15)}); return true; }
		if (k < 54) { o = Op("attr", {t, A_MASTER, r.range(0, 12000)}); return true; }
		if (k < 56) { o = Op("attr", {t, A_MUTE, r.range(0, 1)}); return true; }
		if (k < 58) { o = Op("attr", {t, A_WRAP, r.chance(40) ? 0 : r.range(2, 60)}); return true; }
		if (k < 60) { o = Op("attr", {t, A_TRIIGN, r.range(0, 1)}); return true; }
		if (k < 62) { o = Op("attr", {t, (i64)r.pick({(int)A_ARPDIV, (int)A_EFFDIV, (int)A_INSTRDIV}), r.range(1, 6)}); return true; }
		if (k < 64) { o = Op("attr", {t, A_WAVE, r.range(1, 5)}); return true; }
		if (k < 66) { o = Op("attr", {t, A_PHASE, r.range(-1, 40)}); return true; }
		if (c.effects && k < 76) {
			int e = (int)r.range(0, 4); int sz = r.chance(12) ? 0 : (int)r.range(1, 3);
			o = Op("eff", {t, e, sz, r.chance(15) ? 0 : r.range(1, 40), e == 4 ? r.range(-(4 << 20), 4 << 20) : r.range(0, 32767), r.chance(50) ? 0 : r.range(1, 30)}); return true;
		}
		if (c.effects && k < 80) {
			std::vector<i64> a = {t}; int cnt = r.chance(20) ? 0 : (int)r.range(1, 8); for (int i = 0; i < cnt; i++) a.push_back(r.range(-12, 12) << 20);
			o = Op("arp", a); return true;
		}
		if (c.instruments && k < 86) {
			int i = r.chance(15) ? -1 : (int)r.range(0, c.ninstr - 1); if (i >= 0 && !instr[i]) continue;
			o = Op("setinstr", {t, i}); return true;
		}
		if (c.samples && k < 92) {
			int d = r.chance(10) ? -1 : (int)r.range(0, c.ndata - 1); if (d >= 0 && !data[d]) continue;
			o = Op(r.chance(75) ? "samp" : "wave", {t, d}); return true;
		}
		if (c.samples && k < 95) { o = Op("attr", {t, (i64)r.pick({(int)A_REPEAT, (int)A_REPEAT, (int)A_IMMED, (int)A_SPITCH}), r.range(0, 2)}); if (o.at(1) == A_SPITCH) o.a[2] = r.range(-24, 24) << 20; return true; }
		if (c.samples && k < 98) { o = Op(r.chance(60) ? "range" : "sustain", {t, r.chance(15), r.range(-20, 300), r.range(-20, 300)}); return true; }
		if (c.samples && k < 100) { std::vector<i64> a = {t}; int cnt = (int)r.range(0, 4); for (int i = 0; i < cnt; i++) a.push_back(r.range(0, 2)); o = Op("scb", a); return true; }
	}
	return false;
}
void Gen::setup() {
	for (int i = 0; i < c.nctx; i++) { nchOf[i] = r.chance(60) ? 2 : (int)r.range(1, 4); sc.add("ctx", {i, nchOf[i], r.pick({(i64)16000, (i64)22050, (i64)44100, (i64)48000, (i64)96000}), r.range(0, 1)}); ctx[i] = true;
		if (r.chance(30)) sc.add("kernel", {i, r.range(-1, 1)});
		if (r.chance(25)) sc.add("ctxperiod", {i, r.range(20 << 20, (i64)900 << 20)}); }
	if (c.instruments) for (int i = 0; i < c.ninstr; i++) if (r.chance(80)) { sc.add("instr", {i, r.range(0, 1)}); instr[i] = true; int k = (int)r.range(0, 3); while (k--) instrOp(i); }
	if (c.samples) for (int d = 0; d < c.ndata; d++) if (r.chance(80)) { i64 nf = r.size(2, 600); sc.add("data", {d, nf, r.chance(75) ? 1 : nchOf[0], r.range(1, 1 << 20), r.range(0, 1), r.range(0, 1)}); data[d] = true; dataFrames[d] = (int)nf; if (r.chance(30)) sc.add("datapitch", {d, r.range(-24, 24) << 20}); }
	for (int t = 0; t < c.ntrack; t++) if (r.chance(85) || t == 0) {
		sc.add("track", {t, r.range(1, 5), r.range(0, 1)}); track[t] = true;
		sc.add("attr", {t, A_MASTER, r.range(1000, 10000)});
		int cc = (int)r.range(0, c.nctx - 1);
		if (r.chance(90)) { sc.add("attach", {t, cc}); att[t] = cc; }
		if (r.chance(70)) sc.add("attr", {t, A_NOTE, note()});
	}
	if (c.clocks) for (int k = 0; k < c.nclock; k++) if (r.chance(60)) { sc.add("clock", {k, r.range(10 << 20, (i64)2000 << 20), r.range(0, 1)}); clock[k] = true; if (r.chance(85)) sc.add("clockattach", {k, r.range(0, c.nctx - 1), r.range(-2, -1)}); }
	if (c.callbacks) for (int v = 0; v < c.ndiv; v++) if (r.chance(70)) {
		sc.add("div", {v, r.range(1, 12), r.range(0, 1)}); divi[v] = true;
		int g = (int)r.range(-2, c.clocks ? c.nclock - 1 : -1); if (g >= 0 && !clock[g]) g = -1;
		sc.add("divattach", {v, g, r.range(0, c.nctx - 1)});
		int acts = (int)r.range(0, 6);
		for (int k = 0; k < acts; k++) {
			int t = liveTrack(); Op o; if (t < 0 || !trackOp(o, t)) continue;
			std::vector<i64> a = {v, r.size(1, 40)}; a.insert(a.end(), o.a.begin(), o.a.end());
			sc.add("at:" + o.n, a);
		}
		if (r.chance(25)) sc.add("vnext", {v, r.range(1, 10), r.range(0, 9)});
	}
}
void Gen::body() {
	for (int i = 0; i < c.ops; i++) {
		if (r.chance(c.genWeight)) { sc.add("gen", {r.range(0, c.nctx - 1), r.size(1, c.maxGen)}); continue; }
		int k = (int)r.range(0, 99);
		int t = liveTrack();
		if (c.lifecycle && k < 6) {
			int tt = (int)r.range(0, c.ntrack - 1);
			if (!track[tt]) { sc.add("track", {tt, r.range(1, 5), r.range(0, 1)}); track[tt] = true; sc.add("attr", {tt, A_MASTER, r.range(1000, 10000)}); att[tt] = -1; }
			if (att[tt] < 0) { int cc = (int)r.range(0, c.nctx - 1); sc.add("attach", {tt, cc}); att[tt] = cc; }
			else if (r.chance(60)) { sc.add("detach", {tt}); att[tt] = -1; }
			else { sc.add("trackdel", {tt}); track[tt] = false; att[tt] = -1; }
			continue;
		}
		if (c.lifecycle && c.instruments && k < 9) { int ii = (int)r.range(0, c.ninstr - 1); if (instr[ii] && r.chance(20)) sc.add("instrdetach", {ii}); else if (instr[ii] && r.chance(60)) { sc.add("instrdel", {ii}); instr[ii] = false; } else if (!instr[ii]) { sc.add("instr", {ii, r.range(0, 1)}); instr[ii] = true; instrOp(ii); } continue; }
		if (c.lifecycle && c.samples && k < 12) { int d = (int)r.range(0, c.ndata - 1); if (data[d] && r.chance(20)) sc.add("datadetach", {d}); else if (data[d] && r.chance(60)) { sc.add("datadel", {d}); data[d] = false; } else if (!data[d]) { sc.add("data", {d, r.size(2, 600), r.chance(75) ? 1 : nchOf[0], r.range(1, 1 << 20), r.range(0, 1), r.range(0, 1)}); data[d] = true; } continue; }
		if (c.hotswap && c.samples && k < 15) { int d = (int)r.range(0, c.ndata - 1); if (data[d]) sc.add("dataframes", {d, r.size(2, 600), r.chance(80) ? 1 : r.range(1, 3), r.range(1, 1 << 20), r.range(0, 1)}); continue; }
		if (c.hotswap && c.instruments && k < 18) { int ii = (int)r.range(0, c.ninstr - 1); if (instr[ii]) instrOp(ii); continue; }
		if (c.clocks && k < 21 && c.nclock) {
			int kk = (int)r.range(0, c.nclock - 1);
			if (!clock[kk]) { sc.add("clock", {kk, r.range(10 << 20, (i64)2000 << 20), r.range(0, 1)}); clock[kk] = true; }
			sc.add(r.pick({"clockattach", "clockdetach", "clockreset", "clockperiod"}), {kk, 0, -1});
			Op & o = sc.ops.back(); if (o.n == "clockattach") o.a[1] = r.range(0, c.nctx - 1); if (o.n == "clockperiod") o.a[1] = r.range(10 << 20, (i64)2000 << 20);
			continue;
		}
		if (c.resets && k < 23) { sc.add("ctxreset", {r.range(0, c.nctx - 1)}); continue; }
		if (c.resets && k < 25 && t >= 0) { sc.add(r.chance(50) ? "treset" : "tclear", {t}); continue; }
		if (k < 27) { sc.add("ctxperiod", {r.range(0, c.nctx - 1), r.range(20 << 20, (i64)900 << 20)}); continue; }
		if (t >= 0) { Op o; if (trackOp(o, t)) sc.ops.push_back(o); }
	}
}
