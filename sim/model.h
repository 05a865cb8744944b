// Executable reference model of the library: the same ops as World, written
// over absolute time (no buffers, no incremental clocks, no linked lists).
#pragma once
#include "world.h"
#include <memory>

struct MSeq { bool env = false; std::vector<int> v; std::vector<std::pair<u32, int>> ph; i64 len = 0, so = 0, sl = 0; int shift = 0; };
struct MSState { MSeq * seq = nullptr; int value = 0, steps = 0; i64 shifted = 0, delta = 0, end = 0, offset = 0; int phase = 0; };
struct MSlide {
	int end = 0, steps = 0, value = 0, delta = 0, bias = 0, shift = 0, step = 0;
	void set(int e, i64 n); void halt(bool toEnd); void tick(); int get() const;
};
struct MInterval {
	int delta = 0, steps = 0, value = 0, sdelta = 0, bias = 0, shift = 0, phase = 0, step = 0;
	void set(int d, i64 n); void tick(); int get() const;
};
struct MDivState { int divider = 1, counter = 0; bool tick() { bool t = false; if (counter == 0) { counter = divider; t = true; } counter--; return t; } };

struct MTrack {
	bool live = false, bare = false;   // bare: a unit without track
	int ctx = -1;
	// unit
	i64 time = 0; int wf = 0, duty = 2, mute = 0, vol[8] = {}, last[8] = {}; u32 period = 0;
	u32 phase = 0, count = 16, wrap = 0, wrapCount = 0;
	const BKFrame * frames = nullptr; u32 length = 0, offset = 0, end = 0, nch = 0; i64 speriod = 1 << 20, tfrac = 0; int repeatMode = 0, repeatCount = 0; u32 susOff = 0, susEnd = 0;
	bool fRange = false, fJump = false, fRelease = false, hasCb = false;
	int data = -1; std::vector<i64> cbRet; i64 cbFires = 0;
	// track
	int waveform = 0, dutyCycle = 4, master = 0, pitch = 0, samplePitch = 0, curNote = -1;
	bool triIgn = true, ignVol = false, panEn = false, uVol = true, uNote = true, uDuty = true, fArp = false, fInstr = false, fEff[5] = {};
	MDivState arpDiv, effDiv, instrDiv;
	int arpCount = 0, arpOffset = 0, arpDelta = 0, arpNotes[8] = {};
	MSlide volume, panning, note, tremD, tremS, vibD, vibS; MInterval trem, vib;
	int instr = -1, iphase = 0, iactive = 0; MSState st[4];
};
struct MInstr { bool live = false; std::shared_ptr<MSeq> seq[4]; int num = 0; std::vector<int> users; };
struct MData { bool live = false; std::shared_ptr<std::vector<BKFrame>> fr; i64 nf = 0, nch = 0, susOff = 0, susEnd = 0; int pitch = 0; std::vector<int> users; };
struct MClock { bool live = false, cb = true; int ctx = -1; i64 next = 0, period = 1, own = 0; };   // own: time while not attached
struct MDiv { bool live = false, cb = true; int divider = 1, counter = 0, group = -1, markGroup = -1; u64 mark = 0; i64 fires = 0; };
struct MGroup { std::vector<int> list; u64 tick = 0; int cur = -1; };
struct MCtx {
	bool live = false; int nch = 0; u32 rate = 0; i64 now = 0, rendered = 0; bool resetFlag = false; int kernel = 1;
	std::vector<int> clocks, units; std::vector<std::vector<i64>> mix; i64 accum[8] = {};
};

struct Model {
	MCtx C[NCTX]; MTrack T[NTRACK]; MInstr I[NINSTR]; MData D[NDATA]; MClock K[NCLOCK + NCTX]; MDiv V[NDIV + NTRACK]; MGroup G[NCLOCK + 2 * NCTX + 1];   // last: the user's own group
	i64 clockFires[NCLOCK] = {};
	std::vector<BKFrame> out[NCTX];
	bool audio = true;               // render audio (otherwise only time, callbacks and attributes)
	bool logAtFire = false;
	std::vector<Event> events;
	std::vector<std::vector<i64>> snaps;   // levels of all tracks at each divider and clock callback
	std::vector<int> results;              // results of ops carried out in callbacks
	std::map<std::pair<int, i64>, std::vector<Op>> divActs, clockActs, sampActs; int dataEvents = 0;
	std::map<std::pair<int, i64>, i64> divNext, clockNext;
	int inCallback = 0, depth = 0, curGen = -1;
	u64 pulses = 0;
	const std::vector<BKFrame> & framesOf(int d) const { static const std::vector<BKFrame> none; return D[d].fr ? *D[d].fr : none; }

	int apply(const Op & o);
	std::vector<i64> snap() const;
	std::vector<i64> levelsAt() const;
private:
	int applyOp(const Op & o);
	void gen(int c, i64 n); void advanceClocks(int c); void clockTick(int k); void groupTick(int g, i64 & dummy);
	void divFire(int v, i64 & infoDivider); void trackTick(int t);
	void clockReset(int k); int clockAttach(int k, int c, int before); void clockDetach(int k);
	int divAttach(int v, int g); void divDetach(int v);
	void run(int t, i64 target); i64 runWave(MTrack & t, i64 target); i64 runSample(int ti, i64 target); bool canRun(const MTrack & t) const; bool resetSample(int ti);
	void pulse(MCtx & c, int ch, i64 t, i64 amp);
	void updateUnit(MTrack & t); void updVol(MTrack & t); void updNote(MTrack & t); void updDuty(MTrack & t); void updIgn(MTrack & t);
	int unitAttr(int ti, int a, i64 v); int trackAttr(int ti, int a, i64 v); void setDuty(MTrack & t, i64 v); void setRelease(MTrack & t, bool v); void setPhase(int ti, i64 v);
	int setWaveform(int ti, i64 v);
	i64 callSample(int ti, int ev);
	int trySetData(int ti, int d, bool sample, bool dispose); int setData(int ti, bool sample, int d); void linkData(int ti, int d); void dataEvent(int d, bool dispose);
	void range(MTrack & t, i64 a, i64 b); void sustain(MTrack & t, i64 a, i64 b);
	void setNote(int ti, i64 n); int setEffect(int ti, int e, const int v[3]); void setArp(MTrack & t, const std::vector<i64> & a);
	void instrFlags(MTrack & t, bool all); void setInstr(int ti, int i); void instrAttack(int ti); void instrRelease(int ti); void instrMute(int ti); void initDuty(MTrack & t);
	void stateSetInstr(int ti, int i); void stateDefaults(MTrack & t); void stateValue(MSState & s, int v); void statePhase(int ti, int ph); bool seqPhase(MSState & s, int ph); int seqStep(MSState & s, int level); void stateTick(int ti, int level);
	int setSeq(int i, i64 slot, std::shared_ptr<MSeq> s);
	int setDataFrames(int d, i64 nf, i64 ch, i64 seed);
	int setDataBytes(int d, const std::vector<unsigned char> & b, i64 ch, i64 params);
	void replaceFrames(int d, std::vector<BKFrame> v, i64 ch);
	u64 rnd = 1; int nextRand() { rnd = rnd * 6364136223846793005ull + 1442695040888963407ull; return (int)(rnd >> 33); }
	void trackDetach(int ti); void resetPulse(MTrack & t);
	void unitClear(int ti); void unitReset(int ti); void trackClear(int ti); void trackReset(int ti);
};

// the same values of the real objects
std::vector<i64> snapWorld(World & w);
std::vector<i64> levelsWorld(World & w);
std::string snapName(size_t i);
std::string levelName(size_t i);

struct ModelOpts {
	bool audio = true, levels = true;
	std::function<int(World &, const Op &)> run;                         // carries out an op on the library (faults are armed here)
	std::function<bool(World &, const Op &, int)> refused;               // the call failed because of a fault: the model does not see it
	std::function<void(World &, Model &, const Op &, const char *)> after;
};
// runs the scenario on the library and on the model and compares everything after every op
void runAgainstModel(const Scenario & sc, const ModelOpts & mo, World & w, Model & m);
