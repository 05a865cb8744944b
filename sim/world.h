// Real BlipKit objects in slots, driven by ops. Everything observable is logged.
#pragma once
#include "sim.h"
extern "C" {
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
#include "BlipKit.h"
#include "BKWaveFileReader.h"
#include "BKWaveFileWriter.h"
#pragma clang diagnostic pop
}

#if BK_IS_64_BIT
inline i64 timeOf(BKTime t) { return t; }
inline BKTime timeMk(i64 v) { return v; }
#else
inline i64 timeOf(BKTime t) { return ((i64)t.time << 20) + t.frac; }
inline BKTime timeMk(i64 v) { BKTime t; t.time = (BKInt)(v >> 20); t.frac = (BKFUInt20)(v & 0xfffff); return t; }
#endif

enum { NCTX = 3, NTRACK = 6, NINSTR = 3, NDATA = 4, NCLOCK = 4, NDIV = 5 };
enum { SKIP = -99999 };

enum AttrIdx {
	A_MASTER, A_VOLUME, A_PANNING, A_NOTE, A_PITCH, A_SPITCH, A_ARPDIV, A_EFFDIV, A_INSTRDIV, A_TRIIGN,
	A_WAVE, A_DUTY, A_MUTE, A_PHASE, A_WRAP, A_REPEAT, A_IMMED, A_RELEASE, A_PERIOD, A_SPERIOD,
	A_VSLIDE, A_PSLIDE, A_PORTA, A_VOL0, A_VOL1, A_COUNT
};
extern const BKEnum kAttr[A_COUNT];
extern const char * const kAttrName[A_COUNT];
extern const BKEnum kWave[8];       // 0, SQUARE, TRIANGLE, NOISE, SAWTOOTH, SINE, CUSTOM, SAMPLE
int waveIndex(BKEnum w);
extern const BKEnum kEffect[5];     // VOLUME_SLIDE, PANNING_SLIDE, PORTAMENTO, TREMOLO, VIBRATO

std::vector<BKFrame> makeFrames(i64 nframes, i64 nch, i64 seed);

std::vector<unsigned char> waveBytes(const std::vector<BKFrame> & v, int nch, int rate, int bits);   // a plain WAVE file

struct Event { char kind; int slot; i64 time; i64 n; bool operator==(const Event & o) const { return kind == o.kind && slot == o.slot && time == o.time && n == o.n; } };

// how far the user advances a clock he ticks himself: to its next time, or in smaller steps
inline i64 driveStep(const Op & o, i64 i, i64 left) { i64 s = o.at(2); if (s > 0 && i % 3 && s < left) left = s; return left < 0 ? 0 : left > 0x7fffffff ? 0x7fffffff : left; }
struct World;
struct CbRef { World * w; int slot; };

bool allowedInDataEvent(const Op & o);
struct World {
	// how `gen` is carried out: returns the frames written
	std::function<i64(World &, int c, i64 n)> render;
	bool allowAlloc = true;
	std::function<void(World &)> nest;   // called in callbacks while a context is rendered
	void callNest();
	bool actsOff = false;            // callbacks are recorded but do nothing
	bool logAtFire = false;          // record every track's levels at each callback
	bool snapAtFire = false;         // the same, in full
	std::vector<std::vector<i64>> snaps;
	int curGen = -1;                 // context being rendered

	BKContext * ctx[NCTX] = {};
	BKTrack * track[NTRACK] = {};    // also units without track (bare)
	bool bare[NTRACK] = {};
	u64 alt = 0;                     // the attribute functions of objects take turns with those of their classes
	BKDividerGroup * userGroup = nullptr;   // ticked by the user
	BKInstrument * instr[NINSTR] = {};
	BKData * data[NDATA] = {};
	BKClock * clock[NCLOCK] = {};
	BKDivider * divi[NDIV] = {};
	bool ctxA[NCTX] = {}, trackA[NTRACK] = {}, instrA[NINSTR] = {}, dataA[NDATA] = {}, clockA[NCLOCK] = {}, divA[NDIV] = {};
	int trackCtx[NTRACK], clockCtx[NCLOCK], divCtx[NDIV];
	BKFrame * userFrames[NDATA] = {};
	u64 diskErrors = 0;              // errors the simulated disk reported while loading
	std::vector<BKFrame> out[NCTX];
	u32 rate[NCTX] = {}; int nch[NCTX] = {};
	std::vector<Event> events;
	i64 divFires[NDIV] = {}, clockFires[NCLOCK] = {}, sampFires[NTRACK] = {};
	std::map<std::pair<int, i64>, std::vector<Op>> divActs, clockActs, sampActs;   // ops to run in the n-th firing
	std::map<std::pair<int, i64>, i64> divNext, clockNext;     // info.divider / info.nextTime delta to set
	std::vector<i64> sampRet[NTRACK];                          // scripted sample callback results
	CbRef divRef[NDIV], clockRef[NCLOCK], trackRef[NTRACK];
	int depth = 0, dataEvents = 0; int curDiv = -1;
	u32 inCallback = 0;

	World();
	~World();
	int apply(const Op & op);
	int applyRaw(const Op & op);
	std::function<i64(int)> leadOf;                   // how far a context's time is ahead of the script
	std::function<int(World &, const Op &)> around;   // wraps every op except gen, from outside and from callbacks
	bool dropFailed = false;         // a data object whose first frames were refused is not kept
	void destroyAll();
	i64 time(int c);
	int getAttr(int t, BKEnum attr, BKInt * v);
	int getPtr(int t, BKEnum attr, void * p, size_t n);
	int getEff(int t, int e, BKInt v[3]);
	int get(int t, BKEnum attr);      // attribute through BKGetAttr (0x7fffffff on failure)
	i64 genDefault(int c, i64 n);
	bool anyTrack(int c) const { for (int t = 0; t < NTRACK; t++) if (track[t] && trackCtx[t] == c) return true; return false; }
	void logTracks();
};

// random world scripts
struct GenCfg {
	int nctx = 1, ntrack = 3, ninstr = 2, ndata = 2, nclock = 1, ndiv = 2;
	bool samples = true, instruments = true, effects = true, callbacks = true, lifecycle = true, resets = false;
	bool hotswap = true, clocks = true, rawVolume = false, contextDel = false;
	i64 maxGen = 3000; int ops = 40;
	int genWeight = 30;
};
struct Gen {
	Scenario & sc; Rng & r; GenCfg c;
	bool ctx[NCTX] = {}, track[NTRACK] = {}, instr[NINSTR] = {}, data[NDATA] = {}, clock[NCLOCK] = {}, divi[NDIV] = {};
	int att[NTRACK]; int dataFrames[NDATA] = {}; int nchOf[NCTX] = {};
	Gen(Scenario & s, Rng & rr, const GenCfg & cc) : sc(s), r(rr), c(cc) { for (auto & x : att) x = -1; }
	void setup();
	void body();
	bool trackOp(Op & o, int t);      // an op on track t that is legal in callbacks too
	void instrOp(int i);
	i64 note();
	int liveTrack();
};
