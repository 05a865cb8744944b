// C10: wave and raw data are loaded exactly or rejected, for any bytes and any fault.
#include "world.h"
#include "common.h"

typedef std::vector<unsigned char> Bytes;
static void genFile(Scenario & sc, Rng & r, bool thorough) {
	sc.add("new", {});
	int nch = r.chance(45) ? 1 : (int)r.range(1, 8); int bits = r.chance(50) ? 16 : 8;
	if (r.chance(10)) nch = (int)r.range(0, 12); if (r.chance(7)) bits = (int)r.pick({0, 4, 12, 24, 32});
	i64 nf = r.chance(15) ? r.range(0, 3) : r.chance(80) ? r.size(2, 500) : r.size(2, 4000);
	int mode = r.chance(75) ? 0 : (int)r.range(1, 4);    // size of the data chunk: right, 0, too large, absurd, odd
	if (r.chance(25)) sc.add("junk", {r.size(1, 300), r.range(1, 1 << 20)});      // before the start offset
	sc.add("riff", {r.chance(90) ? 1 : 2, r.chance(90) ? 0 : r.range(0, (i64)0xffffffff)});
	int pre = r.chance(70) ? 0 : (int)r.range(1, 3); 
	if (pre && r.chance(15)) { sc.add("chunk", {r.size(0, 60), r.range(1, 9)}); }   // before fmt
	sc.add("fmt", {r.chance(92) ? 1 : r.range(0, 70000), nch, r.chance(90) ? r.range(1, 200000) : r.range(0, (i64)0xffffffff), bits, r.chance(75) ? 0 : r.range(0, 40), r.chance(94) ? -1 : r.range(0, (i64)0xffffffff)});
	for (int i = 0; i < pre; i++) sc.add("chunk", {r.chance(95) ? r.size(0, 300) : 0, r.range(1, 9), r.chance(93) ? -1 : r.pick({(i64)0xffffffff, (i64)0x7fffffff, (i64)0x80000000, (i64)1, (i64)100000})});
	if (r.chance(96)) sc.add("wdata", {nf * (nch ? nch : 1), bits, r.range(1, 1 << 20), mode});
	if (r.chance(20)) sc.add("chunk", {r.size(0, 80), r.range(1, 9)});
	if (r.chance(35)) {
		int k = (int)r.range(1, thorough ? 6 : 3);
		while (k--) switch (r.range(0, 5)) {
			case 0: sc.add("trunc", {r.range(0, 1 << 20)}); break;
			case 1: case 2: sc.add("flip", {r.chance(60) ? r.range(0, 63) : r.range(0, 1 << 20), r.range(0, 255)}); break;
			case 3: sc.add("set32", {r.chance(70) ? r.range(0, 63) : r.range(0, 1 << 20), r.pick({(i64)0, (i64)1, (i64)0xffffffff, (i64)0xfffffffe, (i64)0x7fffffff, (i64)0x80000000, (i64)0x40000000, (i64)16, (i64)18})}); break;
			case 4: sc.add("ins", {r.range(0, 1 << 20), r.size(1, 40), r.range(1, 1 << 20)}); break;
			case 5: sc.add("del", {r.range(0, 1 << 20), r.size(1, 40)}); break;
		}
	}
}
static void gen(Scenario & sc, Rng & r, bool thorough) {
	int rounds = (int)r.range(1, thorough ? 6 : 4);
	sc.add("target", {r.size(2, 300), r.range(1, 2), r.range(0, 1), r.range(0, 1)});
	for (int i = 0; i < rounds; i++) {
		int api = (int)r.range(0, 3);        // 0,1 LoadWAVE 2 reader 3 raw
		if (api == 3) { sc.add("new", {}); if (r.chance(30)) sc.add("junk", {r.size(1, 300), 3}); sc.add("bytes", {r.size(0, 3000), r.range(1, 1 << 20)}); }
		else if (i == 0 || r.chance(80)) genFile(sc, r, thorough);
		sc.add("stream", {r.range(0, 2), r.chance(40) ? r.size(1, 200) : 0, r.chance(97), r.chance(97) ? r.pick({0, 2}) : 1});
		if (r.chance(40)) { int k = (int)r.range(1, 2); while (k--) switch (r.range(0, 3)) {
			case 0: sc.add("rfault", {r.size(1, 12), (i64)r.pick({(int)IO_EIO, (int)IO_SHORT, (int)IO_SHORT})}); break;
			case 1: sc.add("rfault", {r.size(1, 60), (i64)IO_EIO}); break;
			case 2: sc.add("sfault", {r.size(1, 8), IO_EIO}); break;
			case 3: sc.add("afault", {r.range(1, 2)}); break; } }
		sc.add("go", {api, r.pick({1, 1, 2, 0, 8}), r.range(0, 7) | (r.pick({0, 1, 2}) << 16)});
		if (r.chance(60)) sc.add("play", {r.size(1, 600)});
	}
}
static u32 g32(const Bytes & d, size_t o) { return (u32)d[o] | (u32)d[o + 1] << 8 | (u32)d[o + 2] << 16 | (u32)d[o + 3] << 24; }
static u32 g16(const Bytes & d, size_t o) { return (u32)d[o] | (u32)d[o + 1] << 8; }
struct Dec { bool ok = false; std::string why; int nch = 0, bits = 0; u32 rate = 0; u64 frames = 0; size_t body = 0; u64 present = 0; };
// independent walk over the chunks
static Dec decode(const Bytes & d, size_t st) {
	Dec x; size_t n = d.size();
	if (st + 12 > n || memcmp(&d[st], "RIFF", 4) || memcmp(&d[st + 8], "WAVE", 4)) { x.why = "no RIFF/WAVE header"; return x; }
	u64 o = st + 12;
	if (o + 24 > n || memcmp(&d[o], "fmt ", 4)) { x.why = "no format chunk at the beginning"; return x; }
	u32 sz = g32(d, o + 4); if (sz < 16) { x.why = "format chunk too small"; return x; }
	if (g16(d, o + 8) != 1) { x.why = "not PCM"; return x; }
	x.nch = (int)g16(d, o + 10); x.rate = g32(d, o + 12); x.bits = (int)g16(d, o + 22);
	if (x.bits != 8 && x.bits != 16) { x.why = "number of bits"; return x; }
	if (!x.nch || !x.rate) { x.why = "no channels or no sample rate"; return x; }
	o += 8 + (u64)sz + (sz & 1);
	for (;;) {
		if (o + 8 > n) { x.why = "no data chunk"; return x; }
		u32 cs = g32(d, o + 4);
		if (!memcmp(&d[o], "data", 4)) {
			u64 size = cs ? cs : n - (o + 8); u64 fs = (u64)x.nch * (x.bits / 8);
			x.frames = size / fs; x.body = o + 8; x.present = (n - (o + 8)) / (x.bits / 8); x.ok = true; return x;
		}
		o += 8 + (u64)cs + (cs & 1);
	}
}
static int sampleAt(const Bytes & d, const Dec & x, u64 i) {
	if (i >= x.present) return 0;
	return x.bits == 16 ? (int)(int16_t)g16(d, x.body + 2 * i) : ((int)d[x.body + i] - 128) * 256;
}
static bool rawSample(const Bytes & d, size_t st, u64 i, int fmt, bool big, int got) {
	switch (fmt) {
		case 1: case 2: case 3: { int b = 1 << (fmt - 1), per = 8 / b, mx = (1 << b) - 1; int v = (d[st + i / per] >> (8 - b * (int)(i % per + 1))) & mx; return abs(got - v * 32767 / mx) <= 1; }
		case 4: { int v = (signed char)d[st + i]; if (v < -127) v = -127; return abs(got - v * 32767 / 127) <= 1; }
		case 5: return abs(got - d[st + i] * 32767 / 255) <= 1;
		case 6: { u32 a = d[st + 2 * i], b = d[st + 2 * i + 1]; return got == (int16_t)(big ? (a << 8 | b) : (b << 8 | a)); }
	}
	return false;
}
static void exec(const Scenario & sc) {
	Bytes d; size_t st = 0; bool pristine = true; SimFile f; u64 afault = 0; i64 chunkTotal = 0; (void)chunkTotal;
	World w; w.logAtFire = false; bool anyFault = false;
	auto at = [&](i64 v) { return d.empty() ? (size_t)0 : (size_t)((u64)v % d.size()); };
	auto tag = [&](const char * t) { d.insert(d.end(), t, t + 4); };
	auto p32 = [&](u64 x) { for (int i = 0; i < 4; i++) d.push_back((unsigned char)(x >> (8 * i))); };
	auto p16 = [&](u64 x) { for (int i = 0; i < 2; i++) d.push_back((unsigned char)(x >> (8 * i))); };
	bool fmtSeen = false; int fnch = 0, fbits = 0; u64 hard = 0;
	for (auto & o : sc.ops) {
		budgetSet(30000000);
		if (o.n == "target") {
			w.apply(Op("ctx", {0, 2, 44100, 0})); w.apply(Op("data", {0, o.at(0), o.at(1) == 2 ? 2 : 1, 77, o.at(2), o.at(3)}));
			w.apply(Op("track", {0, 1, 0})); w.apply(Op("attr", {0, A_MASTER, 8000})); w.apply(Op("attach", {0, 0}));
			w.apply(Op("samp", {0, 0})); w.apply(Op("attr", {0, A_REPEAT, 1})); w.apply(Op("attr", {0, A_NOTE, (i64)48 << 20})); w.apply(Op("gen", {0, 50}));
			w.apply(Op("track", {1, 1, 0})); w.apply(Op("attr", {1, A_MASTER, 8000})); w.apply(Op("attach", {1, 0})); w.apply(Op("wave", {1, 0})); w.apply(Op("attr", {1, A_NOTE, (i64)60 << 20}));
		}
		else if (o.n == "new") { d.clear(); st = 0; pristine = true; fmtSeen = false; }
		else if (o.n == "junk") { if (!d.empty() || o.at(0) > 100000) continue; Rng r((u64)o.at(1)); for (i64 i = 0; i < o.at(0); i++) d.push_back((unsigned char)r.next()); st = d.size(); }
		else if (o.n == "bytes") { if (o.at(0) > 100000) continue; Rng r((u64)o.at(1)); for (i64 i = 0; i < o.at(0); i++) d.push_back((unsigned char)r.next()); }
		else if (o.n == "riff") { tag("RIFF"); p32((u64)o.at(1)); tag("WAVE"); if (o.at(0) == 2) { pristine = false; d[d.size() - 1] = 'X'; } }
		else if (o.n == "fmt") {
			u64 ext = (u64)o.at(4); if (ext > 1000) continue; if (fmtSeen) pristine = false; fmtSeen = true; fnch = (int)o.at(1); fbits = (int)o.at(3);
			tag("fmt "); p32(o.at(5) >= 0 ? (u64)o.at(5) : 16 + ext); if (o.at(5) >= 0) pristine = false;
			p16((u64)o.at(0)); p16((u64)o.at(1)); p32((u64)o.at(2)); p32((u64)o.at(2) * (u64)(o.at(1) * o.at(3) / 8)); p16((u64)(o.at(1) * o.at(3) / 8)); p16((u64)o.at(3));
			for (u64 i = 0; i < ext + (ext & 1); i++) d.push_back((unsigned char)(i * 37 + 5));
			if (o.at(0) != 1 || o.at(1) < 1 || o.at(1) > 8 || !(o.at(2) & 0xffffffff) || (o.at(3) != 8 && o.at(3) != 16)) pristine = false;
			if ((u64)o.at(2) > 0x7fffffff) pristine = false;
		}
		else if (o.n == "chunk") {
			u64 n = (u64)o.at(0); if (n > 100000) continue; if (!fmtSeen) pristine = false;
			char t[5] = "LIST"; t[3] = (char)('A' + o.at(1) % 20); tag(t); i64 claim = o.a.size() > 2 ? o.at(2) : -1; p32(claim >= 0 ? (u64)claim : n); if (claim >= 0) pristine = false;
			Rng r((u64)o.at(1)); for (u64 i = 0; i < n + (n & 1); i++) d.push_back((unsigned char)r.next());
		}
		else if (o.n == "wdata") {
			u64 n = (u64)o.at(0); if (n > 100000) continue; int b = (int)o.at(1); Rng r((u64)o.at(2));
			u64 bytes = n * (u64)(b / 8); tag("data"); i64 m = o.at(3);
			p32(m == 0 ? bytes : m == 1 ? 0 : m == 2 ? bytes + 100 : m == 3 ? 0xfffffff0u : bytes + 1); if (m) pristine = false;
			if (!fmtSeen || b != fbits || fnch < 1 || n / (u64)fnch < 2 || bytes == 0) pristine = false;
			for (u64 i = 0; i < bytes; i++) d.push_back((unsigned char)r.next());
			if (bytes & 1) d.push_back(0);
		}
		else if (o.n == "trunc") { if (!d.empty()) { d.resize(at(o.at(0))); pristine = false; if (st > d.size()) st = d.size(); } }
		else if (o.n == "flip") { if (!d.empty()) { d[at(o.at(0) + (i64)st)] ^= (unsigned char)(o.at(1) | 1); pristine = false; } }
		else if (o.n == "set32") { size_t p = at(o.at(0) + (i64)st); if (p + 4 <= d.size()) { for (int i = 0; i < 4; i++) d[p + (size_t)i] = (unsigned char)((u64)o.at(1) >> (8 * i)); pristine = false; } }
		else if (o.n == "ins") { if (o.at(1) > 1000) continue; size_t p = at(o.at(0)); if (p < st) p = st; Rng r((u64)o.at(2)); Bytes x((size_t)o.at(1)); for (auto & c : x) c = (unsigned char)r.next(); d.insert(d.begin() + (long)p, x.begin(), x.end()); pristine = false; }
		else if (o.n == "del") { size_t p = at(o.at(0)); if (p < st) p = st; size_t e = p + (size_t)o.at(1); if (e > d.size()) e = d.size(); if (p < e) { d.erase(d.begin() + (long)p, d.begin() + (long)e); pristine = false; } }
		else if (o.n == "stream") { f.plan.bufMode = (int)o.at(0); f.plan.chunk = o.at(1); f.plan.seekable = o.at(2) != 0; f.mode = (int)o.at(3); }
		else if (o.n == "rfault") f.plan.rd[(u64)o.at(0)] = (int)o.at(1);
		else if (o.n == "sfault") f.plan.sk[(u64)o.at(0)] = (int)o.at(1);
		else if (o.n == "afault") afault = (u64)o.at(0);
		else if (o.n == "play") { if (w.ctx[0] && o.at(0) < 100000) { w.apply(Op("gen", {0, o.at(0)})); logHash(w.out[0].data(), w.out[0].size() * 2); w.out[0].clear(); } }
		else if (o.n == "go") {
			i64 api = o.at(0); if (api != 2 && !w.data[0]) continue;
			IoPlan plan = f.plan; f.plan = IoPlan(); f.plan.bufMode = plan.bufMode; f.data = d; f.pos = 0;
			FILE * fp = simOpen(f); fseek(fp, (long)st, SEEK_SET); f.nrd = f.nwr = f.nsk = 0; f.hardErrors = 0; f.plan = plan;
			bool ro = f.mode != 1;
			u64 fa = R.st.faults["alloc_fail"]; std::string before = deepState(w); size_t live = allocLive(), lb = allocLiveBytes();
			allocMark(); if (afault && api != 2) allocPlan.failAt.insert(afault);
			Dec x = decode(d, st); int res = 0;
			if (api == 2) {
				BKWaveFileReader * rd = (BKWaveFileReader *)malloc(sizeof *rd); memset((void *)rd, 0xCD, sizeof *rd);
				BKInt nc = -5, sr = -5, nf = -5; res = BKWaveFileReaderInit(rd, fp);
				if (res == 0) {
					res = BKWaveFileReaderReadHeader(rd, &nc, &sr, &nf);
					if (res == 0) {
						if (!x.ok) violate("accepted", "a header was accepted: %s", x.why.c_str());
						BKInt a = 0, b = 0, c = 0; if (BKWaveFileReaderReadHeader(rd, &a, &b, &c) != 0 || a != nc || b != sr || c != nf) violate("header", "asked again, the header is different");
						if (nc != x.nch || (u32)sr != x.rate || (u64)nf != x.frames) violate("header", "%d channels, %d Hz, %d frames; the file has %d, %u, %llu", nc, sr, nf, x.nch, x.rate, (unsigned long long)x.frames);
						u64 cnt = (u64)nf * (u64)nc;
						if (cnt <= 4000000) {
							BKFrame * out = (BKFrame *)malloc(cnt * 2 + (cnt ? 0 : 1)); for (u64 i = 0; i < cnt; i++) out[i] = 0x5a5a;
							res = BKWaveFileReaderReadFrames(rd, out);
							if (res == 0) for (u64 i = 0; i < cnt; i++) { int e = sampleAt(d, x, i); if (out[i] != e) { int g = out[i]; free(out); violate("frames", "sample %llu is %d, the file has %d", (unsigned long long)i, g, e); } }
							free(out);
							if (res == 0) probe("reader_frames");
						}
					}
					BKDispose(rd);
				}
				free(rd);
			}
			else if (api == 3) res = BKDataLoadRaw(w.data[0], fp, (BKUInt)o.at(1), (BKEnum)o.at(2));
			else res = BKDataLoadWAVE(w.data[0], fp);
			allocPlan = AllocPlan();
			bool aFired = R.st.faults["alloc_fail"] != fa; u64 he = f.hardErrors; hard += he;
			simClose(f); f.plan = IoPlan(); afault = 0;
			LOG("go %lld -> %d", (long long)api, res); checkPending();
			if (he || aFired) anyFault = true;
			if (res == 0 && api != 2) { w.userFrames[0] ? (free(w.userFrames[0]), w.userFrames[0] = nullptr) : nullptr; }
			if (res != 0) {
				probe(he || aFired ? "rejected_after_fault" : "rejected");
				if (res > 0) violate("result", "load returned %d", res);
				std::string after = deepState(w); if (after != before) violate("changed", "the refused load changed: %s", firstDiff(before, after).c_str());
				if (allocLive() != live || allocLiveBytes() != lb) violate("leak", "%zu blocks before, %zu after a refused load: %s", live, allocLive(), allocDescribe().c_str());
				if (!he && !aFired && ro && plan.seekable) {
					if (api != 3 && pristine && x.ok && x.frames * (u64)x.nch < 4000000) violate("refused", "a well-formed file was refused (%d)", res);
					int fmt = (int)(o.at(2) & 0xffff); u64 per = fmt >= 1 && fmt <= 6 ? (u64[]){0, 1, 2, 4, 8, 8, 16}[fmt] : 0;
					if (api == 3 && per && o.at(1) >= 1 && o.at(1) <= 8 && (d.size() - st) * 8 / (per * (u64)o.at(1)) >= 2) violate("refused", "usable raw data were refused (%d)", res);
				}
			}
			else {
				probe(api == 3 ? "raw_loaded" : pristine ? "loaded_well_formed" : "loaded_mutated"); R.nontrivial = true;
				if (!ro) violate("unusable", "loaded from a file which is not readable");
				if (aFired && api != 2) violate("unreported", "an allocation failed but the load succeeded");
				if (api == 3) {
					BKInt nf = 0, nc = 0; BKGetAttr(w.data[0], BK_NUM_FRAMES, &nf); BKGetAttr(w.data[0], BK_NUM_CHANNELS, &nc);
					int fmt = (int)(o.at(2) & 0xffff); bool big = ((u64)o.at(2) >> 16 & 3) == 1;
					if (fmt < 1 || fmt > 6) violate("accepted", "raw data of an unknown format %d were accepted", fmt);
					u64 per = (u64[]){0, 1, 2, 4, 8, 8, 16}[fmt];
					if (nc != o.at(1) || (u64)nf != (d.size() - st) * 8 / (per * (u64)nc)) violate("header", "%d frames, %d channels from %zu bytes", nf, nc, d.size() - st);
					for (u64 i = 0; i < (u64)nf * nc; i++) if (!rawSample(d, st, i, fmt, big, w.data[0]->frames[i])) violate("frames", "raw sample %llu is %d (format %d, byte %d)", (unsigned long long)i, w.data[0]->frames[i], fmt, d[st + i * per / 8]);
				}
				else if (api != 2) {
					BKInt nf = 0, nc = 0; BKGetAttr(w.data[0], BK_NUM_FRAMES, &nf); BKGetAttr(w.data[0], BK_NUM_CHANNELS, &nc);
					if (!x.ok) violate("accepted", "the file was accepted: %s", x.why.c_str());
					if (nc != x.nch || (u64)nf != x.frames) violate("header", "%d frames, %d channels; the file has %llu, %d", nf, nc, (unsigned long long)x.frames, x.nch);
					for (u64 i = 0; i < (u64)nf * nc; i++) { int e = sampleAt(d, x, i); if (w.data[0]->frames[i] != e) violate("frames", "sample %llu is %d, the file has %d", (unsigned long long)i, w.data[0]->frames[i], e); }
				}
			}
			R.states.insert(((u64)api << 40) + ((u64)(x.ok ? 1 : 0) << 39) + (u64)(res & 0xff) * 65536 + (u64)(f.nrd < 60 ? f.nrd : 60) * 256 + (u64)(f.nsk < 60 ? f.nsk : 60) * 4 + (he ? 2 : 0) + (pristine ? 1 : 0));
			if (x.why.size()) { std::string q = "unusable:" + x.why; for (char & c : q) if (c == 32) c = 95; probe(q.c_str()); };
		}
	}
	if (anyFault) R.nontrivial = true;
	w.destroyAll();
	if (allocLive()) violate("leak", "%s left", allocDescribe().c_str());
}
static PropReg reg(Prop{"C10", gen, exec,
	"one case = 1-6 loads (wave object, raw, or the reader used directly) of constructed, then possibly mutated files from a simulated disk with short reads, read and seek errors and failing allocations, into an object which tracks are playing; non-trivial when something was loaded or a fault was hit; distinct by event-log hash"});
