// C09: written wave files are complete and readable, or an error is reported.
#include "world.h"
#include "common.h"
#include <cerrno>

static void gen(Scenario & sc, Rng & r, bool thorough) {
	int nch = r.chance(40) ? 2 : (int)r.range(1, 8); i64 rate = r.chance(60) ? 44100 : r.range(1, 1 << 20); i64 bits = r.pick({0, 8, 16, 16});
	i64 pre = r.chance(50) ? 0 : r.size(1, 6000);
	// file: mode, bytes before the start, written through the same stream?, bytes of a former file behind the start, buffering
	sc.add("file", {r.chance(70) ? 2 : 1, pre, r.range(0, 1), r.chance(80) ? 0 : r.size(1, 9000), r.range(0, 2)});
	int kind = (int)r.range(0, 9);     // 0,1 healthy
	if (kind == 2 || kind == 3) sc.add("full", {r.chance(50) ? r.size(0, 200) : r.size(0, 20000)});
	if (kind == 4 || kind == 5 || kind == 9) { int k = (int)r.range(1, 3); while (k--) sc.add("wfault", {r.size(1, 14), (i64)r.pick({(int)IO_EIO, (int)IO_SHORT, (int)IO_ENOSPC, (int)IO_EINTR})}); }
	if (kind == 6 || kind == 9) sc.add("sfault", {r.size(1, 10), IO_EIO});
	if (kind == 7 || kind == 8) sc.add("wfault", {r.size(1, 14), IO_CRASH});
	if (kind == 1 && r.chance(20)) sc.add("noseek", {1});
	if (kind == 1 && r.chance(20)) sc.ops[0].a[0] = 0;
	if (r.chance(15)) { sc.add("writedata", {r.size(2, 3000), nch, rate, bits, r.range(1, 1 << 20)}); return; }
	if (r.chance(6)) sc.add("badbits", {r.range(0, 1), r.pick({1, 4, 7, 9, 12, 15, 17, 24, 32, -8, -16, 0x10008, INT32_MAX, INT32_MIN})});
	sc.add("writer", {nch, rate, bits});
	if (r.chance(3)) sc.add("badbits", {r.range(0, 1), r.pick({1, 24, 32})});
	int n = (int)r.range(0, thorough ? 14 : 7);
	for (int i = 0; i < n; i++) {
		if (r.chance(80)) { i64 fr = r.chance(10) ? 0 : r.chance(70) ? r.size(1, 400) : r.size(1, 6000); sc.add("app", {r.chance(90) ? fr * nch : fr, r.range(1, 1 << 20)}); }
		else sc.add("term", {1});
	}
	if (r.chance(85)) sc.add("term", {1});
	if (r.chance(10)) sc.add("term", {1});
	sc.add("disp", {1});
}
static u32 g32(const std::vector<unsigned char> & d, size_t o) { return (u32)d[o] | (u32)d[o + 1] << 8 | (u32)d[o + 2] << 16 | (u32)d[o + 3] << 24; }
static u32 g16(const std::vector<unsigned char> & d, size_t o) { return (u32)d[o] | (u32)d[o + 1] << 8; }
// independent parser: the file begins at `st`
static void parse(const std::vector<unsigned char> & d, size_t st, int nch, u32 rate, int bits, const std::vector<BKFrame> & want) {
	size_t n = want.size() * (size_t)(bits / 8);
	if (d.size() < st + 12) violate("incomplete", "only %zu bytes behind the start, no header", d.size() - (st < d.size() ? st : d.size()));
	if (memcmp(&d[st], "RIFF", 4) || memcmp(&d[st + 8], "WAVE", 4)) violate("header", "no RIFF/WAVE header at the start offset %zu", st);
	size_t riff = g32(d, st + 4), o = st + 12; bool fmt = false, data = false;
	while (!data) {
		if (o + 8 > d.size()) violate("incomplete", "file ends in a chunk header at offset %zu", o - st);
		u32 sz = g32(d, o + 4); size_t body = o + 8;
		if (!memcmp(&d[o], "fmt ", 4)) {
			if (sz < 16 || body + sz > d.size()) violate("header", "format chunk of %u bytes", sz);
			if (g16(d, body) != 1) violate("header", "format tag %u", g16(d, body));
			if (g16(d, body + 2) != (u32)nch || g32(d, body + 4) != rate || g16(d, body + 14) != (u32)bits)
				violate("header", "%u channels, %u Hz, %u bits instead of %d, %u, %d", g16(d, body + 2), g32(d, body + 4), g16(d, body + 14), nch, rate, bits);
			if (g16(d, body + 12) != (u32)(nch * bits / 8) || g32(d, body + 8) != (u32)(rate * (u32)(nch * bits / 8))) violate("header", "block align %u, byte rate %u", g16(d, body + 12), g32(d, body + 8));
			fmt = true;
		}
		else if (!memcmp(&d[o], "data", 4)) {
			if (!fmt) violate("header", "data before format");
			if (sz != n) violate("size", "the data chunk says %u bytes, %zu were appended", sz, n);
			if (body + n > d.size()) violate("incomplete", "the data chunk says %zu bytes, %zu are there", n, d.size() - body);
			for (size_t i = 0; i < want.size(); i++) {
				int got = bits == 16 ? (int)(int16_t)g16(d, body + 2 * i) : d[body + i];
				int exp = bits == 16 ? want[i] : ((want[i] >> 8) + 128);
				if (got != exp) violate("frames", "sample %zu is %d, appended was %d", i, got, exp);
			}
			size_t end = body + n - st - 8;
			if (riff != end && riff != end + (n & 1)) violate("size", "RIFF size %zu, the file has %zu bytes behind it", riff, end);
			data = true;
		}
		o = body + sz + (sz & 1);
	}
}
static void loadBack(SimFile & f, size_t st, int bits, const std::vector<BKFrame> & want, int nch, bool exact) {
	SimFile g; g.mode = 0; g.data = f.data; FILE * fp = simOpen(g); fseek(fp, (long)st, SEEK_SET);
	BKData dt; memset(&dt, 0xCD, sizeof dt);
	if (BKDataInit(&dt) != 0) violate("load", "BKDataInit failed");
	BKInt res = BKDataLoadWAVE(&dt, fp); simClose(g);
	LOG("loaded %d", res);
	size_t whole = want.size() / (size_t)nch;
	if (res == 0) {
		BKInt nf = 0, nc = 0; BKGetAttr(&dt, BK_NUM_FRAMES, &nf); BKGetAttr(&dt, BK_NUM_CHANNELS, &nc);
		if (nc != nch || (size_t)nf > whole || (exact && (size_t)nf != whole)) violate(exact ? "load" : "crash", "%d frames, %d channels loaded, %zu frames, %d channels appended", nf, nc, whole, nch);
		for (size_t i = 0; i < (size_t)nf * nc; i++) { int e = bits == 16 ? want[i] : (BKFrame)((((want[i] >> 8) + 128) - 128) << 8); if (dt.frames[i] != e) violate(exact ? "load" : "crash", "sample %zu loaded as %d, appended %d", i, dt.frames[i], e); }
		probe(exact ? "loaded_back" : "crash_loaded");
	}
	else if (exact && whole >= 2) violate("load", "the written file is refused by BKDataLoadWAVE (%d)", res);
	BKDispose(&dt);
}
static void exec(const Scenario & sc) {
	SimFile f; BKWaveFileWriter * w = nullptr; FILE * fp = nullptr;
	std::vector<BKFrame> want; std::vector<unsigned char> prefix;
	size_t st = 0; int nch = 1, bits = 16; u32 rate = 0; i64 extra = 0;
	bool failed = false, appFailed = false, started = false, done = false; bool termOk = false;
	auto begin = [&](const Op & o) {
		i64 pre = o.at(1); f.mode = (int)o.at(0); extra = o.at(3); f.plan.bufMode = (int)o.at(4);
		Rng r(99); prefix.resize((size_t)pre); for (auto & x : prefix) x = (unsigned char)r.next();
		bool viaStream = o.at(2) && f.mode != 0;
		IoPlan p = f.plan; IoPlan q; q.bufMode = p.bufMode; f.plan = q;
		if (!viaStream) f.data = prefix;
		size_t keep = f.data.size();
		if (extra) { f.data.resize((size_t)(pre + extra)); for (size_t i = keep; i < f.data.size(); i++) f.data[i] = (unsigned char)r.next(); }
		fp = simOpen(f);
		if (viaStream) { if (pre) fwrite(prefix.data(), 1, (size_t)pre, fp); if (r.chance(50)) fflush(fp); } else if (pre) fseek(fp, (long)pre, SEEK_SET);
		st = (size_t)pre; f.nrd = f.nwr = f.nsk = 0; f.hardErrors = 0; f.plan = p;
	};
	auto checkPrefix = [&](const char * when) {
		// bytes written before the writer was started may still be buffered
		size_t n = f.data.size() < st ? f.data.size() : st;
		for (size_t i = 0; i < n; i++) if (extra == 0 && f.data[i] != prefix[i]) violate("prefix", "%s changed byte %zu which lies before the start offset %zu", when, i, st);
	};
	u64 fired0 = 0; for (auto & x : R.st.faults) fired0 += x.second;
	auto fired = [&]() { u64 s = 0; for (auto & x : R.st.faults) s += x.second; return s != fired0; };
	auto blame = [&](const char * what, int res) {
		if (res != 0) { failed = true; probe("error_reported"); R.nontrivial = true; if (!fired()) violate("refused", "%s returned %d on a healthy disk", what, res); }
	};
	auto complete = [&](const char * what) {
		if (f.crashed) return;
		checkPrefix(what);
		if (f.data.size() >= st) for (size_t i = 0; i < st; i++) if (f.data[i] != prefix[i]) violate("prefix", "%s: byte %zu before the start offset is changed", what, i);
		parse(f.data, st, nch, rate, bits, want);
		if (!want.empty() || !extra) loadBack(f, st, bits, want, nch, true);   // a data size of 0 means "up to the end of the file"
		if (f.hardErrors && !failed) violate("silent", "%llu failed disk operations but no call reported an error until %s", (unsigned long long)f.hardErrors, what);
		probe("complete"); R.nontrivial = true; logHash(f.data.data(), f.data.size());
	};
	BKFrame * blk = nullptr;
	for (auto & o : sc.ops) {
		budgetSet(20000000);
		if (o.n == "full") f.plan.diskFull = o.at(0);
		else if (o.n == "wfault") f.plan.wr[(u64)o.at(0)] = (int)(o.at(1) == IO_EINTR ? IO_EIO : o.at(1));
		else if (o.n == "sfault") f.plan.sk[(u64)o.at(0)] = (int)o.at(1);
		else if (o.n == "noseek") f.plan.seekable = false;
	}
	for (auto & o : sc.ops) if (o.n == "file" && !fp) begin(o);
	if (!fp) return;
	for (auto & o : sc.ops) {
		budgetSet(20000000);
		if (o.n == "writer" && !w && !done) {
			nch = (int)o.at(0); rate = (u32)o.at(1); bits = o.at(2) ? (int)o.at(2) : 16;
			if (nch < 1 || nch > 8 || rate < 1) continue;
			w = (BKWaveFileWriter *)malloc(sizeof *w); memset((void *)w, 0xCD, sizeof *w);
			int res = BKWaveFileWriterInit(w, fp, nch, (BKInt)rate, (BKInt)o.at(2)); LOG("init %d", res);
			if (f.mode == 0 || !f.plan.seekable) { if (res == 0) violate("unusable", "a writer was created for a file which is not %s", f.mode == 0 ? "writable" : "seekable"); R.nontrivial = true; probe("unusable_file"); }
			else if (res) { blame("BKWaveFileWriterInit", res); }
			if (res) { free(w); w = nullptr; done = true; }
			started = res == 0;
		}
		else if (o.n == "badbits" && !done) {      // no such format: refused, and the file stays as it is
			i64 b = o.at(1); if (b == 0 || b == 8 || b == 16) continue;
			u64 nw = f.nwr; bool ask = f.plan.sk.empty() && f.plan.seekable; long at = ask ? ftell(fp) : -1; int res;
			if (o.at(0)) { BKData dt; BKFrame v[4] = {1, 2, 3, 4}; if (BKDataInit(&dt) != 0 || BKDataSetFrames(&dt, v, 2, 2, 1) != 0) violate("data", "data object refused"); res = BKWaveFileWriteData(fp, &dt, 44100, (BKInt)b); BKDispose(&dt); }
			else { BKWaveFileWriter * x = (BKWaveFileWriter *)malloc(sizeof *x); memset((void *)x, 0xCD, sizeof *x); res = BKWaveFileWriterInit(x, fp, 2, 44100, (BKInt)b); if (res == 0) BKDispose(x); free(x); }
			if (res == 0) violate("unusable", "a writer for %lld bits was created", (long long)b);
			long now = ask ? ftell(fp) : -1; if (f.nwr != nw || (at >= 0 && now >= 0 && now != at)) violate("unusable", "a refused writer has used the file");
			probe("refused_bits");
		}
		else if (o.n == "app" && w) {
			i64 n = o.at(0); if (n < 0 || n > 100000) continue;
			std::vector<BKFrame> v = makeFrames(n, 1, o.at(1)); if (n) { v[0] = 32767; v[(size_t)n / 2] = -32768; }
			blk = (BKFrame *)malloc(v.size() * 2 + 1); memcpy((void *)blk, v.data(), v.size() * 2);
			int res = BKWaveFileWriterAppendFrames(w, blk, (BKInt)n); LOG("app %lld -> %d", (long long)n, res);
			if (memcmp(blk, v.data(), v.size() * 2)) violate("input", "the frames of the caller were changed");
			free(blk); blame("BKWaveFileWriterAppendFrames", res); termOk = false; if (res || failed) appFailed = true;     // nothing is promised for frames appended after a reported error
			want.insert(want.end(), v.begin(), v.end());
			checkPrefix("append");
		}
		else if (o.n == "term" && w) {
			int res = BKWaveFileWriterTerminate(w); LOG("term %d", res);
			blame("BKWaveFileWriterTerminate", res);
			// a terminate which failed may be repeated
			if (res == 0 && !appFailed) { complete("BKWaveFileWriterTerminate"); termOk = true; if (failed) probe("terminated_after_error"); }
			checkPrefix("terminate");
		}
		else if (o.n == "disp" && w) {
			BKDispose(w); free(w); w = nullptr; done = true;
			u64 he = f.hardErrors;
			if (!failed && !he && !f.crashed && !fired()) { complete("BKDispose"); probe("terminated_by_dispose"); }
			checkPrefix("dispose");
		}
		else if (o.n == "writedata" && !w && !done) {
			i64 nf = o.at(0); nch = (int)o.at(1); rate = (u32)o.at(2); bits = o.at(3) ? (int)o.at(3) : 16; if (nf < 2 || nf > 100000 || nch < 1 || nch > 8 || rate < 1) continue;
			want = makeFrames(nf, nch, o.at(4));
			BKData dt; if (BKDataInit(&dt) != 0 || BKDataSetFrames(&dt, want.data(), (BKUInt)nf, (BKUInt)nch, 1) != 0) violate("data", "data object refused");
			int res = BKWaveFileWriteData(fp, &dt, (BKInt)rate, (BKInt)o.at(3)); LOG("writedata %d", res); BKDispose(&dt);
			done = true; started = true;
			if (f.mode == 0 || !f.plan.seekable) { if (res == 0) violate("unusable", "written to a file which is not writable or seekable"); failed = true; R.nontrivial = true; }
			else blame("BKWaveFileWriteData", res);
			if (res == 0 && !failed) complete("BKWaveFileWriteData");
			checkPrefix("write data");
		}
		R.states.insert((u64)(f.nwr < 40 ? f.nwr : 40) * 64 + (u64)(f.nsk < 12 ? f.nsk : 12) * 4 + (f.hardErrors ? 2 : 0) + (failed ? 1 : 0) + (u64)bits * 65536 + (u64)nch * 1048576);
	}
	if (w) { BKDispose(w); free(w); }
	bool crashed = f.crashed; simClose(f);
	checkPrefix("closing the file");
	if (crashed && started && extra == 0) {        // the process died; what reached the disk is a beginning of the frames, or refused
		probe("crash_checked"); R.nontrivial = true;
		if (f.data.size() >= st) loadBack(f, st, bits, want, nch, false);
	}
	if (allocLive()) violate("leak", "%s left", allocDescribe().c_str());
	(void)termOk;
}
static PropReg reg(Prop{"C09", gen, exec,
	"one case = one random sequence of appends and terminates through a stdio stream on a simulated disk with partial writes, write and seek errors, a full disk or a crash in the middle of a write; non-trivial when a complete file was verified, an error was reported or a crash happened; distinct by event-log hash"});
