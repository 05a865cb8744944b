// compiled twice: for the host's own byte order and for the other one
#include "sim.h"
extern "C" {
#include "BlipKit.h"
}
#include "p_c20.h"
#ifndef HOSTRUN
#define HOSTRUN hostRunLE
#endif
static void dataOut(BKData & d, HostOut & o) {
	BKInt n = -1, c = -1, r = -1;
	o.results.push_back(BKGetAttr(&d, BK_NUM_FRAMES, &n)); o.results.push_back(BKGetAttr(&d, BK_NUM_CHANNELS, &c)); o.results.push_back(BKGetAttr(&d, BK_SAMPLE_RATE, &r));
	o.results.push_back(n); o.results.push_back(c); o.results.push_back(r);
	std::vector<BKFrame> f((size_t)(n > 0 && c > 0 ? (i64)n * c : 0));
	if (!f.empty()) memcpy(f.data(), d.frames, f.size() * 2);
	o.frames.insert(o.frames.end(), f.begin(), f.end());
}
extern "C" void HOSTRUN(const HostJob & j, HostOut & o) {
	SimFile f; auto put = [&](i64 x) { o.results.push_back(x); };
	f.plan = j.plan; f.data = j.in;
	if (j.kind == 0) {
		FILE * fp = simOpen(f);
		if (j.prefix) { fseek(fp, 0, SEEK_END); }
		BKWaveFileWriter w; i64 r = BKWaveFileWriterInit(&w, fp, (BKInt)j.channels, (BKInt)j.rate, (BKInt)j.bits); put(r);
		if (r == 0) {
			size_t at = 0; bool ok = true;
			for (auto p : j.pieces) {
				if (p < 0) { r = BKWaveFileWriterTerminate(&w); put(r < 0); if (r < 0) { ok = false; break; } continue; }
				size_t n = (size_t)p; if (n > j.frames.size() - at) n = j.frames.size() - at;
				r = BKWaveFileWriterAppendFrames(&w, j.frames.data() + at, (BKInt)n); at += n; put(r < 0); if (r < 0) { ok = false; break; }
			}
			if (ok) put(BKWaveFileWriterTerminate(&w) < 0);
			BKDispose(&w);
		}
		simClose(f); o.file = f.data;
	}
	else if (j.kind == 1) {
		FILE * fp = simOpen(f); if (j.prefix) fseek(fp, (long)j.prefix, SEEK_SET);
		BKWaveFileReader rd; i64 r = BKWaveFileReaderInit(&rd, fp); put(r);
		if (r == 0) {
			BKInt c = -1, s = -1, n = -1; r = BKWaveFileReaderReadHeader(&rd, &c, &s, &n); put(r < 0);
			if (r == 0) {
				put(c); put(s); put(n); put(ftell(fp));
				if (n >= 0 && c > 0 && (i64)n * c < 1 << 22) {
					std::vector<BKFrame> b((size_t)n * (size_t)c + 1, 0x1234);
					r = BKWaveFileReaderReadFrames(&rd, b.data()); put(r < 0); if (r == 0) { put(ftell(fp)); o.frames.assign(b.begin(), b.end()); }
				}
			}
			BKDispose(&rd);
		}
		simClose(f);
	}
	else {
		BKData d; put(BKDataInit(&d)); FILE * fp = nullptr; i64 r;
		if (j.kind == 3) { std::vector<unsigned char> copy = j.in; r = BKDataSetData(&d, copy.data(), (BKUInt)copy.size(), (BKUInt)j.channels, (BKEnum)j.params); }
		else { fp = simOpen(f); if (j.prefix) fseek(fp, (long)j.prefix, SEEK_SET); r = j.kind == 2 ? BKDataLoadWAVE(&d, fp) : BKDataLoadRaw(&d, fp, (BKUInt)j.channels, (BKEnum)j.params); }
		put(r < 0); dataOut(d, o);
		BKDispose(&d); if (fp) simClose(f);
	}
}
