// compiled twice: with the time type of 64 bit and of 32 bit platforms
#include "world.h"
#include "common.h"
#include "p_c19.h"
#ifndef TIMERUN
#define TIMERUN timeRun64
#endif
struct Sink { World * w; int c; };
static BKInt onWrite(BKFrame * f, BKUInt n, void * info) {
	auto & p = *(Sink *)info; p.w->out[p.c].insert(p.w->out[p.c].end(), f, f + (size_t)n * p.w->nch[p.c]);
	return 0;
}
static void helpers(const Op & o, TimeRun & r) {
	BKTime a = BKTimeMake((BKInt)o.at(0), (BKFUInt20)o.at(1)), b = BKTimeMake((BKInt)o.at(2), (BKFUInt20)o.at(3)); BKFUInt20 u = (BKFUInt20)o.at(4);
	auto put = [&](i64 x) { r.times.push_back(x); };
	put(timeOf(a)); put(timeOf(b)); put(BKTimeGetTime(a)); put(BKTimeGetFrac(a)); put(BKTimeGetFUInt20(a));
	put(timeOf(BKTimeAdd(a, b))); put(timeOf(BKTimeSub(a, b))); put(timeOf(BKTimeAddFUInt20(a, u))); put(timeOf(BKTimeSubFUInt20(a, u)));
	put(!!BKTimeIsEqual(a, b)); put(!!BKTimeIsGreater(a, b)); put(!!BKTimeIsGreaterEqual(a, b)); put(!!BKTimeIsLess(a, b)); put(!!BKTimeIsLessEqual(a, b));
	put(!!BKTimeIsGreaterFUInt20(a, u)); put(!!BKTimeIsLessFUInt20(a, u));
}
extern "C" void TIMERUN(const Scenario & sc, TimeRun & r) {
	World w; i64 pos[NCTX] = {}, lead[NCTX] = {}; i64 form = 0; std::vector<i64> pieces; size_t pi = 0;
	for (auto & o : sc.ops) { if (o.n == "form") form = o.at(0); if (o.n == "pieces") pieces = o.a; }
	auto next = [&](i64 dflt) { if (pieces.empty()) return dflt; i64 x = pieces[pi++ % pieces.size()]; return x < 1 ? (i64)1 : x; };
	w.logAtFire = true;
	w.leadOf = [&](int c) { return lead[c]; };
	if (form == 1) w.render = [&](World & x, int c, i64 n) {
		simFrames((u64)n, x.rate[c]);
		i64 done = 0, got = 0;
		while (done < n) {
			i64 k = next(n << 20) >> 10; if (k < 1) k = 1; if (k > n - done) k = n - done;
			done += k; pos[c] += k; Sink s{&x, c};
			i64 g = BKContextGenerateToTime(x.ctx[c], timeMk((pos[c] << 20) + lead[c]), onWrite, &s); if (g < 0) return g; got += g;
		}
		return got;
	};
	if (form == 2) w.render = [&](World & x, int c, i64 n) {
		simFrames((u64)n, x.rate[c]);
		i64 got = 0, left = n << 20; std::vector<BKFrame> b((size_t)(1100 * x.nch[c]));
		while (left > 0) {
			i64 k = next(left); if (k < 1 << 15) k = 1 << 15; if (k > 1000 << 20) k = 1000 << 20; if (k > left) k = left;
			if (BKContextEnd(x.ctx[c], (BKFUInt20)k) < 0) return (i64)-1;
			left -= k;
			i64 g = BKContextRead(x.ctx[c], b.data(), 1100); x.out[c].insert(x.out[c].end(), b.begin(), b.begin() + g * x.nch[c]); got += g;
		}
		return got;
	};
	for (auto & o : sc.ops) {
		i64 c = o.at(0);
		if (o.n == "tm") { helpers(o, r); continue; }
		if (o.n == "age") {
			if (c < 0 || c >= NCTX || !w.ctx[c] || o.at(1) < 0 || o.at(2) < 0) continue;
			BKContext * x = w.ctx[c]; i64 a = o.at(1), b = o.at(2), top = (i64)0x7f000000 << 20; bool ok = a < top && b < top && timeOf(x->currentTime) + a < top;
			for (BKClock * k = x->firstClock; ok && k; k = k->nextClock) if (timeOf(k->nextTime) > top - b || timeOf(k->time) > top - b) ok = false;
			if (!ok) continue;
			x->currentTime = timeMk(timeOf(x->currentTime) + a); lead[c] += a; r.aged = true;
			for (BKClock * k = x->firstClock; k; k = k->nextClock) { k->time = timeMk(timeOf(k->time) + b); k->nextTime = timeMk(timeOf(k->nextTime) + b); }
			continue;
		}
		if ((o.n == "ctx" || o.n == "ctxreset" || o.n == "ctxdel") && c >= 0 && c < NCTX && (o.n != "ctx" || !w.ctx[c])) pos[c] = lead[c] = 0;
		if (o.n == "gen") { if (c < 0 || c >= NCTX || !w.ctx[c]) continue; R.states.insert(abstractState(w)); }
		r.results.push_back(w.apply(o));
	}
	for (auto & e : w.events) { r.events.push_back(e.kind); r.events.push_back(e.slot); r.events.push_back(e.time); r.events.push_back(e.n); }
	for (int c = 0; c < NCTX; c++) r.audio[c].assign(w.out[c].begin(), w.out[c].end());
	r.state = deepState(w);
	w.destroyAll();
}
