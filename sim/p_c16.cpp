// C16: data objects hold exactly what was put into them.
#include "model.h"
#include "common.h"

static i64 params(Rng & r) { i64 p = r.chance(6) ? r.range(0, 15) : r.range(1, 6); if (r.chance(60)) p |= (i64)r.range(0, 3) << 16; return p; }
static i64 channels(Rng & r, int nch) { return r.chance(60) ? 1 : r.chance(50) ? nch : r.range(r.chance(10) ? -1 : 1, r.chance(10) ? 10 : 8); }
static i64 pos(Rng & r) { return r.chance(20) ? r.pick({(i64)-1, (i64)1 << 30, -((i64)1 << 30), (i64)0}) : r.range(-300, 300); }
static void control(Op & o, Rng & r, int nt, int nd, bool inside, int nch) {
	i64 t = r.range(0, nt - 1), d = r.range(0, nd - 1), e = r.range(0, nd - 1), seed = r.range(1, 1 << 20);
	int k = (int)r.range(0, 99);
	i64 fk = inside || r.chance(65) ? 0 : r.range(1, 7);
	if (k < 12) o = Op("dataset", {d, r.chance(12) ? r.range(0, 12) : r.size(1, 500), channels(r, nch), params(r), seed});
	else if (k < 22) o = Op("loadraw", {d, r.chance(12) ? r.range(0, 12) : r.size(1, r.chance(20) ? 9000 : 500), channels(r, nch), params(r), seed, r.chance(40) ? r.range(0, 63) : 0, fk, r.range(0, 4)});
	else if (k < 32) o = Op("loadwave", {d, r.chance(10) ? r.range(1, 3) : r.size(2, r.chance(20) ? 3000 : 300), r.chance(60) ? 1 : r.range(1, r.chance(20) ? 12 : 8), r.pick({8, 16, 16}), seed, r.chance(75) ? 0 : r.size(1, 400), fk, r.range(0, 4)});
	else if (k < 42) o = Op("dataframes", {d, r.chance(10) ? r.range(0, 3) : r.size(2, 300), channels(r, nch), seed, r.range(0, 1)});
	else if (k < 50) o = Op("datanorm", {d});
	else if (k < 58) o = r.chance(40) ? Op("dataconv", {d, r.range(0, 14)}) : Op("dataconv", {d, r.range(0, 20), r.chance(40) ? 0 : r.range(1, 200), r.chance(40) ? 0 : r.range(1, 300), r.chance(40) ? 0 : r.range(1, 400), r.chance(40) ? 0 : r.range(1, 999)});
	else if (k < 62) o = inside ? Op("datapitch", {d, r.range(-24, 24) << 20}) : Op(r.chance(25) ? "datadetach" : "datadel", {d});
	else if (k < 70) o = Op("datacopy", {d, e});
	else if (k < 75) o = Op("data", {d, r.chance(20) ? 0 : r.size(2, 300), r.chance(70) ? 1 : nch, seed, r.range(0, 1), 0});
	else if (k < 78) o = Op("datapitch", {d, r.chance(10) ? r.pick({(i64)0x7fffffff, -((i64)1 << 31)}) : r.range(-24, 24) << 20});
	else if (k < 81) o = Op("datasus", {d, r.chance(10), pos(r), pos(r)});
	else if (k < 90) o = Op(r.chance(75) ? "samp" : "wave", {t, r.chance(8) ? -1 : d});
	else if (k < 94) o = Op("attr", {t, A_NOTE, r.chance(85) ? r.range(30, 70) << 20 : -2});
	else if (k < 96) o = Op("attr", {t, A_REPEAT, r.range(0, 2)});
	else if (k < 98) o = Op(r.chance(50) ? "range" : "sustain", {t, r.chance(10), pos(r), pos(r)});
	else o = inside ? Op("attr", {t, A_VOLUME, r.range(0, 32767)}) : Op(r.pick({"detach", "attach", "treset", "tclear"}), {t, 0});
}
static bool allocates(const Op & o) { for (const char * n : {"dataset", "loadraw", "loadwave", "dataframes", "datanorm", "dataconv", "datacopy"}) if (o.n == n) return true; return false; }
static void gen(Scenario & sc, Rng & r, bool thorough) {
	int nt = (int)r.range(1, 3), nv = (int)r.range(0, 2), nd = (int)r.range(1, NDATA), nch = r.chance(60) ? 2 : (int)r.range(1, 8);
	sc.add("ctx", {0, nch, r.pick({16000, 44100, 96000}), 0}); if (r.chance(60)) sc.add("ctxperiod", {0, r.range(4 << 20, (i64)200 << 20)});
	for (int d = 0; d < nd; d++) if (r.chance(85)) sc.add("data", {d, r.chance(15) ? 0 : r.size(2, 300), r.chance(75) ? 1 : nch, r.range(1, 99999), r.range(0, 1), 0});
	for (int t = 0; t < nt; t++) {
		sc.add("track", {t, r.range(1, 5), 0}); sc.add("attr", {t, A_MASTER, r.range(3000, 32767)});
		if (r.chance(95)) sc.add("attach", {t, 0});
		if (r.chance(85)) sc.add(r.chance(80) ? "samp" : "wave", {t, r.range(0, nd - 1)});
		if (r.chance(60)) sc.add("attr", {t, A_REPEAT, r.range(1, 2)});
		if (r.chance(85)) sc.add("attr", {t, A_NOTE, r.range(30, 66) << 20});
	}
	for (int v = 0; v < nv; v++) {
		sc.add("div", {v, r.range(1, 6), 0}); sc.add("divattach", {v, r.range(-2, -1), 0});
		int n = (int)r.range(0, 5); while (n--) { Op o; control(o, r, nt, nd, true, nch); std::vector<i64> a = {v, r.size(1, 30)}; a.insert(a.end(), o.a.begin(), o.a.end()); sc.add("at:" + o.n, a); }
	}
	int n = (int)r.range(4, thorough ? 80 : 45);
	while (n--) {
		if (r.chance(25)) { sc.add("gen", {0, r.size(1, r.pick({60, 600, 1500}))}); continue; }
		Op o; control(o, r, nt, nd, false, nch);
		if (allocates(o) && r.chance(15)) sc.add("oom", {r.range(1, 3), r.range(0, 1)});
		sc.ops.push_back(o);
	}
	sc.add("gen", {0, r.range(20, 800)});
}
static void exec(const Scenario & sc) {
	World w; Model m; ModelOpts mo; mo.levels = false;
	i64 oomAt = 0, oomFrom = 0; bool faulted = false; std::string before; size_t live = 0; std::vector<BKFrame> mine[NDATA]; BKFrame * where[NDATA] = {};
	mo.run = [&](World & ww, const Op & o) {
		faulted = false;
		if (o.n == "oom") { oomAt = o.at(0); oomFrom = o.at(1); return (int)SKIP; }
		u64 f0 = R.st.faults["alloc_fail"], d0 = ww.diskErrors; before = deepState(ww); live = allocLive();
		bool arm = oomAt && allocates(o);
		if (arm) { allocMark(); allocPlan = AllocPlan(); if (oomFrom) allocPlan.failFrom = (u64)oomAt; else allocPlan.failAt.insert((u64)oomAt); }
		int r = ww.apply(o); if (arm) allocPlan = AllocPlan(); oomAt = 0;
		faulted = R.st.faults["alloc_fail"] != f0 || ww.diskErrors != d0;
		if (R.st.faults["alloc_fail"] != f0 && r >= 0) pend("unreported", "an allocation failed during \"%s\", which answered %d", o.str().c_str(), r);
		if (r != SKIP && !faulted && allocates(o)) probe(("done:" + o.n).c_str());
		return r;
	};
	mo.refused = [&](World & ww, const Op & o, int r) {
		if (!faulted || r >= 0) return false;
		std::string now = deepState(ww); probe(("fault:" + o.n).c_str());
		if (now != before) violate("changed", "\"%s\" was refused (%d) after a fault but changed: %s", o.str().c_str(), r, firstDiff(before, now).c_str());
		if (allocLive() != live) violate("leak", "\"%s\" was refused (%d) after a fault: %zu blocks of memory before, %zu after", o.str().c_str(), r, live, allocLive());
		return true;
	};
	u64 contents = 0;
	mo.after = [&](World & ww, Model & mm, const Op & o, const char * at) {
		if (o.n == "dataframes" && o.at(0) >= 0 && o.at(0) < NDATA) where[o.at(0)] = nullptr;
		for (int d = 0; d < NDATA; d++) {
			if (!ww.data[d]) { where[d] = nullptr; continue; }
			const BKData * x = ww.data[d]; auto & v = mm.framesOf(d);
			if ((i64)x->numFrames * x->numChannels != (i64)v.size()) { if (v.size() || mm.D[d].nf) violate("contents", "%s: data %d has %d frames in %d channels, specified %lld", at, d, (int)x->numFrames, (int)x->numChannels, (long long)mm.D[d].nf); continue; }
			for (size_t i = 0; i < v.size(); i++) if (x->frames[i] != v[i]) violate("contents", "%s: value %zu of data %d is %d, specified %d", at, i, d, x->frames[i], v[i]);
			for (size_t i = 0; i < v.size(); i++) contents = (contents ^ (u64)(uint16_t)v[i]) * 0x9E3779B97F4A7C15ull >> 1;
			BKInt s[2] = {-5, -5}; if (BKGetPtr(ww.data[d], BK_SAMPLE_SUSTAIN_RANGE, s, sizeof s) != 0 || s[0] != mm.D[d].susOff || s[1] != mm.D[d].susEnd) violate("sustain-range", "%s: sustain range of data %d is %d..%d, specified %lld..%lld", at, d, s[0], s[1], (long long)mm.D[d].susOff, (long long)mm.D[d].susEnd);
			// frames which belong to the caller are left as they are
			BKFrame * u = ww.userFrames[d];
			if (u != where[d]) { where[d] = u; mine[d] = v; }
			else if (u && memcmp(u, mine[d].data(), mine[d].size() * sizeof(BKFrame)) != 0) violate("caller-frames", "%s: the caller's frames of data %d were written to", at, d);
			for (int e = 0; e < d; e++) if (ww.data[e] && ww.data[e]->frames && ww.data[e]->frames == x->frames) violate("shared", "%s: data %d and %d share their frames", at, e, d);
		}
	};
	runAgainstModel(sc, mo, w, m);
	logHash(&contents, 8);
	for (int c = 0; c < NCTX; c++) { logHash(w.out[c].data(), w.out[c].size() * 2); for (auto x : w.out[c]) if (x) R.nontrivial = true; }
	w.around = nullptr; w.destroyAll();
	checkPending();
	if (allocLive()) violate("leak", "%s left after all objects were disposed", allocDescribe().c_str());
}
static PropReg reg(Prop{"C16", gen, exec,
	"one case = one random history of setting, unpacking, loading, copying, normalising and converting data objects, some of it while tracks play them, from outside and from divider callbacks, with failing allocations and disk faults; the contents of all data objects, all attributes and every delivered sample are compared with the model after every operation; non-trivial when sound is rendered; distinct by event-log hash"});
