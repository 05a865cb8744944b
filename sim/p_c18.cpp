// C18: sound and callback times do not depend on how long the context has been running.
#include "world.h"
#include "common.h"

// age c lead clockLead: what the context and its clocks have been through before this point (in FUInt20)
// wait c m: m quiet periods before the script starts
static void gen(Scenario & sc, Rng & r, bool thorough) {
	GenCfg c; c.ntrack = (int)r.range(1, 4); c.nctx = r.chance(15) ? 2 : 1; c.ndiv = (int)r.range(0, 4); c.nclock = (int)r.range(0, 3);
	c.ops = (int)r.range(5, thorough ? 80 : 40); c.maxGen = r.pick({100, 600, 2500});
	c.samples = r.chance(60); c.instruments = r.chance(60); c.effects = r.chance(75); c.lifecycle = r.chance(60); c.resets = r.chance(25);
	Scenario s; Gen g(s, r, c); g.setup(); size_t from = s.ops.size(); g.body();
	if (r.chance(60)) sc.add("push", {});
	if (r.chance(30)) sc.add("wait", {r.range(1, 12)});
	int n = (int)r.range(1, 4);
	for (int i = 0; i < n; i++) {
		auto amount = [&]() -> i64 {
			i64 frames;
			switch (r.range(0, 4)) {
				case 0: frames = 1LL << r.range(8, 42); break;
				case 1: frames = (1LL << r.range(8, 42)) - r.size(1, 5000); break;
				case 2: frames = r.range(0, (1LL << 42)); break;
				case 3: frames = r.pick({1LL << 31, 1LL << 32, 1LL << 30}) - r.size(1, 4000); break;
				default: frames = (i64)44100 * 3600 * r.range(1, 24 * 365); break;
			}
			if (frames < 0) frames = 0;
			return (frames << 20) + (r.chance(40) ? r.range(0, (1 << 20) - 1) : 0);
		};
		i64 a = amount(), b = r.chance(60) ? a : r.chance(50) ? amount() : 0;
		size_t at = r.chance(50) ? from : (size_t)r.range((i64)(from / 2), (i64)s.ops.size());
		s.ops.insert(s.ops.begin() + (long)at, Op("age", {r.range(0, c.nctx - 1), a, b}));
	}
	sc.ops.insert(sc.ops.end(), s.ops.begin(), s.ops.end());
}
static BKInt onWrite(BKFrame * f, BKUInt n, void * info) {
	auto & p = *(std::pair<World *, int> *)info; World & w = *p.first;
	w.out[p.second].insert(w.out[p.second].end(), f, f + (size_t)n * w.nch[p.second]);
	return 0;
}
struct Life {
	World w; std::vector<int> rets; i64 pos[NCTX] = {}, lead[NCTX] = {}; i64 oldest = 0;
	void go(const Scenario & sc, bool aged, i64 wait) {
		bool push = false; for (auto & o : sc.ops) if (o.n == "push") push = true;
		w.logAtFire = true;
		w.leadOf = [this](int c) { return lead[c]; };
		if (push) w.render = [this](World & x, int c, i64 n) {
			pos[c] += n; simFrames((u64)n, x.rate[c]);
			std::pair<World *, int> info(&x, c);
			return (i64)BKContextGenerateToTime(x.ctx[c], (BKTime)((pos[c] << 20) + lead[c]), onWrite, &info);
		};
		auto quiet = [&](int c) {                       // whole periods of the master clock which are whole frames
			if (!wait || !w.ctx[c]) return;
			i64 rate = w.rate[c], q = 0; for (i64 k = 1; k <= 240; k++) if (rate * k % 240 == 0) { q = rate * k / 240; break; }
			if ((rate << 20) % 240 || !q) return;
			i64 n = q * (1 + wait * 200 / q);
			std::vector<BKFrame> b((size_t)(n * w.nch[c]));
			i64 g = BKContextGenerate(w.ctx[c], b.data(), (BKUInt)n);
			if (g != n) violate("wait", "%lld of %lld quiet frames delivered", (long long)g, (long long)n);
			for (auto x : b) if (x) violate("wait", "a context with nothing attached is not silent");
			lead[c] += n << 20; probe("waited_first"); (void)0;
		};
		for (auto & o : sc.ops) {
			i64 c = o.at(0);
			if (o.n == "age") {
				if (!aged || c < 0 || c >= NCTX || !w.ctx[c] || o.at(1) < 0 || o.at(1) > (1LL << 62) || o.at(2) < 0 || o.at(2) > (1LL << 62)) continue;
				if (lead[c] > (1LL << 62) - o.at(1)) continue;
				i64 a = o.at(1); BKContext * x = w.ctx[c];
				for (BKClock * k = x->firstClock; k; k = k->nextClock) { if (k->nextTime > INT64_MAX / 4 * 3 - o.at(2)) { a = -1; break; } }
				if (a < 0) continue;
				x->currentTime += a; lead[c] += a;
				for (BKClock * k = x->firstClock; k; k = k->nextClock) { k->time += o.at(2); k->nextTime += o.at(2); }
				if (lead[c] > oldest) oldest = lead[c];
				fault("time_jump"); if (a >> 51) probe("aged_beyond_2^31_frames");
				continue;
			}
			if (o.n == "gen") { if (c < 0 || c >= NCTX || !w.ctx[c]) continue; if (aged) R.states.insert(abstractState(w)); }
			bool fresh = (o.n == "ctx" && c >= 0 && c < NCTX && !w.ctx[c]) || o.n == "ctxreset" || o.n == "ctxdel";
			if (fresh && c >= 0 && c < NCTX) { pos[c] = 0; lead[c] = 0; }
			rets.push_back(w.apply(o)); checkPending();
			if (o.n == "ctx" && fresh) quiet((int)c);
		}
	}
};
static void same(const char * cls, Life & b, Life & a, const std::string & ga) {
	for (int c = 0; c < NCTX; c++) cmpAudio(cls, c, b.w, a.w);
	cmpEvents(cls, b.w, a.w);
	if (a.rets != b.rets) violate(cls, "results of the calls differ");
	std::string gb = getters(b.w); if (ga != gb) violate(cls, "final attributes differ: %s", firstDiff(ga, gb).c_str());
}
static void exec(const Scenario & sc) {
	i64 wait = 0; for (auto & o : sc.ops) if (o.n == "wait" && o.at(0) > 0 && o.at(0) < 1000) wait = o.at(0);
	Life a; a.go(sc, false, 0);
	std::string ga = getters(a.w);
	{ Life b; b.go(sc, true, 0); same("age", b, a, ga); if (b.oldest) for (auto x : a.w.out[0]) if (x) { R.nontrivial = true; break; } b.w.destroyAll(); }
	if (wait) { Life b; b.go(sc, false, wait); same("wait", b, a, ga); b.w.destroyAll(); }
	for (int c = 0; c < NCTX; c++) logHash(a.w.out[c].data(), a.w.out[c].size() * 2);
	a.w.destroyAll();
}
static PropReg reg(Prop{"C18", gen, exec,
	"one case = one random song script run in a new context and in contexts whose clocks have been advanced by up to millions of hours (at the start or in the middle) or which have been rendered before; non-trivial when a context was aged and the audio is not all silence; distinct by event-log hash"});
