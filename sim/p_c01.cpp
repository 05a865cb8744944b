// C01: the sound and the callback times do not depend on how the caller asks for frames.
#include "world.h"
#include "common.h"

static void gen(Scenario & sc, Rng & r, bool thorough) {
	GenCfg c; c.ntrack = (int)r.range(1, 4); c.nctx = r.chance(15) ? 2 : 1; c.ndiv = (int)r.range(0, 4); c.nclock = (int)r.range(0, 2);
	c.ops = (int)r.range(6, thorough ? 90 : 50); c.maxGen = r.pick({300, 2500, 2500, 6000});
	c.samples = r.chance(70); c.instruments = r.chance(70); c.effects = r.chance(80); c.lifecycle = r.chance(60); c.resets = r.chance(25);
	bool push = r.chance(35);
	int k = (int)r.range(1, 7); std::vector<i64> v; for (int i = 0; i < k; i++) v.push_back(r.chance(20) ? 1 : r.size(1, 2600)); sc.add("chunks", v);
	k = (int)r.range(1, 5); v.clear(); for (int i = 0; i < k; i++) v.push_back(r.size(1, 1500)); sc.add("reads", v);
	if (push) sc.add("push", {1});
	if (push && r.chance(40)) { k = (int)r.range(2, 8); v.clear(); for (int i = 0; i < k; i++) v.push_back(i == 0 || r.chance(60) ? 0 : r.pick({1, 1, -1, -1, 100, -12})); sc.add("refuse", v); }
	if (r.chance(50)) { k = (int)r.range(1, 5); v.clear(); for (int i = 0; i < k; i++) v.push_back(r.chance(60) ? r.range(1 << 15, 1 << 20) : r.size(1 << 18, (i64)700 << 20)); sc.add("fracs", v); }   // spans that end within a frame
	if (r.chance(40)) { k = (int)r.range(1, 6); v.clear(); for (int i = 0; i < k; i++) v.push_back(r.pick({-1, 0, 500, 999, 1000, (int)r.range(1, 999)})); sc.add("runs", v); }   // run, but not ended
	Gen g(sc, r, c);
	g.setup();
	g.body();
}
struct Plan { std::vector<i64> chunks, reads, fracs, refuse, runs; size_t ci = 0, ri = 0, fi = 0, rn = 0; };
static i64 nextOf(std::vector<i64> & v, size_t & i, i64 dflt) { if (v.empty()) return dflt; i64 x = v[i++ % v.size()]; return x < 1 ? 1 : x; }

static i64 chunked(World & w, int c, i64 n, Plan & p) {
	i64 done = 0;
	while (done < n) { i64 k = nextOf(p.chunks, p.ci, n); if (k > n - done) k = n - done; i64 g = w.genDefault(c, k); if (g != k) return g < 0 ? g : done + g; done += k; }
	return done;
}
static i64 endRead(World & w, int c, i64 n, Plan & p) {
	i64 done = 0;
	while (done < n) {
		i64 k = nextOf(p.chunks, p.ci, n); if (k > n - done) k = n - done; if (k > 1024) k = 1024;
		for (i64 span = k << 20; span > 0; ) { i64 part = p.fracs.empty() ? span : nextOf(p.fracs, p.fi, span); if (part < (1 << 14)) part = 1 << 14; if (part > span || k > 64) part = span; if (p.runs.size()) { i64 z = p.runs[p.rn++ % p.runs.size()]; if (z >= 0 && z <= 1000) { probe("run_before_end"); if (BKContextRun(w.ctx[c], (BKFUInt20)(part / 1000 * z)) < 0) return -1; } } if (BKContextEnd(w.ctx[c], (BKFUInt20)part) < 0) return -1; span -= part; }
		i64 left = k;
		while (left) {
			i64 have = BKContextSize(w.ctx[c]);
			if (have != left) pend("size", "BKContextSize says %lld where %lld frames are ready", (long long)have, (long long)left);
			i64 m = nextOf(p.reads, p.ri, left); if (m > left) m = left;
			std::vector<BKFrame> b((size_t)(m * w.nch[c]));
			i64 g = BKContextRead(w.ctx[c], b.data(), (BKUInt)m);
			w.out[c].insert(w.out[c].end(), b.begin(), b.begin() + (g > m ? m : g) * w.nch[c]);
			if (g != m) return done + (k - left) + g;
			left -= m;
		}
		done += k;
	}
	simFrames((u64)n, w.rate[c]);
	return done;
}
struct Sink { World * w; int c; std::vector<i64> * refuse; u64 * writes; bool refused; };
static BKInt onWrite(BKFrame in[], BKUInt n, void * info) {
	auto * p = (Sink *)info;
	p->w->out[p->c].insert(p->w->out[p->c].end(), in, in + (size_t)n * p->w->nch[p->c]);
	i64 v = p->refuse->empty() ? 0 : (*p->refuse)[(*p->writes)++ % p->refuse->size()];
	if (v) { if (p->refused) pend("push-refused", "frames are pushed after the receiver refused"); p->refused = true; fault("write_refused"); }
	return (BKInt)v;
}
static void runWorld(World & w, const Scenario & sc, std::vector<int> & rets) {
	w.logAtFire = true;
	for (auto & o : sc.ops) {
		if (o.n == "gen") { int c = (int)o.at(0); if (c < 0 || c >= NCTX || !w.ctx[c]) continue; probe("gen"); R.states.insert(abstractState(w)); }
		rets.push_back(w.apply(o));
		checkPending();
	}
}
static void exec(const Scenario & sc) {
	Plan p; bool push = false;
	for (auto & o : sc.ops) { if (o.n == "chunks") p.chunks = o.a; if (o.n == "reads") p.reads = o.a; if (o.n == "fracs") p.fracs = o.a; if (o.n == "refuse") p.refuse = o.a; if (o.n == "runs") p.runs = o.a; if (o.n == "push") push = o.at(0) != 0; }
	World a; std::vector<int> ra; a.allowAlloc = true;
	runWorld(a, sc, ra);
	std::vector<BKFrame> & oa = a.out[0];
	for (auto x : oa) if (x) { R.nontrivial = true; break; }
	std::string ga = getters(a);
	{
		World b; Plan q = p; b.render = [&](World & w, int c, i64 n) { return chunked(w, c, n, q); };
		std::vector<int> rb; runWorld(b, sc, rb);
		for (int c = 0; c < NCTX; c++) cmpAudio("chunking", c, a, b);
		cmpEvents("chunking", a, b);
		if (ra != rb) violate("chunking", "results of the calls differ");
		std::string gb = getters(b); if (ga != gb) violate("chunking", "final attributes differ: %s", firstDiff(ga, gb).c_str());
		b.destroyAll();
	}
	{
		World b; Plan q = p; b.render = [&](World & w, int c, i64 n) { return endRead(w, c, n, q); };
		std::vector<int> rb; runWorld(b, sc, rb);
		for (int c = 0; c < NCTX; c++) cmpAudio("end-read", c, a, b);
		cmpEvents("end-read", a, b);
		std::string gb = getters(b); if (ga != gb) violate("end-read", "final attributes differ: %s", firstDiff(ga, gb).c_str());
		b.destroyAll();
	}
	if (push) {
		probe("push_run");
		World b; i64 pos[NCTX] = {}; u64 writes = 0;
		b.render = [&](World & w, int c, i64 n) {
			i64 done = 0;
			while (done < n) {
				i64 k = nextOf(p.chunks, p.ci, n); if (k > n - done) k = n - done;
				pos[c] += k; done += k; i64 f = done < n && !p.fracs.empty() ? nextOf(p.fracs, p.fi, 0) & 0xfffff : 0; i64 before = (i64)w.out[c].size() / w.nch[c];
				Sink info{&w, c, &p.refuse, &writes, false}; bool again = false;
				i64 g = BKContextGenerateToTime(w.ctx[c], ((BKTime)pos[c] << 20) + f, onWrite, &info);
				for (int tries = 0; info.refused; tries++) {
					again = true;
					if (g != BK_INVALID_RETURN_VALUE) pend("push-refused", "the receiver refused frames but the call returns %lld", (long long)g);
					info.refused = false;
					if (tries < 100) { g = BKContextGenerateToTime(w.ctx[c], ((BKTime)pos[c] << 20) + f, onWrite, &info); continue; }
					break;
				}
				if (again) {                               // frames which have not been pushed yet can be read
					i64 left = k - ((i64)w.out[c].size() / w.nch[c] - before), have = BKContextSize(w.ctx[c]);
					if (left != have) pend("push-refused", "%lld frames are missing and %lld ready after the receiver refused", (long long)left, (long long)have);
					if (have > 0) { std::vector<BKFrame> b((size_t)(have * w.nch[c])); i64 m = BKContextRead(w.ctx[c], b.data(), (BKUInt)have); w.out[c].insert(w.out[c].end(), b.begin(), b.begin() + (m < 0 ? 0 : m) * w.nch[c]); }
					g = k;
				}
				i64 got = (i64)w.out[c].size() / w.nch[c] - before;
				if (g != got) pend("push-count", "BKContextGenerateToTime returns %lld but delivered %lld frames", (long long)g, (long long)got);
				if (got != k) pend("push-count", "up to time %lld %lld frames are missing, %lld delivered", (long long)pos[c], (long long)k, (long long)got);
				if (w.time(c) < (pos[c] << 20)) pend("push-time", "current time %lld below the requested end %lld", (long long)w.time(c), (long long)(pos[c] << 20));
			}
			simFrames((u64)n, w.rate[c]);
			return n;
		};
		b.logAtFire = true; std::vector<int> rb;
		for (auto & o : sc.ops) {
			if ((o.n == "ctx" || o.n == "ctxreset" || o.n == "ctxdel") && o.at(0) >= 0 && o.at(0) < NCTX && (o.n != "ctx" || !b.ctx[o.at(0)])) pos[o.at(0)] = 0;
			if (o.n == "gen") { int c = (int)o.at(0); if (c < 0 || c >= NCTX || !b.ctx[c]) continue; }
			rb.push_back(b.apply(o)); checkPending();
		}
		for (int c = 0; c < NCTX; c++) cmpAudio("push", c, a, b);
		cmpEvents("push", a, b);
		if (ra != rb) violate("push", "results of the calls differ");
		std::string gb = getters(b); if (ga != gb) violate("push", "final attributes differ: %s", firstDiff(ga, gb).c_str());
		b.destroyAll();
	}
	for (int c = 0; c < NCTX; c++) logHash(a.out[c].data(), a.out[c].size() * 2);
	a.destroyAll();
}
static PropReg reg(Prop{"C01", gen, exec,
	"one case = one random song script (tracks, instruments, effects, samples, clocks, scripted callbacks) rendered as one request per step, in scripted chunk sizes, by BKContextEnd + partial BKContextRead, and by BKContextGenerateToTime; non-trivial when the audio is not all silence; distinct by event-log hash"});
