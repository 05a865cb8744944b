// C11: contexts are independent of each other and every rendering is reproducible.
#include "world.h"
#include "common.h"

extern int gFill;
static void gen(Scenario & sc, Rng & r, bool thorough) {
	GenCfg c; c.nctx = (int)r.range(2, NCTX); c.ntrack = NTRACK; c.ndiv = NDIV; c.nclock = NCLOCK; c.ninstr = NINSTR; c.ndata = NDATA;
	c.ops = (int)r.range(10, thorough ? 140 : 80); c.maxGen = r.pick({100, 600, 2000}); c.resets = r.chance(40); c.genWeight = 35;
	c.samples = r.chance(75); c.instruments = r.chance(75); c.effects = r.chance(80);
	sc.add("contexts", {c.nctx});
	sc.add("mix", {r.range(1, 1 << 30)});
	Gen g(sc, r, c); g.setup();
	for (int t = 0; t < NTRACK; t++) if (!g.track[t] && r.chance(50)) { sc.add("track", {t, r.range(1, 5), r.range(0, 1)}); g.track[t] = true; sc.add("attr", {t, A_MASTER, r.range(1000, 9000)}); sc.add("attach", {t, 0}); sc.add("attr", {t, A_NOTE, g.note()}); }
	g.body();
	for (int c2 = 0; c2 < c.nctx; c2++) sc.add("gen", {c2, r.range(50, 800)});
}
// the context an op belongs to (-1: shared object, -2: not used here); arguments referring to another context's objects are replaced
static int groupOf(Op & o, int nc) {
	static const std::set<std::string> byCtx = {"ctx", "gen", "ctxreset", "kernel", "ctxperiod"};
	static const std::set<std::string> byTrack = {"track", "trackdel", "detach", "treset", "tclear", "attr", "arp", "eff", "setinstr", "samp", "wave", "range", "sustain", "scb"};
	static const std::set<std::string> byClock = {"clock", "clockdetach", "clockperiod", "clockreset", "clockdel", "knext"};
	static const std::set<std::string> byDiv = {"div", "divdetach", "divreset", "divdel", "vnext"};
	static const std::set<std::string> shared = {"instr", "instrcopy", "instrdel", "instrdetach", "seq", "env", "adsr", "data", "dataframes", "dataset", "datapitch", "datanorm", "dataconv", "datacopy", "datadel", "datadetach", "load"};
	i64 a = o.at(0); if (a < 0 || o.a.empty()) return -2;
	if (byCtx.count(o.n)) return a < nc ? (int)a : -2;
	if (byTrack.count(o.n)) return (int)(a % nc);
	if (o.n == "attach") { o.a.resize(2); o.a[1] = a % nc; return (int)(a % nc); }
	if (byClock.count(o.n)) return (int)(a % nc);
	if (o.n == "clockattach") { o.a.resize(3); o.a[1] = a % nc; if (o.a[2] >= 0 && o.a[2] % nc != a % nc) o.a[2] = -1; return (int)(a % nc); }
	if (byDiv.count(o.n)) return (int)(a % nc);
	if (o.n == "divattach") { o.a.resize(3); o.a[2] = a % nc; if (o.a[1] >= 0 && o.a[1] % nc != a % nc) o.a[1] = -1; return (int)(a % nc); }
	if (shared.count(o.n)) return -1;
	if (o.n.compare(0, 3, "at:") == 0) {
		if (o.a.size() < 3) return -2;
		Op in(o.n.substr(3), std::vector<i64>(o.a.begin() + 2, o.a.end()));
		int g = groupOf(in, nc); if (g != a % nc || in.n == "ctx") return -2;
		std::vector<i64> v = {o.a[0], o.a[1]}; v.insert(v.end(), in.a.begin(), in.a.end()); o.a = v;
		return g;
	}
	return -2;
}
struct Step { Op o; int g; };
static BKInt onPush(BKFrame f[], BKUInt n, void * info) {
	auto & p = *(std::pair<World *, int> *)info; World & w = *p.first;
	w.out[p.second].insert(w.out[p.second].end(), f, f + (size_t)n * (size_t)w.nch[p.second]);
	w.callNest();
	return 0;
}
static void run(World & w, const std::vector<Step> & v, std::map<int, std::string> & snaps, int nc) {
	for (auto & s : v) {
		budgetSet(60000000); w.apply(s.o); checkPending();
	}
	std::string d = deepState(w); size_t i = 0;
	while (i < d.size()) {
		size_t e = d.find('\n', i); std::string l = d.substr(i, e - i); int n;
		if (sscanf(l.c_str(), "track %d", &n) == 1) snaps[n % nc] += l + "\n";
		else if (sscanf(l.c_str(), "ctx %d", &n) == 1) snaps[n] += l + "\n";
		else snaps[-1] += l + "\n";
		i = e + 1;
	}
}
static std::vector<Event> eventsOf(const World & w, int c, int nc) { std::vector<Event> v; for (auto & e : w.events) if (e.slot % nc == c) v.push_back(e); return v; }
static void cmp(const char * cls, World & a, std::map<int, std::string> & sa, World & b, std::map<int, std::string> & sb, int c, int nc) {
	cmpAudio(cls, c, a, b);
	auto x = eventsOf(a, c, nc), y = eventsOf(b, c, nc);
	size_t m = x.size() < y.size() ? x.size() : y.size();
	for (size_t i = 0; i < m; i++) if (!(x[i] == y[i])) violate(cls, "context %d: callback %zu differs: %s / %s", c, i, evStr(x[i]).c_str(), evStr(y[i]).c_str());
	if (x.size() != y.size()) violate(cls, "context %d: %zu / %zu callbacks", c, x.size(), y.size());
	if (sa[c] != sb[c]) violate(cls, "context %d: final attributes differ: %s", c, firstDiff(sa[c], sb[c]).c_str());
}
static void exec(const Scenario & sc) {
	int nc = 2; u64 mix = 1; std::vector<Step> all;
	for (auto & o : sc.ops) {
		if (o.n == "contexts") { nc = (int)o.at(0); if (nc < 1) nc = 1; if (nc > NCTX) nc = NCTX; continue; }
		if (o.n == "mix") { mix = (u64)o.at(0); continue; }
		Op x = o; int g = groupOf(x, nc); if (g == -2) continue;
		all.push_back({x, g});
	}
	gFill = 0xCD;
	World a; std::map<int, std::string> sa;
	a.around = [&](World & w, const Op & o) { int r = w.applyRaw(o); if (r != SKIP) probe("op"); return r; };
	{ int last = -1, sw = 0; u64 h = 0; for (auto & s : all) { if (s.o.n == "gen") { if (s.g != last) sw++; last = s.g; h = h * 31 + (u64)s.g + 1; R.states.insert(h); } } if (sw) probe("context_switches", (u64)sw); }
	run(a, all, sa, nc);
	int sounding = 0; for (int c = 0; c < nc; c++) { for (auto x : a.out[c]) if (x) { sounding++; break; } logHash(a.out[c].data(), a.out[c].size() * 2); }
	R.nontrivial = sounding >= 2;
	if (sounding >= 2) probe("several_contexts_sound");
	a.around = nullptr; a.destroyAll();
	// the same script again over memory with other former contents
	{
		allocReset(mix); gFill = (int)(mix % 255) + 1;
		World b; std::map<int, std::string> sb; run(b, all, sb, nc);
		for (int c = 0; c < nc; c++) cmp("repeat", a, sa, b, sb, c, nc);
		if (sa[-1] != sb[-1]) violate("repeat", "shared objects differ: %s", firstDiff(sa[-1], sb[-1]).c_str());
		b.destroyAll(); gFill = 0xCD; fault("other_memory_contents");
	}
	// another interleaving of the contexts, keeping the order with respect to changes of shared objects
	{
		Rng r(mix); std::vector<Step> v; size_t i = 0;
		while (i < all.size()) {
			std::vector<std::vector<Step>> q((size_t)nc);
			size_t j = i, left = 0; for (; j < all.size() && all[j].g >= 0; j++) { q[(size_t)all[j].g].push_back(all[j]); left++; }
			std::vector<size_t> at((size_t)nc, 0); int c = (int)r.range(0, nc - 1);
			while (left) { if (r.chance(30) || at[(size_t)c] >= q[(size_t)c].size()) c = (int)r.range(0, nc - 1); if (at[(size_t)c] < q[(size_t)c].size()) { v.push_back(q[(size_t)c][at[(size_t)c]++]); left--; } }
			if (j < all.size()) v.push_back(all[j++]);
			i = j;
		}
		World b; std::map<int, std::string> sb; run(b, v, sb, nc);
		for (int c = 0; c < nc; c++) cmp("interleaving", a, sa, b, sb, c, nc);
		b.destroyAll(); probe("other_interleaving");
	}
	// contexts served from within callbacks of others: what belongs to another context is carried out while one is rendered
	{
		Rng r(mix + 1); World b; std::map<int, std::string> sb; std::vector<std::vector<Step>> q((size_t)nc); std::vector<size_t> at((size_t)nc, 0); std::vector<int> busy; bool push = r.chance(50); i64 pos[NCTX] = {};
		auto one = [&](World & w, int c) { Step s = q[(size_t)c][at[(size_t)c]++]; budgetSet(60000000); if (s.o.n == "ctxreset") pos[c] = 0; busy.push_back(c); w.apply(s.o); busy.pop_back(); budgetSet(60000000); };
		b.nest = [&](World & w) {
			if (busy.size() > 2 || r.chance(40)) return;
			int n = (int)r.range(1, 4), c = (int)r.range(0, nc - 1);
			while (n--) { bool used = at[(size_t)c] >= q[(size_t)c].size(); for (int x : busy) if (x == c) used = true; if (used) return; one(w, c); probe("op_within_callback_of_another_context"); }
		};
		if (push) b.render = [&](World & w, int c, i64 n) {
			pos[c] += n; simFrames((u64)n, w.rate[c]); std::pair<World *, int> info(&w, c);
			return (i64)BKContextGenerateToTime(w.ctx[c], (BKTime)(pos[c] << 20), onPush, &info);
		};
		size_t i = 0;
		while (i < all.size()) {
			size_t j = i, left = 0; for (auto & x : q) x.clear(); std::fill(at.begin(), at.end(), 0);
			for (; j < all.size() && all[j].g >= 0; j++) q[(size_t)all[j].g].push_back(all[j]);
			for (;;) { left = 0; for (int c = 0; c < nc; c++) left += q[(size_t)c].size() - at[(size_t)c]; if (!left) break; int c = (int)r.range(0, nc - 1); if (at[(size_t)c] < q[(size_t)c].size()) { one(b, c); checkPending(); } }
			if (j < all.size()) { budgetSet(60000000); b.apply(all[j++].o); checkPending(); }
			i = j;
		}
		std::vector<Step> none; run(b, none, sb, nc);
		for (int c = 0; c < nc; c++) cmp("nested", a, sa, b, sb, c, nc);
		b.nest = nullptr; b.destroyAll(); probe(push ? "nested_pushed" : "nested_pulled");
	}
	// each context alone
	for (int c = 0; c < nc; c++) {
		std::vector<Step> v; for (auto & s : all) if (s.g == c || s.g == -1) v.push_back(s);
		World b; std::map<int, std::string> sb; run(b, v, sb, nc);
		cmp("alone", a, sa, b, sb, c, nc);
		b.destroyAll(); probe("alone");
	}
	if (allocLive()) violate("leak", "%s left after all objects were disposed", allocDescribe().c_str());
}
static PropReg reg(Prop{"C11", gen, exec,
	"one case = one random script over 2-3 contexts with shared instruments and samples, run interleaved, run again over memory with other former contents, run in another interleaving of the contexts, and run for each context alone; non-trivial when at least two contexts sound; distinct by event-log hash"});
