// C20: sound files and raw samples mean the same on hosts of either byte order.
#include "sim.h"
extern "C" {
#include "BlipKit.h"
}
#include "p_c20.h"
#include <algorithm>

typedef std::vector<unsigned char> Bytes;
static bool is(const Op & o, const char * n) { return o.n == n; }
static void gen(Scenario & sc, Rng & r, bool thorough) {
	for (int i = 0, n = (int)r.range(1, thorough ? 8 : 4); i < n; i++) {
		sc.add("stream", {r.range(0, 2), r.chance(25) ? r.size(1, 300) : 0, r.chance(12) ? r.size(1, 12) : 0, r.chance(50) ? (i64)IO_EIO : (i64)IO_SHORT, r.chance(15) ? r.size(0, 9000) : -1});
		i64 ch = r.chance(50) ? 1 : r.range(1, 8), bits = r.chance(65) ? 16 : 8, rate = r.chance(80) ? r.range(1, 200000) : r.size(1, 0x7fffffff), pre = r.chance(25) ? r.size(1, 300) : 0;
		switch (r.range(0, 3)) {
			case 0: {
				std::vector<i64> v = {r.chance(15) ? 0 : bits, ch, rate, pre, r.range(1, 1 << 20)};
				i64 left = r.chance(10) ? 0 : r.chance(85) ? r.size(1, 700) : r.size(1, 5000);
				while (left > 0) { i64 p = r.size(0, left); if (r.chance(20)) p = std::min(left, (i64)r.pick({1023, 1024, 1025, 2048})); v.push_back(p * (r.chance(80) ? ch : 1)); left -= p ? p : 1; if (r.chance(15)) v.push_back(-1); }
				sc.add("write", v); break;
			}
			case 1: case 2: {
				if (r.chance(6)) bits = r.pick({0, 4, 12, 24, 32, 2048, 4096});
				if (r.chance(6)) ch = r.pick({0, 9, 12, 256, 512});
				sc.add("file", {r.chance(92) ? 1 : r.pick({0, 2, 3, 256, 65534, 7}), ch, r.chance(95) ? rate : 0, bits, r.chance(75) ? 0 : r.range(1, 40), r.chance(92) ? -1 : r.pick({(i64)0, (i64)15, (i64)16, (i64)18, (i64)0x10000000, (i64)0xffffffff}), pre});
				for (int k = 0, m = r.chance(65) ? 0 : (int)r.range(1, 3); k < m; k++) sc.add("chunk", {r.size(0, 300), r.chance(90) ? -1 : r.pick({(i64)0, (i64)1, (i64)0x01000000, (i64)100000}), r.range(1, 99)});
				if (r.chance(97)) sc.add("body", {(r.chance(10) ? r.range(0, 3) : r.chance(85) ? r.size(2, 700) : r.size(2, 5000)) * (ch ? ch : 1), r.chance(75) ? -1 : r.pick({(i64)0, (i64)1, (i64)3, (i64)600, (i64)70000, (i64)0x01000000}), r.range(1, 1 << 20)});
				sc.add(r.chance(50) ? "read" : "load", {}); break;
			}
			default: sc.add("raw", {r.range(3, 4), r.chance(90) ? ch : r.range(0, 12), r.chance(60) ? (i64)BK_16_BIT_SIGNED : r.range(0, 7), r.pick({0, (int)BK_BIG_ENDIAN, (int)BK_LITTLE_ENDIAN}), r.chance(80) ? r.size(0, 1200) : r.size(0, 12000), r.range(1, 1 << 20), pre});
		}
	}
}
struct Image {                              // a file and where its numbers are
	Bytes b; std::vector<std::pair<size_t, int>> num;
	void raw(const char * s, size_t n) { b.insert(b.end(), s, s + n); }
	void fill(size_t n, u64 seed) { Rng r(seed); for (size_t i = 0; i < n; i++) b.push_back((unsigned char)r.next()); }
	void put(u64 v, int n) { num.push_back({b.size(), n}); for (int i = 0; i < n; i++) b.push_back((unsigned char)(v >> (8 * i))); }
	Bytes other() const { Bytes o = b; for (auto & p : num) std::reverse(o.begin() + (long)p.first, o.begin() + (long)p.first + p.second); return o; }
};
static Bytes otherFile(const Bytes & f, size_t pre, int bits) {
	Image i; i.b = f; static const int at[][2] = {{4, 4}, {16, 4}, {20, 2}, {22, 2}, {24, 4}, {28, 4}, {32, 2}, {34, 2}, {40, 4}};
	for (auto & a : at) if (pre + (size_t)(a[0] + a[1]) <= f.size()) i.num.push_back({pre + (size_t)a[0], a[1]});
	if (bits != 8) for (size_t p = pre + 44; p + 2 <= f.size(); p += 2) i.num.push_back({p, 2});
	return i.other();
}
static const char * fieldName(size_t o) {
	static const struct { size_t to; const char * n; } k[] = {{4, "RIFF tag"}, {8, "file size"}, {12, "WAVE tag"}, {16, "fmt tag"}, {20, "size of the format"}, {22, "audio format"}, {24, "number of channels"}, {28, "sample rate"}, {32, "byte rate"}, {34, "block alignment"}, {36, "number of bits"}, {40, "data tag"}, {44, "size of the data"}};
	for (auto & f : k) if (o < f.to) return f.n;
	return "samples";
}
static std::string num(const std::vector<i64> & v) { std::string s; for (auto x : v) s += (s.empty() ? "" : " ") + std::to_string(x); return s; }
static void cmp(const HostOut & a, const HostOut & b, const std::string & what, bool swapped = false) {
	if (a.results != b.results) violate("results", "%s: little endian hosts get %s, big endian hosts %s", what.c_str(), num(a.results).c_str(), num(b.results).c_str());
	if (a.frames.size() != b.frames.size()) violate("frames", "%s: %zu / %zu samples", what.c_str(), a.frames.size(), b.frames.size());
	for (size_t i = 0; i < a.frames.size(); i++) {
		int16_t x = a.frames[i]; if (swapped) x = (int16_t)((u32)(uint16_t)x << 8 | (u32)(uint16_t)x >> 8);
		if (x != b.frames[i]) violate("samples", "%s: sample %zu is %d on little endian hosts, %d on big endian hosts", what.c_str(), i, x, b.frames[i]);
	}
}
static void exec(const Scenario & sc) {
	{	// is the other host really simulated?
		HostJob j; j.kind = 3; j.params = BK_16_BIT_SIGNED | BK_BIG_ENDIAN; j.in = {1, 2, 3, 4}; HostOut a, b; hostRunLE(j, a); hostRunBE(j, b);
		HostJob k; k.kind = 0; k.frames = {1, 2, 3, 4}; k.pieces = {4}; HostOut c, d; hostRunLE(k, c); hostRunBE(k, d); checkPending();
		if (a.frames == b.frames && c.file == d.file) { probe("no_other_host"); return; }
	}
	IoPlan plan; i64 full = -1; Image im; i64 pre = 0, bits = 16;
	auto setup = [&] { im = Image(); pre = 0; bits = 16; };
	for (auto & o : sc.ops) {
		budgetSet(200000000);
		std::string what = o.str().substr(0, 60); HostJob j; HostOut a, b; u64 h = 0;
		if (is(o, "stream")) {
			plan = IoPlan(); plan.bufMode = (int)(o.at(0) < 0 || o.at(0) > 2 ? 0 : o.at(0)); plan.chunk = o.at(1) < 0 ? 0 : o.at(1); plan.rd.clear();
			if (o.at(2) > 0) plan.rd[(u64)o.at(2)] = o.at(3) == IO_EIO ? IO_EIO : IO_SHORT; full = o.at(4, -1); setup(); continue;
		}
		if (is(o, "write")) {
			j.kind = 0; j.bits = o.at(0); j.channels = o.at(1); j.rate = o.at(2); pre = o.at(3); if (pre < 0 || pre > 4096 || j.channels < 1 || j.channels > 64 || j.rate < 1 || (j.bits != 0 && j.bits != 8 && j.bits != 16)) continue;
			j.prefix = pre; Image x; x.fill((size_t)pre, 7); j.in = x.b;
			i64 total = 0; for (size_t i = 5; i < o.a.size(); i++) { i64 p = o.a[i]; if (p < -1 || p > 100000) p = 0; j.pieces.push_back(p); if (p > 0) total += p; } if (total > 200000) continue;
			Rng r((u64)o.at(4)); for (i64 i = 0; i < total; i++) j.frames.push_back((int16_t)r.next());
			j.plan.bufMode = plan.bufMode; j.plan.diskFull = full;
			hostRunLE(j, a); hostRunBE(j, b); checkPending();
			bool fa = false, fb = false; for (auto x2 : a.results) if (x2) fa = true; for (auto x2 : b.results) if (x2) fb = true;
			if (fa != fb) violate("results", "%s: %s on little endian hosts and %s on big endian hosts", what.c_str(), fa ? "failed" : "written", fb ? "failed" : "written");
			if (fa) { probe("write_failed"); continue; }
			cmp(a, b, what);
			Bytes f = otherFile(b.file, (size_t)pre, (int)j.bits);
			if (f.size() != a.file.size()) violate("file", "%s: %zu bytes written on little endian hosts and %zu on big endian hosts", what.c_str(), a.file.size(), f.size());
			for (size_t i = 0; i < f.size(); i++) if (f[i] != a.file[i]) violate("file", "%s: byte %zu (%s) is %02x in files of little endian hosts and %02x in files of big endian hosts", what.c_str(), i, i < (size_t)pre ? "before the file" : fieldName(i - (size_t)pre), a.file[i], f[i]);
			logHash(a.file.data(), a.file.size()); probe("file_written"); R.nontrivial |= total > 0;
			h = 1 + (u64)j.bits * 8 + (total > 1024) * 2 + (total > 0) * 4 + (pre > 0) + (u64)j.channels * 1024; R.states.insert(h); continue;
		}
		if (is(o, "file")) {
			im = Image(); pre = o.at(6); if (pre < 0 || pre > 4096) pre = 0; bits = o.at(3) & 0xffff;
			im.fill((size_t)pre, 11); im.raw("RIFF", 4); im.put(0x12345678, 4); im.raw("WAVEfmt ", 8);
			i64 ext = o.at(4) < 0 || o.at(4) > 64 ? 0 : o.at(4);
			im.put((u64)(o.at(5) < 0 ? 16 + ext : o.at(5)), 4); im.put((u64)o.at(0), 2); im.put((u64)o.at(1), 2); im.put((u64)o.at(2), 4);
			im.put((u64)(o.at(2) * o.at(1) * bits / 8), 4); im.put((u64)(o.at(1) * bits / 8), 2); im.put((u64)bits, 2); im.fill((size_t)(ext + (ext & 1)), 13); continue;
		}
		if (is(o, "chunk") && o.at(0) >= 0 && o.at(0) < 100000) { im.raw("LIST", 4); im.put((u64)(o.at(1) < 0 ? o.at(0) : o.at(1)), 4); im.fill((size_t)(o.at(0) + (o.at(0) & 1)), (u64)o.at(2)); continue; }
		if (is(o, "body") && o.at(0) >= 0 && o.at(0) < 200000) {
			i64 n = o.at(0) * (bits == 16 ? 2 : 1); im.raw("data", 4); im.put((u64)(o.at(1) < 0 ? n : o.at(1)), 4);
			Rng r((u64)o.at(2)); for (i64 i = 0; i < o.at(0); i++) if (bits == 16) im.put(r.next() & 0xffff, 2); else im.b.push_back((unsigned char)r.next());
			continue;
		}
		if (is(o, "read") || is(o, "load")) {
			j.kind = is(o, "read") ? 1 : 2; j.prefix = pre; j.plan = plan; j.in = im.b; hostRunLE(j, a); j.in = im.other(); hostRunBE(j, b); checkPending();
			what = std::string(is(o, "read") ? "reading" : "loading") + " a file of " + std::to_string(im.b.size()) + " bytes"; cmp(a, b, what);
			for (auto x : a.results) logHash(&x, sizeof x); logHash(a.frames.data(), a.frames.size() * 2);
			if (!a.frames.empty()) { R.nontrivial = true; probe("file_read"); } else probe("file_refused");
			h = 2 + (u64)j.kind * 4 + (u64)bits * 32 + (a.frames.size() > 512) * 16; for (size_t i = 0; i < 2 && i < a.results.size(); i++) h = h * 3 + (u64)a.results[i]; R.states.insert(h * 7 + im.num.size() % 7); continue;
		}
		if (is(o, "raw")) {
			j.kind = o.at(0) == 4 ? 4 : 3; j.channels = o.at(1); if (j.channels < 0 || o.at(4) < 0 || o.at(4) > 100000) continue;
			i64 fmt = o.at(2) & BK_DATA_BITS_MASK, endian = o.at(3) & BK_ENDIAN_MASK; if (endian == BK_ENDIAN_MASK) continue;
			pre = j.kind == 4 ? o.at(6) : 0; if (pre < 0 || pre > 4096) pre = 0;
			j.params = fmt | endian; j.prefix = pre; j.plan = plan; bool wide = fmt == BK_16_BIT_SIGNED;
			Image x; x.fill((size_t)(pre + o.at(4)), (u64)o.at(5)); if (wide) for (size_t p = (size_t)pre; p + 2 <= x.b.size(); p += 2) x.num.push_back({p, 2});
			j.in = x.b; hostRunLE(j, a); j.in = x.other(); hostRunBE(j, b); checkPending();
			cmp(a, b, what, wide && !endian);
			if (wide && endian) for (size_t i = 0; i < a.frames.size(); i++) { size_t p = (size_t)pre + 2 * i; int16_t e = (int16_t)(endian == BK_BIG_ENDIAN ? x.b[p] << 8 | x.b[p + 1] : x.b[p + 1] << 8 | x.b[p]); if (a.frames[i] != e) violate("raw", "%s: sample %zu is %d instead of %d", what.c_str(), i, a.frames[i], e); }
			logHash(a.frames.data(), a.frames.size() * 2); if (!a.frames.empty()) { R.nontrivial = true; probe(wide ? endian ? "raw_16_bit_with_order" : "raw_16_bit_native" : "raw_small"); }
			R.states.insert(3 + (u64)j.params * 8 + (u64)j.channels * 131 + (a.frames.empty() ? 4 : 0)); continue;
		}
	}
	if (allocLive()) violate("leak", "%s left", allocDescribe().c_str());
}
static PropReg reg(Prop{"C20", gen, exec,
	"one case = one to eight files written, files read or raw samples converted, by the library built for this host and by the library which believes to run on a big endian host and is given every number of the file with its bytes reversed; non-trivial when samples were written or read; distinct by event-log hash"});
