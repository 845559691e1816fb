#include "gen.h"
#include "big.h"

// Independent computation of the documented parameters.
int ppc_of(int lps, int lppb)
{
	int best = 1;
	for (int k = 1; k <= lppb; k++) {
		long need = ((1L << k) - 1) * 132 + 20;
		if (need <= (1L << lps)) best = k;
	}
	return best;
}
uint32_t model_capacity(int lps, int lppb, uint32_t nb, uint32_t bad, uint32_t gc)
{
	int ppc = ppc_of(lps, lppb);
	if (nb < bad + 2) return 0;
	int64_t user = (int64_t)(nb - bad - 1) * ((1 << lppb) - (1 << (lppb - ppc)));
	int64_t cap = user - user / (gc + 1) - (8 << lppb);
	return cap > 0 ? cap : 0;
}

void gen_geo(Case &c, Rng &r, const GeoOpt &g)
{
	int lps, lppb;
	uint32_t gc, nb;
	bool big = r.chance(g.big_pct), wide = r.chance(5);
	for (int tries = 0;; tries++) {
		if (tries > 30) big = wide = false;
		static const int lp[] = {8, 8, 9, 9, 9, 9, 9, 10, 10, 11};
		lps = lp[r.below(10)];
		if (big) lps = r.chance(70) ? 12 : 13;
		if (lps < g.lps_min || (!big && lps > g.lps_max)) continue;
		lppb = wide ? (r.chance(60) ? 6 : 7) : r.range(g.lppb_min, g.lppb_max);
		static const int gcs[] = {0, 1, 1, 2, 3, 4, 4, 5, 8, 10, 20, 60, 255};
		gc = gcs[r.below(13)];
		uint32_t g1 = gc ? gc : 1;
		// smallest chip with a useful capacity
		nb = 4;
		while (model_capacity(lps, lppb, nb, g.maxbad + (nb >> 6), g1) < g.min_cap) nb++;
		uint32_t grow = r.chance(50) ? r.below(6) : r.below(nb * g.extra_pct / 100 + 2);
		nb += grow;
		if ((nb << lppb) > g.max_pages * (lppb > 6 ? 2 : 1)) continue;
		if (((uint64_t)nb << (lppb + lps)) > (1u << (big ? 22 : 21))) continue;
		break;
	}
	c.set("lps", lps);
	c.set("lppb", lppb);
	c.set("nb", nb);
	c.set("gc", gc);
	c.set("garbage", r.chance(60));
	c.set("gseed", r.below(1000000));
	c.set("vseed", r.below(1000000));
}

void gen_sectors(Case &c, Rng &r, uint32_t n)
{
	std::set<uint32_t> s;
	uint32_t style = r.below(n > 500 ? 5 : 6);
	uint32_t origin = (uint32_t)r.next();
	while (s.size() < n) {
		uint32_t v;
		switch (style) {
		case 0: v = s.size(); break;                             // dense from 0
		case 1: v = (uint32_t)r.next(); break;                    // sparse
		case 2: v = origin + s.size(); break;                    // dense, anywhere
		case 3: v = 1u << r.below(32); v += r.below(3) - 1; if (s.size() >= 20) v = (uint32_t)r.next(); break; // around powers of two
		case 4: v = 0xfffffffeu - s.size(); break;               // top of the range
		default: v = (r.below(4) << 30) | (r.below(4) << 14) | r.below(64); break;
		}
		if (v == 0xffffffffu) continue;
		s.insert(v);
	}
	c.sectors.assign(s.begin(), s.end());
	for (size_t i = c.sectors.size(); i > 1; i--) std::swap(c.sectors[i - 1], c.sectors[r.below(i)]);
}

struct W { // operation weights
	int w = 50, t = 8, cp = 6, g = 4, s = 8, x = 0, R = 2, U = 0, v = 1, q = 3, F = 0, C = 0, E = 0, pcopy = 2;
};

static uint32_t pick_kind(Rng &r, int ffpct)
{
	if (r.chance(ffpct)) return r.chance(80) ? 1 : 5;
	uint32_t k = r.below(20);
	return k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 3 : k == 3 ? 4 : k == 4 ? 5 : 0;
}

static void gen_ops(Case &c, Rng &r, const W &w, uint32_t nops, int ffpct, uint32_t span = 40)
{
	uint32_t U = c.sectors.size();
	static uint32_t id;
	id = 1;
	uint32_t hot = 1 + r.below(U);
	int hotpct = r.chance(50) ? 70 : 0;
	uint32_t seq = r.below(U);
	int mode = r.below(4); // 0,1 random 2 sequential 3 mix
	auto sector = [&]() -> uint32_t {
		if (mode == 2 || (mode == 3 && r.chance(50))) return seq++ % U;
		if (hotpct && r.chance(hotpct)) return r.below(hot);
		return r.below(U);
	};
	int total = w.w + w.t + w.cp + w.g + w.s + w.x + w.R + w.U + w.v + w.q + w.F + w.C + w.E + w.pcopy;
	while (c.ops.size() < nops) {
		int k = r.below(total);
		auto hit = [&](int x) { if (k < x) return true; k -= x; return false; };
		if (hit(w.w)) c.ops.push_back({'w', sector(), id++, pick_kind(r, ffpct)});
		else if (hit(w.t)) c.ops.push_back({'t', sector(), 0, 0});
		else if (hit(w.cp)) c.ops.push_back({'c', sector(), sector(), 0});
		else if (hit(w.pcopy)) c.ops.push_back({'p', sector(), sector(), 0});
		else if (hit(w.g)) c.ops.push_back({'g', r.chance(80) ? 1 + r.below(4) : 1 + r.below(60), 0, 0});
		else if (hit(w.s)) c.ops.push_back({'s', 0, 0, 0});
		else if (hit(w.x)) c.ops.push_back({'x', 0, 0, 0});
		else if (hit(w.R)) c.ops.push_back({'R', 0, 0, 0});
		else if (hit(w.U)) c.ops.push_back({'U', 0, 0, 0});
		else if (hit(w.v)) c.ops.push_back({'v', 0, 0, 0});
		else if (hit(w.q)) c.ops.push_back({'q', sector(), r.below(4), 0});
		else if (hit(w.F)) {
			uint32_t at = r.below(span), mode = r.below(FE_MAX);
			c.ops.push_back({'F', at, mode, 0});
			while (r.chance(35)) { // cascade
				at += r.chance(60) ? 1 + r.below(3) : r.below(20);
				c.ops.push_back({'F', at, r.chance(70) ? mode : r.below(FE_MAX), 0});
			}
		}
		else if (hit(w.C)) c.ops.push_back({'C', r.below(span), r.below(4), r.below(1000000)});
		else if (hit(w.E)) c.ops.push_back({'E', r.chance(60) ? r.below(12) : r.below(120), r.below(3), (uint32_t)r.chance(15)});
	}
	c.ops.push_back({'v', 0, 0, 0});
	c.ops.push_back({'R', 0, 0, 0});
}

static void jitter(W &w, Rng &r)
{
	auto j = [&](int &x) { if (x > 0) { int f = r.below(5); x = f == 0 ? (x > 20 ? x / 4 : 0) : f == 1 ? x * 3 : x; } };
	j(w.t); j(w.cp); j(w.g); j(w.s); j(w.x); j(w.R); j(w.U); j(w.pcopy);
	if (w.w < 5) w.w = 5;
}


static void add_bad(Case &c, Rng &r, int n)
{
	bool cluster = n > 1 && r.chance(60);
	uint32_t at = r.chance(25) ? c.get("nb") - 1 - r.below(n + 1) : r.chance(25) ? 0 : r.below(c.get("nb"));
	for (int i = 0; i < n; i++) {
		uint32_t b = cluster ? (at + i) % c.get("nb") : r.below(c.get("nb"));
		if (std::find(c.badblocks.begin(), c.badblocks.end(), b) == c.badblocks.end()) c.badblocks.push_back(b);
	}
}
static uint32_t case_cap(const Case &c, int maxbad)
{
	uint32_t g1 = c.get("gc") ? c.get("gc") : 1;
	uint32_t cap = model_capacity(c.get("lps"), c.get("lppb"), c.get("nb"), std::max<int>(maxbad, c.get("nb") >> 6), g1);
	return cap ? cap : 1;
}

// Journal-level histories (C16, C17).
static void gen_journal(Case &c, Rng &r, bool thorough)
{
	bool faults = c.prop == "C17";
	GeoOpt g;
	g.max_pages = 600;
	g.min_cap = 0;
	gen_geo(c, r, g);
	uint32_t ppb = 1u << c.get("lppb");
	uint32_t nb = faults ? 14 + r.below(16) : r.chance(50) ? 2 + r.below(6) : 2 + r.below(30);
	if (r.chance(faults ? 10 : 20)) nb += r.below(100);
	bool few = false; // few failures, for which a small chip has room
	if (r.chance(2)) { // long blocks
		c.set("lps", 8 + r.below(3));
		c.set("lppb", 7 + r.below(r.chance(40) ? 4 : 2));
		nb = faults ? 12 + r.below(3) : 2 + r.below(4), few = true;
	} else if (r.chance(1)) { // long pages
		c.set("lps", 14 + r.below(2));
		c.set("lppb", 2 + r.below(5));
		nb = faults ? 12 : 2 + r.below(3), few = true;
	}
	bool longrun = r.chance(1); // several hundred passes over a tiny chip
	if (longrun) {
		c.set("lps", 8 + r.below(3));
		c.set("lppb", 1 + r.below(2));
		nb = faults ? 12 + r.below(2) : 2 + r.below(5), few = true;
	}
	ppb = 1u << c.get("lppb");
	c.set("nb", nb);
	int nbad = r.chance(60) ? 0 : r.below(faults ? 3 : 4);
	if (nb < 6) nbad = r.chance(30) && nb > 3;
	for (int i = 0; i < nbad; i++) {
		uint32_t b = r.below(nb);
		if (std::find(c.badblocks.begin(), c.badblocks.end(), b) == c.badblocks.end()) c.badblocks.push_back(b);
	}
	if (faults) { c.set("faults", 1); c.set("maxbad", few ? 2 : 6 - std::max<int>(1, c.badblocks.size())); c.set("rseed", r.below(1000000)); }
	int wC = !faults && r.chance(50) ? 3 : 0, wU = r.chance(40) ? 2 : 0, wF = faults ? 4 : 0;
	int wx = r.chance(25) ? 1 : 0, ws = r.chance(70) ? 5 : 0, wR = 2, wv = 1, wk = r.below(3) * 6, wn = r.below(2) * 4;
	uint32_t id = 1;
	uint32_t bias = 50;
	uint32_t nops = 30 + r.below(r.chance(30) ? 800 : 200);
	if (thorough) nops *= 2;
	if (longrun) nops = 3000 + r.below(3000), wF = faults, wx = 0;
	uint32_t span = r.chance(50) ? 2 * ppb + 2 : 6 * ppb + 4;
	if (ppb > 64) { // get well into a block
		for (uint32_t q = r.below(2 * ppb); q; q--) c.ops.push_back({'e', id++, (uint32_t)r.below(1000000), r.chance(8)});
		nops += c.ops.size();
	}
	while (c.ops.size() < nops) {
		if (r.chance(4)) bias = r.chance(50) ? 90 : r.chance(50) ? 10 : 50;
		int tot = 40 + wC + wU + wF + wx + ws + wR + wv + wk + wn;
		int k = r.below(tot);
		auto hit = [&](int x) { if (k < x) return true; k -= x; return false; };
		if (hit(40)) {
			if (r.chance(bias)) for (uint32_t q = 1 + r.below(r.chance(80) ? 4 : 2 * ppb); q; q--) c.ops.push_back({'e', id++, (uint32_t)r.below(1000000), r.chance(8)});
			else c.ops.push_back({'d', r.chance(80) ? 1 + r.below(5) : 1 + r.below(3 * ppb), 0, 0});
		}
		else if (hit(wC)) c.ops.push_back({'C', r.below(span), r.below(4), r.below(1000000)});
		else if (hit(wU)) c.ops.push_back({'U', 0, 0, 0});
		else if (hit(wF)) {
			uint32_t at = r.below(span), mode = r.below(FE_MAX);
			if (r.chance(10)) { c.ops.push_back({'J', r.below(6), mode, r.below(std::max<int>(1, c.get("maxbad")))}); continue; }
			c.ops.push_back({'F', at, mode, 0});
			while (r.chance(40)) {
				at += r.chance(60) ? 1 + r.below(3) : r.below(2 * ppb);
				c.ops.push_back({'F', at, r.chance(70) ? mode : r.below(FE_MAX), 0});
			}
		}
		else if (hit(wx)) c.ops.push_back({'x', 0, 0, 0});
		else if (hit(ws)) c.ops.push_back({'s', 0, 0, 0});
		else if (hit(wR)) c.ops.push_back({'R', 0, 0, 0});
		else if (hit(wv)) c.ops.push_back({'v', 0, 0, 0});
		else if (hit(wk)) c.ops.push_back({'k', r.below(1000), id++, 0});
		else if (hit(wn)) c.ops.push_back({'n', id++, (uint32_t)r.below(1000000), r.chance(50)});
	}
	c.ops.push_back({'v', 0, 0, 0});
	c.ops.push_back({'R', 0, 0, 0});
}

const char *const subprops[SUBPROPS] = {"C05", "C09", "C12", "C13", "C16", "C17", "C22", "C23"};

Case gen_case(const std::string &prop, uint64_t seed, uint64_t idx, bool thorough)
{
	Case c;
	c.prop = prop;
	if (prop == "C16" || prop == "C17") {
		Rng r(mix64(mix64(seed, idx), hash_bytes((const uint8_t *)prop.data(), prop.size())));
		gen_journal(c, r, thorough);
		return c;
	}
	Rng r(mix64(mix64(seed, idx), hash_bytes((const uint8_t *)prop.data(), prop.size())));
	if (prop == "C20" && r.chance(8)) { // the ECC calls
		c.set("eccmem", 1);
		for (int k = 0; k < 30; k++) {
			uint32_t kind = r.below(5), len = r.chance(30) ? r.below(8) : r.chance(30) ? (1u << r.below(10)) + r.below(3) - 1 : r.below(1017);
			if (kind < 2) c.ops.push_back({'h', 1 + (len ? len - 1 : 0) % 512, r.below(1u << 30), 0});
			else if (kind < 4) c.ops.push_back({'b', len % 1017, r.below(1u << 30), r.below(4)});
			else c.ops.push_back({'c', len, r.below(1u << 30), 0});
		}
		return c;
	}
	if (prop == "C20" && r.chance(45)) { // what another check would do
		int k = r.below(SUBPROPS);
		bool ne = r.chance(60);
		c = gen_case(subprops[k], seed, idx, thorough);
		c.prop = prop;
		c.set("sub", k + 1);
		if (ne) c.set("nullerr", 1);
		return c;
	}
	{ // very large chips
		static const std::map<std::string, int> pct = {{"C01", 14}, {"C02", 6}, {"C03", 6}, {"C04", 10}, {"C05", 8}, {"C07", 6}, {"C08", 8}, {"C09", 8}, {"C10", 8}, {"C11", 12}, {"C15", 12}};
		Rng q(mix64(mix64(seed + 77, idx), hash_bytes((const uint8_t *)prop.data(), prop.size())));
		auto i = pct.find(prop);
		if (i != pct.end() && q.chance(i->second)) { gen_big(c, q, prop, thorough); return c; }
	}
	GeoOpt g;
	W w;
	uint32_t nops = 50 + r.below(r.chance(30) ? 1500 : 300);
	if (thorough) nops *= 2;
	int ffpct = r.chance(20) ? 40 : 3;
	int nbad = 0;
	bool chipfull = r.chance(60);
	uint32_t umax = 400;
	c.set("pseed", r.below(1000000));
	bool limited = true, slow = false;

	bool faults = prop == "C05" || prop == "C06";
	bool cuts = prop == "C02" || prop == "C03" || prop == "C06" || prop == "C21";
	bool worn = prop == "C22"; // far more failures than can be tolerated
	if (prop == "C07" || prop == "C20") { int k = r.below(4); faults = k & 1; cuts = k & 2; }
	if (prop == "C07" && r.chance(15)) { worn = true; cuts = false; }
	if (worn) c.set("worn", 1);
	if (prop == "C13" && r.chance(40)) faults = true;
	if (prop == "C14" && r.chance(20)) faults = false;
	if (prop == "C08" && r.chance(40)) faults = true;
	if (prop == "C09" && r.chance(25)) faults = true;
	if (prop == "C18" && r.chance(40)) faults = true;
	if (prop == "C19" && r.chance(30)) faults = true;
	if (prop == "C04" && r.chance(25)) faults = true;
	if (prop == "C12" && r.chance(40)) faults = true;
	if (prop == "C07" || prop == "C22") c.set("check_pv", 1);
	if (prop == "C05" || prop == "C12") c.set("check_mark", 1);
	if (prop == "C20") c.set("nullerr", r.chance(50));
	if (prop == "C21" || (prop == "C07" && r.chance(25))) { c.set("imprecise", 1); c.set("check_pv", 1); ffpct = r.chance(70) ? 60 : 20; }
	if (r.chance(30)) w.x = 2;
	if (cuts) {
		g.lps_max = 10; g.max_pages = 300; g.lppb_max = 4;
		w.U = r.chance(50) ? 2 : 0;
		w.C = r.chance(60) ? 5 : 0;
		c.set("probe", r.range(2, 12));
		c.set("pcont", 10);
		nops = 40 + r.below(300);
		umax = 120;
	}
	if (faults) { g.maxbad = 5; w.F = 3; nbad = r.below(2); if (prop == "C05" && r.chance(20)) { g.maxbad = 7; nbad = 0; } }
	else if (r.chance(8)) { g.maxbad = (cuts || prop == "C18" || prop == "C19" || prop == "C23") ? 6 : 7; nbad = r.range(4, g.maxbad); } // a run of more can hide the checkpoints after a cut (see DESIGN.md)
	else if (r.chance(40)) { g.maxbad = 3; nbad = r.below(4); }
	jitter(w, r);
	if (prop == "C04") { w.R = 1; umax = 150; }
	if (prop == "C08") { nops = 200 + r.below(1500); g.max_pages = 500; umax = 200; if (r.chance(50)) w.R = 6; }
	if (prop == "C09") { g.max_pages = 500; w.t = r.chance(50) ? 3 : 15; w.x = r.chance(30); limited = false; g.min_cap = 1; }
	if (prop == "C10") {
		chipfull = r.chance(85); w.x = r.chance(10); w.v = 0; w.q = 0;
		g.lps_max = 10; g.max_pages = 250; g.lppb_max = 4; umax = 250;
		nops = r.chance(12) ? 15000 : 1000 + r.below(2000);
		if (r.chance(40)) { w.t = 1; w.cp = w.pcopy = 1; }
		slow = r.chance(40);
		if (slow) { // large enough for a slow leak of space to show before everything has been rewritten
			g.max_pages = 1600; g.extra_pct = 300; umax = 1600; nops = 2000 + r.below(4000); chipfull = true;
			w.R = r.chance(30); w.x = 0; w.s = w.g = r.chance(50) ? 0 : r.below(3); w.w = 200;
		}
	}
	if (prop == "C11") {
		faults = false; w.F = 0; w.v = 0; w.q = 10; w.R = 4; w.g = 1; w.x = 0;
		g.max_pages = r.chance(30) ? 20000 : 1500; g.extra_pct = r.chance(30) ? 3000 : 200; umax = 2000;
		g.lps_max = 9;
		if (r.chance(25)) { nops = 6000; }
	}
	if (prop == "C12") { c.set("allow_ecc", 1); w.E = 25; c.set("nullerr", r.chance(15)); g.max_pages = 500; umax = 120; w.q = 3; nops = 50 + r.below(500); }
	if (prop == "C13") { w.cp = 40; w.pcopy = 25; w.w = 25; g.max_pages = 500; umax = 200; chipfull = r.chance(80); }
	if (prop == "C14") { w.g = 25; g.max_pages = 500; umax = 200; }
	if (prop == "C18" || prop == "C19") { g.max_pages = 400; umax = 100; nops = 30 + r.below(300); if (r.chance(30)) w.U = 2; if (r.chance(30)) w.C = 2; c.set("iseed", r.below(1000000)); }
	if (prop == "C19") { w.q = 40; w.v = 3; w.C = 0; }
	if (prop == "C18") { c.set("seed2", (int64_t)(seed & 0x7fffffff)); c.set("idx2", (int64_t)(idx * 2654435761u % 1000003 + 500000)); }
	if (prop == "E09") { g.max_pages = 300; g.lps_max = 10; umax = 40; nops = 20 + r.below(120); w.v = 0; }
	if (prop == "C15") { g.max_pages = 600; umax = 150; if (r.chance(60)) c.set("build", 1); c.set("bseed", r.below(1 << 30)); if (c.get("build")) nops = r.below(80); w.s = 12; if (r.chance(30)) { faults = true; g.maxbad = std::max(g.maxbad, 5); w.F = 3; } }
	if (worn) {
		c.set("allow_eol", 1); c.set("tail", r.below(3)); c.set("xseed", r.below(1 << 30));
		faults = true; nbad = r.below(4);
		g.max_pages = 300; g.lps_max = 10; umax = 80; w.F = r.chance(50) ? 3 : 12; w.x = r.chance(20);
		if (r.chance(50)) { g.maxbad = r.below(3); g.extra_pct = 10; }
		if (r.chance(12)) { nbad = r.range(8, 11); g.maxbad = nbad; g.extra_pct = 200; g.max_pages = 600; }
		nops = 50 + r.below(500);
		if (r.chance(60)) { g.lps_max = 9; g.lppb_max = 3; g.max_pages = 600; g.extra_pct = 300; umax = r.chance(50) ? 80 : 250; nops *= 2; }
	}
	if (prop == "C23") { g.max_pages = 500; umax = 100; c.set("mode", r.below(3)); c.set("xseed", r.below(1 << 30)); nops = r.chance(50) ? 10 + r.below(100) : 50 + r.below(500); if (c.get("mode") == 0 && r.chance(30)) w.U = 0; }
	gen_geo(c, r, g);
	if (slow) {
		uint32_t k = 1 + r.below(4);
		if (model_capacity(c.get("lps"), c.get("lppb"), c.get("nb"), g.maxbad + (c.get("nb") >> 6), k) >= 8) c.set("gc", k);
		if (r.chance(25)) c.set("gc", r.chance(50) ? 255 : 8 + r.below(60)); // little in reserve
	}
	if (prop == "E09") {
		int code = r.below(5), mx = 1 << c.get("lps");
		static const int ch[] = {128, 256, 256, 512};
		int k;
		do k = ch[r.below(4)]; while (k > mx || (!code && k > 256));
		c.set("code", code); c.set("chunk", k); c.set("eseed", r.below(1000000)); c.set("epct", r.chance(20) ? 100 : 20);
	}
	if (prop == "C09" && r.chance(6)) { c.set("nb", 3 + r.below(9)); nbad = r.below(2); } // hardly any room, or none
	add_bad(c, r, nbad);
	c.set("maxbad", faults ? g.maxbad : 0);
	if (!faults) w.F = 0;
	if (worn) c.set("maxbad", c.get("nb"));
	uint32_t cap = case_cap(c, g.maxbad);
	uint32_t U = chipfull ? cap : 1 + r.below(cap);
	if (U > umax) U = umax;
	if (limited) c.set("limit", std::min(cap, U));
	else { U = std::min<uint32_t>(cap + 1 + r.below(cap + 20), 700); }
	gen_sectors(c, r, U + r.below(3));
	uint32_t want = c.sectors.size();
	Rng kr(hash_bytes((const uint8_t *)prop.data(), prop.size()) + seed * 7919 + idx * 104729);
	c.set("kills", kr.chance(40) && prop != "C04" && prop != "C14" && c.get("maxbad") < 8); // marking a block bad makes it unreadable
	if (!slow && want >= 20) { // sectors which differ from one of them in a single bit: the deepest trees
		Rng q(hash_bytes((const uint8_t *)prop.data(), prop.size()) ^ (seed * 1000003 + idx));
		if (q.chance(prop == "C11" ? 15 : 5)) {
			uint32_t v = (uint32_t)q.next() & ~1u, n = 0;
			std::set<uint32_t> have;
			auto put = [&](uint32_t x) { if (x != 0xffffffffu && have.size() < want && have.insert(x).second) { if (n < c.sectors.size()) c.sectors[n] = x; n++; } };
			put(v);
			for (int k = 0; k < 32; k++) put(v ^ (1u << k));
			while (have.size() < want) put(v ^ (1u << q.below(32)) ^ (1u << q.below(32)) ^ (q.chance(30) ? 1u << q.below(32) : 0));
			for (uint32_t i = 0; i < 33 && i < want && (!limited || i < (uint32_t)c.get("limit")); i++) c.ops.push_back({'w', i, 1000000 + i, 0});
			for (uint32_t i = 0; i < 33 && i < want; i += 1 + q.below(4)) c.ops.push_back({'q', i, 0, 0});
			c.ops.push_back({'v', 0, 0, 0});
		}
	}
	if (slow && r.chance(70)) { // static data and a hot set, written in long phases
		uint32_t n = c.sectors.size(), id = 1, lim = c.get("limit");
		for (uint32_t i = 0; i < lim; i++) c.ops.push_back({'w', i, id++, 0});
		while (c.ops.size() < nops) {
			uint32_t hot = r.chance(30) ? n : 1 + r.below(r.chance(50) ? 8 : n), at = r.below(n), len = r.chance(50) ? 100 + r.below(2000) : r.below(200), seq = r.chance(30);
			for (uint32_t k = 0; k < len; k++) c.ops.push_back({'w', (at + (seq ? k : r.below(hot)) % hot) % n, id++, pick_kind(r, ffpct)});
			for (int k = r.below(4); k; k--) {
				uint32_t i = r.below(n);
				if (r.chance(50)) { c.ops.push_back({'t', i, 0, 0}); c.ops.push_back({'w', r.below(n), id++, 0}); }
				else c.ops.push_back({'c', i, r.below(n), 0});
			}
			if (r.chance(12)) { // long runs of nothing but trims or copies
				bool copies = r.chance(30);
				uint32_t run = r.chance(40) ? n : 1 + r.below(n), from = r.below(n), step = r.chance(50) ? 1 : 1 + 2 * r.below(20), src = r.below(n);
				for (uint32_t k = 0; k < run; k++) {
					uint32_t i = (from + k * step) % n;
					if (copies) c.ops.push_back({'c', i, r.chance(80) ? src : (uint32_t)r.below(n), 0});
					else c.ops.push_back({'t', i, 0, 0});
				}
				if (r.chance(70)) for (uint32_t i = 0; i < n; i++) c.ops.push_back({'w', i, id++, 0});
			}
			if (r.chance(10)) c.ops.push_back({r.chance(50) ? 's' : 'R', 0, 0, 0});
		}
		c.ops.push_back({'v', 0, 0, 0});
		c.ops.push_back({'R', 0, 0, 0});
	} else
		gen_ops(c, r, w, nops, ffpct, r.chance(50) ? 12 : 80);

	if (worn || prop == "C05") { // bursts in which everything fails
		int cnt = worn ? 12 : g.maxbad, pct = worn ? 20 : 4;
		std::vector<Op> o;
		for (auto &x : c.ops) {
			o.push_back(x);
			if (x.k == 'F' && r.chance(pct)) for (int k = 1 + r.below(cnt), i = 0; i < k; i++) o.push_back({'F', x.a + i, r.below(FE_MAX), 0});
		}
		c.ops = o;
	}
	if (worn || prop == "C05" || prop == "C22") { // blocks in a row that can't be erased
		std::vector<Op> o;
		for (auto &x : c.ops) {
			o.push_back(x);
			if (x.k == 'F' && r.chance(10)) o.push_back({'J', r.below(8), r.below(FE_MAX), r.below(std::max(1, g.maxbad))});
		}
		c.ops = o;
	}
	if (prop == "C04" ) {
		std::vector<Op> o;
		for (auto &x : c.ops) {
			if (r.below(100) < 6) o.push_back({'L', r.chance(70) ? r.below(12) : r.below(120), r.below(4), r.below(2)});
			o.push_back(x);
		}
		c.ops = o;
	}
	if (prop == "C14") {
		std::vector<Op> o;
		for (auto &x : c.ops) { if (r.below(100) < 2) o.push_back({'z', 0, 0, 0}); o.push_back(x); }
		c.ops = o;
	}
	if (prop == "C12") {
		std::vector<Op> o;
		for (auto &x : c.ops) {
			o.push_back(x);
			if (x.k == 'E' && r.chance(25)) o.push_back({r.chance(50) ? 'r' : 'f', r.below(100000), 0, 0});
			if (r.below(100) < 3) o.push_back({'B', r.below(100000), r.below(100000), r.below(2)});
		}
		c.ops = o;
	}
	return c;
}
