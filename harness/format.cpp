// C15: an independent reader and an independent writer of the on-flash format,
// written from map_internals.txt and the layout comments.  C23: any content.
#include "world.h"
#include "gen.h"
#include <array>

namespace {
const uint32_t NONE = 0xffffffff;
const int HDR = 16, COOKIE = 4, META = 132;

uint32_t le32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
void put32(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }

struct Reader {
	Sim &s;
	uint32_t ppc, mask;
	uint8_t epoch = 0;
	uint32_t cp = NONE, tail = 0, bbc = 0, bbl = 0, count = 0;
	std::map<uint32_t, uint32_t> map; // sector -> page
	std::string err;

	Reader(Sim &s_) : s(s_), ppc(1u << s_.log2_ppc), mask(ppc - 1) {}
	const uint8_t *cpage(uint32_t p) // a checkpoint page, or null
	{
		if (s.pst[p] == PG_TORN) return nullptr;
		const uint8_t *q = s.page(p);
		return q[0] == 'D' && q[1] == 'h' && q[2] == 'a' ? q : nullptr;
	}
	bool find()
	{
		uint32_t b = 0, lppb = s.n.log2_ppb, last = NONE;
		for (; b < s.n.num_blocks; b++) {
			if (s.blk[b].marked) continue;
			const uint8_t *q = cpage((b << lppb) + ppc - 1);
			if (last == NONE) { if (q) { epoch = q[3]; last = b; } }
			else if (q && q[3] == epoch) last = b;
			else break;
		}
		if (last == NONE) return false;
		for (uint32_t g = 0; g < s.ppb(); g += ppc) {
			uint32_t p = (last << lppb) + g + ppc - 1;
			const uint8_t *q = cpage(p);
			if (q && q[3] == epoch) cp = p;
		}
		const uint8_t *q = s.page(cp);
		tail = le32(q + 4);
		bbc = le32(q + 8);
		bbl = le32(q + 12);
		count = le32(q + HDR);
		return true;
	}
	const uint8_t *meta(uint32_t p)
	{
		if (p >= s.npages()) { err = sfmt("pointer to page %u outside the chip", p); return nullptr; }
		if ((p & mask) == mask) { err = sfmt("pointer to checkpoint page %u", p); return nullptr; }
		const uint8_t *q = cpage(p | mask);
		if (!q) { err = sfmt("no checkpoint page for page %u", p); return nullptr; }
		return q + HDR + COOKIE + (p & mask) * META;
	}
	void walk(uint32_t p, int depth)
	{
		const uint8_t *m = meta(p);
		if (!m) return;
		uint32_t id = le32(m);
		if (!map.emplace(id, p).second) { err = sfmt("sector 0x%x is reachable twice", id); return; }
		for (int k = depth; k < 32 && err.empty(); k++) {
			uint32_t a = le32(m + 4 + 4 * k);
			if (a == NONE) continue;
			const uint8_t *am = meta(a);
			if (!am) { err = sfmt("level %d pointer of page %u (sector 0x%x): %s", k, p, id, err.c_str()); return; }
			uint32_t x = le32(am) ^ id;
			if (!(x >> (31 - k) & 1) || (k && x >> (32 - k))) { err = sfmt("level %d pointer of page %u (sector 0x%x) leads to sector 0x%x", k, p, id, le32(am)); return; }
			walk(a, k + 1);
		}
	}
	void load()
	{
		if (!find()) return;
		uint32_t root = cp - 1;
		const uint8_t *m = meta(root);
		if (m && le32(m) != NONE) walk(root, 0);
	}
};

void read_back(World &w)
{
	Reader r(w.sim);
	r.load();
	Stats *st = w.st;
	if (!r.err.empty()) viol("independent reader: %s", r.err.c_str());
	if (r.cp == NONE) {
		if (w.count) viol("independent reader: no checkpoint on the chip, %u sectors stored", w.count);
		return;
	}
	if (r.count != w.count) viol("independent reader: the newest checkpoint (page %u) gives %u sectors, expected %u", r.cp, r.count, w.count);
	if (r.map.size() != w.count) viol("independent reader: %zu sectors are reachable, expected %u", r.map.size(), w.count);
	for (size_t i = 0; i < w.sec.size(); i++) {
		auto f = r.map.find(w.sec[i]);
		if ((f != r.map.end()) != (w.cur[i] != 0)) viol("independent reader: %s is %s", w.sname(i).c_str(), w.cur[i] ? "missing" : "present");
		if (f == r.map.end()) continue;
		uint64_t h = hash_bytes(w.sim.page(f->second), w.sim.psz());
		if ((h ? h : 1) != w.cur[i]) viol("independent reader: %s has wrong data", w.sname(i).c_str());
		dhara_page_t p;
		dhara_error_t e;
		if (dhara_map_find(w.in->m, w.sec[i], &p, &e) < 0 || p != f->second) viol("independent reader: %s is on page %u, find says %u", w.sname(i).c_str(), f->second, p);
	}
	// everything reachable lies between tail and newest checkpoint
	uint32_t np = w.sim.npages();
	if (r.tail >= np || (r.tail & r.mask) == r.mask) viol("independent reader: tail is page %u", r.tail);
	for (auto &x : r.map) if ((x.second + np - r.tail) % np > (r.cp + np - r.tail) % np) viol("independent reader: page %u of sector 0x%x is behind the tail (%u)", x.second, x.first, r.tail);
	uint32_t bad = 0, tot = 0, blk = r.cp >> w.sim.n.log2_ppb;
	for (uint32_t b = 0; b < w.sim.n.num_blocks; b++) { tot += w.sim.blk[b].marked; bad += b < blk && w.sim.blk[b].marked; }
	if (!w.sim.nfailed) {
		if (r.bbc != bad) viol("independent reader: %u bad blocks counted in this pass, expected %u", r.bbc, bad);
		if (r.bbl != tot && r.bbl != w.sim.n.num_blocks >> 6) viol("independent reader: %u bad blocks counted in the last pass, expected %u", r.bbl, tot);
	} else if (r.bbc > tot || (r.bbl > tot && r.bbl != w.sim.n.num_blocks >> 6)) viol("independent reader: bad block counters %u/%u, but only %u blocks are bad", r.bbc, r.bbl, tot);
	if (st) { st->add("images_read"); st->add("sectors_read", w.count); if (r.epoch) st->add("images_after_wrap"); }
}

// The map of the document, over records in a growing list.
struct RefMap {
	struct Rec { uint32_t id; std::array<uint32_t, 32> alt; uint32_t content; };
	std::vector<Rec> recs; // alt: record index
	uint32_t root = NONE;
	std::map<uint32_t, uint32_t> cur; // sector -> record

	uint32_t trace(uint32_t id, std::array<uint32_t, 32> &alt)
	{
		alt.fill(NONE);
		uint32_t p = root;
		for (int k = 0; k < 32; k++) {
			if (p == NONE) return NONE;
			if ((recs[p].id ^ id) >> (31 - k) & 1) { alt[k] = p; p = recs[p].alt[k]; }
			else alt[k] = recs[p].alt[k];
		}
		return p;
	}
	void append(uint32_t id, const std::array<uint32_t, 32> &alt, uint32_t content)
	{
		recs.push_back({id, alt, content});
		root = recs.size() - 1;
		cur[id] = root;
	}
	void write(uint32_t id, uint32_t content)
	{
		std::array<uint32_t, 32> a;
		trace(id, a);
		append(id, a, content);
	}
	void repack(uint32_t id) { write(id, recs[cur[id]].content); }
	void trim(uint32_t id)
	{
		std::array<uint32_t, 32> a, b;
		trace(id, a);
		int k = 31;
		while (k >= 0 && a[k] == NONE) k--;
		cur.erase(id);
		if (k < 0) { root = NONE; return; }
		uint32_t q = recs[a[k]].id;
		uint32_t r = trace(q, b);
		b[k] = NONE;
		uint32_t ct = recs[r].content;
		append(q, b, ct);
	}
	void pad() // end of a group
	{
		if (root == NONE) { std::array<uint32_t, 32> a; a.fill(NONE); recs.push_back({NONE, a, 0}); }
		else repack(recs[root].id);
	}
	uint32_t oldest() { uint32_t m = recs.size(); for (auto &x : cur) m = std::min(m, x.second); return m; }
};

// Builds a chip image holding the result of a random history; returns the root page.
uint32_t build(World &w, const Case &c, uint32_t *out_bbc, uint32_t *out_bbl)
{
	Sim &s = w.sim;
	Rng r(c.get("bseed"));
	RefMap m;
	uint32_t ppc = 1u << s.log2_ppc, mask = ppc - 1, lppb = s.n.log2_ppb;
	uint32_t good = 0;
	for (auto &b : s.blk) good += !b.marked;
	uint32_t room = (good - 2) * (s.ppb() / ppc) * (ppc - 1); // user pages in use at most
	uint32_t maxlive = std::min<uint32_t>(w.sec.size(), c.get("limit", 1 << 30));
	uint64_t target = r.chance(50) ? r.below(2 * s.npages()) + 1 : r.below(6 * s.npages()) + 1;
	uint8_t epoch = r.chance(50) ? 0 : r.below(256);
	uint32_t bbc = 0, bbl = epoch ? 0 : s.n.num_blocks >> 6;
	if (epoch) for (auto &b : s.blk) bbl += b.marked;
	std::vector<uint32_t> where; // record -> page
	uint32_t head = 0, ntail = 0, placed = 0; // ntail: oldest record kept
	bool fresh = true;
	std::vector<uint8_t> cpb(s.psz());
	uint32_t lastcp = NONE;
	uint32_t id = 0x20000000;
	bool done = false;
	// what an earlier pass would have left: old checkpoints in all blocks
	if (epoch && r.chance(70))
		for (uint32_t b = 0; b < s.n.num_blocks; b++) {
			if (s.blk[b].marked) continue;
			for (uint32_t p = b << lppb; p < (b + 1) << lppb; p++) {
				fill_content(s.page(p), s.psz(), p, 0);
				if ((p & mask) == mask) { memcpy(s.page(p), "Dha", 3); s.page(p)[3] = epoch - 1; }
				s.pst[p] = PG_PROG;
			}
			s.blk[b].ever_erased = true;
		}
	auto bump = [&] { if (head >= s.npages()) { head = 0; epoch++; bbl = bbc; bbc = 0; } };
	auto place = [&] { // put record number `placed` on flash
		if (fresh || !(head & (s.ppb() - 1))) {
			while (s.blk[head >> lppb].marked) { bbc++; head = ((head >> lppb) + 1) << lppb; bump(); }
			for (uint32_t p = head; p < head + s.ppb(); p++) { memset(s.page(p), 0xff, s.psz()); s.pst[p] = PG_ERASED; }
			s.blk[head >> lppb].ever_erased = true;
			s.blk[head >> lppb].next_page = 0;
			fresh = false;
		}
		if (!(head & mask)) memset(cpb.data(), 0xff, cpb.size());
		auto &x = m.recs[placed];
		if (x.id == NONE) memset(s.page(head), 0xff, s.psz());
		else fill_content(s.page(head), s.psz(), x.content, x.content % 7 ? 0 : x.content % 6);
		s.pst[head] = PG_PROG;
		where.push_back(head);
		uint8_t *q = cpb.data() + HDR + COOKIE + (head & mask) * META;
		memset(q, 0xff, META);
		if (x.id != NONE) {
			put32(q, x.id);
			for (int k = 0; k < 32; k++) put32(q + 4 + 4 * k, x.alt[k] == NONE ? NONE : where[x.alt[k]]);
		}
		placed++;
		head++;
		if ((head & mask) != mask) return;
		memcpy(cpb.data(), "Dha", 3);
		cpb[3] = epoch;
		if (ntail >= placed) ntail = placed - 1;
		put32(&cpb[4], where[ntail]);
		put32(&cpb[8], bbc);
		put32(&cpb[12], bbl);
		put32(&cpb[HDR], m.cur.size());
		memcpy(s.page(head), cpb.data(), cpb.size());
		s.pst[head] = PG_PROG;
		lastcp = head;
		s.blk[head >> lppb].next_page = (head & (s.ppb() - 1)) + 1;
		head++;
		bump();
	};
	uint32_t lazy = 1 + r.below(10);
	while (!done) {
		uint32_t sc = w.sec[r.below(w.sec.size())];
		bool have = m.cur.count(sc);
		if (m.recs.size() >= target) m.pad();
		else if (have && r.below(5) == 0) m.trim(sc);
		else if (have || m.cur.size() < maxlive) m.write(sc, id++);
		else continue;
		while (placed < m.recs.size()) place();
		if (m.recs.size() >= target && !(head & mask)) done = true;
		// collect
		if (r.below(lazy) == 0) ntail = std::max(ntail, std::min<uint32_t>(m.oldest(), placed - 1));
		for (int k = 0; placed - ntail + ppc >= room && k < 100000; k++) {
			uint32_t t = m.recs[ntail].id;
			if (t != NONE && m.cur.count(t) && m.cur[t] == ntail) { m.repack(t); while (placed < m.recs.size()) place(); done = false; }
			ntail++;
		}
		if (m.recs.size() >= target && !(head & mask)) done = true;
	}
	for (size_t i = 0; i < w.sec.size(); i++) {
		auto f = m.cur.find(w.sec[i]);
		w.cur[i] = 0;
		if (f != m.cur.end()) { uint64_t h = hash_bytes(s.page(where[f->second]), s.psz()); w.cur[i] = h ? h : 1; w.known[w.cur[i]] = m.recs[f->second].content; }
	}
	w.count = m.cur.size();
	w.synced();
	*out_bbc = bbc; *out_bbl = bbl;
	if (!(lastcp + 1 == head || (head == 0 && lastcp == s.npages() - 1))) viol("writer error");
	if (w.st) { w.st->add("images_built"); w.st->add("records_written", m.recs.size()); w.st->add("sectors_written", w.count); }
	return lastcp - 1;
}
}

void run_c15(const Case &c, Stats &st, std::vector<std::string> *log)
{
	World w(c, &st);
	w.log = w.sim.log = log;
	if (c.get("build")) {
		uint32_t bbc, bbl;
		uint32_t root = build(w, c, &bbc, &bbl);
		// the reader must understand the writer
		Reader rd(w.sim);
		rd.load();
		if (!rd.err.empty() || rd.map.size() != w.count || rd.cp != root + 1) viol("checker error: %s (%zu of %u sectors, root %u/%u)", rd.err.c_str(), rd.map.size(), w.count, rd.cp - 1, root);
		w.in.reset(new Inst(&w.sim, w.gc));
		dhara_error_t e = DHARA_E_NONE;
		uint64_t mu = w.sim.muts;
		int rc = w.in->resume(&e);
		if (w.sim.muts != mu) viol("resume modifies the chip");
		if (rc < 0) viol("resume of an independently written image fails: error %d", (int)e);
		w.verify_all("resume of an independently written image");
		if (dhara_journal_root(&w.in->m->journal) != root) viol("resume of an independently written image: root %u, expected %u", dhara_journal_root(&w.in->m->journal), root);
		int64_t bad = std::max(bbc, bbl);
		int64_t upb = w.sim.ppb() - (w.sim.ppb() >> w.sim.log2_ppc), jc = ((int64_t)w.sim.n.num_blocks - bad - 1) * upb;
		bool wrapped = root + 2 == w.sim.npages();
		if (!wrapped && dhara_journal_capacity(&w.in->m->journal) != jc) viol("resume of an independently written image: journal capacity %u, expected %lld", dhara_journal_capacity(&w.in->m->journal), (long long)jc);
	}
	// the pass counter: the same within a pass, one more in the next
	int64_t last = -1, pend = -1;
	uint8_t epoch = 0, pepoch = 0;
	if (c.get("build")) { Reader rd(w.sim); rd.load(); last = rd.cp; epoch = w.sim.page(rd.cp)[3]; }
	w.sim.hook = [&](Sim &s, int kind, uint32_t p) {
		if (kind != MUT_PROG || !s.is_cp(p) || memcmp(s.cur_data, "Dha", 3)) return;
		if (pend >= 0 && s.pst[pend] == PG_PROG && !memcmp(s.page(pend), "Dha", 3)) { last = pend; epoch = pepoch; }
		pend = p;
		pepoch = s.cur_data[3];
		if (last < 0) return;
		uint8_t want = epoch + (p < last);
		if (pepoch != want) viol("checkpoint %u has pass counter %u, the one before, at %lld, has %u", p, pepoch, (long long)last, epoch);
		st.n["passes_checked"] += p < last;
	};
	for (auto &o : c.ops) {
		w.exec(o);
		if (o.k == 's' || o.k == 'R') read_back(w);
	}
	w.sim.hook = nullptr;
	st.n["nontrivial"] = st.n["sectors_read"] + st.n["sectors_written"] > 0;
}

namespace {
// One page of content that is not a checkpoint where resume looks for one.
void junk(Sim &s, uint32_t p, Rng &r, bool lookalike)
{
	uint8_t *q = s.page(p);
	s.pst[p] = PG_PROG;
	switch (r.below(8)) {
	case 0: memset(q, 0xff, s.psz()); s.pst[p] = r.chance(50) ? PG_ERASED : PG_PROG; break;
	case 1: memset(q, 0, s.psz()); break;
	case 2: s.pst[p] = PG_TORN; for (size_t i = 0; i < s.psz(); i++) q[i] = r.next() >> 20; break;
	case 3: { static const char t[] = "Dharma bums. "; for (size_t i = 0; i < s.psz(); i++) q[i] = t[i % (sizeof t - 1)]; memcpy(q, r.chance(50) ? "Dhb" : "dha", 3); break; }
	default: for (size_t i = 0; i < s.psz(); i++) q[i] = r.next() >> 20;
	}
	uint32_t first = (1u << s.log2_ppc) - 1;
	if (lookalike && r.chance(30) && (p & (s.ppb() - 1)) != first) memcpy(q, "Dha", 3); // not where it counts
	else if (s.pst[p] != PG_TORN && !memcmp(q, "Dha", 3)) q[1] ^= 0x40;
}
uint32_t first_cps(Sim &s)
{
	uint32_t k = 0;
	for (uint32_t b = 0; b < s.n.num_blocks; b++) {
		uint32_t p = (b << s.n.log2_ppb) + (1u << s.log2_ppc) - 1;
		k += !s.blk[b].marked && s.pst[p] != PG_TORN && !memcmp(s.page(p), "Dha", 3);
	}
	return k;
}
void set_empty(World &w)
{
	w.cur.assign(w.cur.size(), 0);
	w.count = 0;
	w.synced();
}
}

void run_c23(const Case &c, Stats &st, std::vector<std::string> *log)
{
	World w(c, &st);
	w.log = w.sim.log = log;
	Sim &s = w.sim;
	Rng r(c.get("xseed"));
	int mode = c.get("mode");
	uint32_t ppb = s.ppb(), lppb = s.n.log2_ppb;
	uint64_t touched = 0;
	size_t half = c.ops.size() / 2;
	auto restart = [&](dhara_error_t *e) {
		uint64_t mu = s.muts;
		w.in.reset(new Inst(&s, w.gc));
		s.budget = 64 * (s.n.num_blocks + ppb) + 1000;
		int rc = w.in->resume(e);
		if (s.muts != mu) viol("resume modifies the chip");
		s.budget = -1;
		return rc;
	};
	auto failed = [&](dhara_error_t e) {
		if (e <= DHARA_E_NONE || e >= DHARA_E_MAX) viol("failed resume reports error %d", (int)e);
		if (dhara_map_size(w.in->m)) viol("failed resume leaves size %u", dhara_map_size(w.in->m));
		set_empty(w);
		w.verify_all("after failed resume");
	};
	dhara_error_t e = DHARA_E_NONE;
	if (mode == 0) { // foreign content all over the chip
		for (uint32_t b = 0; b < s.n.num_blocks; b++) {
			if (s.blk[b].marked && r.chance(50)) continue;
			bool same = r.chance(20);
			for (uint32_t k = 0; k < ppb; k++) {
				if (same && k) { memcpy(s.page((b << lppb) + k), s.page(b << lppb), s.psz()); s.pst[(b << lppb) + k] = s.pst[b << lppb]; }
				else junk(s, (b << lppb) + k, r, true);
			}
			uint32_t p = (b << lppb) + (1u << s.log2_ppc) - 1;
			if (!memcmp(s.page(p), "Dha", 3)) s.page(p)[2] = 'b';
			s.blk[b].next_page = ppb;
			touched += ppb;
		}
		int rc = restart(&e);
		if (rc == 0) viol("resume succeeds on a chip without any checkpoint");
		failed(e);
		st.add("foreign_chips");
		w.check_pv = true;
		w.run_all();
	} else if (mode == 1) { // everything outside the journal is overwritten
		for (size_t i = 0; i < half; i++) w.exec(c.ops[i]);
		w.exec({'s', 0, 0, 0});
		Reader rd(s);
		rd.load();
		if (!w.count || !rd.err.empty()) { st.n["nontrivial"] = 0; return; }
		uint32_t head = w.in->m->journal.head, hb = head >> lppb, tb = rd.tail >> lppb;
		uint32_t run = 0;
		for (uint32_t b = 0; b < s.n.num_blocks; b++) {
			bool used = tb <= hb ? (b >= tb && b <= hb) : (b >= tb || b <= hb);
			if (b == rd.cp >> lppb) used = true;
			if (s.blk[b].marked) { run++; continue; }
			bool hit = !used && r.chance(60);
			uint32_t ahead = 0;
			while (b + 1 + ahead < s.n.num_blocks && s.blk[b + 1 + ahead].marked) ahead++;
			if (hit && b < (rd.cp >> lppb) && run + ahead >= 6) hit = false; // resume looks at eight blocks in a row
			if (!hit) { run = 0; continue; }
			run++;
			for (uint32_t p = b << lppb; p < (b + 1) << lppb; p++) junk(s, p, r, false);
			s.blk[b].next_page = ppb;
			touched += ppb;
		}
		// interrupted writes after the last checkpoint
		uint32_t nx = (hb + 1) % s.n.num_blocks;
		while (s.blk[nx].marked && nx != hb) nx = (nx + 1) % s.n.num_blocks;
		if ((head & (ppb - 1)) && nx != tb && r.chance(60)) {
			uint32_t n = 1 + r.below(ppb - (head & (ppb - 1)));
			for (uint32_t p = head; p < head + n; p++) { junk(s, p, r, false); s.pst[p] = r.chance(70) ? PG_PROG : PG_TORN; s.blk[hb].next_page = (p & (ppb - 1)) + 1; touched++; }
		}
		int rc = restart(&e);
		if (rc < 0) viol("resume fails after unused pages were overwritten: error %d", (int)e);
		w.verify_all("resume after unused pages were overwritten");
		st.add("overwritten_unused");
		w.check_pv = true;
		for (size_t i = half; i < c.ops.size(); i++) w.exec(c.ops[i]);
	} else { // any page may hold anything
		for (size_t i = 0; i < half; i++) w.exec(c.ops[i]);
		if (r.chance(70)) w.exec({'s', 0, 0, 0});
		int density = r.chance(50) ? 100 : r.chance(50) ? 30 : 3;
		int style = r.below(4);
		for (uint32_t p = 0; p < s.npages(); p++) {
			bool cp = s.is_cp(p);
			if (!r.chance(cp ? density : density / 2)) continue;
			uint8_t *q = s.page(p);
			touched++;
			s.blk[p >> lppb].next_page = ppb;
			switch (style == 3 ? r.below(5) : style == 0 ? 0 : style == 1 ? 1 + r.below(2) : 3 + r.below(2)) {
			case 0: junk(s, p, r, false); break;
			case 1: for (int k = 1 + r.below(8); k; k--) q[r.below(s.psz())] ^= 1 << r.below(8); break;
			case 2: if (cp) { for (int k = 0; k < 3; k++) { uint32_t o = 3 + r.below(17); q[o] = r.chance(50) ? r.next() : r.chance(50) ? 0 : 0xff; } } else s.pst[p] = PG_TORN; break;
			case 3: { uint32_t z = r.below(s.npages()); memcpy(q, s.page(z), s.psz()); s.pst[p] = s.pst[z]; break; }
			case 4: if (cp) for (int k = 1 + r.below(40); k; k--) put32(q + HDR + COOKIE + 4 * r.below(33 * ((1u << s.log2_ppc) - 1)), r.chance(50) ? (uint32_t)r.next() : r.below(s.npages())); else s.pst[p] = PG_ERASED; break;
			}
		}
		st.add("corrupted_images");
		s.protocol = true;
		int rc = restart(&e);
		if (rc < 0) {
			failed(e);
			st.add("resume_refused");
			uint32_t stale = first_cps(s);
			for (size_t i = half; i < c.ops.size(); i++) {
				if (stale && strchr("RU", c.ops[i].k)) continue; // old checkpoints may come back
				w.exec(c.ops[i]);
			}
			w.verify_all("end");
			if (stale) { w.do_sync(); if (w.last_rc < 0) viol("sync fails: error %d", (int)w.last_err); }
		} else {
			// whatever it found, it finds again
			st.add("resume_accepted");
			uint32_t sz = dhara_map_size(w.in->m), cap = dhara_map_capacity(w.in->m), h = w.in->m->journal.head;
			if (h >= s.npages() || s.is_cp(h)) viol("resume puts the next page at %u", h);
			if (dhara_journal_root(&w.in->m->journal) >= s.npages()) viol("resume puts the root at %u", dhara_journal_root(&w.in->m->journal));
			if (restart(&e) < 0 || dhara_map_size(w.in->m) != sz || dhara_map_capacity(w.in->m) != cap || w.in->m->journal.head != h)
				viol("resuming the same image again gives something else");
		}
	}
	st.n["nontrivial"] = touched > 0;
}
