// Very large chips.  Only the blocks which are touched are stored; the others
// hold, on demand, what a long run of synchronising an empty map would have
// left: blocks before the head are filled in the current epoch, blocks after it
// in the previous one (or are blank).
#include "big.h"
#include "gen.h"

struct BBlk {
	std::unordered_map<uint32_t, std::vector<uint8_t>> data; // pages programmed here
	bool erased = false;      // the others are erased, not what was there at first
	std::vector<uint8_t> st;  // PG_*
	uint32_t next = 0;
	bool bad = false, failed = false;
};

struct BigSim : SparseChip {
	Sim sim;                  // only the handle
	int lps, lppb, ppc;
	uint64_t nb, np;
	uint64_t hp, dist;        // start of the head's group, distance of the tail from the last group
	int epoch; bool first, userprog;
	uint32_t bbl;
	std::set<uint32_t> bad;
	std::unordered_map<uint32_t, BBlk> store;
	std::vector<std::string> *log = nullptr;
	uint64_t reads = 0, frees = 0, isbad = 0, muts = 0, erases = 0, progs = 0, read_bytes = 0;
	int64_t fail_left = -1; int failures = 0, max_fail = 0;
	int64_t cut_left = -1; bool cut_after = false;
	std::function<void(uint64_t, const uint8_t *)> on_cp;

	void init(const Case &c) {
		lps = c.get("lps"); lppb = c.get("lppb"); nb = c.get("nb"); np = nb << lppb;
		ppc = ppc_of(lps, lppb);
		hp = c.get("hp"); dist = c.get("dist"); epoch = c.get("epoch"); first = c.get("first"); userprog = c.get("userprog"); bbl = c.get("bbl"); bbc = c.get("bbc");
		for (auto b : c.badblocks) bad.insert(b);
		sim.n.log2_page_size = lps; sim.n.log2_ppb = lppb; sim.n.num_blocks = nb;
		sim.log2_ppc = ppc;
		sim.sparse = this;
		max_fail = c.get("maxbad");
		wear = c.prop == "C08";
		behind = (hp + (1u << lppb) - 1) >> lppb;
		left = nb - behind;
		for (auto b : bad) left -= b >= behind;
	}
	// wear: good blocks from here on have been erased once less than the others
	bool wear = false;
	uint64_t behind = 0, left = 0;
	std::set<uint32_t> caught_up, ahead;
	void level(uint32_t b, bool erased) {
		if (!wear) return;
		if (b >= behind && caught_up.insert(b).second) { left--; return; }
		if (!erased) return;
		if (left) viol("block %u is erased twice more than %llu other blocks", b, (unsigned long long)left);
		if (!ahead.insert(b).second) viol("block %u is erased again before the others", b);
	}
	size_t psz() const { return (size_t)1 << lps; }
	bool is_cp(uint64_t p) const { uint64_t m = (1u << ppc) - 1; return (p & m) == m; }
	uint64_t group(uint64_t p) const { return p >> ppc << ppc; }
	bool dflt_bad(uint64_t b) const { return bad.count(b); }
	bool filled(uint64_t p) const { return p < hp || (!first && p >= ((hp + (1u << lppb) - 1) >> lppb << lppb)); }
	// the tail recorded in the checkpoint of the group at g
	uint64_t tail_of(uint64_t g) const {
		uint64_t t = first && g < dist ? 0 : (g + np - dist) % np;
		if (is_cp(t)) t--;
		return t;
	}
	uint32_t bbc = 0;
	uint32_t bad_before(uint64_t b) const { uint32_t k = bbc; for (auto x : bad) if (x < b) k++; return k; }
	void dflt(uint64_t p, size_t off, size_t len, uint8_t *o) const {
		memset(o, 0xff, len);
		if (dflt_bad(p >> lppb) || !filled(p)) return;
		if (!is_cp(p)) {
			if (userprog) for (size_t i = 0; i < len; i++) o[i] = (uint8_t)(p * 31 + (off + i) * 7);
			return;
		}
		uint8_t h[20] = {'D', 'h', 'a', (uint8_t)(p < hp ? epoch : epoch - 1)};
		uint32_t v[3] = {(uint32_t)tail_of(group(p)), bad_before(p >> lppb), bbl};
		for (int k = 0; k < 3; k++) for (int i = 0; i < 4; i++) h[4 + 4 * k + i] = v[k] >> 8 * i;
		for (size_t i = off; i < 20 && i < off + len; i++) o[i - off] = h[i]; // no sectors
	}
	int dflt_state(uint64_t p) const { return filled(p) && !dflt_bad(p >> lppb) && (is_cp(p) || userprog) ? PG_PROG : PG_ERASED; }
	BBlk &blk(uint64_t b) {
		auto i = store.find(b);
		if (i != store.end()) return i->second;
		BBlk &x = store[b];
		x.bad = dflt_bad(b);
		x.st.resize(1u << lppb);
		for (uint32_t k = 0; k < 1u << lppb; k++) {
			x.st[k] = dflt_state((b << lppb) + k);
			if (filled((b << lppb) + k)) x.next = k + 1;
		}
		return x;
	}
	void charge() { if (sim.budget >= 0 && --sim.budget < 0) throw Hang("NAND call budget exceeded"); }
	void mut() {
		muts++;
		if (cut_left >= 0 && cut_left-- == 0 && !cut_after) throw PowerCut();
	}
	void done() { if (cut_after && cut_left == -1) { cut_after = false; throw PowerCut(); } }
	bool fail(BBlk &x) {
		if (fail_left >= 0 && fail_left-- == 0 && !x.failed && failures < max_fail) { x.failed = true; failures++; }
		return x.failed;
	}
	int is_bad(uint32_t b) override {
		charge(); isbad++;
		if (b >= nb) viol("is_bad of block %u outside the chip (%llu blocks)", b, (unsigned long long)nb);
		auto i = store.find(b);
		return i != store.end() ? i->second.bad : dflt_bad(b);
	}
	void mark_bad(uint32_t b) override {
		charge();
		if (b >= nb) viol("mark_bad of block %u outside the chip (%llu blocks)", b, (unsigned long long)nb);
		if (log) log->push_back(sfmt("mark_bad %u", b));
		mut();
		BBlk &x = blk(b);
		if (!x.failed) viol("block %u, which did not fail, is marked bad", b);
		x.bad = true;
		level(b, false);
		for (auto &s : x.st) s = PG_TORN; // it can no longer be read
		done();
	}
	int erase(uint32_t b, dhara_error_t *err) override {
		charge();
		if (b >= nb) viol("erase of block %u outside the chip (%llu blocks)", b, (unsigned long long)nb);
		if (log) log->push_back(sfmt("erase %u", b));
		mut(); erases++;
		BBlk &x = blk(b);
		if (x.bad) viol("erase of block %u, which is marked bad", b);
		if (fail(x)) { dhara_set_error(err, DHARA_E_BAD_BLOCK); return -1; }
		level(b, true);
		x.data.clear();
		x.erased = true;
		std::fill(x.st.begin(), x.st.end(), PG_ERASED);
		x.next = 0;
		done();
		return 0;
	}
	int prog(uint32_t p, const uint8_t *d, dhara_error_t *err) override {
		charge();
		if (p >= np) viol("program of page %u outside the chip (%llu pages)", p, (unsigned long long)np);
		if (log) log->push_back(sfmt("prog %u (%u.%u)%s", p, p >> lppb, p & ((1u << lppb) - 1), memcmp(d, "Dha", 3) ? "" : " cp"));
		mut(); progs++;
		BBlk &x = blk(p >> lppb);
		uint32_t k = p & ((1u << lppb) - 1);
		if (x.bad) viol("program of page %u, in a block which is marked bad", p);
		if (x.st[k] != PG_ERASED) viol("program of page %u, which is not erased", p);
		if (k < x.next) viol("program of page %u out of order (next page of its block is %u)", p, x.next);
		x.next = k + 1;
		if (fail(x)) { x.st[k] = PG_TORN; dhara_set_error(err, DHARA_E_BAD_BLOCK); return -1; }
		if (on_cp && is_cp(p)) on_cp(p, d);
		x.data[k].assign(d, d + psz());
		x.st[k] = PG_PROG;
		done();
		return 0;
	}
	int is_free(uint32_t p) override {
		charge(); frees++;
		if (p >= np) viol("is_free of page %u outside the chip (%llu pages)", p, (unsigned long long)np);
		auto i = store.find(p >> lppb);
		return (i != store.end() ? i->second.st[p & ((1u << lppb) - 1)] : dflt_state(p)) == PG_ERASED;
	}
	int read(uint32_t p, size_t off, size_t len, uint8_t *d, dhara_error_t *err) override {
		charge(); reads++; read_bytes += len;
		if (p >= np) viol("read of page %u outside the chip (%llu pages)", p, (unsigned long long)np);
		if (off > psz() || len > psz() || off + len > psz()) viol("read of bytes %zu..%zu outside the page", off, off + len);
		auto i = store.find(p >> lppb);
		if (i != store.end()) {
			uint32_t k = p & ((1u << lppb) - 1);
			if (i->second.st[k] == PG_TORN) { dhara_set_error(err, DHARA_E_ECC); memset(d, 0x5a, len); return -1; }
			auto q = i->second.data.find(k);
			if (q != i->second.data.end()) { memcpy(d, &q->second[off], len); return 0; }
			if (i->second.erased) { memset(d, 0xff, len); return 0; }
		}
		dflt(p, off, len, d);
		return 0;
	}
};

struct Big {
	const Case &c;
	Stats &st;
	BigSim s;
	std::unique_ptr<Inst> in;
	std::vector<uint32_t> cur, base;
	std::vector<std::pair<int, uint32_t>> deltas;
	std::vector<uint8_t> buf, rb;
	std::map<uint32_t, std::pair<uint32_t, uint32_t>> what; // content id -> kind
	std::vector<std::string> *log;
	int gc;
	dhara_error_t err = DHARA_E_NONE;
	uint32_t wraps = 0;

	Big(const Case &cs, Stats &stt, std::vector<std::string> *l) : c(cs), st(stt), log(l) {
		s.init(c);
		s.log = l;
		gc = c.get("gc", 1);
		cur.assign(c.sectors.size(), 0);
		base = cur;
		buf.resize(s.psz()); rb.resize(s.psz());
		s.on_cp = [this](uint64_t p, const uint8_t *d) {
			auto r32 = [&](int o) { return (uint32_t)d[o] | d[o + 1] << 8 | d[o + 2] << 16 | (uint32_t)d[o + 3] << 24; };
			struct dhara_journal *j = &in->m->journal;
			if (memcmp(d, "Dha", 3)) {
				if (!dhara_journal_in_recovery(j) && j->recover_root == DHARA_PAGE_NONE) viol("page %llu, in a checkpoint slot, is written without a checkpoint header", (unsigned long long)p);
				return;
			}
			if (d[3] != j->epoch) viol("the checkpoint on page %llu has epoch %u, expected %u", (unsigned long long)p, d[3], j->epoch);
			if (r32(4) != j->tail) viol("the checkpoint on page %llu has tail %u, expected %u", (unsigned long long)p, r32(4), j->tail);
			if (r32(4) >= s.np || s.is_cp(r32(4))) viol("the checkpoint on page %llu has tail %u, which is not a user page", (unsigned long long)p, r32(4));
			if (r32(8) != j->bb_current || r32(12) != j->bb_last) viol("the checkpoint on page %llu has bad-block counts %u, %u, expected %u, %u", (unsigned long long)p, r32(8), r32(12), j->bb_current, j->bb_last);
		};
	}
	int64_t capacity() const {
		const struct dhara_journal *j = &in->m->journal;
		int64_t worst = std::max(j->bb_last, j->bb_current);
		int64_t groups = ((int64_t)s.nb - worst - 1) << (s.lppb - s.ppc);
		int64_t jc = groups * ((1 << s.ppc) - 1);
		if (dhara_journal_capacity(j) != (uint64_t)jc) viol("journal capacity is %u, expected %lld", dhara_journal_capacity(j), (long long)jc);
		int64_t cap = jc - jc / (gc + 1) - ((int64_t)8 << s.lppb);
		if (cap < 0) cap = 0;
		if (dhara_map_capacity(in->m) != (uint64_t)cap) viol("capacity is %u, expected %lld", dhara_map_capacity(in->m), (long long)cap);
		return cap;
	}
	// user pages in [tail, head)
	int64_t size() const {
		const struct dhara_journal *j = &in->m->journal;
		int64_t h = j->head, t = j->tail_sync;
		if (h < t) h += s.np;
		int64_t v = (h - t) - ((h >> s.ppc) - (t >> s.ppc));
		if (dhara_journal_size(j) != (uint64_t)v) viol("journal size is %u, expected %lld", dhara_journal_size(j), (long long)v);
		return v;
	}
	int64_t used() const {
		const struct dhara_journal *j = &in->m->journal;
		int64_t h = j->head, t = j->tail;
		if (h < t) h += s.np;
		return (h - t) - ((h >> s.ppc) - (t >> s.ppc));
	}
	int64_t skipped(uint32_t from) const { // pages in bad blocks between there and the head
		int64_t k = 0;
		for (uint64_t b : s.bad) {
			uint64_t d = (b + s.nb - (from >> s.lppb)) % s.nb, e = ((in->m->journal.head >> s.lppb) + s.nb - (from >> s.lppb)) % s.nb;
			if (d <= e) k += 1 << s.lppb;
		}
		return k;
	}
	void boot(bool initial) {
		in.reset(new Inst(&s.sim, gc));
		uint64_t r0 = s.reads, m0 = s.muts, f0 = s.frees;
		int64_t was = s.sim.budget;
		s.sim.budget = 1000000;
		int rc = in->resume(&err);
		s.sim.budget = was;
		if (s.muts != m0) viol("resume modifies the chip");
		if (rc < 0) viol("resume fails: error %d", (int)err);
		int lg = 1;
		while ((1ULL << lg) < s.nb) lg++;
		uint64_t bound = 8 + 2 * 8 * (lg + 1) + 8 + (1u << (s.lppb - s.ppc)) + 2, fb = 2 * (1u << s.ppc) * (lg + 2) + 4 * (1u << s.lppb) + 16;
		if (s.reads - r0 > bound) viol("resume makes %llu page reads on %llu blocks (bound %llu)", (unsigned long long)(s.reads - r0), (unsigned long long)s.nb, (unsigned long long)bound);
		if (s.frees - f0 > fb) viol("resume asks whether a page is free %llu times", (unsigned long long)(s.frees - f0));
		st.mx("max_big_resume_reads", s.reads - r0);
		const struct dhara_journal *j = &in->m->journal;
		if (initial) {
			uint64_t want = s.hp == s.np ? 0 : s.hp;
			if (j->head != want) viol("resume finds the head at page %u, expected %llu", j->head, (unsigned long long)want);
			uint64_t t = s.tail_of(s.group(s.hp - 1));
			if (j->tail != t) viol("resume finds the tail at page %u, expected %llu", j->tail, (unsigned long long)t);
			uint32_t bc = s.bad_before((s.hp - 1) >> s.lppb), bl = s.bbl;
			if (s.hp == s.np) { bl = bc; bc = 0; }
			if (j->bb_current != bc || j->bb_last != bl) viol("resume finds bad-block counts %u, %u, expected %u, %u", j->bb_current, j->bb_last, bc, bl);
			int e = (s.epoch + (s.hp == s.np)) & 255;
			if (j->epoch != e) viol("resume finds epoch %d, expected %d", j->epoch, e);
		}
		capacity();
		size();
	}
	uint32_t id_at(int i, const char *when) {
		dhara_page_t p;
		int rc = dhara_map_find(in->m, c.sectors[i], &p, &err);
		if (rc < 0 && err != DHARA_E_NOT_FOUND) viol("%s: find of sector 0x%x fails: error %d", when, c.sectors[i], (int)err);
		bool mapped = rc == 0;
		if (dhara_map_read(in->m, c.sectors[i], rb.data(), &err) < 0) viol("%s: read of sector 0x%x fails: error %d", when, c.sectors[i], (int)err);
		if (!mapped) {
			if (!Sim::all_ff(rb.data(), s.psz())) viol("%s: unmapped sector 0x%x does not read as blank", when, c.sectors[i]);
			return 0;
		}
		uint32_t id;
		memcpy(&id, rb.data(), 4);
		if (!what.count(id)) viol("%s: sector 0x%x holds data which was never written", when, c.sectors[i]);
		fill(id);
		if (memcmp(buf.data(), rb.data(), s.psz())) viol("%s: sector 0x%x holds damaged data", when, c.sectors[i]);
		return id;
	}
	void fill(uint32_t id) { Rng r(id * 77ULL); for (size_t i = 0; i < s.psz(); i += 8) { uint64_t v = r.next(); memcpy(&buf[i], &v, 8); } memcpy(buf.data(), &id, 4); }
	void verify(const char *when) {
		uint32_t n = 0;
		for (size_t i = 0; i < cur.size(); i++) {
			uint32_t id = id_at(i, when);
			if (id != cur[i]) viol("%s: sector 0x%x holds version %u, expected %u", when, c.sectors[i], id, cur[i]);
			n += cur[i] != 0;
		}
		if (dhara_map_size(in->m) != n) viol("%s: size is %u, expected %u", when, dhara_map_size(in->m), n);
	}
	void unclean() {
		boot(false);
		std::vector<uint32_t> got(cur.size());
		uint32_t n = 0;
		for (size_t i = 0; i < got.size(); i++) { got[i] = id_at(i, "after a power cut"); n += got[i] != 0; }
		std::vector<uint32_t> m = base;
		size_t k = 0;
		while (m != got) {
			if (k == deltas.size()) viol("after a power cut the map is not in any state it had since the last synchronisation");
			m[deltas[k].first] = deltas[k].second;
			k++;
		}
		if (dhara_map_size(in->m) != n) viol("after a power cut the size is %u, expected %u", dhara_map_size(in->m), n);
		st.add("big_rollbacks");
		cur = base = got;
		deltas.clear();
	}
	void apply(int i, uint32_t id) { cur[i] = id; deltas.push_back({i, id}); }
	void after(int rc, const char *name) { if (rc < 0) viol("%s fails: error %d", name, (int)err); }
	void op(const Op &o) {
		size_t U = cur.size();
		const struct dhara_journal *j = &in->m->journal;
		if (log) log->push_back(sfmt("== %c %u %u %u  [head %u tail %u root %u size %u]", o.k, o.a, o.b, o.c, j->head, j->tail, j->root, dhara_map_size(in->m)));
		uint32_t h0 = j->head;
		int e0 = j->epoch;
		int64_t cap = capacity(), size0 = size(), used0 = used();
		int f0 = s.failures;
		bool collect = size0 >= cap && dhara_map_size(in->m) > 0;
		int pend = -1;
		uint32_t pid = 0;
		s.sim.budget = 4000000;
		try {
			switch (o.k) {
			case 'w': pend = o.a % U; pid = o.b; what[pid]; fill(pid); after(dhara_map_write(in->m, c.sectors[pend], buf.data(), &err), "write"); break;
			case 't': pend = o.a % U; after(dhara_map_trim(in->m, c.sectors[pend], &err), "trim"); break;
			case 'c': pend = o.b % U; pid = cur[o.a % U]; after(dhara_map_copy_sector(in->m, c.sectors[o.a % U], c.sectors[pend], &err), "copy"); break;
			case 'g': for (uint32_t k = 0; k < o.a; k++) after(dhara_map_gc(in->m, &err), "gc"); break;
			case 's': case 'R': {
				after(dhara_map_sync(in->m, &err), "sync");
				uint64_t m0 = s.muts;
				after(dhara_map_sync(in->m, &err), "second sync");
				if (s.muts != m0) viol("a second sync in a row modifies the chip");
				base = cur; deltas.clear();
				if (o.k == 'R') {
					int64_t cp = capacity();
					uint32_t h = j->head, e = j->epoch;
					boot(false);
					verify("after sync and restart");
					j = &in->m->journal;
					if (j->head != h || j->epoch != e) viol("restart finds the head at page %u of epoch %u, expected %u of %u", j->head, j->epoch, h, e);
					if (capacity() != cp) viol("restart changes the capacity");
					st.add("big_restarts");
				}
				break;
			}
			case 'U': unclean(); break;
			case 'v': verify("check"); break;
			case 'F': if (s.fail_left < 0) s.fail_left = o.a; break;
			case 'C': if (s.cut_left < 0) { s.cut_left = o.a; s.cut_after = o.b & 1; } break;
			}
		} catch (PowerCut &) {
			if (pend >= 0) deltas.push_back({pend, pid});
			s.cut_left = -1; s.cut_after = false;
			st.add("big_cuts");
			unclean();
			verify("after a power cut");
			return;
		}
		s.sim.budget = -1;
		if (pend >= 0) {
			apply(pend, pid);
			uint32_t got = id_at(pend, "after the operation");
			if (got != pid) viol("after '%c' sector 0x%x holds version %u, expected %u", o.k, c.sectors[pend], got, pid);
			if (f0 == s.failures && collect && used0 > 1000 && o.k != 'c' && used() > used0 + skipped(h0)) viol("'%c' on a full journal makes it grow from %lld to %lld pages", o.k, (long long)used0, (long long)used());
			if (collect) st.add("big_ops_collecting");
		}
		j = &in->m->journal;
		if (j->head < h0 && o.k != 'R' && o.k != 'U') {
			wraps++;
			if (j->epoch == e0) viol("the head wrapped around without a new epoch");
		} else if (j->epoch != e0 && o.k != 'R' && o.k != 'U') viol("a new epoch without a wrap");
	}
};

void run_big(const Case &c, Stats &st, std::vector<std::string> *log)
{
	Big b(c, st, log);
	b.boot(true);
	b.verify("at first");
	for (auto &o : c.ops) b.op(o);
	b.s.cut_left = -1;
	if (c.get("nosync")) b.verify("at the end");
	else b.op({'R', 0, 0, 0});
	st.add("big_cases");
	st.add("big_wraps", b.wraps);
	st.add("big_failures", b.s.failures);
	st.n["nontrivial"] = b.s.np > 65536;
}

void gen_big(Case &c, Rng &r, const std::string &prop, bool thorough)
{
	int lps = 8 + r.below(3), lppb = r.chance(60) ? 4 + r.below(4) : r.chance(60) ? 1 + r.below(7) : 8 + r.below(5);
	bool huge = r.chance(6); // pages which hold the metadata of hundreds of others
	if (huge) { lps = r.chance(60) ? 17 : r.range(14, 16); lppb = r.chance(60) ? r.range(9, 10) : r.range(7, 8); }
	int ppc = ppc_of(lps, lppb);
	int top = 31 - lppb;
	int lg = r.range(11, top);
	uint64_t nb = r.chance(30) ? 1ULL << lg : (1ULL << lg) - r.below(1u << (lg - 1)) - (r.chance(20) ? 1 : 0);
	if (nb < 1024) nb = 1024;
	uint64_t np = nb << lppb, ppb = 1u << lppb;
	bool first = r.chance(25);
	int epoch = first ? 0 : r.chance(20) ? 0 : r.chance(20) ? 255 : r.below(256);
	uint64_t hb; // head block
	switch (r.below(5)) {
	case 0: hb = nb - r.below(40); break;                               // the wrap is near
	case 1: { uint64_t k = 1ULL << r.range(16, 31); hb = (k >> lppb) + r.below(9) - 8; break; } // page numbers next to a power of two
	case 2: hb = (1ULL << r.below(lg)) - r.below(6); break;             // block numbers next to one
	default: hb = r.next() % nb;
	}
	if (hb > nb || hb < 20) hb = nb - r.below(30);
	uint64_t hp = hb << lppb;
	if (hb < nb && r.chance(huge ? 30 : 60)) hp += (uint64_t)r.below(ppb >> ppc) << ppc;
	// distance of the tail
	uint64_t dist, most = np - (30ULL << lppb);
	int64_t R = r.chance(30) ? 1 : r.chance(50) ? 4 : 1 + r.below(200);
	switch (r.below(3)) {
	case 0: dist = r.below(64); break;
	case 1: dist = most - r.below(most > 4000 ? 1000 : 10); break;       // full
	default: dist = r.next() % most;
	}
	if (first && dist > hp - ppb) dist = r.next() % (hp - ppb + 1);
	c.set("big", 1);
	c.set("lps", lps); c.set("lppb", lppb); c.set("nb", nb); c.set("hp", hp); c.set("dist", dist); c.set("epoch", epoch);
	c.set("first", first); c.set("userprog", r.chance(50)); c.set("gc", R);
	bool nosync = dist > 20000; // synchronising looks at everything between tail and head
	c.set("nosync", nosync);
	// a few bad blocks ahead
	bool faults = r.chance(prop == "C05" ? 100 : 25), cuts = !faults && (prop == "C02" || r.chance(30)) && prop != "C08";
	std::set<uint32_t> bad;
	if (r.chance(60)) for (int k = r.below(faults ? 3 : 6); k; k--) bad.insert((hb + 1 + r.below(r.chance(50) ? 8 : 40)) % nb);
	uint64_t g = (hp - 1) >> ppc << ppc;
	uint64_t tb = ((g + np - dist) % np) >> lppb;
	bad.erase(tb); bad.erase(hp == np ? 0 : hb); bad.erase(0); bad.erase((hp - 1) >> lppb);
	for (auto x : bad) c.badblocks.push_back(x);
	c.set("bbl", r.chance(40) ? nb >> 6 : bad.size() + r.below(20));
	c.set("bbc", first || r.chance(50) ? r.below(10) : r.below(nb >> 5));
	c.set("maxbad", faults ? 4 : 0);
	uint32_t U = 1 + r.below(40);
	gen_sectors(c, r, U);
	uint32_t id = 1, nops = 40 + r.below(thorough || huge ? 600 : 200);
	uint32_t span = r.chance(50) ? 20 : 200;
	while (c.ops.size() < nops) {
		uint32_t k = r.below(100);
		if (k < 55) c.ops.push_back({'w', r.below(U), id++, 0});
		else if (k < 65) c.ops.push_back({'t', r.below(U), 0, 0});
		else if (k < 75) c.ops.push_back({'c', r.below(U), r.below(U), 0});
		else if (k < 80) c.ops.push_back({'g', r.chance(90) ? r.below(8) : r.below(300), 0, 0});
		else if (k < 84) c.ops.push_back({'s', 0, 0, 0});
		else if (k < 88) c.ops.push_back({'R', 0, 0, 0});
		else if (k < 90) c.ops.push_back({'v', 0, 0, 0});
		else if (k < 92) { if (!faults && prop != "C08") c.ops.push_back({'U', 0, 0, 0}); }
		else if (k < 96 && faults) c.ops.push_back({'F', r.below(span), 0, 0});
		else if (cuts) c.ops.push_back({'C', r.below(span), r.below(2), 0});
	}
	if (nosync) for (auto &o : c.ops) if (o.k == 's' || o.k == 'R') { o.k = faults || prop == "C08" ? 'v' : 'U'; }
	for (auto &o : c.ops) if (o.k == 'F' && r.chance(50)) o.a = r.below(8);
}
