// Journal-level histories (C16, C17): a persistent queue with metadata.
#include "world.h"
#include <deque>

namespace {

struct Entry { uint32_t page; uint64_t hash; bool data; uint8_t meta[DHARA_META_SIZE]; };

struct Rec { bool known = false; Entry e; };

struct JInst {
	struct dhara_journal *j;
	uint8_t *pb;
	JInst(Sim *s) {
		j = (struct dhara_journal *)malloc(sizeof *j);
		memset(j, 0xa7, sizeof *j);
		pb = (uint8_t *)malloc(s->psz());
		memset(pb, 0xb9, s->psz());
		Counts b = s->c;
		dhara_journal_init(j, &s->n, pb);
		if (memcmp(&b, &s->c, sizeof b)) viol("initialisation calls the NAND layer");
	}
	~JInst() { free(j); free(pb); }
};

struct State { std::deque<Entry> q; uint8_t cookie[4]; bool valid = false; uint32_t root = 0; };

struct JW {
	const Case &cs;
	Stats &st;
	Sim sim;
	std::unique_ptr<JInst> in;
	std::vector<Rec> rec;          // pages written since their block was erased
	std::deque<Entry> q;           // not yet dequeued, oldest first
	State clean;                   // as of the last checkpoint
	size_t deq_clean = 0, pushed_since = 0;
	int refused = 0;               // in a row
	size_t deq_since = 0;          // dequeued since then
	bool cleared_since = false;
	bool infl = false; State inflight; // state if the interrupted call completed
	uint8_t cookie[4];
	bool faults;
	std::map<uint64_t, std::set<uint32_t>> given; // metadata and the pages it was given to
	bool loose = false;            // unknown pages may be in the queue
	uint8_t *buf, *rbuf;
	std::vector<std::string> *log = nullptr;
	Rng vr;

	JW(const Case &c, Stats &s) : cs(c), st(s), vr(c.get("vseed", 1)) {
		sim.init(c.get("lps"), c.get("lppb"), c.get("nb"), c.get("garbage", 1), c.get("gseed", 1));
		sim.max_bad = c.get("maxbad", 0);
		for (auto b : c.badblocks) if (b < sim.n.num_blocks) sim.blk[b].marked = sim.blk[b].factory = sim.blk[b].failed = true;
		sim.max_bad += sim.bad_total();
		rec.resize(sim.npages());
		buf = (uint8_t *)malloc(sim.psz());
		rbuf = (uint8_t *)malloc(sim.psz());
		faults = c.get("faults", 0);
		nullerr = c.get("nullerr", 0);
		sim.mark_kills = true;
		memset(cookie, 0xff, 4);
		in.reset(new JInst(&sim));
		dhara_error_t e;
		if (dhara_journal_resume(in->j, &e) == 0) viol("a blank chip is resumed as a journal");
		sim.hook = [this](Sim &, int k, uint32_t w) {
			if (k == MUT_ERASE) {
				for (uint32_t p = w << sim.n.log2_ppb; p < (w + 1) << sim.n.log2_ppb; p++) {
					for (auto &e : q) if (e.page == p) viol("block %u is erased while page %u is still in the queue", w, p);
					// nor while a restart would want it
					for (size_t i = deq_clean; clean.valid && i < clean.q.size(); i++) if (clean.q[i].page == p) viol("block %u is erased while page %u is in the queue of the last checkpoint", w, p);
					rec[p].known = false;
				}
			}
			if (k == MUT_MARK) drop_block(w);
		};
	}
	~JW() { free(buf); free(rbuf); }
	struct dhara_journal *j() { return in->j; }

	void drop_block(uint32_t b) {
		std::deque<Entry> n;
		for (auto &e : q) if (e.page >> sim.n.log2_ppb != b) n.push_back(e);
		q.swap(n);
	}
	void budget() { sim.budget = 200LL * sim.ppb() + 20000; }

	void check_entry(struct dhara_journal *jj, const Entry &e, const char *when) {
		uint8_t m[DHARA_META_SIZE];
		dhara_error_t err;
		if (dhara_journal_read_meta(jj, e.page, m, &err) < 0) viol("%s: metadata of page %u can't be read", when, e.page);
		if (memcmp(m, e.meta, sizeof m)) viol("%s: metadata of page %u differs from what was given", when, e.page);
		if (e.data) {
			if (dhara_nand_read(&sim.n, e.page, 0, sim.psz(), rbuf, &err) < 0) viol("%s: page %u can't be read", when, e.page);
			if (hash_bytes(rbuf, sim.psz()) != e.hash) viol("%s: page %u does not hold the data it was given", when, e.page);
		}
	}
	void check_all(const char *when) {
		for (auto &e : q) check_entry(j(), e, when);
		if (dhara_journal_size(j()) < q.size()) viol("%s: size %u is less than the %zu pages queued", when, dhara_journal_size(j()), q.size());
		// pages dequeued but not checkpointed still occupy their place
		if (!loose && !sim.bad_marked() && dhara_journal_size(j()) > occupied()) viol("%s: size is %u, but only %llu pages are in use", when, dhara_journal_size(j()), (unsigned long long)occupied());
		st.add("full_verify");
	}
	uint64_t occupied() { return clean.q.size() - std::min<uint64_t>(deq_clean, clean.q.size()) + pushed_since; }
	void after(const char *name) {
		if (!sim.pviol.empty()) viol("during %s: %s", name, sim.pviol.c_str());
		// the capacity is within what the bad blocks allow
		int64_t upb = sim.ppb() - (sim.ppb() >> sim.log2_ppc), nb = sim.n.num_blocks;
		int64_t cap = dhara_journal_capacity(j());
		int64_t lo = (nb - std::max<int64_t>(sim.bad_total(), nb >> 6) - 1) * upb;
		if (cap < lo || cap > (nb - 1) * upb) viol("%s: capacity is %lld with %d of %lld blocks bad", name, (long long)cap, sim.bad_total(), (long long)nb);
	}
	void note_clean() {
		if (!dhara_journal_is_clean(j()) || dhara_journal_in_recovery(j())) return;
		clean.q = q;
		memcpy(clean.cookie, cookie, 4);
		clean.valid = true;
		clean.root = dhara_journal_root(j());
		deq_since = 0; deq_clean = pushed_since = 0;
		cleared_since = false;
	}
	// a page has just been accepted
	void pushed(Entry e, const char *name) {
		e.page = dhara_journal_root(j());
		if (e.page >= sim.npages()) viol("%s: the root is page %u", name, e.page);
		if (sim.is_cp(e.page)) viol("%s: page %u, a checkpoint position, holds user data", name, e.page);
		if (sim.blk[e.page >> sim.n.log2_ppb].marked) viol("%s: page %u is in a bad block", name, e.page);
		if (!q.empty() && q.back().page == e.page) viol("%s: the root did not change", name);
		rec[e.page].known = true;
		rec[e.page].e = e;
		q.push_back(e);
		uint8_t ff[DHARA_META_SIZE];
		memset(ff, 0xff, sizeof ff);
		if (memcmp(ff, e.meta, sizeof ff)) given[hash_bytes(e.meta, sizeof e.meta)].insert(e.page);
		pushed_since++;
		check_entry(j(), e, name);
	}
	Entry mk(uint32_t id, bool data, bool meta) {
		Entry e;
		memset(&e, 0, sizeof e);
		e.data = data;
		if (data) { fill_content(buf, sim.psz(), id, id % 7 == 0 ? 1 : id % 11 == 0 ? 3 : 0); e.hash = hash_bytes(buf, sim.psz()); }
		if (meta) { Rng r(id * 977 + 5); for (auto &b : e.meta) b = r.next() >> 20; }
		else memset(e.meta, 0xff, sizeof e.meta);
		return e;
	}
	void set_cookie(uint32_t v) { memcpy(cookie, &v, 4); memcpy(dhara_journal_cookie(j()), &v, 4); }

	// upper bound on what must be free for a refusal to be wrong
	bool may_be_full() {
		if (loose) return true;
		uint64_t upb = sim.ppb() - (sim.ppb() >> sim.log2_ppc);
		uint64_t good = sim.n.num_blocks - sim.bad_marked();
		// pages dequeued but not checkpointed still occupy their place
		return occupied() + upb + (upb == 1) >= good * upb;
	}
	// blocks that may still be opened (no-failure margin for C17)
	uint32_t free_blocks() {
		uint32_t b = j()->head >> sim.n.log2_ppb, t = j()->tail_sync >> sim.n.log2_ppb, k = 0;
		if (b == t) { for (auto &x : sim.blk) k += !x.marked; return k - 1; }
		for (b = (b + 1) % sim.n.num_blocks; b != t; b = (b + 1) % sim.n.num_blocks) k += !sim.blk[b].marked;
		return k;
	}

	// with cfg nullerr, half of the calls pass no error pointer
	bool nullerr = false, omitted = false;
	dhara_error_t *ep(dhara_error_t *e) { omitted = nullerr && (mix64(sim.muts, q.size()) & 1); return omitted ? NULL : e; }
	int noerr(int rc, dhara_error_t *e) {
		if (rc < 0 && omitted) *e = dhara_journal_in_recovery(j()) || !may_be_full() ? DHARA_E_RECOVER : DHARA_E_JOURNAL_FULL;
		return rc;
	}

	void recover(uint32_t seed) {
		Rng r(seed);
		int restarts = 0, rewinds = r.chance(30) ? 1 : 0, clears = r.chance(8);
		bool cleared = false;
		st.add("recoveries");
		bool drop = r.chance(30);
		std::vector<uint32_t> seq;
		bool have = false, restarted = false;
		uint32_t want_start = 0, want_end = 0;
		uint32_t guard = 0;
		while (dhara_journal_in_recovery(j())) {
			if (++guard > 64 * sim.ppb() + 1000) viol("recovery does not end");
			budget();
			if (rewinds && r.chance(4)) {
				rewinds--;
				dhara_journal_rewind_recovery(j());
				if (have) { seq.clear(); st.add("rewinds"); }
			}
			if (clears && r.chance(5)) { clears = 0; cleared = true; clear(); st.add("clears_in_recovery"); }
			uint32_t root = dhara_journal_root(j());
			uint32_t p = dhara_journal_next_recoverable(j());
			dhara_error_t e = DHARA_E_NONE;
			int rc;
			if (cleared && p != DHARA_PAGE_NONE) viol("recovery hands out page %u after a clear", p);
			if (cleared) have = false;
			if (p == DHARA_PAGE_NONE) {
				if (have && seq.empty()) viol("recovery hands out no page");
				if (have && seq.back() != want_end) viol("recovery ends at page %u, expected %u", seq.empty() ? 0 : seq.back(), want_end);
				inflight.valid = false;
				rc = noerr(dhara_journal_enqueue(j(), NULL, NULL, ep(&e)), &e);
				if (rc == 0) { Entry f = mk(0, false, false); pushed(f, "padding in recovery"); }
			} else {
				if (!have) { // first page after the failure
					want_end = root;
					want_start = root & ~(sim.ppb() - 1);
					have = true;
					if (log) log->push_back(sfmt("recovery of block %u, pages up to %u", want_start >> sim.n.log2_ppb, want_end));
				}
				if (restarted && root != want_end) viol("recovery starts again with root %d, expected %u", (int)root, want_end);
				restarted = false;
				uint32_t expect = seq.empty() ? want_start : seq.back() + 1;
				if (sim.is_cp(expect)) expect++;
				if (p != expect) viol("recovery hands out page %u, expected %u", p, expect);
				if (!seq.empty() && seq.back() == want_end) viol("recovery hands out page %u after the last one, %u", p, want_end);
				seq.push_back(p);
				uint8_t m[DHARA_META_SIZE];
				if (!rec[p].known) { // lost in an unclean restart, or the dump
					if (!loose) viol("recovery hands out page %u, which was never queued", p);
					continue;
				}
				Entry old = rec[p].e;
				check_entry(j(), old, "recovery");
				if (dhara_journal_read_meta(j(), p, m, &e) < 0) viol("recovery: metadata of page %u can't be read", p);
				if (drop && r.chance(40)) { st.add("dropped_in_recovery"); continue; }
				rc = noerr(dhara_journal_copy(j(), p, m, ep(&e)), &e);
				if (rc == 0) { Entry f = old; memcpy(f.meta, m, sizeof m); pushed(f, "copy in recovery"); st.add("recovered_pages"); }
			}
			after("recovery");
			if (rc < 0) {
				if (e != DHARA_E_RECOVER) viol("recovery fails: error %d", (int)e);
				if (++restarts > DHARA_MAX_RETRIES) viol("recovery restarts too often");
				st.add("recovery_restarts");
				seq.clear();
				restarted = have;
			}
		}
		if (have && (seq.empty() || seq.back() != want_end)) viol("recovery ends before page %u", want_end);
		loose = true; // dumped metadata occupies a page
		for (uint32_t b = 0; b < sim.n.num_blocks; b++)
			if (sim.blk[b].failed != sim.blk[b].marked) viol("after recovery block %u, which %s, is %s", b, sim.blk[b].failed ? "failed" : "did not fail", sim.blk[b].marked ? "marked bad" : "not marked bad");
		check_all("after recovery");
		note_clean();
	}

	void clear() {
		uint64_t mu = sim.muts;
		dhara_journal_clear(j());
		if (sim.muts != mu) viol("clear modifies the chip");
		cleared_since = true;
		q.clear();
		// metadata of the incomplete group is forgotten
		for (uint32_t p = 0; p < rec.size(); p++)
			if (rec[p].known && (p >> sim.log2_ppc) == (j()->head >> sim.log2_ppc)) memset(rec[p].e.meta, 0xff, DHARA_META_SIZE);
		if (dhara_journal_root(j()) != DHARA_PAGE_NONE) viol("clear leaves a root");
		if (dhara_journal_peek(j()) != DHARA_PAGE_NONE) viol("clear leaves a page in the queue");
		if (dhara_journal_is_clean(j())) viol("clear leaves the journal clean");
		st.add("clears");
	}
	// returns false if refused (full)
	bool push(const Entry &tmpl, const uint8_t *data, uint32_t src, const uint8_t *meta, const char *name) {
		for (int i = 0; i < DHARA_MAX_RETRIES; i++) {
			budget();
			dhara_error_t e = DHARA_E_NONE;
			inflight.q = q;
			inflight.q.push_back(tmpl);
			inflight.q.back().page = DHARA_PAGE_NONE;
			inflight.valid = true;
			memcpy(inflight.cookie, cookie, 4);
			int rc = noerr(data || src == DHARA_PAGE_NONE ? dhara_journal_enqueue(j(), data, meta, ep(&e)) : dhara_journal_copy(j(), src, meta, ep(&e)), &e);
			inflight.valid = false;
			after(name);
			if (rc == 0) { refused = 0; pushed(tmpl, name); note_clean(); st.add("pushes"); return true; }
			if (e == DHARA_E_RECOVER && faults) { recover(cs.get("rseed") + (uint32_t)sim.muts); if (src != DHARA_PAGE_NONE && !data) { bool f = false; for (auto &x : q) f |= x.page == src; if (!f) return true; } continue; }
			if (e == DHARA_E_JOURNAL_FULL) {
				st.add("full");
				if (!may_be_full()) viol("%s refused as full with %zu pages queued and %zu dequeued since the last checkpoint, on %u good blocks", name, q.size(), deq_since, sim.n.num_blocks - sim.bad_marked());
				check_all("after refusal");
				refused++;
				return false;
			}
			viol("%s fails: error %d", name, (int)e);
		}
		viol("%s: too many recoveries", name);
	}
	// a page that holds nothing from the queue must not pass for another page
	void foreign_meta(uint32_t p) {
		uint8_t m[DHARA_META_SIZE];
		dhara_error_t err;
		if (dhara_journal_read_meta(j(), p, m, &err) < 0) return;
		auto f = given.find(hash_bytes(m, sizeof m));
		if (f == given.end()) return;
		st.add("skipped_with_metadata");
		if (!f->second.count(p)) viol("page %u, which holds nothing, carries the metadata of page %u", p, *f->second.begin());
	}
	void dequeue(uint32_t count) {
		uint64_t mu = sim.muts;
		for (uint32_t k = 0; k < count; k++) {
			budget();
			uint32_t p = dhara_journal_peek(j());
			after("peek");
			if (p == DHARA_PAGE_NONE) {
				if (!q.empty()) viol("peek finds nothing, but %zu pages are queued", q.size());
				if (k && dhara_journal_root(j()) != DHARA_PAGE_NONE) viol("a journal emptied by dequeuing still has a root");
				uint32_t sz = dhara_journal_size(j());
				bool cl = dhara_journal_is_clean(j());
				dhara_journal_dequeue(j());
				if (dhara_journal_size(j()) != sz || dhara_journal_is_clean(j()) != cl || dhara_journal_peek(j()) != DHARA_PAGE_NONE || dhara_journal_root(j()) != DHARA_PAGE_NONE) viol("dequeuing from an empty journal changes it");
				st.add("dequeued_empty");
				break;
			}
			if (sim.muts != mu) viol("peek modifies the chip");
			if (!q.empty() && p == q.front().page) {
				check_entry(j(), q.front(), "dequeue");
				q.pop_front();
				deq_clean += dhara_journal_is_clean(j());
				st.add("dequeued");
			} else {
				for (auto &e : q) if (e.page == p) viol("peek gives page %u before page %u, which was queued earlier", p, q.front().page);
				if (!loose) viol("peek gives page %u, which was not queued", p);
				foreign_meta(p);
				st.add("skipped_pages");
			}
			dhara_journal_dequeue(j());
			deq_since++;

			if (!q.empty()) { if (dhara_journal_root(j()) != q.back().page) viol("dequeue: the root is page %d, expected %u", (int)dhara_journal_root(j()), q.back().page); }
		}
	}
	void do_sync() {
		int guard = 0;
		while (!dhara_journal_is_clean(j())) {
			if (++guard > 2 * (1 << sim.log2_ppc) + 2 && !faults) viol("padding does not reach a checkpoint");
			Entry e = mk(0, false, false);
			if (!push(e, NULL, DHARA_PAGE_NONE, NULL, "padding")) return;
		}
	}
	// pages from tail to root of a freshly resumed journal
	void drain(struct dhara_journal *jj, std::vector<uint32_t> &out) {
		uint32_t root = dhara_journal_root(jj);
		out.clear();
		if (root == DHARA_PAGE_NONE) return;
		for (uint32_t k = 0; k <= sim.npages() + 8; k++) {
			budget();
			uint32_t p = dhara_journal_peek(jj);
			if (p == DHARA_PAGE_NONE) return;
			out.push_back(p);
			if (p == root) return;
			dhara_journal_dequeue(jj);
		}
		viol("draining a resumed journal does not reach its root");
	}
	bool same_tail(const std::vector<uint32_t> &got, const State &s, size_t maxskip, size_t *skip, bool newlast) {
		// known pages of got == s.q minus up to maxskip from the front
		std::vector<uint32_t> want, g;
		for (auto &e : s.q) want.push_back(e.page);
		for (auto p : got) {
			bool isq = false;
			for (auto w : want) isq |= w == p;
			if (isq) g.push_back(p);
			else if (newlast && p == got.back()) g.push_back(DHARA_PAGE_NONE);
			else if (!loose) return false;
		}
		for (size_t k = 0; k <= std::min(maxskip, want.size()); k++)
			if (g == std::vector<uint32_t>(want.begin() + k, want.end())) { *skip = k; return true; }
		return false;
	}
	void resume(bool sync) {
		bool wasclean = dhara_journal_is_clean(j());
		uint64_t mu = sim.muts;
		(void)wasclean;
		if (!sync || mix64(sim.muts, 77) % 4) in.reset(new JInst(&sim)); // or in place
		dhara_error_t e = DHARA_E_NONE;
		sim.budget = 400LL * sim.npages() + 200000;
		int rc = dhara_journal_resume(in->j, &e);
		if (sim.muts != mu) viol("resume modifies the chip");
		std::vector<uint32_t> got;
		{
			JInst t(&sim);
			sim.budget = 400LL * sim.npages() + 200000;
			int rc2 = dhara_journal_resume(t.j, &e);
			if (rc2 != rc) viol("resuming twice gives different results");
			if (rc == 0) drain(t.j, got);
		}
		State ex = clean;
		bool first = !clean.valid;
		size_t skip = 0;
		bool ok;
		if (rc < 0) {
			ok = first;
			if (!ok) viol("resume fails: error %d", (int)e);
			q.clear();
			for (auto &r : rec) r.known = false;
			memset(cookie, 0xff, 4);
			loose = false;
			clean = State();
			deq_since = 0; deq_clean = pushed_since = 0; cleared_since = false;
			return;
		}
		// which state is it?
		const State *s = nullptr;
		// a later dequeue, made while the queue was clean, may have let
		// its block be reused
		if (clean.valid && dhara_journal_root(j()) == clean.root && same_tail(got, clean, deq_clean, &skip, false)) s = &clean;
		else if (!sync && inflight.valid && !(clean.valid && dhara_journal_root(j()) == clean.root) && same_tail(got, inflight, 0, &skip, true)) { s = &inflight; st.add("inflight_completed"); }
		if (!s && log) { std::string t; for (auto p : got) t += sfmt(" %u%s", p, rec[p].known ? "" : "?"); log->push_back("restarted queue:" + t); t = ""; for (auto &e : clean.q) t += sfmt(" %u", e.page); log->push_back(sfmt("model root %u (deq %zu):", clean.root, deq_since) + t); t = ""; for (auto &e : inflight.q) t += sfmt(" %u", e.page); log->push_back("in flight:" + t); }
		if (!s) viol("%s: the queue (%zu pages) is not the one at the last checkpoint (%zu pages)", sync ? "restart" : "power cut and restart", got.size(), clean.q.size());
		State n = *s;
		if (log) { std::string t; for (auto p : got) t += sfmt(" %u", p); log->push_back("restarted queue:" + t); t = ""; for (auto &e : s->q) t += sfmt(" %u", e.page); log->push_back(sfmt("model (skip %zu):", skip) + t); }
		uint32_t root = dhara_journal_root(j());
		if (!n.q.empty() && n.q.back().page == DHARA_PAGE_NONE) n.q.back().page = root;
		if (memcmp(dhara_journal_cookie(j()), n.cookie, 4)) viol("restart: the cookie is not the one stored with the checkpoint");
		// pages dequeued while the journal was clean may have been reused
		if (s == &clean && deq_clean > skip) {
			for (size_t k = skip; k < deq_clean && k < n.q.size(); k++) {
				rec[n.q[k].page].known = false;
				loose = true;
			}
			skip = std::max<size_t>(skip, std::min<size_t>(deq_clean, n.q.size()));
		}
		for (size_t k = 0; k < skip; k++) n.q.pop_front();
		if (!n.q.empty() && root != n.q.back().page) viol("restart: the root is page %u, expected %u", root, n.q.back().page);
		if (!sync) {
			if (q.size() != n.q.size()) st.add("rollbacks");
			loose = true;
			for (uint32_t p = 0; p < rec.size(); p++) if (rec[p].known) {
				// pages not checkpointed are lost
				bool keep = false;
				for (auto &x : n.q) keep |= x.page == p;
				if (!keep && !older(p, root)) rec[p].known = false;
			}
		}
		q = n.q;
		for (auto &x : q) { rec[x.page].known = true; rec[x.page].e = x; }
		memcpy(cookie, n.cookie, 4);
		clean = State();
		clean.q = q; clean.valid = true; clean.root = root; memcpy(clean.cookie, cookie, 4);
		deq_since = 0; deq_clean = pushed_since = 0; cleared_since = false;
		inflight.valid = false;
		check_all("after restart");
		st.add(sync ? "clean_restarts" : "unclean_restarts");
	}
	// is p in an earlier group of the same block, or in another block?
	bool older(uint32_t p, uint32_t root) { return (p >> sim.n.log2_ppb) == (root >> sim.n.log2_ppb) && p <= root; }

	void run() {
		for (size_t i = 0; i < cs.ops.size(); i++) {
			const Op &o = cs.ops[i];
			if (log) log->push_back(sfmt("== op %zu: %c %u %u  [head %u tail %u tail_sync %u root %d queued %zu]", i, o.k, o.a, o.b, j()->head, j()->tail, j()->tail_sync, (int)j()->root, q.size()));
			uint64_t mu = sim.muts;
			try {
				switch (o.k) {
				case 'e': case 'n': case 'k': {
					if (faults && free_blocks() < 4 + 2 * (uint32_t)cs.get("maxbad")) {
						dequeue(sim.ppb());
						do_sync();
						break;
					}
					set_cookie(o.b);
					if (o.k == 'e') { Entry e = mk(o.a, true, o.c != 1); push(e, buf, DHARA_PAGE_NONE, o.c != 1 ? e.meta : NULL, "enqueue"); }
					else if (o.k == 'n') { Entry e = mk(o.a, false, o.c == 1); push(e, NULL, DHARA_PAGE_NONE, o.c == 1 ? e.meta : NULL, "enqueue of no data"); }
					else {
						if (q.empty()) break;
						Entry src = q[o.a % q.size()];
						if (!src.data) break;
						Entry e = mk(o.b, false, true);
						e.data = true; e.hash = src.hash;
						push(e, NULL, src.page, e.meta, "copy");
						st.add("copies");
					}
					break;
				}
				case 'd':
					dequeue(o.a);
					if (sim.muts != mu) viol("dequeue modifies the chip");
					break;
				case 'x':
					clear();
					break;
				case 's': do_sync(); break;
				case 'R': do_sync(); if (dhara_journal_is_clean(j())) resume(true); break;
				case 'U': inflight.valid = false; resume(false); break;
				case 'v': check_all("full check"); break;
				case 'F': sim.fails.push_back({(int64_t)o.a, (int)(o.b % FE_MAX)}); break;
				case 'J': sim.fails.push_back({(int64_t)o.a, (int)(o.b % FE_MAX), 1 + (int)(o.c % 8), true}); break; // consecutive erases
				case 'C': sim.cut_left = o.a; sim.cut_var = o.b % 4; sim.cut_seed = o.c; break;
				}
				// full without a checkpoint in reach: only a restart helps
				if (refused > 2 && !dhara_journal_is_clean(j())) { inflight.valid = false; refused = 0; st.add("stuck_full"); resume(false); }
			} catch (PowerCut &) {
				st.add("cuts");
				sim.fails.clear();
				sim.cut_left = -1;
				if (log) log->push_back("-- power cut --");
				resume(false);
			}
		}
		// drain
		check_all("end");
	}
};
} // namespace

int run_journal(const Case &c, Stats &st, std::vector<std::string> *log)
{
	JW w(c, st);
	w.log = log;
	w.sim.log = log;
	w.run();
	st.add("block_failures", w.sim.nfailed);
	uint32_t hi = 0;
	for (auto &b : w.sim.blk) hi = std::max(hi, b.erases);
	st.mx("max_passes", hi);
	if (c.prop == "C17") st.n["nontrivial"] = st.n["recoveries"] > 0;
	else st.n["nontrivial"] = hi >= 2 || st.n["full"] || st.n["unclean_restarts"];
	return 0;
}
