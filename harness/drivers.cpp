// What one generated case means for each property.
#include "world.h"
#include "gen.h"
#include "big.h"

int run_journal(const Case &c, Stats &st, std::vector<std::string> *log); // jworld.cpp
void run_c15(const Case &c, Stats &st, std::vector<std::string> *log);    // format.cpp
void run_c23(const Case &c, Stats &st, std::vector<std::string> *log);
void run_e09(const Case &c, Stats &st, std::vector<std::string> *log) __attribute__((weak));    // eccnand.cpp
void run_eccmem(const Case &c, Stats &st) __attribute__((weak)); // eccmem.cpp

static void setlog(World &w, std::vector<std::string> *log, const char *name = nullptr)
{
	w.log = log;
	w.sim.log = log;
	if (log && name) log->push_back(sfmt("#### %s", name));
}

// A copy of the world whose instance was restarted on a copy of the chip.
static std::unique_ptr<World> restarted(const World &a, Stats *st)
{
	std::unique_ptr<World> b(new World(a.cs, st));
	b->sim.copy_state_from(a.sim);
	b->sim.wear = a.sim.wear;
	b->cur = a.cur; b->count = a.count;
	b->base = a.base; b->basecount = a.basecount; b->deltas = a.deltas;
	b->known = a.known;
	b->vr = a.vr;
	b->in.reset(new Inst(&b->sim, b->gc));
	dhara_error_t e = DHARA_E_NONE;
	int rc = b->in->resume(&e);
	if (b->sim.muts) viol("resume modifies the chip");
	dhara_error_t e2;
	if (dhara_map_sync(b->in->m, &e2) < 0) viol("sync after a restart from a synchronised chip fails: error %d", (int)e2);
	if (b->sim.muts) viol("sync after a restart from a synchronised chip modifies the chip");
	if (rc < 0 && b->count) viol("resume after sync fails: error %d with %u sectors stored", (int)e, b->count);
	return b;
}

static void same_result(const World &a, const World &b, const Op &o, const char *what, bool full = true)
{
	if (a.last_skipped != b.last_skipped || a.last_rc != b.last_rc || (full && a.last_rc && a.last_err != b.last_err))
		viol("%s: operation '%c' gives %d/%d, expected %d/%d", what, o.k, b.last_rc, (int)b.last_err, a.last_rc, (int)a.last_err);
	if (dhara_map_size(a.in->m) != dhara_map_size(b.in->m))
		viol("%s: size after operation '%c' is %u, expected %u", what, o.k, dhara_map_size(b.in->m), dhara_map_size(a.in->m));
}

static void run_c04(const Case &c, Stats &st, std::vector<std::string> *log)
{
	std::unique_ptr<World> a(new World(c, &st));
	setlog(*a, log);
	for (size_t i = 0; i < c.ops.size(); i++) {
		const Op &o = c.ops[i];
		if (o.k != 'L') { a->exec(o); continue; }
		Op s{'s', 0, 0, 0};
		a->exec(s);
		if (a->last_rc < 0) viol("sync fails: error %d", (int)a->last_err);
		st.add("restarts");
		if (a->in->m->journal.epoch != 0) st.add("restarts_after_wrap");
		if (log) log->push_back("#### restart on a copy");
		std::unique_ptr<World> b = restarted(*a, &st);
		if (dhara_map_size(b->in->m) != a->count) viol("resume gives size %u, expected %u", dhara_map_size(b->in->m), a->count);
		// some continuations without looking first, so that reads cannot help
		if (o.b & 1) b->verify_all("after restart");
		std::unique_ptr<World> d;
		if (o.b & 2) {
			d = restarted(*b, &st); // twice gives the same as once
			if (o.b & 1) d->verify_all("after second restart");
		}
		if (dhara_map_capacity(b->in->m) != dhara_map_capacity(a->in->m))
			viol("resume gives capacity %u, expected %u", dhara_map_capacity(b->in->m), dhara_map_capacity(a->in->m));
		// lock-step continuation
		size_t n = 0;
		b->log = log; b->sim.log = log;
		for (size_t k = i + 1; k < c.ops.size() && n < o.a; k++) {
			const Op &x = c.ops[k];
			if (x.k == 'L') continue;
			if (strchr("FJCEU", x.k)) continue;
			if (log) log->push_back("## original");
			a->exec(x);
			if (log) log->push_back("## restarted");
			b->exec(x);
			same_result(*a, *b, x, "continuation after restart");
			if (d) { d->exec(x); same_result(*a, *d, x, "continuation after second restart"); }
			n++;
			st.add("lockstep_ops");
			i = k;
		}
		a->verify_all("original instance");
		b->verify_all("restarted instance");
		if (d) d->verify_all("twice restarted instance");
		if (o.c & 1) { a = std::move(b); setlog(*a, log); } // go on with the restarted one
	}
}

static void run_c08(const Case &c, Stats &st, std::vector<std::string> *log)
{
	World w(c, &st);
	setlog(w, log);
	w.sim.wear = true;
	w.run_all();
	uint32_t hi = 0;
	for (auto &b : w.sim.blk) hi = std::max(hi, b.erases);
	st.mx("max_erases", hi);
	if (hi >= 2) st.n["nontrivial"] = 1;
}

static void run_c09(const Case &c, Stats &st, std::vector<std::string> *log)
{
	World w(c, &st);
	setlog(w, log);
	const int64_t upb = w.sim.ppb() - (w.sim.ppb() >> w.sim.log2_ppc);
	for (auto &o : c.ops) {
		w.exec(o);
		int64_t cap = dhara_map_capacity(w.in->m);
		int64_t phys = ((int64_t)w.sim.n.num_blocks - w.sim.bad_marked()) * upb;
		if (cap > phys) viol("capacity %lld exceeds the %lld data pages in good blocks", (long long)cap, (long long)phys);
		if ((int64_t)dhara_map_size(w.in->m) > phys) viol("size exceeds the chip");
		// the documented share of the journal, less a margin of eight blocks
		int64_t nb = w.sim.n.num_blocks, R = std::max<int64_t>(w.gc, 1), most = (nb - 1) * upb;
		int64_t least = (nb - std::max<int64_t>(w.sim.bad_total(), nb >> 6) - 1) * upb;
		most = std::max<int64_t>(0, most * R / (R + 1) + 1 - 8 * w.sim.ppb());
		if (cap > most) viol("capacity is %lld, but the share of %lld/%lld of the journal less eight blocks is only %lld", (long long)cap, (long long)R, (long long)(R + 1), (long long)most);
		least = least * R / (R + 1) - 8 * w.sim.ppb() - 1;
		if (cap < least) viol("capacity is %lld, expected at least %lld with %d of %lld blocks bad", (long long)cap, (long long)least, w.sim.bad_total(), (long long)nb);
		if (w.count >= cap) st.add("ops_at_capacity");
	}
	if (st.n["map_full"] > 0) st.n["nontrivial"] = 1;
}

static void run_c11(const Case &c, Stats &st, std::vector<std::string> *log)
{
	World w(c, &st);
	setlog(w, log);
	w.verify_every = false;
	const uint64_t R = w.gc ? w.gc : 1;
	const uint64_t upb = w.sim.ppb() - (w.sim.ppb() >> w.sim.log2_ppc);
	const uint64_t one = 36;                    // one lookup: root + 32 bits + source + copy
	for (auto &o : c.ops) {
		if (o.k == 'q' && !w.sec.empty()) {
			int i = o.a % w.sec.size();
			dhara_page_t p;
			dhara_error_t e;
			uint64_t r0 = w.sim.c.reads, m0 = w.sim.muts, b0 = w.sim.c.read_bytes;
			dhara_map_find(w.in->m, w.sec[i], &p, &e);
			uint64_t r = w.sim.c.reads - r0;
			if (r > 33) viol("find makes %llu metadata reads", (unsigned long long)r);
			if (w.sim.c.read_bytes - b0 > 33 * 132) viol("find reads %llu bytes", (unsigned long long)(w.sim.c.read_bytes - b0));
			st.mx("max_find_reads", r);
			r0 = w.sim.c.reads;
			dhara_map_read(w.in->m, w.sec[i], w.rbuf, &e);
			r = w.sim.c.reads - r0;
			if (r > 34) viol("read makes %llu NAND reads", (unsigned long long)r);
			if (w.sim.muts != m0) viol("a query modifies the chip");
			st.add("lookups");
			continue;
		}
		if (o.k == 'R') {
			w.do_sync();
			if (w.last_rc < 0) viol("sync fails");
			w.synced();
			w.in.reset(new Inst(&w.sim, w.gc));
			Counts c0 = w.sim.c;
			dhara_error_t e;
			int rc = w.in->resume(&e);
			if (rc < 0 && w.count) viol("resume after sync fails: error %d", (int)e);
			uint64_t r = w.sim.c.reads - c0.reads, f = w.sim.c.is_free - c0.is_free;
			int lg = 0;
			while ((1u << lg) < w.sim.n.num_blocks) lg++;
			// each step of the search looks at up to two runs of up to 8 blocks
			uint64_t bound = 16 * (lg + 2) + w.sim.ppb();
			if (r > bound) viol("resume makes %llu page reads on %u blocks (bound %llu)", (unsigned long long)r, w.sim.n.num_blocks, (unsigned long long)bound);
			uint64_t fb = 4 * w.sim.ppb() + 8;
			if (f > fb) viol("resume makes %llu erased-page queries (bound %llu)", (unsigned long long)f, (unsigned long long)fb);
			st.mx("max_resume_reads", r);
			st.mx("max_blocks", w.sim.n.num_blocks);
			st.add("resumes");
			continue;
		}
		Counts c0 = w.sim.c;
		uint32_t nb0 = w.sim.bad_marked();
		w.exec(o);
		if (strchr("wtcp", o.k) && !w.last_skipped) {
			uint64_t progs = w.sim.c.progs - c0.progs, reads = w.sim.c.reads - c0.reads, er = w.sim.c.erases - c0.erases;
			(void)nb0;
			// one new page plus (R+1) collected ones, twice for a copy of an
			// unmapped sector; every page may complete a checkpoint
			uint64_t pages = R + 2;
			if (progs > 2 * pages) viol("'%c' programs %llu pages (gc ratio %llu)", o.k, (unsigned long long)progs, (unsigned long long)R);
			if (reads > one * (pages + 2)) viol("'%c' makes %llu reads (gc ratio %llu)", o.k, (unsigned long long)reads, (unsigned long long)R);
			if (er > pages / upb + 2) viol("'%c' erases %llu blocks", o.k, (unsigned long long)er);
			st.mx("max_write_progs", progs);
			st.mx("max_write_reads", reads);
			if (progs > 2) st.add("ops_with_gc");
		}
		if (o.k == 'g' && o.a) {
			uint64_t progs = w.sim.c.progs - c0.progs;
			if (progs > 2 * o.a) viol("%u gc steps program %llu pages", o.a, (unsigned long long)progs);
		}
	}
	w.verify_all("end");
	st.n["nontrivial"] = st.n["ops_with_gc"] > 0 || st.n["resumes"] > 0;
}

static void run_c14(const Case &c, Stats &st, std::vector<std::string> *log)
{
	World a(c, &st), b(c, &st);
	setlog(b, log);
	uint64_t inserted = 0;
	for (auto &o : c.ops) {
		if (o.k == 'g') { b.exec(o); inserted += o.a; continue; } // only in b
		if (o.k == 'z') { // collect everything
			if (!b.count) continue;
			dhara_error_t e;
			Op s{'s', 0, 0, 0};
			a.exec(s); b.exec(s);
			uint32_t pages = dhara_journal_size(&b.in->m->journal);
			uint32_t steps = pages + 4 * b.sim.ppb();
			for (uint32_t k = 0; k < steps; k++)
				if (dhara_map_gc(b.in->m, &e) < 0) viol("gc fails: error %d", (int)e);
			b.exec(s);
			inserted += steps;
			uint32_t sz = dhara_journal_size(&b.in->m->journal);
			// live pages, padding of incomplete groups, and the pages of any
			// bad blocks in between
			uint32_t upb = b.sim.ppb() - (b.sim.ppb() >> b.sim.log2_ppc);
			uint32_t bound = b.count + (2u << b.sim.log2_ppc) + (b.sim.bad_marked() + 1) * upb;
			if (sz > bound) viol("after %u gc steps and sync the journal still occupies %u pages for %u sectors", steps, sz, b.count);
			b.verify_all("after collecting everything");
			st.add("full_collections");
			continue;
		}
		a.exec(o);
		b.exec(o);
		same_result(a, b, o, "with inserted garbage collection");
	}
	a.verify_all("end");
	b.verify_all("end, with garbage collection");
	st.add("inserted_gc", inserted);
	st.n["nontrivial"] = inserted > 0;
}

static void run_c18(const Case &c, Stats &st, std::vector<std::string> *log)
{
	// The second case is derived from this one; each world has its own chip.
	Case d = gen_case(c.prop, (uint64_t)c.get("seed2"), (uint64_t)c.get("idx2"), false);
	uint64_t t1, t2, t3;
	{ World w(c, &st); w.sim.tracing = true; w.run_all(); t1 = w.sim.trace; }
	Inst::fill ^= 0xff; // nor does it depend on what the instance's memory held before
	{ World w(c, &st); w.sim.tracing = true; setlog(w, log); w.run_all(); t3 = w.sim.trace; }
	if (t1 != t3) viol("the same history on the same chip gives different NAND operations the second time");
	Inst::fill ^= 0xff;
	{ World w(d, &st); w.sim.tracing = true; w.run_all(); t2 = w.sim.trace; }
	World a(c, &st), b(d, &st);
	a.sim.tracing = b.sim.tracing = true;
	Rng r(c.get("iseed"));
	size_t i = 0, j = 0;
	uint64_t switches = 0;
	bool lasta = true;
	while (i < c.ops.size() || j < d.ops.size()) {
		bool ta = j >= d.ops.size() || (i < c.ops.size() && r.chance(50));
		if (ta != lasta) switches++;
		lasta = ta;
		if (ta) a.exec(c.ops[i++]);
		else b.exec(d.ops[j++]);
	}
	if (a.sim.trace != t1) viol("interleaving with another instance changes the NAND operations of the first");
	if (b.sim.trace != t2) viol("interleaving with another instance changes the NAND operations of the second");
	st.add("switches", switches);
	st.n["nontrivial"] = switches > 5;
}

static void run_c19(const Case &c, Stats &st, std::vector<std::string> *log)
{
	World a(c, &st), b(c, &st);
	setlog(b, log);
	a.verify_every = false;
	a.sim.tracing = b.sim.tracing = true;
	Rng r(c.get("iseed"));
	for (auto &o : c.ops) {
		if (o.k == 'q' || o.k == 'v') { b.exec(o); st.add("inserted_queries"); continue; }
		a.exec(o);
		b.exec(o);
		same_result(a, b, o, "with inserted queries");
		if (a.sim.mtrace != b.sim.mtrace) viol("inserted queries change the NAND mutations of operation '%c'", o.k);
	}
	a.verify_all("end");
	b.verify_all("end");
	st.n["nontrivial"] = st.n["inserted_queries"] > 0;
}

// A chip on which more blocks fail than can be tolerated.
static void run_c22(const Case &c, Stats &st, std::vector<std::string> *log)
{
	World w(c, &st);
	setlog(w, log);
	Rng r(c.get("xseed"));
	size_t i = 0;
	const uint32_t U = w.sec.size();
	Op last{};
	int before = 0;
	for (; i < c.ops.size() && !w.eol; i++) { last = c.ops[i]; before = w.sim.nfailed; w.exec(last); }
	// A block that fails when no other can take its place leaves the
	// operations since the last checkpoint unreadable until the next start.
	bool intact = before == w.sim.nfailed && !dhara_journal_in_recovery(&w.in->m->journal);
	st.add(intact ? "eol_intact" : "eol_during_relocation");
	st.add("block_failures", w.sim.nfailed);
	if (!w.eol || w.beyond) { st.n["nontrivial"] = 0; return; }
	st.add(sfmt("eol_%s", dhara_strerror(w.last_err)).c_str());
	int idx = last.k == 'w' || last.k == 't' ? (int)(last.a % U) : last.k == 'c' || last.k == 'p' ? (int)(last.b % U) : -1;
	// every sector but the one being written is untouched, that one is old or new
	w.sim.fails.clear();
	w.eol = false;
	auto settle = [&](int k, Delta d, const char *when) {
		w.sim.budget = -1;
		dhara_page_t p;
		dhara_error_t e = DHARA_E_NONE;
		uint64_t h = 0;
		if (k >= 0) {
			if (dhara_map_find(w.in->m, w.sec[k], &p, &e) == 0) h = hash_bytes(w.sim.page(p), w.sim.psz());
			else if (e != DHARA_E_NOT_FOUND) viol("%s: find fails: error %d", when, (int)e);
			if (h != w.cur[k]) {
				if (h != d.v) viol("%s: %s holds neither its old nor its new content", when, w.sname(k).c_str());
				w.commit(d);
			}
		}
		for (uint32_t q = 0; q < U; q++) w.verify_one(q, when);
		uint32_t sz = dhara_map_size(w.in->m);
		if (sz != w.count) viol("%s: reported size %u, but %u sectors are mapped", when, sz, w.count);
	};
	if (intact) settle(idx, w.pending, "after an operation failed on a worn-out chip");
	w.have_pending = idx >= 0;
	if (intact && bad_run(w.sim) < 7 && c.get("tail")) { // go on, whatever it returns
		int n = c.get("tail") == 1 ? 1 : 1 + r.below(40);
		for (int k = 0; k < n; k++) {
			int x = r.below(U), kind = r.below(10);
			dhara_error_t e = DHARA_E_NONE;
			int rc;
			w.sim.budget = 400LL * w.sim.npages() + 200000;
			Delta d{-2, 0};
			if (kind < 5) { d = {x, w.content(0x30000000 + k, 0)}; if (!w.cur[x] && w.limit >= 0 && w.count >= (uint64_t)w.limit) continue; rc = dhara_map_write(w.in->m, w.sec[x], w.wbuf, &e); }
			else if (kind < 7) { d = {x, 0}; rc = dhara_map_trim(w.in->m, w.sec[x], &e); }
			else if (kind < 9) rc = dhara_map_gc(w.in->m, &e);
			else rc = dhara_map_sync(w.in->m, &e);
			w.after_call("a further operation on a worn-out chip");
			if (log) log->push_back(sfmt("== further op %d: kind %d sector %d: %d/%d", k, kind, x, rc, (int)e));
			if (rc < 0) {
				if (e != DHARA_E_TOO_BAD && e != DHARA_E_JOURNAL_FULL && e != DHARA_E_MAP_FULL) viol("operation on a worn-out chip fails with error %d", (int)e);
				settle(d.idx, d, "after a further operation failed on a worn-out chip");
				if (d.idx >= 0) { w.pending = d; w.have_pending = true; }
			} else {
				if (d.idx >= 0) w.commit(d);
				settle(-1, d, "after a further operation on a worn-out chip");
				if (kind == 9) { w.synced(); w.have_pending = false; }
				st.add("further_ops_ok");
			}
		}
	}
	st.n["nontrivial"] = 1;
	if (w.sim.k2_window(MUT_ERASE, 0)) throw Known{"K2"}; // a restart in the middle of a relocation
	if (!reachable(w.sim)) { st.add("out_of_reach"); return; }
	w.unclean_resume();
	st.add("restarts_after_eol");
}

int run_case(const Case &c, Stats &st, std::string *msg, std::vector<std::string> *log)
{
	Inst::fill = 0xa7;
	try {
		const std::string p = c.get("sub") >= 1 && c.get("sub") <= SUBPROPS ? subprops[c.get("sub") - 1] : c.prop;
		if (c.get("big")) run_big(c, st, log);
		else if (p == "C04") { run_c04(c, st, log); st.n["nontrivial"] = st.n["restarts"] > 0 && st.n["lockstep_ops"] > 0; }
		else if (p == "C08") run_c08(c, st, log);
		else if (p == "C09") run_c09(c, st, log);
		else if (p == "C11") run_c11(c, st, log);
		else if (p == "C14") run_c14(c, st, log);
		else if (p == "C16" || p == "C17") run_journal(c, st, log);
		else if (p == "C15") run_c15(c, st, log);
		else if (c.get("worn")) run_c22(c, st, log);
		else if (p == "C23") run_c23(c, st, log);
		else if (c.get("eccmem")) run_eccmem(c, st);
		else if (p == "E09") run_e09(c, st, log);
		else if (p == "C18") run_c18(c, st, log);
		else if (p == "C19") run_c19(c, st, log);
		else {
			World w(c, &st);
			setlog(w, log);
			w.run_all();
			st.add("block_failures", w.sim.nfailed);
			st.mx("max_epochs", w.in->m->journal.epoch);
			uint32_t hi = 0;
			for (auto &b : w.sim.blk) hi = std::max(hi, b.erases);
			st.mx("max_passes", hi);
			bool nt = true;
			if (p == "C01" || p == "C10") nt = hi >= 2;
			else if (p == "C02" || p == "C03" || p == "C21") nt = st.n["rollbacks"] + st.n["probes_rolled_back"] > 0;
			else if (p == "C05") nt = w.sim.nfailed > 0;
			else if (p == "C06") nt = w.sim.nfailed > 0 && st.n["rollbacks"] + st.n["probes_rolled_back"] > 0;
			else if (p == "C07") nt = hi >= 2 || w.sim.nfailed || st.n["cuts"];
			else if (p == "C12") nt = st.n["ecc_errors"] > 0;
			else if (p == "C13") nt = st.n["copies"] > 0 && hi >= 2;
			st.n["nontrivial"] = nt;
		}
		return 0;
	} catch (Known &k) { st.add(("known_" + k.id).c_str()); st.n["nontrivial"] = 1; return 0;
	} catch (Violation &v) { *msg = v.what(); }
	catch (Hang &v) { *msg = v.what(); }
	return 1;
}
