#include "world.h"
#include <sstream>

std::string Case::text() const
{
	std::ostringstream o;
	o << "prop " << prop << "\n";
	o << "cfg";
	for (auto &k : cfg) o << " " << k.first << "=" << k.second;
	o << "\nsectors";
	for (auto s : sectors) o << " " << s;
	o << "\nbad";
	for (auto s : badblocks) o << " " << s;
	o << "\n";
	for (auto &p : ops) o << "op " << p.k << " " << p.a << " " << p.b << " " << p.c << "\n";
	return o.str();
}

Case Case::parse(const std::string &t)
{
	Case c;
	std::istringstream in(t);
	std::string line;
	while (std::getline(in, line)) {
		if (line.empty() || line[0] == '#') continue;
		std::istringstream l(line);
		std::string w;
		l >> w;
		if (w == "prop") l >> c.prop;
		else if (w == "cfg") {
			while (l >> w) { auto e = w.find('='); c.cfg[w.substr(0, e)] = atoll(w.c_str() + e + 1); }
		} else if (w == "sectors") { uint32_t s; while (l >> s) c.sectors.push_back(s); }
		else if (w == "bad") { uint32_t s; while (l >> s) c.badblocks.push_back(s); }
		else if (w == "op") { Op o{}; std::string k; l >> k >> o.a >> o.b >> o.c; o.k = k[0]; c.ops.push_back(o); }
	}
	return c;
}

uint8_t Inst::fill = 0xa7;

Inst::Inst(Sim *sim, int gc) : s(sim)
{
	m = (struct dhara_map *)malloc(sizeof *m);
	memset(m, fill, sizeof *m);
	pb = (uint8_t *)malloc(sim->psz());
	memset(pb, fill ^ 0x1e, sim->psz());
	Counts b = sim->c;
	dhara_map_init(m, &sim->n, pb, gc);
	if (memcmp(&b, &sim->c, sizeof b)) viol("initialisation calls the NAND layer");
}
int Inst::resume(dhara_error_t *e)
{
	dhara_error_t x = (dhara_error_t)77; // not one of the library's
	int rc = dhara_map_resume(m, e ? &x : nullptr);
	if (rc < 0) {
		if (e && (x <= DHARA_E_NONE || x >= DHARA_E_MAX)) viol("a failing resume reports error %d", (int)x);
		if (dhara_map_size(m) || dhara_journal_size(&m->journal)) viol("a failing resume leaves size %u", dhara_map_size(m));
	}
	if (rc < 0 && e) *e = x;
	return rc;
}

Inst::~Inst() { free(m); free(pb); }

void fill_content(uint8_t *d, size_t n, uint32_t id, uint32_t kind)
{
	switch (kind) {
	case 1: memset(d, 0xff, n); return;
	case 2: memset(d, 0, n); return;
	case 5: memset(d, 0xff, n); d[id % n] = (uint8_t)(id >> 3) & 0xfe; return;
	}
	Rng r((kind == 4 ? id % 3 : id) * 0x100000001b3ULL + kind);
	for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(d + i, &v, 8); }
	if (kind == 3) { // looks like a checkpoint page
		d[0] = 'D'; d[1] = 'h'; d[2] = 'a'; d[3] = id & 3;
		memset(d + 4, 0, 12);
		d[4] = id & 31;
	} else if (kind != 4) {
		if (d[0] == 'D') d[0] = 'E';
	}
}

World::World(const Case &c, Stats *s) : cs(c), st(s), vr(c.get("vseed", 1))
{
	sim.init(c.get("lps"), c.get("lppb"), c.get("nb"), c.get("garbage", 1), c.get("gseed", 1));
	sim.imprecise = c.get("imprecise", 0);
	sim.max_bad = c.get("maxbad", 0);
	for (auto b : c.badblocks) if (b < sim.n.num_blocks) sim.blk[b].marked = sim.blk[b].factory = sim.blk[b].failed = true;
	gc = c.get("gc", 4);
	sec = c.sectors;
	cur.assign(sec.size(), 0);
	base = cur;
	wbuf = (uint8_t *)malloc(sim.psz());
	rbuf = (uint8_t *)malloc(sim.psz());
	wcopy = (uint8_t *)malloc(sim.psz());
	memset(wbuf, 0xff, sim.psz());
	ffhash = hash_bytes(wbuf, sim.psz());
	limit = c.get("limit", -1);
	probe_rate = c.get("probe", 0);
	probe_cont = c.get("pcont", 0);
	pseed = c.get("pseed", 1);
	nullerr = c.get("nullerr", 0);
	prefix = c.get("prefix", 1);
	sim.mark_kills = c.get("kills", 0);
	allow_ecc = c.get("allow_ecc", 0);
	allow_eol = c.get("allow_eol", 0);
	check_pv = c.get("check_pv", 0);
	check_mark = c.get("check_mark", 0);
	in.reset(new Inst(&sim, gc));
	dhara_error_t e;
	sim.budget = 400LL * sim.npages() + 200000;
	in->resume(&e); // blank chip
	if (dhara_map_size(in->m) != 0) viol("a blank chip resumes with size %u", dhara_map_size(in->m));
	sim.in_recovery = [this] { return in && dhara_journal_in_recovery(&in->m->journal); };
	sim.root = [this] { return in ? dhara_journal_root(&in->m->journal) : DHARA_PAGE_NONE; };
	if (probe_rate)
		sim.hook = [this](Sim &, int k, uint32_t w) { probe(k, w); };
}
World::~World() { free(wbuf); free(rbuf); free(wcopy); }

uint64_t World::content(uint32_t id, uint32_t kind)
{
	fill_content(wbuf, sim.psz(), id, kind);
	memcpy(wcopy, wbuf, sim.psz());
	uint64_t h = hash_bytes(wbuf, sim.psz());
	if (!h) h = 1;
	known[h] = id;
	return h;
}

void World::commit(Delta d)
{
	if (d.idx < 0) { std::fill(cur.begin(), cur.end(), 0); count = 0; }
	else {
		if (!cur[d.idx] && d.v) count++;
		if (cur[d.idx] && !d.v) count--;
		cur[d.idx] = d.v;
	}
	deltas.push_back(d);
}

void World::synced() { base = cur; basecount = count; deltas.clear(); }

void World::adopt(const std::vector<uint64_t> &obs)
{
	cur = obs;
	count = 0;
	for (auto v : cur) count += v != 0;
	have_pending = false;
	synced();
}

bool World::matches(const std::vector<uint64_t> &obs, std::string *why)
{
	std::vector<Delta> ds = deltas;
	if (have_pending) ds.push_back(pending);
	if (prefix) {
		std::vector<uint64_t> s = base;
		long mism = 0;
		for (size_t i = 0; i < s.size(); i++) mism += s[i] != obs[i];
		if (!mism) return true;
		long best = mism;
		for (auto &d : ds) {
			if (d.idx < 0) {
				std::fill(s.begin(), s.end(), 0);
				mism = 0;
				for (size_t i = 0; i < s.size(); i++) mism += s[i] != obs[i];
			} else {
				mism -= s[d.idx] != obs[d.idx];
				s[d.idx] = d.v;
				mism += s[d.idx] != obs[d.idx];
			}
			if (mism < best) best = mism;
			if (!mism) return true;
		}
		if (why) *why = sfmt("state matches no prefix of the %zu operations since the last sync (closest differs in %ld sectors)", ds.size(), best);
		return false;
	}
	std::vector<char> ok(sec.size(), 0);
	for (size_t i = 0; i < sec.size(); i++) ok[i] = obs[i] == base[i];
	for (auto &d : ds) {
		if (d.idx < 0) { for (size_t i = 0; i < sec.size(); i++) if (!obs[i]) ok[i] = 1; }
		else if (obs[d.idx] == d.v) ok[d.idx] = 1;
	}
	for (size_t i = 0; i < sec.size(); i++)
		if (!ok[i]) {
			if (why) *why = sfmt("%s has neither its synchronised content nor any stored since", sname(i).c_str());
			return false;
		}
	return true;
}

void World::observe(Inst &i, std::vector<uint64_t> &out, const char *when)
{
	out.assign(sec.size(), 0);
	uint32_t n = 0;
	for (size_t k = 0; k < sec.size(); k++) {
		dhara_page_t p = 0;
		dhara_error_t e = DHARA_E_NONE;
		int rc = dhara_map_find(i.m, sec[k], &p, &e);
		if (rc < 0 && e != DHARA_E_NOT_FOUND)
			viol("%s: find of %s fails: error %d", when, sname(k).c_str(), (int)e);
		bool mapped = rc == 0;
		rc = dhara_map_read(i.m, sec[k], rbuf, &e);
		if (rc < 0) viol("%s: read of %s fails: error %d", when, sname(k).c_str(), (int)e);
		uint64_t h = hash_bytes(rbuf, i.s->psz());
		if (!mapped && h != ffhash) viol("%s: unmapped %s does not read as 0xff", when, sname(k).c_str());
		if (mapped) {
			out[k] = h ? h : 1;
			n++;
			if (p >= i.s->npages()) viol("%s: find of %s gives page %u outside the chip", when, sname(k).c_str(), p);
			if (!i.s->ecc && hash_bytes(i.s->page(p), i.s->psz()) != h)
				viol("%s: the page found for %s does not hold its data", when, sname(k).c_str());
		}
	}
	uint32_t sz = dhara_map_size(i.m);
	if (sz != n) viol("%s: reported size %u, but %u sectors are mapped", when, sz, n);
}

// Armed read errors apply only to the call under test, not to our own checks.
struct Calm {
	Sim &s; int64_t l; int c; bool h;
	Calm(Sim &s_) : s(s_), l(s_.rd_left), c(s_.rd_count), h(s_.rd_hit) { s.rd_left = -1; }
	~Calm() { s.rd_left = l; s.rd_count = c; s.rd_hit = h; }
};

void World::verify_one(int k, const char *when)
{
	Calm calm(sim);
	dhara_page_t p = 0;
	dhara_error_t e = DHARA_E_NONE;
	int rc = dhara_map_find(in->m, sec[k], &p, &e);
	if (rc < 0 && e != DHARA_E_NOT_FOUND)
		viol("%s: find of %s fails: error %d", when, sname(k).c_str(), (int)e);
	if ((rc == 0) != (cur[k] != 0))
		viol("%s: %s is %s, expected %s", when, sname(k).c_str(), rc ? "unmapped" : "mapped", rc ? "mapped" : "unmapped");
	memset(rbuf, 0x3c, sim.psz());
	rc = dhara_map_read(in->m, sec[k], rbuf, &e);
	if (rc < 0) viol("%s: read of %s fails: error %d", when, sname(k).c_str(), (int)e);
	uint64_t h = hash_bytes(rbuf, sim.psz());
	uint64_t want = cur[k] ? cur[k] : ffhash;
	if (!h) h = 1;
	if (h != want) {
		auto f = known.find(h);
		viol("%s: %s reads wrong data (%s)", when, sname(k).c_str(), f == known.end() ? "never stored" : sfmt("content %u, expected %u", f->second, known[want]).c_str());
	}
	if (cur[k]) {
		if (p >= sim.npages()) viol("%s: find of %s gives page %u outside the chip", when, sname(k).c_str(), p);
		if (!sim.ecc && hash_bytes(sim.page(p), sim.psz()) != h)
			viol("%s: the page found for %s does not hold its data", when, sname(k).c_str());
	}
}

void World::verify_absent(const char *when)
{
	for (int t = 0; t < 2; t++) {
		uint32_t s = sec.empty() ? (uint32_t)vr.next() : sec[vr.below(sec.size())] ^ (1u << vr.below(32));
		if (s == DHARA_SECTOR_NONE || std::find(sec.begin(), sec.end(), s) != sec.end()) continue;
		dhara_page_t p;
		dhara_error_t e = DHARA_E_NONE;
		int rc = dhara_map_find(in->m, s, &p, &e);
		if (rc == 0 || e != DHARA_E_NOT_FOUND) viol("%s: sector 0x%x, never stored, is found (rc %d error %d)", when, s, rc, (int)e);
	}
}

void World::verify_all(const char *when)
{
	Calm calm(sim);
	sim.budget = -1;
	for (size_t k = 0; k < sec.size(); k++) verify_one(k, when);
	uint32_t sz = dhara_map_size(in->m);
	if (sz != count) viol("%s: reported size %u, but %u sectors are mapped", when, sz, count);
	verify_absent(when);
	if (st) st->add("full_verify");
}

void World::after_call(const char *name)
{
	if (check_pv && !sim.pviol.empty()) viol("during %s: %s", name, sim.pviol.c_str());
	if (sim.wear && !sim.wviol.empty()) viol("during %s: wear: %s", name, sim.wviol.c_str());
	if (check_mark && sim.pviol.find("did not fail") != std::string::npos) viol("during %s: %s", name, sim.pviol.c_str());
}

void World::classify(Sim &s, Inst &i, dhara_error_t e)
{
	// K1: garbage collection, or the relocation of a failed block, reached a
	// checkpoint page that was torn by a power cut and reads as an ECC error.
	if (allow_eol) return;
	uint32_t p = s.ecc_page;
	struct dhara_journal *j = &i.m->journal;
	if ((e == DHARA_E_ECC || nullerr) && p < s.npages() && s.pst[p] == PG_TORN && s.is_cp(p) &&
	    ((p >> s.log2_ppc) == (j->tail >> s.log2_ppc) ||
	     (dhara_journal_in_recovery(j) && (p >> s.n.log2_ppb) == (j->recover_root >> s.n.log2_ppb))))
		throw Known{"K1"};
}

void World::handle_cut()
{
	last_cut = true;
	if (st) st->add("cuts");
	sim.fails.clear();
	sim.cut_left = -1;
	sim.rd_left = -1;
	sim.k2_partial = false;
	if (log) log->push_back("-- power cut --");
	unclean_resume();
}

// Before a resume: mostly a new instance, sometimes the one we have.
void World::renew()
{
	if (mix64(pseed, sim.muts + opno) % 4) in.reset(new Inst(&sim, gc));
	else if (st) st->add("resumed_in_place");
}

void World::unclean_resume()
{
	marks_ok = false; // the cut may have come between the failure and the mark
	bool done = false;
	for (int attempt = 0; attempt < 4 && !done; attempt++) {
		if (attempt) renew(); else in.reset(new Inst(&sim, gc));
		dhara_error_t e = DHARA_E_NONE;
		uint64_t mu = sim.muts;
		sim.budget = 400LL * sim.npages() + 200000;
		int rc = in->resume(&e);
		if (sim.muts != mu) viol("resume modifies the chip");
		if (rc < 0 && dhara_map_size(in->m) != 0) viol("failed resume leaves size %u", dhara_map_size(in->m));
		done = true;
	}
	sim.budget = -1;
	std::vector<uint64_t> obs;
	observe(*in, obs, "after power cut and resume");
	std::string why;
	if (!matches(obs, &why)) viol("after power cut and resume: %s", why.c_str());
	bool rolled = obs != cur;
	adopt(obs);
	if (st && rolled) st->add("rollbacks");
	verify_absent("after power cut and resume");
	if (check_pv && !sim.pviol.empty()) viol("%s", sim.pviol.c_str());
}

// Once everything is checkpointed, every block that failed has been retired.
void World::check_marked(const char *when)
{
	if (!check_mark || !marks_ok) return;
	for (uint32_t b = 0; b < sim.n.num_blocks; b++)
		if (sim.blk[b].failed && !sim.blk[b].marked) viol("%s: block %u, which failed, is not marked bad", when, b);
	if (sim.nfailed) st->add("mark_checks");
}

void World::do_sync()
{
	dhara_error_t e = DHARA_E_NONE;
	sim.budget = 400LL * sim.npages() + 200000;
	last_rc = dhara_map_sync(in->m, nullerr ? NULL : &e);
	last_err = e;
}

// Resume looks at no more than eight blocks in a row for a checkpoint.
int bad_run(Sim &s)
{
	int run = 0, max = 0;
	for (uint32_t b = 0; b < 2 * s.n.num_blocks; b++) {
		auto &k = s.blk[b % s.n.num_blocks];
		run = k.marked || k.failed ? run + 1 : 0;
		max = std::max(max, run);
	}
	return max;
}

bool reachable(Sim &s)
{
	const uint32_t first = (1u << s.log2_ppc) - 1;
	uint32_t gap = 0;
	int epoch = -1;
	bool bad = false;
	for (uint32_t b = 0; b < s.n.num_blocks; b++) {
		uint32_t p = (b << s.n.log2_ppb) + first;
		const uint8_t *q = s.page(p);
		if (s.blk[b].marked || s.pst[p] == PG_TORN || memcmp(q, "Dha", 3)) { gap++; continue; }
		if (epoch < 0) { if (gap >= 8) return false; epoch = q[3]; }
		else if (q[3] == epoch && (gap >= 8 || bad)) return false; // of the newest pass, beyond a gap
		else if (q[3] != epoch) bad = true;
		gap = 0;
	}
	return true;
}

void World::clean_resume()
{
	do_sync();
	after_call("sync");
	if (last_rc < 0) {
		if (allow_ecc && sim.rd_hit && (nullerr || last_err == DHARA_E_ECC)) { st->add("ecc_errors"); verify_all("after failed sync"); return; }
		if (allow_eol && (nullerr || eol_error(last_err))) { eol = true; return; }
		classify(sim, *in, last_err);
		viol("sync fails: error %d", (int)last_err);
	}
	synced();
	check_marked("after sync");
	sim.rd_left = -1;
	if (allow_eol && !reachable(sim)) { eol = beyond = true; if (st) st->add("out_of_reach"); return; }
	renew();
	dhara_error_t e = DHARA_E_NONE;
	uint64_t mu = sim.muts;
	auto save_fails = sim.fails;
	int rc = in->resume(&e);
	if (sim.muts != mu) viol("resume modifies the chip");
	if (rc < 0 && count) viol("resume after sync fails: error %d with %u sectors stored", (int)e, count);
	if (st) st->add("clean_resume");
	verify_all("after sync and resume");
}

void World::continue_on(Sim &s, Inst &i, std::vector<uint64_t> obs, uint64_t seed)
{
	Rng r(seed);
	Sim *ps = &s;
	std::unique_ptr<Inst> second;
	Inst *ip = &i;
	uint32_t n = 0;
	for (auto v : obs) n += v != 0;
	if (sec.empty()) return;
	int nw = 1 + r.below(3 * s.ppb());
	for (int k = 0; k < nw; k++) {
		int idx = r.below(sec.size());
		dhara_error_t e = DHARA_E_NONE;
		s.budget = 400LL * s.npages() + 200000;
		bool isnew = !obs[idx];
		if (r.below(6) == 0 && obs[idx]) {
			if (dhara_map_trim(ip->m, sec[idx], &e) < 0) classify(s, *ip, e), viol("after power cut: trim fails: error %d", (int)e);
			obs[idx] = 0; n--;
		} else {
			if (isnew && limit >= 0 && n >= (uint32_t)limit) continue;
			fill_content(rbuf, s.psz(), 0x40000000 + k + seed % 9973 * 64, 0);
			uint64_t h = hash_bytes(rbuf, s.psz());
			int rc = dhara_map_write(ip->m, sec[idx], rbuf, &e);
			if (rc < 0) {
				if (e == DHARA_E_MAP_FULL && isnew && n >= dhara_map_capacity(ip->m)) continue;
				classify(s, *ip, e);
				viol("after power cut: write fails: error %d", (int)e);
			}
			obs[idx] = h ? h : 1;
			if (isnew) n++;
		}
	}
	dhara_error_t e = DHARA_E_NONE;
	if (dhara_map_sync(ip->m, &e) < 0) classify(s, *ip, e), viol("after power cut: sync fails: error %d", (int)e);
	std::vector<uint64_t> o2;
	observe(*ip, o2, "power cut, resume, more operations");
	if (o2 != obs) viol("power cut, resume, more operations: contents differ from what was stored");
	second.reset(new Inst(ps, gc));
	if (second->resume(&e) < 0 && n) viol("power cut, more operations, sync: resume fails: error %d", (int)e);
	observe(*second, o2, "power cut, resume, more operations, sync, resume");
	if (o2 != obs) viol("power cut, resume, more operations, sync, resume: contents differ from what was stored");
	if (check_pv && !s.pviol.empty()) viol("after power cut: %s", s.pviol.c_str());
}

void World::probe_variant(int kind, uint32_t where, int var)
{
	static Sim ps;
	ps.copy_state_from(sim);
	ps.muts = sim.muts;
	uint64_t seed = mix64(pseed * 31 + var, sim.muts);
	if (var == CUT_AFTER) {
		if (kind == MUT_MARK) ps.blk[where].marked = true;
		else return;
	} else if (var != CUT_BEFORE) ps.torn(kind, where, nullptr, var, seed);
	Inst pi(&ps, gc);
	dhara_error_t e = DHARA_E_NONE;
	ps.budget = 400LL * ps.npages() + 200000;
	uint64_t mu = ps.muts;
	int rc = pi.resume(&e);
	if (ps.muts != mu) viol("resume modifies the chip");
	if (rc < 0 && dhara_map_size(pi.m) != 0) viol("failed resume leaves size %u", dhara_map_size(pi.m));
	ps.budget = -1;
	if (log) log->push_back(sfmt("  probe: %d head %u tail %u root %d size %u k2_window %d", rc, pi.m->journal.head, pi.m->journal.tail, (int)pi.m->journal.root, dhara_map_size(pi.m), sim.k2_window(kind, where)));
	std::vector<uint64_t> obs;
	const char *vn = var == CUT_BEFORE ? "before" : var == CUT_AFTER ? "after" : "in the middle of";
	std::string when = sfmt("power cut %s %s %u (mutation %llu)", vn, kind == MUT_ERASE ? "erase of block" : kind == MUT_PROG ? "program of page" : "marking block", where, (unsigned long long)sim.muts);
	observe(pi, obs, when.c_str());
	std::string why;
	if (!matches(obs, &why)) viol("%s: %s", when.c_str(), why.c_str());
	if (st) { st->add("probes"); if (obs != cur) st->add("probes_rolled_back"); if (have_pending || !deltas.empty()) st->add("probes_unsynced"); }
	if (probe_cont && !sim.k2_window(kind, where) && mix64(seed, 77) % probe_cont == 0) {
		ps.protocol = true;
		continue_on(ps, pi, obs, mix64(seed, 78));
		if (st) st->add("probe_continuations");
	}
}

void World::probe(int kind, uint32_t where)
{
	if (in_probe) return;
	// sample more sparsely in cases with very many mutations
	uint64_t rate = nprobes > 3000 ? probe_rate * 40 : nprobes > 1000 ? probe_rate * 8 : probe_rate;
	if (rate > 1 && mix64(pseed, sim.muts) % rate) return;
	nprobes++;
	in_probe = true;
	bool k2 = sim.k2_window(kind, where);
	if (k2 && st) st->add("probes_in_K2_window");
	int64_t b = sim.budget;
	try {
		probe_variant(kind, where, CUT_BEFORE);
		if (kind == MUT_MARK) probe_variant(kind, where, CUT_AFTER);
		else {
			probe_variant(kind, where, CUT_TORN);
			if (kind == MUT_ERASE) probe_variant(kind, where, CUT_TORN2);
		}
	} catch (Known &k) { if (st) st->add(("known_" + k.id).c_str());
	} catch (Violation &) {
		in_probe = false;
		if (!k2) throw;
		if (st) st->add("known_K2");
	} catch (Hang &) {
		in_probe = false;
		if (!k2) throw;
		if (st) st->add("known_K2");
	} catch (...) { in_probe = false; throw; }
	in_probe = false;
	sim.budget = b;
}

// Judge the result of a modifying operation and update the model.
void World::finish_op(int rc, dhara_error_t e, Delta d, const char *name, int idx, bool isnew)
{
	last_rc = rc;
	last_err = e;
	have_pending = false;
	after_call(name);
	if (rc == 0) {
		if (isnew && d.v && !sim.nfailed) {
			uint32_t cap2 = dhara_map_capacity(in->m);
			if (count >= cap_before && count >= cap2)
				viol("%s maps a new %s although the map is full (size %u, capacity %u)", name, sname(idx).c_str(), count, cap2);
		}
		commit(d);
		return;
	}
	if (nullerr) e = DHARA_E_MAX;
	if ((e == DHARA_E_MAP_FULL || (nullerr && !allow_eol)) && isnew && d.v && count >= dhara_map_capacity(in->m)) {
		if (st) st->add("map_full");
		return;
	}
	bool ecc_ok = allow_ecc && sim.rd_hit && (e == DHARA_E_ECC || nullerr);
	bool eol_ok = allow_eol && (nullerr || eol_error(e));
	if (!ecc_ok && !eol_ok) {
		classify(sim, *in, e);
		char b[64];
		snprintf(b, sizeof b, "%d (%s)", (int)e, nullerr ? "?" : dhara_strerror(e));
		viol("%s of %s fails: error %s; size %u capacity %u", name, idx >= 0 ? sname(idx).c_str() : "map", b, count, dhara_map_capacity(in->m));
	}
	if (st) st->add(ecc_ok ? "ecc_errors" : "eol_errors");
	if (eol_ok) eol = true;
	// Before or after, never in between.
	sim.rd_left = -1; sim.rd_count = 0;
	if (idx >= 0 && ecc_ok) {
		uint64_t old = cur[idx];
		dhara_page_t p;
		dhara_error_t e2 = DHARA_E_NONE;
		int r2 = dhara_map_find(in->m, sec[idx], &p, &e2);
		if (r2 < 0 && e2 != DHARA_E_NOT_FOUND) viol("after failed %s: find fails: error %d", name, (int)e2);
		uint64_t h = 0;
		if (r2 == 0) { dhara_map_read(in->m, sec[idx], rbuf, &e2); h = hash_bytes(rbuf, sim.psz()); if (!h) h = 1; }
		if (h == old) { /* not done */ }
		else if (h == d.v) commit(d);
		else viol("after failed %s: %s has neither its old nor its new content", name, sname(idx).c_str());
		verify_all(sfmt("after failed %s", name).c_str());
	}
}

void World::exec(const Op &o)
{
	opno++;
	last_skipped = last_cut = false;
	last_rc = 0;
	last_err = DHARA_E_NONE;
	dhara_error_t err = DHARA_E_NONE;
	dhara_error_t *ep = nullerr ? NULL : &err;
	uint32_t U = sec.size();
	if (eol && strchr("wtcpgsxRv", o.k)) { last_skipped = true; return; }
	sim.budget = 400LL * sim.npages() + 200000;
	cap_before = dhara_map_capacity(in->m);
	sim.rd_hit = false;
	Counts c0 = sim.c;
	if (log) log->push_back(sfmt("== op %llu: %c %u %u %u  [head %u tail %u root %d size %u]", (unsigned long long)opno, o.k, o.a, o.b, o.c, in->m->journal.head, in->m->journal.tail, (int)in->m->journal.root, count));
	try {
		switch (o.k) {
		case 'w': {
			if (!U) break;
			int i = o.a % U;
			bool isnew = !cur[i];
			if (isnew && limit >= 0 && count >= (uint64_t)limit) { last_skipped = true; break; }
			uint64_t h = content(o.b, o.c);
			pending = {i, h}; have_pending = true;
			int rc = dhara_map_write(in->m, sec[i], wbuf, ep);
			if (memcmp(wbuf, wcopy, sim.psz())) viol("write modifies the caller's buffer");
			finish_op(rc, err, {i, h}, "write", i, isnew);
			if (st) st->add("writes");
			break;
		}
		case 't': {
			if (!U) break;
			int i = o.a % U;
			if (st) st->add(cur[i] ? "trims" : "trims_unmapped");
			pending = {i, 0}; have_pending = true;
			int rc = dhara_map_trim(in->m, sec[i], ep);
			finish_op(rc, err, {i, 0}, "trim", i, false);
			break;
		}
		case 'c': case 'p': {
			if (!U) break;
			int a = o.a % U, b = o.b % U;
			bool isnew = !cur[b];
			if (isnew && cur[a] && limit >= 0 && count >= (uint64_t)limit) { last_skipped = true; break; }
			pending = {b, cur[a]}; have_pending = true;
			int rc;
			if (o.k == 'c') rc = dhara_map_copy_sector(in->m, sec[a], sec[b], ep);
			else {
				dhara_page_t p;
				rc = dhara_map_find(in->m, sec[a], &p, &err);
				if (rc == 0) {
					const Blk &pb = sim.blk[p >> sim.n.log2_ppb];
					bool good = !pb.marked;
					rc = dhara_map_copy_page(in->m, p, sec[b], ep);
					// the caller's page is in a block which has gone bad meanwhile: look again
					if (rc < 0 && sim.mark_kills && good && pb.marked && (nullerr || err == DHARA_E_ECC)) {
						have_pending = false;
						last_rc = rc; last_err = err;
						sim.wear = false; // the block erased for it will be erased again
						after_call("copy");
						if (st) st->add("copies_of_a_page_gone_bad");
						verify_all("after a copy of a page gone bad");
						break;
					}
				} else {
					if (err != DHARA_E_NOT_FOUND && !(allow_ecc && sim.rd_hit)) viol("find of %s fails: error %d", sname(a).c_str(), (int)err);
					if (err == DHARA_E_NOT_FOUND && cur[a]) viol("%s is unmapped, expected mapped", sname(a).c_str());
					have_pending = false;
					last_skipped = true;
					break;
				}
			}
			if (st) st->add(cur[a] ? "copies" : "copies_of_unmapped");
			finish_op(rc, err, {b, cur[a]}, "copy", b, isnew);
			if (verify_every && !eol) verify_one(a, "after copy, source");
			break;
		}
		case 'g': {
			for (uint32_t k = 0; k < o.a; k++) {
				int rc = dhara_map_gc(in->m, ep);
				after_call("gc");
				last_rc = rc; last_err = err;
				if (st) st->add("gc_steps");
				if (rc < 0) {
					if (allow_ecc && sim.rd_hit && (nullerr || err == DHARA_E_ECC)) { sim.rd_left = -1; st->add("ecc_errors"); verify_all("after failed gc"); break; }
					if (allow_eol && (nullerr || eol_error(err))) { eol = true; break; }
					classify(sim, *in, err);
					viol("gc fails: error %d", (int)err);
				}
			}
			break;
		}
		case 's': {
			do_sync();
			after_call("sync");
			if (last_rc < 0) {
				if (allow_ecc && sim.rd_hit && (nullerr || last_err == DHARA_E_ECC)) { sim.rd_left = -1; st->add("ecc_errors"); verify_all("after failed sync"); break; }
				if (allow_eol && (nullerr || eol_error(last_err))) { eol = true; break; }
				classify(sim, *in, last_err);
				viol("sync fails: error %d", (int)last_err);
			}
			synced();
			check_marked("after sync");
			{
				uint64_t mu = sim.muts;
				do_sync();
				if (last_rc < 0) viol("a second sync fails: error %d", (int)last_err);
				if (sim.muts != mu) viol("a second sync in a row modifies the chip");
			}
			if (st) st->add("syncs");
			break;
		}
		case 'x':
			if (st && count) st->add("clears");
			dhara_map_clear(in->m);
			commit({-1, 0});
			break;
		case 'R': clean_resume(); break;
		case 'U': if (st) st->add("unclean_resume"); unclean_resume(); break;
		case 'v': verify_all("full check"); break;
		case 'q': {
			if (!U) break;
			uint64_t mu = sim.muts;
			for (uint32_t k = 0; k < 1 + o.b % 4; k++) verify_one((o.a + k) % U, "query");
			if (dhara_map_size(in->m) != count) viol("reported size %u, but %u sectors are mapped", dhara_map_size(in->m), count);
			if (dhara_map_capacity(in->m) != cap_before) viol("reported capacity changes by a query");
			if (sim.muts != mu) viol("a query modifies the chip");
			break;
		}
		case 'r': { // read, errors allowed
			if (!U) break;
			int i = o.a % U;
			int rc = dhara_map_read(in->m, sec[i], rbuf, ep);
			if (st) st->add("error_reads");
			if (rc < 0) {
				if (!(allow_ecc && sim.rd_hit && (nullerr || err == DHARA_E_ECC))) viol("read of %s fails: error %d", sname(i).c_str(), (int)err);
				if (st) st->add("ecc_errors");
			} else {
				if (sim.rd_hit) viol("read of %s succeeds although a page it needs cannot be read", sname(i).c_str());
				uint64_t h = hash_bytes(rbuf, sim.psz());
				if (!h) h = 1;
				if (h != (cur[i] ? cur[i] : ffhash)) viol("%s reads wrong data", sname(i).c_str());
			}
			break;
		}
		case 'f': { // find, errors allowed
			if (!U) break;
			int i = o.a % U;
			dhara_page_t p = 0;
			int rc = dhara_map_find(in->m, sec[i], &p, ep);
			if (st) st->add("error_finds");
			if (rc < 0) {
				if (nullerr ? (cur[i] && !sim.rd_hit) : err == DHARA_E_NOT_FOUND ? (cur[i] || sim.rd_hit) : !(allow_ecc && sim.rd_hit && err == DHARA_E_ECC))
					viol("find of %s fails: error %d", sname(i).c_str(), (int)err);
				if (st && sim.rd_hit) st->add("ecc_errors");
			} else {
				if (sim.rd_hit) viol("find of %s succeeds although metadata it needs cannot be read", sname(i).c_str());
				if (!cur[i]) viol("find of unmapped %s succeeds", sname(i).c_str());
				if (p >= sim.npages() || hash_bytes(sim.page(p), sim.psz()) != cur[i]) viol("the page found for %s does not hold its data", sname(i).c_str());
			}
			break;
		}
		case 'B': { // the page of this sector becomes unreadable for a while
			sim.rd_left = -1;
			if (!U) break;
			int i = o.a % U;
			dhara_page_t p = 0;
			if (dhara_map_find(in->m, sec[i], &p, &err) < 0) {
				if (cur[i] || err != DHARA_E_NOT_FOUND) viol("find of %s fails: error %d", sname(i).c_str(), (int)err);
				break;
			}
			sim.bad_read[p] = 1;
			memset(rbuf, 0x77, sim.psz());
			int rc = dhara_map_read(in->m, sec[i], rbuf, ep);
			if (rc == 0) viol("read of %s succeeds although its page cannot be read", sname(i).c_str());
			if (!nullerr && err != DHARA_E_ECC) viol("read of %s, whose page cannot be read, fails with error %d", sname(i).c_str(), (int)err);
			int j = o.b % U;
			if (j != i) verify_one(j, "while another sector's page is unreadable");
			if (cur[j] && j != i && o.c % 2) {
				// copying the unreadable page must fail and change nothing
				int64_t mu = dhara_map_size(in->m);
				pending = {j, cur[i]}; have_pending = true;
				rc = dhara_map_copy_page(in->m, p, sec[j], ep);
				have_pending = false;
				if (rc == 0) viol("copy of an unreadable page succeeds");
				if (!nullerr && err != DHARA_E_ECC) viol("copy of an unreadable page fails with error %d", (int)err);
				if (dhara_map_size(in->m) != mu) viol("a failed copy changes the size");
				verify_one(j, "after failed copy");
			}
			sim.bad_read[p] = 0;
			if (st) st->add("unreadable_pages");
			break;
		}
		case 'F': sim.fails.push_back({(int64_t)o.a, (int)(o.b % FE_MAX)}); break;
		case 'J': sim.fails.push_back({(int64_t)o.a, (int)(o.b % FE_MAX), 1 + (int)(o.c % 8), true}); break; // consecutive erases
		case 'C': sim.cut_left = o.a; sim.cut_var = o.b % 4; sim.cut_seed = o.c; break;
		case 'E': sim.rd_left = o.a; sim.rd_count = o.c ? INT32_MAX : 1 + o.b % 3; break; // c: until the call returns
		case 'N': sim.fails.clear(); sim.cut_left = -1; sim.rd_left = -1; break;
		}
	} catch (PowerCut &) {
		handle_cut();
	}
	if (o.k != 'E' && o.k != 'F' && o.k != 'J' && o.k != 'C') sim.rd_left = -1;
	last.reads = sim.c.reads - c0.reads;
	last.progs = sim.c.progs - c0.progs;
	last.erases = sim.c.erases - c0.erases;
	if (eol) return;
	if (verify_every && U && strchr("wtcpgsx", o.k) && sim.rd_left < 0) {
		sim.budget = -1;
		verify_one(o.a % U, "after the operation");
		if (o.k == 'c' || o.k == 'p') verify_one(o.b % U, "after the operation");
		verify_one(vr.below(U), "after the operation");
		uint32_t sz = dhara_map_size(in->m);
		if (sz != count) viol("reported size %u, but %u sectors are mapped", sz, count);
	}
}
