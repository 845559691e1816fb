#include "sim.h"
#include <cstdarg>

std::string sfmt(const char *fmt, ...)
{
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	return b;
}
void viol(const char *fmt, ...)
{
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	throw Violation(b);
}
void Sim::pv(const char *fmt, ...)
{
	if (!pviol.empty()) return;
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	pviol = b;
}

void Sim::init(int lps, int lppb, unsigned nb, bool garbage, uint64_t seed)
{
	n.log2_page_size = lps;
	n.log2_ppb = lppb;
	n.num_blocks = nb;
	log2_ppc = 1;
	for (int k = 1; k <= lppb; k++)
		if (((1L << k) - 1) * DHARA_META_SIZE + 20 <= (1L << lps)) log2_ppc = k;
	data.assign((size_t)npages() << lps, 0xff);
	pst.assign(npages(), PG_ERASED);
	bad_read.assign(npages(), 0);
	blk.assign(nb, Blk());
	blank_garbage = garbage;
	if (garbage) {
		Rng r(seed ^ 0x5151);
		for (auto &b : data) b = (uint8_t)(r.next() >> 40);
		for (auto &p : pst) p = PG_PROG;
		for (auto &b : blk) b.next_page = ppb();
		// never look like a checkpoint by accident
		for (uint32_t p = 0; p < npages(); p++) page(p)[0] = 0x55;
	}
}

void Sim::copy_state_from(const Sim &o)
{
	n = o.n;
	log2_ppc = o.log2_ppc;
	ecc_page = 0xffffffff;
	data = o.data;
	pst = o.pst;
	blk = o.blk;
	bad_read = o.bad_read;
	imprecise = o.imprecise;
	protocol = o.protocol;
	pviol.clear();
	fails.clear();
	cut_left = -1;
	rd_left = -1;
	rd_count = 0;
	max_bad = o.max_bad;
	nfailed = o.nfailed;
	c = Counts();
	muts = 0;
	trace = mtrace = 0;
	budget = -1;
	ecc = nullptr;
	log = nullptr;
	hook = nullptr;
	in_recovery = nullptr;
	k2_partial = false;
	k2_cps = 0;
}

// Leave the chip as a power cut in the middle of the operation would.
void Sim::torn(int kind, uint32_t where, const uint8_t *pg, int var, uint64_t seed)
{
	Rng r(seed);
	if (kind == MUT_PROG) {
		// a torn page is unreadable or reads as garbage
		pst[where] = r.below(is_cp(where) ? 4 : 2) ? PG_PROG : PG_TORN;
		for (size_t i = 0; i < psz(); i++) page(where)[i] = (uint8_t)(r.next() >> 33);
		if (pg && r.chance(25)) memcpy(page(where) + 1, pg + 1, psz() / 2); // the first half made it, but for one byte
		page(where)[0] = 0x5a;
		blk[where >> n.log2_ppb].next_page = (where & (ppb() - 1)) + 1;
	} else if (kind == MUT_ERASE) {
		int style = var == CUT_TORN2 ? 1 + r.below(3) : 0;
		for (uint32_t i = 0; i < ppb(); i++) {
			uint32_t p = (where << n.log2_ppb) + i;
			int what; // 0 keep 1 erased 2 torn
			if (style == 0) what = 2;
			else if (style == 1) what = i < ppb() / 2 ? 1 : 0;
			else if (style == 2) what = i < ppb() / 2 ? 0 : 1;
			else what = r.below(3);
			if (what == 1) { memset(page(p), 0xff, psz()); pst[p] = PG_ERASED; }
			if (what == 2) { pst[p] = PG_TORN; page(p)[0] = 0x5a; }
		}
		blk[where].next_page = ppb(); // must be erased again before use
		blk[where].erases++;
	}
}

void Sim::apply_fail_prog(uint32_t p, const uint8_t *d, int mode)
{
	Blk &b = blk[p >> n.log2_ppb];
	int pno = p & (ppb() - 1);
	switch (mode) {
	case FE_BLANK:
		return; // page looks untouched
	case FE_WRITTEN:
		memcpy(page(p), d, psz());
		if (imprecise && is_ff(p)) return; // reprogramming such a page is allowed
		pst[p] = PG_PROG;
		break;
	case FE_UNREADABLE:
		pst[p] = PG_TORN;
		page(p)[0] = 0x5a;
		break;
	default: {
		Rng r(p * 7919 + muts);
		for (size_t i = 0; i < psz(); i++) page(p)[i] = (uint8_t)(r.next() >> 33);
		if (r.chance(25)) memcpy(page(p) + 1, d + 1, psz() / 2);
		page(p)[0] = 0x5a;
		pst[p] = PG_PROG;
	}
	}
	b.next_page = pno + 1;
}

void Sim::apply_fail_erase(uint32_t bno, int mode)
{
	for (uint32_t i = 0; i < ppb(); i++) {
		uint32_t p = (bno << n.log2_ppb) + i;
		if (mode == FE_UNREADABLE) { pst[p] = PG_TORN; page(p)[0] = 0x5a; }
		if (mode == FE_GARBAGE) {
			Rng r(p * 7919 + muts);
			for (size_t k = 0; k < psz(); k++) page(p)[k] = (uint8_t)(r.next() >> 33);
			page(p)[0] = 0x5a;
			pst[p] = PG_PROG;
		}
		if (mode == FE_WRITTEN) { memset(page(p), 0xff, psz()); pst[p] = PG_ERASED; }
		// FE_BLANK: contents unchanged
	}
	blk[bno].next_page = ppb();
}

void Sim::check_wear()
{
	uint32_t lo = ~0u, hi = 0, lb = 0, hb = 0;
	for (uint32_t b = 0; b < n.num_blocks; b++) {
		if (blk[b].marked || blk[b].failed) continue;
		if (blk[b].erases < lo) { lo = blk[b].erases; lb = b; }
		if (blk[b].erases > hi) { hi = blk[b].erases; hb = b; }
	}
	if (lo != ~0u && hi - lo > 1 && wviol.empty())
		wviol = sfmt("block %u has been erased %u times, block %u %u times", hb, hi, lb, lo);
}

int Sim::raw_read(uint32_t p, uint8_t *out)
{
	if (pst[p] == PG_TORN || bad_read[p]) return -1;
	if (ecc) return ecc->load(*this, p, 0, psz(), out);
	memcpy(out, page(p), psz());
	return 0;
}

static bool tick_fail(Sim &s, Blk &b, bool erase)
{
	bool hit = false;
	int mode = 0;
	for (size_t i = 0; i < s.fails.size();) {
		if (s.fails[i].erases && !erase) { i++; continue; }
		if (s.fails[i].left-- <= 0) {
			hit = true;
			mode = s.fails[i].mode;
			if (--s.fails[i].count <= 0) s.fails.erase(s.fails.begin() + i);
			else i++;
		} else i++;
	}
	if (hit && !b.failed && s.bad_total() < s.max_bad) {
		b.failed = true;
		b.fmode = mode;
		s.nfailed++;
	}
	return b.failed;
}

static bool tick_cut(Sim &s, int kind, uint32_t where)
{
	if (s.cut_left < 0) return false;
	// a cut just after the first checkpoint is already in the window
	bool after = kind == MUT_PROG && s.cut_var == CUT_AFTER && s.is_cp(where) && s.k2_partial && s.in_recovery && s.in_recovery();
	if (s.cut_left == 0 && (after || s.k2_window(kind, where))) { s.cut_deferred++; return false; }
	return s.cut_left-- == 0;
}

int Sim::do_erase(uint32_t b, dhara_error_t *err)
{
	charge();
	if (b >= n.num_blocks) viol("erase of block %u outside the chip (%u blocks)", b, n.num_blocks);
	if (blk[b].marked) pv("erase of block %u, which is marked bad", b);
	c.erases++;
	tr(0x1000000000ULL + b); mtr(0x1000000000ULL + b);
	if (log) log->push_back(sfmt("erase %u", b));
	if (hook) hook(*this, MUT_ERASE, b);
	muts++;
	bool cut = tick_cut(*this, MUT_ERASE, b);
	if (cut && cut_var == CUT_BEFORE) throw PowerCut();
	if (cut && cut_var != CUT_AFTER) { torn(MUT_ERASE, b, nullptr, cut_var, cut_seed); throw PowerCut(); }
	if (tick_fail(*this, blk[b], true)) {
		blk[b].erases++;
		apply_fail_erase(b, blk[b].fmode);
		if (log) log->back() += " FAILED";
		if (cut) throw PowerCut();
		dhara_set_error(err, DHARA_E_BAD_BLOCK);
		return -1;
	}
	if (ecc) ecc->erase(*this, b);
	memset(&data[((size_t)b << n.log2_ppb) << n.log2_page_size], 0xff, psz() << n.log2_ppb);
	for (uint32_t i = 0; i < ppb(); i++) { pst[(b << n.log2_ppb) + i] = PG_ERASED; bad_read[(b << n.log2_ppb) + i] = 0; }
	blk[b].next_page = 0;
	blk[b].ever_erased = true;
	blk[b].erases++;
	if (wear) check_wear();
	if (cut) throw PowerCut();
	return 0;
}

int Sim::do_prog(uint32_t p, const uint8_t *d, dhara_error_t *err)
{
	charge();
	uint32_t b = p >> n.log2_ppb;
	int pno = p & (ppb() - 1);
	if (b >= n.num_blocks) viol("program of page %u outside the chip (%u pages)", p, npages());
	bool ff = imprecise && all_ff(d, psz());
	if (blk[b].marked) pv("program of page %u in block %u, which is marked bad", p, b);
	if (!blk[b].ever_erased) pv("program of page %u in block %u, which was never erased", p, b);
	if (ff) {
		if (!page_free(p)) pv("program of page %u, which is not erased", p);
	} else {
		if (imprecise ? !page_free(p) : pst[p] != PG_ERASED) pv("program of page %u, which is not erased", p);
		else if (pno < blk[b].next_page) pv("program of page %u out of order (next page of its block is %d)", p, blk[b].next_page);
	}
	c.progs++;
	tr(0x2000000000ULL + p);
	if (tracing) { uint64_t h = hash_bytes(d, psz()); tr(h); mtr(0x2000000000ULL + p); mtr(h); }
	if (log) log->push_back(sfmt("prog %u (%u.%u)%s", p, b, pno, memcmp(d, "Dha", 3) ? "" : " cp"));
	cur_data = d;
	if (hook) hook(*this, MUT_PROG, p);
	muts++;
	bool cut = tick_cut(*this, MUT_PROG, p);
	if (cut && cut_var == CUT_BEFORE) throw PowerCut();
	if (cut && cut_var != CUT_AFTER) { torn(MUT_PROG, p, d, cut_var, cut_seed); throw PowerCut(); }
	if (tick_fail(*this, blk[b], false)) {
		if (!k2_partial && in_recovery && !in_recovery()) {
			k2_partial = (root() >> log2_ppc) == (p >> log2_ppc);
			k2_block = b;
			k2_cps = 0;
		}
		// a checkpoint which was written all the same counts as well
		else if (is_cp(p) && blk[b].fmode == FE_WRITTEN && in_recovery && in_recovery()) k2_cps++;
		apply_fail_prog(p, d, blk[b].fmode);
		if (log) log->back() += " FAILED";
		if (cut) throw PowerCut();
		dhara_set_error(err, DHARA_E_BAD_BLOCK);
		return -1;
	}
	if (is_cp(p) && in_recovery && in_recovery()) k2_cps++;
	if (ecc) ecc->store(*this, p, d);
	memcpy(page(p), d, psz());
	if (!(ff)) {
		pst[p] = PG_PROG;
		blk[b].next_page = pno + 1;
	}
	if (cut) throw PowerCut();
	return 0;
}

void Sim::do_mark(uint32_t b)
{
	charge();
	if (b >= n.num_blocks) viol("mark_bad of block %u outside the chip (%u blocks)", b, n.num_blocks);
	c.marks++;
	tr(0x3000000000ULL + b); mtr(0x3000000000ULL + b);
	if (log) log->push_back(sfmt("mark_bad %u", b));
	if (hook) hook(*this, MUT_MARK, b);
	muts++;
	bool cut = tick_cut(*this, MUT_MARK, b);
	if (cut && (cut_var == CUT_BEFORE || cut_var == CUT_TORN)) throw PowerCut();
	if (!blk[b].failed && !blk[b].marked) pv("block %u, which did not fail, is marked bad", b);
	blk[b].marked = true;
	if (mark_kills) for (uint32_t i = 0; i < ppb(); i++) pst[(b << n.log2_ppb) + i] = PG_TORN;
	if (b == k2_block) k2_partial = false;
	if (cut) throw PowerCut();
}

int Sim::do_read(uint32_t p, size_t off, size_t len, uint8_t *d, dhara_error_t *err)
{
	charge();
	if (p >= npages()) viol("read of page %u outside the chip (%u pages)", p, npages());
	if (off > psz() || len > psz() || off + len > psz())
		viol("read of bytes %zu..%zu outside the page (%zu bytes)", off, off + len, psz());
	c.reads++;
	c.read_bytes += len;
	tr(0x4000000000ULL + p);
	if (rd_left >= 0) {
		if (rd_left == 0) {
			if (rd_count > 0) {
				rd_count--;
				rd_hit = true;
				dhara_set_error(err, DHARA_E_ECC);
				// the caller's buffer holds undefined data after a failed read
				for (size_t i = 0; i < len; i++) d[i] = (uint8_t)(0xa5 ^ i);
				return -1;
			}
			rd_left = -1;
		} else rd_left--;
	}
	if (pst[p] == PG_TORN || bad_read[p]) {
		ecc_page = p;
		dhara_set_error(err, DHARA_E_ECC);
		for (size_t i = 0; i < len; i++) d[i] = (uint8_t)(0xa5 ^ i);
		return -1;
	}
	if (ecc) {
		if (ecc->load(*this, p, off, len, d) < 0) { dhara_set_error(err, DHARA_E_ECC); return -1; }
		return 0;
	}
	memcpy(d, page(p) + off, len);
	return 0;
}

static inline Sim *S(const struct dhara_nand *n) { return (Sim *)n; }

extern "C" {
int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b)
{
	Sim *s = S(n);
	if (s->sparse) return s->sparse->is_bad(b);
	s->charge();
	if (b >= s->n.num_blocks) viol("is_bad of block %u outside the chip (%u blocks)", b, s->n.num_blocks);
	s->c.is_bad++;
	return s->blk[b].marked;
}
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b) { if (S(n)->sparse) S(n)->sparse->mark_bad(b); else S(n)->do_mark(b); }
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *err) { return S(n)->sparse ? S(n)->sparse->erase(b, err) : S(n)->do_erase(b, err); }
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *d, dhara_error_t *err) { return S(n)->sparse ? S(n)->sparse->prog(p, d, err) : S(n)->do_prog(p, d, err); }
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p)
{
	Sim *s = S(n);
	if (s->sparse) return s->sparse->is_free(p);
	s->charge();
	if (p >= s->npages()) viol("is_free of page %u outside the chip (%u pages)", p, s->npages());
	s->c.is_free++;
	return s->page_free(p);
}
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t off, size_t len, uint8_t *d, dhara_error_t *err)
{
	if (S(n)->sparse) return S(n)->sparse->read(p, off, len, d, err);
	return S(n)->do_read(p, off, len, d, err);
}
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t src, dhara_page_t dst, dhara_error_t *err)
{
	Sim *s = S(n);
	std::vector<uint8_t> t(s->psz());
	s->c.copies++;
	if (s->sparse) return s->sparse->read(src, 0, s->psz(), t.data(), err) < 0 ? -1 : s->sparse->prog(dst, t.data(), err);
	if (s->do_read(src, 0, s->psz(), t.data(), err) < 0) return -1;
	return s->do_prog(dst, t.data(), err);
}
}
