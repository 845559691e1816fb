// E09: the map over raw flash with bit errors, behind a NAND layer that
// protects each chunk of a page with a CRC and one of the codes.
#include "world.h"
#include "gen.h"
extern "C" {
#include <ecc/hamming.h>
#include <ecc/bch.h>
#include <ecc/crc32.h>
}

namespace {
struct Coded : EccLayer {
	int code;              // 0 Hamming, 1..4 BCH
	size_t chunk, ecc, unit;
	int t;                 // rating
	Rng r;
	int pct;               // how often a chunk gets as many errors as rated
	Stats *st;
	std::vector<uint8_t> raw;
	size_t per_page = 0;
	const struct bch_def *d = nullptr;
	Coded(Sim &s, int code_, size_t ch, uint64_t seed, int pct_, Stats *st_) : code(code_), chunk(ch), r(seed), pct(pct_), st(st_)
	{
		static const struct bch_def *const defs[] = {nullptr, &bch_1bit, &bch_2bit, &bch_3bit, &bch_4bit};
		d = defs[code];
		ecc = code ? d->ecc_bytes : HAMMING_ECC_SIZE;
		t = code ? code : 1;
		unit = chunk + 4 + ecc;
		per_page = s.psz() / chunk;
		raw.resize(unit * per_page * s.npages());
		for (uint32_t p = 0; p < s.npages(); p++) {
			if (s.pst[p] == PG_ERASED) memset(&raw[p * per_page * unit], 0xff, per_page * unit);
			else for (size_t i = 0; i < per_page * unit; i++) raw[p * per_page * unit + i] = r.next() >> 30;
		}
	}
	void store(Sim &s, uint32_t p, const uint8_t *data) override
	{
		for (size_t k = 0; k < per_page; k++) {
			uint8_t *u = &raw[(p * per_page + k) * unit];
			memcpy(u, data + k * chunk, chunk);
			uint32_t c = crc32_nand(u, chunk, CRC32_INIT);
			for (int i = 0; i < 4; i++) u[chunk + i] = c >> (8 * i);
			if (code) bch_generate(d, u, chunk + 4, u + chunk + 4);
			else hamming_generate(u, chunk + 4, u + chunk + 4);
		}
	}
	void erase(Sim &s, uint32_t b) override
	{
		memset(&raw[((size_t)b << s.n.log2_ppb) * per_page * unit], 0xff, per_page * unit << s.n.log2_ppb);
	}
	int load(Sim &s, uint32_t p, size_t off, size_t len, uint8_t *out) override
	{
		// only what was programmed or erased through this layer is protected
		bool valid = s.blk[p >> s.n.log2_ppb].ever_erased;
		uint8_t *u = (uint8_t *)malloc(chunk + 4), *e = (uint8_t *)malloc(ecc);
		int rc = 0;
		for (size_t k = off / chunk; k < per_page && k * chunk < off + len && !rc; k++) {
			const uint8_t *src = &raw[(p * per_page + k) * unit];
			memcpy(u, src, chunk + 4);
			memcpy(e, src + chunk + 4, ecc);
			int n = r.chance(pct) ? t : r.chance(50) ? 0 : (int)r.below(t + 1);
			std::set<uint32_t> pos;
			uint32_t nbits = (chunk + 4) * 8 + (code ? d->degree : ecc * 8);
			while ((int)pos.size() < n) pos.insert(r.chance(15) ? (chunk + 4) * 8 + r.below(nbits - (chunk + 4) * 8) : r.below(nbits));
			for (auto b : pos) { uint8_t *q = b < (chunk + 4) * 8 ? u : e; uint32_t bb = b < (chunk + 4) * 8 ? b : b - (chunk + 4) * 8; q[bb >> 3] ^= 1 << (bb & 7); }
			if (st) { st->add("chunk_reads"); st->add("bit_errors", n); }
			if (code) {
				if (bch_verify(d, u, chunk + 4, e) < 0) bch_repair(d, u, chunk + 4, e);
				if (bch_verify(d, u, chunk + 4, e) < 0) rc = -1;
			} else {
				hamming_ecc_t syn = hamming_syndrome(u, chunk + 4, e);
				if (syn && hamming_repair(u, chunk + 4, syn) < 0) rc = -1;
			}
			uint32_t c = crc32_nand(u, chunk, CRC32_INIT), w = 0;
			for (int i = 3; i >= 0; i--) w = w << 8 | u[chunk + i];
			if (c != w) rc = -1;
			if (valid) {
				if (rc) viol("a page with %d bit errors in a chunk of %zu bytes cannot be read (%s)", n, chunk, code ? sfmt("%d-bit BCH", code).c_str() : "Hamming");
				if (memcmp(u, s.page(p) + k * chunk, chunk)) viol("a page with %d bit errors in a chunk of %zu bytes reads wrong data (%s)", n, chunk, code ? sfmt("%d-bit BCH", code).c_str() : "Hamming");
			}
			size_t a = std::max(off, k * chunk), z = std::min(off + len, (k + 1) * chunk);
			if (!rc) memcpy(out + (a - off), u + (a - k * chunk), z - a);
		}
		free(u); free(e);
		if (rc && st) st->add("foreign_pages_unreadable");
		return rc;
	}
};
}

void run_e09(const Case &c, Stats &st, std::vector<std::string> *log)
{
	World w(c, &st);
	w.log = w.sim.log = log;
	Coded e(w.sim, c.get("code"), c.get("chunk"), c.get("eseed"), c.get("epct"), &st);
	w.sim.ecc = &e;
	w.run_all();
	w.sim.ecc = nullptr;
	st.n["nontrivial"] = st.n["bit_errors"] > 0;
}
