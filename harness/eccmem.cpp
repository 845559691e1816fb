// C20, the ECC part: every call on exact-size heap buffers, with contents,
// codes and syndromes as damaged as can be.
#include "world.h"
#include "gen.h"
extern "C" {
#include <ecc/hamming.h>
#include <ecc/bch.h>
#include <ecc/crc32.h>
}

namespace {
struct Buf {
	uint8_t *raw, *p; size_t n;
	Buf(size_t k, int off) : raw((uint8_t *)malloc(k + off)), p(raw + off), n(k) {} // ends where the allocation ends
	~Buf() { free(raw); }
	Buf(const Buf &) = delete;
	std::vector<uint8_t> copy() const { return std::vector<uint8_t>(p, p + n); }
	void set(Rng &r, int style) { for (size_t i = 0; i < n; i++) p[i] = style == 0 ? 0xff : style == 1 ? 0 : r.next() >> 24; }
};
int bits_changed(const std::vector<uint8_t> &a, const Buf &b)
{
	int k = 0;
	for (size_t i = 0; i < b.n; i++) k += __builtin_popcount(a[i] ^ b.p[i]);
	return k;
}
}

// op h/b/c: a = length, b = seed, c = code / number of damaged bits
void run_eccmem(const Case &c, Stats &st)
{
	static const struct bch_def *const defs[] = {&bch_1bit, &bch_2bit, &bch_3bit, &bch_4bit};
	for (auto &o : c.ops) {
		Rng r(mix64(o.b, o.k));
		int off = r.chance(50) ? r.below(8) : 0;
		if (o.k == 'h' && o.a >= 1 && o.a <= 512) {
			Buf b(o.a, off), e(HAMMING_ECC_SIZE, r.below(4));
			b.set(r, r.below(5));
			auto was = b.copy();
			hamming_generate(b.p, b.n, e.p);
			for (uint32_t k = r.below(7); k; k--) if (r.chance(50)) b.p[r.below(b.n)] ^= 1 << r.below(8); else e.p[r.below(3)] ^= 1 << r.below(8);
			was = b.copy();
			auto ewas = e.copy();
			hamming_ecc_t s = hamming_syndrome(b.p, b.n, e.p);
			if (b.copy() != was || e.copy() != ewas) viol("hamming_syndrome modifies its input");
			if (r.chance(40)) { // one bit of every pair, i.e. any position, also past the end
				uint32_t pos = r.chance(60) ? o.a * 8 + r.below(12) : r.below(4096);
				s = 0;
				for (int i = 0; i < 12; i++) s |= (hamming_ecc_t)(pos >> i & 1 ? 1 : 2) << (2 * i);
				if (r.chance(30)) s ^= 1u << r.below(24);
			} else if (r.chance(30)) s = r.next() >> 30 & 0xffffff;
			int rc = hamming_repair(b.p, b.n, s);
			int n = bits_changed(was, b);
			if (rc < 0 && n) viol("length %u: a failed repair (syndrome 0x%x) modifies the chunk", o.a, s);
			if (n > 1) viol("length %u: repair (syndrome 0x%x) changes %d bits", o.a, s, n);
			st.add("hamming_calls");
		} else if (o.k == 'b' && o.a <= BCH_MAX_CHUNK_SIZE) {
			const struct bch_def *d = defs[o.c & 3];
			Buf b(o.a, off), e(d->ecc_bytes, r.below(4));
			b.set(r, r.below(5));
			auto was = b.copy();
			bch_generate(d, b.p, b.n, e.p);
			if (b.copy() != was) viol("bch_generate modifies the chunk");
			if (r.chance(30)) e.set(r, r.below(5));
			else for (uint32_t k = r.below(12); k; k--) if (b.n && r.chance(70)) b.p[r.below(b.n)] ^= 1 << r.below(8); else e.p[r.below(e.n)] ^= 1 << r.below(8);
			was = b.copy();
			auto ewas = e.copy();
			int rc = bch_verify(d, b.p, b.n, e.p);
			if (b.copy() != was || e.copy() != ewas) viol("bch_verify modifies its input");
			bch_repair(d, b.p, b.n, e.p);
			if (!rc && b.copy() != was) viol("%d-bit code, length %u: repair of an intact chunk modifies it", (o.c & 3) + 1, o.a);
			st.add("bch_calls");
		} else if (o.k == 'c') {
			Buf b(o.a, off);
			b.set(r, r.below(5));
			auto was = b.copy();
			volatile uint32_t x = crc32_nand(b.p, b.n, r.chance(50) ? (uint32_t)CRC32_INIT : (uint32_t)r.next());
			(void)x;
			if (b.copy() != was) viol("crc32_nand modifies its input");
			st.add("crc_calls");
		}
	}
	st.n["nontrivial"] = !c.ops.empty();
}
