// The codes: E01..E07 (Hamming, BCH, CRC, field arithmetic) and E10.
// An operation is one error pattern or query; positions count bits of the
// chunk followed by bits of the ECC.
#include "world.h"
#include "gen.h"
extern "C" {
#include <ecc/hamming.h>
#include <ecc/bch.h>
#include <ecc/crc32.h>
#include <dhara/error.h>
// table-free build
extern const struct bch_def nt_bch_1bit, nt_bch_2bit, nt_bch_3bit, nt_bch_4bit;
void nt_bch_generate(const struct bch_def *, const uint8_t *, size_t, uint8_t *);
int nt_bch_verify(const struct bch_def *, const uint8_t *, size_t, const uint8_t *);
void nt_bch_repair(const struct bch_def *, uint8_t *, size_t, uint8_t *);
unsigned tb_mul(unsigned, unsigned), tb_div(unsigned, unsigned), tb_mulx(unsigned), tb_divx(unsigned);
unsigned nt_mul(unsigned, unsigned), nt_div(unsigned, unsigned), nt_mulx(unsigned), nt_divx(unsigned);
}

namespace {
typedef std::vector<uint32_t> Pos;

const struct bch_def *defs(int nt, int t)
{
	static const struct bch_def *d[2][4] = {{&bch_1bit, &bch_2bit, &bch_3bit, &bch_4bit}, {&nt_bch_1bit, &nt_bch_2bit, &nt_bch_3bit, &nt_bch_4bit}};
	return d[nt][t - 1];
}
const int DEGREE[5] = {0, 13, 26, 39, 52};
const int ECCB[5] = {0, 2, 4, 5, 7};

// exact-size heap buffer
struct Buf {
	uint8_t *p; size_t n;
	Buf(size_t k) : p((uint8_t *)malloc(k ? k : 1)), n(k) {}
	Buf(const Buf &o) : Buf(o.n) { memcpy(p, o.p, n); }
	~Buf() { free(p); }
	Buf &operator=(const Buf &) = delete;
	bool operator==(const Buf &o) const { return !memcmp(p, o.p, n); }
};

void content(Buf &b, uint64_t seed, int style)
{
	Rng r(seed);
	for (size_t i = 0; i < b.n; i++) b.p[i] = r.next() >> 24;
	switch (style) {
	case 1: memset(b.p, 0xff, b.n); break;
	case 2: memset(b.p, 0, b.n); break;
	case 3: { uint8_t a = r.next() >> 24; memset(b.p, a, b.n); break; }
	case 4: memset(b.p, 0xff, b.n); for (int k = 0; k < 3; k++) b.p[r.below(b.n)] ^= 1 << r.below(8); break;
	case 5: memset(b.p, 0, b.n); for (int k = 0; k < 3; k++) b.p[r.below(b.n)] ^= 1 << r.below(8); break;
	case 6: for (size_t i = 0; i < b.n; i++) b.p[i] = i; break;
	}
}

void flip(Buf &c, Buf &e, uint32_t pos)
{
	if (pos < c.n * 8) c.p[pos >> 3] ^= 1 << (pos & 7);
	else { pos -= c.n * 8; e.p[pos >> 3] ^= 1 << (pos & 7); }
}

std::string plist(const Pos &p)
{
	std::string s;
	for (auto x : p) s += sfmt("%s%u", s.empty() ? "" : ",", x);
	return s;
}

Pos pattern(Rng &r, int weight, uint32_t nbits, uint32_t chunk_bits)
{
	std::set<uint32_t> s;
	int style = r.below(6);
	uint32_t base = r.below(nbits);
	while ((int)s.size() < weight) {
		uint32_t p;
		switch (style) {
		case 0: p = (base + r.below(16)) % nbits; break;          // a burst
		case 1: p = chunk_bits + r.below(nbits - chunk_bits); break; // in the ECC
		case 2: p = r.chance(50) ? r.below(nbits) : chunk_bits + r.below(nbits - chunk_bits); break;
		case 3: { static const int64_t e[] = {0, 1, 7, 8, -1, -8}; int64_t q = (int64_t)chunk_bits + e[r.below(6)]; p = r.chance(50) ? (uint32_t)std::max<int64_t>(0, std::min<int64_t>(q, nbits - 1)) : r.chance(50) ? r.below(std::min(nbits, 9u)) : nbits - 1 - r.below(std::min(nbits, 9u)); if (s.count(p)) p = r.below(nbits); break; }
		default: p = r.below(nbits);
		}
		if ((style == 1 || style == 2 || style == 0) && s.count(p) && r.chance(20)) p = r.below(nbits);
		s.insert(p);
	}
	return Pos(s.begin(), s.end());
}

/************************** field, independent of the tree **************************/
const uint32_t POLY = 0x201b; // x^13 + x^4 + x^3 + x + 1
uint32_t ref_mul(uint32_t a, uint32_t b)
{
	uint32_t r = 0;
	for (int k = 0; k < 13; k++) if (b >> k & 1) r ^= a << k;
	for (int k = 25; k >= 13; k--) if (r >> k & 1) r ^= POLY << (k - 13);
	return r;
}
struct Gf {
	uint16_t lg[8192], ex[16384];
	Gf() { uint32_t x = 1; lg[0] = 0; for (int k = 0; k < 8191; k++) { ex[k] = ex[k + 8191] = x; lg[x] = k; x = ref_mul(x, 2); } }
	uint32_t mul(uint32_t a, uint32_t b) const { return a && b ? ex[lg[a] + lg[b]] : 0; }
};
const Gf &gf() { static Gf g; return g; }

// A pattern whose syndromes have a zero where the decoder's recurrence
// usually finds a non-zero one (a vanishing minor of the syndrome matrix).
Pos degenerate(Rng &r, int weight, uint32_t nbits)
{
	if (weight < 3 || nbits < 64) return {};
	const Gf &g = gf();
	int kind = weight == 3 ? 0 : r.below(3);
	std::set<uint32_t> s;
	while ((int)s.size() < weight - 1) s.insert(r.below(nbits));
	uint32_t s1 = 0, s3 = 0, s5 = 0;
	for (auto p : s) { s1 ^= g.ex[p]; s3 ^= g.ex[p * 3 % 8191]; s5 ^= g.ex[p * 5 % 8191]; }
	uint32_t start = r.below(nbits);
	for (uint32_t k = 0; k < nbits; k++) {
		uint32_t p = (start + k) % nbits;
		if (s.count(p)) continue;
		uint32_t a = s1 ^ g.ex[p], c = s3 ^ g.ex[p * 3 % 8191], e = s5 ^ g.ex[p * 5 % 8191];
		uint32_t a2 = g.mul(a, a), a4 = g.mul(a2, a2);
		bool hit = kind == 0 ? a == 0 : kind == 1 ? c == g.mul(a2, a)
			: !(g.mul(a, g.mul(c, e) ^ g.mul(a4, a4)) ^ g.mul(a2, g.mul(a2, e) ^ g.mul(c, a4)) ^ g.mul(c, g.mul(a2, a4) ^ g.mul(c, c)));
		if (hit) { s.insert(p); return Pos(s.begin(), s.end()); }
	}
	return {};
}

int pick_len(Rng &r, int max)
{
	switch (r.below(6)) {
	case 0: return max - r.below(4);
	case 1: return 1 + r.below(16);
	case 2: { int k = (1 << r.below(10)) + (int)r.below(3) - 1; return k < 1 ? 1 : k > max ? max : k; }
	default: return 1 + r.below(max);
	}
}

/************************** Hamming **************************/
void hamming(const Case &c, Stats &st)
{
	int len = c.get("len");
	bool two = c.prop == "E02";
	Buf chunk(len), ecc(HAMMING_ECC_SIZE), none(0);
	content(chunk, c.get("seed"), c.get("style"));
	Buf orig = chunk;
	hamming_generate(chunk.p, len, ecc.p);
	if (!(chunk == orig)) viol("generate modifies the chunk");
	hamming_ecc_t syn = hamming_syndrome(chunk.p, len, ecc.p);
	if (syn) viol("length %d: syndrome of an intact chunk is 0x%x", len, syn);
	if (hamming_repair(chunk.p, len, syn)) viol("length %d: repair of an intact chunk fails", len);
	if (!(chunk == orig)) viol("length %d: repair of an intact chunk modifies it", len);
	uint32_t nbits = len * 8 + 24;
	auto one = [&](const Pos &p) {
		Buf b = orig, e = ecc;
		for (auto x : p) flip(b, e, x);
		Buf bad = b, ebad = e;
		hamming_ecc_t s = hamming_syndrome(b.p, len, e.p);
		if (!(b == bad) || !(e == ebad)) viol("syndrome modifies its input");
		if (!s) viol("length %d: flipping bits %s gives a zero syndrome", len, plist(p).c_str());
		int rc = hamming_repair(b.p, len, s);
		if (p.size() == 1) {
			if (rc) viol("length %d: repair of flipped bit %s fails", len, plist(p).c_str());
			if (!(b == orig)) viol("length %d: flipped bit %s is not repaired", len, plist(p).c_str());
		} else {
			if (!rc) viol("length %d: flipped bits %s are not detected by repair", len, plist(p).c_str());
			if (!(b == bad)) viol("length %d: the failed repair of flipped bits %s modifies the chunk", len, plist(p).c_str());
		}
		st.add("patterns");
	};
	for (auto &o : c.ops) {
		if (o.k == 'a') { // a slice of all single positions
			for (uint32_t p = o.a; p < nbits && p < o.b; p++) one({p});
		} else if (o.k == 'f') { if (o.a < nbits) one({o.a}); }
		else if (o.k == 'p') { if (o.a < nbits && o.b < nbits && o.a != o.b) one({o.a, o.b}); }
		else if (o.k == 'q') { // a fixed bit with a range of others
			for (uint32_t p = o.b; p < nbits && p < o.c; p++) if (p != o.a && o.a < nbits) one({o.a, p});
		}
	}
	(void)two;
	st.n["nontrivial"] = st.n["patterns"] > 0;
}

/************************** BCH **************************/
struct Lib {
	void (*gen)(const struct bch_def *, const uint8_t *, size_t, uint8_t *);
	int (*ver)(const struct bch_def *, const uint8_t *, size_t, const uint8_t *);
	void (*rep)(const struct bch_def *, uint8_t *, size_t, uint8_t *);
};
const Lib LIB[2] = {{bch_generate, bch_verify, bch_repair}, {nt_bch_generate, nt_bch_verify, nt_bch_repair}};

// Looks for undetected patterns of at most 2*half bits: two sets of `half`
// bits with equal effect on the ECC.  Uses linearity to find a candidate; the
// candidate is then tried on the real code.
void collide(const Case &c, Stats &st, int t, int len, int half, const Buf &orig, const Buf &ecc, const Lib &L, const struct bch_def *d)
{
	uint32_t cb = len * 8, nbits = cb + DEGREE[t];
	auto val = [&](const Buf &e) { uint64_t v = 0; for (int i = ECCB[t] - 1; i >= 0; i--) v = v << 8 | e.p[i]; return v & ((1ULL << DEGREE[t]) - 1); };
	std::vector<uint64_t> im(nbits);
	for (uint32_t i = 0; i < nbits; i++) {
		Buf b = orig, e(ECCB[t]);
		if (i < cb) { flip(b, e, i); L.gen(d, b.p, len, e.p); im[i] = val(e) ^ val(ecc); }
		else im[i] = 1ULL << (i - cb);
	}
	std::vector<std::pair<uint64_t, uint32_t>> v; // effect, packed positions
	auto put = [&](uint32_t a, uint32_t b2, uint32_t c2, uint64_t s) { v.push_back({s, a | b2 << 10 | c2 << 20}); };
	const uint32_t NO = 1023;
	if (nbits >= NO && half > 1) return;
	for (uint32_t a = 0; a < nbits; a++) {
		if (half == 1) { v.push_back({im[a], a}); continue; }
		put(a, NO, NO, im[a]);
		for (uint32_t b = a + 1; b < nbits; b++) {
			put(a, b, NO, im[a] ^ im[b]);
			if (half >= 3) for (uint32_t e = b + 1; e < nbits; e++) put(a, b, e, im[a] ^ im[b] ^ im[e]);
		}
	}
	v.push_back({0, half == 1 ? 0xffffffffu : (NO | NO << 10 | NO << 20)});
	std::sort(v.begin(), v.end());
	for (size_t i = 1; i < v.size(); i++) {
		if (v[i].first != v[i - 1].first) continue;
		std::map<uint32_t, int> m;
		for (auto q : {v[i].second, v[i - 1].second})
			if (half == 1) { if (q != 0xffffffffu) m[q] ^= 1; }
			else for (int k = 0; k < 3; k++) { uint32_t x = q >> (10 * k) & 1023; if (x != NO) m[x] ^= 1; }
		Pos p;
		for (auto &x : m) if (x.second) p.push_back(x.first);
		if (p.empty()) continue;
		Buf b = orig, e = ecc;
		for (auto x : p) flip(b, e, x);
		if (!L.ver(d, b.p, len, e.p)) viol("%d-bit code, length %d: %zu flipped bits (%s) pass verification", t, len, p.size(), plist(p).c_str());
	}
	st.add("collision_searches");
	st.add("patterns_covered_by_collision_search", v.size());
}

void bch(const Case &c, Stats &st)
{
	int len = c.get("len"), t = c.get("t"), nt = c.get("nt");
	const struct bch_def *d = defs(nt, t);
	const Lib &L = LIB[nt];
	if (d->ecc_bytes != ECCB[t]) viol("the %d-bit code uses %d ECC bytes, expected %d", t, d->ecc_bytes, ECCB[t]);
	Buf chunk(len), ecc(ECCB[t]);
	content(chunk, c.get("seed"), c.get("style"));
	Buf orig = chunk;
	L.gen(d, chunk.p, len, ecc.p);
	if (!(chunk == orig)) viol("generate modifies the chunk");
	if (L.ver(d, chunk.p, len, ecc.p)) viol("%d-bit code, length %d: a fresh chunk fails verification", t, len);
	if (!(chunk == orig)) viol("verification modifies the chunk");
	uint32_t cb = len * 8, nbits = cb + DEGREE[t];
	for (auto &o : c.ops) {
		if (o.k == 'm') { collide(c, st, t, len, o.a, orig, ecc, L, d); continue; }
		if (o.k != 'e' && o.k != 'd') continue;
		Rng r(mix64(o.b, o.c));
		Pos p = o.k == 'd' ? degenerate(r, o.a, nbits) : pattern(r, o.a, nbits, cb);
		if (o.k == 'd' && p.size()) st.add("degenerate_patterns");
		Buf b = orig, e = ecc;
		for (auto x : p) flip(b, e, x);
		// unused ECC bits do not count
		if (r.chance(20)) for (int k = DEGREE[t]; k < ECCB[t] * 8; k++) if (r.chance(30)) e.p[k >> 3] ^= 1 << (k & 7);
		int v = L.ver(d, b.p, len, e.p);
		if (p.empty() && v) viol("%d-bit code, length %d: an intact chunk fails verification", t, len);
		if (!p.empty() && !v) viol("%d-bit code, length %d: %zu flipped bits (%s) pass verification", t, len, p.size(), plist(p).c_str());
		st.add(sfmt("weight_%zu", p.size()).c_str());
		if (c.prop == "E04" || (int)p.size() > t) continue;
		Buf e0 = ecc;
		L.rep(d, b.p, len, e.p);
		if (!(b == orig)) viol("%d-bit code%s, length %d: flipped bits %s are not repaired", t, nt ? " (table-free)" : "", len, plist(p).c_str());
		if (L.ver(d, b.p, len, e.p)) viol("%d-bit code%s, length %d: after repair of bits %s the chunk does not verify", t, nt ? " (table-free)" : "", len, plist(p).c_str());
	}
	st.n["nontrivial"] = !c.ops.empty();
}

/************************** erased flash **************************/
void erased(const Case &c, Stats &st)
{
	int len = c.get("len");
	Buf ff(len);
	memset(ff.p, 0xff, len);
	uint8_t want[8];
	memset(want, 0xff, 8);
	if (len <= HAMMING_MAX_CHUNK_SIZE) {
		Buf e(3);
		hamming_generate(ff.p, len, e.p);
		if (memcmp(e.p, want, 3)) viol("Hamming ECC of an erased chunk of %d bytes is %02x %02x %02x", len, e.p[0], e.p[1], e.p[2]);
		if (hamming_syndrome(ff.p, len, want)) viol("an erased chunk of %d bytes has a non-zero Hamming syndrome", len);
	}
	for (int nt = 0; nt < 2; nt++)
		for (int t = 1; t <= 4; t++) {
			Buf e(ECCB[t]);
			LIB[nt].gen(defs(nt, t), ff.p, len, e.p);
			if (memcmp(e.p, want, ECCB[t])) viol("%d-bit BCH ECC of an erased chunk of %d bytes is not all 0xff", t, len);
			if (LIB[nt].ver(defs(nt, t), ff.p, len, e.p)) viol("an erased chunk of %d bytes fails %d-bit BCH verification", len, t);
		}
	if (crc32_nand(ff.p, len, CRC32_INIT) != 0xffffffffu) viol("CRC of %d erased bytes is 0x%08x", len, crc32_nand(ff.p, len, CRC32_INIT));
	for (auto &o : c.ops) {
		int t = o.c & 7;
		Rng r(mix64(o.b, o.c));
		if (t == 0) {
			if (len > HAMMING_MAX_CHUNK_SIZE) continue;
			Buf b = ff, e(3);
			memset(e.p, 0xff, 3);
			flip(b, e, o.b % (len * 8 + 24));
			hamming_ecc_t s = hamming_syndrome(b.p, len, e.p);
			if (hamming_repair(b.p, len, s) || !(b == ff)) viol("erased chunk of %d bytes with bit %u cleared is not repaired (Hamming)", len, o.b % (len * 8 + 24));
			st.add("hamming_patterns");
			continue;
		}
		t = (t - 1) % 4 + 1;
		int nt = o.c >> 3 & 1;
		Buf b = ff, e(ECCB[t]);
		memset(e.p, 0xff, ECCB[t]);
		Pos p = pattern(r, o.a % (t + 1), len * 8 + DEGREE[t], len * 8);
		for (auto x : p) flip(b, e, x);
		LIB[nt].rep(defs(nt, t), b.p, len, e.p);
		if (!(b == ff)) viol("erased chunk of %d bytes with bits %s cleared is not repaired (%d-bit BCH)", len, plist(p).c_str(), t);
		for (int k = 0; k < ECCB[t]; k++) if (e.p[k] != 0xff) viol("ECC of an erased chunk of %d bytes with bits %s cleared is not repaired (%d-bit BCH)", len, plist(p).c_str(), t);
		st.add("bch_patterns");
	}
	st.n["nontrivial"] = 1;
}

/************************** CRC **************************/
uint32_t ref_crc(const uint8_t *p, size_t n, uint32_t carry)
{
	// IEEE 802.3 CRC-32, bit by bit, on inverted coefficients
	uint32_t r = ~carry;
	for (size_t i = 0; i < n; i++)
		for (int k = 0; k < 8; k++) {
			uint32_t bit = (~p[i] >> k & 1) ^ (r & 1);
			r >>= 1;
			// x^32+x^26+x^23+x^22+x^16+x^12+x^11+x^10+x^8+x^7+x^5+x^4+x^2+x+1
			if (bit) for (int e : {26, 23, 22, 16, 12, 11, 10, 8, 7, 5, 4, 2, 1, 0}) r ^= 1u << (31 - e);
		}
	return ~r;
}

void crc(const Case &c, Stats &st)
{
	int len = c.get("len");
	Buf b(len);
	content(b, c.get("seed"), c.get("style"));
	uint32_t carry = c.get("carry") ? (uint32_t)mix64(c.get("seed"), 99) : CRC32_INIT;
	uint32_t whole = crc32_nand(b.p, len, carry);
	if (whole != ref_crc(b.p, len, carry)) viol("CRC of %d bytes (carry 0x%08x) is 0x%08x, expected 0x%08x", len, carry, whole, ref_crc(b.p, len, carry));
	for (auto &o : c.ops) {
		if (o.k == 's') { // in pieces
			Rng r(o.a);
			uint32_t x = carry;
			int at = 0;
			while (at < len) { int n = r.chance(30) ? std::min<int>(r.below(3), len - at) : r.below(len - at + 1); Buf piece(n); memcpy(piece.p, b.p + at, n); x = crc32_nand(piece.p, n, x); at += n; }
			if (x != whole) viol("CRC of %d bytes in pieces is 0x%08x, expected 0x%08x", len, x, whole);
			st.add("splits");
		} else if (o.k == 'e' && len <= 512) { // up to three bits
			Rng r(mix64(o.a, o.b));
			Pos p = pattern(r, 1 + o.c % 3, len * 8 + 32, len * 8);
			Buf d = b, e(4);
			memcpy(e.p, &whole, 4);
			for (auto x : p) flip(d, e, x);
			uint32_t w;
			memcpy(&w, e.p, 4);
			if (crc32_nand(d.p, len, carry) == w) viol("CRC of %d bytes misses flipped bits %s", len, plist(p).c_str());
			st.add("error_patterns");
		} else if (o.k == 'b') { // a burst within the data
			Rng r(mix64(o.a, o.b));
			uint32_t n = std::min(1 + r.below(32), (uint32_t)len * 8), at = r.below(len * 8 - n + 1);
			Buf d = b, e(0);
			flip(d, e, at);
			if (n > 1) flip(d, e, at + n - 1);
			for (uint32_t k = 1; k + 1 < n; k++) if (r.chance(50)) flip(d, e, at + k);
			if (crc32_nand(d.p, len, carry) == whole) viol("CRC of %d bytes misses a burst of %u bits at bit %u", len, n, at);
			st.add("bursts");
		}
	}
	st.n["nontrivial"] = !c.ops.empty();
}

/************************** GF(2^13) **************************/
void field(const Case &c, Stats &st)
{
	const uint16_t *lg = gf().lg, *ex = gf().ex;
	for (auto &o : c.ops) {
		if (o.k == 'r') { // a times every element in a range
			uint32_t a = o.a;
			if (a < 1 || a > 8191) continue;
			if (tb_mulx(a) != ref_mul(a, 2)) viol("table-driven 0x%x * x = 0x%x", a, tb_mulx(a));
			if (nt_mulx(a) != ref_mul(a, 2)) viol("table-free 0x%x * x = 0x%x", a, nt_mulx(a));
			if (ref_mul(tb_divx(a), 2) != a) viol("table-driven 0x%x / x = 0x%x", a, tb_divx(a));
			if (ref_mul(nt_divx(a), 2) != a) viol("table-free 0x%x / x = 0x%x", a, nt_divx(a));
			for (uint32_t b = o.b; b < o.c && b < 8192; b++) {
				uint32_t m = ex[lg[a] + lg[b]], q = ex[lg[a] + 8191 - lg[b]];
				if ((b & 63) == 0 && m != ref_mul(a, b)) viol("reference error");
				uint32_t x;
				if ((x = tb_mul(a, b)) != m) viol("table-driven 0x%x * 0x%x = 0x%x, expected 0x%x", a, b, x, m);
				if ((x = tb_div(a, b)) != q) viol("table-driven 0x%x / 0x%x = 0x%x, expected 0x%x", a, b, x, q);
				if ((x = nt_mul(a, b)) != m) viol("table-free 0x%x * 0x%x = 0x%x, expected 0x%x", a, b, x, m);
				if ((b & 7) == (a & 7) && (x = nt_div(a, b)) != q) viol("table-free 0x%x / 0x%x = 0x%x, expected 0x%x", a, b, x, q);
				st.add("pairs");
			}
		} else if (o.k == 'e') { // both builds of the codes agree
			int len = c.get("len"), t = c.get("t");
			Buf b(len), e1(ECCB[t]), e2(ECCB[t]);
			content(b, c.get("seed"), c.get("style"));
			bch_generate(defs(0, t), b.p, len, e1.p);
			nt_bch_generate(defs(1, t), b.p, len, e2.p);
			if (!(e1 == e2)) viol("the two builds generate different ECC (%d-bit code, length %d)", t, len);
			Rng r(mix64(o.b, o.c));
			for (auto x : pattern(r, o.a, len * 8 + DEGREE[t], len * 8)) flip(b, e1, x);
			Buf b2 = b, e3 = e1;
			if (bch_verify(defs(0, t), b.p, len, e1.p) != nt_bch_verify(defs(1, t), b2.p, len, e3.p)) viol("the two builds verify differently (%d-bit code, length %d)", t, len);
			if ((int)o.a <= t) {
				bch_repair(defs(0, t), b.p, len, e1.p);
				nt_bch_repair(defs(1, t), b2.p, len, e3.p);
				if (!(b == b2) || !(e1 == e3)) viol("the two builds repair differently (%d-bit code, length %d, %u errors)", t, len, o.a);
			}
			st.add("codes_compared");
		}
	}
	st.n["nontrivial"] = 1;
}

/************************** error strings **************************/
void strerr(const Case &c, Stats &st)
{
	static bool first = true;
	static const char *generic;
	const int ND = DHARA_E_MAX;
	if (first) {
		first = false;
		generic = dhara_strerror((dhara_error_t)DHARA_E_MAX);
		if (!generic || !*generic) viol("no message for an unknown error");
		for (int i = 0; i < ND; i++) {
			const char *m = dhara_strerror((dhara_error_t)i);
			if (!m || !*m || strlen(m) > 200) viol("no message for error %d", i);
			if (!strcmp(m, generic)) viol("error %d has the unknown-error message", i);
			for (int k = 0; k < i; k++) if (!strcmp(m, dhara_strerror((dhara_error_t)k))) viol("errors %d and %d have the same message", i, k);
		}
	}
	for (auto &o : c.ops)
		for (uint64_t v = o.a; v < (uint64_t)o.a + o.b; v++) {
			int32_t e = (int32_t)(uint32_t)v;
			const char *m = dhara_strerror((dhara_error_t)e);
			bool d = e >= 0 && e < ND;
			if (d) {
				if (m != dhara_strerror((dhara_error_t)e) && strcmp(m, dhara_strerror((dhara_error_t)e))) viol("the message of error %d is not stable", e);
				continue;
			}
			if (m == generic) continue;
			if (!m) viol("no message for error %d", e);
			if (strcmp(m, generic)) viol("error %d has the message \"%s\", expected the unknown-error message \"%s\"", e, m, generic);
		}
	for (auto &o : c.ops) st.add("values", o.b);
	st.n["nontrivial"] = 1;
}
} // namespace

Case gen_case(const std::string &prop, uint64_t seed, uint64_t idx, bool thorough)
{
	Case c;
	c.prop = prop;
	Rng r(mix64(mix64(seed, idx), hash_bytes((const uint8_t *)prop.data(), prop.size())));
	auto chunk = [&](int max) { c.set("len", pick_len(r, max)); c.set("seed", r.below(1u << 30)); c.set("style", r.chance(50) ? 0 : r.below(7)); };
	int mul = thorough ? 4 : 1;
	if (prop == "E01") {
		chunk(HAMMING_MAX_CHUNK_SIZE);
		uint32_t nb = c.get("len") * 8 + 24;
		if (r.chance(25)) for (uint32_t p = 0; p < nb; p += 512) c.ops.push_back({'a', p, p + 512, 0}); // all of them
		else { for (int k = 0; k < 100 * mul; k++) c.ops.push_back({'f', r.below(nb), 0, 0}); c.ops.push_back({'a', nb - 24, nb, 0}); }
	} else if (prop == "E02") {
		chunk(HAMMING_MAX_CHUNK_SIZE);
		if (r.chance(20)) c.set("len", 1 + r.below(6));
		uint32_t nb = c.get("len") * 8 + 24;
		if (nb <= 72) for (uint32_t p = 0; p < nb; p++) c.ops.push_back({'q', p, p + 1, nb}); // all pairs
		else {
			for (int k = 0; k < 150 * mul; k++) { Pos p = pattern(r, 2, nb, nb - 24); c.ops.push_back({'p', p[0], p[1], 0}); }
			if (r.chance(30)) c.ops.push_back({'q', r.below(nb), 0, nb});                    // one bit with all others
			if (r.chance(30)) for (uint32_t p = nb - 24; p < nb; p++) c.ops.push_back({'q', p, p + 1, nb}); // all ECC pairs
		}
	} else if (prop == "E03") {
		int t = 1 + r.below(4);
		c.set("t", t);
		c.set("nt", r.chance(15));
		chunk(BCH_MAX_CHUNK_SIZE);
		for (int k = 0; k < (c.get("nt") ? 3 : 8) * mul; k++) c.ops.push_back({'e', r.chance(60) ? (uint32_t)t : r.below(t + 1), (uint32_t)r.below(1u << 30), (uint32_t)k});
		if (t >= 3) for (int k = 0; k < 3 * mul; k++) c.ops.push_back({'d', 3 + r.below(t - 2), (uint32_t)r.below(1u << 30), (uint32_t)k});
	} else if (prop == "E04") {
		int t = 1 + r.below(4);
		c.set("t", t);
		chunk(BCH_MAX_CHUNK_SIZE);
		for (int k = 0; k < 200 * mul; k++) c.ops.push_back({'e', 1 + r.below(2 * t), (uint32_t)r.below(1u << 30), (uint32_t)k});
		if (idx < 24 || r.chance(1)) {
			// all patterns of 2, 4 or 6 bits in a chunk
			static const int maxlen[4] = {1016, 120, 12, 12};
			c.set("len", 1 + r.below(maxlen[t - 1]));
			c.ops.push_back({'m', (uint32_t)std::min(t, 3), 0, 0});
		}
	} else if (prop == "E05") {
		chunk(BCH_MAX_CHUNK_SIZE);
		if (idx < BCH_MAX_CHUNK_SIZE) c.set("len", 1 + idx); // every length
		for (int k = 0; k < 6 * mul; k++) { uint32_t t = r.below(5); c.ops.push_back({'e', r.below(5) ? 4 + 0 * t : r.below(5), (uint32_t)r.below(1u << 30), t | (r.chance(8) ? 8u : 0u)}); c.ops.back().a = t ? (r.chance(50) ? t : r.below(t + 1)) : 0; }
	} else if (prop == "E06") {
		chunk(r.chance(70) ? 512 : 4096);
		if (idx < 4096) { c.set("len", 1); c.set("style", 3); c.set("seed", idx); c.set("carry", idx & 1); }
		else c.set("carry", r.chance(40));
		if (idx >= 4096 && r.chance(3)) { // long blocks
			c.set("len", r.chance(50) ? 65530 + r.below(12) : r.chance(20) ? 16777210 + r.below(12) : r.below(300000));
			c.ops.push_back({'s', (uint32_t)r.below(1u << 30), 0, 0});
			if (c.get("len")) c.ops.push_back({'b', (uint32_t)r.below(1u << 30), 0, 0});
			return c;
		}
		for (int k = 0; k < 6 * mul; k++) c.ops.push_back({'s', (uint32_t)r.below(1u << 30), 0, 0});
		for (int k = 0; k < 40 * mul; k++) c.ops.push_back({'e', (uint32_t)r.below(1u << 30), (uint32_t)k, (uint32_t)k});
		for (int k = 0; k < 20 * mul; k++) c.ops.push_back({'b', (uint32_t)r.below(1u << 30), (uint32_t)k, 0});
	} else if (prop == "E07") {
		if (idx < 8191) { for (uint32_t b = 1; b < 8192; b += 1024) c.ops.push_back({'r', (uint32_t)idx + 1, b, b + 1024}); }
		else {
			chunk(200);
			c.set("t", 1 + r.below(4));
			for (int k = 0; k < 4; k++) c.ops.push_back({'e', (uint32_t)r.below(2 * c.get("t") + 2), (uint32_t)r.below(1u << 30), (uint32_t)k});
		}
	} else if (prop == "E10") {
		c.ops.push_back({'v', (uint32_t)(idx << 20), 1u << 20, 0});
	}
	return c;
}

int run_case(const Case &c, Stats &st, std::string *msg, std::vector<std::string> *log)
{
	try {
		const std::string &p = c.prop;
		if (p == "E01" || p == "E02") hamming(c, st);
		else if (p == "E03" || p == "E04") bch(c, st);
		else if (p == "E05") erased(c, st);
		else if (p == "E06") crc(c, st);
		else if (p == "E07") field(c, st);
		else if (p == "E10") strerr(c, st);
		return 0;
	} catch (Violation &v) { *msg = v.what(); }
	return 1;
}
