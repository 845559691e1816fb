// Simulated NAND chip implementing the dhara_nand_* interface.
#ifndef SIM_H
#define SIM_H
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
extern "C" {
#include "dhara/map.h"
#include "dhara/journal.h"
#include "dhara/nand.h"
#include "dhara/error.h"
}

// Coverage-guided search draws the generator's choices from the fuzzer's bytes.
struct RngSource { const uint8_t *d; size_t n, i; };
inline RngSource *rng_source = nullptr;

struct Rng { // splitmix64
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	uint32_t below(uint32_t n) {
		if (!n) return 0;
		uint64_t x = next() >> 11;
		if (rng_source && rng_source->i + 2 <= rng_source->n) {
			const uint8_t *b = rng_source->d + rng_source->i;
			rng_source->i += 2;
			x = (n > 65536 ? x << 16 : 0) | b[0] | b[1] << 8;
		}
		return (uint32_t)(x % n);
	}
	uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); } // inclusive
	bool chance(uint32_t pct) { return below(100) < pct; }
};
static inline uint64_t mix64(uint64_t a, uint64_t b)
{
	Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL));
	r.next();
	return r.next();
}
static inline uint64_t hash_bytes(const uint8_t *p, size_t n)
{
	uint64_t h = 0x243f6a8885a308d3ULL ^ n;
	while (n >= 8) {
		uint64_t w;
		memcpy(&w, p, 8);
		h = (h ^ w) * 0x9fb21c651e98df25ULL;
		h ^= h >> 29;
		p += 8; n -= 8;
	}
	while (n--) { h = (h ^ *p++) * 0x9fb21c651e98df25ULL; h ^= h >> 31; }
	return h ^ (h >> 32);
}

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
struct PowerCut {};
struct Known { std::string id; };
struct Hang : std::runtime_error { using std::runtime_error::runtime_error; };

[[noreturn]] void viol(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string sfmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

enum { PG_ERASED = 0, PG_PROG = 1, PG_TORN = 2 };
enum { MUT_ERASE, MUT_PROG, MUT_MARK };
enum { CUT_BEFORE = 0, CUT_TORN = 1, CUT_AFTER = 2, CUT_TORN2 = 3 };
// what a failing operation leaves behind
enum { FE_GARBAGE = 0, FE_UNREADABLE = 1, FE_BLANK = 2, FE_WRITTEN = 3, FE_MAX = 4 };

struct Blk {
	bool marked = false;   // bad-block marker
	bool factory = false;
	bool failed = false;   // physically failing (erase and program fail)
	bool ever_erased = false;
	uint8_t fmode = 0;
	int next_page = 0;     // next page that may be programmed (protocol)
	uint32_t erases = 0;
};

struct Counts {
	uint64_t reads = 0, read_bytes = 0, progs = 0, erases = 0, marks = 0,
		copies = 0, is_bad = 0, is_free = 0;
};

struct SparseChip { // a chip of which only some blocks are stored (big.cpp)
	virtual ~SparseChip() {}
	virtual int is_bad(uint32_t b) = 0;
	virtual void mark_bad(uint32_t b) = 0;
	virtual int erase(uint32_t b, dhara_error_t *err) = 0;
	virtual int prog(uint32_t p, const uint8_t *d, dhara_error_t *err) = 0;
	virtual int is_free(uint32_t p) = 0;
	virtual int read(uint32_t p, size_t off, size_t len, uint8_t *d, dhara_error_t *err) = 0;
};

struct Sim {
	struct dhara_nand n; // must be first
	SparseChip *sparse = nullptr;
	std::vector<uint8_t> data;
	std::vector<uint8_t> pst;
	std::vector<Blk> blk;
	bool imprecise = false;
	bool blank_garbage = false;

	// protocol monitor
	bool protocol = true;
	bool wear = false;     // check wear levelling at every erase
	std::string wviol;
	void check_wear();
	std::string pviol;     // first protocol violation seen

	// faults
	struct ArmedFail { int64_t left; int mode; int count = 1; bool erases = false; };
	std::vector<ArmedFail> fails;
	int64_t cut_left = -1; int cut_var = 0; uint64_t cut_seed = 0;
	uint32_t ecc_page = 0xffffffff; // last page that failed to read because it is torn
	int64_t rd_left = -1; int rd_count = 0; bool rd_hit = false;
	std::vector<uint8_t> bad_read; // persistent unreadable pages (on top of pst)
	int max_bad = 1 << 30;         // engine-enforced bound on bad blocks
	int nfailed = 0;               // failures injected so far
	int prog_timebomb = 0;

	// Tracking of one failed-block relocation, for the signature of finding K2
	bool mark_kills = false; // a block marked bad can no longer be read
	bool k2_partial = false; uint32_t k2_block = 0; int k2_cps = 0;
	std::function<bool()> in_recovery;
	std::function<uint32_t()> root;
	bool k2_window(int kind, uint32_t where) {
		return k2_partial && k2_cps > 0 && in_recovery && in_recovery() &&
			!(kind == MUT_MARK && where == k2_block);
	}
	uint64_t cut_deferred = 0;

	// accounting
	Counts c;
	uint64_t muts = 0;
	uint64_t trace = 0, mtrace = 0; // all calls; mutations only
	bool tracing = false;
	int64_t budget = -1;
	std::vector<std::string> *log = nullptr;

	// called before each mutation, with a description
	std::function<void(Sim &, int kind, uint32_t where)> hook;

	// software ECC mode (E09)
	struct EccLayer *ecc = nullptr;

	int log2_ppc = 1;      // checkpoint period, computed from the documented layout
	bool is_cp(uint32_t p) const { uint32_t m = (1u << log2_ppc) - 1; return (p & m) == m; }
	size_t psz() const { return (size_t)1 << n.log2_page_size; }
	uint32_t ppb() const { return 1u << n.log2_ppb; }
	uint32_t npages() const { return n.num_blocks << n.log2_ppb; }
	uint8_t *page(uint32_t p) { return &data[(size_t)p << n.log2_page_size]; }

	void init(int lps, int lppb, unsigned nb, bool garbage, uint64_t seed);
	void copy_state_from(const Sim &o); // chip content only, faults disarmed
	int bad_total() const { int k = 0; for (auto &b : blk) k += b.marked || b.failed; return k; }
	int bad_marked() const { int k = 0; for (auto &b : blk) k += b.marked; return k; }
	void charge() { if (budget >= 0 && --budget < 0) throw Hang("NAND call budget exceeded"); }
	void mtr(uint64_t x) { if (tracing) mtrace = mix64(mtrace, x); }
	void tr(uint64_t x) { if (tracing) trace = mix64(trace, x); }
	void pv(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void torn(int kind, uint32_t where, const uint8_t *pg, int var, uint64_t seed);
	void apply_fail_prog(uint32_t p, const uint8_t *d, int mode);
	void apply_fail_erase(uint32_t b, int mode);
	static bool all_ff(const uint8_t *q, size_t n) { return q[0] == 0xff && !memcmp(q, q + 1, n - 1); }
	bool is_ff(uint32_t p) { return all_ff(page(p), psz()); }
	bool page_free(uint32_t p) {
		if (imprecise) return pst[p] != PG_TORN && is_ff(p);
		return pst[p] == PG_ERASED;
	}
	// 0 ok, -1 unreadable
	int raw_read(uint32_t p, uint8_t *out);

	const uint8_t *cur_data = nullptr; // data of the program being attempted

	int do_erase(uint32_t b, dhara_error_t *err);
	int do_prog(uint32_t p, const uint8_t *d, dhara_error_t *err);
	void do_mark(uint32_t b);
	int do_read(uint32_t p, size_t off, size_t len, uint8_t *d, dhara_error_t *err);
};

struct EccLayer { // transforms pages to raw bits and back
	virtual ~EccLayer() {}
	virtual void store(Sim &s, uint32_t p, const uint8_t *d) = 0;
	virtual void erase(Sim &s, uint32_t b) = 0;
	virtual int load(Sim &s, uint32_t p, size_t off, size_t len, uint8_t *out) = 0; // -1: uncorrectable
};
#endif
