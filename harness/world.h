// Cases (configuration + operations), the reference model and the history engine.
#ifndef WORLD_H
#define WORLD_H
#include "sim.h"
#include <map>
#include <memory>
#include <unordered_map>
#include <algorithm>
#include <set>

// calls return 0 or a negative value, nothing else
static inline int checked_rc(int rc, const char *name) { if (rc > 0) viol("%s returns %d", name, rc); return rc; }
#define dhara_map_find(...) checked_rc(dhara_map_find(__VA_ARGS__), "find")
#define dhara_map_read(...) checked_rc(dhara_map_read(__VA_ARGS__), "read")
#define dhara_map_write(...) checked_rc(dhara_map_write(__VA_ARGS__), "write")
#define dhara_map_trim(...) checked_rc(dhara_map_trim(__VA_ARGS__), "trim")
#define dhara_map_copy_page(...) checked_rc(dhara_map_copy_page(__VA_ARGS__), "copy_page")
#define dhara_map_copy_sector(...) checked_rc(dhara_map_copy_sector(__VA_ARGS__), "copy_sector")
#define dhara_map_sync(...) checked_rc(dhara_map_sync(__VA_ARGS__), "sync")
#define dhara_map_gc(...) checked_rc(dhara_map_gc(__VA_ARGS__), "gc")
#define dhara_map_resume(...) checked_rc(dhara_map_resume(__VA_ARGS__), "resume")
#define dhara_journal_resume(...) checked_rc(dhara_journal_resume(__VA_ARGS__), "journal resume")
#define dhara_journal_enqueue(...) checked_rc(dhara_journal_enqueue(__VA_ARGS__), "enqueue")
#define dhara_journal_copy(...) checked_rc(dhara_journal_copy(__VA_ARGS__), "journal copy")
#define dhara_journal_read_meta(...) checked_rc(dhara_journal_read_meta(__VA_ARGS__), "read_meta")

struct Op { char k; uint32_t a, b, c; };

struct Case {
	std::string prop;
	std::map<std::string, int64_t> cfg;
	std::vector<uint32_t> sectors;
	std::vector<uint32_t> badblocks;
	std::vector<Op> ops;
	int64_t get(const char *k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
	void set(const char *k, int64_t v) { cfg[k] = v; }
	std::string text() const;
	static Case parse(const std::string &);
};

struct Stats {
	std::map<std::string, int64_t> n;
	void add(const char *k, int64_t v = 1) { n[k] += v; }
	void mx(const char *k, int64_t v) { auto &x = n[k]; if (v > x) x = v; }
};

// One library instance with exact-size heap buffers.
struct Inst {
	struct dhara_map *m;
	uint8_t *pb;
	Sim *s;
	static uint8_t fill; // what the memory of a new instance holds
	Inst(Sim *sim, int gc);
	~Inst();
	int resume(dhara_error_t *e);
	Inst(const Inst &) = delete;
};

void fill_content(uint8_t *d, size_t n, uint32_t id, uint32_t kind);

struct Delta { int idx; uint64_t v; }; // idx -1: clear

bool reachable(Sim &s);
int bad_run(Sim &s); // longest run of bad blocks

enum { ALLOW_NONE = 0, ALLOW_ECC = 1, ALLOW_EOL = 2 };

struct World {
	const Case &cs;
	Stats *st;
	Sim sim;
	std::unique_ptr<Inst> in;
	int gc;
	uint8_t *wbuf, *rbuf; // exact page size
	uint8_t *wcopy;
	std::vector<uint32_t> sec;
	// model
	std::vector<uint64_t> cur; // 0: unmapped
	uint32_t count = 0;
	std::vector<uint64_t> base;
	uint32_t basecount = 0;
	std::vector<Delta> deltas;
	bool have_pending = false;
	Delta pending{};
	uint64_t ffhash;
	std::unordered_map<uint64_t, uint32_t> known; // hash -> content id (reporting)
	// options
	bool check_pv = false;   // protocol monitor is judged
	bool check_mark = false; // only failed blocks are marked
	bool prefix = true;      // cuts: whole-map prefix (else per-sector)
	bool allow_ecc = false, allow_eol = false;
	int allow = 0;
	int64_t limit = -1;
	uint32_t probe_rate = 0, probe_cont = 0;
	uint64_t pseed = 0;
	uint64_t nprobes = 0;
	bool in_probe = false;
	bool nullerr = false;
	bool verify_every = true;
	bool beyond = false;     // more bad blocks in a row than resume looks at
	bool eol = false;        // an end-of-life error has been seen
	uint64_t opno = 0;
	Rng vr;
	Counts last;             // NAND counts of the last API call
	std::vector<std::string> *log = nullptr;

	// results of the last op
	int last_rc = 0; dhara_error_t last_err = DHARA_E_NONE; bool last_skipped = false, last_cut = false;
	uint32_t cap_before = 0;

	World(const Case &c, Stats *s);
	~World();
	World(const World &) = delete;

	void exec(const Op &o);
	void run_all() { for (auto &o : cs.ops) exec(o); }
	void verify_all(const char *when);
	void verify_one(int idx, const char *when);
	void verify_absent(const char *when);
	void handle_cut();
	void renew();
	void clean_resume();
	void unclean_resume();
	void probe(int kind, uint32_t where);
	void probe_variant(int kind, uint32_t where, int var);
	void observe(Inst &i, std::vector<uint64_t> &out, const char *when);
	// is the observed state allowed after a cut now?
	bool matches(const std::vector<uint64_t> &obs, std::string *why);
	void adopt(const std::vector<uint64_t> &obs);
	void synced();
	void check_marked(const char *when);
	bool marks_ok = true;
	void do_sync();
	uint64_t content(uint32_t id, uint32_t kind); // fills wbuf
	void commit(Delta d);
	void finish_op(int rc, dhara_error_t e, Delta d, const char *name, int idx, bool isnew);
	// raises Known if this failure is a recorded finding
	// with eight bad blocks in a row the tail may stop inside a bad block
	bool eol_error(dhara_error_t e) { return e == DHARA_E_TOO_BAD || e == DHARA_E_JOURNAL_FULL || e == DHARA_E_MAP_FULL || (e == DHARA_E_ECC && bad_run(sim) >= 7); }
	void classify(Sim &s, Inst &i, dhara_error_t e);
	void after_call(const char *name);
	void continue_on(Sim &s, Inst &i, std::vector<uint64_t> obs, uint64_t seed);
	std::string sname(int idx) { return sfmt("sector 0x%x", sec[idx]); }
};
#endif
