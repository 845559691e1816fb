#include "gen.h"
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <fstream>
#include <sstream>

int run_case(const Case &c, Stats &st, std::string *msg, std::vector<std::string> *log); // drivers.cpp

static void usage() { fprintf(stderr, "usage: h run PROP SEED START STEP COUNT THOROUGH OUTDIR | h replay FILE [-v] | h gen PROP SEED IDX [THOROUGH]\n"); exit(3); }

static void on_alarm(int) { static const char m[] = "HANG: case exceeded its CPU time\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }

static void arm(int sec)
{
	struct itimerval t = {};
	t.it_value.tv_sec = sec;
	setitimer(ITIMER_VIRTUAL, &t, NULL);
}

static std::string esc(const std::string &s) { std::string o; for (char c : s) o += (c == '\n' || c == '\r') ? ' ' : c; return o; }

int main(int argc, char **argv)
{
	if (argc < 3) usage();
	signal(SIGVTALRM, on_alarm);
	std::string cmd = argv[1];
	if (cmd == "gen") {
		Case c = gen_case(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), argc > 5 && atoi(argv[5]));
		fputs(c.text().c_str(), stdout);
		return 0;
	}
	if (cmd == "replay") {
		std::ifstream f(argv[2]);
		std::stringstream ss;
		ss << f.rdbuf();
		// several cases, separated by lines "---", run one after another in this process
		std::vector<std::string> parts(1);
		for (std::string l; std::getline(ss, l);) { if (l == "---") parts.emplace_back(); else parts.back() += l + "\n"; }
		bool v = argc > 3 && !strcmp(argv[3], "-v");
		for (size_t i = 0; i < parts.size(); i++) {
			Case c = Case::parse(parts[i]);
			Stats st;
			std::string msg;
			std::vector<std::string> log;
			arm(30);
			int rc = run_case(c, st, &msg, v ? &log : nullptr);
			for (auto &l : log) puts(l.c_str());
			if (rc) { printf("FAIL %s\n", esc(msg).c_str()); return 1; }
			if (i + 1 == parts.size()) for (auto &k : st.n) printf("STAT %s %lld\n", k.first.c_str(), (long long)k.second);
		}
		puts("PASS");
		return 0;
	}
	if (cmd != "run" || argc < 9) usage();
	std::string prop = argv[2];
	uint64_t seed = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), step = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
	bool thorough = atoi(argv[7]);
	std::string out = argv[8];
	Stats total;
	for (uint64_t i = start; i < count; i += step) {
		Stats st;
		std::string msg;
		// the parent learns which case was running if this process dies
		{ FILE *f = fopen((out + "/cur").c_str(), "w"); if (f) { fprintf(f, "%llu\n", (unsigned long long)i); fclose(f); } }
		arm(60);
		Case c = gen_case(prop, seed, i, thorough);
		int rc = run_case(c, st, &msg, nullptr);
		if (rc) {
			FILE *f = fopen((out + "/fail").c_str(), "w");
			fputs(c.text().c_str(), f);
			fclose(f);
			printf("FAIL %llu %s\n", (unsigned long long)i, esc(msg).c_str());
			fflush(stdout);
			return 1;
		}
		std::string txt = c.text();
		uint64_t h = hash_bytes((const uint8_t *)txt.data(), txt.size());
		total.add("cases");
		printf("C %llu %016llx %lld\n", (unsigned long long)i, (unsigned long long)h, (long long)st.n["nontrivial"]);
		fflush(stdout);
		st.n.erase("nontrivial");
		for (auto &k : st.n) { if (k.first.compare(0, 3, "max") == 0) total.mx(k.first.c_str(), k.second); else total.add(k.first.c_str(), k.second); if (k.second > 0) total.add(("cases_with_" + k.first).c_str()); }
	}
	for (auto &k : total.n) printf("STAT %s %lld\n", k.first.c_str(), (long long)k.second);
	puts("DONE");
	return 0;
}
