// libFuzzer target: the input bytes are the choices of the case generator.
// Environment: VF_PROP, VF_OUT (directory for a failing case).
#include "gen.h"
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

int run_case(const Case &c, Stats &st, std::string *msg, std::vector<std::string> *log);

static std::string text;

static void dump()
{
	static const char m[] = "FAIL case written\n";
	std::string f = std::string(getenv("VF_OUT")) + "/fail";
	if (FILE *o = fopen(f.c_str(), "w")) { fputs(text.c_str(), o); fclose(o); }
	(void)!write(2, m, sizeof m - 1);
}

extern "C" void __sanitizer_set_death_callback(void (*)(void));

static void on_alarm(int) { dump(); _exit(97); }

extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
	signal(SIGVTALRM, on_alarm);
	return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	static const std::string prop = getenv("VF_PROP");
	static long cases, nontrivial;
	static bool once = (__sanitizer_set_death_callback(dump), true); // replaces libFuzzer's own
	(void)once;
	if (n < 4) return -1;
	RngSource src{d, n, 4};
	uint64_t idx = 1000000 + (d[0] | d[1] << 8), seed = d[2] | d[3] << 8;
	rng_source = &src;
	Case c = gen_case(prop, seed, idx, false);
	rng_source = nullptr;
	text = c.text();
	struct itimerval t = {};
	t.it_value.tv_sec = 30;
	setitimer(ITIMER_VIRTUAL, &t, NULL);
	Stats st;
	std::string msg;
	if (run_case(c, st, &msg, nullptr)) {
		fprintf(stderr, "FAIL %s\n", msg.c_str());
		dump();
		_exit(98);
	}
	cases++;
	nontrivial += st.n["nontrivial"] > 0;
	if (!(cases & (cases - 1)) || cases % 1000 == 0) fprintf(stderr, "VF %ld %ld\n", cases, nontrivial);
	return 0;
}
