#ifndef GEN_H
#define GEN_H
#include "world.h"
Case gen_case(const std::string &prop, uint64_t seed, uint64_t idx, bool thorough);
uint32_t model_capacity(int lps, int lppb, uint32_t nb, uint32_t bad, uint32_t gc);
int ppc_of(int lps, int lppb);
struct GeoOpt { int lps_min = 8, lps_max = 11; int lppb_min = 1, lppb_max = 5; uint32_t max_pages = 1200; uint32_t extra_pct = 60; int maxbad = 0; uint32_t min_cap = 2; int big_pct = 2; };
void gen_geo(Case &c, Rng &r, const GeoOpt &g);
void gen_sectors(Case &c, Rng &r, uint32_t n);
enum { SUBPROPS = 8 };
extern const char *const subprops[SUBPROPS]; // cases of these are also run by C20
#endif
