#ifndef BIG_H
#define BIG_H
#include "world.h"
void gen_big(Case &c, Rng &r, const std::string &prop, bool thorough);
void run_big(const Case &c, Stats &st, std::vector<std::string> *log);
#endif
