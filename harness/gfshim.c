/* Compiled once per build of the field arithmetic (see run.py). */
#include <ecc/gf13.h>
#ifndef VF
#define VF(x) tb_##x
#endif
unsigned VF(mul)(unsigned a, unsigned b) { return gf13_mul(a, b); }
unsigned VF(div)(unsigned a, unsigned b) { return gf13_div(a, b); }
unsigned VF(mulx)(unsigned a) { return gf13_mulx(a); }
unsigned VF(divx)(unsigned a) { return gf13_divx(a); }
