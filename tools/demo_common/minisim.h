/* Small NAND simulator for the demonstrations (one chip, C). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include "dhara/map.h"
#include "dhara/journal.h"
#include "dhara/nand.h"
#include "dhara/error.h"

#define MAXP 8192
#define MAXSZ 2048
static struct dhara_nand nd;
static uint8_t pg[MAXP][MAXSZ];
static uint8_t st[MAXP];		/* 0 erased 1 programmed 2 unreadable */
static uint8_t marked[MAXP], failed[MAXP], erased_once[MAXP];
static unsigned erases[MAXP];
static long muts, reads_done, fail_at = -1, cut_at = -1, rderr_at = -1, frees_done;
static int cut_kind;			/* 0 before, 1 torn, 2 after */
static int imprecise;
static long fail_list[16]; static int nfail;
static const char *proto;
static jmp_buf cutj;
static long budget = -1;

static void die(const char *m) { printf("DEMO FAILS: %s\n", m); exit(1); }
static void spend(void) { if (budget >= 0 && budget-- == 0) die("endless loop"); }
static unsigned ppb_(void) { return 1u << nd.log2_ppb; }
static size_t psz_(void) { return (size_t)1 << nd.log2_page_size; }
static int blankp(unsigned p) { size_t i; for (i = 0; i < psz_(); i++) if (pg[p][i] != 0xff) return 0; return 1; }

static void sim_init(int lps, int lppb, int nb)
{
	unsigned i;
	nd.log2_page_size = lps; nd.log2_ppb = lppb; nd.num_blocks = nb;
	memset(pg, 0x55, sizeof pg); memset(st, 1, sizeof st);
	memset(marked, 0, sizeof marked); memset(failed, 0, sizeof failed);
	memset(erased_once, 0, sizeof erased_once); memset(erases, 0, sizeof erases);
	muts = 0; fail_at = cut_at = rderr_at = -1; nfail = 0; proto = NULL;
	for (i = 0; i < MAXP; i++) st[i] = 1;
}
int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b) { spend(); if (b >= nd.num_blocks) proto = "is_bad outside chip"; return marked[b]; }
static int tickfail(unsigned b)
{
	int i;
	for (i = 0; i < nfail; i++) if (fail_list[i] == muts) failed[b] = 1;
	if (fail_at == muts) failed[b] = 1;
	return failed[b];
}
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b)
{
	spend(); muts++;
	if (muts == cut_at && cut_kind < 2) longjmp(cutj, 1);
	if (b >= nd.num_blocks) { proto = "mark_bad outside chip"; return; }
	if (!failed[b]) proto = "a good block is marked bad";
	marked[b] = 1;
	if (muts == cut_at) longjmp(cutj, 1);
}
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *err)
{
	unsigned i;
	spend(); muts++;
	if (b >= nd.num_blocks) { proto = "erase outside chip"; return -1; }
	if (marked[b]) proto = "erase of a bad block";
	if (muts == cut_at && cut_kind == 0) longjmp(cutj, 1);
	if (tickfail(b)) { dhara_set_error(err, DHARA_E_BAD_BLOCK); return -1; }
	for (i = 0; i < ppb_(); i++) {
		unsigned p = (b << nd.log2_ppb) + i;
		if (muts == cut_at && cut_kind == 1) { st[p] = 2; pg[p][0] = 0x5a; }
		else { st[p] = 0; memset(pg[p], 0xff, psz_()); }
	}
	erased_once[b] = 1; erases[b]++;
	if (muts == cut_at) longjmp(cutj, 1);
	return 0;
}
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *d, dhara_error_t *err)
{
	unsigned b = p >> nd.log2_ppb, i, ff = 1;
	spend(); muts++;
	if (b >= nd.num_blocks) { proto = "program outside chip"; return -1; }
	for (i = 0; i < psz_(); i++) if (d[i] != 0xff) ff = 0;
	if (marked[b]) proto = "program of a bad block";
	if (!erased_once[b]) proto = "program of a block never erased";
	if (imprecise ? !(ff || blankp(p)) || st[p] == 2 : st[p]) proto = "program of a page that is not erased";
	if (!(imprecise && ff)) for (i = p + 1; i < (b + 1) << nd.log2_ppb; i++) if (st[i]) proto = "pages of a block programmed out of order";
	if (muts == cut_at && cut_kind == 0) longjmp(cutj, 1);
	if (muts == cut_at && cut_kind == 1) { memset(pg[p], 0x5a, psz_()); st[p] = 1; longjmp(cutj, 1); }
	if (tickfail(b)) { memset(pg[p], 0x5a, psz_()); st[p] = 1; dhara_set_error(err, DHARA_E_BAD_BLOCK); return -1; }
	memcpy(pg[p], d, psz_());
	if (!(imprecise && ff)) st[p] = 1;
	if (muts == cut_at) longjmp(cutj, 1);
	return 0;
}
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p) { spend(); frees_done++; return imprecise ? st[p] != 2 && blankp(p) : !st[p]; }
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t off, size_t len, uint8_t *d, dhara_error_t *err)
{
	spend(); reads_done++;
	if (p >= nd.num_blocks << nd.log2_ppb) { proto = "read outside chip"; dhara_set_error(err, DHARA_E_ECC); return -1; }
	if (off + len > psz_()) { proto = "read outside page"; return -1; }
	if (st[p] == 2 || (rderr_at >= 0 && rderr_at-- == 0)) { memset(d, 0xa5, len); dhara_set_error(err, DHARA_E_ECC); return -1; }
	memcpy(d, pg[p] + off, len);
	return 0;
}
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t s, dhara_page_t t, dhara_error_t *err)
{
	uint8_t b[MAXSZ];
	if (dhara_nand_read(n, s, 0, psz_(), b, err) < 0) return -1;
	return dhara_nand_prog(n, t, b, err);
}

/* deterministic generator, independent of libc */
static uint64_t rs_ = 88172645463325252ULL;
static void rseed(uint64_t s) { rs_ = s * 0x9e3779b97f4a7c15ULL + 88172645463325252ULL; if (!rs_) rs_ = 1; }
static uint32_t rnd(uint32_t n) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return n ? (uint32_t)(rs_ >> 11) % n : 0; }

/* a map with a model: sector i of nsec has number sec[i] and holds page
 * filled from tag[i] (0: unmapped) */
#define MAXS 512
static struct dhara_map mp;
static uint8_t mpbuf[MAXSZ], iobuf[MAXSZ];
static uint32_t sec[MAXS], tag[MAXS]; static int nsec;
static uint32_t ntag;
static void fill(uint32_t t) { size_t i; uint32_t x = t * 2654435761u + 12345; for (i = 0; i < psz_(); i++) { x = x * 1664525 + 1013904223; iobuf[i] = x >> 24; } iobuf[0] = t | 0x80; }
static uint32_t count_model(void) { uint32_t n = 0; int i; for (i = 0; i < nsec; i++) n += tag[i] != 0; return n; }
static int m_write(int i) { dhara_error_t e; int r; fill(++ntag); r = dhara_map_write(&mp, sec[i], iobuf, &e); if (!r) tag[i] = ntag; return r; }
static int m_trim(int i) { dhara_error_t e; int r = dhara_map_trim(&mp, sec[i], &e); if (!r) tag[i] = 0; return r; }
static int m_copy(int a, int b) { dhara_error_t e; int r = dhara_map_copy_sector(&mp, sec[a], sec[b], &e); if (!r) tag[b] = tag[a]; return r; }
static int m_sync(void) { dhara_error_t e; return dhara_map_sync(&mp, &e); }
static int m_boot(int gc) { dhara_error_t e; memset(mpbuf, 0, sizeof mpbuf); dhara_map_init(&mp, &nd, mpbuf, gc); return dhara_map_resume(&mp, &e); }
static uint32_t look(int i) /* tag found, 0 unmapped, ~0 garbage */
{
	dhara_error_t e; dhara_page_t p; static uint8_t b[MAXSZ]; uint32_t t;
	if (dhara_map_find(&mp, sec[i], &p, &e) < 0) return e == DHARA_E_NOT_FOUND ? 0 : ~0u;
	if (dhara_map_read(&mp, sec[i], b, &e) < 0) return ~0u;
	for (t = ntag; t; t--) { fill(t); if (!memcmp(b, iobuf, psz_())) return t; }
	return ~0u;
}
static int same(int i) /* cheap: holds exactly what the model says */
{
	dhara_error_t e; dhara_page_t p; static uint8_t b[MAXSZ];
	if (dhara_map_find(&mp, sec[i], &p, &e) < 0) return e == DHARA_E_NOT_FOUND && !tag[i];
	if (!tag[i] || dhara_map_read(&mp, sec[i], b, &e) < 0) return 0;
	fill(tag[i]);
	return !memcmp(b, iobuf, psz_());
}
static void verify(const char *when)
{
	int i;
	for (i = 0; i < nsec; i++) if (!same(i)) die(when);
	if (dhara_map_size(&mp) != count_model()) die(when);
}
