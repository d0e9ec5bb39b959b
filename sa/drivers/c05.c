/* C05: fstrm_control_decode() against an independent description of well-formed control frames.
 * Exhaustive by layout for short frames (every byte symbolic), by edges for long ones, and to a fixpoint for any length. */
#include "sa.h"
#include <string.h>
#include <stdlib.h>
#include <fstrm.h>
#define MAXF 66
static struct fstrm_control *c;
static uint8_t *fr; static size_t L, pos; static int hdr, valid, done; static uint32_t ftype;
static size_t nf, flen[MAXF], fpos[MAXF];

static int known(uint32_t t) { return t == FSTRM_CONTROL_ACCEPT || t == FSTRM_CONTROL_START || t == FSTRM_CONTROL_STOP || t == FSTRM_CONTROL_READY || t == FSTRM_CONTROL_FINISH; }
static void bad(void) { valid = 0; done = 1; }
/* the next big-endian word of the frame */
static void word(uint32_t v)
{
	uint32_t be = __builtin_bswap32(v);
	memcpy(fr + pos, &be, 4); pos += 4;
}
static int room(size_t n) { return L - pos >= n; }
static void header(void)
{
	if (!hdr) { if (L > 512) bad(); return; }
	if (!room(8)) { bad(); return; }
	uint32_t e = __sa_uint(), n = __sa_uint();
	word(e); word(n);
	if (e != 0) { bad(); return; }
	if (n != L - 8) { bad(); return; }
	if (n > 512) bad();
}
static void type(void)
{
	if (done) return;
	if (!room(4)) { bad(); return; }
	ftype = __sa_uint();
	word(ftype);
	if (!known(ftype)) bad();
}
/* one field of payload length k, or (k above what is left) one that does not fit */
static void field(size_t k)
{
	if (!room(4)) { bad(); return; }
	uint32_t tag = __sa_uint();
	word(tag);
	if (tag != FSTRM_CONTROL_FIELD_CONTENT_TYPE) { bad(); return; }
	if (!room(4)) { bad(); return; }
	if (k > L - pos - 4) {
		uint32_t n = __sa_uint();
		word(n);
		__sa_assume(n > L - pos);
		bad(); return;
	}
	word((uint32_t) k);
	if (k > 256) { pos += k; bad(); return; }
	flen[nf] = k; fpos[nf] = pos; nf++;
	for (size_t i = 0; i < k; i++) fr[pos + i] = (uint8_t) __sa_range(0, 255);
	pos += k;
}
static void count_rule(void)
{
	if (done) return;
	if (ftype == FSTRM_CONTROL_START && nf > 1) valid = 0;
	if ((ftype == FSTRM_CONTROL_STOP || ftype == FSTRM_CONTROL_FINISH) && nf > 0) valid = 0;
}
static void start(size_t len)
{
	L = len; fr = __sa_obj(L); __sa_track(fr, 0); pos = 0; valid = 1; done = 0; nf = 0; ftype = 0;
	c = fstrm_control_init();
	if (__sa_bool()) {
		/* an object used before */
		uint8_t old[2] = { 7, 8 };
		fstrm_control_set_type(c, __sa_bool() ? FSTRM_CONTROL_READY : FSTRM_CONTROL_STOP);
		fstrm_control_add_field_content_type(c, old, 2);
	}
}
static void same(size_t i)
{
	const uint8_t *p = NULL; size_t n = 0;
	fstrm_res r = fstrm_control_get_field_content_type(c, i, &p, &n);
	__sa_check(r == fstrm_res_success && n == flen[i], "C05.types", "a decoded content type is missing, extra or of another length than in the frame");
	for (size_t k = 0; k < flen[i]; k++) __sa_check(p[k] == fr[fpos[i] + k], "C05.types", "a decoded content type is not the bytes of the frame");
}
static void ckvalid(fstrm_res r)
{
	__sa_check(r == fstrm_res_success, "C05.rejects", "a well-formed control frame is refused");
	fstrm_control_type t = 0; size_t n = 99;
	fstrm_res g = fstrm_control_get_type(c, &t);
	__sa_check(g == fstrm_res_success && t == ftype, "C05.type", "the decoded type is not the frame's");
	fstrm_control_get_num_field_content_type(c, &n);
	__sa_check(n == nf, "C05.count", "the decoded object has another number of content types than the frame");
	for (size_t i = 0; i < nf; i++) same(i);
	__sa_reach("C05.valid");
}
static void ckinvalid(fstrm_res r)
{
	__sa_check(r != fstrm_res_success, "C05.accepts", "a malformed control frame is accepted");
	__sa_reach("C05.invalid");
}
static void run(void)
{
	count_rule();
	fstrm_res r = fstrm_control_decode(c, fr, L, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0);
	if (valid) ckvalid(r); else ckinvalid(r);
	fstrm_control_destroy(&c);
	__sa_no_leak("C05.leak");
}
/* every frame of exactly len bytes */
static void all(size_t len)
{
	start(len);
	header(); type();
	while (!done && pos < L) {
		size_t left = L - pos >= 8 ? L - pos - 8 : 0;
		field((size_t) __sa_choice((int) left + 2));
	}
	run();
}
/* frames made of fields of given payload lengths, the announced numbers symbolic where they decide nothing else */
static void shape(size_t len, size_t k1, size_t k2, size_t k3)
{
	start(len);
	header(); type();
	if (!done && pos < L) field(k1);
	if (!done && pos < L) field(k2);
	if (!done && pos < L) field(k3);
	if (!done && pos < L) bad();
	run();
}
static void many(size_t n, size_t extra)
{
	start((hdr ? 12 : 4) + 8 * n + extra);
	header(); type();
	for (size_t i = 0; i < n && !done; i++) field(0);
	if (!done && extra) field(0);
	run();
}
#define RANGE(N, H, LO, HI) void check_##N(void) { hdr = H; all((size_t) (LO + __sa_choice(HI - LO + 1))); }
RANGE(plain_a, 0, 0, 19)
RANGE(plain_b, 0, 20, 23)
RANGE(plain_c, 0, 24, 26)
RANGE(plain_d, 0, 27, 28)
RANGE(hdr_a, 1, 0, 27)
RANGE(hdr_b, 1, 28, 31)
RANGE(hdr_c, 1, 32, 34)
#define BIG(N, H, B) \
void check_##N##_0(void) { hdr = H; shape(B + 4 + 8 + 256, 256, 0, 0); } \
void check_##N##_1(void) { hdr = H; shape(B + 4 + 8 + 257, 257, 0, 0); } \
void check_##N##_2(void) { hdr = H; shape(B + 512, 256, 236, 0); } \
void check_##N##_3(void) { hdr = H; shape(B + 513, 256, 237, 0); } \
void check_##N##_4(void) { hdr = H; shape(B + 512, 0, 256, 228); } \
void check_##N##_5(void) { hdr = H; shape(B + 511, 250, 241, 0); } \
void check_##N##_6(void) { hdr = H; shape(B + 4 + 8 + 255, 256, 0, 0); } \
void check_##N##_7(void) { hdr = H; shape(B + 516, 160, 160, 168); } \
void check_##N##_8(void) { hdr = H; many(12, 0); } \
void check_##N##_9(void) { hdr = H; many(11, 4); } \
void check_##N##_11(void) { hdr = H; many(63, 0); } \
void check_##N##_12(void) { hdr = H; many(63, 4); } \
void check_##N##_10(void) { hdr = H; many(64, 0); }
BIG(big, 0, 0)
BIG(bigh, 1, 8)

