/* C07: the accessors of control objects against an ideal object, for any order of calls. */
#include "sa.h"
#include <string.h>
#include <stdlib.h>
#include <fstrm.h>
#define MAXT 3
static struct fstrm_control *c;
static uint32_t ty; static size_t n, len[MAXT + 1]; static uint8_t ref[MAXT + 1][2];

/* comparing memory, byte by byte */
int memcmp(const void *a, const void *b, size_t m)
{
	const uint8_t *x = a, *y = b;
	for (size_t i = 0; i < m; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
	return 0;
}
static int defined(uint32_t t) { return t == FSTRM_CONTROL_ACCEPT || t == FSTRM_CONTROL_START || t == FSTRM_CONTROL_STOP || t == FSTRM_CONTROL_READY || t == FSTRM_CONTROL_FINISH; }
static size_t reported(void) { return ty == FSTRM_CONTROL_STOP || ty == FSTRM_CONTROL_FINISH ? 0 : ty == FSTRM_CONTROL_START && n > 1 ? 1 : n; }
static void like(void)
{
	fstrm_control_type t = 77; size_t m = 99;
	fstrm_res r = fstrm_control_get_type(c, &t);
	if (ty) __sa_check(r == fstrm_res_success && (uint32_t) t == ty, "C07.type", "the reported type is not the one that was set");
	else __sa_check(r != fstrm_res_success && t == 77, "C07.type", "a type is reported although none was set");
	r = fstrm_control_get_num_field_content_type(c, &m);
	__sa_check(r == fstrm_res_success && m == reported(), "C07.count", "the reported number of content types breaks the type's rule");
}
static void op_set_type(void)
{
	uint32_t t = __sa_uint();
	fstrm_res r = fstrm_control_set_type(c, t);
	if (defined(t)) {
		__sa_check(r == fstrm_res_success, "C07.set", "a defined control type is refused");
		if (t == FSTRM_CONTROL_ACCEPT) ty = FSTRM_CONTROL_ACCEPT;
		else if (t == FSTRM_CONTROL_START) ty = FSTRM_CONTROL_START;
		else if (t == FSTRM_CONTROL_STOP) ty = FSTRM_CONTROL_STOP;
		else if (t == FSTRM_CONTROL_READY) ty = FSTRM_CONTROL_READY;
		else ty = FSTRM_CONTROL_FINISH;
	} else __sa_check(r != fstrm_res_success, "C07.set", "an undefined control type is accepted");
}
static void op_add(void)
{
	if (n == MAXT) __sa_stop();
	size_t l = (size_t) __sa_choice(3);
	uint8_t *src = __sa_heap(l);
	for (size_t i = 0; i < l; i++) { src[i] = (uint8_t) __sa_range(0, 255); ref[n][i] = src[i]; }
	fstrm_res r = fstrm_control_add_field_content_type(c, src, l);
	__sa_check(r == fstrm_res_success, "C07.add", "a content type within the limit is refused");
	for (size_t i = 0; i < l; i++) src[i] = (uint8_t) __sa_range(0, 255);
	free(src);      /* the caller's bytes are the caller's */
	len[n++] = l;
}
static void op_add_long(void)
{
	size_t l = (size_t) __sa_range(257, 1L << 40);
	fstrm_res r = fstrm_control_add_field_content_type(c, __sa_obj(l), l);
	__sa_check(r != fstrm_res_success, "C07.long", "a content type longer than 256 bytes is accepted");
}
static void op_get(void)
{
	size_t i = (size_t) __sa_choice(MAXT + 1);
	const uint8_t *p = NULL; size_t l = 99;
	fstrm_res r = fstrm_control_get_field_content_type(c, i, &p, &l);
	if (i < n) {
		__sa_check(r == fstrm_res_success && l == len[i], "C07.get", "an existing content type is not returned");
		for (size_t k = 0; k < len[i]; k++) __sa_check(p[k] == ref[i][k], "C07.get", "the returned bytes are not the stored ones");
		__sa_reach("C07.got");
	} else __sa_check(r != fstrm_res_success, "C07.index", "a content type that does not exist is returned");
}
static void op_get_any(void)
{
	size_t i = __sa_size();
	const uint8_t *p = NULL; size_t l = 99;
	if (i < n) __sa_stop();
	fstrm_res r = fstrm_control_get_field_content_type(c, i, &p, &l);
	__sa_check(r != fstrm_res_success, "C07.index", "a content type that does not exist is returned");
}
static uint8_t m[2]; static size_t ml; static size_t why[MAXT];
static int equal(size_t i)
{
	why[i] = 0;
	if (len[i] != ml) return 0;
	for (size_t k = 0; k < ml; k++) if (m[k] != ref[i][k]) { why[i] = k + 1; return 0; }
	return 1;
}
static void op_match(void)
{
	ml = (size_t) __sa_choice(3);
	for (size_t k = 0; k < ml; k++) m[k] = (uint8_t) __sa_range(0, 255);
	int want = 0;
	if (ty == FSTRM_CONTROL_STOP || ty == FSTRM_CONTROL_FINISH) want = 0;
	else if (reported() == 0) want = 1;
	else for (size_t i = 0; i < reported(); i++) if (equal(i)) { want = 1; break; }
	fstrm_res r = fstrm_control_match_field_content_type(c, m, ml);
	if (want) { __sa_check(r == fstrm_res_success, "C07.match", "a content type the frame names does not match"); __sa_reach("C07.matched"); }
	else { __sa_check(r != fstrm_res_success, "C07.mismatch", "a content type the frame does not name matches"); __sa_reach("C07.mismatched"); }
}
static void op_match_null(void)
{
	fstrm_res r = fstrm_control_match_field_content_type(c, NULL, 0);
	if (ty == FSTRM_CONTROL_STOP || ty == FSTRM_CONTROL_FINISH) __sa_check(r != fstrm_res_success, "C07.mismatch", "STOP or FINISH matches a content type");
	else __sa_check((r == fstrm_res_success) == (reported() == 0), "C07.null", "no content type matches a frame that names one, or does not match a frame that names none");
}
static void reset(void) { fstrm_control_reset(c); ty = 0; n = 0; }
static void finish(void)
{
	fstrm_control_destroy(&c);
	__sa_check(c == NULL, "C07.destroy", "destroy leaves the handle set");
	__sa_no_leak("C07.leak");
	fstrm_control_destroy(&c);
	__sa_reach("C07.end");
}
static void scrub(void)
{
	for (size_t i = n; i < MAXT; i++) { ref[i][0] = 0; ref[i][1] = 0; len[i] = 0; }
}
/* everything but matching: any order */
void check_client(void)
{
	c = fstrm_control_init(); ty = 0; n = 0; scrub();
	like();
	for (;;) {
		int k = __sa_choice(6);
		if (k == 0) op_set_type();
		else if (k == 1) op_add();
		else if (k == 2) op_add_long();
		else if (k == 3) op_get();
		else if (k == 4) op_get_any();
		else reset();
		scrub();
		like();
		if (__sa_bool()) break;
	}
	finish();
}
/* from any state with up to three content types: what matches */
static void filled(size_t k, int t)
{
	c = fstrm_control_init(); ty = 0; n = 0; scrub();
	if (t >= 0) {
		ty = t == 0 ? FSTRM_CONTROL_ACCEPT : t == 1 ? FSTRM_CONTROL_START : t == 2 ? FSTRM_CONTROL_STOP : t == 3 ? FSTRM_CONTROL_READY : FSTRM_CONTROL_FINISH;
		fstrm_res r = fstrm_control_set_type(c, ty);
		__sa_check(r == fstrm_res_success, "C07.set", "a defined control type is refused");
	}
	while (n < k) op_add();
}
static void matching(size_t k)
{
	filled(k, __sa_choice(6) - 1);
	if (__sa_bool()) op_match(); else op_match_null();
	like();
	finish();
}
void check_match_0(void) { matching(0); }
void check_match_1(void) { matching(1); }
void check_match_2(void) { matching(2); }
void check_match_3(void) { matching(3); }

/* long content types that differ in one byte, or in length only */
static uint8_t la[256], lb[256];
static void longm(size_t l, size_t l2)
{
	for (size_t i = 0; i < 256; i++) { la[i] = (uint8_t) (i * 7 + 1); lb[i] = la[i]; }
	int where = __sa_choice(7);
	size_t at = where == 0 ? 0 : where == 1 ? 7 : where == 2 ? 15 : where == 3 ? 16 : where == 4 ? l / 2 : where == 5 ? l - 2 : l - 1;
	int differs = __sa_bool();
	if (differs) lb[at] ^= (uint8_t) (__sa_bool() ? 1 : 0x80);
	c = fstrm_control_init(); ty = 0;
	fstrm_control_set_type(c, __sa_bool() ? FSTRM_CONTROL_READY : FSTRM_CONTROL_START);
	fstrm_res r = fstrm_control_add_field_content_type(c, la, l);
	__sa_check(r == fstrm_res_success, "C07.add", "a content type within the limit is refused");
	r = fstrm_control_match_field_content_type(c, lb, l2);
	__sa_check((r == fstrm_res_success) == (!differs && l == l2), "C07.long-match", "matching is not byte-for-byte equality of the same length");
	const uint8_t *p = NULL; size_t got = 0;
	r = fstrm_control_get_field_content_type(c, 0, &p, &got);
	__sa_check(r == fstrm_res_success && got == l, "C07.get", "an existing content type is not returned");
	for (size_t k = 0; k < l; k++) __sa_check(p[k] == la[k], "C07.get", "the returned bytes are not the stored ones");
	finish();
}
void check_long_40(void) { longm(40, 40); }
void check_long_256(void) { longm(256, 256); }
void check_prefix(void) { longm(40, (size_t) (__sa_bool() ? 39 : 41)); }
/* NUL bytes are ordinary bytes */
void check_nul(void)
{
	uint8_t a[4] = { 'x', 0, 'y', 0 }, b[4] = { 'x', 0, 'z', 0 }, d[4] = { 0, 1, 2, 3 }, e[4] = { 0, 9, 2, 3 };
	c = fstrm_control_init(); ty = 0;
	fstrm_control_set_type(c, FSTRM_CONTROL_READY);
	fstrm_control_add_field_content_type(c, a, 4);
	fstrm_control_add_field_content_type(c, d, 4);
	fstrm_res r1 = fstrm_control_match_field_content_type(c, b, 4), r2 = fstrm_control_match_field_content_type(c, e, 4),
		r3 = fstrm_control_match_field_content_type(c, a, 4), r4 = fstrm_control_match_field_content_type(c, d, 4), r5 = fstrm_control_match_field_content_type(c, a, 1);
	__sa_check(r1 != fstrm_res_success && r2 != fstrm_res_success && r5 != fstrm_res_success, "C07.nul", "content types that differ after a NUL byte match");
	__sa_check(r3 == fstrm_res_success && r4 == fstrm_res_success, "C07.nul", "content types with NUL bytes do not match themselves");
	finish();
}
/* any length up to the limit is stored with its length; setters refuse every other value without a change */
void check_any_add(void)
{
	c = fstrm_control_init();
	size_t l = __sa_size();
	const uint8_t *p = __sa_obj(l), *q = NULL; size_t g = 0;
	fstrm_res r = fstrm_control_add_field_content_type(c, p, l);
	__sa_check((r == fstrm_res_success) == (l <= 256), "C07.long", "the limit on the length of a content type is not 256 bytes");
	fstrm_res r2 = fstrm_control_get_field_content_type(c, 0, &q, &g);
	__sa_check((r2 == fstrm_res_success) == (r == fstrm_res_success), "C07.long", "a refused content type is stored, or an accepted one is not");
	if (r2 == fstrm_res_success) {
		__sa_check(g == l && q != p, "C07.copy", "a content type is not stored as a copy of the same length");
		__sa_reach("C07.any");
	}
	fstrm_control_destroy(&c);
}
