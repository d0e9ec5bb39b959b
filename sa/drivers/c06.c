/* C06: fstrm_control_encode() and fstrm_control_encoded_size() against an independent description of control frames. */
#include "sa.h"
#include <string.h>
#include <stdlib.h>
#include <fstrm.h>
static struct fstrm_control *c;
static uint32_t ty, fl; static size_t n, len[8], size; static uint8_t ct[8][4]; static const uint8_t *big; static int fits;

static void typed(void)
{
	int k = __sa_choice(5);
	ty = k == 0 ? FSTRM_CONTROL_ACCEPT : k == 1 ? FSTRM_CONTROL_START : k == 2 ? FSTRM_CONTROL_STOP : k == 3 ? FSTRM_CONTROL_READY : FSTRM_CONTROL_FINISH;
	c = fstrm_control_init();
	fstrm_res r = fstrm_control_set_type(c, ty);
	__sa_check(r == fstrm_res_success, "C06.setup", "a defined control type is refused");
	fl = __sa_bool() ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0;
}
static size_t emitted(void) { return ty == FSTRM_CONTROL_STOP || ty == FSTRM_CONTROL_FINISH ? 0 : ty == FSTRM_CONTROL_START && n > 1 ? 1 : n; }
static uint32_t be(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return __builtin_bswap32(v); }
static void ckbyte(int ok) { __sa_check(ok, "C06.bytes", "the encoded control frame is not the one the object describes"); }

/* the object has n content types, len[i] bytes each, held in ct[i] (or all in big when longer than 4) */
static void encode(void)
{
	size_t m = emitted();
	size = (fl ? 8 : 0) + 4;
	for (size_t i = 0; i < m; i++) size += 8 + len[i];
	/* the limit is on the frame; announced to be refused when even the frame without its header is over it */
	fits = size - (fl ? 8 : 0) <= FSTRM_CONTROL_FRAME_LENGTH_MAX;
	size_t got = 12345;
	fstrm_res r = fstrm_control_encoded_size(c, &got, fl);
	if (!fits) {
		__sa_check(r != fstrm_res_success, "C06.limit", "a control frame over the size limit gets an encoded size");
		__sa_reach("C06.oversize");
	} else if (size <= FSTRM_CONTROL_FRAME_LENGTH_MAX) {
		__sa_check(r == fstrm_res_success && got == size, "C06.size", "the announced size is not the number of bytes the frame has");
	} else if (r == fstrm_res_success) __sa_check(got == size, "C06.size", "the announced size is not the number of bytes the frame has");
	int sized = r == fstrm_res_success;
	size_t room = size + (size_t) __sa_choice(3) - 1;   /* one short, exact, one more */
	uint8_t *out = __sa_heap(room);
	__sa_track(out, 0);
	size_t io = room;
	r = fstrm_control_encode(c, out, &io, fl);
	__sa_check((r == fstrm_res_success) == (sized && room >= size), "C06.fits", "encode succeeds for a frame that does not fit (or has no encoded size), or fails for one that does");
	if (r == fstrm_res_success) {
		__sa_check(io == size, "C06.size", "the size stored back is not the number of bytes the frame has");
		const uint8_t *p = out;
		if (fl) { ckbyte(be(p) == 0); ckbyte(be(p + 4) == size - 8); p += 8; }
		ckbyte(be(p) == ty); p += 4;
		for (size_t i = 0; i < m; i++) {
			ckbyte(be(p) == FSTRM_CONTROL_FIELD_CONTENT_TYPE); ckbyte(be(p + 4) == len[i]); p += 8;
			const uint8_t *src = len[i] <= 4 ? ct[i] : big;
			for (size_t k = 0; k < len[i]; k++) ckbyte(p[k] == src[k]);
			p += len[i];
		}
		__sa_reach("C06.encoded");
	}
	free(out);
	fstrm_control_destroy(&c);
	__sa_no_leak("C06.leak");
}
static void add(size_t l)
{
	for (size_t k = 0; k < l && k < 4; k++) ct[n][k] = (uint8_t) __sa_range(0, 255);
	len[n] = l;
	fstrm_res r = fstrm_control_add_field_content_type(c, l <= 4 ? ct[n] : big, l);
	__sa_check(r == fstrm_res_success, "C06.setup", "a content type within the limit is refused");
	n++;
}
void check_small(void)
{
	typed(); n = 0;
	size_t want = (size_t) __sa_choice(4);
	while (n < want) add((size_t) __sa_choice(4));
	encode();
}
static uint8_t bytes[256];
static void lens(size_t a, size_t b, size_t d, size_t e)
{
	for (size_t k = 0; k < 256; k++) bytes[k] = (uint8_t) __sa_range(0, 255);
	big = bytes;
	typed(); n = 0;
	add(a); if (b != 999) add(b); if (d != 999) add(d); if (e != 999) add(e);
	encode();
}
void check_256(void) { lens(256, 999, 999, 999); }
void check_480(void) { lens(224, 256, 999, 999); }       /* 4 + 232 + 264 = 500 */
void check_492(void) { lens(236, 256, 999, 999); }       /* exactly 512 without header, 520 with it */
void check_493(void) { lens(256, 237, 999, 999); }       /* 513 */
void check_484(void) { lens(228, 256, 999, 999); }       /* exactly 512 with header */
void check_485(void) { lens(229, 256, 999, 999); }
void check_three(void) { lens(100, 200, 180, 999); }     /* 508 */
void check_three2(void) { lens(100, 200, 185, 999); }    /* 513 */
void check_three3(void) { lens(250, 0, 238, 999); }
void check_four(void) { lens(256, 256, 256, 256); }

/* objects with any number of content types of any lengths, encoded into a buffer of any size: bounds and the size stored back */
void check_any_1(void)
{
	typed();
	size_t l = (size_t) __sa_range(0, 256);
	const uint8_t *p = __sa_obj(l);
	fstrm_res a = fstrm_control_add_field_content_type(c, p, l);
	__sa_check(a == fstrm_res_success, "C06.setup", "a content type within the limit is refused");
	size_t room = __sa_size(), io = room, sz = 0;
	uint8_t *out = __sa_obj(room);
	fstrm_res s = fstrm_control_encoded_size(c, &sz, fl);
	fstrm_res r = fstrm_control_encode(c, out, &io, fl);
	size_t want = (fl ? 12 : 4) + (ty == FSTRM_CONTROL_STOP || ty == FSTRM_CONTROL_FINISH ? 0 : 8 + l);
	__sa_check(s == fstrm_res_success && sz == want, "C06.size", "the announced size is not the number of bytes the frame has");
	__sa_check((r == fstrm_res_success) == (room >= want), "C06.fits", "encode succeeds for a frame that does not fit, or fails for one that does");
	if (r == fstrm_res_success) __sa_check(io == want, "C06.size", "the size stored back is not the number of bytes the frame has");
	__sa_reach("C06.any");
}
void check_any_2(void)
{
	typed();
	size_t l = (size_t) __sa_range(0, 256), l2 = (size_t) __sa_range(0, 256);
	const uint8_t *p = __sa_obj(l), *p2 = __sa_obj(l2);
	fstrm_res a = fstrm_control_add_field_content_type(c, p, l), b = fstrm_control_add_field_content_type(c, p2, l2);
	__sa_check(a == fstrm_res_success && b == fstrm_res_success, "C06.setup", "a content type within the limit is refused");
	size_t room = __sa_size(), io = room, sz = 0;
	uint8_t *out = __sa_obj(room);
	fstrm_res s = fstrm_control_encoded_size(c, &sz, fl);
	fstrm_res r = fstrm_control_encode(c, out, &io, fl);
	size_t h = fl ? 12 : 4;
	size_t want = ty == FSTRM_CONTROL_STOP || ty == FSTRM_CONTROL_FINISH ? h : ty == FSTRM_CONTROL_START ? h + 8 + l : h + 16 + l + l2;
	int small = want <= 512, over = want > (size_t) (fl ? 520 : 512);
	if (small) __sa_check(s == fstrm_res_success && sz == want, "C06.size", "the announced size is not the number of bytes the frame has");
	if (over) __sa_check(s != fstrm_res_success, "C06.limit", "a control frame over the size limit gets an encoded size");
	if (s == fstrm_res_success) __sa_check((r == fstrm_res_success) == (room >= want), "C06.fits", "encode succeeds for a frame that does not fit, or fails for one that does");
	else __sa_check(r != fstrm_res_success, "C06.fits", "encode succeeds for a frame without an encoded size");
	if (r == fstrm_res_success) __sa_check(io == want, "C06.size", "the size stored back is not the number of bytes the frame has");
	__sa_reach("C06.any");
}
