/* C05: any length, any content: bounds of every access, and the limits.  The growable array of content types is abstract here (C22). */
#include "sa.h"
#include <stdlib.h>
#include <fstrm.h>
typedef struct { size_t len; uint8_t *data; } fs_buf;
typedef struct { int x; } fs_bufvec;
static fs_bufvec vec;
fs_bufvec *fs_bufvec_init(unsigned hint) { return &vec; }
void fs_bufvec_add(fs_bufvec *v, fs_buf b) { __sa_valid(b.data, b.len); __sa_check(b.len <= 256, "C05.limit", "a content type longer than 256 bytes is accepted"); free(b.data); }
size_t fs_bufvec_size(fs_bufvec *v) { return __sa_size(); }
void fs_bufvec_reset(fs_bufvec *v) { }
void fs_bufvec_destroy(fs_bufvec **v) { *v = NULL; }
fs_buf fs_bufvec_value(fs_bufvec *v, size_t i) { fs_buf b = { 0, NULL }; return b; }

void check_any(void)
{
	size_t n = (size_t) __sa_range(0, 1L << 40);
	int h = __sa_bool();
	struct fstrm_control *c = fstrm_control_init();
	const void *p = __sa_obj(n);
	fstrm_res r = fstrm_control_decode(c, p, n, h ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0);
	if (r == fstrm_res_success) {
		__sa_check(n <= (h ? 520 : 512), "C05.limit", "a control frame longer than 512 bytes is accepted");
		__sa_check(n >= (h ? 12 : 4), "C05.limit", "a control frame without a type is accepted");
		__sa_reach("C05.any");
	}
}
