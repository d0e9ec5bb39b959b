/* C16, C21: reader and writer options. */
#include "sa.h"
#include <string.h>
#include <stdlib.h>
#include "fstrm-private.h"

static char *wrote; static int writes, watch_on;
void sa_access(int id, char *p, int write) { if (watch_on && write) { wrote = p; writes++; } }

static void max_frame(void)
{
	struct fstrm_reader_options *o = fstrm_reader_options_init();
	__sa_watch(o, 1);
	watch_on = 1;
	fstrm_res r = fstrm_reader_options_set_max_frame_size(o, 70000);
	__sa_check(r == fstrm_res_success && wrote != NULL, "C16.max-frame", "a maximum frame size in range is refused");
	size_t off = (size_t)(wrote - (char *) o);
	watch_on = 0;
	struct fstrm_reader_options *p = fstrm_reader_options_init();
	size_t *field = (size_t *)((char *) p + off);
	__sa_check(*field == FSTRM_READER_MAX_FRAME_SIZE_DEFAULT && *field == 1048576, "C16.max-frame-default", "a fresh options object does not hold the documented maximum frame size");
	size_t v = __sa_size();
	int c = v < 512 ? 1 : v > UINT32_MAX - 1 ? 2 : 0;
	r = fstrm_reader_options_set_max_frame_size(p, v);
	if (c) {
		__sa_check(r == fstrm_res_failure, "C16.max-frame-refused", "a maximum frame size out of range is accepted");
		__sa_check(*field == 1048576, "C16.max-frame-refused", "a refused maximum frame size is stored");
	} else {
		__sa_check(r == fstrm_res_success && *field == v, "C16.max-frame", "a maximum frame size in range is refused or not stored");
	}
}
void check_max_frame(void) { max_frame(); }

/* content types: any length, added to a fresh object (where = 0) or to one that already has one */
static void ctype(int reader, int before)
{
	struct fstrm_reader_options *r = NULL; struct fstrm_writer_options *w = NULL;
	fstrm_res res;
	if (reader) r = fstrm_reader_options_init(); else w = fstrm_writer_options_init();
	if (before) {
		res = reader ? fstrm_reader_options_add_content_type(r, "abc", 3) : fstrm_writer_options_add_content_type(w, "abc", 3);
		__sa_check(res == fstrm_res_success, "C16.content-type", "a content type within the limit is refused");
	}
	size_t n = __sa_size();
	int big = n > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX;
	__sa_check(FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX == 256, "C16.content-type-limit", "the documented limit of content types is 256 bytes");
	char *t = __sa_obj(n);
	__sa_watch(reader ? (void *) r : (void *) w, 1);
	watch_on = 1; writes = 0;
	res = reader ? fstrm_reader_options_add_content_type(r, t, n) : fstrm_writer_options_add_content_type(w, t, n);
	watch_on = 0;
	if (big) {
		__sa_check(res == fstrm_res_failure, "C16.content-type-refused", "a content type over the limit is accepted");
		__sa_check(writes == 0, "C16.content-type-refused", "a refused content type changes the options");
		__sa_reach("C16.content-type-refused");
	} else
		__sa_check(res == fstrm_res_success, "C16.content-type", "a content type within the limit is refused");
	if (reader) {
		fstrm_reader_options_destroy(&r);
		__sa_check(r == NULL, "C21.handle", "destroying leaves the handle set");
		fstrm_reader_options_destroy(&r);
	} else {
		fstrm_writer_options_destroy(&w);
		__sa_check(w == NULL, "C21.handle", "destroying leaves the handle set");
		fstrm_writer_options_destroy(&w);
	}
	__sa_no_leak("C21.options-leak");
}
void check_ctype_reader(void) { ctype(1, 0); }
void check_ctype_reader2(void) { ctype(1, 1); }
void check_ctype_writer(void) { ctype(0, 0); }
void check_ctype_writer2(void) { ctype(0, 1); }
