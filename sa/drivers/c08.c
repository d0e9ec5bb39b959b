/* C08: content type negotiation, with up to three configured content types and every subset of
 * them named by the peer. */
#define NCT 3
#include "ctl.h"

static int n_ct;
static unsigned all;
static unsigned g_accepted;	/* what the peer's frame allows */
static int got, started;
static unsigned ready_mask, start_mask;
static int is_writer;

static int ct_index(const uint8_t *data, size_t len)
{
	__sa_check(len == 1, "C08.copy-length", "a content type is used with another length than configured");
	int i = data[0] - 'a';
	__sa_check(i >= 0 && i < n_ct, "C08.copy-content", "a content type is used with other bytes than configured");
	return i;
}
static void on_match(const struct fstrm_control *c, int idx, bool yes) { }
static int data_phase(void) { return 0; }
static size_t data_max(void) { return 0; }
static void on_data_read(void *data, size_t n) { }
static void before_read(void) { }
static void before_write(int type)
{
	if (type == 0) __sa_check(started, "C08.data", "a data frame is written although no content type was agreed on");
}
static void on_data_write(const struct iovec *iov, int cnt, fstrm_res res) { }
static void on_control_sent(int type, unsigned mask, fstrm_res res)
{
	if (is_writer && type == FSTRM_CONTROL_READY)
		__sa_check(mask == all, "C08.ready-types", "READY does not announce exactly the configured content types");
	if (is_writer && type == FSTRM_CONTROL_START) {
		if (t_has_read && n_ct > 0)
			__sa_check(mask != 0 && (mask & ~g_accepted) == 0 && (mask & (mask - 1)) == 0, "C08.start-type", "START does not name one content type that ACCEPT allows");
		if (n_ct == 0) __sa_check(mask == 0, "C08.start-none", "START names a content type although none is configured");
		__sa_check((mask & ~all) == 0, "C08.start-own", "START names a content type that is not configured");
		if (res == fstrm_res_success) started = 1;
	}
	if (!is_writer && type == FSTRM_CONTROL_ACCEPT)
		__sa_check(mask == (ready_mask & all), "C08.accept-types", "ACCEPT does not name exactly the configured content types READY announced");
}
static void on_control_received(int type, unsigned mask)
{
	if (is_writer) {
		if (type == FSTRM_CONTROL_ACCEPT) {
			g_accepted = mask & all;
			if (n_ct > 0 && g_accepted == 0) { g_failed = 1; __sa_reach("C08.writer-mismatch"); }
			else if (n_ct > 1 && g_accepted == (1u << (n_ct - 1))) __sa_reach("C08.writer-last-matches");
		} else g_failed = 1;
	} else if (!got && t_has_write) {
		got = 1;
		if (type == FSTRM_CONTROL_READY) ready_mask = mask; else g_failed = 1;
	} else {
		if (type == FSTRM_CONTROL_START) {
			start_mask = mask;
			if (n_ct > 0 && (mask & all) == 0) { g_failed = 1; __sa_reach("C08.reader-mismatch"); }
			else if (n_ct > 1 && (mask & all) == (1u << (n_ct - 1))) __sa_reach("C08.reader-last-matches");
		} else g_failed = 1;
	}
}

static const char names[3] = { 'a', 'b', 'c' };

void check_writer(void)
{
	fstrm_res r;
	char payload[4];
	int bidir = __sa_bool();
	struct fstrm_writer_options *o = NULL;
	is_writer = 1;
	n_ct = __sa_choice(4);
	if (n_ct > 0 || __sa_bool()) {
		o = fstrm_writer_options_init();
		if (n_ct > 0) __sa_check(fstrm_writer_options_add_content_type(o, &names[0], 1) == fstrm_res_success, "C08.add", "a content type is refused");
		if (n_ct > 1) __sa_check(fstrm_writer_options_add_content_type(o, &names[1], 1) == fstrm_res_success, "C08.add", "a content type is refused");
		if (n_ct > 2) __sa_check(fstrm_writer_options_add_content_type(o, &names[2], 1) == fstrm_res_success, "C08.add", "a content type is refused");
	}
	all = n_ct == 0 ? 0 : n_ct == 1 ? 1 : n_ct == 2 ? 3 : 7;
	struct fstrm_rdwr *rdwr = make_rdwr(bidir, 1);
	struct fstrm_writer *w = fstrm_writer_init(o, &rdwr);
	fstrm_writer_options_destroy(&o);
	fresh_model();
	r = fstrm_writer_open(w);
	if (r == fstrm_res_success) {
		__sa_check(!g_failed && started, "C08.open-mismatch", "the writer opens although negotiation failed");
		__sa_reach("C08.writer-opens");
	} else {
		__sa_check(g_failed, "C08.open-match", "the writer does not open although a content type matches and nothing failed");
	}
	if (g_failed) {
		__sa_check(!t_open, "C08.closed", "the transport stays open after a failed negotiation");
		g_failed = 0;
	}
	if (r == fstrm_res_success) (void)fstrm_writer_write(w, payload, 4);
	(void)fstrm_writer_destroy(&w);
	__sa_no_leak("C08.freed");
}

void check_reader(void)
{
	fstrm_res r;
	int bidir = __sa_bool();
	struct fstrm_reader_options *o = NULL;
	is_writer = 0;
	n_ct = __sa_choice(4);
	if (n_ct > 0 || __sa_bool()) {
		o = fstrm_reader_options_init();
		if (n_ct > 0) __sa_check(fstrm_reader_options_add_content_type(o, &names[0], 1) == fstrm_res_success, "C08.add", "a content type is refused");
		if (n_ct > 1) __sa_check(fstrm_reader_options_add_content_type(o, &names[1], 1) == fstrm_res_success, "C08.add", "a content type is refused");
		if (n_ct > 2) __sa_check(fstrm_reader_options_add_content_type(o, &names[2], 1) == fstrm_res_success, "C08.add", "a content type is refused");
	}
	all = n_ct == 0 ? 0 : n_ct == 1 ? 1 : n_ct == 2 ? 3 : 7;
	struct fstrm_rdwr *rdwr = make_rdwr(1, bidir);
	struct fstrm_reader *rd = fstrm_reader_init(o, &rdwr);
	fstrm_reader_options_destroy(&o);
	fresh_model();
	r = fstrm_reader_open(rd);
	if (r == fstrm_res_success) {
		__sa_check(!g_failed && t_open, "C08.open-mismatch", "the reader opens although negotiation failed");
		__sa_reach("C08.reader-opens");
	} else {
		__sa_check(g_failed, "C08.open-match", "the reader does not open although a content type matches and nothing failed");
		__sa_check(!t_open, "C08.closed", "the transport stays open after a failed negotiation");
	}
	(void)fstrm_reader_destroy(&rd);
	__sa_no_leak("C08.freed");
}
