/* C21: what the library is given is copied; what it owns is released once.  The caller's buffers and options objects are
 * released right after the call that took them, so that any pointer kept is a use after free. */
#define NCT 2
#include "env.h"
#include "ctl.h"

static int n_ct, obj_destroyed, closes_seen;
static int ct_index(const uint8_t *data, size_t len)
{
	__sa_valid(data, len);
	__sa_check(len == 2 && data[1] == 'z', "C21.copied", "a content type is used that is not what was configured");
	int i = data[0] - 'a';
	__sa_check(i >= 0 && i < n_ct, "C21.copied", "a content type is used that is not what was configured");
	return i;
}
static void on_match(const struct fstrm_control *c, int idx, bool yes) { }
static int data_phase(void) { return 0; }
static size_t data_max(void) { return 0; }
static void on_data_read(void *data, size_t n) { }
static void before_read(void) { }
static void before_write(int type) { }
static void on_data_write(const struct iovec *iov, int cnt, fstrm_res res) { }
static void on_control_sent(int type, unsigned mask, fstrm_res res) { }
static void on_control_received(int type, unsigned mask) { }

static fstrm_res obj_destroy(void *obj)
{
	__sa_check(!obj_destroyed, "C21.transport", "the transport is destroyed twice");
	obj_destroyed = 1;
	return m_destroy(obj);
}
/* the caller's buffer: gone right after the call */
static char *ct(int i)
{
	char *p = __sa_heap(2);
	p[0] = (char) ('a' + i); p[1] = 'z';
	return p;
}
static void gone(char *p) { p[0] = 'x'; p[1] = 'x'; free(p); }
static void w_add(struct fstrm_writer_options *o, int i)
{
	char *p = ct(i);
	fstrm_res r = fstrm_writer_options_add_content_type(o, p, 2);
	__sa_check(r == fstrm_res_success, "C21.setup", "a content type within the limit is refused");
	gone(p);
}
static void r_add(struct fstrm_reader_options *o, int i)
{
	char *p = ct(i);
	fstrm_res r = fstrm_reader_options_add_content_type(o, p, 2);
	__sa_check(r == fstrm_res_success, "C21.setup", "a content type within the limit is refused");
	gone(p);
}
static void ckgone(const void *h) { __sa_check(h == NULL, "C21.handle", "a handle whose object is gone (or taken over) is not cleared"); }
static void end(void)
{
	__sa_check(obj_destroyed && !t_open, "C21.transport", "the transport is not closed and destroyed with its owner");
	__sa_no_leak("C21.leak");
	__sa_reach("C21.end");
}
static struct fstrm_rdwr *transport(int rd, int wr)
{
	struct fstrm_rdwr *rdwr = make_rdwr(rd, wr);
	fstrm_rdwr_set_destroy(rdwr, obj_destroy);
	return rdwr;
}
static struct fstrm_writer *w; static struct fstrm_reader *rd;
static void w_use(void)
{
	char payload[4];
	int k = __sa_choice(4);
	fresh_model();
	if (k > 0) {
		fstrm_res r = fstrm_writer_open(w);
		if (g_failed || r != fstrm_res_success) return;
		fresh_model();
		if (k == 2) (void) fstrm_writer_close(w);
		if (k == 3) (void) fstrm_writer_write(w, payload, 4);
	}
	g_failed = 0;
}
static struct fstrm_control *ctl;
static void r_use(void)
{
	int k = __sa_choice(3);
	fresh_model();
	if (k > 0) {
		fstrm_res r = fstrm_reader_open(rd);
		g_failed = 0;
		if (r != fstrm_res_success) return;
		fresh_model();
		if (k == 2) (void) fstrm_reader_close(rd);
	}
	g_failed = 0;
}
void check_writer(void)
{
	n_ct = __sa_choice(3); obj_destroyed = 0;
	struct fstrm_writer_options *o = NULL;
	if (n_ct > 0 || __sa_bool()) {
		o = fstrm_writer_options_init();
		if (n_ct > 0) w_add(o, 0);
		if (n_ct > 1) w_add(o, 1);
	}
	struct fstrm_rdwr *t = transport(__sa_bool(), 1);
	w = fstrm_writer_init(o, &t);
	__sa_check(w != NULL, "C21.setup", "a writer cannot be created");
	ckgone(t);
	fstrm_writer_options_destroy(&o);
	ckgone(o);
	fstrm_writer_options_destroy(&o);
	w_use();
	g_failed = 0;
	(void) fstrm_writer_destroy(&w);
	ckgone(w);
	(void) fstrm_writer_destroy(&w);
	end();
}
void check_reader(void)
{
	n_ct = __sa_choice(3); obj_destroyed = 0;
	struct fstrm_reader_options *o = NULL;
	if (n_ct > 0 || __sa_bool()) {
		o = fstrm_reader_options_init();
		if (n_ct > 0) r_add(o, 0);
		if (n_ct > 1) r_add(o, 1);
	}
	struct fstrm_rdwr *t = transport(1, __sa_bool());
	rd = fstrm_reader_init(o, &t);
	__sa_check(rd != NULL, "C21.setup", "a reader cannot be created");
	ckgone(t);
	fstrm_reader_options_destroy(&o);
	ckgone(o);
	fstrm_reader_options_destroy(&o);
	r_use();
	g_failed = 0;
	(void) fstrm_reader_destroy(&rd);
	ckgone(rd);
	(void) fstrm_reader_destroy(&rd);
	end();
}
/* a transport that cannot write (read) makes no writer (reader), and stays the caller's */
void check_refused(void)
{
	obj_destroyed = 0;
	int wr = __sa_bool();
	struct fstrm_rdwr *t = transport(wr, !wr), *t0 = t;
	if (wr) {
		w = fstrm_writer_init(NULL, &t);
		__sa_check(w == NULL && t == t0, "C21.kept", "a refused transport is taken over");
	} else {
		rd = fstrm_reader_init(NULL, &t);
		__sa_check(rd == NULL && t == t0, "C21.kept", "a refused transport is taken over");
	}
	(void) fstrm_rdwr_destroy(&t);
	ckgone(t);
	(void) fstrm_rdwr_destroy(&t);
	end();
}
