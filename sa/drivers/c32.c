/* C32: what the threads that share an I/O thread object do to it, role by role.  The accesses logged here
 * are compared in sa/races.py. */
#include "io.h"

void *malloc(size_t n)
{
	char *p = __sa_heap(n);
	if (roles && phase == 0) __sa_tag(p, ++roles);
	return p;
}
static void no_cb(void *d, void *f) { }
static void start(void)
{
	NQ = 2; OUT = 2;
	struct fstrm_iothr_options *o = options();
	wr = __sa_nzptr();
	struct fstrm_writer *w = wr;
	roles = 1;
	io = fstrm_iothr_init(o, &w);
	if (!io) __sa_stop();
	phase = 0;
	fstrm_iothr_options_destroy(&o);
	__sa_reach("C32.created");
}
/* the I/O thread, and who asks it to stop */
void check_thread(void)
{
	watching = 1; run_thread = 1;
	start();
	phase = 1; cv_signals = 0;
	struct fstrm_iothr *h = io;
	fstrm_iothr_destroy(&h);
	__sa_reach("C32.thread");
}
/* producers */
void check_submit(void)
{
	start();
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue_idx(io, (size_t) __sa_choice(2));
	void *data = __sa_ptr(), *fd = __sa_ptr();
	phase = 6;
	(void) fstrm_iothr_submit(io, q, data, __sa_size(), __sa_bool() ? no_cb : NULL, fd);
	phase = 0;
	__sa_reach("C32.submit");
}
void check_get(void)
{
	start();
	phase = 6;
	for (int i = 0; i < 3; i++) (void) fstrm_iothr_get_input_queue(io);
	phase = 0;
	__sa_reach("C32.get");
}
void check_get_idx(void)
{
	start();
	phase = 6;
	(void) fstrm_iothr_get_input_queue_idx(io, __sa_size());
	phase = 0;
	__sa_reach("C32.get-idx");
}
