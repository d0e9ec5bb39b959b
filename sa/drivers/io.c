/* C01, C14 (queue choice), C17, C18, C19: the I/O thread. */
#include "io.h"

/* a callback whose identity is not known */
void sa_callback(void *data, void *free_data)
{
	if (pays) __sa_fail("C01.release-data", "something else than a submitted callback is called");
}

static void thread(int nq, int out)
{
	NQ = nq; OUT = out; run_thread = 1; watching = 1;
	struct fstrm_iothr_options *o = options();
	wr = __sa_nzptr();
	struct fstrm_writer *w = wr;
	io = fstrm_iothr_init(o, &w);
	if (!io) __sa_stop();
	__sa_check(w == NULL, "C21.writer-taken", "the caller's writer handle is not cleared");
	fstrm_iothr_options_destroy(&o);
	phase = 1; cv_signals = 0;
	struct fstrm_iothr *h = io;
	fstrm_iothr_destroy(&h);
	__sa_check(h == NULL, "C21.handle", "destroy leaves the handle set");
	__sa_check(phase == 3, "C17.join-first", "the I/O thread is not joined");
	__sa_check(w_destroyed, "C21.writer", "the writer is not destroyed");
	for (int i = 0; i < NQ; i++) __sa_check(!qs[i].live, "C21.queue", "a queue is not destroyed");
	for (int k = 0; k < nid(); k++) __sa_check(st[k] == 0, "C01.all-released", "a payload is never released");
	__sa_no_leak("C21.leak");
	__sa_reach("C17.destroyed");
}
static void payloads(int nq, int out, unsigned mask) { pays = 1; nullmask = mask; thread(nq, out); }
void check_pay_1_2(void) { payloads(1, 2, 0); }
void check_pay_1_2_null(void) { payloads(1, 2, 1); }
void check_pay_2_2(void) { payloads(2, 2, 2); }
void check_pay_1_3(void) { payloads(1, 3, 2); }
void check_time_1(void) { times = 1; thread(1, 2); }
void check_time_2(void) { times = 1; thread(2, 2); }
/* more queues, payloads not told apart */
void check_queues_3(void) { thread(3, 2); }
void check_queues_2(void) { thread(2, 2); }
/* how much is batched */
void check_hint_2(void) { hints = 1; thread(1, 2); }
void check_hint_3(void) { hints = 1; thread(1, 3); }
void check_hint_4(void) { hints = 1; thread(1, 4); }
/* any size of the output queue */
void check_any_out(void) { thread(1, (int) __sa_range(2, 1024)); }
