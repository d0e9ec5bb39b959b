/* C14 (choice of the queue), C15, C16, C01 (submit), C19 (notification): the rest of the I/O thread object's interface. */
#include "io.h"

static struct fstrm_writer *w;
static void start(struct fstrm_iothr_options *o)
{
	wr = __sa_nzptr(); w = wr;
	allocs = 0;
	io = fstrm_iothr_init(o, &w);
	if (!io) __sa_stop();
}

/* ---- submit */
static int sub_join;
static void no_cb(void *d, void *f) { __sa_fail("C01.refused-released", "submitting invokes the free callback"); }
static void submit_one(int down)
{
	struct fstrm_iothr_queue *q0 = fstrm_iothr_get_input_queue_idx(io, 0), *q1 = fstrm_iothr_get_input_queue_idx(io, 1);
	int second = __sa_bool();
	void *data = __sa_ptr(), *fd = __sa_ptr();
	size_t len = __sa_size();
	int cb = __sa_bool();
	ins_calls = 0; cv_signals = 0; ins_ok = 0;
	fstrm_res r = fstrm_iothr_submit(io, second ? q1 : q0, data, len, cb ? no_cb : NULL, fd);
	__sa_check((r == fstrm_res_success) == (ins_calls == 1 && ins_ok), "C01.success-queued", "submit does not return success exactly when the payload was queued");
	__sa_check(ins_calls <= 1, "C01.success-queued", "submit queues a payload more than once");
	if (data == NULL || len < 1 || len >= UINT32_MAX) {
		__sa_check(ins_calls == 0 && r != fstrm_res_success, "C01.invalid", "a payload that cannot be a data frame is queued");
		if (!down) __sa_check(r == fstrm_res_invalid, "C01.invalid", "a payload that cannot be a data frame is not refused as invalid");
		__sa_reach("C01.refused");
	} else if (!down) {
		__sa_check(ins_calls == 1, "C01.valid", "a valid payload is not offered to its queue");
		__sa_check(ins_q == (second ? &qs[1] : &qs[0]), "C01.valid", "a payload is inserted into another queue than the one named");
		if (!ins_ok) __sa_check(r == fstrm_res_again, "C01.full", "a payload that finds its queue full is not refused with again");
		else if (ins_space == o_threshold) {
			__sa_check(cv_signals, "C19.notify", "a queue filled to the notify threshold does not wake the I/O thread");
			__sa_reach("C19.notified");
		}
	}
}
static void sub(void)
{
	NQ = 2; OUT = 2;
	struct fstrm_iothr_options *o = options();
	start(o);
	submit_one(0);
}
void check_submit(void) { sub(); }
static void wrap(void)
{
	void *p = __sa_heap(8);
	fstrm_free_wrapper(p, __sa_ptr());
	__sa_check(!__sa_alive(p), "C01.free-wrapper", "fstrm_free_wrapper does not free the data");
	fstrm_free_wrapper(NULL, NULL);
}
void check_wrapper(void) { wrap(); }

/* ---- init: any options, any failure */
static void init(int null)
{
	NQ = __sa_bool() ? 1 : 2; OUT = (int) __sa_range(2, 1024); watching = 1;
	clocks_may_fail = 1; q_fail = 1;
	struct fstrm_iothr_options *o = options();
	int model = __sa_bool();
	fstrm_iothr_options_set_queue_model(o, model ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC);
	wr = __sa_nzptr(); w = wr;
	if (null) { fstrm_iothr_options_destroy(&o); NQ = 1; o_isize = 512; model = 0; }
	allocs = 0;
	io = fstrm_iothr_init(o, &w);
	if (!io) {
		__sa_check(w == wr, "C21.writer-kept", "init fails but takes the caller's writer");
		__sa_check(!th_created, "C21.init-failure", "init fails but leaves a thread");
		if (!null) fstrm_iothr_options_destroy(&o);
		for (int i = 0; i < NQ; i++) __sa_check(!qs[i].live, "C21.init-failure", "init fails but leaves a queue");
		for (int i = 0; i < NM; i++) __sa_check(!mx_live[i], "C21.init-failure", "init fails but leaves a mutex");
		__sa_check(!cv_live && !ca_live, "C21.init-failure", "init fails but leaves a condition variable");
		__sa_no_leak("C21.init-failure");
		__sa_reach("C16.init-failed");
		return;
	}
	if (!null) __sa_havoc(o, 32);	/* the caller's options are copied */
	__sa_check(w == NULL, "C21.writer-taken", "the caller's writer handle is not cleared");
	__sa_check(q_n == NQ, "C16.queue-count", "another number of queues is created than configured");
	for (int i = 0; i < NQ; i++)
		__sa_check(q_kind[i] == 1 || !model, "C14.choice", "the lock-free queue is used for several producers");
	if (!null) fstrm_iothr_options_destroy(&o);
	phase = 1;
	struct fstrm_iothr *h = io;
	fstrm_iothr_destroy(&h);
	__sa_check(h == NULL, "C21.handle", "destroy leaves the handle set");
	fstrm_iothr_destroy(&h);
	__sa_check(w_destroyed, "C21.writer", "the writer is not destroyed");
	for (int i = 0; i < NQ; i++) __sa_check(!qs[i].live, "C21.queue", "a queue is not destroyed");
	for (int i = 0; i < NM; i++) __sa_check(!mx_live[i], "C21.locks", "a mutex is not destroyed");
	__sa_check(!cv_live && !ca_live, "C21.locks", "a condition variable is not destroyed");
	__sa_no_leak("C21.leak");
	__sa_reach("C16.init-done");
}
void check_init(void) { init(0); }
void check_init_null(void) { init(1); }

/* ---- handing out queues */
static pthread_mutex_t *get_lock;
static void get(int nq)
{
	NQ = nq; OUT = 2; watching = 1;
	struct fstrm_iothr_options *o = options();
	start(o);
	struct fstrm_iothr_queue *base = fstrm_iothr_get_input_queue_idx(io, 0);
	__sa_check(base != NULL, "C15.idx", "a configured queue is not returned by its index");
	struct fstrm_iothr_queue *given[MAXQ + 1];
	for (int i = 0; i < NQ; i++) {
		given[i] = fstrm_iothr_get_input_queue_idx(io, (size_t) i);
		__sa_check(given[i] != NULL, "C15.idx", "a configured queue is not returned by its index");
		for (int j = 0; j < i; j++) __sa_check(given[i] != given[j], "C15.idx", "two indices name the same queue");
		/* the i-th index names the i-th queue */
		capturing = 1; ins_q = NULL;
		fstrm_iothr_submit(io, given[i], given, 1, NULL, NULL);
		capturing = 0;
		__sa_check(ins_q == &qs[i], "C15.idx", "an index names another queue");
	}
	size_t k = __sa_size();
	if (k >= (size_t) NQ) __sa_check(fstrm_iothr_get_input_queue_idx(io, k) == NULL, "C15.idx-range", "a queue is returned for an index beyond the configured number");
	unsigned char taken[MAXQ];
	for (int i = 0; i < NQ; i++) taken[i] = 0;
	phase = 6; memset(w_cnt, 0, sizeof w_cnt); memset(u_cnt, 0, sizeof u_cnt);
	for (int i = 0; i < NQ + 2; i++) {
		struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
		__sa_check(!any_held(), "C15.lock-balance", "fstrm_iothr_get_input_queue returns with its lock held");
		if (i < NQ) {
			int n = -1;
			for (int j = 0; j < NQ; j++) if (q == given[j]) n = j;
			__sa_check(n >= 0, "C15.handed-out", "what is handed out is not one of the configured queues");
			__sa_check(!taken[n], "C15.once", "a queue is handed out twice");
			taken[n] = 1;
			__sa_reach("C15.given");
		} else {
			__sa_check(q == NULL, "C15.exhausted", "more queues are handed out than are configured");
			__sa_reach("C15.exhausted");
		}
	}
}
void check_get_1(void) { get(1); }
void check_get_2(void) { get(2); }
void check_get_3(void) { get(3); }

/* any number of queues: the object is built abstractly, with one model queue standing for all */
static void get_any(void)
{
	NQ = (int) __sa_range(1, 1 << 20); OUT = 2; q_any = 1;
	struct fstrm_iothr_options *o = options();
	start(o);
	struct fstrm_iothr_queue *base = fstrm_iothr_get_input_queue_idx(io, 0);
	size_t k = __sa_size();
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue_idx(io, k);
	if (k < (size_t) NQ) __sa_check((char *) q == (char *) base + k * sizeof(void *), "C15.idx", "an index names another queue");
	else __sa_check(q == NULL, "C15.idx-range", "a queue is returned for an index beyond the configured number");
	for (;;) {
		q = fstrm_iothr_get_input_queue(io);
		if (q) {
			__sa_check((char *) q >= (char *) base && (char *) q < (char *) base + (size_t) NQ * sizeof(void *), "C15.handed-out", "what is handed out is not one of the configured queues");
			__sa_valid(q, sizeof(void *));
		}
		if (__sa_bool()) break;
	}
}
void check_get_any(void) { get_any(); }

/* ---- setters */
static struct fstrm_iothr_options *so;
static unsigned *field[8];
/* 0: documented value; others: why not */
static unsigned keep;	/* keeps what is known about it */
static int cls(int i, unsigned v)
{
	static const unsigned min[8] = { 1024, 1, 2, 1, 2, 1, 1, 0 };
	static const unsigned max[8] = { 65536, 600, 16384, UINT_MAX, IOV_MAX, UINT_MAX, 600, 1 };
	if (v < min[i]) return 1;
	if (v > max[i]) return 2;
	if (i == 2) { keep = v & (v - 1); if (keep != 0) return 3; }
	return 0;
}
static void set(int i, unsigned v, fstrm_res *r)
{
	switch (i) {
	case 0: *r = fstrm_iothr_options_set_buffer_hint(so, v); break;
	case 1: *r = fstrm_iothr_options_set_flush_timeout(so, v); break;
	case 2: *r = fstrm_iothr_options_set_input_queue_size(so, v); break;
	case 3: *r = fstrm_iothr_options_set_num_input_queues(so, v); break;
	case 4: *r = fstrm_iothr_options_set_output_queue_size(so, v); break;
	case 5: *r = fstrm_iothr_options_set_queue_notify_threshold(so, v); break;
	case 6: *r = fstrm_iothr_options_set_reopen_interval(so, v); break;
	default: *r = fstrm_iothr_options_set_queue_model(so, (fstrm_iothr_queue_model) v); break;
	}
}
static const unsigned defaults[8] = { 8192, 1, 512, 1, 64, 32, 5, FSTRM_IOTHR_QUEUE_MODEL_SPSC };
static const unsigned other[8] = { 2048, 7, 1024, 9, 77, 33, 8, FSTRM_IOTHR_QUEUE_MODEL_MPSC };
static void fresh_options(void)
{
	so = fstrm_iothr_options_init();
	__sa_watch(so, 3);
}
static void setters(int i)
{
	fstrm_res r;
	fresh_options();
	phase = 7;
	/* where each option lives, and what it is by default */
	for (int k = 0; k < 8; k++) {
		wrote = NULL;
		set(k, other[k], &r);
		__sa_check(r == fstrm_res_success, "C16.accepts", "a value in the documented range is refused");
		__sa_check(wrote != NULL, "C16.stores", "an accepted value is not stored");
		field[k] = (unsigned *) wrote;
		for (int j = 0; j < k; j++) __sa_check(field[j] != field[k], "C16.stores", "two options share their storage");
	}
	char *base = (char *) so;
	fresh_options();
	for (int k = 0; k < 8; k++) {
		field[k] = (unsigned *) ((char *) so + ((char *) field[k] - base));
		__sa_check(*field[k] == defaults[k], "C16.defaults", "a fresh options object does not hold the documented default");
	}
	unsigned v; int c;
	if (i == 2 && __sa_bool()) { v = (unsigned) __sa_pow2(2, 16384); c = 0; }
	else {
		v = __sa_uint();
		c = cls(i, v);
		if (i == 2 && c == 0) __sa_stop();	/* the powers of two have been dealt with */
	}
	set(i, v, &r);
	if (c) {
		__sa_check(r == fstrm_res_failure, "C16.refuses", "a value outside of the documented range is accepted");
		for (int k = 0; k < 8; k++) __sa_check(*field[k] == defaults[k], "C16.unchanged", "a refused value changes the options");
		__sa_reach("C16.refused");
	} else {
		__sa_check(r == fstrm_res_success, "C16.accepts", "a value in the documented range is refused");
		__sa_check(*field[i] == v, "C16.stores", "an accepted value is not what is stored");
		__sa_reach("C16.accepted");
		for (int k = 0; k < 8; k++) if (k != i) __sa_check(*field[k] == defaults[k], "C16.stores", "setting an option changes another one");
	}
}
void check_set_0(void) { setters(0); }
void check_set_1(void) { setters(1); }
void check_set_2(void) { setters(2); }
void check_set_3(void) { setters(3); }
void check_set_4(void) { setters(4); }
void check_set_5(void) { setters(5); }
void check_set_6(void) { setters(6); }
void check_set_7(void) { setters(7); }
/* the limits of input queue sizes */
static void pow2(void)
{
	fstrm_res r;
	fresh_options();
	int k = (int) __sa_choice(32);
	set(2, 1u << k, &r);
	__sa_check((r == fstrm_res_success) == (k >= 1 && k <= 14), "C16.pow2", "an input queue size that is a power of two is not accepted exactly within its limits");
}
void check_set_pow2(void) { pow2(); }
static void documented(void)
{
	__sa_check(FSTRM_IOTHR_BUFFER_HINT_MIN == 1024 && FSTRM_IOTHR_BUFFER_HINT_MAX == 65536 && FSTRM_IOTHR_BUFFER_HINT_DEFAULT == defaults[0] &&
		FSTRM_IOTHR_FLUSH_TIMEOUT_MIN == 1 && FSTRM_IOTHR_FLUSH_TIMEOUT_MAX == 600 && FSTRM_IOTHR_FLUSH_TIMEOUT_DEFAULT == defaults[1] &&
		FSTRM_IOTHR_INPUT_QUEUE_SIZE_MIN == 2 && FSTRM_IOTHR_INPUT_QUEUE_SIZE_MAX == 16384 && FSTRM_IOTHR_INPUT_QUEUE_SIZE_DEFAULT == defaults[2] &&
		FSTRM_IOTHR_NUM_INPUT_QUEUES_MIN == 1 && FSTRM_IOTHR_NUM_INPUT_QUEUES_DEFAULT == defaults[3] &&
		FSTRM_IOTHR_OUTPUT_QUEUE_SIZE_MIN == 2 && FSTRM_IOTHR_OUTPUT_QUEUE_SIZE_MAX == IOV_MAX && FSTRM_IOTHR_OUTPUT_QUEUE_SIZE_DEFAULT == defaults[4] &&
		FSTRM_IOTHR_QUEUE_NOTIFY_THRESHOLD_MIN == 1 && FSTRM_IOTHR_QUEUE_NOTIFY_THRESHOLD_DEFAULT == defaults[5] &&
		FSTRM_IOTHR_REOPEN_INTERVAL_MIN == 1 && FSTRM_IOTHR_REOPEN_INTERVAL_MAX == 600 && FSTRM_IOTHR_REOPEN_INTERVAL_DEFAULT == defaults[6] &&
		FSTRM_IOTHR_QUEUE_MODEL_DEFAULT == defaults[7], "C16.documented", "the limits and defaults in the public headers are not the documented ones");
}
void check_documented(void) { documented(); }
