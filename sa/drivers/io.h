/* Environment of the I/O thread object: threads, clocks, queues and the writer are models; the I/O thread
 * function runs (abstractly) between the destroyer's pthread_join() and its return, observing the shutdown
 * request at any of its reads of it. */
#ifndef IO_H
#define IO_H
#include "sa.h"
#include "env.h"
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <limits.h>
#include <sys/uio.h>
#include "fstrm.h"
#include "libmy/my_queue.h"

#define MAXQ 4
#define MAXP 8

static int capturing;		/* a producer is submitting */
static int NQ, OUT;		/* shape: input queues, output queue entries */
static int pays, times, hints;	/* follow every payload / the clocks and waits / the amounts */
static unsigned nullmask;	/* payloads submitted without a callback */
static int phase;		/* 0 setup, 1 destroy called, 2 thread running, 3 joined */
static struct fstrm_iothr *io;
static struct fstrm_writer *wr;
static int destroyed;

/* ---- options */
static unsigned o_interval, o_timeout, o_threshold, o_isize, o_hint;

/* ---- the iothr object and its shutdown flag */
static char *io_mem; static int allocs;
static char *fl_ptr; static int fl_cnt; static int requested;
static int watching;
static int roles;		/* C32: log accesses by role; number of the next object */
void *calloc(size_t n, size_t size)
{
	char *p = __sa_heap(n * size);
	memset(p, 0, n * size);
	if (roles && phase == 0) __sa_tag(p, ++roles);
	if (phase == 0 && !allocs) { io_mem = p; if (watching) __sa_watch(p, 1); }
	allocs = 1;
	return p;
}
static int on_flag_read;
static unsigned char w_cnt[512], u_cnt[512];	/* bytes of the object written / accessed without a lock */
static int any_held(void);
static char *wrote; static int writes;
void sa_access(int id, char *p, int write)
{
	if (phase == 2) {
		if (!write && p == fl_ptr && !requested && on_flag_read && __sa_bool()) { requested = 1; *p = 1; }
	} else if (phase == 1) {
		if (write && !fl_ptr) fl_ptr = p;
	} else if (phase == 6) {
		size_t o = (size_t)(p - io_mem);
		if (!any_held()) { u_cnt[o] = 1; __sa_check(!w_cnt[o], "C15.locked", "the counter of handed-out queues is accessed without its lock"); }
		if (write) { w_cnt[o] = 1; __sa_check(!u_cnt[o], "C15.locked", "the counter of handed-out queues is accessed without its lock"); }
	} else if (phase == 7) {
		if (write) wrote = p;
	}
}

/* ---- mutexes */
#define NM 2
static pthread_mutex_t *mx[NM]; static int mx_n; static unsigned char mx_live[NM], mx_held[NM];
static int mx_find(pthread_mutex_t *m) { for (int i = 0; i < mx_n; i++) if (mx[i] == m && mx_live[i]) return i; return -1; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	__sa_check(mx_find(m) < 0, "C21.lock-init", "a mutex is initialised twice");
	if (mx_n == NM) __sa_fail("C21.lock-init", "more mutexes than the analysis expects");
	mx[mx_n] = m; mx_live[mx_n] = 1; mx_held[mx_n] = 0; mx_n++;
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
	int i = mx_find(m);
	__sa_check(i >= 0, "C16.uninitialised", "a mutex that is not initialised is destroyed");
	__sa_check(!mx_held[i], "C15.lock-balance", "a mutex is destroyed while held");
	mx_live[i] = 0;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
	int i = mx_find(m);
	__sa_check(i >= 0, "C16.uninitialised", "a mutex that is not initialised is locked");
	__sa_check(!mx_held[i], "C19.lock-balance", "a mutex is locked twice by one thread");
	mx_held[i] = 1;
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) { return __sa_bool() ? EBUSY : pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	int i = mx_find(m);
	__sa_check(i >= 0 && mx_held[i], "C19.lock-balance", "a mutex is unlocked that is not held");
	mx_held[i] = 0;
	return 0;
}
static int any_held(void) { for (int i = 0; i < mx_n; i++) if (mx_live[i] && mx_held[i]) return 1; return 0; }

/* ---- clocks */
static int clocks_may_fail;
static long now; static int rd_any; static long rd_mono, rd_first; static int rd_since_wait;
static long rd_cv_s, rd_cv_ns; static int rd_cv;
static clockid_t cv_clock; static int ca_live, ca_clock_set; static clockid_t ca_clock;
int clock_gettime(clockid_t id, struct timespec *ts)
{
	if (phase == 0 && clocks_may_fail && __sa_bool()) return -1;
	ts->tv_nsec = __sa_range(0, 999999999);
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID || id == CLOCK_TAI)
		ts->tv_sec = __sa_range(0, 1l << 40);
	else if (!times)
		ts->tv_sec = __sa_range(0, 1l << 40);
	else {
		long t = __sa_range(0, 1l << 40);
		__sa_assume(t >= now);
		now = t; ts->tv_sec = t;
		rd_mono = t;
		if (!rd_since_wait) { rd_first = t; rd_since_wait = 1; }
	}
	if (times && phase == 2 && id == cv_clock) { rd_cv = 1; rd_cv_s = ts->tv_sec; rd_cv_ns = ts->tv_nsec; }
	return 0;
}
int pthread_condattr_init(pthread_condattr_t *a) { ca_live = 1; ca_clock_set = 0; return 0; }
int pthread_condattr_destroy(pthread_condattr_t *a) { __sa_check(ca_live, "C16.uninitialised", "condition attributes destroyed that are not initialised"); ca_live = 0; return 0; }
int pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c)
{
	__sa_check(ca_live, "C16.uninitialised", "condition attributes used that are not initialised");
	if (phase == 0 && clocks_may_fail && __sa_bool()) return EINVAL;
	if (times && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME) return EINVAL;	/* as Linux does: the two clocks differ */
	ca_clock_set = 1; ca_clock = c;
	return 0;
}

/* ---- condition variable */
static pthread_cond_t *cv; static int cv_live, cv_signals;
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	__sa_check(!cv_live, "C21.lock-init", "the condition variable is initialised twice");
	cv = c; cv_live = 1;
	cv_clock = a && ca_clock_set ? ca_clock : CLOCK_REALTIME;
	return 0;
}
int pthread_cond_destroy(pthread_cond_t *c)
{
	__sa_check(cv_live && c == cv, "C16.uninitialised", "a condition variable that is not initialised is destroyed");
	cv_live = 0;
	return 0;
}
int pthread_cond_signal(pthread_cond_t *c)
{
	if (capturing) return 0;
	__sa_check(cv_live && c == cv, "C19.signal", "another condition variable than the one waited on is signalled");
	cv_signals = 1;
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { return pthread_cond_signal(c); }

/* ---- payloads that have left an input queue */
static char pool[MAXP], tok[MAXP];
static unsigned char st[MAXP];	/* 0 free, 1 not written, 2 written */
static unsigned char closed[MAXP];	/* removed while the writer was not open */
static unsigned char opt[MAXP];	/* may be dropped without notice: NULL callback, or carried over a failure */
static unsigned char nullcb[MAXP], old[MAXP];
static size_t plen[MAXP];
static unsigned char pend[MAXP]; static int npend;	/* not yet written, in the order of removal */
static int nid(void) { return pays ? OUT + 2 : 1; }
static void unpend(int k)
{
	for (int i = k + 1; i < npend; i++) pend[i - 1] = pend[i];
	npend--; pend[npend] = 0;
}
static void forget(int id) { st[id] = 0; closed[id] = 0; opt[id] = 0; nullcb[id] = 0; old[id] = 0; plen[id] = 0; }

static int may_release;
static void release(void *data, void *free_data)
{
	size_t id = (size_t)((char *)data - pool);
	if (!pays) return;
	__sa_check(phase == 2 || phase == 3, "C01.released-when", "a free callback is invoked while the payload is not the library's to release");
	__sa_check(id < (size_t) nid(), "C01.release-data", "the free callback is invoked with other data than was submitted");
	__sa_check(free_data == &tok[id], "C01.release-data", "the free callback is invoked with other free_data than was submitted with that payload");
	__sa_check(st[id] != 0 && !nullcb[id], "C01.release-once", "a payload is released more than once");
	__sa_check(!any_held(), "C19.lock-balance", "a free callback is invoked with a mutex held");
	if (st[id] == 1)
		for (int i = 0; i < npend; i++) if (pend[i] == id) { unpend((int)i); break; }
	forget((int)id);
	__sa_reach("C01.released");
}

/* ---- queues */
struct my_queue { int live; };
static struct my_queue qs[MAXQ]; static int q_n, q_fail; static unsigned q_sz[MAXQ]; static unsigned esize; static int q_kind[MAXQ], kind, q_any;
static unsigned char cap[64]; 
static unsigned char polls[MAXQ], q_empty[MAXQ];
static int wopen;
static unsigned ins_space; static bool ins_ok; static int ins_calls; static struct my_queue *ins_q;

static struct my_queue *q_init(unsigned n, unsigned size)
{
	if (q_any) return &qs[0];
	if (q_n == NQ) __sa_fail("C15.count", "more queues are created than configured");
	if (q_fail && __sa_bool()) return NULL;
	__sa_check(n == o_isize, "C16.queue-size", "an input queue is created with another size than configured");
	esize = size;
	qs[q_n].live = 1; q_kind[q_n] = kind; kind = 0;
	return &qs[q_n++];
}
static void q_destroy(struct my_queue **q)
{
	if (!*q) return;
	size_t i = (size_t)((char *)*q - (char *)qs) / sizeof qs[0];
	__sa_check(i < (size_t) q_n && qs[i].live, "C21.queue", "a queue is destroyed that does not exist");
	__sa_check(phase == 0 || phase == 3, "C17.join-first", "a queue is destroyed before the I/O thread was joined");
	__sa_check(phase == 0 || q_empty[i], "C01.queue-emptied", "a queue is destroyed that may still hold payloads");
	qs[i].live = 0;
	*q = NULL;
}
static const char *q_type(void) { return "model"; }
static bool q_insert(struct my_queue *q, void *elem, unsigned *space)
{
	size_t i = (size_t)((char *)q - (char *)qs) / sizeof qs[0];
	__sa_check(i < (size_t) q_n && qs[i].live, "C21.queue", "a payload is inserted into a queue that does not exist");
	__sa_check(phase != 2, "C32.inserter", "the I/O thread inserts into a queue, beside its producer");
	ins_calls++;
	ins_q = q;
	ins_ok = capturing || __sa_bool();
	if (ins_ok) memcpy(cap, elem, esize);
	if (ins_ok || __sa_bool()) ins_space = (unsigned) __sa_range(0, (long) o_isize - 1);
	if (space) *space = ins_space;
	return ins_ok;
}
static bool q_remove(struct my_queue *q, void *elem, unsigned *count)
{
	size_t qi = (size_t)((char *)q - (char *)qs) / sizeof qs[0];
	__sa_check(qi < (size_t) q_n && qs[qi].live, "C21.queue", "a payload is removed from a queue that does not exist");
	__sa_check(phase == 2 || phase == 3, "C01.remover", "a payload is removed outside of the I/O thread while it runs");
	__sa_check(phase == 2 || phase == 3, "C32.remover", "a payload is removed outside of the I/O thread while it runs");
	if (times && phase == 2 && !requested) {
		int all = 1;
		for (int i = 0; i < q_n; i++) if (polls[i] < 2) all = 0;
		__sa_check(!all, "C19.waits", "the I/O thread keeps polling empty queues without waiting");
	}
	if (count) *count = __sa_uint();
	if (__sa_bool()) {
		if (times && polls[qi] < 2) polls[qi]++;
		if (phase == 3 || requested) q_empty[qi] = 1;
		return false;
	}
	for (int i = 0; i < q_n; i++) { polls[i] = 0; }
	q_empty[qi] = 0;
	int id = -1;
	for (int i = nid() - 1; i >= 0; i--) if (!st[i]) id = i;
	if (id < 0) {
		if (__sa_bool()) __sa_fail("C01.held", "payloads that were written or discarded are never released");
		__sa_fail("C17.bound", "more payloads are held than the output queue has entries");
	}
	if (pays) { st[id] = 1; closed[id] = !wopen; opt[id] = 0; nullcb[id] = (nullmask >> id) & 1; old[id] = 0; }
	plen[id] = (size_t) __sa_range(1, (long) UINT32_MAX - 1);
	char was = 0;
	if (fl_ptr) { was = *fl_ptr; *fl_ptr = 0; }
	int p = phase; phase = 4; capturing = 1; ins_calls = 0;
	fstrm_res r = fstrm_iothr_submit(io, fstrm_iothr_get_input_queue_idx(io, qi), &pool[id], plen[id], nullcb[id] ? NULL : release, &tok[id]);
	__sa_check(r == fstrm_res_success && ins_calls == 1 && ins_q == q, "C01.accepted", "a valid payload is not queued on its queue exactly once although there is room");
	phase = p; capturing = 0; ins_calls = 0; ins_q = NULL; ins_ok = 0; ins_space = 0; cv_signals = 0;
	if (fl_ptr) *fl_ptr = was;
	memcpy(elem, cap, esize);
	memset(cap, 0, sizeof cap);
	if (!pays) plen[id] = 0;
	else if (nullcb[id] && (closed[id] || phase == 3)) forget(id);	/* nothing will tell when it is dropped */
	else pend[npend++] = (unsigned char) id;
	__sa_reach("C01.removed");
	return true;
}
/* the two implementations' tables: a queue is only used through the table that created it */
static void of_kind(struct my_queue *q, int k)
{
	if (!q) return;
	size_t i = (size_t)((char *)q - (char *)qs) / sizeof qs[0];
	__sa_check(i < (size_t) q_n && q_kind[i] == k, "C14.one-table", "a queue is used with the operations of the other implementation");
}
static struct my_queue *q_init_mb(unsigned n, unsigned size) { kind = 0; return q_init(n, size); }
static void q_destroy_mb(struct my_queue **q) { of_kind(*q, 0); q_destroy(q); }
static bool q_insert_mb(struct my_queue *q, void *elem, unsigned *space) { of_kind(q, 0); return q_insert(q, elem, space); }
static bool q_remove_mb(struct my_queue *q, void *elem, unsigned *count) { of_kind(q, 0); return q_remove(q, elem, count); }
static struct my_queue *q_init_mx(unsigned n, unsigned size) { kind = 1; return q_init(n, size); }
static void q_destroy_mx(struct my_queue **q) { of_kind(*q, 1); q_destroy(q); }
static bool q_insert_mx(struct my_queue *q, void *elem, unsigned *space) { of_kind(q, 1); return q_insert(q, elem, space); }
static bool q_remove_mx(struct my_queue *q, void *elem, unsigned *count) { of_kind(q, 1); return q_remove(q, elem, count); }
const struct my_queue_ops my_queue_mb_ops = { q_init_mb, q_destroy_mb, q_type, q_insert_mb, q_remove_mb };
const struct my_queue_ops my_queue_mutex_ops = { q_init_mx, q_destroy_mx, q_type, q_insert_mx, q_remove_mx };

/* ---- the writer */
static int w_destroyed, must_close, attempts, tried; static long last_try;
static int sigpipe_blocked;
static void io_op(struct fstrm_writer *w)
{
	__sa_check(w == wr && !w_destroyed, "C17.writer", "the writer is used before it is handed over or after it was destroyed");
	__sa_check(phase == 2, "C17.join-first", "the writer is used outside of the I/O thread");
	__sa_check(phase == 2, "C32.writer", "the writer is used outside of the I/O thread");
	__sa_check(sigpipe_blocked, "C19.sigpipe", "I/O happens before SIGPIPE is blocked");
	__sa_check(!any_held(), "C19.lock-balance", "the writer is used with a mutex held");
}
fstrm_res fstrm_writer_open(struct fstrm_writer *w)
{
	io_op(w);
	__sa_check(!wopen, "C18.open-once", "an open writer is opened again");
	__sa_check(!must_close, "C18.close-failed", "the writer is reopened without having been closed after a failed write");
	if (times && attempts)
		__sa_check(rd_mono - last_try >= (long) o_interval, "C18.interval", "the writer is opened before the reopen interval has elapsed");
	if (times) { attempts = 1; last_try = rd_mono; tried = 1; }
	if (__sa_bool()) { wopen = 1; __sa_reach("C18.opened"); return fstrm_res_success; }
	__sa_reach("C18.open-failed");
	return __sa_bool() ? fstrm_res_failure : fstrm_res_invalid;
}
fstrm_res fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int n)
{
	io_op(w);
	__sa_check(wopen, "C18.write-closed", "payloads are written while the writer is not open");
	__sa_check(!must_close, "C18.close-failed", "the writer is used after a failed write without having been closed");
	__sa_check(n >= 1 && n <= OUT, "C17.bound", "a batch is empty or larger than the output queue");
	if (hints) {
		uint64_t sum = 0;
		for (int i = 0; i < n - 1; i++) sum += iov[i].iov_len;
		__sa_check(sum < o_hint, "C17.hint", "a payload was added to a batch that had already reached the buffer hint");
	}
	for (int i = 0; pays && i < n; i++) {
		/* skip what may have been dropped without notice */
		while (npend > 0 && opt[pend[0]] && iov[i].iov_base != &pool[pend[0]]) {
			if (nullcb[pend[0]]) { forget(pend[0]); unpend(0); }
			else break;
		}
		for (int k = 0; k < nid(); k++)
			__sa_check(!(iov[i].iov_base == &pool[k] && !st[k]), "C01.early", "a payload is written that was already released");
		__sa_check(npend > 0 && iov[i].iov_base == &pool[pend[0]], "C17.batch", "an entry of a batch is not the oldest payload still to be written");
		__sa_check(iov[i].iov_len == plen[pend[0]], "C17.batch-length", "an entry of a batch has another length than its payload");
		__sa_check(!closed[pend[0]], "C18.discard", "a payload taken while the writer was not open is written");
		int id = pend[0];
		unpend(0);
		if (nullcb[id]) forget(id); else st[id] = 2;
	}
	__sa_check(npend <= 1, "C17.whole-batch", "a flush leaves batched payloads out");
	__sa_reach("C17.written");
	if (__sa_bool()) return fstrm_res_success;
	must_close = 1;
	for (int i = 0; i < npend; i++) opt[pend[i]] = 1;
	__sa_reach("C18.write-failed");
	return __sa_bool() ? fstrm_res_failure : fstrm_res_invalid;
}
fstrm_res fstrm_writer_write(struct fstrm_writer *w, const void *data, size_t len)
{
	struct iovec v = { (void *) data, len };
	return fstrm_writer_writev(w, &v, 1);
}
fstrm_res fstrm_writer_close(struct fstrm_writer *w)
{
	io_op(w);
	__sa_check(wopen, "C18.close-once", "a writer is closed that is not open");
	if (!must_close) {
		int left = 0;
		for (int i = 0; i < npend; i++) if (!opt[pend[i]] && !closed[pend[i]]) left = 1;
		__sa_check(!left, "C17.flush-before-close", "the writer is closed while payloads are still batched");
		__sa_check(requested, "C18.close-when", "the writer is closed although no write failed and no shutdown was requested");
		__sa_reach("C17.closed-at-end");
	}
	wopen = 0; must_close = 0;
	return __sa_bool() ? fstrm_res_success : fstrm_res_failure;
}
fstrm_res fstrm_writer_destroy(struct fstrm_writer **w)
{
	__sa_check(*w == wr && !w_destroyed, "C21.writer", "the writer is destroyed twice, or another one is");
	__sa_check(phase == 3, "C17.join-first", "the writer is destroyed before the I/O thread was joined");
	w_destroyed = 1;
	*w = NULL;
	return fstrm_res_success;
}

/* ---- signals */
int sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
int sigfillset(sigset_t *s) { memset(s, 0xff, sizeof *s); return 0; }
int sigaddset(sigset_t *s, int n) { ((unsigned char *)s)[(n - 1) / 8] |= (unsigned char)(1u << ((n - 1) % 8)); return 0; }
int sigdelset(sigset_t *s, int n) { ((unsigned char *)s)[(n - 1) / 8] &= (unsigned char)~(1u << ((n - 1) % 8)); return 0; }
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o)
{
	int has = (((const unsigned char *)s)[(SIGPIPE - 1) / 8] >> ((SIGPIPE - 1) % 8)) & 1;
	if (how == SIG_BLOCK) { if (has) sigpipe_blocked = 1; }
	else if (how == SIG_SETMASK) sigpipe_blocked = has;
	else if (has) sigpipe_blocked = 0;
	if (o) __sa_havoc(o, sizeof *o);
	return 0;
}

/* ---- waiting */
static void wait_common(pthread_cond_t *c, pthread_mutex_t *m)
{
	int i = mx_find(m);
	__sa_check(phase == 2, "C19.wait", "a wait outside of the I/O thread");
	__sa_check(cv_live && c == cv, "C19.wait", "the I/O thread waits on something that is not its condition variable");
	__sa_check(i >= 0 && mx_held[i], "C19.wait-locked", "the I/O thread waits without holding its mutex");
	__sa_check(sigpipe_blocked, "C19.sigpipe", "the I/O thread waits before SIGPIPE is blocked");
	__sa_check(!must_close, "C18.close-failed", "the writer is not closed after a failed write");
	for (int k = 0; pays && k < nid(); k++) {
		__sa_check(st[k] != 2, "C17.emptied", "a written payload is still held when the I/O thread waits");
		__sa_check(!(st[k] == 1 && old[k] && !opt[k]), "C19.flush", "a payload batched before a timed-out wait is still batched at the next wait");
		__sa_check(!(st[k] == 1 && closed[k]), "C18.discard", "a payload taken while the writer was not open is not discarded");
	}
	if (times && !wopen && !tried)
		__sa_check(rd_since_wait && rd_first - (attempts ? last_try : 0) < (long) o_interval, "C18.reopens", "no attempt is made to reopen the writer although the reopen interval has elapsed");
}
static int after_wait(void)
{
	int r = __sa_bool() ? ETIMEDOUT : 0;
	if (r == ETIMEDOUT && pays) { for (int k = 0; k < nid(); k++) if (st[k] == 1) old[k] = 1; __sa_reach("C19.timed-out"); }
	for (int i = 0; i < q_n; i++) polls[i] = 0;
	rd_since_wait = 0; rd_first = 0; rd_cv = 0; rd_cv_s = 0; rd_cv_ns = 0; tried = 0; rd_mono = 0;
	return r;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	wait_common(c, m);
	if (!times) return after_wait();
	__sa_check(rd_cv, "C19.clock", "the deadline is not taken from the condition variable's clock");
	__sa_check(cv_clock != CLOCK_REALTIME, "C19.clock", "the condition variable does not use a monotonic clock");
	__sa_check(ts->tv_sec == rd_cv_s + (long) o_timeout && ts->tv_nsec == rd_cv_ns, "C19.deadline", "the deadline is not the current time of the condition variable's clock plus the flush timeout");
	__sa_reach("C19.waited");
	return after_wait();
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	wait_common(c, m);
	__sa_fail("C19.timed", "the I/O thread waits without a deadline");
	after_wait();
	return 0;
}

/* ---- the thread */
static void *(*th_fn)(void *); static void *th_arg; static int th_created;
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	__sa_check(!th_created, "C21.thread", "more than one thread is created");
	th_fn = fn; th_arg = arg; th_created = 1;
	if (roles) phase = 5;
	*t = 77;
	return 0;
}
static int run_thread;
int pthread_join(pthread_t t, void **ret)
{
	__sa_check(th_created && t == 77 && phase == 1, "C17.join-first", "the wrong thread is joined");
	__sa_check(cv_signals, "C17.signals", "the I/O thread is not woken before it is joined");
	__sa_check(!any_held(), "C17.signals", "the I/O thread is joined with a mutex held");
	__sa_check(fl_ptr != NULL && *fl_ptr != 0, "C17.signals", "the I/O thread is joined without having been asked to shut down");
	if (run_thread) {
		*fl_ptr = 0;
		phase = 2; on_flag_read = 1; cv_signals = 0;
		th_fn(th_arg);
		on_flag_read = 0;
		__sa_check(requested, "C17.exit", "the I/O thread exits although no shutdown was requested");
		__sa_check(!any_held(), "C19.lock-balance", "the I/O thread exits with a mutex held");
		for (int i = 0; i < q_n; i++)
			__sa_check(q_empty[i], "C17.drain", "the I/O thread exits before every input queue was found empty");
		__sa_check(!wopen, "C17.exit-closed", "the I/O thread exits without closing the open writer");
		for (int k = 0; pays && k < nid(); k++)
			__sa_check(!(st[k] == 1 && !closed[k] && !opt[k]), "C17.exit-written", "the I/O thread exits without writing every payload it batched");
		for (int k = 0; k < nid(); k++) if (nullcb[k]) forget(k);
		npend = 0; memset(pend, 0, sizeof pend);
		__sa_reach("C17.exited");
	}
	for (int i = 0; i < q_n; i++) q_empty[i] = 0;
	phase = 3;
	return 0;
}

static struct fstrm_iothr_options *options(void)
{
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	o_timeout = (unsigned) __sa_range(1, 600); o_interval = (unsigned) __sa_range(1, 600);
	o_threshold = (unsigned) __sa_range(1, UINT_MAX);
	o_isize = 64;
	fstrm_iothr_options_set_flush_timeout(o, o_timeout);
	fstrm_iothr_options_set_reopen_interval(o, o_interval);
	fstrm_iothr_options_set_queue_notify_threshold(o, o_threshold);
	fstrm_iothr_options_set_input_queue_size(o, o_isize);
	fstrm_iothr_options_set_num_input_queues(o, (unsigned) NQ);
	fstrm_iothr_options_set_output_queue_size(o, (unsigned) OUT);
	o_hint = (unsigned) __sa_range(1024, 65536);
	fstrm_iothr_options_set_buffer_hint(o, o_hint);
	allocs = 0;
	return o;
}
#endif
