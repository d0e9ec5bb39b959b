/* C13/C14: both queue implementations, as used through their operation tables.
 * A most general client inserts and removes in any order, for ever, against an ideal FIFO. */
#include "sa.h"
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
#include "libmy/my_queue.h"

extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;

struct el { long a, b, c; };
#define MAXN 8
#define QSZ 256			/* room for any queue object in the ghost maps below */

static unsigned N;		/* the queue's size */
static int mutexed;		/* the multi-producer implementation */
static int op;			/* 0 none, 1 insert, 2 remove */

/* ---- what the operations touch */
static char *q_mem, *d_mem;
static unsigned char w_ins[QSZ], w_rem[QSZ];	/* byte offsets of the queue object written by insert / remove */
static unsigned char unlocked[QSZ];		/* ... accessed while the lock was not held */
static int d_pending;		/* 1: element accessed and no barrier since */
static int published, d_touched;

void *calloc(size_t n, size_t size)
{
	char *p = __sa_heap(n * size);
	memset(p, 0, n * size);
	if (n == N && size == sizeof(struct el)) { d_mem = p; __sa_watch(p, 2); }
	else { q_mem = p; __sa_watch(p, 1); __sa_check(n * size <= QSZ, "C13.object", "queue object larger than the analysis expects"); }
	return p;
}

/* ---- the lock */
static pthread_mutex_t *m_ptr; static int m_init, m_held;
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	__sa_check(!m_init, "C14.lock-init", "the mutex is initialised twice");
	m_ptr = m; m_init = 1;
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
	__sa_check(m_init && m == m_ptr, "C14.lock-destroy", "a mutex that is not initialised is destroyed");
	__sa_check(!m_held, "C14.lock-destroy", "the mutex is destroyed while held");
	m_init = 0;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
	__sa_check(m_init && m == m_ptr, "C14.lock-init", "an uninitialised mutex is locked");
	__sa_check(!m_held, "C14.lock-balance", "the mutex is locked twice");
	m_held = 1;
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (__sa_bool()) return 16;
	return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	__sa_check(m_init && m == m_ptr && m_held, "C14.lock-balance", "the mutex is unlocked while not held");
	m_held = 0;
	return 0;
}

void sa_barrier(void)
{
	d_pending = 0;
}
void sa_access(int id, char *p, int write)
{
	if (!op) return;
	if (id == 2) {
		d_touched = 1;
		if (mutexed) {
			__sa_check(m_held, "C14.lock-held", "element storage is accessed without the queue's mutex");
			return;
		}
		__sa_check(!published, "C13.publish-last", "an element is accessed after its index has been published");
		if (op == 2) __sa_check(!write, "C13.remove-writes", "remove writes to the element storage");
		d_pending = 1;
		return;
	}
	size_t off = (size_t)(p - q_mem);
	if (mutexed) {
		if (!m_held) { unlocked[off] = 1; __sa_check(!w_ins[off], "C14.lock-held", "an index is accessed without the queue's mutex"); }
		if (write) { w_ins[off] = 1; __sa_check(!unlocked[off], "C14.lock-held", "an index is accessed without the queue's mutex"); }
		return;
	}
	if (!write) return;
	__sa_check(!d_pending, "C13.barrier", "the index is published without a barrier after the element access");
	__sa_check(d_touched, "C13.publish-last", "the index is published before the element has been copied");
	__sa_check(!published, "C13.publish-once", "the index is published more than once in one operation");
	published = 1;
	if (op == 1) { w_ins[off] = 1; __sa_check(!w_rem[off], "C13.one-writer", "insert writes an index that remove writes too"); }
	else { w_rem[off] = 1; __sa_check(!w_ins[off], "C13.one-writer", "remove writes an index that insert writes too"); }
	__sa_reach("C13.published");
}

static void begin(int o) { op = o; d_pending = 0; published = 0; d_touched = 0; }
static void end(void)
{
	op = 0;
	if (mutexed) {
		__sa_check(!m_held, "C14.lock-released", "an operation returns with the mutex held");
	}
	d_pending = 0; published = 0; d_touched = 0;
}

static struct el fifo[MAXN]; static unsigned cnt;	/* the ideal queue */
static struct el e; static unsigned out;

static void fresh(void) { __sa_havoc(&e, sizeof e); out = 0; }

static void client(const struct my_queue_ops *ops)
{
	struct my_queue *q = ops->init(N, sizeof(struct el));
	if (!q) __sa_stop();		/* out of memory */
	__sa_check(!mutexed || m_init, "C14.lock-init", "the queue is created without initialising its mutex");
	cnt = 0;
	for (;; fresh()) {
		int k = __sa_choice(3);
		int np = __sa_bool();
		bool r;
		if (k == 0) {
			struct el was = e;
			begin(1);
			r = ops->insert(q, &e, np ? NULL : &out);
			end();
			__sa_check(e.a == was.a && e.b == was.b && e.c == was.c, "C13.insert-reads", "insert changes the caller's element");
			__sa_check(r == (cnt < N - 1), "C13.insert-accepts", "insert does not succeed exactly when there is room");
			if (r) { fifo[cnt] = e; cnt++; __sa_reach("C13.inserted"); }
			else __sa_reach("C13.full");
			if (!np) __sa_check(out == N - 1 - cnt, "C13.space", "insert reports another number of free elements");
		} else if (k == 1) {
			struct el was = e;
			begin(2);
			r = ops->remove(q, &e, np ? NULL : &out);
			end();
			__sa_check(r == (cnt > 0), "C13.remove-accepts", "remove does not succeed exactly when there is an element");
			if (r) {
				__sa_check(e.a == fifo[0].a && e.b == fifo[0].b && e.c == fifo[0].c, "C13.fifo", "remove does not deliver the oldest element as it was inserted");
				for (unsigned i = 1; i < cnt; i++) fifo[i - 1] = fifo[i];
				cnt--;
				__sa_reach("C13.removed");
			} else {
				__sa_check(e.a == was.a && e.b == was.b && e.c == was.c, "C13.refused-unchanged", "a refused remove changes the caller's element");
				__sa_reach("C13.empty");
			}
			if (!np) __sa_check(out == cnt, "C13.count", "remove reports another number of remaining elements");
		} else
			break;
		__sa_havoc(&fifo[cnt], (MAXN - cnt) * sizeof(struct el));
	}
	ops->destroy(&q);
	__sa_check(q == NULL, "C13.destroy", "destroy leaves the handle set");
	__sa_check(!m_init, "C14.lock-destroy", "the mutex is not destroyed with the queue");
	__sa_no_leak("C13.destroy");
	ops->destroy(&q);		/* nothing to destroy */
}

static void sizes(const struct my_queue_ops *ops)
{
	static const unsigned bad[] = { 0, 1, 3, 5, 6, 7, 12, 48, 100, 511, 513, 1000, 65535, 2147483647u, 2147483649u, 4294967295u };
	int k = __sa_choice(sizeof bad / sizeof bad[0]);
	N = bad[k];
	__sa_check(ops->init(N, sizeof(struct el)) == NULL, "C13.size-refused", "a queue size that is not a power of two of at least 2 is accepted");
	__sa_no_leak("C13.size-refused");
	__sa_check(!m_init, "C14.lock-destroy", "a refused queue leaves its mutex initialised");
}
static void accepted(const struct my_queue_ops *ops, int i)
{
	N = 1u << (1 + i);
	__sa_check(ops->init(N, sizeof(struct el)) != NULL, "C13.size-accepted", "a proper queue size is refused");
}

/* every size: only that nothing outside of the storage is touched, and the caller's element is not overrun */
static void any_size(const struct my_queue_ops *ops)
{
	N = __sa_pow2(2, 1l << 24);
	struct my_queue *q = ops->init(N, sizeof(struct el));
	if (!q) __sa_stop();
	for (;; fresh()) {
		if (__sa_bool()) { begin(1); ops->insert(q, &e, &out); end(); }
		else { begin(2); ops->remove(q, &e, &out); end(); }
		__sa_check(out < N, "C13.any-size", "more elements or free elements than the queue's size are reported");
	}
}
void check_mb_any(void) { any_size(&my_queue_mb_ops); }
void check_mutex_any(void) { mutexed = 1; any_size(&my_queue_mutex_ops); }
void check_mb_sizes(void) { sizes(&my_queue_mb_ops); }
void check_mutex_sizes(void) { mutexed = 1; sizes(&my_queue_mutex_ops); }
void check_mb_sizes2(void) { accepted(&my_queue_mb_ops, __sa_choice(16)); }
void check_mutex_sizes2(void) { mutexed = 1; accepted(&my_queue_mutex_ops, __sa_choice(16)); }
void check_mb_2(void) { N = 2; client(&my_queue_mb_ops); }
void check_mb_4(void) { N = 4; client(&my_queue_mb_ops); }
void check_mb_8(void) { N = 8; client(&my_queue_mb_ops); }
void check_mutex_2(void) { mutexed = 1; N = 2; client(&my_queue_mutex_ops); }
void check_mutex_4(void) { mutexed = 1; N = 4; client(&my_queue_mutex_ops); }
void check_mutex_8(void) { mutexed = 1; N = 8; client(&my_queue_mutex_ops); }
