/* C12: transport objects are opened, used and closed in strict pairs.
 * Most general client of the fstrm_rdwr_* interface over a transport whose methods may be missing
 * and may return anything. */
#include "sa.h"
#include "fstrm-private.h"

static char the_obj[8];
static int g_open;		/* a successful open has not been closed yet */
static int g_destroyed;
static int g_calls_open, g_calls_close, g_calls_read, g_calls_write, g_calls_destroy;

static fstrm_res any_res(void) { return (fstrm_res)__sa_range(0, 100); }

static fstrm_res m_open(void *obj)
{
	fstrm_res r = any_res();
	__sa_check(obj == the_obj, "C12.object", "the open method is given another object");
	__sa_check(!g_destroyed, "C12.after-destroy", "open method invoked after destroy");
	g_calls_open = 1;
	if (r == fstrm_res_success) g_open = 1;
	return r;
}
static fstrm_res m_close(void *obj)
{
	__sa_check(obj == the_obj, "C12.object", "the close method is given another object");
	__sa_check(!g_destroyed, "C12.after-destroy", "close method invoked after destroy");
	__sa_check(g_open, "C12.close-once", "close method invoked although no successful open is outstanding");
	g_open = 0;
	g_calls_close = 1;
	return any_res();
}
static void *exp_data; static size_t exp_count;
static fstrm_res m_read(void *obj, void *data, size_t count)
{
	__sa_check(obj == the_obj, "C12.object", "the read method is given another object");
	__sa_check(g_open, "C12.use-while-open", "read method invoked outside of open..close");
	__sa_check(data == exp_data && count == exp_count, "C12.arguments", "read method is given other arguments");
	g_calls_read = 1;
	return any_res();
}
static const struct iovec *exp_iov; static int exp_cnt;
static fstrm_res m_write(void *obj, const struct iovec *iov, int cnt)
{
	__sa_check(obj == the_obj, "C12.object", "the write method is given another object");
	__sa_check(g_open, "C12.use-while-open", "write method invoked outside of open..close");
	__sa_check(iov == exp_iov && cnt == exp_cnt, "C12.arguments", "write method is given other arguments");
	g_calls_write = 1;
	return any_res();
}
static fstrm_res m_destroy(void *obj)
{
	__sa_check(obj == the_obj, "C12.object", "the destroy method is given another object");
	__sa_check(!g_destroyed, "C12.destroy-once", "destroy method invoked twice");
	g_destroyed = 1;
	g_calls_destroy = 1;
	return any_res();
}

void check_rdwr(void)
{
	fstrm_res r;
	int h_open, h_close, h_read, h_write, h_destroy;
	char buf[16];
	struct iovec iov[1];

	__sa_havoc(iov, sizeof iov);
	struct fstrm_rdwr *w = fstrm_rdwr_init(the_obj);
	__sa_check(w != NULL, "C12.init", "init returns no object");

	/* before any method is set every operation fails without calling through NULL */
	h_open = __sa_bool(); h_close = __sa_bool(); h_read = __sa_bool(); h_write = __sa_bool(); h_destroy = __sa_bool();
	if (h_destroy) fstrm_rdwr_set_destroy(w, m_destroy);
	if (h_open) fstrm_rdwr_set_open(w, m_open);
	if (h_close) fstrm_rdwr_set_close(w, m_close);
	if (h_read) fstrm_rdwr_set_read(w, m_read);
	if (h_write) fstrm_rdwr_set_write(w, m_write);

	for (;;) {
		int was = g_open;
		g_calls_open = g_calls_close = g_calls_read = g_calls_write = 0;
		int k = __sa_choice(5);
		if (k == 0) {
			if (was) continue;		/* opening twice is outside the contract */
			g_calls_open = 0;
			r = fstrm_rdwr_open(w);
			if (h_open) {
				__sa_check(g_calls_open, "C12.open-called", "open does not invoke the open method");
				__sa_check((r == fstrm_res_success) == (g_open != 0), "C12.open-result", "open's result is not the method's");
			} else
				__sa_check(r != fstrm_res_success, "C12.missing-method", "open succeeds without an open method");
			if (r == fstrm_res_success) __sa_reach("C12.opened");
		} else if (k == 1) {
			g_calls_close = 0;
			r = fstrm_rdwr_close(w);
			if (!h_close)
				__sa_check(r != fstrm_res_success, "C12.missing-method", "close succeeds without a close method");
			else {
				__sa_check(!g_open, "C12.close-closes", "the transport is still open after close");
				__sa_check(g_calls_close == was, "C12.close-called", "close method not invoked for an open transport, or invoked for a closed one");
			}
			if (g_calls_close) __sa_reach("C12.closed");
		} else if (k == 2) {
			size_t n = __sa_size();
			exp_data = buf; exp_count = n; g_calls_read = 0;
			r = fstrm_rdwr_read(w, buf, n);
			exp_data = 0; exp_count = 0;
			if (r == fstrm_res_success)
				__sa_check(was && h_read && g_calls_read && g_open, "C12.read-success", "read succeeds without a successful call of the read method");
			else if (was && h_read && h_close)
				__sa_check(!g_open, "C12.failed-io-closes", "a failed read leaves the transport open");
			if (was && h_read) __sa_check(g_calls_read, "C12.io-called", "the read method is not invoked on an open transport");
			if (r == fstrm_res_success) __sa_reach("C12.read");
		} else if (k == 3) {
			exp_iov = iov; exp_cnt = 1; g_calls_write = 0;
			r = fstrm_rdwr_write(w, iov, 1);
			exp_iov = 0; exp_cnt = 0;
			if (r == fstrm_res_success)
				__sa_check(was && h_write && g_calls_write && g_open, "C12.write-success", "write succeeds without a successful call of the write method");
			else if (was && h_write && h_close)
				__sa_check(!g_open, "C12.failed-io-closes", "a failed write leaves the transport open");
			if (was && h_write) __sa_check(g_calls_write, "C12.io-called", "the write method is not invoked on an open transport");
			if (r == fstrm_res_success) __sa_reach("C12.written");
		} else
			break;
	}
	g_calls_destroy = 0;
	(void)fstrm_rdwr_destroy(&w);
	__sa_check(w == NULL, "C12.handle-cleared", "destroy leaves the handle set");
	__sa_check(g_calls_destroy == h_destroy, "C12.destroy-called", "destroy does not invoke the destroy method");
	if (h_close) __sa_check(!g_open, "C12.destroy-closes", "destroy leaves the transport open");
	__sa_no_leak("C12.freed");
	__sa_reach("C12.destroyed");
	/* a NULL handle */
	(void)fstrm_rdwr_destroy(&w);
	__sa_check(w == NULL, "C12.handle-cleared", "destroy of NULL");
}
