/* C09: the writer's protocol, for every order of API calls and every failure. */
#include "ctl.h"

enum { P_NONE, P_READY, P_ACCEPTED, P_STARTED, P_STOPPED, P_FINISHED };
static int ph;			/* how far the stream on the open transport is */
static int w_open;		/* an open succeeded and there was no close since */
static int w_closed;		/* closed and not opened since */
static int g_data_ok, g_data_calls;

static int ct_index(const uint8_t *data, size_t len) { return 0; }
static void on_match(const struct fstrm_control *c, int idx, bool yes) { }
static int data_phase(void) { return 0; }
static size_t data_max(void) { return 0; }
static void on_data_read(void *data, size_t n) { }
static void before_read(void)
{
	__sa_check(ph == P_READY || ph == P_STOPPED, "C09.read-when", "the writer reads although it has neither sent READY nor STOP");
}
static void before_write(int type)
{
	if (type == FSTRM_CONTROL_READY)
		__sa_check(t_has_read && ph == P_NONE, "C09.ready", "READY is not the first frame on a bidirectional transport");
	else if (type == FSTRM_CONTROL_START)
		__sa_check(t_has_read ? ph == P_ACCEPTED : ph == P_NONE, "C09.start", "START is sent out of order");
	else if (type == FSTRM_CONTROL_STOP)
		__sa_check(ph == P_STARTED, "C09.stop", "STOP is sent out of order");
	else if (type == 0)
		__sa_check(ph == P_STARTED && w_open, "C09.data", "a data frame is written outside of START..STOP");
	else
		__sa_fail("C09.frame", "the writer sends a control frame only readers send");
}
static void on_control_sent(int type, unsigned mask, fstrm_res res)
{
	if (res != fstrm_res_success) return;
	if (type == FSTRM_CONTROL_READY) { ph = P_READY; __sa_reach("C09.ready-sent"); }
	if (type == FSTRM_CONTROL_START) { ph = P_STARTED; w_open = 1; w_closed = 0; }
	if (type == FSTRM_CONTROL_STOP) ph = P_STOPPED;
}
static void on_control_received(int type, unsigned mask)
{
	if (ph == P_READY) {
		if (type == FSTRM_CONTROL_ACCEPT) ph = P_ACCEPTED; else g_failed = 1;
	} else if (ph == P_STOPPED) {
		if (type == FSTRM_CONTROL_FINISH) { ph = P_FINISHED; __sa_reach("C09.finish-received"); } else g_failed = 1;
	}
}
static void on_data_write(const struct iovec *iov, int cnt, fstrm_res res)
{
	g_data_calls = 1;
	g_data_ok = (res == fstrm_res_success);
}

static void fresh(void) { fresh_model(); g_data_ok = 0; g_data_calls = 0; if (!t_open) ph = P_NONE; }

void check_writer(void)
{
	fstrm_res r;
	char payload[4];
	int bidir = __sa_bool();
	struct fstrm_rdwr *rdwr = make_rdwr(bidir, 1);
	struct fstrm_writer *w = fstrm_writer_init(NULL, &rdwr);
	__sa_check(w != NULL && rdwr == NULL, "C09.init", "init does not take the transport over");
	__sa_havoc(payload, 4);
	fresh();
	for (;; fresh()) {
		int was_open = w_open, was_closed = w_closed, was_t = t_open;
		int k = __sa_choice(5);
		if (k == 0) {
			r = fstrm_writer_open(w);
			if (was_open) {
				__sa_check(!g_traffic, "C09.open-twice", "opening an open writer sends or reads something");
			} else if (r == fstrm_res_success) {
				__sa_check(t_open && ph == P_STARTED && w_open && !g_failed, "C09.open-success", "open reports success for an incomplete handshake");
				__sa_reach("C09.opened");
			} else {
				__sa_check(!t_open, "C09.open-failure-closes", "a failed open leaves the transport open");
				w_open = 0;
				__sa_reach("C09.open-failed");
			}
		} else if (k == 1) {
			r = fstrm_writer_close(w);
			__sa_check(!t_open, "C09.close-closes", "close leaves the transport open");
			if (!was_open) {
				__sa_check(r != fstrm_res_success && !g_traffic, "C09.close-not-open", "closing a writer that is not open does something");
			} else {
				if (r == fstrm_res_success) {
					__sa_check(!g_failed && t_closes && t_close_res == fstrm_res_success, "C09.close-success", "close reports success although a step of it failed");
					__sa_check(ph == (bidir ? P_FINISHED : P_STOPPED), "C09.close-complete", "close reports success for an incomplete shutdown");
					__sa_reach("C09.closed");
				}
				w_open = 0; w_closed = 1;
			}
		} else if (k == 2) {
			r = fstrm_writer_write(w, payload, 4);
			if (r == fstrm_res_success)
				__sa_check(g_data_ok && !g_failed && t_open && w_open, "C09.write-success", "a write reports success although no data frame was written");
			if (was_closed) __sa_check(r != fstrm_res_success && !g_traffic, "C09.write-closed", "a closed writer writes");
			if (was_open && !was_t) __sa_check(r != fstrm_res_success && !g_traffic, "C09.write-failed", "a writer whose transport failed writes");
			if (was_open && was_t) __sa_check(g_data_calls, "C09.write-writes", "an open writer does not hand the data to the transport");
			if (r == fstrm_res_success) __sa_reach("C09.written");
			if (g_failed) __sa_check(!t_open, "C09.failed-write-closes", "a failed write leaves the transport open");
		} else if (k == 3) {
			struct fstrm_control *c;
			(void)fstrm_writer_get_control(w, (fstrm_control_type)__sa_range(0, 9), &c);
			__sa_check(!was_open || !g_traffic, "C09.get-control", "get_control on an open writer sends or reads something");
			__sa_check(!was_closed || !g_traffic, "C09.get-control", "get_control on a closed writer sends or reads something");
		} else
			break;
	}
	fresh();
	int was_open = w_open, was_t = t_open;
	r = fstrm_writer_destroy(&w);
	__sa_check(w == NULL, "C09.destroy", "destroy leaves the handle set");
	__sa_check(!t_open, "C09.destroy-closes", "destroy leaves the transport open");
	if (was_open && was_t && !g_failed)
		__sa_check(ph == (bidir ? P_FINISHED : P_STOPPED), "C09.destroy-finishes", "destroying an open writer does not end the stream");
	__sa_no_leak("C09.freed");
	__sa_reach("C09.destroyed");
}
