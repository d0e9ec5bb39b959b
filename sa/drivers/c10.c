/* C10, C11: the reader's protocol and what it delivers, for every order of API calls, every input
 * and every failure. */
#include "ctl.h"
/* growable buffers: any growth that makes the room asked for (what the real one does is decided by C22) */
#define ubuf_reserve ubuf_reserve_real
#include "libmy/ubuf.h"
#undef ubuf_reserve
static void drop(ubuf *u) { free(u->_v); u->_v = NULL; u->_p = NULL; }
void ubuf_reserve(ubuf *u, size_t n)
{
	if (n > u->_n_alloced - u->_n) {
		size_t cap = __sa_size();
		__sa_assume(cap >= u->_n + n && cap <= ((size_t) 1 << 40));
		__sa_check(u->_n == 0, "C11.buffer", "a frame is appended to another one");
		drop(u);
		u->_v = __sa_heap(cap);
		u->_n_alloced = cap;
		u->_p = u->_v;
	}
}

enum { P_NONE, P_READY, P_ACCEPTED, P_STARTED, P_STOPPED, P_FINISHED };
static int ph;			/* how far the stream on the open transport is */
static int r_open;		/* an open succeeded; neither failed nor closed since */
static int r_stopped;		/* STOP was received */
static int r_dead;		/* failed while open, not reopened since */
static int r_closed;
static size_t max_frame;
static int g_data;		/* a data frame was read completely in this API call */
static void *g_data_ptr; static size_t g_data_len;
static size_t pos; static uint8_t pos_val; static int pos_in;

static int ct_index(const uint8_t *data, size_t len) { return 0; }
static void on_match(const struct fstrm_control *c, int idx, bool yes) { }
static int data_phase(void) { return ph == P_STARTED; }
static size_t data_max(void) { return max_frame; }
static void on_data_read(void *data, size_t n)
{
	__sa_check(ph == P_STARTED && r_open, "C10.data-phase", "a data frame is read outside of START..STOP");
	__sa_check(n <= max_frame, "C11.limit", "the payload of a frame over the limit is read");
	__sa_check(!g_data, "C11.one-frame", "more than one data frame is read for one delivery");
	g_data = 1; g_data_ptr = data; g_data_len = n;
	pos_in = 0;
	if (pos < n) {
		pos_val = (uint8_t) __sa_range(0, 255);
		((uint8_t *) data)[pos] = pos_val;
		pos_in = 1;
	}
}
static void before_read(void)
{
	__sa_check(ph == P_STARTED || (t_has_write ? ph == P_NONE || ph == P_ACCEPTED : ph == P_NONE), "C10.read-when",
		"the reader reads although it has not answered, or after STOP");
}
static void before_write(int type)
{
	if (type == FSTRM_CONTROL_ACCEPT)
		__sa_check(ph == P_READY, "C10.accept", "ACCEPT is sent out of order");
	else if (type == FSTRM_CONTROL_FINISH)
		__sa_check(ph == P_STARTED || ph == P_STOPPED, "C10.finish", "FINISH is sent out of order");
	else
		__sa_fail("C10.frame", "the reader writes something only writers send");
}
static void on_control_sent(int type, unsigned mask, fstrm_res res)
{
	if (res != fstrm_res_success) return;
	if (type == FSTRM_CONTROL_ACCEPT) { ph = P_ACCEPTED; __sa_reach("C10.accept-sent"); }
	if (type == FSTRM_CONTROL_FINISH) { ph = P_FINISHED; __sa_reach("C10.finish-sent"); }
}
static void on_control_received(int type, unsigned mask)
{
	if (ph == P_NONE && t_has_write) {
		if (type == FSTRM_CONTROL_READY) ph = P_READY; else g_failed = 1;
	} else if (ph == P_NONE || ph == P_ACCEPTED) {
		if (type == FSTRM_CONTROL_START) { ph = P_STARTED; r_open = 1; r_stopped = 0; r_dead = 0; r_closed = 0; } else g_failed = 1;
	} else if (ph == P_STARTED) {
		if (type == FSTRM_CONTROL_STOP) { ph = P_STOPPED; r_stopped = 1; }
		else __sa_reach("C11.control-skipped");
	}
}
static void on_data_write(const struct iovec *iov, int cnt, fstrm_res res) { }

static const uint8_t *o_data; static size_t o_len; static const struct fstrm_control *o_ctl;
static void fresh(void)
{
	o_data = NULL; o_len = 0; o_ctl = NULL;
	if (r_dead) { r_open = 0; rd_step = 0; }
	fresh_model(); if (!t_open) ph = P_NONE;
	g_data = 0; g_data_ptr = NULL; g_data_len = 0; pos_val = 0; pos_in = 0;
}

void check_reader(void)
{
	fstrm_res r;
	int bidir = __sa_bool();
	struct fstrm_rdwr *rdwr = make_rdwr(1, bidir);
	struct fstrm_reader_options *o = fstrm_reader_options_init();
	pos = __sa_skolem();
	max_frame = __sa_size();
	__sa_assume(fstrm_reader_options_set_max_frame_size(o, max_frame) == fstrm_res_success);
	struct fstrm_reader *rd = fstrm_reader_init(o, &rdwr);
	fstrm_reader_options_destroy(&o);
	__sa_check(rd != NULL && rdwr == NULL, "C10.init", "init does not take the transport over");
	fresh();
	for (;; fresh()) {
		int was_open = r_open, was_closed = r_closed, was_t = t_open, was_stopped = r_stopped, was_dead = r_dead;
		int k = __sa_choice(5);
		if (k == 0) {
			if (t_open && !was_open) continue;	/* opening a transport twice is outside the contract */
			if (was_open && !was_dead && !was_stopped) {
				r = fstrm_reader_open(rd);
				__sa_check(!g_traffic, "C10.open-twice", "opening an open reader sends or reads something");
				continue;
			}
			if (t_open) continue;
			r = fstrm_reader_open(rd);
			if (r == fstrm_res_success) {
				__sa_check(t_open && ph == P_STARTED && r_open && !g_failed, "C10.open-success", "open reports success for an incomplete handshake");
				__sa_reach("C10.opened");
			} else {
				__sa_check(!t_open, "C10.open-failure-closes", "a failed open leaves the transport open");
				r_open = 0;
				__sa_reach("C10.open-failed");
			}
		} else if (k == 1) {
			r = fstrm_reader_close(rd);
			if (!was_open || was_dead) {
				__sa_check(r != fstrm_res_success && !g_traffic, "C10.close-not-open", "closing a reader that is not open does something");
			} else {
				__sa_check(!t_open, "C10.close-closes", "close leaves the transport open");
				if (r == fstrm_res_success) {
					__sa_check(!g_failed && t_closes && t_close_res == fstrm_res_success, "C10.close-success", "close reports success although a step of it failed");
					if (bidir) __sa_check(ph == P_FINISHED, "C10.close-finish", "close reports success without FINISH");
					__sa_reach("C10.closed");
				}
				r_open = 0; r_closed = 1; r_stopped = 0;
			}
		} else if (k == 2) {
						o_data = __sa_ptr(); o_len = __sa_size();
			r = fstrm_reader_read(rd, &o_data, &o_len);
			if (r == fstrm_res_success) {
				__sa_check(t_open && r_open && ph == P_STARTED && !g_failed, "C10.read-success", "a frame is delivered although the stream is not open or a step failed");
				__sa_check(g_data, "C11.complete", "a frame is delivered although no complete data frame was read");
				__sa_check(o_data == g_data_ptr && o_len == g_data_len, "C11.delivered", "what is delivered is not the data frame that was read");
				__sa_check(o_len > 0 && o_len <= max_frame, "C11.length", "the length delivered is zero or above the maximum");
				if (pos_in) __sa_check(o_data[pos] == pos_val, "C11.content", "the payload delivered is not the payload read");
				__sa_reach("C11.delivered");
			} else if (r_open && !was_dead) {
				/* the stream was, or has just been, opened */
				if (ph == P_STOPPED && !was_stopped) {
					__sa_check(r == fstrm_res_stop, "C10.stop-result", "STOP does not end the stream with fstrm_res_stop");
					__sa_reach("C10.stopped");
				} else if (!was_stopped) {
					__sa_check(g_failed, "C11.fails-only-on-failure", "read fails although nothing failed");
					if (was_open || t_open) r_dead = 1;
					if (!was_open && !t_open) r_dead = 1;
					__sa_reach("C11.failed");
				}
			}
			if (!r_open) __sa_check(!t_open || was_t, "C10.read-open-failure", "a failed open leaves the transport open");
			if (was_stopped || was_closed || was_dead)
				__sa_check(r != fstrm_res_success && !g_traffic, "C10.read-ended", "a stopped, closed or failed reader reads or delivers something");
			if (g_failed) __sa_check(r != fstrm_res_success, "C11.failure-reported", "a failed or malformed read is reported as success");
		} else if (k == 3) {
			(void)fstrm_reader_get_control(rd, (fstrm_control_type)__sa_range(0, 9), &o_ctl);
			__sa_check(!was_open || !g_traffic, "C10.get-control", "get_control on an open reader sends or reads something");
			__sa_check(!was_closed || !g_traffic, "C10.get-control", "get_control on a closed reader sends or reads something");
		} else
			break;
	}
	fresh();
	int was_open = r_open && !r_dead, was_t = t_open;
	r = fstrm_reader_destroy(&rd);
	__sa_check(rd == NULL, "C10.destroy", "destroy leaves the handle set");
	__sa_check(!t_open, "C10.destroy-closes", "destroy leaves the transport open");
	if (was_open && was_t && !g_failed && bidir)
		__sa_check(ph == P_FINISHED, "C10.destroy-finishes", "destroying an open reader does not send FINISH");
	__sa_no_leak("C10.freed");
	__sa_reach("C10.destroyed");
}
