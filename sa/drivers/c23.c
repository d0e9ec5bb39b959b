/* C23, C24: one connection of fstrm_capture (which may be closed and accepted again), any byte
 * stream in any segmentation, any signals, any failure; and the file it writes. */
#include "cap.h"

/* ---- control objects (C05-C07 decide the real ones) */
struct fstrm_control { int type; int ours; int other; };
static void *enc_ptr; static size_t enc_len; static int enc_type, enc_ours, enc_other;
static struct fstrm_control *dec;	/* the object last decoded into */
static int c_type, c_match;		/* the control frame decoded last */
static int pend;			/* what has to come of it */
enum { NONE, CLOSE, ACCEPT, START, FINISH };
static int m_small, m_good;		/* no frame is over the buffer limit; no frame or answer is wrong */
static int m;				/* the connection's protocol state */
enum { M_READY, M_START, M_DATA, M_STOPPED };

struct fstrm_control *fstrm_control_init(void)
{
	struct fstrm_control *c = __sa_heap(sizeof(*c));
	c->type = 0; c->ours = 0; c->other = 0;
	return c;
}
void fstrm_control_destroy(struct fstrm_control **c) { if (*c) { free(*c); *c = NULL; } }
void fstrm_control_reset(struct fstrm_control *c) { c->type = 0; c->ours = 0; c->other = 0; }
fstrm_res fstrm_control_set_type(struct fstrm_control *c, fstrm_control_type t) { c->type = t; return fstrm_res_success; }
fstrm_res fstrm_control_get_type(const struct fstrm_control *c, fstrm_control_type *t)
{
	if (c->type < 1 || c->type > 5) return fstrm_res_failure;
	*t = c->type;
	return fstrm_res_success;
}
static void give_up(void) { if (pend != NONE) pend = CLOSE; else FAIL(); }
static int ours(const uint8_t *p, size_t n) { return (const char *) p == a_type && n == strlen(a_type); }
fstrm_res fstrm_control_add_field_content_type(struct fstrm_control *c, const uint8_t *p, size_t n)
{
	if (!m_good && __sa_bool()) { give_up(); return fstrm_res_failure; }
	if (ours(p, n)) c->ours++; else c->other = 1;
	return fstrm_res_success;
}
fstrm_res fstrm_control_get_num_field_content_type(const struct fstrm_control *c, size_t *n) { *n = (size_t) __sa_choice(3); return fstrm_res_success; }
static char ctbytes[4];
fstrm_res fstrm_control_get_field_content_type(const struct fstrm_control *c, const size_t i, const uint8_t **p, size_t *n)
{
	*p = (const uint8_t *) ctbytes; *n = 4;
	return fstrm_res_success;
}
fstrm_res fstrm_control_match_field_content_type(const struct fstrm_control *c, const uint8_t *p, size_t n)
{
	__sa_check(ours(p, n), "C24.match", "a frame's content types are compared with something else than the configured one");
	return c_match ? fstrm_res_success : fstrm_res_failure;
}
fstrm_res fstrm_control_encode(const struct fstrm_control *c, void *buf, size_t *len, const uint32_t flags)
{
	__sa_check(flags == FSTRM_CONTROL_FLAG_WITH_HEADER, "C23.header", "a control frame is encoded without its header");
	__sa_check(*len >= FSTRM_CONTROL_FRAME_LENGTH_MAX, "C23.room", "there is not room for every control frame");
	__sa_valid(buf, *len);
	if (!m_good && __sa_bool()) { give_up(); return fstrm_res_failure; }
	*len = (size_t) __sa_range(12, FSTRM_CONTROL_FRAME_LENGTH_MAX);
	enc_ptr = buf; enc_len = *len; enc_type = c->type; enc_ours = c->ours; enc_other = c->other;
	return fstrm_res_success;
}

/* ---- the connection's input */
static struct bufferevent *bev; static void *cb_arg;
static bufferevent_data_cb cb_rd, cb_wr; static bufferevent_event_cb cb_ev;
static int alive;			/* the connection is there */
static int closing_ok;			/* the event being delivered ends the connection */
static size_t hw;			/* buffer limit */
static int left;			/* there are bytes in the input buffer */
static int seen; static size_t blen;	/* how many, once somebody asks */
static int m_file;			/* this analysis is about the file: frames arrive one by one, valid and not too large;
					 * the other one is about the connection: the file is written without failure or signal */
static int hd;				/* the header of the frame at its head has been looked at */
static uint32_t P, C;			/* its two words */
static uint64_t total;			/* its length, 0: not known */
static int bad;				/* it cannot be accepted */
static int ctl;				/* it is a control frame */
static uint64_t wpos;			/* bytes of it written to the output */
static int taken;			/* it has been written or decoded */
static int over;			/* it is over the buffer limit and has been for an event */
static int skipping; static uint64_t skip_left;		/* bytes of an oversized frame still to be discarded */
static char *seg[3]; static size_t slen[3]; static int nseg;
static char *lin;			/* the frame made contiguous */
static char in_obj[1];
#define IN ((struct evbuffer *) in_obj)

static void live(struct bufferevent *b) { __sa_check(alive && b == bev, "C25.use", "a connection is used after it was closed"); }
static void look(void)
{
	if (!seen && left) { blen = __sa_size(); __sa_assume(blen > (over ? 8 : 0) && blen <= ((size_t) 1 << 40)); }
	seen = 1;
}
static void head_file(void)
{
	hd = 1; bad = 0; wpos = 0; taken = 0; nseg = 0; lin = NULL;
	if (m != M_DATA) { ctl = 1; P = 0; C = (uint32_t) __sa_range(4, 500); total = (uint64_t) C + 8; }
	else { ctl = 0; C = 0; P = (uint32_t) __sa_range(1, UINT32_MAX - 4); total = (uint64_t) P + 4; }
	__sa_assume(total == blen);
}
static void head(void)
{
	look();
	if (hd || skipping || blen < 4) return;
	if (m_file) { __sa_assume(blen >= 8); head_file(); return; }
	wpos = 0; taken = 0; nseg = 0; lin = NULL;
	switch (m_good ? __sa_choice(3) : __sa_choice(6)) {
	case 0:		/* a data frame */
		hd = 1; bad = 0; ctl = 0; C = 0;
		P = (uint32_t) __sa_range(1, UINT32_MAX - 4); total = (uint64_t) P + 4;
		break;
	case 5:		/* too large a frame for any limit */
		hd = 1; bad = 1; ctl = 0; C = 0; total = 0;
		P = (uint32_t) __sa_range(UINT32_MAX - 3, UINT32_MAX);
		break;
	case 1:		/* a control frame whose length has not arrived */
		hd = 1; bad = 0; ctl = 1; P = 0; C = 0; total = 0;
		__sa_assume(blen < 8);
		break;
	case 3:		/* control frames out of the bounds */
		hd = 1; bad = 1; ctl = 1; P = 0; total = 0;
		__sa_assume(blen >= 8);
		C = (uint32_t) __sa_range(0, 3);
		break;
	case 4:
		hd = 1; bad = 1; ctl = 1; P = 0; total = 0;
		__sa_assume(blen >= 8);
		C = (uint32_t) __sa_range(FSTRM_CONTROL_FRAME_LENGTH_MAX + 1, UINT32_MAX);
		break;
	default:	/* a control frame */
		hd = 1; bad = 0; ctl = 1; P = 0;
		__sa_assume(blen >= 8);
		C = (uint32_t) __sa_range(4, FSTRM_CONTROL_FRAME_LENGTH_MAX); total = (uint64_t) C + 8;
	}
	if (m_small) __sa_assume(total <= hw);
}
static void no_head(void) { over = 0; hd = 0; P = 0; C = 0; total = 0; bad = 0; ctl = 0; wpos = 0; taken = 0; nseg = 0; lin = NULL; seg[0] = seg[1] = seg[2] = NULL; slen[0] = slen[1] = slen[2] = 0; }
/* the control frame handled last is of no consequence any more */
static void forget(void)
{
	enc_ptr = NULL; enc_len = 0; enc_type = 0; enc_ours = 0; enc_other = 0; c_type = 0; c_match = 0;
	if (dec) { dec->type = (int) __sa_range(0, 5); dec->ours = (int) __sa_range(0, 2); dec->other = (int) __sa_range(0, 1); }
	dec = NULL;
}
/* the frame before must have had its consequences when the program turns to the next or returns */
static void settle(void)
{
	if (!alive) return;
	__sa_check(pend != CLOSE, "C24.close", "a connection stays open although its last frame or answer was not acceptable");
	__sa_check(pend != ACCEPT, "C24.accept", "READY is not answered with ACCEPT");
	__sa_check(pend != FINISH, "C24.finish", "STOP is not answered with FINISH");
	if (pend == START) m = M_DATA;
	pend = NONE;
	forget();
}
static void rotation_due(void);
struct evbuffer *bufferevent_get_input(struct bufferevent *b) { live(b); return IN; }
struct evbuffer *bufferevent_get_output(struct bufferevent *b) { live(b); return (struct evbuffer *) __sa_nzptr(); }
evutil_socket_t bufferevent_getfd(struct bufferevent *b) { live(b); return 5; }
size_t evbuffer_get_length(const struct evbuffer *e)
{
	__sa_check(e == IN && alive, "C25.use", "the input buffer of a closed connection is used");
	settle();
	rotation_due();
	look();
	return blen;
}
static void be32(char *d, uint32_t v) { uint32_t b = htonl(v); memcpy(d, &b, 4); }
ev_ssize_t evbuffer_copyout(struct evbuffer *e, void *d, size_t n)
{
	__sa_check(e == IN && alive, "C25.use", "the input buffer of a closed connection is used");
	__sa_check(!skipping, "C24.skip", "bytes of a frame that is being skipped are taken for a frame");
	__sa_check(n == 4 || n == 8, "C24.header", "something else than a frame's header is looked at");
	head();
	__sa_check(n <= blen, "C24.arrived", "bytes are read that have not arrived");
	be32((char *) d, P);
	if (n == 8) {
		if (P == 0) be32((char *) d + 4, C);
		else __sa_havoc((char *) d + 4, 4);
	}
	return (ev_ssize_t) n;
}
/* the frame at the head, in up to three pieces of any sizes */
static void pieces(void)
{
	if (nseg) return;
	nseg = m_file ? 1 + __sa_choice(3) : 1;
	uint64_t left = total;
	for (int i = 0; i < nseg; i++) {
		slen[i] = __sa_size();
		if (i == nseg - 1) __sa_assume(slen[i] >= left && slen[i] <= ((size_t) 1 << 40));
		else __sa_assume(slen[i] > 0 && slen[i] < left);
		left -= slen[i];
		seg[i] = __sa_obj(slen[i]);
	}
}
static void data_taken(void)
{
	__sa_check(hd && !bad && !ctl && !skipping && m == M_DATA, "C24.data", "data is taken outside of START..STOP, or not at a data frame");
}
int evbuffer_peek(struct evbuffer *e, ev_ssize_t len, struct evbuffer_ptr *start, struct evbuffer_iovec *vec, int n)
{
	__sa_check(e == IN && alive && start == NULL, "C25.use", "the input buffer of a closed connection is used");
	data_taken();
	__sa_check((uint64_t) len == total && total <= blen, "C24.arrived", "a data frame is taken that has not fully arrived, or with another length than announced");
	pieces();
	for (int i = 0; i < nseg && i < n; i++) { vec[i].iov_base = seg[i]; vec[i].iov_len = slen[i]; }
	return nseg;
}
unsigned char *evbuffer_pullup(struct evbuffer *e, ev_ssize_t len)
{
	__sa_check(e == IN && alive, "C25.use", "the input buffer of a closed connection is used");
	__sa_check(hd && !bad && !skipping && !nseg, "C24.arrived", "a frame is taken that cannot be taken");
	__sa_check((uint64_t) len == total && total <= blen, "C24.arrived", "a frame is taken that has not fully arrived, or with another length than announced");
	if (!ctl) data_taken();
	if (ctl && !m_good && __sa_bool()) { pend = CLOSE; return NULL; }
	lin = __sa_obj((size_t) len);
	if (!ctl) { nseg = 1; seg[0] = lin; slen[0] = (size_t) len; }
	return (unsigned char *) lin;
}
fstrm_res fstrm_control_decode(struct fstrm_control *c, const void *buf, size_t len, const uint32_t flags)
{
	__sa_check(hd && ctl && !bad && !taken && lin != NULL && buf == lin && len == total, "C24.decode", "what is decoded is not the control frame that has arrived");
	__sa_check(flags == FSTRM_CONTROL_FLAG_WITH_HEADER, "C24.decode", "a control frame is decoded as if it had no header");
	__sa_check(pend == NONE, "C24.close", "a further frame is decoded although the last one must end the connection");
	taken = 1; dec = c;
	c->ours = 0; c->other = 1; c->type = 0;
	if (!m_file && !m_good && __sa_bool()) { pend = CLOSE; return fstrm_res_failure; }
	if (m_file || m_good) { c_type = c->type = m == M_READY ? FSTRM_CONTROL_READY : m == M_START ? FSTRM_CONTROL_START : FSTRM_CONTROL_STOP; c_match = 1; }
	else { c_type = c->type = 1 + __sa_choice(5); c_match = __sa_bool(); }
	if (m == M_READY && c_type == FSTRM_CONTROL_READY && c_match) pend = ACCEPT;
	else if (m == M_START && c_type == FSTRM_CONTROL_START && c_match) pend = START;
	else if (m == M_DATA && c_type == FSTRM_CONTROL_STOP) pend = FINISH;
	else pend = CLOSE;
	return fstrm_res_success;
}
int evbuffer_drain(struct evbuffer *e, size_t n)
{
	__sa_check(e == IN && alive, "C25.use", "the input buffer of a closed connection is used");
	look();
	__sa_check(n <= blen, "C24.arrived", "more is removed from the input than has arrived");
	size_t had = blen;
	if (n == blen) left = 0;
	blen = 0; seen = 0;	/* how much had come is arbitrary */
	if (skipping) {
		__sa_check(n <= skip_left, "C24.skip", "more is discarded than the oversized frame");
		if (n == skip_left) { skip_left = 0; skipping = 0; } else skip_left -= n;
		__sa_reach("C24.skipping");
	} else if (hd && taken) {
		__sa_check(ctl && n == total, "C24.consumed", "a control frame is not removed from the input exactly");
		no_head();
	} else if (hd && wpos > 0) {
		__sa_check(wpos == total && n == total, "C23.whole", "a data frame is not written completely before it is removed from the input, or not removed exactly");
		no_head();
		__sa_reach("C23.data-frame");
	} else {
		__sa_check(hd && !bad && total > hw && (over || had < total), "C24.dropped", "a frame is discarded that is not over the buffer limit");
		if (n != total) { skip_left = total - n; skipping = 1; }
		no_head();
		__sa_reach("C24.skip");
	}
	return 0;
}
int bufferevent_write(struct bufferevent *b, const void *d, size_t n)
{
	live(b);
	__sa_check(enc_ptr != NULL && d == enc_ptr && n == enc_len, "C24.answer", "what is sent is not the encoded control frame");
	enc_ptr = NULL;
	if (pend == ACCEPT)
		__sa_check(enc_type == FSTRM_CONTROL_ACCEPT && enc_ours == 1 && !enc_other, "C24.accept", "READY is not answered with ACCEPT naming the configured content type");
	else if (pend == FINISH)
		__sa_check(enc_type == FSTRM_CONTROL_FINISH && !enc_ours && !enc_other, "C24.finish", "STOP is not answered with FINISH");
	else
		__sa_fail("C24.answer", "something is sent that nothing asked for");
	if (!m_good && __sa_bool()) { pend = CLOSE; return -1; }
	if (pend == ACCEPT) { m = M_START; __sa_reach("C24.accepted"); }
	if (pend == FINISH) { m = M_STOPPED; __sa_reach("C24.finished"); }
	pend = NONE;
	forget();
	return 0;
}
void bufferevent_free(struct bufferevent *b)
{
	__sa_check(alive && b == bev, "C25.once", "a connection is closed twice");
	__sa_check(closing_ok || pend == CLOSE || (hd && bad) || (hd && !ctl && m != M_DATA && total <= blen), "C24.kept", "a connection is closed although nothing is wrong with it");
	alive = 0;
	free(b);
}
void bufferevent_setcb(struct bufferevent *b, bufferevent_data_cb r, bufferevent_data_cb w, bufferevent_event_cb e, void *arg)
{
	live(b);
	cb_rd = r; cb_wr = w; cb_ev = e; cb_arg = arg;
}
void bufferevent_setwatermark(struct bufferevent *b, short ev, size_t low, size_t high)
{
	live(b);
	if (ev & EV_READ) { __sa_check(low == 0, "C24.limit", "input is not reported as it arrives"); hw = high; }
	if (ev & EV_WRITE) __sa_check(low == 0, "C24.limit", "the end of an answer is reported before it has been sent");
}
int bufferevent_enable(struct bufferevent *b, short ev) { live(b); return 0; }
struct bufferevent *bufferevent_socket_new(struct event_base *base, evutil_socket_t fd, int options)
{
	__sa_check(options & BEV_OPT_CLOSE_ON_FREE, "C25.socket", "closing the connection does not close its socket");
	if (__sa_bool()) return NULL;
	bev = (struct bufferevent *) __sa_heap(8);
	alive = 1; m = M_READY; left = 0; seen = 0; blen = 0; skip_left = 0; skipping = 0; pend = NONE; no_head(); hw = 0;
	return bev;
}
int evutil_closesocket(evutil_socket_t fd) { return 0; }

/* ---- the output file */
static int f_open;			/* 0 closed, 1 descriptor only, 2 opened, 3 started, 4 stopped */
static int f_opens;			/* opened in this event */
static int f_dirty;			/* closing is due to a failure */
static char *o_name;
static FILE *f_ptr; static char f_obj[216];
static long t_now, t_open; static int t_read;
static int frame_done;			/* a data frame was completed since the rotation check before */
static int sig;				/* a rotation was asked for */
static int rotated;
static int is_name(const char *s) { return s == a_name; }
void tzset(void) { }
time_t time(time_t *t)
{
	long v = __sa_range(0, (long) 1 << 40);
	__sa_assume(v >= t_now);
	t_now = v; t_read = 1;
	if (t) *t = v;
	return v;
}
static struct tm *cal(const time_t *t, struct tm *tm, int k)
{
	__sa_check(a_cal == k, "C23.name", "the file name is made with the other calendar");
	__sa_check(*t == t_now, "C23.name", "the file name is not made from the current time");
	__sa_havoc(tm, sizeof(*tm));
	return tm;
}
struct tm *localtime_r(const time_t *t, struct tm *tm) { return cal(t, tm, 1); }
struct tm *gmtime_r(const time_t *t, struct tm *tm) { return cal(t, tm, 2); }
size_t strftime(char *s, size_t max, const char *fmt, const struct tm *tm)
{
	__sa_check(fmt == a_name, "C23.name", "the file name is not made from --write");
	__sa_valid(s, max);
	o_name = s;
	if (m_file && __sa_bool()) { FAIL(); return 0; }
	*s = 'x';
	return 1;
}
int sa_open(const char *p, int flags, mode_t mode) __asm__("open");
int sa_open(const char *p, int flags, mode_t mode)
{
	__sa_check(a_cal ? p == o_name : p == a_name, "C23.name", "the output file has another name");
	__sa_check((flags & O_ACCMODE) == O_WRONLY && (flags & O_CREAT) && (flags & O_TRUNC), "C23.truncate", "the output file is not created or is opened with what it held before");
	__sa_check(f_open == 0, "C23.one", "an output file is opened while another one is open");
	if (m_file && __sa_bool()) { FAIL(); return -1; }
	f_open = 1; t_open = t_now; f_opens = 1; o_name = NULL;
	return 7;
}
FILE *fdopen(int fd, const char *mode)
{
	__sa_check(f_open == 1 && fd == 7, "C23.one", "another descriptor is used for the output");
	if (m_file && __sa_bool()) { FAIL(); return NULL; }
	f_open = 2;
	return f_ptr = (FILE *) f_obj;
}
FILE *fopen(const char *p, const char *mode)
{
	int fd = sa_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666);
	__sa_check(mode[0] == 'w', "C23.truncate", "the output file is not created or is opened with what it held before");
	if (fd < 0) return NULL;
	f_open = 2;
	return f_ptr = (FILE *) f_obj;
}
int close(int fd) { __sa_check(f_open == 1 && g_failed, "C23.close", "the output's descriptor is closed"); f_open = 0; return 0; }
static void use(FILE *f)
{
	if (f_open == 0 && a_stdout && !f_opens) { f_open = 2; f_opens = 1; f_ptr = stdout; }
	__sa_check(f_open >= 2 && f == f_ptr, "C23.open", "something is written although the output file is not open");
}
static size_t put(const void *p, size_t size, size_t n, FILE *f)
{
	use(f);
	__sa_check(n == 1 || size == 1, "C23.whole", "an output of another shape");
	size_t len = n == 1 ? size : n;
	__sa_check(!g_failed, "C23.nothing-after-failure", "the output goes on after a failure");
	if (enc_ptr != NULL && p == enc_ptr) {
		__sa_check(len == enc_len, "C23.whole", "a control frame is not written in full");
		enc_ptr = NULL;
		if (f_open == 2) {
			__sa_check(enc_type == FSTRM_CONTROL_START && enc_ours == 1 && !enc_other, "C23.start", "a file does not begin with START naming the configured content type");
			f_open = 3;
			__sa_reach("C23.started");
		} else {
			__sa_check(f_open == 3 && enc_type == FSTRM_CONTROL_STOP && !enc_ours && !enc_other, "C23.stop", "a file does not end with STOP");
			__sa_check(wpos == 0, "C23.whole", "a file ends in the middle of a frame");
			f_open = 4;
			__sa_reach("C23.stopped");
		}
	} else {
		__sa_check(f_open == 3, "C23.start", "data is written before START or after STOP");
		__sa_check(g_running && alive && hd && nseg > 0 && !taken && !ctl, "C23.bytes", "something is written that is not part of a data frame");
		uint64_t start = 0;
		int found = 0;
		for (int i = 0; i < nseg; i++) {
			if (!found && p == seg[i]) {
				__sa_check(wpos == start, "C23.bytes", "the pieces of a frame are not written in order");
				__sa_check(len <= slen[i], "C23.bytes", "more is written than the piece holds");
				__sa_check(len == slen[i] || start + len == total, "C23.bytes", "part of a piece of a frame is not written");
				found = 1;
			}
			start += slen[i];
		}
		__sa_check(found, "C23.bytes", "something is written that is not part of the frame");
		wpos += len;
		__sa_check(wpos <= total, "C23.bytes", "more is written than the frame holds");
		if (wpos == total) { frame_done = 1; t_read = 0; }
	}
	if (m_file && __sa_bool()) { FAIL(); return 0; }
	return n;
}
size_t fwrite(const void *p, size_t size, size_t n, FILE *f) { return put(p, size, n, f); }
size_t fwrite_unlocked(const void *p, size_t size, size_t n, FILE *f) { return put(p, size, n, f); }
int fflush(FILE *f) { __sa_check(f == f_ptr && f_open >= 2, "C23.open", "a file is flushed that is not open"); return (int) __sa_range(-1, 0); }
int fclose(FILE *f)
{
	use(f);
	__sa_check(f_open == 4 || g_failed, "C23.stop", "a file is closed without STOP");
	__sa_check(!g_running || sig || g_failed || (!a_stdout && a_split > 0 && frame_done && t_read && t_now - t_open >= a_split), "C23.rotate", "the output is rotated although neither the time has come nor a signal asked for it");
	f_ptr = NULL;
	f_open = 0; f_opens = 0;
	rotated = 1;
	if (m_file && __sa_bool()) { FAIL(); return -1; }
	return 0;
}
static void rotation_due(void)
{
	if (frame_done && a_split > 0) {
		__sa_check(t_read, "C23.rotate", "the time is not looked at after a frame");
		__sa_check(rotated || t_now - t_open < a_split, "C23.rotate", "the output is not rotated although it is time");
	}
	frame_done = 0; rotated = 0; t_read = 0;
}

/* ---- listening and the event loop */
static evconnlistener_cb cb_acc; static void *acc_arg;
static event_callback_fn cb_hup, cb_usr1; static void *hup_arg, *usr1_arg;
static char lis_obj[1], base_obj[1], ev_obj[1];
struct event_base *event_base_new(void) { if (m_file && __sa_bool()) { FAIL(); return NULL; } return (struct event_base *) base_obj; }
void event_base_free(struct event_base *b) { }
void event_free(struct event *e) { }
struct evconnlistener *evconnlistener_new_bind(struct event_base *b, evconnlistener_cb cb, void *arg, unsigned flags, int backlog, const struct sockaddr *sa, int len)
{
	__sa_valid(sa, (size_t) len);
	__sa_check(!(flags & LEV_OPT_DISABLED), "C25.listen", "the listener starts disabled");
	if (m_file && __sa_bool()) { FAIL(); return NULL; }
	cb_acc = cb; acc_arg = arg;
	return (struct evconnlistener *) lis_obj;
}
void evconnlistener_free(struct evconnlistener *l) { }
void evconnlistener_set_error_cb(struct evconnlistener *l, evconnlistener_errorcb cb) { }
struct event_base *evconnlistener_get_base(struct evconnlistener *l) { return (struct event_base *) base_obj; }
int evconnlistener_enable(struct evconnlistener *l) { return 0; }
int evconnlistener_disable(struct evconnlistener *l) { return 0; }
struct event *event_new(struct event_base *b, evutil_socket_t fd, short ev, event_callback_fn cb, void *arg)
{
	__sa_check(fd != SIGUSR1 || ((ev & EV_SIGNAL) && (ev & EV_PERSIST)), "C23.signal", "only the first SIGUSR1 is handled");
	if (fd == SIGUSR1) { cb_usr1 = cb; usr1_arg = arg; }
	if (fd == SIGHUP) { cb_hup = cb; hup_arg = arg; }
	return (struct event *) ev_obj;
}
int event_add(struct event *e, const struct timeval *tv) { return 0; }
int sigemptyset(sigset_t *s) { return 0; }
int sigaction(int n, const struct sigaction *a, struct sigaction *o) { if (m_file && __sa_bool()) { FAIL(); return -1; } return 0; }

static void ev_read(void)
{
	left = 1;		/* what had come before and was left, and what is new */
	cb_rd(bev, cb_arg);
	rotation_due();
	if (!alive) return;
	settle();
	if (skipping) { __sa_check(!left, "C24.waiting", "bytes of an oversized frame stay in the input"); return; }
	look();
	if (blen >= 4) {
		head();
		__sa_check(!bad, "C24.close", "a malformed frame does not close the connection");
		if (total) {
			__sa_check(total > blen, "C24.waiting", "a frame that has fully arrived is not processed");
			__sa_check(!over, "C24.waiting", "a frame that does not fit into the buffer limit is waited for");
			if (total > hw) over = 1;
		}
	}
}
/* what must hold between two events; forgets what the event before left behind */
static void fresh(void)
{
	__sa_check(!g_failed, "C23.fail", "the program goes on although writing, rotating or closing the output failed");
	__sa_check(f_open == 3, "C23.open", "the program goes on without an output file");
	if (!over) no_head();
	blen = 0; left = 0; seen = 0; sig = 0; rotated = 0; frame_done = 0; t_read = 0; closing_ok = 0;
	if (!alive) { no_head(); bev = NULL; cb_arg = NULL; cb_rd = NULL; cb_wr = NULL; cb_ev = NULL; blen = 0; skip_left = 0; skipping = 0; m = 0; hw = 0; dec = NULL; }
	pend = NONE;
	forget();
}
int event_base_dispatch(struct event_base *b)
{
	if (m_file && __sa_bool()) { FAIL(); return -1; }
	__sa_check(f_open == 3 && !g_failed, "C23.start", "the program runs without an output file");
	g_running = 1;
	for (;; fresh()) {
		int k = m_file ? __sa_choice(7) : __sa_choice(5);
		if (k == 0) {
			if (alive) continue;
			cb_acc((struct evconnlistener *) lis_obj, 5, NULL, 0, acc_arg);
			if (alive) __sa_check(hw == (a_buf > 0 ? (size_t) a_buf : 262144), "C24.limit", "the buffer limit is not the configured one");
		} else if (k == 1) {
			if (alive) ev_read();
		} else if (k == 2) {
			if (!alive) continue;
			closing_ok = m == M_STOPPED;
			int c = closing_ok;
			cb_wr(bev, cb_arg);
			__sa_check(!c || !alive, "C24.finished", "the connection stays open after FINISH was sent");
		} else if (k == 3) {
			if (!alive) continue;
			closing_ok = 1;
			cb_ev(bev, (short) (BEV_EVENT_READING | (__sa_bool() ? BEV_EVENT_EOF : BEV_EVENT_ERROR)), cb_arg);
			__sa_check(!alive, "C24.close", "a connection stays open although the peer has closed it or failed");
		} else if (k == 5) {
			sig = 1;
			cb_usr1(SIGUSR1, EV_SIGNAL, usr1_arg);
			__sa_check(a_stdout || rotated, "C23.rotate", "SIGUSR1 does not rotate the output");
			__sa_check(!a_stdout || !rotated, "C23.rotate", "standard output is rotated");
			__sa_reach("C23.rotated");
		} else if (k == 6)
			cb_hup(SIGHUP, EV_SIGNAL, hup_arg);
		else
			break;
	}
	g_running = 0;
	return 0;
}
int event_base_loopexit(struct event_base *b, const struct timeval *tv) { return 0; }

static void at_exit(int status)
{
	if (status == 0) {
		__sa_check(!g_failed, "C23.exit", "the program exits successfully although something failed");
		__sa_check(f_open == 0, "C23.exit", "the program exits successfully without having closed its output");
		__sa_reach("C23.exit-ok");
	} else {
		__sa_check(g_failed, "C23.exit", "the program gives up although nothing failed");
		__sa_reach("C23.exit-failed");
	}
}
static void run(void)
{
	static char *av[2];
	__sa_assume(stdout != NULL && stdout != (FILE *) f_obj);
	a_type = __sa_cstring();
	a_name = __sa_cstring();
	a_debug = 0;
	at_exit(main(1, av));
}
/* what one connection may make the program do */
void check_stream(void) { m_small = 1; run(); }
void check_stream_any(void) { m_small = 1; a_buf = (int) __sa_range(0, INT32_MAX); run(); }
void check_skip(void) { m_good = 1; run(); }
void check_skip_any(void) { m_good = 1; a_buf = (int) __sa_range(1, INT32_MAX); run(); }
void check_both(void) { run(); }
void check_both_any(void) { a_buf = (int) __sa_range(0, INT32_MAX); run(); }
/* what becomes of the data, the clock and the signals */
void check_file(void)
{
	m_file = 1;
	run();
}
void check_file_split(void)
{
	m_file = 1; a_cal = 1; a_split = (int) __sa_range(1, INT32_MAX);
	run();
}
void check_file_time(void)
{
	m_file = 1; a_cal = 2;
	run();
}
void check_stdout(void)
{
	m_file = 1; a_stdout = 1;
	run();
}
