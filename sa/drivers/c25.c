/* C25: several connections of fstrm_capture at a time, sending anything, ending at any moment. */
#include "cap.h"

#define NS 3
static int ns;				/* connections the environment opens at a time */
static char bobj[NS][8], iobj[NS][1], oobj[NS][1];
static int live[NS];			/* the bufferevent exists */
static void *arg[NS];			/* its callbacks' argument */
static bufferevent_data_cb cb_rd[NS], cb_wr[NS]; static bufferevent_event_cb cb_ev[NS];
static int n_ctl;			/* control objects alive */
static int n_ctl_main;			/* ... before the event loop */
static int simple;			/* peers send nothing but malformed frames */
static int en;				/* the listener accepts */
static int fresh_slot, fresh_fd;	/* the connection being accepted: its slot (-1: none made), its socket's owner */
enum { FD_NONE, FD_MINE, FD_BEV, FD_CLOSED };

static int slot(const void *b, char *o, size_t stride)
{
	for (int i = 0; i < NS; i++) if ((const char *) b == o + i * stride) return i;
	return -1;
}
static int use(struct bufferevent *b)
{
	int i = slot(b, &bobj[0][0], 8);
	__sa_check(i >= 0 && live[i], "C25.use", "a connection is used after it was closed");
	return i;
}
static void use_in(const struct evbuffer *e)
{
	int i = slot(e, &iobj[0][0], 1);
	__sa_check(i >= 0 && live[i], "C25.use", "the input buffer of a closed connection is used");
}

/* ---- control objects */
struct fstrm_control { long x; };
struct fstrm_control *fstrm_control_init(void) { n_ctl++; return __sa_heap(sizeof(struct fstrm_control)); }
void fstrm_control_destroy(struct fstrm_control **c) { if (*c) { n_ctl--; free(*c); *c = NULL; } }
static void ctl(const struct fstrm_control *c) { __sa_check(__sa_alive(c), "C25.use", "a connection's control object is used after it was freed"); }
static fstrm_res any(const struct fstrm_control *c)
{
	ctl(c);
	if (!n_ctl_main) return fstrm_res_success;	/* the output file's START */
	return __sa_bool() ? fstrm_res_success : fstrm_res_failure;
}
void fstrm_control_reset(struct fstrm_control *c) { ctl(c); }
fstrm_res fstrm_control_set_type(struct fstrm_control *c, fstrm_control_type t) { return any(c); }
fstrm_res fstrm_control_get_type(const struct fstrm_control *c, fstrm_control_type *t) { *t = (fstrm_control_type) (1 + __sa_choice(5)); return any(c); }
fstrm_res fstrm_control_add_field_content_type(struct fstrm_control *c, const uint8_t *p, size_t n) { return any(c); }
fstrm_res fstrm_control_get_num_field_content_type(const struct fstrm_control *c, size_t *n) { *n = (size_t) __sa_choice(2); return any(c); }
static char ctbytes[4];
fstrm_res fstrm_control_get_field_content_type(const struct fstrm_control *c, const size_t i, const uint8_t **p, size_t *n)
{
	*p = (const uint8_t *) ctbytes; *n = 4;
	return any(c);
}
fstrm_res fstrm_control_match_field_content_type(const struct fstrm_control *c, const uint8_t *p, size_t n) { return any(c); }
fstrm_res fstrm_control_encode(const struct fstrm_control *c, void *buf, size_t *len, const uint32_t flags)
{
	__sa_valid(buf, *len);
	*len = 12;
	return any(c);
}
fstrm_res fstrm_control_decode(struct fstrm_control *c, const void *buf, size_t len, const uint32_t flags) { return any(c); }

/* ---- connections */
struct evbuffer *bufferevent_get_input(struct bufferevent *b) { return (struct evbuffer *) iobj[use(b)]; }
struct evbuffer *bufferevent_get_output(struct bufferevent *b) { return (struct evbuffer *) oobj[use(b)]; }
evutil_socket_t bufferevent_getfd(struct bufferevent *b) { use(b); return 5; }
struct event_base *bufferevent_get_base(struct bufferevent *b) { use(b); return (struct event_base *) __sa_nzptr(); }
size_t evbuffer_get_length(const struct evbuffer *e)
{
	use_in(e);
	if (simple) return __sa_bool() ? 8 : 0;
	return __sa_size();
}
ev_ssize_t evbuffer_copyout(struct evbuffer *e, void *d, size_t n) 
{
	use_in(e);
	if (simple) memset(d, 0, n);	/* an impossible control frame */
	else __sa_havoc(d, n);
	return (ev_ssize_t) n;
}
int evbuffer_peek(struct evbuffer *e, ev_ssize_t len, struct evbuffer_ptr *start, struct evbuffer_iovec *vec, int n)
{
	use_in(e);
	if (n > 0) { vec[0].iov_len = (size_t) len; vec[0].iov_base = __sa_obj((size_t) len); }
	return 1;
}
unsigned char *evbuffer_pullup(struct evbuffer *e, ev_ssize_t len)
{
	use_in(e);
	if (__sa_bool()) return NULL;
	return __sa_obj((size_t) len);
}
int evbuffer_drain(struct evbuffer *e, size_t n) { use_in(e); return 0; }
int bufferevent_write(struct bufferevent *b, const void *d, size_t n) { use(b); __sa_valid(d, n); return __sa_bool() ? 0 : -1; }
int bufferevent_flush(struct bufferevent *b, short io, enum bufferevent_flush_mode m) { use(b); return 0; }
void bufferevent_free(struct bufferevent *b)
{
	int i = slot(b, &bobj[0][0], 8);
	__sa_check(i >= 0 && live[i], "C25.once", "a connection is closed twice");
	live[i] = 0;
	__sa_reach("C25.freed");
}
void bufferevent_setcb(struct bufferevent *b, bufferevent_data_cb r, bufferevent_data_cb w, bufferevent_event_cb e, void *a)
{
	int i = use(b);
	cb_rd[i] = r; cb_wr[i] = w; cb_ev[i] = e; arg[i] = a;
}
void bufferevent_setwatermark(struct bufferevent *b, short ev, size_t low, size_t high) { use(b); }
int bufferevent_enable(struct bufferevent *b, short ev) { use(b); return 0; }
int bufferevent_disable(struct bufferevent *b, short ev) { use(b); return 0; }
struct bufferevent *bufferevent_socket_new(struct event_base *base, evutil_socket_t fd, int options)
{
	__sa_check(fresh_fd == FD_MINE, "C25.socket", "a socket is given to two connections, or used after it was closed");
	__sa_check(options & BEV_OPT_CLOSE_ON_FREE, "C25.socket", "closing the connection does not close its socket");
	if (__sa_bool()) { __sa_reach("C25.setup-failed"); return NULL; }
	fresh_fd = FD_BEV;
	for (int i = 0; i < ns; i++)
		if (!live[i]) { live[i] = 1; fresh_slot = i; return (struct bufferevent *) bobj[i]; }
	__sa_stop();
	return NULL;
}
static int close_fd(void)
{
	__sa_check(fresh_fd == FD_MINE, "C25.socket", "a socket is closed twice, or under a connection that owns it");
	fresh_fd = FD_CLOSED;
	return 0;
}
int evutil_closesocket(evutil_socket_t fd) { return close_fd(); }
int close(int fd) { return close_fd(); }

/* ---- the listener */
static evconnlistener_cb cb_acc; static void *acc_arg;
static char lis_obj[1], base_obj[1], ev_obj[1];
struct event_base *event_base_new(void) { return (struct event_base *) base_obj; }
void event_base_free(struct event_base *b) { }
void event_free(struct event *e) { }
struct evconnlistener *evconnlistener_new_bind(struct event_base *b, evconnlistener_cb cb, void *a, unsigned flags, int backlog, const struct sockaddr *sa, int len)
{
	en = !(flags & LEV_OPT_DISABLED);
	cb_acc = cb; acc_arg = a;
	return (struct evconnlistener *) lis_obj;
}
void evconnlistener_free(struct evconnlistener *l) { }
void evconnlistener_set_error_cb(struct evconnlistener *l, evconnlistener_errorcb cb) { }
struct event_base *evconnlistener_get_base(struct evconnlistener *l) { return (struct event_base *) base_obj; }
static void lis(struct evconnlistener *l) { __sa_check((char *) l == lis_obj, "C25.listen", "something else than the listener is switched"); }
int evconnlistener_enable(struct evconnlistener *l) { lis(l); en = 1; return 0; }
int evconnlistener_disable(struct evconnlistener *l) { lis(l); en = 0; return 0; }
struct event *event_new(struct event_base *b, evutil_socket_t fd, short ev, event_callback_fn cb, void *a) { return (struct event *) ev_obj; }
int event_add(struct event *e, const struct timeval *tv) { return 0; }
int sigemptyset(sigset_t *s) { return 0; }
int sigaction(int n, const struct sigaction *a, struct sigaction *o) { return 0; }
int event_base_loopexit(struct event_base *b, const struct timeval *tv) { return 0; }

static int count(void) { int n = 0; for (int i = 0; i < NS; i++) n += live[i]; return n; }
static void fresh(void)
{
	for (int i = 0; i < NS; i++)
		if (!live[i] && arg[i]) {
			__sa_check(!__sa_alive(arg[i]), "C25.state", "a connection's state is kept although the connection is closed");
			arg[i] = NULL; cb_rd[i] = NULL; cb_wr[i] = NULL; cb_ev[i] = NULL;
		} else if (live[i])
			__sa_check(__sa_alive(arg[i]), "C25.state", "a connection's state is freed although the connection is open");
	__sa_check(n_ctl == n_ctl_main - 1 + count(), "C25.state", "a connection's control object is not freed with it");
	fresh_slot = -1; fresh_fd = FD_NONE;
	if (a_max > 0) {
		__sa_check(count() <= a_max, "C25.max", "more connections are open than permitted");
		__sa_check(count() < a_max || !en, "C25.listen", "the listener goes on accepting although no further connection is permitted");
		if (!en) __sa_reach("C25.full");
	}
	__sa_check(en || (a_max > 0 && count() == a_max), "C25.listen", "the listener stays disabled although another connection is permitted");
}
static void accept_one(void)
{
	fresh_fd = FD_MINE;
	cb_acc((struct evconnlistener *) lis_obj, 5, NULL, 0, acc_arg);
	if (fresh_slot < 0)
		__sa_check(fresh_fd == FD_CLOSED, "C25.socket", "the socket of a connection that could not be set up stays open");
	else if (live[fresh_slot])
		__sa_check(arg[fresh_slot] != NULL && cb_rd[fresh_slot] && cb_ev[fresh_slot], "C25.close", "the end of a connection is not noticed");
}
static void read_one(int i) { cb_rd[i]((struct bufferevent *) bobj[i], arg[i]); }
static void write_one(int i) { if (cb_wr[i]) cb_wr[i]((struct bufferevent *) bobj[i], arg[i]); }
static void end_one(int i)
{
	cb_ev[i]((struct bufferevent *) bobj[i], (short) (BEV_EVENT_READING | (__sa_bool() ? BEV_EVENT_EOF : BEV_EVENT_ERROR)), arg[i]);
	__sa_check(!live[i], "C25.close", "a connection stays open although the peer has closed it or failed");
}
int event_base_dispatch(struct event_base *b)
{
	n_ctl_main = n_ctl + 1;
	for (;; ) {
		fresh();
		int k = __sa_choice(5);
		if (k == 4) break;
		if (k == 0) {
			if (en && count() < ns) accept_one();
			continue;
		}
		int i = __sa_choice(NS);
		if (!live[i]) continue;
		if (k == 1) read_one(i);
		else if (k == 2) write_one(i);
		else end_one(i);
	}
	return 0;
}

/* ---- the output works */
static int is_name(const char *s) { return s == a_name; }
static char f_obj[216];
int sa_open(const char *p, int flags, mode_t mode) __asm__("open");
int sa_open(const char *p, int flags, mode_t mode) { return 7; }
FILE *fdopen(int fd, const char *mode) { return (FILE *) f_obj; }
size_t fwrite(const void *p, size_t size, size_t n, FILE *f) { __sa_valid(p, size * n); return n; }
size_t fwrite_unlocked(const void *p, size_t size, size_t n, FILE *f) { return fwrite(p, size, n, f); }
int fflush(FILE *f) { return 0; }
int fclose(FILE *f) { return 0; }
static void at_exit(int status)
{
	__sa_reach("C25.exited");
}
static void run(int max, int n)
{
	static char *av[2];
	__sa_assume(stdout != NULL && stdout != (FILE *) f_obj);
	a_type = __sa_cstring(); a_name = __sa_cstring();
	a_max = max; ns = n; fresh_slot = -1;
	at_exit(main(1, av));
}
/* one at a time, sending anything */
void check_one(void) { run(0, 1); }
void check_one_max_1(void) { run(1, 1); }
void check_one_max_2(void) { run(2, 1); }
/* several, ending in any way at any time */
void check_max_1(void) { simple = 1; run(1, 2); }
void check_max_2(void) { simple = 1; run(2, 3); }
void check_max_3(void) { simple = 1; run(3, 3); }
void check_any_3(void) { simple = 1; run(0, 3); }
/* both */
void check_two_any(void) { run(0, 2); }
void check_two_max_1(void) { run(1, 2); }
void check_two_max_2(void) { run(2, 2); }
