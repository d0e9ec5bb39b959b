/* C28, C30: fstrm_capture from its command line to the event loop: which command lines it takes, what
 * it listens on, what it does to the file system before that, and what signals do to it. */
#include "sa.h"
#include "env.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <time.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <fcntl.h>
#include <arpa/inet.h>
#include <event2/buffer.h>
#include <event2/bufferevent.h>
#include <event2/event.h>
#include <event2/listener.h>
#include <event2/util.h>
#include "libmy/argv.h"
#include "fstrm.h"

int main(int, char **);

/* ---- the command line */
static char *a_type, *a_unix, *a_tcp, *a_port, *a_name;
static int a_bad, a_help, a_split, a_local, a_gm, a_tty;
static char s_type[] = "T", s_addr[] = "A", s_port[] = "P", s_trail[] = "Px", s_file[] = "f", s_out[] = "-";
static char s_path[300];
static int path_len, family, port_garbage; static size_t port; static int port_big;
static int wrong;			/* the command line is not a valid one */
static int failed;			/* something failed that has to end the program */
static int touched;			/* something outside the program was changed */
static int ran;				/* the event loop was entered */
static int m_fail;			/* calls may fail */
static int in_handler;			/* a signal handler runs: nothing but async-signal-safe functions may be called */
static void safe(void) { __sa_check(!in_handler, "C30.handler", "a function is called from a signal handler that may not be called there"); }
static void touch(void)
{
	safe();
	__sa_check(!wrong, "C28.usage", "something outside the program is changed although the command line is not valid");
	touched = 1;
}

static int same(const char *p, const char *q)
{
	int i = 0;
	while (p[i] == q[i] && p[i] != 0) i++;
	return p[i] == q[i];
}
static void set_p(const argv_t *a, char *v)
{
	__sa_check((a->ar_type & 0x3f) == ARGV_CHAR_P, "C28.args", "an option does not take a string any more");
	if (v) *(char **) a->ar_variable = v;
}
static void set_i(const argv_t *a, int v)
{
	__sa_check((a->ar_type & 0x3f) == ARGV_INT || (a->ar_type & 0x3f) == ARGV_INCR, "C28.args", "an option does not take a number any more");
	*(int *) a->ar_variable = v;
}
static void set_b(const argv_t *a, int v)
{
	__sa_check((a->ar_type & 0x3f) == ARGV_BOOL, "C28.args", "an option is not a switch any more");
	*(char *) a->ar_variable = (char) v;
}
char argv_program[33];
int argv_process(argv_t *args, const int argc, char **argv)
{
	int n = 0;
	for (argv_t *a = args; a->ar_short_arg != ARGV_LAST; a++) {
		if (a->ar_short_arg == ARGV_ONE_OF || a->ar_long_arg == NULL) continue;
		n++;
		if (same(a->ar_long_arg, "type")) set_p(a, a_type);
		else if (same(a->ar_long_arg, "unix")) set_p(a, a_unix);
		else if (same(a->ar_long_arg, "tcp")) set_p(a, a_tcp);
		else if (same(a->ar_long_arg, "port")) set_p(a, a_port);
		else if (same(a->ar_long_arg, "write")) set_p(a, a_name);
		else if (same(a->ar_long_arg, "split")) set_i(a, a_split);
		else if (same(a->ar_long_arg, "localtime")) set_b(a, a_local);
		else if (same(a->ar_long_arg, "gmtime")) set_b(a, a_gm);
		else if (same(a->ar_long_arg, "help")) set_b(a, a_help);
		else if (same(a->ar_long_arg, "buffersize")) set_i(a, __sa_int());
		else if (same(a->ar_long_arg, "maxconns")) set_i(a, __sa_int());
		else if (same(a->ar_long_arg, "debug")) set_i(a, (int) __sa_range(0, 100));
		else n--;
	}
	__sa_check(n == 12, "C28.args", "a documented option is gone");
	return a_bad ? -1 : 0;
}
int argv_usage(const argv_t *args, const int which) { safe(); return 0; }
void argv_cleanup(const argv_t *args) { }
int isatty(int fd) { return fd == 1 ? a_tty : 0; }
int sa_fprintf(FILE *f) __asm__("fprintf");
int sa_fprintf(FILE *f) { safe(); return 0; }
int fputs(const char *s, FILE *f) { safe(); return 0; }
int fputc(int c, FILE *f) { safe(); return 0; }
int vfprintf(FILE *f, const char *fmt, va_list ap) { safe(); return 0; }
void print_string(const void *data, size_t len, FILE *out) { safe(); }
char *strerror(int e) { safe(); return s_type; }
int strcmp(const char *a, const char *b) { return same(a, b) ? 0 : 1; }
size_t strlen(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
char *strncpy(char *d, const char *s, size_t n)
{
	size_t i = 0;
	__sa_valid(d, n);
	for (; i < n && s[i] != 0; i++) d[i] = s[i];
	for (; i < n; i++) d[i] = 0;
	return d;
}
char *strcpy(char *d, const char *s)
{
	size_t i = 0;
	for (; s[i] != 0; i++) d[i] = s[i];
	d[i] = 0;
	return d;
}
unsigned long strtoul(const char *s, char **end, int base)
{
	__sa_check(s == a_port, "C28.listen", "another port is taken than the given one");
	*end = port_garbage ? a_port : a_port + 1;
	return port;
}
long strtol(const char *s, char **end, int base) { return (long) strtoul(s, end, base); }
int inet_pton(int af, const char *src, void *dst)
{
	__sa_check(src == a_tcp, "C28.listen", "another address is taken than the given one");
	__sa_valid(dst, af == AF_INET ? 4 : 16);
	if (af == AF_INET ? family != 4 : family != 6) return 0;
	for (int i = 0; i < family && i < 4; i++) ((uint8_t *) dst)[i] = (uint8_t) (17 + i);
	if (family == 6) for (int i = 0; i < 16; i++) ((uint8_t *) dst)[i] = (uint8_t) (17 + i);
	return 1;
}

/* ---- how the program ends */
static void at_exit(int status)
{
	safe();
	if (status == 0) {
		__sa_check(!wrong, "C28.usage", "the program exits successfully although the command line is not valid");
		__sa_check(ran && !failed, "C28.exit", "the program exits successfully although it has not listened");
		__sa_reach("C28.exit-ok");
	} else {
		__sa_check(wrong || failed, "C28.exit", "the program gives up although nothing is wrong");
		if (wrong) __sa_reach("C28.refused");
		else __sa_reach("C28.exit-failed");
	}
}
void exit(int status) { at_exit(status); __sa_stop(); for (;;) ; }

/* ---- the file system */
static int is_path(const char *p) { return same(p, s_path); }
static int removed;
static int rm(const char *p)
{
	touch();
	__sa_check(a_unix != NULL && is_path(p), "C28.remove", "something else is removed than the socket path");
	__sa_check(!removed, "C28.remove", "the socket path is removed twice");
	removed = 1;
	if (!__sa_bool()) return 0;
	if (m_fail && __sa_bool()) { errno = EACCES; failed = 1; return -1; }
	errno = ENOENT;
	return -1;
}
int remove(const char *p) { return rm(p); }
int unlink(const char *p) { return rm(p); }
static char f_obj[216];
static int flushed, opened, closed;
int sa_open(const char *p, int flags, mode_t mode) __asm__("open");
int sa_open(const char *p, int flags, mode_t mode) { touch(); __sa_check(a_name != s_out, "C28.output", "a file is opened although the output is standard output"); opened = 1; return 7; }
FILE *fdopen(int fd, const char *mode) { return (FILE *) f_obj; }
size_t fwrite(const void *p, size_t size, size_t n, FILE *f) { touch(); __sa_valid(p, size * n); return n; }
size_t fwrite_unlocked(const void *p, size_t size, size_t n, FILE *f) { return fwrite(p, size, n, f); }
int fflush(FILE *f) { safe(); flushed = 1; return 0; }
int fflush_unlocked(FILE *f) { return fflush(f); }
int fclose(FILE *f) { safe(); closed = 1; return 0; }
int close(int fd) { return 0; }
int rename(const char *o, const char *n) { touch(); return 0; }
time_t time(time_t *t) { if (t) *t = 1; return 1; }
static struct tm tm_obj;
struct tm *localtime_r(const time_t *t, struct tm *tm) { __sa_check(a_local, "C28.time", "local time is used without --localtime"); *tm = tm_obj; return tm; }
struct tm *gmtime_r(const time_t *t, struct tm *tm) { __sa_check(a_gm, "C28.time", "UTC is used without --gmtime"); *tm = tm_obj; return tm; }
size_t strftime(char *s, size_t max, const char *fmt, const struct tm *tm)
{
	__sa_check(same(fmt, s_file), "C28.output", "another name is formatted than the given one");
	s[0] = 'f'; s[1] = 0;
	return 1;
}

/* ---- control frames */
struct fstrm_control { long x; };
struct fstrm_control *fstrm_control_init(void) { return __sa_heap(sizeof(struct fstrm_control)); }
void fstrm_control_destroy(struct fstrm_control **c) { if (*c) { free(*c); *c = NULL; } }
void fstrm_control_reset(struct fstrm_control *c) { }
fstrm_res fstrm_control_set_type(struct fstrm_control *c, fstrm_control_type t) { return fstrm_res_success; }
fstrm_res fstrm_control_add_field_content_type(struct fstrm_control *c, const uint8_t *p, size_t n)
{
	__sa_check((const char *) p == a_type && n == strlen(s_type), "C28.type", "the output gets another content type than the given one");
	return fstrm_res_success;
}
fstrm_res fstrm_control_encode(const struct fstrm_control *c, void *buf, size_t *len, const uint32_t flags) { __sa_valid(buf, *len); *len = 12; return fstrm_res_success; }

/* ---- libevent */
static char base_obj[1], lis_obj[1];
static int ended;			/* the loop was told to end */
struct event_base *event_base_new(void) { safe(); if (m_fail && __sa_bool()) { failed = 1; return NULL; } return (struct event_base *) base_obj; }
void event_base_free(struct event_base *b) { safe(); }
static int stop(struct event_base *b)
{
	safe();
	if (ran) {
		__sa_check((char *) b == base_obj, "C30.end", "something else than the event loop is ended");
		ended = 1;
	}
	return 0;
}
int event_base_loopexit(struct event_base *b, const struct timeval *tv) { __sa_check(tv == NULL, "C30.end", "the event loop is not ended at once"); return stop(b); }
int event_base_loopbreak(struct event_base *b) { return stop(b); }
struct event_base *evconnlistener_get_base(struct evconnlistener *l) { return (struct event_base *) base_obj; }
static int listening;
static evconnlistener_cb cb_acc;
struct evconnlistener *evconnlistener_new_bind(struct event_base *b, evconnlistener_cb cb, void *arg, unsigned flags, int backlog, const struct sockaddr *sa, int len)
{
	touch();
	__sa_check((char *) b == base_obj && !listening, "C28.listen", "the program does not listen once, on its event loop");
	__sa_valid(sa, (size_t) len);
	if (a_unix) {
		const struct sockaddr_un *u = (const struct sockaddr_un *) sa;
		__sa_check(u->sun_family == AF_UNIX && is_path(u->sun_path), "C28.listen", "the program listens on something else than the given path");
		__sa_check(len >= (int) offsetof(struct sockaddr_un, sun_path) + path_len && len <= (int) sizeof(*u), "C28.listen", "the path listened on is cut");
		__sa_check(removed, "C28.remove", "a previous socket is not removed");
	} else if (family == 4) {
		const struct sockaddr_in *i = (const struct sockaddr_in *) sa;
		const uint8_t *x = (const uint8_t *) &i->sin_addr;
		__sa_check(i->sin_family == AF_INET && len == (int) sizeof(*i) && i->sin_port == htons((uint16_t) port), "C28.listen", "the program listens on something else than the given address and port");
		for (int k = 0; k < 4; k++) __sa_check(x[k] == 17 + k, "C28.listen", "the program listens on another address than the given one");
		__sa_reach("C28.tcp4");
	} else {
		const struct sockaddr_in6 *i = (const struct sockaddr_in6 *) sa;
		const uint8_t *x = (const uint8_t *) &i->sin6_addr;
		__sa_check(i->sin6_family == AF_INET6 && len == (int) sizeof(*i) && i->sin6_port == htons((uint16_t) port), "C28.listen", "the program listens on something else than the given address and port");
		for (int k = 0; k < 16; k++) __sa_check(x[k] == 17 + k, "C28.listen", "the program listens on another address than the given one");
		__sa_check(i->sin6_flowinfo == 0 && i->sin6_scope_id == 0, "C28.listen", "the address listened on has a scope or flow nobody gave");
		__sa_reach("C28.tcp6");
	}
	if (m_fail && __sa_bool()) { failed = 1; return NULL; }
	listening = !(flags & LEV_OPT_DISABLED);
	cb_acc = cb;
	return (struct evconnlistener *) lis_obj;
}
void evconnlistener_free(struct evconnlistener *l) { safe(); }
void evconnlistener_set_error_cb(struct evconnlistener *l, evconnlistener_errorcb cb) { }
int evconnlistener_enable(struct evconnlistener *l) { safe(); listening = 1; return 0; }
int evconnlistener_disable(struct evconnlistener *l) { safe(); listening = 0; return 0; }

/* ---- signals */
#define NE 8
static char ev_obj[NE][4];
static int n_ev, ev_sig[NE], ev_persist[NE], ev_on[NE];
static event_callback_fn ev_cb[NE]; static void *ev_arg[NE];
struct event *event_new(struct event_base *b, evutil_socket_t fd, short ev, event_callback_fn cb, void *arg)
{
	safe();
	int i = n_ev;
	__sa_check(n_ev < NE && (char *) b == base_obj, "C30.event", "an event is made for something else than the event loop");
	if (n_ev >= NE) __sa_stop();
	n_ev++;
	ev_sig[i] = ev & EV_SIGNAL ? fd : 0; ev_persist[i] = (ev & EV_PERSIST) != 0; ev_on[i] = 0;
	ev_cb[i] = cb; ev_arg[i] = arg;
	return (struct event *) ev_obj[i];
}
static int ev_index(const struct event *e)
{
	for (int i = 0; i < n_ev; i++) if ((const char *) e == ev_obj[i]) return i;
	__sa_fail("C30.event", "an event is used that is not there");
	__sa_stop();
	return 0;
}
int event_add(struct event *e, const struct timeval *tv) { safe(); __sa_check(tv == NULL, "C30.event", "a signal is waited for with a timeout"); ev_on[ev_index(e)] = 1; return 0; }
int event_del(struct event *e) { safe(); ev_on[ev_index(e)] = 0; return 0; }
void event_free(struct event *e) { safe(); ev_on[ev_index(e)] = 0; }
int sigemptyset(sigset_t *s) { return 0; }
int sigfillset(sigset_t *s) { return 0; }
static void (*h_term)(int), (*h_int)(int), (*h_pipe)(int), (*h_hup)(int), (*h_usr1)(int);
static void take(int n, void (*h)(int))
{
	if (n == SIGTERM) h_term = h;
	else if (n == SIGINT) h_int = h;
	else if (n == SIGPIPE) h_pipe = h;
	else if (n == SIGHUP) h_hup = h;
	else if (n == SIGUSR1) h_usr1 = h;
}
int sigaction(int n, const struct sigaction *a, struct sigaction *o)
{
	safe();
	if (m_fail && __sa_bool()) { failed = 1; return -1; }
	if (a) take(n, a->sa_handler);
	return 0;
}
void (*signal(int n, void (*h)(int)))(int) { safe(); take(n, h); return SIG_DFL; }
/* the signal comes; 1: it was noticed */
static int deliver(int n, void (*h)(int))
{
	for (int i = 0; i < n_ev; i++)
		if (ev_sig[i] == n && ev_on[i]) { ev_cb[i](n, EV_SIGNAL, ev_arg[i]); return ev_persist[i] ? 2 : 1; }
	if (h == SIG_DFL || h == SIG_IGN) return 0;
	in_handler = 1;
	h(n);
	in_handler = 0;
	return 2;
}
int event_base_dispatch(struct event_base *b)
{
	safe();
	__sa_check((char *) b == base_obj, "C28.listen", "another event loop is run");
	__sa_check(!wrong, "C28.usage", "the program runs although the command line is not valid");
	__sa_check(listening == 1 && cb_acc != NULL, "C28.listen", "the program runs without listening");
	__sa_check(!failed, "C28.exit", "the program runs although something failed");
	if (m_fail && __sa_bool()) { failed = 1; return -1; }
	__sa_check(h_pipe == SIG_IGN, "C30.pipe", "a peer that has gone away can end the program with SIGPIPE");
	ran = 1;
	int k = __sa_choice(4);
	if (k == 0) {
		ended = 0;
		__sa_check(deliver(SIGTERM, h_term), "C30.end", "SIGTERM is not waited for");
		__sa_check(ended, "C30.end", "SIGTERM does not end the program");
		__sa_reach("C30.term");
	} else if (k == 1) {
		ended = 0;
		__sa_check(deliver(SIGINT, h_int), "C30.end", "SIGINT is not waited for");
		__sa_check(ended, "C30.end", "SIGINT does not end the program");
		__sa_reach("C30.int");
	} else if (k == 2) {
		flushed = 0; ended = 0;
		__sa_check(deliver(SIGHUP, h_hup) == 2, "C30.hup", "SIGHUP is not waited for, or only once");
		__sa_check(flushed && !ended, "C30.hup", "SIGHUP does not flush the output, or ends the program");
		__sa_reach("C30.hup");
	} else if (a_name != s_out) {
		ended = 0; opened = 0; closed = 0;
		__sa_check(deliver(SIGUSR1, h_usr1) == 2 && !ended, "C30.usr1", "SIGUSR1 is not waited for, or only once, or ends the program");
		__sa_check(closed && opened, "C30.usr1", "SIGUSR1 does not rotate the output");
		__sa_reach("C30.usr1");
	}
	return 0;
}

/* ---- not before the first connection */
#define NOT __sa_fail("C28.listen", "a connection is used before there is one"); __sa_stop()
struct bufferevent *bufferevent_socket_new(struct event_base *base, evutil_socket_t fd, int o) { NOT; return NULL; }
void bufferevent_free(struct bufferevent *b) { NOT; }
evutil_socket_t bufferevent_getfd(struct bufferevent *b) { NOT; return 0; }
struct event_base *bufferevent_get_base(struct bufferevent *b) { NOT; return NULL; }
struct evbuffer *bufferevent_get_input(struct bufferevent *b) { NOT; return NULL; }

static void run(void)
{
	static char *av[2];
	__sa_assume(stdout != NULL && stdout != (FILE *) f_obj);
	at_exit(main(1, av));
}
static void path(int n)
{
	path_len = n;
	for (int i = 0; i < n; i++) s_path[i] = 'x';
	s_path[n] = 0;
}
/* where from: which of --type, --unix, --tcp, --port and --write are given */
static void from(int t, int u, int a, int p, int w)
{
	path(5); family = 4; port = (size_t) __sa_range(0, 65535);
	if (t) a_type = s_type;
	if (u) a_unix = s_path;
	if (a) a_tcp = s_addr;
	if (p) a_port = s_port;
	if (w) a_name = s_file;
	wrong = !t || !w || (!u && !a) || (a && !p);
	run();
}
#define F(n) void check_from_##n(void) { from(n & 1, n >> 1 & 1, n >> 2 & 1, n >> 3 & 1, n >> 4 & 1); }
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15)
F(16) F(17) F(18) F(19) F(20) F(21) F(22) F(23) F(24) F(25) F(26) F(27) F(28) F(29) F(30) F(31)
static void base(void)
{
	path(5); family = 4; port = (size_t) __sa_range(0, 65535);
	a_type = s_type; a_unix = s_path; a_name = s_file;
}
/* where to: standard output, a terminal, --split, --localtime, --gmtime */
static void to(int o, int tty, int split, int l, int g)
{
	base();
	if (o) a_name = s_out;
	a_tty = tty; a_local = l; a_gm = g;
	if (split) a_split = (int) __sa_range(1, INT32_MAX);
	wrong = (o && (tty || split)) || (l && g) || (split && !l && !g);
	run();
}
#define T(n) void check_to_##n(void) { to(n & 1, n >> 1 & 1, n >> 2 & 1, n >> 3 & 1, n >> 4 & 1); }
T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7) T(8) T(9) T(10) T(11) T(12) T(13) T(14) T(15)
T(16) T(17) T(18) T(19) T(20) T(21) T(22) T(23) T(24) T(25) T(26) T(27) T(28) T(29) T(30) T(31)
void check_help(void) { base(); a_help = 1; wrong = 1; run(); }
void check_bad_option(void) { base(); a_bad = 1; wrong = 1; run(); }
/* paths around the longest one a socket can have */
void check_path_0(void) { base(); path(0); run(); }
void check_path_106(void) { base(); path(106); run(); }
void check_path_107(void) { base(); path(107); run(); }
void check_path_108(void) { base(); path(108); wrong = 1; run(); }
void check_path_109(void) { base(); path(109); wrong = 1; run(); }
void check_path_255(void) { base(); path(255); wrong = 1; run(); }
/* addresses and ports */
static void tcp(int f) { base(); a_unix = NULL; a_tcp = s_addr; a_port = s_port; family = f; }
void check_tcp_4(void) { tcp(4); run(); }
void check_tcp_6(void) { tcp(6); run(); }
void check_tcp_none(void) { tcp(0); wrong = 1; run(); }
void check_port_garbage(void) { tcp(4); port_garbage = 1; wrong = 1; run(); }
void check_port_trailing(void) { tcp(6); a_port = s_trail; wrong = 1; run(); }
void check_port_big(void) { tcp(6); port = (size_t) __sa_range(65536, INT64_MAX); wrong = 1; run(); }
/* calls that fail */
void check_fail_unix(void) { base(); m_fail = 1; run(); }
void check_fail_tcp(void) { tcp(6); m_fail = 1; run(); }
