/* C21: the transports the library brings along: file, TCP and Unix-domain sockets. */
#include "sa.h"
#include "env.h"
#include <fcntl.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <sys/uio.h>
#include <arpa/inet.h>
#include <stdio.h>
#include "fstrm-private.h"

/* the reader or writer: owns the transport it is given */
static struct fstrm_rdwr *owned; static int taken;
static void *take(struct fstrm_rdwr **rdwr)
{
	__sa_check(!taken, "C21.transport", "a transport is created twice");
	owned = *rdwr; *rdwr = NULL; taken = 1;
	return __sa_nzptr();
}
struct fstrm_writer *fstrm_writer_init(const struct fstrm_writer_options *o, struct fstrm_rdwr **rdwr) { return take(rdwr); }
struct fstrm_reader *fstrm_reader_init(const struct fstrm_reader_options *o, struct fstrm_rdwr **rdwr) { return take(rdwr); }

/* ---- stdio */
static FILE *g_fp; static int g_live, g_std;
static FILE *newfp(void)
{
	if (__sa_bool()) return NULL;
	__sa_check(!g_live, "C21.file", "a file is opened while the one before is still open");
	g_live = 1;
	return g_fp = (FILE *) __sa_heap(216);
}
/* a string handed over must not be freed yet */
static void string(const char *s) { (void) *(const volatile char *) s; }
FILE *fopen(const char *p, const char *m) { string(p); string(m); return newfp(); }
int strcmp(const char *a, const char *b) { string(a); string(b); return (int) __sa_range(-1, 1); }
static void mine(FILE *f) { __sa_check(g_live && f == g_fp, "C21.file", "a file is used that the transport did not open"); }
int fclose(FILE *f)
{
	if (g_live) {
		mine(f); g_live = 0; free(f);
	} else __sa_check(f == stdin || f == stdout, "C21.file", "a file is closed that is not open");
	return (int) __sa_range(-1, 0);
}
size_t fread(void *p, size_t s, size_t n, FILE *f) { if (g_live) mine(f); return (size_t) __sa_range(0, 1); }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { if (g_live) mine(f); return (size_t) __sa_range(0, 1); }
int ferror(FILE *f) { return __sa_bool(); }
int feof(FILE *f) { return __sa_bool(); }

/* ---- sockets */
static int s_live;
int socket(int d, int t, int p) { if (__sa_bool()) { errno = (int) __sa_range(1, 133); return -1; } s_live = 1; return 3; }
int sa_fcntl(int fd, int cmd, long arg) __asm__("fcntl");
int sa_fcntl(int fd, int cmd, long arg) { return (int) __sa_range(-1, 1); }
int connect(int fd, const struct sockaddr *a, socklen_t l) { __sa_valid(a, l); return (int) __sa_range(-1, 0); }
int close(int fd) { __sa_check(s_live, "C21.socket", "the socket is closed twice"); s_live = 0; return (int) __sa_range(-1, 0); }
int inet_pton(int af, const char *src, void *dst) { string(src); __sa_valid(dst, af == AF_INET ? 4 : 16); return __sa_bool(); }
static char junk[2];
unsigned long strtoul(const char *s, char **end, int base)
{
	string(s);
	if (__sa_bool()) junk[0] = 'x';
	*end = junk;
	return (unsigned long) __sa_range(0, 70000);
}
/* only lifetimes matter here; what is copied into a socket address is C20's business */
char *strncpy(char *d, const char *s, size_t n) { string(s); *d = *s; return d; }
char *strcpy(char *d, const char *s) { string(s); *d = *s; return d; }

static char *str(void) { char *s = strdup(__sa_cstring()); if (!s) __sa_stop(); return s; }
static void ckgone(const void *h) { __sa_check(h == NULL, "C21.handle", "destroying leaves the handle set"); }
static void end(void *made)
{
	__sa_check((made != NULL) == taken, "C21.transport", "a transport is created but nothing is returned, or the reverse");
	if (made) {
		if (__sa_bool()) {
			fstrm_res r = fstrm_rdwr_open(owned);
			if (r == fstrm_res_success && __sa_bool()) (void) fstrm_rdwr_close(owned);
		}
		(void) fstrm_rdwr_destroy(&owned);
		ckgone(owned);
	}
	__sa_check(!g_live && !s_live, "C21.transport", "the file or socket stays open although the transport is destroyed");
	__sa_no_leak("C21.leak");
	__sa_reach("C21.end");
}
static void set_file(struct fstrm_file_options *o)
{
	if (__sa_bool()) { fstrm_file_options_set_file_path(o, NULL); return; }
	char *s = str();
	fstrm_file_options_set_file_path(o, s);
	free(s);
}
static void set_addr(struct fstrm_tcp_writer_options *o)
{
	if (__sa_bool()) { fstrm_tcp_writer_options_set_socket_address(o, NULL); return; }
	char *s = str();
	fstrm_tcp_writer_options_set_socket_address(o, s);
	free(s);
}
static void set_port(struct fstrm_tcp_writer_options *o)
{
	if (__sa_bool()) { fstrm_tcp_writer_options_set_socket_port(o, NULL); return; }
	char *s = str();
	fstrm_tcp_writer_options_set_socket_port(o, s);
	free(s);
}
static void set_unix(struct fstrm_unix_writer_options *o)
{
	if (__sa_bool()) { fstrm_unix_writer_options_set_socket_path(o, NULL); return; }
	char *s = str();
	fstrm_unix_writer_options_set_socket_path(o, s);
	free(s);
}
void check_file(void)
{
	struct fstrm_file_options *o = fstrm_file_options_init();
	int n = __sa_choice(3);
	if (n >= 1) set_file(o);
	if (n >= 2) set_file(o);
	void *made;
	if (__sa_bool()) made = fstrm_file_reader_init(o, NULL);
	else made = fstrm_file_writer_init(o, NULL);
	fstrm_file_options_destroy(&o);
	ckgone(o);
	fstrm_file_options_destroy(&o);
	end(made);
}
void check_tcp(void)
{
	struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
	int a = __sa_choice(3), b = __sa_choice(3);
	if (a >= 1) set_addr(o);
	if (b >= 1) set_port(o);
	if (a >= 2) set_addr(o);
	if (b >= 2) set_port(o);
	void *made = fstrm_tcp_writer_init(o, NULL);
	fstrm_tcp_writer_options_destroy(&o);
	ckgone(o);
	fstrm_tcp_writer_options_destroy(&o);
	end(made);
}
void check_unix(void)
{
	struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
	int n = __sa_choice(3);
	if (n >= 1) set_unix(o);
	if (n >= 2) set_unix(o);
	void *made = fstrm_unix_writer_init(o, NULL);
	fstrm_unix_writer_options_destroy(&o);
	ckgone(o);
	fstrm_unix_writer_options_destroy(&o);
	end(made);
}
