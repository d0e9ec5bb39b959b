/* C04: reads deliver exactly the requested bytes or do not succeed.
 * The kernel (or stdio) delivers any part of what is asked for, interrupts, fails or ends at any call. */
#include "sa.h"
#include "env.h"
#include <stdio.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include "fstrm-private.h"

static struct fstrm_rdwr *the_rdwr;
struct fstrm_writer *fstrm_writer_init(const struct fstrm_writer_options *wopt, struct fstrm_rdwr **rdwr)
{
	the_rdwr = *rdwr; *rdwr = NULL;
	return __sa_nzptr();
}
struct fstrm_reader *fstrm_reader_init(const struct fstrm_reader_options *ropt, struct fstrm_rdwr **rdwr)
{
	the_rdwr = *rdwr; *rdwr = NULL;
	return __sa_nzptr();
}
int socket(int d, int t, int p) { return __sa_range(0, 1 << 20); }
int sa_fcntl(int fd, int cmd, long arg) __asm__("fcntl");
int sa_fcntl(int fd, int cmd, long arg) { return __sa_range(-1, 1 << 20); }
int connect(int fd, const struct sockaddr *a, socklen_t l) { return 0; }
int close(int fd) { return __sa_range(-1, 0); }
int inet_pton(int af, const char *src, void *dst) { return 1; }
unsigned long strtoul(const char *s, char **end, int base) { *end = ""; return 1; }

static char *buf;		/* the caller's buffer, exactly as large as the request */
static size_t want;		/* bytes requested */
static size_t done;		/* bytes delivered so far */
static int g_active, g_err, g_eof;

/* n bytes are asked for at p: deliver some */
static ssize_t deliver(void *p, size_t n)
{
	__sa_check(g_active, "C04.read-outside", "input is consumed outside of a read");
	__sa_check(!g_err && !g_eof, "C04.after-error", "more input is consumed after an error or the end of input");
	__sa_check((char *)p == buf + done, "C04.position", "input is not stored right after what has been received so far");
	__sa_check(n <= want - done, "C04.amount", "more input is asked for than is still missing");
	int k = __sa_choice(4);
	if (k == 0) { errno = EINTR; return -1; }
	if (k == 1) { int e = __sa_range(1, 200); __sa_assume(e != EINTR); errno = e; g_err = 1; return -1; }
	if (k == 2 && n > 0) { g_eof = 1; return 0; }
	size_t m = __sa_size();
	__sa_assume(m <= n && m >= 1);
	__sa_havoc(p, m);
	done += m;
	errno = __sa_range(0, 200);	/* errno means nothing after a success */
	return (ssize_t)m;
}
ssize_t read(int fd, void *p, size_t n) { return deliver(p, n); }
ssize_t recv(int fd, void *p, size_t n, int flags)
{
	return deliver(p, n);
}

static void transport(void)
{
	fstrm_res r = fstrm_rdwr_open(the_rdwr);
	if (r != fstrm_res_success) return;
	want = __sa_size();
	__sa_assume(want >= 1 && want < ((size_t)1 << 62));
	buf = __sa_obj(want);
	done = 0; g_err = 0; g_eof = 0;
	g_active = 1;
	r = fstrm_rdwr_read(the_rdwr, buf, want);
	g_active = 0;
	if (r == fstrm_res_success) {
		__sa_check(done == want && !g_err && !g_eof, "C04.complete", "success is reported although not every requested byte was received");
		__sa_reach("C04.success");
	} else {
		__sa_check(g_err || g_eof, "C04.failure-cause", "the read fails although neither an error nor the end of input occurred");
		__sa_reach("C04.failure");
	}
}
void check_tcp(void)
{
	struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
	fstrm_tcp_writer_options_set_socket_address(o, "127.0.0.1");
	fstrm_tcp_writer_options_set_socket_port(o, "1");
	if (!fstrm_tcp_writer_init(o, NULL)) return;
	transport();
}
void check_unix(void)
{
	struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
	fstrm_unix_writer_options_set_socket_path(o, "/s");
	if (!fstrm_unix_writer_init(o, NULL)) return;
	transport();
}

/* ---- the file transport: stdio retries short reads itself; the stream has an error and an end flag */
static FILE *the_fp;
static int f_err, f_eof, f_open;
int strcmp(const char *a, const char *b) { return __sa_bool() ? 0 : __sa_range(1, 255); }
FILE *fopen(const char *path, const char *mode)
{
	if (__sa_bool()) return NULL;
	the_fp = __sa_nzptr(); f_open = 1;
	f_err = f_eof = 0;
	return the_fp;
}
int fclose(FILE *fp)
{
	__sa_check(f_open && fp == the_fp, "C04.file-closed", "fclose of a stream that is not open");
	f_open = 0;
	return __sa_range(-1, 0);
}
static size_t in_fread(void *p, size_t size, size_t nmemb)
{
	size_t n = size == 1 ? nmemb : size;
	__sa_check(size == 1 || nmemb == 1, "C04.file-unit", "the request is not one unit or single bytes");
	__sa_check((char *)p == buf + done, "C04.position", "input is not stored right after what has been received so far");
	__sa_check(n <= want - done, "C04.amount", "more input is asked for than is still missing");
	if (n == 0) return 0;
	__sa_check(!f_err && !f_eof, "C04.after-error", "more input is consumed after an error or the end of input");
	size_t m;
	if (__sa_bool()) m = n;
	else {
		m = __sa_size(); __sa_assume(m < n);
		if (__sa_bool()) f_eof = 1; else f_err = 1;
	}
	if (m > 0) __sa_havoc(p, m);
	done += m;
	if (size == 1) return m;
	return m == n;
}
size_t fread(void *p, size_t size, size_t nmemb, FILE *fp)
{
	__sa_check(f_open && fp == the_fp, "C04.file-closed", "a read from a stream that is not open");
	return in_fread(p, size, nmemb);
}
size_t fread_unlocked(void *p, size_t size, size_t nmemb, FILE *fp) { return fread(p, size, nmemb, fp); }
int ferror(FILE *fp) { __sa_check(f_open && fp == the_fp, "C04.file-closed", "use of a stream that is not open"); return f_err ? 1 : 0; }
int feof(FILE *fp) { __sa_check(f_open && fp == the_fp, "C04.file-closed", "use of a stream that is not open"); return f_eof ? 1 : 0; }

void check_file(void)
{
	fstrm_res r;
	struct fstrm_file_options *o = fstrm_file_options_init();
	fstrm_file_options_set_file_path(o, "x");
	if (!fstrm_file_reader_init(o, NULL)) return;
	the_fp = stdin; f_open = 1;
	r = fstrm_rdwr_open(the_rdwr);
	if (r != fstrm_res_success) return;
	want = __sa_size();
	__sa_assume(want >= 1 && want < ((size_t)1 << 62));
	buf = __sa_obj(want);
	done = 0;
	r = fstrm_rdwr_read(the_rdwr, buf, want);
	if (r == fstrm_res_success) {
		__sa_check(done == want && !f_err && !f_eof, "C04.complete", "success is reported although not every requested byte was received");
		__sa_reach("C04.success");
	} else if (r == fstrm_res_stop) {
		__sa_check(f_eof && !f_err, "C04.stop", "the end of the file is reported although the end of input was not reached");
		__sa_reach("C04.stop");
	} else {
		__sa_check(f_err, "C04.failure-cause", "the read fails although no error occurred");
		__sa_reach("C04.failure");
	}
}
