/* C31: the file transport opens the file it was told to, the way its reader or writer needs it, and
 * stores every byte it is given once and in order, or fails.  stdio accepts any part of what it is
 * offered, or fails, at every call. */
#include "sa.h"
#include "env.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/uio.h>
#include "fstrm-private.h"

static struct fstrm_rdwr *the_rdwr;
static int as_writer;
struct fstrm_writer *fstrm_writer_init(const struct fstrm_writer_options *wopt, struct fstrm_rdwr **rdwr)
{
	__sa_check(as_writer, "C31.kind", "a writer is created although a reader is asked for");
	the_rdwr = *rdwr; *rdwr = NULL;
	return __sa_nzptr();
}
struct fstrm_reader *fstrm_reader_init(const struct fstrm_reader_options *ropt, struct fstrm_rdwr **rdwr)
{
	__sa_check(!as_writer, "C31.kind", "a reader is created although a writer is asked for");
	the_rdwr = *rdwr; *rdwr = NULL;
	return __sa_nzptr();
}

static const char *want_path;	/* the path last set, or NULL */
static int want_std;		/* it is "-" */
static int g_opening;		/* an open is in progress */
static int g_live, g_std;	/* a stream is open; it is a standard stream */
static FILE *g_fp;
static int g_failed;		/* a write, flush or close of the open stream has failed */

static int same(const char *a, const char *b)
{
	for (size_t i = 0; ; i++) {
		if (a[i] != b[i]) return 0;
		if (a[i] == 0) return 1;
	}
}
int strcmp(const char *a, const char *b)
{
	for (size_t i = 0; ; i++) {
		if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
		if (a[i] == 0) return 0;
	}
}
int strncmp(const char *a, const char *b, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
		if (a[i] == 0) return 0;
	}
	return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *d = __sa_heap(n);
	for (size_t i = 0; i < n; i++) d[i] = s[i];
	return d;
}
FILE *fopen(const char *path, const char *mode)
{
	__sa_check(g_opening, "C31.open-when", "a file is opened before its reader or writer is");
	__sa_check(!g_live, "C31.open-once", "a file is opened while the one before is still open");
	__sa_check(!want_std, "C31.standard", "a file called - is opened instead of the standard stream");
	__sa_check(want_path != NULL && same(path, want_path), "C31.path", "another file than the configured one is opened");
	if (as_writer) {
		int ok = mode[0] == 'w';
		for (size_t i = 1; mode[i]; i++) ok &= mode[i] == 'b' || mode[i] == 'e' || mode[i] == '+';
		__sa_check(ok, "C31.mode", "the output file is not created or truncated for writing");
	} else {
		int ok = mode[0] == 'r';
		for (size_t i = 1; mode[i]; i++) ok &= mode[i] == 'b' || mode[i] == 'e' || mode[i] == 'm';
		__sa_check(ok, "C31.mode", "the input file is not opened for reading only");
	}
	if (__sa_bool()) { __sa_reach("C31.open-failed"); errno = (int) __sa_range(1, 133); return NULL; }
	g_fp = __sa_nzptr();
	g_live = 1; g_std = 0; g_failed = 0;
	return g_fp;
}
static void mine(FILE *fp)
{
	if (!g_live && want_std && g_opening == 0 && fp == (as_writer ? stdout : stdin)) {
		/* the standard stream needs no opening */
		g_live = 1; g_std = 1; g_failed = 0; g_fp = fp;
	}
	__sa_check(g_live && fp == g_fp, "C31.stream", "a stream is used that is not the transport's own");
}
int fclose(FILE *fp)
{
	mine(fp);
	g_live = 0;
	if (__sa_bool()) { g_failed = 1; errno = (int) __sa_range(1, 133); return -1; }
	return 0;
}
int fflush(FILE *fp)
{
	mine(fp);
	if (__sa_bool()) { g_failed = 1; errno = (int) __sa_range(1, 133); return -1; }
	return 0;
}
int ferror(FILE *fp) { mine(fp); return g_failed; }

/* ---- what is to be written */
static struct iovec iov[4], orig[4];
static int nbufs, cur, writing, w_err;
static size_t done;		/* bytes of buffer `cur` accepted so far */

static size_t accept_bytes(const void *p, size_t n)
{
	__sa_check(writing, "C31.write-when", "something is written outside of a write");
	__sa_check(!w_err, "C31.after-error", "more is written after an error, which leaves a hole in the file or writes something twice");
	__sa_check(cur < nbufs, "C31.amount", "more is written than was given");
	if (!(cur < nbufs)) return 0;
	__sa_check((const char *) p == (const char *) orig[cur].iov_base + done, "C31.position", "what is written is not what follows the last byte written");
	__sa_check(n <= orig[cur].iov_len - done, "C31.amount", "more is written than the buffer holds");
	if (__sa_bool()) {
		done += n;
		if (done == orig[cur].iov_len) { cur++; done = 0; }
		return n;
	}
	size_t m = __sa_size();
	__sa_assume(m < n);
	w_err = 1; g_failed = 1; errno = (int) __sa_range(1, 133);
	__sa_reach("C31.short");
	return m;
}
size_t fwrite(const void *p, size_t size, size_t n, FILE *fp)
{
	mine(fp);
	__sa_check(size == 1 || n == 1, "C31.unit", "what is written is neither one unit nor single bytes");
	if (size == 1) return accept_bytes(p, n);
	return accept_bytes(p, size) == size;
}
size_t fwrite_unlocked(const void *p, size_t s, size_t n, FILE *fp) { return fwrite(p, s, n, fp); }
size_t fread(void *p, size_t s, size_t n, FILE *fp)
{
	mine(fp);
	return (size_t) __sa_range(0, 1);
}

/* ---- opening */
static const char *paths[] = { "-", "x", "-x", "--", "./-", "r", "w" };
static char any_path[8];
static void open_path(const char *, int);
static void open_it(int k) { open_path(paths[k], k == 0); }
static void open_path(const char *path, int is_std)
{
	struct fstrm_file_options *o = fstrm_file_options_init();
	want_path = path; want_std = is_std;
	__sa_assume(stdin != NULL); __sa_assume(stdout != NULL);
	if (__sa_bool()) fstrm_file_options_set_file_path(o, "y");
	fstrm_file_options_set_file_path(o, want_path);
	void *made = as_writer ? (void *) fstrm_file_writer_init(o, NULL) : (void *) fstrm_file_reader_init(o, NULL);
	__sa_check(made != NULL, "C31.made", "no reader or writer is created for a valid path");
	if (!made) __sa_stop();
	/* options are copied */
	if (__sa_bool()) fstrm_file_options_set_file_path(o, "z");
	fstrm_file_options_destroy(&o);
	g_opening = 1;
	fstrm_res r = fstrm_rdwr_open(the_rdwr);
	g_opening = 0;
	if (want_std) {
		__sa_check(r == fstrm_res_success, "C31.opened", "opening a standard stream fails");
	} else {
		__sa_check((r == fstrm_res_success) == g_live, "C31.opened", "the result of opening is not the file's");
	}
	if (r != fstrm_res_success) { __sa_reach("C31.refused"); __sa_stop(); }
	__sa_reach("C31.opened");
}
static void close_it(void)
{
	int was = g_live;
	g_failed = 0;
	fstrm_res r = fstrm_rdwr_close(the_rdwr);
	__sa_check(!g_live, "C31.closed", "the file is still open after it was closed");
	if (was) {
		__sa_check((r == fstrm_res_success) == !g_failed, "C31.close-result", "the result of closing is not the file's: what is buffered may be lost without notice");
		__sa_reach("C31.close");
	}
}
static void one_path(int k)
{
	open_it(k);
	close_it();
	fstrm_rdwr_destroy(&the_rdwr);
	__sa_reach("C31.end");
}
void check_write_paths(void) { as_writer = 1; one_path(__sa_choice(7)); }
void check_read_paths(void) { as_writer = 0; one_path(__sa_choice(7)); }
/* a path of n arbitrary characters */
static void any(int n)
{
	as_writer = __sa_choice(2);
	for (int i = 0; i < n; i++) {
		any_path[i] = (char) __sa_range(-128, 127);
		__sa_assume(any_path[i] != 0);
	}
	any_path[n] = 0;
	open_path(any_path, n == 1 && any_path[0] == '-');
	close_it();
	fstrm_rdwr_destroy(&the_rdwr);
	__sa_reach("C31.end");
}
void check_any_path_1(void) { any(1); }
void check_any_path_2(void) { any(2); }
void check_any_path_4(void) { any(4); }
void check_no_path(void)
{
	as_writer = __sa_bool();
	struct fstrm_file_options *o = fstrm_file_options_init();
	if (__sa_bool()) { fstrm_file_options_set_file_path(o, "y"); fstrm_file_options_set_file_path(o, NULL); }
	the_rdwr = NULL;
	void *made = as_writer ? (void *) fstrm_file_writer_init(o, NULL) : (void *) fstrm_file_reader_init(o, NULL);
	__sa_check(made == NULL && the_rdwr == NULL, "C31.no-path", "a reader or writer is created although no path is set");
	__sa_reach("C31.no-path");
}

/* ---- writing */
static int write_it(int n)
{
	nbufs = n; cur = 0; done = 0; w_err = 0;
	for (int i = 0; i < n; i++) {
		size_t len = __sa_size();
		__sa_assume(len >= 1 && len < ((size_t) 1 << 40));
		iov[i].iov_base = orig[i].iov_base = __sa_obj(len);
		iov[i].iov_len = orig[i].iov_len = len;
	}
	writing = 1;
	fstrm_res r = fstrm_rdwr_write(the_rdwr, iov, n);
	writing = 0;
	if (r == fstrm_res_success) {
		__sa_check(cur == n && done == 0 && !w_err, "C31.complete", "success is reported although not everything was written");
		__sa_reach("C31.written");
	} else {
		__sa_check(w_err, "C31.failure-cause", "the write fails although the file accepted everything");
		__sa_reach("C31.write-failed");
	}
	return r == fstrm_res_success;
}
static void writes(int n, int m, int path)
{
	as_writer = 1;
	open_it(path);
	if (write_it(n)) {
		if (m && !write_it(m) && __sa_bool()) close_it();
	} else if (__sa_bool()) {
		/* the file has a hole now: nothing may follow */
		nbufs = 0; cur = 0; w_err = 1;
		if (__sa_bool()) {
			iov[0].iov_base = __sa_obj(4); iov[0].iov_len = 4; writing = 1;
			fstrm_res r = fstrm_rdwr_write(the_rdwr, iov, 1);
			writing = 0;
			__sa_check(r != fstrm_res_success, "C31.after-error", "a write succeeds after one that failed");
		}
	}
	if (g_live) close_it();
	fstrm_rdwr_destroy(&the_rdwr);
	__sa_check(!g_live, "C31.leak", "the file is still open when the transport is gone");
	__sa_reach("C31.end");
}
void check_write_1(void) { writes(1, 0, 1); }
void check_write_2(void) { writes(2, 0, 1); }
void check_write_3(void) { writes(3, 0, 1); }
void check_write_4(void) { writes(4, 0, 1); }
void check_write_1_2(void) { writes(1, 2, 1); }
void check_write_std(void) { writes(2, 0, 0); }
/* and again after closing */
void check_write_reopen(void)
{
	as_writer = 1;
	open_it(1);
	for (int k = 0; k < 3; k++) {
		int ok = __sa_bool() ? write_it(1) : 1;
		if (!ok) break;
		close_it();
		g_opening = 1;
		fstrm_res r = fstrm_rdwr_open(the_rdwr);
		g_opening = 0;
		__sa_check((r == fstrm_res_success) == g_live, "C31.opened", "the result of opening is not the file's");
		if (r != fstrm_res_success) break;
		__sa_reach("C31.reopened");
	}
	fstrm_rdwr_destroy(&the_rdwr);
	__sa_check(!g_live, "C31.leak", "the file is still open when the transport is gone");
	__sa_reach("C31.end");
}
