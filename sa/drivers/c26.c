/* C26: fstrm_dump and fstrm_replay from main() to their exit status, over a library (decided by the
 * other properties) in which everything may fail. */
#include "sa.h"
#include "env.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include "libmy/argv.h"
#include "fstrm.h"

int main(int, char **);

static int replay;			/* which program */
static char *in_name[300], *out_name;	/* input files, output file */
static int n_in, n_seen;		/* input files given, taken up */
static int failed;			/* something failed that must show in the exit status */
static int skip;			/* the file at hand is not to be copied */

/* ---- options */
static char o_f[1], o_w[1], o_u[1], o_t[1], o_r[1];
static const char *f_path; static int f_live;
static int w_types; static const void *w_type; static size_t w_len; static int w_live;
static const char *u_path, *t_addr, *t_port;
struct fstrm_file_options *fstrm_file_options_init(void) { f_live = 1; f_path = NULL; return (struct fstrm_file_options *) o_f; }
void fstrm_file_options_destroy(struct fstrm_file_options **o) { if (*o) { f_live = 0; *o = NULL; } }
void fstrm_file_options_set_file_path(struct fstrm_file_options *o, const char *p)
{
	__sa_check((char *) o == o_f && f_live, "C26.use", "an options object is used that is not there");
	f_path = p;
}
struct fstrm_writer_options *fstrm_writer_options_init(void) { w_live = 1; w_types = 0; return (struct fstrm_writer_options *) o_w; }
void fstrm_writer_options_destroy(struct fstrm_writer_options **o) { if (*o) { w_live = 0; *o = NULL; } }
fstrm_res fstrm_writer_options_add_content_type(struct fstrm_writer_options *o, const void *p, size_t n)
{
	__sa_check((char *) o == o_w && w_live, "C26.use", "an options object is used that is not there");
	if (__sa_bool()) { failed = 1; return fstrm_res_failure; }
	w_types++; w_type = p; w_len = n;
	return fstrm_res_success;
}
struct fstrm_reader_options *fstrm_reader_options_init(void) { return (struct fstrm_reader_options *) o_r; }
void fstrm_reader_options_destroy(struct fstrm_reader_options **o) { *o = NULL; }
struct fstrm_unix_writer_options *fstrm_unix_writer_options_init(void) { return (struct fstrm_unix_writer_options *) o_u; }
void fstrm_unix_writer_options_destroy(struct fstrm_unix_writer_options **o) { *o = NULL; }
void fstrm_unix_writer_options_set_socket_path(struct fstrm_unix_writer_options *o, const char *p) { u_path = p; }
struct fstrm_tcp_writer_options *fstrm_tcp_writer_options_init(void) { return (struct fstrm_tcp_writer_options *) o_t; }
void fstrm_tcp_writer_options_destroy(struct fstrm_tcp_writer_options **o) { *o = NULL; }
void fstrm_tcp_writer_options_set_socket_address(struct fstrm_tcp_writer_options *o, const char *p) { t_addr = p; }
void fstrm_tcp_writer_options_set_socket_port(struct fstrm_tcp_writer_options *o, const char *p) { t_port = p; }

/* ---- the reader */
static char r_obj[1], c_obj[1];
static int rd; enum { NONE, MADE, OPEN, STOPPED, FAILED };
static int types;			/* content types its START names; -1: not asked yet */
static const uint8_t *type0; static size_t type0_len;
static int stop_ok;			/* its STOP frame could be had */
static const uint8_t *fr; static size_t fr_len; static int fr_pend;	/* the frame read last; it is still to be written */
static int wr;				/* the writer: NONE, MADE, OPEN, STOPPED (closed), FAILED */
static char w_obj[1];
static int is_r(const struct fstrm_reader *r) { return (const char *) r == r_obj && rd != NONE; }
static void fresh_file(void) { types = -1; type0 = NULL; type0_len = 0; stop_ok = 0; fr = NULL; fr_len = 0; fr_pend = 0; skip = 0; }
static void left_out(void)
{
	__sa_check(!fr_pend, "C26.copy", "a frame is left out of the copy");
	fr_pend = 0;
}
struct fstrm_reader *fstrm_file_reader_init(const struct fstrm_file_options *o, const struct fstrm_reader_options *ro)
{
	__sa_check((const char *) o == o_f && f_live, "C26.use", "an options object is used that is not there");
	__sa_check(rd == NONE, "C26.input", "an input file is opened while another one is");
	__sa_check(n_seen < n_in && f_path == in_name[n_seen], "C26.input", "another file is read than the next of the given ones");
	n_seen++;
	fresh_file();
	if (__sa_bool()) { if (!replay) failed = 1; return NULL; }
	rd = MADE;
	return (struct fstrm_reader *) r_obj;
}
static fstrm_res r_open(void)
{
	if (rd != MADE) return rd == OPEN ? fstrm_res_success : fstrm_res_failure;
	if (__sa_bool()) { rd = FAILED; skip = 1; if (!replay) failed = 1; return fstrm_res_failure; }
	rd = OPEN;
	return fstrm_res_success;
}
fstrm_res fstrm_reader_open(struct fstrm_reader *r)
{
	__sa_check(is_r(r), "C26.use", "a reader is used that is not there");
	return rd == OPEN ? fstrm_res_failure : r_open();
}
fstrm_res fstrm_reader_get_control(struct fstrm_reader *r, fstrm_control_type t, const struct fstrm_control **c)
{
	__sa_check(is_r(r), "C26.use", "a reader is used that is not there");
	*c = NULL;
	if (rd == MADE) { if (r_open() != fstrm_res_success) return fstrm_res_failure; }
	if (t == FSTRM_CONTROL_START) {
		if (__sa_bool()) { skip = 1; if (!replay) failed = 1; return fstrm_res_failure; }
	} else if (t == FSTRM_CONTROL_STOP) {
		if (rd != STOPPED || __sa_bool()) { if (!replay) failed = 1; return fstrm_res_failure; }
		stop_ok = 1;
	} else
		return fstrm_res_failure;
	*c = (const struct fstrm_control *) c_obj;
	return fstrm_res_success;
}
fstrm_res fstrm_reader_read(struct fstrm_reader *r, const uint8_t **p, size_t *n)
{
	__sa_check(is_r(r), "C26.use", "a reader is used that is not there");
	left_out();
	if (rd == MADE && r_open() != fstrm_res_success) return fstrm_res_failure;
	if (rd != OPEN) return fstrm_res_failure;
	int k = __sa_choice(3);
	if (k == 0) {
		fr_len = (size_t) __sa_range(1, UINT32_MAX);
		fr = (const uint8_t *) __sa_obj(fr_len);
		fr_pend = wr != NONE && !skip;
		*p = fr; *n = fr_len;
		return fstrm_res_success;
	}
	if (k == 1) { rd = STOPPED; return fstrm_res_stop; }
	rd = FAILED;
	if (!replay) failed = 1;
	return fstrm_res_failure;
}
fstrm_res fstrm_reader_close(struct fstrm_reader *r)
{
	__sa_check(is_r(r), "C26.use", "a reader is used that is not there");
	return __sa_bool() ? fstrm_res_success : fstrm_res_failure;
}
fstrm_res fstrm_reader_destroy(struct fstrm_reader **r)
{
	if (!*r) return fstrm_res_failure;
	__sa_check(is_r(*r), "C26.use", "a reader is used that is not there");
	if (replay) {
		left_out();
		if (!failed) __sa_check(skip || rd == STOPPED || rd == FAILED, "C26.input", "an input file is given up before its end");
		rd = NONE;
		fresh_file();
	} else
		__sa_check(failed || rd == STOPPED, "C26.input", "the input is given up before its end");
	*r = NULL;
	return fstrm_res_success;
}
static void ctl(const struct fstrm_control *c) { __sa_check((const char *) c == c_obj, "C26.use", "a control frame is looked at that was not had"); }
fstrm_res fstrm_control_get_num_field_content_type(const struct fstrm_control *c, size_t *n)
{
	ctl(c);
	if (__sa_bool()) { failed = 1; return fstrm_res_failure; }
	if (types < 0) types = __sa_choice(3);
	*n = (size_t) types;
	return fstrm_res_success;
}
fstrm_res fstrm_control_get_field_content_type(const struct fstrm_control *c, const size_t i, const uint8_t **p, size_t *n)
{
	ctl(c);
	if (types < 0) types = __sa_choice(3);
	if (i >= (size_t) types) return fstrm_res_failure;
	if (__sa_bool()) { failed = 1; return fstrm_res_failure; }
	size_t l = (size_t) __sa_range(0, 256);
	uint8_t *q = (uint8_t *) __sa_obj(l);
	if (i == 0) { type0 = q; type0_len = l; }
	*p = q; *n = l;
	return fstrm_res_success;
}
static char *a_type, *a_unix, *a_addr, *a_port;
fstrm_res fstrm_control_match_field_content_type(const struct fstrm_control *c, const uint8_t *p, size_t n)
{
	ctl(c);
	__sa_check((const char *) p == a_type && n == strlen(a_type), "C26.type", "the input's content type is compared with something else than the given one");
	if (__sa_bool()) { skip = 1; __sa_reach("C26.mismatch"); return fstrm_res_failure; }
	return fstrm_res_success;
}

/* ---- the writer */
static int is_w(const struct fstrm_writer *w) { return (const char *) w == w_obj && wr != NONE; }
static struct fstrm_writer *w_make(const struct fstrm_writer_options *o)
{
	__sa_check(wr == NONE, "C26.output", "two writers are made");
	if (replay)
		__sa_check((const char *) o == o_w && w_live && w_types == 1 && (const char *) w_type == a_type && w_len == strlen(a_type), "C26.type", "the connection does not offer the given content type");
	else {
		if (types > 0) __sa_check((const char *) o == o_w && w_live && w_types == 1 && w_type == type0 && w_len == type0_len, "C26.type", "the copy does not get the content type of the input");
		else __sa_check(types == 0 && (o == NULL || w_types == 0), "C26.type", "the copy gets a content type the input does not have");
	}
	if (__sa_bool()) { failed = 1; return NULL; }
	wr = MADE;
	return (struct fstrm_writer *) w_obj;
}
struct fstrm_writer *fstrm_file_writer_init(const struct fstrm_file_options *fo, const struct fstrm_writer_options *o)
{
	__sa_check((const char *) fo == o_f && f_live, "C26.use", "an options object is used that is not there");
	__sa_check(!replay && out_name != NULL && f_path == out_name, "C26.output", "another file is written than the given one");
	return w_make(o);
}
struct fstrm_writer *fstrm_unix_writer_init(const struct fstrm_unix_writer_options *uo, const struct fstrm_writer_options *o)
{
	__sa_check(replay && a_unix != NULL && u_path == a_unix, "C26.output", "another socket is written to than the given one");
	return w_make(o);
}
struct fstrm_writer *fstrm_tcp_writer_init(const struct fstrm_tcp_writer_options *to, const struct fstrm_writer_options *o)
{
	__sa_check(replay && a_addr != NULL && t_addr == a_addr && t_port == a_port, "C26.output", "another socket is written to than the given one");
	return w_make(o);
}
static fstrm_res w_open(void)
{
	if (wr != MADE) return wr == OPEN ? fstrm_res_success : fstrm_res_failure;
	if (__sa_bool()) { failed = 1; wr = FAILED; return fstrm_res_failure; }
	wr = OPEN;
	return fstrm_res_success;
}
fstrm_res fstrm_writer_open(struct fstrm_writer *w)
{
	__sa_check(is_w(w), "C26.use", "a writer is used that is not there");
	return w_open();
}
fstrm_res fstrm_writer_write(struct fstrm_writer *w, const void *p, size_t n)
{
	__sa_check(is_w(w), "C26.use", "a writer is used that is not there");
	__sa_check(!failed, "C26.after-failure", "writing goes on after a failure");
	__sa_check(fr_pend && p == fr && n == fr_len, "C26.copy", "something is written that is not the frame read last");
	fr_pend = 0;
	if (w_open() != fstrm_res_success) return fstrm_res_failure;
	if (__sa_bool()) { failed = 1; return fstrm_res_failure; }
	__sa_reach("C26.copied");
	return fstrm_res_success;
}
fstrm_res fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *v, int n)
{
	__sa_check(n == 1, "C26.copy", "several frames are written where one was read");
	return fstrm_writer_write(w, v[0].iov_base, v[0].iov_len);
}
fstrm_res fstrm_writer_close(struct fstrm_writer *w)
{
	__sa_check(is_w(w), "C26.use", "a writer is used that is not there");
	left_out();
	if (wr != OPEN && wr != MADE) { failed = 1; return fstrm_res_failure; }
	wr = STOPPED;
	if (__sa_bool()) { failed = 1; __sa_reach("C26.close-failed"); return fstrm_res_failure; }
	return fstrm_res_success;
}
fstrm_res fstrm_writer_destroy(struct fstrm_writer **w)
{
	if (!*w) return fstrm_res_failure;
	__sa_check(is_w(*w), "C26.use", "a writer is used that is not there");
	fstrm_res r = fstrm_res_failure;
	if (wr == OPEN) r = fstrm_writer_close(*w);
	wr = wr == STOPPED ? STOPPED : FAILED;
	*w = NULL;
	return r;
}

/* ---- the rest of the world */
int sa_fprintf(FILE *f) __asm__("fprintf");
int sa_fprintf(FILE *f) { return 0; }
int fputs(const char *s, FILE *f) { return (int) __sa_range(-1, 1); }
int fputc(int c, FILE *f) { return (int) __sa_range(-1, 255); }
int putchar(int c) { return (int) __sa_range(-1, 255); }
int setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }
void print_string(const void *data, size_t len, FILE *out) { __sa_valid(data, len); }
char argv_program[33];
static char *file_list[300];

static int opt(const argv_t *a, const char *name)
{
	const char *p = a->ar_long_arg;
	int i = 0;
	while (p[i] == name[i] && p[i] != 0) i++;
	return p[i] == name[i];
}
int argv_process(argv_t *args, const int argc, char **argv)
{
	if (__sa_bool()) { failed = 1; return -1; }
	for (argv_t *a = args; a->ar_short_arg != ARGV_LAST; a++) {
		if (a->ar_short_arg == ARGV_ONE_OF || a->ar_long_arg == NULL) continue;
		if (opt(a, "type")) *(char **) a->ar_variable = a_type;
		else if (opt(a, "unix")) *(char **) a->ar_variable = a_unix;
		else if (opt(a, "tcp")) *(char **) a->ar_variable = a_addr;
		else if (opt(a, "port")) *(char **) a->ar_variable = a_port;
		else if (opt(a, "read-file")) {
			argv_array_t *v = (argv_array_t *) a->ar_variable;
			for (int i = 0; i < n_in; i++) file_list[i] = in_name[i];
			v->aa_entry_n = n_in; v->aa_entries = file_list;
		}
	}
	return 0;
}
int argv_usage(const argv_t *args, const int which) { return 0; }
void argv_cleanup(const argv_t *args) { }
unsigned long strtoul(const char *s, char **end, int base)
{
	if (__sa_bool()) { failed = 1; *end = (char *) s; return 0; }
	*end = (char *) s + 1;
	return (unsigned long) __sa_range(0, 65535);
}
static int n_pton;
int inet_pton(int af, const char *src, void *dst)
{
	__sa_valid(dst, af == 2 ? 4 : 16);
	n_pton++;
	if (__sa_bool()) { if (n_pton == 2) failed = 1; return 0; }
	return 1;
}

static void at_exit(int status)
{
	if (status == 0) {
		__sa_check(!failed, "C26.exit", "the program exits successfully although something failed");
		__sa_check(n_seen == n_in, "C26.files", "the program exits successfully without having read every file");
		if (replay) __sa_check(wr == STOPPED, "C26.exit", "the program exits successfully without having closed the connection");
		else {
			__sa_check(rd == STOPPED && stop_ok, "C26.exit", "the program exits successfully although the input did not end with STOP");
			__sa_check(out_name ? wr == STOPPED : wr == NONE, "C26.exit", "the program exits successfully without having closed its output");
		}
		left_out();
		__sa_reach("C26.exit-ok");
	} else {
		__sa_check(failed, "C26.exit", "the program gives up although nothing failed");
		__sa_reach("C26.exit-failed");
	}
}
void exit(int status) { at_exit(status); __sa_stop(); for (;;) ; }

static char *av[5];
static char prog[] = "p";
static int many;
static void names(int n)
{
	n_in = n;
	for (int i = 0; i < n; i++) in_name[i] = many && i ? in_name[0] : __sa_cstring();
	fresh_file();
}
void check_dump(void)
{
	names(1);
	av[0] = prog; av[1] = in_name[0];
	at_exit(main(2, av));
}
void check_dump_copy(void)
{
	names(1);
	out_name = __sa_cstring();
	av[0] = prog; av[1] = in_name[0]; av[2] = out_name;
	at_exit(main(3, av));
}
void check_dump_usage(void)
{
	names(1);
	failed = 1;	/* the call is wrong: nothing may be opened */
	n_in = 0;
	av[0] = prog;
	for (int i = 1; i < 5; i++) av[i] = in_name[0];
	int n = __sa_bool() ? 1 : 4;
	if (n == 1) av[1] = NULL;
	at_exit(main(n, av));
}
static char s_port[] = "P";
static void rep(int n, int u)
{
	replay = 1;
	names(n);
	a_type = __sa_cstring();
	if (u) a_unix = __sa_cstring();
	else { a_addr = __sa_cstring(); a_port = s_port; }
	av[0] = prog;
	at_exit(main(1, av));
}
void check_replay_unix(void) { rep(2, 1); }
void check_replay_tcp(void) { rep(1, 0); }
void check_replay_3(void) { rep(3, 0); }
/* more of them than a byte counts: the same one again and again */
void check_replay_300(void) { many = 1; rep(260, 1); }
