/* C33: what fstrm_dump prints: main() over a reader that hands out frames, with stdout as the judge of every
 * character. The expected text is built from the frame, not from the code. */
#include "sa.h"
#include "env.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
#include "fstrm.h"

int main(int, char **);

static char o_obj[1], w_obj[1], r_obj[1], c_obj[1];
static char f_out[1], f_err[1];
FILE *stdout = (FILE *) f_out, *stderr = (FILE *) f_err;

/* ---- the character classes of the C locale, as a table and as functions */
static unsigned short ct[384];
static const unsigned short *ct_p = ct + 128;
const unsigned short **__ctype_b_loc(void) { return &ct_p; }
static int printable(int c) { return c >= 0x20 && c <= 0x7e; }
static void classes(void)
{
	for (int c = 0; c < 256; c++) {
		unsigned v = 0;
		int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
		if (up) v |= _ISupper | _ISalpha | _ISalnum;
		if (lo) v |= _ISlower | _ISalpha | _ISalnum;
		if (dg) v |= _ISdigit | _ISalnum;
		if (dg || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) v |= _ISxdigit;
		if (c == ' ' || (c >= 9 && c <= 13)) v |= _ISspace;
		if (c == ' ' || c == 9) v |= _ISblank;
		if (c < 0x20 || c == 0x7f) v |= _IScntrl;
		if (printable(c)) v |= _ISprint;
		if (printable(c) && c != ' ') v |= _ISgraph;
		if (printable(c) && c != ' ' && !up && !lo && !dg) v |= _ISpunct;
		ct[128 + c] = (unsigned short) v;
	}
}
int (isprint)(int c) { return printable(c); }
int (isgraph)(int c) { return c > 0x20 && c <= 0x7e; }
int (iscntrl)(int c) { return (c >= 0 && c < 0x20) || c == 0x7f; }

/* ---- the frames */
static uint8_t buf[512];		/* the reader's buffer, the same for every frame */
static size_t len;
static int have;			/* a frame was read; its line is not complete */
static size_t pos, sub;			/* bytes of it printed; characters of the next one */
static enum { BEGIN, OPEN, BODY, NL } st;
static int n_frames;			/* to come; < 0: any number */
static int failed, stopped;
static void (*fill)(int);
static int n_read;

static char exp_[4];
static size_t exp_len(void)
{
	static const char hex[] = "0123456789abcdef";
	uint8_t b = buf[pos];
	if (b == '"') { exp_[0] = '\\'; exp_[1] = '"'; return 2; }
	if (printable(b)) { exp_[0] = (char) b; return 1; }
	exp_[0] = '\\'; exp_[1] = 'x'; exp_[2] = hex[b >> 4]; exp_[3] = hex[b & 15];
	return 4;
}
static void feed(int c)
{
	c &= 255;
	__sa_check(have, "C33.extra", "something is printed that is not the line of a frame");
	switch (st) {
	case BEGIN: __sa_check(c == ' ', "C33.line", "the line of a frame does not begin with a space and a quote"); st = OPEN; break;
	case OPEN: __sa_check(c == '"', "C33.line", "the line of a frame does not begin with a space and a quote"); st = BODY; break;
	case BODY:
		if (pos == len) {
			__sa_check(c == '"', "C33.bytes", "more is printed than the frame's bytes");
			st = NL;
			break;
		}
		size_t n = exp_len();
		__sa_check(c == (exp_[sub] & 255), "C33.bytes", "a byte of the frame is not printed as itself (printable), as \\\" or as \\xNN");
		if (++sub == n) { pos++; sub = 0; }
		break;
	case NL:
		__sa_check(c == '\n', "C33.line", "the line of a frame does not end after the closing quote");
		st = BEGIN; have = 0; pos = 0; sub = 0;
		__sa_reach("C33.line");
		break;
	}
}
static void at_rest(void)
{
	__sa_check(!have || failed, "C33.once", "a frame is not printed, or not to its end");
	__sa_check(st == BEGIN, "C33.once", "the line of a frame is left unfinished");
}

/* ---- stdout */
static int put(int c, FILE *f) { if (f == stdout) feed(c); return c & 255; }
int fputc(int c, FILE *f) { return put(c, f); }
int putc(int c, FILE *f) { return put(c, f); }
#undef putchar
#undef putc
int _IO_putc(int c, FILE *f) { return put(c, f); }
int fputc_unlocked(int c, FILE *f) { return put(c, f); }
int putc_unlocked(int c, FILE *f) { return put(c, f); }
int putchar(int c) { return put(c, stdout); }
int putchar_unlocked(int c) { return put(c, stdout); }
int fputs(const char *s, FILE *f) { if (f == stdout) while (*s) feed(*s++); return 1; }
int fputs_unlocked(const char *s, FILE *f) { return fputs(s, f); }
int puts(const char *s) { fputs(s, stdout); feed('\n'); return 1; }
size_t fwrite(const void *p, size_t size, size_t n, FILE *f)
{
	__sa_valid(p, size * n);
	if (f == stdout) for (size_t i = 0; i < size * n; i++) feed(((const uint8_t *) p)[i]);
	return n;
}
size_t fwrite_unlocked(const void *p, size_t size, size_t n, FILE *f) { return fwrite(p, size, n, f); }
/* formats with at most one argument, of the kinds that stand for a character or a byte in hexadecimal */
static void format(const char *s, unsigned a, const char *as)
{
	while (*s) {
		if (*s != '%') { feed(*s++); continue; }
		s++;
		if (*s == '%') { feed(*s++); continue; }
		if (*s == 'c') { feed((int) a); s++; continue; }
		if (*s == 's') { while (*as) feed(*as++); s++; continue; }
		int w = 0, up;
		if (*s == '0' || *s == '.') { s++; while (*s >= '0' && *s <= '9') w = w * 10 + (*s++ - '0'); if (*s == '.') { s++; w = 0; while (*s >= '0' && *s <= '9') w = w * 10 + (*s++ - '0'); } }
		int hh = 0;
		while (*s == 'h') { hh++; s++; }
		if (hh == 2) a &= 255;
		if (*s != 'x' && *s != 'X') { feed(-2); return; }
		up = *s++ == 'X';
		const char *hex = up ? "0123456789ABCDEF" : "0123456789abcdef";
		int d = 1;
		while (d < 8 && (a >> (4 * d)) != 0) d++;
		while (w > d) { feed('0'); w--; }
		while (d-- > 0) feed(hex[(a >> (4 * d)) & 15]);
	}
}
int sa_fprintf(FILE *f, const char *s, uintptr_t a) __asm__("fprintf");
int sa_fprintf(FILE *f, const char *s, uintptr_t a) { if (f == stdout) format(s, (unsigned) a, (const char *) a); return 1; }
int sa_printf(const char *s, uintptr_t a) __asm__("printf");
int sa_printf(const char *s, uintptr_t a) { format(s, (unsigned) a, (const char *) a); return 1; }
int sa_snprintf(char *b, size_t n, const char *s, uintptr_t a) __asm__("snprintf");
int sa_snprintf(char *b, size_t n, const char *s, uintptr_t a)
{
	static const char hex[] = "0123456789abcdef";
	int two = 0;
	for (const char *q = s; *q; q++) if (q[0] == '0' && q[1] == '2' && q[2] == 'x') two = 1;
	if (!two || n < 3) { __sa_havoc(b, n); return 1; }
	size_t i = 0;
	while (*s && i + 1 < n) {
		if (*s != '%') { b[i++] = *s++; continue; }
		while (*s != 'x') s++;
		s++;
		b[i++] = hex[(a >> 4) & 15];
		if (i + 1 < n) b[i++] = hex[a & 15];
	}
	b[i] = 0;
	return (int) i;
}
int setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }
int fflush(FILE *f) { return 0; }
int fflush_unlocked(FILE *f) { return 0; }
int ferror(FILE *f) { return 0; }

/* ---- the library */
struct fstrm_file_options *fstrm_file_options_init(void) { return (struct fstrm_file_options *) o_obj; }
void fstrm_file_options_destroy(struct fstrm_file_options **o) { *o = NULL; }
void fstrm_file_options_set_file_path(struct fstrm_file_options *o, const char *p) { }
struct fstrm_writer_options *fstrm_writer_options_init(void) { return (struct fstrm_writer_options *) o_obj; }
void fstrm_writer_options_destroy(struct fstrm_writer_options **o) { *o = NULL; }
fstrm_res fstrm_writer_options_add_content_type(struct fstrm_writer_options *o, const void *p, size_t n) { return fstrm_res_success; }
struct fstrm_reader *fstrm_file_reader_init(const struct fstrm_file_options *o, const struct fstrm_reader_options *ro) { return (struct fstrm_reader *) r_obj; }
fstrm_res fstrm_reader_open(struct fstrm_reader *r) { return fstrm_res_success; }
fstrm_res fstrm_reader_close(struct fstrm_reader *r) { return fstrm_res_success; }
fstrm_res fstrm_reader_destroy(struct fstrm_reader **r) { *r = NULL; return fstrm_res_success; }
fstrm_res fstrm_reader_get_control(struct fstrm_reader *r, fstrm_control_type t, const struct fstrm_control **c)
{
	*c = (const struct fstrm_control *) c_obj;
	return fstrm_res_success;
}
fstrm_res fstrm_control_get_num_field_content_type(const struct fstrm_control *c, size_t *n) { *n = 1; return fstrm_res_success; }
static const uint8_t ctype[3] = { 't', '"', 0 };
fstrm_res fstrm_control_get_field_content_type(const struct fstrm_control *c, const size_t i, const uint8_t **p, size_t *n)
{
	*p = ctype; *n = sizeof ctype;
	return fstrm_res_success;
}
fstrm_res fstrm_reader_read(struct fstrm_reader *r, const uint8_t **p, size_t *n)
{
	at_rest();
	__sa_check(!stopped, "C33.end", "the input is read on after its end");
	if (n_frames == 0 || (n_frames < 0 && __sa_bool())) {
		stopped = 1;
		if (n_frames < 0 && __sa_bool()) { failed = 1; return fstrm_res_failure; }
		return fstrm_res_stop;
	}
	if (n_frames > 0) n_frames--;
	fill(n_read);
	if (n_frames >= 0) n_read++;
	have = 1;
	*p = buf; *n = len;
	return fstrm_res_success;
}
struct fstrm_writer *fstrm_file_writer_init(const struct fstrm_file_options *fo, const struct fstrm_writer_options *o) { return (struct fstrm_writer *) w_obj; }
fstrm_res fstrm_writer_open(struct fstrm_writer *w) { return fstrm_res_success; }
fstrm_res fstrm_writer_write(struct fstrm_writer *w, const void *p, size_t n)
{
	if (__sa_bool()) { failed = 1; return fstrm_res_failure; }
	return fstrm_res_success;
}
fstrm_res fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *v, int n) { return fstrm_writer_write(w, NULL, 0); }
fstrm_res fstrm_writer_close(struct fstrm_writer *w) { return fstrm_res_success; }
fstrm_res fstrm_writer_destroy(struct fstrm_writer **w) { *w = NULL; return fstrm_res_success; }

static char *av[4];
static char prog[] = "p", in[] = "i", out[] = "o";
static void run(int n, int copy, void (*f)(int))
{
	classes();
	n_frames = n; fill = f;
	av[0] = prog; av[1] = in; if (copy) av[2] = out;
	int r = main(copy ? 3 : 2, av);
	at_rest();
	if (r == 0) __sa_check(stopped && !have, "C33.once", "a frame is not printed, or not to its end");
	__sa_reach("C33.end");
}
void exit(int status) { at_rest(); __sa_stop(); for (;;) ; }

static void any_byte(int k) { buf[0] = (uint8_t) __sa_choice(256); len = 1; }
static const uint8_t rep[8] = { '"', '\\', 'a', ' ', 0, 0x7f, 0xff, '\n' };
static void pair(int k)
{
	if (k == 0) { buf[0] = rep[__sa_choice(8)]; buf[1] = rep[__sa_choice(8)]; len = 2; }
	else { buf[0] = 'z'; len = 1; }
}
static void lengths(int k)
{
	len = k == 0 ? 300 : k == 1 ? 1 : 257;
	for (size_t i = 0; i < len; i++) buf[i] = (uint8_t) (i * 3 + (size_t) k);
}
static void some(int k)
{
	len = __sa_bool() ? 1 : 2;
	buf[0] = rep[__sa_choice(8)];
	buf[1] = '"';
}
void check_byte(void) { run(1, 0, any_byte); }
void check_pair(void) { run(2, 0, pair); }
void check_long(void) { run(3, 0, lengths); }
void check_any(void) { run(-1, 0, some); }
void check_copy(void) { run(-1, 1, some); }
