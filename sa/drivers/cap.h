/* The world of fstrm_capture: command line, libevent, stdio and control objects, as seen from the
 * interfaces the program is written against.  Nothing here names a function, structure or variable
 * of the program itself: it is entered at main() and through the callbacks it registers. */
#ifndef CAP_H
#define CAP_H
#include "sa.h"
#include "env.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <time.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <arpa/inet.h>
#include <event2/buffer.h>
#include <event2/bufferevent.h>
#include <event2/event.h>
#include <event2/listener.h>
#include <event2/util.h>
#include "libmy/argv.h"
#include "fstrm.h"

int main(int, char **);

/* ---- command line: every option, by the name users give it */
static char *a_type, *a_name;		/* --type, --write */
static int a_stdout, a_split, a_cal, a_buf, a_max, a_debug;
static int opt(const argv_t *a, const char *name)
{
	const char *p = a->ar_long_arg;
	int i = 0;
	while (p[i] == name[i] && p[i] != 0) i++;
	return p[i] == name[i];
}
static void set_p(const argv_t *a, char *v)
{
	__sa_check((a->ar_type & 0x3f) == ARGV_CHAR_P, "C23.args", "an option does not take a string any more");
	*(char **) a->ar_variable = v;
}
static void set_i(const argv_t *a, int v)
{
	__sa_check((a->ar_type & 0x3f) == ARGV_INT || (a->ar_type & 0x3f) == ARGV_INCR, "C23.args", "an option does not take a number any more");
	*(int *) a->ar_variable = v;
}
static void set_b(const argv_t *a, int v)
{
	__sa_check((a->ar_type & 0x3f) == ARGV_BOOL, "C23.args", "an option is not a switch any more");
	*(char *) a->ar_variable = (char) v;
}
static char s_addr[] = "A", s_port[] = "P";
char argv_program[33]; 
int argv_process(argv_t *args, const int argc, char **argv)
{
	for (argv_t *a = args; a->ar_short_arg != ARGV_LAST; a++) {
		if (opt(a, "type")) set_p(a, a_type);
		else if (opt(a, "tcp")) set_p(a, s_addr);
		else if (opt(a, "port")) set_p(a, s_port);
		else if (opt(a, "write")) set_p(a, a_name);
		else if (opt(a, "buffersize")) set_i(a, a_buf);
		else if (opt(a, "maxconns")) set_i(a, a_max);
		else if (opt(a, "split")) set_i(a, a_split);
		else if (opt(a, "debug")) set_i(a, a_debug);
		else if (opt(a, "localtime")) set_b(a, a_cal == 1);
		else if (opt(a, "gmtime")) set_b(a, a_cal == 2);
	}
	return 0;
}
int argv_usage(const argv_t *args, const int which) { return 0; }
void argv_cleanup(const argv_t *args) { }
int isatty(int fd) { return 0; }
unsigned long strtoul(const char *s, char **end, int base) { *end = s_port + 1; return (unsigned long) __sa_range(0, 65535); }
int inet_pton(int af, const char *src, void *dst) { __sa_valid(dst, af == AF_INET ? 4 : 16); return 1; }

static int is_name(const char *s);
int strcmp(const char *a, const char *b)
{
	if (is_name(a)) return a_stdout ? 0 : 1;
	return (int) __sa_range(-1, 1);
}

/* ---- logging */
int sa_fprintf(FILE *f) __asm__("fprintf");
int sa_fprintf(FILE *f) { return 0; }
int fputs(const char *s, FILE *f) { return 0; }
int fputc(int c, FILE *f) { return 0; }
int vfprintf(FILE *f, const char *fmt, va_list ap) { return 0; }
void print_string(const void *data, size_t len, FILE *out) { __sa_valid(data, len); }

/* ---- how the program ends */
static int g_failed;			/* something failed that has to end the program */
static int g_running;			/* the event loop has been entered */
static void at_exit(int status);
void exit(int status) { at_exit(status); __sa_stop(); for (;;) ; }

#define FAIL() (g_failed = 1)
#endif
