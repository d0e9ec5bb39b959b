/* C03: a socket transport's write method sends every byte exactly once, in order, or fails.
 * Up to 3 (thorough: 4) caller buffers of any lengths; the kernel accepts any prefix of what is offered,
 * interrupts or fails at any send, any number of times. */
#include "sa.h"
#include "env.h"
#include <string.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include "fstrm-private.h"

static struct fstrm_rdwr *the_rdwr;
struct fstrm_writer *fstrm_writer_init(const struct fstrm_writer_options *wopt, struct fstrm_rdwr **rdwr)
{
	the_rdwr = *rdwr; *rdwr = NULL;
	return __sa_nzptr();
}
/* environment of open: succeeds */
int socket(int d, int t, int p) { return __sa_range(0, 1 << 20); }
int fcntl(int fd, int cmd, ...) { return __sa_range(-1, 1 << 20); }
int connect(int fd, const struct sockaddr *a, socklen_t l) { return 0; }
int close(int fd) { return __sa_range(-1, 0); }
int inet_pton(int af, const char *src, void *dst) { return 1; }
unsigned long strtoul(const char *s, char **end, int base) { *end = ""; return 1; }

#define NBUF 4
static struct iovec iov[NBUF];
static char *base[NBUF];		/* the caller's buffers as given */
static size_t len[NBUF];
static int n, maxn;
static int g_i; static size_t g_off;	/* first unsent byte: in buffer g_i at g_off */
static int g_failed, g_active;

ssize_t sendmsg(int fd, const struct msghdr *msg, int flags)
{
	size_t done = 0;
	int i, first, i2;
	__sa_check(g_active, "C03.send-outside", "sendmsg outside of a write");
	__sa_check(!g_failed, "C03.after-error", "another send is attempted after a send failed");
	__sa_check(g_i < n, "C03.idle", "another send is made although every byte has been sent");
	/* what is offered is exactly what has not been sent yet */
	size_t m = msg->msg_iovlen;
	__sa_check(m <= (size_t)n, "C03.descriptor-count", "the message has more buffers than remain to be sent");
	if (m > (size_t)n) __sa_stop();
	first = n - (int)m;
	/* buffers that are used up may still be named as long as nothing of them is left */
	for (i = first; i < n; i++) {
		size_t off = i < g_i ? len[i] : i == g_i ? g_off : 0;
		__sa_check(msg->msg_iov[i - first].iov_len == len[i] - off, "C03.length", "what the message offers of a buffer is not what remains unsent of it");
		if (len[i] - off != 0)
			__sa_check(msg->msg_iov[i - first].iov_base == base[i] + off, "C03.position", "what the message offers of a buffer does not start at its first unsent byte");
	}
	for (i = 0; i < first; i++)
		__sa_check(i < g_i || len[i] == (i == g_i ? g_off : 0), "C03.skipped", "a buffer with unsent bytes is left out of the message");
	int k = __sa_choice(3);
	if (k == 0) { errno = EINTR; return -1; }
	if (k == 1) { int e = __sa_range(1, 200); __sa_assume(e != EINTR); errno = e; g_failed = 1; return -1; }
	/* the kernel accepts any prefix of what is offered */
	i2 = g_i + __sa_choice(maxn + 1);
	if (i2 > n) __sa_stop();
	if (i2 == g_i) {
		size_t off2 = 0;
		if (i2 < n) {
			off2 = __sa_size();
			__sa_assume(off2 >= g_off && off2 < len[i2]);
			done = off2 - g_off;
			g_off = off2;
		}
	} else {
		done = len[g_i] - g_off;
		for (i = g_i + 1; i < i2; i++) done += len[i];
		g_i = i2; g_off = 0;
		if (i2 < n) {
			g_off = __sa_size();
			__sa_assume(g_off < len[i2]);
			done += g_off;
		}
	}
	return (ssize_t)done;
}

static void transport(void)
{
	fstrm_res r = fstrm_rdwr_open(the_rdwr);
	if (r != fstrm_res_success) return;
	n = __sa_choice(maxn) + 1;
	for (int i = 0; i < n; i++) {
		base[i] = __sa_nzptr();
		len[i] = __sa_range(0, (long)1 << 60);
		iov[i].iov_base = base[i]; iov[i].iov_len = len[i];
	}
	g_i = 0; g_off = 0;
	g_active = 1;
	r = fstrm_rdwr_write(the_rdwr, iov, n);
	g_active = 0;
	if (r == fstrm_res_success) {
		__sa_check(!g_failed, "C03.error-reported", "success is reported although a send failed");
		for (int i = 0; i < n; i++)
			__sa_check(i < g_i || len[i] == (i == g_i ? g_off : 0), "C03.all-sent", "success is reported although bytes remain unsent");
		__sa_reach("C03.success");
	} else {
		__sa_check(g_failed, "C03.failure-cause", "the write fails although no send failed");
		__sa_reach("C03.failure");
	}
}

static void tcp(void)
{
	struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
	fstrm_tcp_writer_options_set_socket_address(o, "127.0.0.1");
	fstrm_tcp_writer_options_set_socket_port(o, "1");
	if (!fstrm_tcp_writer_init(o, NULL)) return;
	transport();
}
static void unix_(void)
{
	struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
	fstrm_unix_writer_options_set_socket_path(o, "/s");
	if (!fstrm_unix_writer_init(o, NULL)) return;
	transport();
}
void check_tcp(void) { maxn = 3; tcp(); }
void check_unix(void) { maxn = 3; unix_(); }
void check_tcp_4(void) { maxn = 4; tcp(); }
void check_unix_4(void) { maxn = 4; unix_(); }
