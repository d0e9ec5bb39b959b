/* C20: sockets never leak, never raise SIGPIPE and are not inherited.
 * Most general client of the two socket transports over a kernel that may refuse anything. */
#include "sa.h"
#include "env.h"
#include <fcntl.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <sys/uio.h>
#include <arpa/inet.h>
#include "fstrm-private.h"

static struct fstrm_rdwr *the_rdwr;
struct fstrm_writer *fstrm_writer_init(const struct fstrm_writer_options *wopt, struct fstrm_rdwr **rdwr)
{
	the_rdwr = *rdwr; *rdwr = NULL;
	return __sa_nzptr();
}

/* ---- descriptors */
static int g_fd, g_live, g_cloexec, g_connected, g_sent;
static int want_family;
/* ---- addresses */
static char *g_addr, *g_port, *g_path;
static size_t g_pathlen, T;
static int g_v4, g_v6, g_port_ok;
static uint32_t g_ip4; static uint64_t g_ip6a, g_ip6b;
static unsigned long g_portno;

#define MINE(fd) ((fd) == g_fd && g_live)

int socket(int domain, int type, int protocol)
{
	__sa_check(!g_live, "C20.leak", "a socket is created while an earlier one is still open");
	__sa_check((type & 0xf) == SOCK_STREAM, "C20.socket-type", "not a stream socket");
	__sa_check(domain == want_family, "C20.family", "the socket is of another family than the address");
	if (__sa_bool()) { errno = __sa_range(1, 133); return -1; }
	g_fd = __sa_range(0, 2147483647); g_live = 1; g_connected = 0;
	g_cloexec = (type & SOCK_CLOEXEC) != 0;
	return g_fd;
}
int sa_fcntl(int fd, int cmd, long arg) __asm__("fcntl");
int sa_fcntl(int fd, int cmd, long arg)
{
	__sa_check(MINE(fd), "C20.descriptor", "fcntl on a descriptor that is not the transport's open socket");
	if (cmd == F_GETFD) return g_cloexec ? FD_CLOEXEC : 0;
	if (cmd == F_SETFD) {
		if (__sa_bool()) { g_cloexec = arg & FD_CLOEXEC; return 0; }
		/* marking failed: nothing can be done about it, the attempt is what counts */
		if (arg & FD_CLOEXEC) g_cloexec = 1;
		errno = __sa_range(1, 133);
		return -1;
	}
	return __sa_range(-1, 2147483647);
}
int sa_ioctl(int fd, unsigned long req, long arg) __asm__("ioctl");
int sa_ioctl(int fd, unsigned long req, long arg)
{
	__sa_check(MINE(fd), "C20.descriptor", "ioctl on a descriptor that is not the transport's open socket");
	if (req == 0x5451) g_cloexec = 1;
	return __sa_range(-1, 0);
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t l)
{
	__sa_check(MINE(fd), "C20.descriptor", "setsockopt on a descriptor that is not the transport's open socket");
	return __sa_range(-1, 0);
}
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
	__sa_check(MINE(fd), "C20.descriptor", "connect on a descriptor that is not the transport's open socket");
	__sa_check(a->sa_family == want_family, "C20.address", "the address is of another family than asked for");
	if (want_family == AF_UNIX) {
		const struct sockaddr_un *u = (const void *)a;
		__sa_check(l >= offsetof(struct sockaddr_un, sun_path) + g_pathlen + 1 && l <= sizeof *u, "C20.address", "the address length does not cover the path");
		if (T < g_pathlen) __sa_check(u->sun_path[T] == g_path[T], "C20.address", "the path connected to differs from the configured one");
		if (T == g_pathlen) __sa_check(u->sun_path[T] == 0, "C20.address", "the path connected to is not terminated");
	} else if (want_family == AF_INET) {
		const struct sockaddr_in *i = (const void *)a;
		__sa_check(l == sizeof *i, "C20.address", "wrong address length");
		__sa_check(i->sin_addr.s_addr == g_ip4, "C20.address", "the address connected to differs from the configured one");
		__sa_check(ntohs(i->sin_port) == g_portno, "C20.address", "the port connected to differs from the configured one");
	} else {
		const struct sockaddr_in6 *i = (const void *)a;
		__sa_check(l == sizeof *i, "C20.address", "wrong address length");
		__sa_check(*(const uint64_t *)(const void *)&i->sin6_addr == g_ip6a && *((const uint64_t *)(const void *)&i->sin6_addr + 1) == g_ip6b,
			"C20.address", "the address connected to differs from the configured one");
		__sa_check(ntohs(i->sin6_port) == g_portno, "C20.address", "the port connected to differs from the configured one");
	}
	if (__sa_bool()) { errno = __sa_range(1, 133); return -1; }
	g_connected = 1;
	return 0;
}
int close(int fd)
{
	__sa_check(MINE(fd), "C20.close-once", "close of a descriptor that is not the transport's open socket");
	g_live = 0; g_connected = 0;
	return __sa_range(-1, 0);
}
int shutdown(int fd, int how)
{
	__sa_check(MINE(fd), "C20.descriptor", "shutdown on a descriptor that is not the transport's open socket");
	return __sa_range(-1, 0);
}
static ssize_t sent(int fd)
{
	__sa_check(MINE(fd) && g_connected, "C20.descriptor", "data is sent on a descriptor that is not the transport's connected socket");
	g_sent = 1;
	__sa_reach("C20.sent");
	if (__sa_bool()) { errno = __sa_range(1, 133); return -1; }
	return 1;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
	__sa_check((flags & MSG_NOSIGNAL) != 0, "C20.sigpipe", "a send without MSG_NOSIGNAL can raise SIGPIPE");
	return sent(fd);
}
ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l)
{
	__sa_check((flags & MSG_NOSIGNAL) != 0, "C20.sigpipe", "a send without MSG_NOSIGNAL can raise SIGPIPE");
	return sent(fd);
}
ssize_t send(int fd, const void *b, size_t n, int flags)
{
	__sa_check((flags & MSG_NOSIGNAL) != 0, "C20.sigpipe", "a send without MSG_NOSIGNAL can raise SIGPIPE");
	return sent(fd);
}
ssize_t write(int fd, const void *b, size_t n) { __sa_fail("C20.sigpipe", "write() on a socket can raise SIGPIPE"); return sent(fd); }
ssize_t writev(int fd, const struct iovec *v, int n) { __sa_fail("C20.sigpipe", "writev() on a socket can raise SIGPIPE"); return sent(fd); }
ssize_t read(int fd, void *b, size_t n)
{
	__sa_check(MINE(fd) && g_connected, "C20.descriptor", "data is read on a descriptor that is not the transport's connected socket");
	g_sent = 1;
	__sa_reach("C20.received");
	if (__sa_bool()) { errno = __sa_range(1, 133); return -1; }
	ssize_t r = __sa_range(0, 64);
	__sa_assume((size_t)r <= n);
	return r;
}
ssize_t recv(int fd, void *b, size_t n, int flags) { return read(fd, b, n); }

/* ---- address parsing */
int inet_pton(int af, const char *src, void *dst)
{
	if (af == AF_INET) {
		if (!g_v4) return 0;
		__sa_valid(dst, 4);
		*(uint32_t *)dst = g_ip4;
		return 1;
	}
	if (af == AF_INET6) {
		if (!g_v6) return 0;
		__sa_valid(dst, 16);
		((uint64_t *)dst)[0] = g_ip6a; ((uint64_t *)dst)[1] = g_ip6b;
		return 1;
	}
	return -1;
}
static char junk[2];
unsigned long strtoul(const char *s, char **end, int base)
{
	if (end) *end = g_port_ok ? junk + 1 : junk;
	return g_portno;
}
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
long strtol(const char *s, char **end, int base) { return (long)strtoul(s, end, base); }
int atoi(const char *s) { return (int)strtoul(s, 0, 10); }
char *strncpy(char *d, const char *s, size_t n)
{
	size_t l = strlen(s);
	if (l >= n) memcpy(d, s, n);
	else { memcpy(d, s, l); memset(d + l, 0, n - l); }
	return d;
}
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }

static int after_open(fstrm_res r)
{
	if (r == fstrm_res_success) {
		__sa_check(g_live && g_connected, "C20.open-connected", "open reports success without a connected socket");
		__sa_check(g_cloexec, "C20.cloexec", "the socket is not close-on-exec");
		return 1;
	}
	__sa_check(!g_live, "C20.open-leak", "a failed open leaves the socket open");
	return 0;
}

static void client(struct fstrm_rdwr *w)
{
	int open = 0;
	char buf[64]; struct iovec iov[1];
	for (;;) {
		int k = __sa_choice(6);
		g_sent = 0;
		if (!open) g_fd = -1;
		if (k == 0 && !open) {
			open = after_open(fstrm_rdwr_open(w));
			if (open) __sa_reach("C20.opened"); else __sa_reach("C20.open-failed");
		} else if (k == 1) {
			fstrm_res r = fstrm_rdwr_close(w);
			if (open) __sa_reach("C20.closed");
			(void)r;
			open = 0;
			__sa_check(!g_live, "C20.close-leak", "close leaves the socket open");
		} else if (k == 2) {
			size_t n = __sa_range(1, 64);
			fstrm_res r = fstrm_rdwr_read(w, buf, n);
			if (!open) __sa_check(r != fstrm_res_success && !g_sent, "C20.unconnected", "reading from an unconnected transport");
			if (r != fstrm_res_success) { open = 0; __sa_check(!g_live, "C20.close-leak", "the socket stays open after a failed read"); }
		} else if (k == 3) {
			iov[0].iov_base = buf; iov[0].iov_len = 1;
			fstrm_res r = fstrm_rdwr_write(w, iov, 1);
			if (!open) __sa_check(r != fstrm_res_success && !g_sent, "C20.unconnected", "writing to an unconnected transport");
			if (r != fstrm_res_success) { open = 0; __sa_check(!g_live, "C20.close-leak", "the socket stays open after a failed write"); }
		} else if (k == 4)
			break;
	}
	fstrm_rdwr_destroy(&w);
	the_rdwr = NULL;
	__sa_check(!g_live, "C20.destroy-leak", "destroying the transport leaves the socket open");
	__sa_reach("C20.destroyed");
}

void check_tcp(void)
{
	struct fstrm_writer *wr;
	g_v4 = __sa_bool(); g_v6 = __sa_bool(); g_port_ok = __sa_bool();
	g_ip4 = __sa_uint(); g_ip6a = __sa_size(); g_ip6b = __sa_size();
	g_portno = __sa_size();
	if (!g_port_ok) { junk[0] = 'x'; }
	struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
	int ha = __sa_bool(), hp = __sa_bool();
	if (ha) fstrm_tcp_writer_options_set_socket_address(o, __sa_cstring());
	if (hp) fstrm_tcp_writer_options_set_socket_port(o, __sa_cstring());
	wr = fstrm_tcp_writer_init(o, NULL);
	int ok = ha && hp && (g_v4 || g_v6) && g_port_ok && g_portno <= 65535;
	if (wr) __sa_check(ok, "C20.address-refused", "an address or port that does not parse completely or fit is accepted");
	else __sa_check(!ok, "C20.address-accepted", "a proper address and port is refused");
	fstrm_tcp_writer_options_destroy(&o);
	if (!wr) { __sa_no_leak("C20.init-leak"); return; }
	want_family = g_v4 ? AF_INET : AF_INET6;
	client(the_rdwr);
}

void check_unix(void)
{
	struct fstrm_writer *wr;
	T = __sa_skolem();
	want_family = AF_UNIX;
	struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
	int ha = __sa_bool();
	if (ha) {
		g_path = __sa_cstring();
		g_pathlen = strlen(g_path);
		fstrm_unix_writer_options_set_socket_path(o, g_path);
	}
	wr = fstrm_unix_writer_init(o, NULL);
	int ok = ha && g_pathlen <= sizeof(((struct sockaddr_un *)0)->sun_path) - 1;
	if (wr) __sa_check(ok, "C20.address-refused", "a path that does not fit is accepted");
	else __sa_check(!ok, "C20.address-accepted", "a path that fits is refused");
	fstrm_unix_writer_options_destroy(&o);
	if (!wr) { __sa_no_leak("C20.init-leak"); return; }
	client(the_rdwr);
}
