/* C02: what a write hands to the transport, payload by payload. */
#include "ctl.h"

static int ct_index(const uint8_t *data, size_t len) { return 0; }
static void on_match(const struct fstrm_control *c, int idx, bool yes) { }
static int data_phase(void) { return 0; }
static size_t data_max(void) { return 0; }
static void on_data_read(void *data, size_t n) { }
static void before_read(void) { }
static void before_write(int type) { if (type == 0) __sa_check(1, "C02.batch", "a batch of data frames"); }
static void on_control_sent(int type, unsigned mask, fstrm_res res) { }
static void on_control_received(int type, unsigned mask) { }

#define MAXN 400
static char *base[MAXN]; static size_t len[MAXN];	/* the caller's payloads */
static int n;
static int done;		/* payloads handed over so far */
static int batches;
static int in_call;

static void on_data_write(const struct iovec *iov, int cnt, fstrm_res res)
{
	__sa_check(in_call, "C02.when", "a data frame is written outside of a write call");
	__sa_check(cnt > 0 && cnt % 2 == 0, "C02.pairs", "a batch does not consist of pairs of length and payload");
	__sa_check(done + cnt / 2 <= n, "C02.once", "more frames are written than there are payloads");
	if (done + cnt / 2 > n) __sa_stop();
	for (int j = 0; j < cnt / 2; j++) {
		uint32_t be;
		__sa_check(iov[2 * j + 1].iov_base == base[done + j] && iov[2 * j + 1].iov_len == len[done + j], "C02.payload", "the payload handed to the transport is not the caller's, at its place");
		__sa_check(iov[2 * j].iov_len == 4, "C02.prefix-size", "the length prefix is not 4 bytes");
		memcpy(&be, iov[2 * j].iov_base, 4);
		__sa_check(ntohl(be) == len[done + j], "C02.prefix", "the length prefix is not the payload's length in network order");
	}
	done += cnt / 2;
	batches = batches ? 2 : 1;
}

static struct fstrm_writer *opened(void)
{
	struct fstrm_rdwr *rdwr = make_rdwr(0, 1);
	struct fstrm_writer *w = fstrm_writer_init(NULL, &rdwr);
	fresh_model();
	__sa_assume(fstrm_writer_open(w) == fstrm_res_success);
	fresh_model();
	return w;
}

static void writev_n(int count, size_t max)
{
	static struct iovec iov[MAXN];
	fstrm_res r;
	struct fstrm_writer *w = opened();
	int bad = 0;
	n = count;
	for (int i = 0; i < n; i++) {
		base[i] = __sa_nzptr();
		if (max) len[i] = __sa_range(1, UINT32_MAX);
		else {
			len[i] = __sa_size();
			/* kept apart: a hull of both would admit the valid lengths */
			if (len[i] < 1) bad += 1 << i;
			if (len[i] > UINT32_MAX) bad += 8 << i;
		}
		iov[i].iov_base = base[i]; iov[i].iov_len = len[i];
	}
	in_call = 1;
	r = fstrm_writer_writev(w, iov, n);
	in_call = 0;
	if (bad) {
		__sa_check(r != fstrm_res_success && !g_traffic, "C02.refused", "a payload no data frame can represent is not refused");
		__sa_reach("C02.refused");
	}
	if (r == fstrm_res_success) {
		__sa_check(!g_failed, "C02.success", "success is reported although a batch failed");
		__sa_check(done == n, "C02.all", "success is reported although not every payload was handed over");
		__sa_reach("C02.success");
		if (batches == 2) __sa_reach("C02.several-batches");
	} else
		__sa_check(bad || g_failed, "C02.accepted", "valid payloads are refused although nothing failed");
}
void check_writev_any(void) { writev_n(1 + __sa_choice(3), 0); }
void check_writev_full(void) { writev_n(127 + __sa_choice(3), 1); }
void check_writev_two(void) { writev_n(256 + __sa_choice(2), 1); }
void check_writev_three(void) { writev_n(385, 1); }

/* one payload that no data frame can represent, anywhere in the batch: nothing is written */
static void writev_bad(int count, int at, int huge)
{
	static struct iovec iov[MAXN];
	fstrm_res r;
	struct fstrm_writer *w = opened();
	n = count;
	for (int i = 0; i < n; i++) {
		base[i] = __sa_nzptr(); len[i] = __sa_range(1, UINT32_MAX);
		if (i == at) {
			len[i] = 0;
			if (huge) len[i] = __sa_range((long)UINT32_MAX + 1, LONG_MAX);
		}
		iov[i].iov_base = base[i]; iov[i].iov_len = len[i];
	}
	in_call = 1;
	r = fstrm_writer_writev(w, iov, n);
	in_call = 0;
	__sa_check(r != fstrm_res_success && !g_traffic, "C02.refused", "a payload no data frame can represent is not refused");
}
static void bad_full(int huge) { int n = 127 + __sa_choice(3); int k = __sa_choice(6); writev_bad(n, k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 63 : n - k + 2, huge); }
static void bad_more(int huge)
{
	int k = __sa_choice(9);
	if (k < 5) writev_bad(257, k == 0 ? 0 : k == 1 ? 127 : k == 2 ? 128 : k == 3 ? 255 : 256, huge);
	else writev_bad(385, k == 5 ? 128 : k == 6 ? 256 : k == 7 ? 300 : 384, huge);
}
void check_bad_full_0(void) { bad_full(0); }
void check_bad_full_1(void) { bad_full(1); }
void check_bad_more_0(void) { bad_more(0); }
void check_bad_more_1(void) { bad_more(1); }

void check_write(void)
{
	fstrm_res r;
	struct fstrm_writer *w = opened();
	size_t l = __sa_size();
	n = 1; base[0] = __sa_nzptr(); len[0] = l;
	in_call = 1;
	r = fstrm_writer_write(w, base[0], l);
	in_call = 0;
	if (l < 1 || l > UINT32_MAX)
		__sa_check(r != fstrm_res_success && !g_traffic, "C02.refused", "a payload no data frame can represent is not refused");
	else
		__sa_check(done == 1, "C02.accepted", "a valid payload is not handed over");
	__sa_check((r == fstrm_res_success) == (done == 1 && !g_failed), "C02.success", "the result is not that of the transport");
	if (r == fstrm_res_success) __sa_check(done == 1, "C02.all", "success is reported although the payload was not handed over");
	/* nothing to write */
	in_call = 0;
	if (__sa_bool()) { fresh_model(); (void)fstrm_writer_writev(w, NULL, (int) __sa_range(INT_MIN, 0)); __sa_check(!g_traffic, "C02.nothing", "an empty batch is written"); }
}
