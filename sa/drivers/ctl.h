/* Model of control frames and of a transport, shared by the protocol drivers (C08-C11).
 * The control object is abstract (its real implementation is decided by C05-C07); what the library
 * does with it and with the transport is observed. */
#ifndef CTL_H
#define CTL_H
#include "sa.h"
#include "fstrm-private.h"

#ifndef NCT
#define NCT 0
#endif

struct fstrm_control {
	int type;		/* 0: none */
	unsigned mask;		/* content types named: bit i for the i-th configured one */
};

static char the_obj[8];
static int t_open;		/* the transport is open */
static int t_has_read, t_has_write;
static int t_closes;		/* close calls during the current API call */
static int g_failed;		/* a step of the current API call has failed */
static int g_traffic;		/* the current API call reached the transport's read or write method */

/* the control frame being written */
static void *enc_ptr; static size_t enc_len; static int enc_type; static unsigned enc_mask;
static size_t ann_len; static const struct fstrm_control *ann_ctl;
/* the control frame being read */
static struct fstrm_control *last_decoded;
static int rd_step; static uint32_t rd_word; static void *rd_ptr; static size_t rd_len;
static void put_be32(void *data)
{
	rd_word = (uint32_t) __sa_range(0, UINT32_MAX);
	uint32_t be = htonl(rd_word);
	memcpy(data, &be, 4);
}

static void on_control_sent(int type, unsigned mask, fstrm_res res);
static void on_control_received(int type, unsigned mask);
static void on_data_write(const struct iovec *iov, int cnt, fstrm_res res);
static void on_match(const struct fstrm_control *c, int idx, bool yes);
static void before_write(int type);	/* type 0: data */
static void before_read(void);
static int data_phase(void);		/* data frames may come */
static size_t data_max(void);
static void on_data_read(void *data, size_t n);

static fstrm_res any_res(void) { return (fstrm_res)__sa_range(0, 100); }

static void forget_decoded(void)
{
	if (last_decoded != NULL) {
		last_decoded->type = (int) __sa_range(0, 5);
		last_decoded->mask = NCT ? (unsigned) __sa_range(0, (1 << NCT) - 1) : 0;
		last_decoded = NULL;
	}
}
/* ---- control objects ---- */
struct fstrm_control *fstrm_control_init(void)
{
	struct fstrm_control *c = __sa_heap(sizeof(*c));
	c->type = (int) __sa_range(0, 5);	/* unspecified until it is set */
	c->mask = 0;
	return c;
}
void fstrm_control_destroy(struct fstrm_control **c)
{
	if (*c != NULL) {
		if (*c == last_decoded) last_decoded = NULL;
		free(*c);
		*c = NULL;
	}
}
void fstrm_control_reset(struct fstrm_control *c)
{
	c->type = (int) __sa_range(0, 5);
	c->mask = 0;
}
fstrm_res fstrm_control_set_type(struct fstrm_control *c, fstrm_control_type t)
{
	if ((int)t < 1 || (int)t > 5) { g_failed = 1; return fstrm_res_failure; }
	c->type = t;
	return fstrm_res_success;
}
fstrm_res fstrm_control_get_type(const struct fstrm_control *c, fstrm_control_type *t)
{
	if (c->type == 0) { g_failed = 1; return fstrm_res_failure; }
	*t = c->type;
	return fstrm_res_success;
}
static int ct_index(const uint8_t *data, size_t len);
fstrm_res fstrm_control_add_field_content_type(struct fstrm_control *c, const uint8_t *data, size_t len)
{
	int i = ct_index(data, len);
	if (__sa_bool()) { g_failed = 1; return fstrm_res_failure; }
	c->mask |= 1u << i;
	return fstrm_res_success;
}
fstrm_res fstrm_control_match_field_content_type(const struct fstrm_control *c, const uint8_t *data, size_t len)
{
	int i = ct_index(data, len);
	bool yes = (c->mask >> i) & 1;
	on_match(c, i, yes);
	return yes ? fstrm_res_success : fstrm_res_failure;
}
fstrm_res fstrm_control_encoded_size(const struct fstrm_control *c, size_t *len, const uint32_t flags)
{
	__sa_check(flags == FSTRM_CONTROL_FLAG_WITH_HEADER, "ctl.header", "a control frame is sized without its header");
	if (__sa_bool()) { g_failed = 1; return fstrm_res_failure; }
	*len = (size_t) __sa_range(12, 1 << 20);
	ann_len = *len; ann_ctl = c;
	return fstrm_res_success;
}
fstrm_res fstrm_control_encode(const struct fstrm_control *c, void *buf, size_t *len, const uint32_t flags)
{
	__sa_check(flags == FSTRM_CONTROL_FLAG_WITH_HEADER, "ctl.header", "a control frame is encoded without its header");
	__sa_check(ann_ctl == c && *len >= ann_len, "ctl.size", "a control frame is encoded into a buffer not sized for it");
	__sa_valid(buf, *len);
	if (__sa_bool() || c->type == 0) { g_failed = 1; return fstrm_res_failure; }
	*len = ann_len;
	enc_ptr = buf; enc_len = ann_len; enc_type = c->type; enc_mask = c->mask;
	return fstrm_res_success;
}
fstrm_res fstrm_control_decode(struct fstrm_control *c, const void *buf, size_t len, const uint32_t flags)
{
	__sa_check(flags == 0, "ctl.noheader", "a control frame's payload is decoded as if it had a header");
	__sa_check(rd_step == 3 && buf == rd_ptr && len == rd_len, "ctl.decode-input", "what is decoded is not the control frame just read");
	__sa_check(rd_len == rd_word, "ctl.decode-length", "the control frame read does not have its announced length");
	rd_step = 0; rd_ptr = NULL;
	if (last_decoded != c) { forget_decoded(); last_decoded = c; }
	c->type = (int) __sa_range(1, 5);
	c->mask = 0;
	if (__sa_bool()) { g_failed = 1; return fstrm_res_failure; }
#if NCT > 0
	if (__sa_bool()) c->mask |= 1;
#endif
#if NCT > 1
	if (__sa_bool()) c->mask |= 2;
#endif
#if NCT > 2
	if (__sa_bool()) c->mask |= 4;
#endif
	on_control_received(c->type, c->mask);
	return fstrm_res_success;
}

/* ---- the transport ---- */
static fstrm_res m_open(void *obj)
{
	fstrm_res r = any_res();
	__sa_check(obj == the_obj && !t_open, "ctl.open", "transport opened twice");
	if (r == fstrm_res_success) t_open = 1; else g_failed = 1;
	rd_step = 0; enc_ptr = NULL;
	return r;
}
static fstrm_res t_close_res;
static fstrm_res m_close(void *obj)
{
	__sa_check(obj == the_obj && t_open, "ctl.close-once", "the transport's close method is invoked although it is not open");
	t_open = 0;
	t_closes = 1;
	t_close_res = any_res();
	return t_close_res;
}
/* reads: a 4-byte word; if it is zero a control frame follows (4-byte length, payload), else it is
 * the length of a data frame where one may come */
static fstrm_res m_read(void *obj, void *data, size_t count)
{
	fstrm_res r = any_res();
	before_read();
	g_traffic = 1;
	__sa_check(obj == the_obj && t_open, "ctl.read-open", "read method invoked on a transport that is not open");
	__sa_check(!g_failed, "ctl.nothing-after-failure", "the transport is read after an earlier step has failed");
	__sa_valid(data, count);
	__sa_havoc(data, count);
	if (r != fstrm_res_success) { g_failed = 1; rd_step = 0; return r; }
	if (rd_step == 0) {
		__sa_check(count == 4, "ctl.word-read", "a frame is not read starting with its 4-byte length or escape");
		put_be32(data);
		if (rd_word == 0) rd_step = 1;
		else if (data_phase()) { if (rd_word > data_max()) g_failed = 1; rd_step = 4; }
		else g_failed = 1;
	} else if (rd_step == 1) {
		__sa_check(count == 4, "ctl.length-read", "the length of the control frame is not read as 4 bytes");
		put_be32(data);
		if (rd_word > FSTRM_CONTROL_FRAME_LENGTH_MAX) g_failed = 1;
		rd_step = 2;
	} else if (rd_step == 2) {
		__sa_check(count == rd_word, "ctl.payload-read", "the control frame is not read with its announced length");
		__sa_check(count <= FSTRM_CONTROL_FRAME_LENGTH_MAX, "ctl.length-limit", "a control frame above the length limit is read");
		rd_ptr = data; rd_len = count; rd_step = 3;
	} else {
		__sa_check(rd_step == 4, "ctl.order", "something is read between a control frame and its decoding");
		__sa_check(count == rd_word, "ctl.data-read", "the data frame is not read with its announced length");
		rd_ptr = data; rd_len = count; rd_step = 0;
		on_data_read(data, count);
	}
	return r;
}
static fstrm_res m_write(void *obj, const struct iovec *iov, int cnt)
{
	fstrm_res r = any_res();
	g_traffic = 1;
	__sa_check(obj == the_obj && t_open, "ctl.write-open", "write method invoked on a transport that is not open");
	__sa_check(!g_failed, "ctl.nothing-after-failure", "the transport is written after an earlier step has failed");
	if (enc_ptr != NULL) {
		__sa_check(cnt == 1 && iov[0].iov_base == enc_ptr && iov[0].iov_len == enc_len, "ctl.frame-written", "what is written is not the encoded control frame");
		enc_ptr = NULL;
		before_write(enc_type);
		if (r != fstrm_res_success) g_failed = 1;
		on_control_sent(enc_type, enc_mask, r);
	} else {
		before_write(0);
		if (r != fstrm_res_success) g_failed = 1;
		on_data_write(iov, cnt, r);
	}
	return r;
}
static fstrm_res m_destroy(void *obj)
{
	__sa_check(obj == the_obj && !t_open, "ctl.destroy", "the transport is destroyed while it is open");
	return any_res();
}
/* forget what earlier API calls left behind */
static void fresh_model(void)
{
	g_failed = 0; g_traffic = 0; t_closes = 0; t_close_res = 0;
	enc_ptr = NULL; enc_len = 0; enc_type = 0; enc_mask = 0; ann_len = 0; ann_ctl = NULL;
	if (!t_open) rd_step = 0;
	forget_decoded();
	rd_word = 0; rd_ptr = NULL; rd_len = 0;
}
static struct fstrm_rdwr *make_rdwr(int bidir_read, int bidir_write)
{
	struct fstrm_rdwr *rdwr = fstrm_rdwr_init(the_obj);
	t_has_read = bidir_read; t_has_write = bidir_write;
	fstrm_rdwr_set_open(rdwr, m_open);
	fstrm_rdwr_set_close(rdwr, m_close);
	fstrm_rdwr_set_destroy(rdwr, m_destroy);
	if (bidir_read) fstrm_rdwr_set_read(rdwr, m_read);
	if (bidir_write) fstrm_rdwr_set_write(rdwr, m_write);
	return rdwr;
}
#endif

