/* C22: the growable arrays (VECTOR_GENERATE, ubuf) against an ideal sequence, for any order of operations. */
#include "sa.h"
#include <string.h>
#include <stdlib.h>
#include "libmy/ubuf.h"
VECTOR_GENERATE(lvec, long)
typedef struct { size_t len, data; } rec;
VECTOR_GENERATE(rvec, rec)
#define MAXN 4

static uint8_t any_ubuf(void) { return (uint8_t) __sa_range(0, 255); }
static long any_lvec(void) { return (long) __sa_ssize(); }
static rec any_rvec(void) { rec r = { __sa_size(), __sa_size() }; return r; }
static int same_ubuf(uint8_t a, uint8_t b) { return a == b; }
static int same_lvec(long a, long b) { return a == b; }
static int same_rvec(rec a, rec b) { return a.len == b.len && a.data == b.data; }
static unsigned hint; static size_t n;

#define CLIENT(V, T) \
static V *V##_a; static T V##_ref[MAXN], V##_tmp[MAXN]; \
static void V##_like(void) \
{ \
	__sa_check(V##_size(V##_a) == n && V##_bytes(V##_a) == n * sizeof(T), "C22.count", "an array reports another number of elements than it was given"); \
	__sa_check(V##_ptr(V##_a) == V##_data(V##_a) + n, "C22.cursor", "the write cursor is not at the element count"); \
	if (n) __sa_valid(V##_data(V##_a), n * sizeof(T)); \
	for (size_t i = 0; i < n; i++) { \
		__sa_check(same_##V(V##_data(V##_a)[i], V##_ref[i]), "C22.content", "an element stored earlier is not what it was"); \
		__sa_check(same_##V(V##_value(V##_a, i), V##_ref[i]), "C22.content", "an element stored earlier is not what it was"); \
	} \
} \
static void V##_op_add(void) \
{ \
	if (n == MAXN) __sa_stop(); \
	T e = any_##V(); \
	V##_add(V##_a, e); V##_ref[n++] = e; \
	__sa_reach("C22.added"); \
} \
static void V##_op_append(void) \
{ \
	size_t m = (size_t) __sa_choice(MAXN + 1); \
	if (n + m > MAXN) __sa_stop(); \
	for (size_t i = 0; i < m; i++) V##_tmp[i] = any_##V(); \
	V##_append(V##_a, V##_tmp, m); \
	for (size_t i = 0; i < m; i++) V##_ref[n++] = V##_tmp[i]; \
	__sa_reach("C22.appended"); \
} \
static void V##_op_reserve(void) \
{ \
	size_t m = (size_t) __sa_choice(MAXN + 1); \
	if (n + m > MAXN) __sa_stop(); \
	V##_reserve(V##_a, m); \
	V##_like(); \
	if (m) __sa_valid(V##_ptr(V##_a), m * sizeof(T)); \
	size_t w = (size_t) __sa_choice((int) m + 1); \
	for (size_t i = 0; i < w; i++) { T e = any_##V(); V##_ptr(V##_a)[i] = e; V##_ref[n + i] = e; } \
	V##_advance(V##_a, w); \
	n += w; \
	__sa_reach("C22.reserved"); \
} \
static void V##_op_clip(void) \
{ \
	size_t m = (size_t) __sa_choice(MAXN + 1); \
	V##_clip(V##_a, m); \
	if (m < n) n = m; \
	__sa_reach("C22.clipped"); \
} \
static void V##_op_detach(void) \
{ \
	T *out = NULL; size_t outsz = 77; \
	V##_detach(V##_a, &out, &outsz); \
	__sa_check(outsz == n && out != V##_data(V##_a), "C22.detach", "detach does not hand the elements over"); \
	for (size_t i = 0; i < n; i++) __sa_check(same_##V(out[i], V##_ref[i]), "C22.detach", "detach does not hand the elements over"); \
	free(out); n = 0; \
	__sa_reach("C22.detached"); \
} \
static void V##_op_extend(void) \
{ \
	if (n + 2 > MAXN) __sa_stop(); \
	V *w = V##_init(1 + hint); \
	for (size_t i = 0; i < 2; i++) { V##_tmp[i] = any_##V(); V##_add(w, V##_tmp[i]); } \
	V##_extend(V##_a, w); \
	for (size_t i = 0; i < 2; i++) V##_ref[n++] = V##_tmp[i]; \
	V##_destroy(&w); \
	__sa_check(w == NULL, "C22.destroy", "destroy leaves the handle set"); \
	__sa_reach("C22.extended"); \
} \
static void V##_client(void) \
{ \
	V##_a = V##_init(hint); \
	__sa_check(V##_a != NULL, "C22.init", "an array cannot be created"); \
	V##_like(); \
	for (;;) { \
		int k = __sa_choice(7); \
		if (k == 0) V##_op_add(); \
		else if (k == 1) V##_op_append(); \
		else if (k == 2) V##_op_reserve(); \
		else if (k == 3) { V##_reset(V##_a); n = 0; __sa_reach("C22.reset"); } \
		else if (k == 4) V##_op_clip(); \
		else if (k == 5) V##_op_detach(); \
		else if (k == 6) V##_op_extend(); \
		else break; \
		V##_like(); \
		for (size_t i = n; i < MAXN; i++) V##_ref[i] = any_##V(); \
		memset(V##_tmp, 0, sizeof V##_tmp); \
		if (__sa_bool()) break; \
	} \
	V##_destroy(&V##_a); \
	__sa_check(V##_a == NULL, "C22.destroy", "destroy leaves the handle set"); \
	__sa_no_leak("C22.destroy"); \
	V##_destroy(&V##_a); \
	__sa_reach("C22.destroyed"); \
}
CLIENT(ubuf, uint8_t)
CLIENT(lvec, long)
CLIENT(rvec, rec)

void check_ubuf_0(void) { hint = 0; ubuf_client(); }
void check_ubuf_1(void) { hint = 1; ubuf_client(); }
void check_ubuf_2(void) { hint = 2; ubuf_client(); }
void check_ubuf_3(void) { hint = 3; ubuf_client(); }
void check_ubuf_5(void) { hint = 5; ubuf_client(); }
void check_lvec_1(void) { hint = 1; lvec_client(); }
void check_rvec_1(void) { hint = 1; rvec_client(); }
void check_rvec_2(void) { hint = 2; rvec_client(); }

/* any sizes: nothing outside of the allocation, and room for what was asked for */
#define BIG ((size_t) 1 << 40)
#define ANY(V, T) \
static void V##_like_any(V *v) \
{ \
	__sa_check(V##_size(v) == n && V##_bytes(v) == n * sizeof(T), "C22.count", "an array reports another number of elements than it was given"); \
	__sa_check(V##_ptr(v) == V##_data(v) + n, "C22.cursor", "the write cursor is not at the element count"); \
	__sa_valid(V##_data(v), n * sizeof(T)); \
} \
static V *V##_grown(void) \
{ \
	V *v = V##_init((unsigned) __sa_range(0, 1l << 30)); \
	V##_like_any(v); \
	size_t m = (size_t) __sa_range(0, (long) BIG); \
	V##_reserve(v, m); \
	V##_like_any(v); \
	__sa_valid(V##_ptr(v), m * sizeof(T)); \
	n = (size_t) __sa_range(0, (long) BIG); \
	__sa_assume(n <= m); \
	V##_advance(v, n); \
	V##_like_any(v); \
	return v; \
} \
static void V##_any(int k) \
{ \
	n = 0; \
	V *v = V##_grown(); \
	size_t m = (size_t) __sa_range(0, (long) BIG); \
	if (k == 0) { V##_add(v, any_##V()); n++; } \
	else if (k == 1) { V##_append(v, __sa_obj(m * sizeof(T)), m); n += m; } \
	else if (k == 2) { V##_reserve(v, m); __sa_valid(V##_ptr(v), m * sizeof(T)); } \
	else if (k == 3) { V##_reset(v); n = 0; } \
	else if (k == 4) { V##_clip(v, m); if (m < n) n = m; } \
	else { T *out; size_t outsz; V##_detach(v, &out, &outsz); __sa_check(outsz == n, "C22.detach", "detach does not hand the elements over"); free(out); n = 0; } \
	V##_like_any(v); \
	if (k != 2) V##_add(v, any_##V()); \
	V##_destroy(&v); \
	__sa_no_leak("C22.destroy"); \
}
ANY(ubuf, uint8_t)
ANY(lvec, long)
ANY(rvec, rec)
/* an array made with any hint can grow */
void check_hint_0(void)
{
	lvec *v = lvec_init((unsigned) __sa_choice(2));
	size_t m; long *out;
	switch (__sa_choice(4)) {
	case 0: lvec_add(v, 1); __sa_check(lvec_size(v) == 1, "C22.count", "an element is not added"); break;
	case 1: lvec_reserve(v, 3); __sa_valid(lvec_ptr(v), 3 * sizeof(long)); break;
	case 2: lvec_detach(v, &out, &m); my_free(out); lvec_add(v, 2); __sa_check(lvec_size(v) == 1, "C22.count", "an element is not added"); break;
	case 3: lvec_add(v, 1); my_free(v->_v); lvec_reinit((unsigned) __sa_choice(2), v); lvec_add(v, 2); __sa_check(lvec_size(v) == 1, "C22.count", "an element is not added"); break;
	}
	lvec_destroy(&v);
	__sa_reach("C22.hint-0");
}
void check_any_ubuf_add(void) { ubuf_any(0); }
void check_any_ubuf_append(void) { ubuf_any(1); }
void check_any_ubuf_reserve(void) { ubuf_any(2); }
void check_any_ubuf_reset(void) { ubuf_any(3); }
void check_any_ubuf_clip(void) { ubuf_any(4); }
void check_any_ubuf_detach(void) { ubuf_any(5); }
void check_any_lvec_add(void) { lvec_any(0); }
void check_any_lvec_append(void) { lvec_any(1); }
void check_any_lvec_reserve(void) { lvec_any(2); }
void check_any_lvec_reset(void) { lvec_any(3); }
void check_any_lvec_clip(void) { lvec_any(4); }
void check_any_lvec_detach(void) { lvec_any(5); }
void check_any_rvec_add(void) { rvec_any(0); }
void check_any_rvec_append(void) { rvec_any(1); }
void check_any_rvec_reserve(void) { rvec_any(2); }
void check_any_rvec_reset(void) { rvec_any(3); }
void check_any_rvec_clip(void) { rvec_any(4); }
void check_any_rvec_detach(void) { rvec_any(5); }

/* the string helpers */
static int fmt_len;
int sa_vsnprintf(char *buf, size_t size, const char *fmt, void *ap) __asm__("vsnprintf");
int sa_vsnprintf(char *buf, size_t size, const char *fmt, void *ap)
{
	if (size) {
		__sa_valid(buf, size);
		__sa_check(size > (size_t) fmt_len, "C22.string", "formatted text is cut off");
		for (int i = 0; i < fmt_len; i++) buf[i] = 'f';
		buf[fmt_len] = 0;
	}
	return fmt_len;
}
static void is(ubuf *u, const char *s, size_t len)
{
	__sa_check(ubuf_size(u) == len && ubuf_ptr(u) == ubuf_data(u) + len, "C22.string", "a string buffer does not hold what was put into it");
	for (size_t i = 0; i < len; i++) __sa_check(ubuf_value(u, i) == (uint8_t) s[i], "C22.string", "a string buffer does not hold what was put into it");
}
void check_strings(void)
{
	ubuf *u = ubuf_dup_cstr("abc");
	is(u, "abc", 3);
	ubuf_cterm(u); is(u, "abc", 4);
	ubuf_cterm(u); is(u, "abc", 4);
	ubuf_add_cstr(u, "defgh"); is(u, "abcdefgh", 8);
	__sa_check(ubuf_cstr(u) == (char *) ubuf_data(u), "C22.string", "the string is not the buffer's content");
	is(u, "abcdefgh", 9);
	ubuf_rstrip(u, 'h'); is(u, "abcdefgh", 9);
	ubuf_rstrip(u, 0); is(u, "abcdefgh", 8);
	fmt_len = __sa_choice(12);
	ubuf_add_fmt(u, "%d", 1); is(u, "abcdefghfffffffffff", 8 + (size_t) fmt_len);
	ubuf_destroy(&u);
	u = ubuf_new(); ubuf_cterm(u); is(u, "", 1);
	fmt_len = 2; ubuf_add_fmt(u, "%d", 1); is(u, "ff", 2);
	ubuf_reset(u); is(u, "", 0); ubuf_rstrip(u, 'f'); is(u, "", 0);
	ubuf_destroy(&u);
	__sa_no_leak("C22.destroy");
	__sa_reach("C22.strings");
}
