/* Vocabulary of the analysis drivers.  Drivers are never executed: they are compiled to IR and
 * interpreted abstractly together with the library. */
#ifndef SA_H
#define SA_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/types.h>
int __sa_int(void);
unsigned __sa_uint(void);
size_t __sa_size(void);
ssize_t __sa_ssize(void);
size_t __sa_skolem(void);
long __sa_range(long, long);
size_t __sa_pow2(long, long);
int __sa_bool(void);
int __sa_choice(int n);
void *__sa_ptr(void);
void *__sa_nzptr(void);
void *__sa_tptr(void);
void *__sa_obj(size_t);
void *__sa_heap(size_t);
char *__sa_cstring(void);
void __sa_havoc(void *, size_t);
void __sa_assume(int);
void __sa_check(int, const char *, const char *);
void __sa_fail(const char *, const char *);
void __sa_reach(const char *);
void __sa_stop(void);
void __sa_opt(const char *, int);
void __sa_guard(void *, void *, const char *);
void __sa_watch(void *, int);
void __sa_pin(void *);
void __sa_tag(void *, int);	/* log the code's accesses to this object, by role (`phase`) and locks (`mx_held`) */
void __sa_track(void *, size_t);
int __sa_same_block(const void *, const void *, size_t);
int __sa_live_heap(void);
int __sa_alive(const void *);
void __sa_no_leak(const char *);
void __sa_valid(const void *, size_t);
/* sum of the k fields of `size` bytes at p, p+stride, ... of an unmodified array */
size_t __sa_sum(const void *p, size_t stride, size_t size, size_t k);
/* a view of the content an object had when it was created */
void *__sa_mirror(const void *p);
/* joins keep: *s - (sum of the first *i fields) is what it is */
void __sa_relate_sum(size_t *s, const void *p, size_t stride, size_t size, int *i);
void __sa_show(const char *, ...);
#endif
