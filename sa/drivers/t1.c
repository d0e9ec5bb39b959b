#include "sa.h"
#include <stdlib.h>
#include <string.h>
struct v { int *p; size_t n, cap; };
void check_a(void) {
	size_t n = __sa_range(1, 1000);
	int *a = malloc(n * 4);
	if (!a) return;
	int *p = a; size_t i, left = n; long sum = 0;
	for (i = 0; i < n; i++) { *p = 7; p++; left--; sum += 3; }
	__sa_check(left == 0, "left", "left");
	__sa_check(sum == 3*(long)n, "sum", "");
	__sa_check(p == a + n, "p", "");
	free(a);
	__sa_no_leak("leak");
}
void check_b(void) {
	size_t n = __sa_range(1, 1000), i;
	size_t *a = __sa_obj(n * 8);
	size_t t = 0, u = 0;
	for (i = 0; i < n; i++) t += a[i];
	size_t k = 0;
	while (k != n) { u += a[k]; k++; }
	__sa_show("tu", n, t, u); __sa_check(t == u, "psum", "");
}
void check_c(void) {
	size_t n = __sa_range(1, 1000), i;
	size_t T = __sa_skolem(); __sa_assume(T < n);
	size_t *a = malloc(n * 8);
	if (!a) return; __sa_track(&a[T], 8);
	for (i = 0; i < n; i++) a[i] = i * 2;
	__sa_check(a[T] == 2*T, "sk", "");
	a[n-1] = a[n] ;
}
