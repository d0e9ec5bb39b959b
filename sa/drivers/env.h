/* the calling thread's errno */
#ifndef SA_ENV_H
#define SA_ENV_H
#include <errno.h>
static int sa_errno;
int *__errno_location(void) { return &sa_errno; }
#endif
