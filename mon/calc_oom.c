/* allocation failures for the calculator: MON_OOM=k fails the k-th one */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#undef malloc
#undef realloc

static long count;

static int fails(void)
{
	const char *s = getenv("MON_OOM");
	if (!s || ++count != atol(s)) {
		return 0;
	}
	fflush(stdout); /* what was printed so far counts even if it crashes now */
	return 1;
}
void *mon_malloc(size_t n) { return fails() ? NULL : malloc(n); }
void *mon_realloc(void *p, size_t n) { return fails() ? NULL : realloc(p, n); }
