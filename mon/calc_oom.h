#include <stdlib.h>
void *mon_malloc(size_t);
void *mon_realloc(void *, size_t);
