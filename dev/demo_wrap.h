#include <stdlib.h>
void *__real_malloc(size_t); void __real_free(void *);
static long live;
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
