// Native implementation of the harness interface: replays a tape of inputs.
#include "../harness/vp.h"
#include <unistd.h>
static FILE* tape; static int tape_init; static long n_live;
long vp_malloc_fail_at;
static uint64_t args[8];
uint64_t vp_input(int bits)
{
	if (!tape_init) { tape_init = 1; const char* p = getenv("VP_TAPE"); if (p) tape = fopen(p, "r"); }
	unsigned long long v = 0;
	if (tape == 0 || fscanf(tape, "%llu", &v) != 1) v = 0;
	return bits >= 64 ? v : (v & ((1ull << bits) - 1));
}
void vp_assume_sym(int c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(3); } }
void vp_check_sym(int c, const char* msg) { if (!c) { printf("CHECK-FAILED %s\n", msg); fflush(stdout); _exit(1); } }
void vp_reach_sym(const char* msg) {}
void vp_out_sym(uint64_t v) { printf("OUT %llu\n", (unsigned long long)v); }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_fail_limit(const char* msg) { printf("LIMIT %s\n", msg); fflush(stdout); _exit(4); }
uint64_t vp_arg(int i) { char b[16]; snprintf(b, 16, "VP_ARG%d", i); const char* s = getenv(b); return s ? strtoull(s, 0, 0) : 0; }
uint64_t vp_heap_live(void) { return n_live; }
// allocation calls of the linked objects come here (ld --wrap)
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
static size_t max_alloc(void) { static size_t m; if (m == 0) { const char* s = getenv("VP_MAX_ALLOC"); m = s ? strtoull(s, 0, 0) : 65536; } return m; }
#define VP_MAX_ALLOC max_alloc()
static int fails(size_t n) { if (vp_malloc_fail_at > 0 && --vp_malloc_fail_at == 0) return 1; return n > VP_MAX_ALLOC; }
void* __wrap_malloc(size_t n) { if (fails(n)) return 0; void* p = __real_malloc(n); if (p) n_live++; return p; }
void* __wrap_calloc(size_t a, size_t b) { if ((b && a > VP_MAX_ALLOC / b) || fails(a * b)) return 0; void* p = __real_calloc(a, b); if (p) n_live++; return p; }
void* __wrap_realloc(void* q, size_t n) { if (fails(n)) return 0; void* p = __real_realloc(q, n ? n : 1); if (p && !q) n_live++; return p; }
void __wrap_free(void* p) { if (p) n_live--; __real_free(p); }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* r = __wrap_malloc(n); if (r) memcpy(r, s, n); return r; }
