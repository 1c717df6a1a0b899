// C library model for the symbolic build (never linked into the native build).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
void* vp_alloc(size_t n); void* vp_zalloc(size_t n); void vp_free(void*); size_t vp_block_size(void*);
long vp_malloc_fail_at;
static int fails(void) { return vp_malloc_fail_at > 0 && --vp_malloc_fail_at == 0; }
void* malloc(size_t n) { if (fails()) return 0; return vp_alloc(n); }
void* calloc(size_t a, size_t b) { if (fails()) return 0; if (b && a > (size_t)-1 / b) return 0; return vp_zalloc(a * b); }
void free(void* p) { vp_free(p); }
void* memcpy(void*, const void*, size_t);
void* realloc(void* p, size_t n)
{
	if (fails()) return 0;
	if (p == 0) return vp_alloc(n);
	void* q = vp_alloc(n); if (q == 0) return 0;
	size_t o = vp_block_size(p); memcpy(q, p, o < n ? o : n); vp_free(p); return q;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i]; return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = malloc(n); if (r) memcpy(r, s, n); return r; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
static int vp_errno; int* __errno_location(void) { return &vp_errno; }
int printf(const char* f, ...) { return 0; }
int fprintf(void* s, const char* f, ...) { return 0; }
int puts(const char* s) { return 0; } int putchar(int c) { return c; } int fputs(const char* s, void* f) { return 0; } int fputc(int c, void* f) { return c; }
// formatted text: %s %c %d %i %u %x with l, ll, z, h and a width or precision read and ignored except for .* on %s
#include <stdarg.h>
static size_t vp_put(char* d, size_t cap, size_t k, char c) { if (k + 1 < cap) d[k] = c; return k + 1; }
static size_t vp_fmt(char* d, size_t cap, const char* f, va_list ap)
{
	size_t k = 0;
	for (; *f; f++) {
		if (*f != '%') { k = vp_put(d, cap, k, *f); continue; }
		int lng = 0; size_t prec = (size_t)-1; f++;
		while (*f == '-' || *f == '0' || *f == ' ' || *f == '+' || *f == '#' || (*f >= '1' && *f <= '9')) f++;
		if (*f == '.') { f++; if (*f == '*') { prec = (size_t)va_arg(ap, int); f++; } else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (size_t)(*f++ - '0'); } }
		while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f != 'h') lng = 1; f++; }
		if (*f == '%') k = vp_put(d, cap, k, '%');
		else if (*f == 'c') k = vp_put(d, cap, k, (char)va_arg(ap, int));
		else if (*f == 's') { const char* s = va_arg(ap, const char*); for (size_t i = 0; i < prec && s[i]; i++) k = vp_put(d, cap, k, s[i]); }
		else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'p') {
			unsigned long v; char t[24]; int n = 0, base = *f == 'x' || *f == 'p' ? 16 : 10;
			if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); if (x < 0) { k = vp_put(d, cap, k, '-'); v = 0ul - (unsigned long)x; } else v = (unsigned long)x; }
			else v = lng || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
			do { t[n++] = "0123456789abcdef"[v % (unsigned)base]; v /= (unsigned)base; } while (v);
			while (n) k = vp_put(d, cap, k, t[--n]);
		} else { k = vp_put(d, cap, k, '?'); if (*f == 0) break; }
	}
	if (cap) d[k < cap ? k : cap - 1] = 0;
	return k;
}
int vsnprintf(char* d, size_t n, const char* f, va_list ap) { return (int)vp_fmt(d, n, f, ap); }
int sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = (int)vp_fmt(d, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = (int)vp_fmt(d, n, f, ap); va_end(ap); return r; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* stderr; void* stdout; int fflush(void* f) { return 0; }
double trunc(double); int __vp_isinf(double x) { return x - x != 0 && x == x; }
double modf(double x, double* ip) { double t = trunc(x); *ip = t; if (__vp_isinf(x)) return 0; return x - t; }
// ctype table, C locale
static unsigned short ctab[384]; static int ctab_ok; static const unsigned short* ctabp;
const unsigned short** __ctype_b_loc(void)
{
	if (!ctab_ok) { ctab_ok = 1; ctabp = ctab + 128;
		for (int c = 0; c < 128; c++) { unsigned short v = 0; int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9', xd = di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
			if (up) v |= 1 << 8; if (lo) v |= 1 << 9; if (up || lo) v |= 1 << 10; if (di) v |= 1 << 11; if (xd) v |= 1 << 12; if (c == ' ' || (c >= 9 && c <= 13)) v |= 1 << 13; if (c >= 32 && c < 127) v |= 1 << 14; if (c > 32 && c < 127) v |= 1 << 15;
			if (c == ' ' || c == 9) v |= 1 << 0; if (c < 32 || c == 127) v |= 1 << 1; if (c > 32 && c < 127 && !up && !lo && !di) v |= 1 << 2; if (up || lo || di) v |= 1 << 3; ctab[128 + c] = v; } }
	return &ctabp;
}
unsigned long long strtoull(const char* s, char** end, int base)
{
	const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
	int neg = 0; if (*p == '-' || *p == '+') neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long long v = 0; int any = 0, ov = 0;
	for (;; p++) { int d; if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10; else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10; else break;
		if (d >= base) break; any = 1; if (__builtin_mul_overflow(v, (unsigned long long)base, &v) || __builtin_add_overflow(v, (unsigned long long)d, &v)) ov = 1; }
	if (end) *end = (char*)(any ? p : s);
	if (ov) { vp_errno = 34; return ~0ull; }
	return neg ? 0 - v : v;
}
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) { return (int)strtoull(s, 0, 10); }
