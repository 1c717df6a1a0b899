// Reference model of the Judy arrays the code under test uses (documented JudyL / JudyHS
// semantics), used in both builds: an association list.
#include <Judy.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define VP_JN 64
typedef struct jl { Word_t n; Word_t k[VP_JN]; Word_t v[VP_JN]; struct jl* next; } jl_t; // blocks, so that values keep their address
typedef struct { Word_t n; Word_t len[VP_JN]; Word_t v[VP_JN]; unsigned char* s[VP_JN]; } jhs_t;
void vp_fail_limit(const char*);
static Word_t* jl_find(jl_t* m, Word_t key) { for (; m; m = m->next) for (Word_t i = 0; i < m->n; i++) if (m->k[i] == key) return &m->v[i]; return 0; }
PPvoid_t JudyLGet(Pcvoid_t a, Word_t key, PJError_t e) { return (PPvoid_t)jl_find((jl_t*)a, key); }
PPvoid_t JudyLIns(PPvoid_t a, Word_t key, PJError_t e)
{
	if (*a == 0) { *a = calloc(1, sizeof(jl_t)); if (*a == 0) return PPJERR; }
	Word_t* v = jl_find(*a, key);
	if (v == 0) {
		jl_t* m = *a; while (m->next) m = m->next;
		if (m->n == VP_JN) { m->next = calloc(1, sizeof(jl_t)); if (m->next == 0) return PPJERR; m = m->next; }
		m->k[m->n] = key; m->v[m->n] = 0; v = &m->v[m->n++];
	}
	return (PPvoid_t)v;
}
Word_t JudyLFreeArray(PPvoid_t a, PJError_t e) { jl_t* m = *a; while (m) { jl_t* x = m->next; free(m); m = x; } *a = 0; return 0; }
static long jhs_find(const jhs_t* m, const unsigned char* s, Word_t len) { for (Word_t i = 0; i < m->n; i++) if (m->len[i] == len && memcmp(m->s[i], s, len) == 0) return (long)i; return -1; }
PPvoid_t JudyHSGet(Pcvoid_t a, void* s, Word_t len) { jhs_t* m = (jhs_t*)a; if (m == 0) return 0; long i = jhs_find(m, s, len); return i < 0 ? 0 : (PPvoid_t)&m->v[i]; }
PPvoid_t JudyHSIns(PPvoid_t a, void* s, Word_t len, PJError_t e)
{
	if (*a == 0) { *a = calloc(1, sizeof(jhs_t)); if (*a == 0) return PPJERR; }
	jhs_t* m = *a; long i = jhs_find(m, s, len);
	if (i < 0) { if (m->n == VP_JN) vp_fail_limit("judy model capacity"); unsigned char* c = malloc(len + 1); if (c == 0) return PPJERR; memcpy(c, s, len);
		i = (long)m->n++; m->len[i] = len; m->s[i] = c; m->v[i] = 0; }
	return (PPvoid_t)&m->v[i];
}
Word_t JudyHSFreeArray(PPvoid_t a, PJError_t e) { if (*a) { jhs_t* m = *a; for (Word_t i = 0; i < m->n; i++) free(m->s[i]); free(m); } *a = 0; return 0; }
