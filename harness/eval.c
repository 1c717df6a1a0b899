// Path expressions against the subscripts followed one at a time.
// arg 0: 0 any expression string, 1 printf-style parameters, 2 long numbers, 3 typed results 4 64-bit items   1: length (mode 1: form of the expression)  2: characters
#include "pv.h"
#include <pointless/pointless_eval.h>
static pointless_t p; static void* buf; static pointless_value_t* rootv;
static int stored(mv* root)
{
	pointless_create_t c; size_t len = 0; const char* error = 0;
	pv_begin(&c); uint32_t h = pv_make(&c, root);
	VP_CHECK(h != PV_FAIL, "values can be created"); if (h == PV_FAIL) return 0;
	pointless_create_set_root(&c, h);
	VP_CHECK(pointless_create_output_and_end_b(&c, &buf, &len, &error), "the document is written");
	int ok = pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "a document written is accepted"); rootv = pointless_root(&p);
	return ok;
}
// where a path leads: a value, an item of a native vector, a bit, or nowhere
typedef struct { mv* m; int item; int64_t v; uint32_t type; int fail; } place;
typedef struct { int neg; uint64_t mag; const char* s; size_t n; } sub; // s: text, else the number -mag or mag
static void follow(place* w, sub k)
{
	mv* m = w->m; uint32_t i; int out;
	if (w->fail) return;
	w->fail = 1;
	if (w->item || !m) return;
	out = k.neg && k.mag != 0;
	if (m->k == K_VEC || m->k == K_PRIM || m->k == K_BV) {
		if (k.s || out || k.mag >= m->n) return;
		i = (uint32_t)vp_concretize(k.mag);
		if (m->k == K_VEC) { w->m = m->c[i]; w->fail = 0; return; }
		w->item = 1; w->v = m->it[i]; w->type = m->type;
		if (m->k == K_BV) { w->v = m->raw[i / 8] >> (i % 8) & 1; w->type = 0; }
		else if (m->type == POINTLESS_VECTOR_U64 && (uint64_t)w->v > UINT32_MAX) return; // no room in a value
		else if (m->type == POINTLESS_VECTOR_I64 && (w->v > (int64_t)UINT32_MAX || w->v < INT32_MIN)) return;
		w->fail = 0;
	} else if (m->k == K_MAP) for (i = 0; i < m->n; i++) {
		mv* x = m->c[i];
		if (k.s) { uint32_t j, ok = x->k == K_STR && x->n == k.n; for (j = 0; ok && j < k.n; j++) ok &= (uint8_t)k.s[j] == x->it[j]; if (ok) { w->m = m->d[i]; w->fail = 0; return; } }
		else if (x->k == K_I32 || x->k == K_U32) { int64_t v = pv_int(x); if (v < 0 ? k.neg && k.mag == (uint64_t)-v : !out && k.mag == (uint64_t)v) { w->m = m->d[i]; w->fail = 0; return; } }
	}
}
static int arrived(const place* w, pointless_value_t* v)
{
	if (!w->item) return pv_eq_read(&p, v, w->m);
	if (w->type == 0) return v->type == POINTLESS_BOOLEAN && v->data.data_u32 == (uint32_t)w->v;
	if (w->type == POINTLESS_VECTOR_FLOAT) return v->type == POINTLESS_FLOAT && v->data.data_u32 == (uint32_t)w->v;
	return (v->type == POINTLESS_I32 && (int64_t)v->data.data_i32 == w->v) || (v->type == POINTLESS_U32 && (int64_t)v->data.data_u32 == w->v);
}
static mv* num(int64_t v) { return v < 0 ? pv_i32((int32_t)v) : pv_u32((uint32_t)v); }
static mv* text(const char* s) { mv* m = pv_new(K_STR); while (s[m->n]) { m->it[m->n] = (uint8_t)s[m->n]; m->n++; } return m; }
// [ [7, null], {'k': [9, 'x'], '': 5, 1: 6, -1: 8}, bits 01, native 64-bit vector, 3 ]
static mv* document(void)
{
	mv *r = pv_vec(5), *a = pv_vec(2), *m = pv_map(0), *b = pv_new(K_BV), *q = pv_new(K_PRIM), *in = pv_vec(2);
	a->c[0] = num(7); a->c[1] = pv_null(); in->c[0] = num(9); in->c[1] = text("x");
	
	uint32_t all = !(vp_arg(0) == 1 && vp_arg(2)); // mode 1, arg 2: a map of a single entry
	if (all) { m->c[0] = text("k"); m->d[0] = in; m->c[1] = text(""); m->d[1] = num(5); m->c[2] = num(1); m->d[2] = num(6); m->n = 3; }
	m->c[m->n] = vp_arg(2) == 2 ? num(1) : num(-1); m->d[m->n++] = num(8);
	b->n = 2; b->raw[0] = 2; q->type = vp_choice(2) ? POINTLESS_VECTOR_I64 : POINTLESS_VECTOR_U64; q->n = 2; q->it[0] = 5; q->it[1] = vp_arg(0) == 4 ? (int64_t)vp_u64() : 1ll << 40;
	r->c[0] = a; r->c[1] = m; r->c[2] = b; r->c[3] = q; r->c[4] = num(3);
	return r;
}
static int digit(char c) { return c >= '0' && c <= '9'; }
static int space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// the expression language: ( [ (number | 'text') ws ] ws )*, with white space in front
static void parse(const char* e, place* w)
{
	while (space(*e)) e++;
	while (*e) {
		sub k = { 0, 0, 0, 0 };
		if (*e++ != '[') { w->fail = 1; return; }
		if (*e == '\'') { k.s = ++e; while (*e && *e != '\'') { e++; k.n++; } if (!*e) { w->fail = 1; return; } e++; }
		else {
			int over = 0;
			if (*e == '-' || *e == '+') k.neg = *e++ == '-';
			if (!digit(*e)) { w->fail = 1; return; }
			for (; digit(*e); e++) { uint64_t d = (uint64_t)(*e - '0'); if (k.mag > (UINT64_MAX - d) / 10) over = 1; else k.mag = k.mag * 10 + d; }
			if (over) { w->fail = 1; return; }
		}
		follow(w, k); if (w->fail) return;
		while (space(*e)) e++;
		if (*e++ != ']') { w->fail = 1; return; }
		while (space(*e)) e++;
	}
}
static void settle(int r, pointless_value_t* v, place* w)
{
	VP_CHECK((r != 0) == !w->fail, "an expression is evaluated exactly if it is well-formed and its subscripts exist");
	if (r) { VP_CHECK(arrived(w, v), "the addressed element is delivered"); VP_REACH("delivered"); } else VP_REACH("failed");
}
static void strings(void)
{
	static const char ch[] = "[]1-0'k 2+x"; char e[16]; uint32_t n = vp_choice(vp_arg(1) + 1), i; mv* d = document(); place w = { d, 0, 0, 0, 0 }; pointless_value_t v;
	if (!stored(d)) return;
	char* x = malloc(n + 1); for (i = 0; i < n; i++) x[i] = ch[vp_choice(vp_arg(2))]; x[n] = 0; (void)e;
	parse(x, &w);
	int r = pointless_eval_get(&p, rootv, &v, x);
	settle(r, &v, &w);
}
static void parameters(void)
{
	mv* d = document(); place w = { d, 0, 0, 0, 0 }; pointless_value_t v; if (!stored(d)) return;
	uint64_t u = vp_u64(); int64_t s = (int64_t)vp_u64(); uint32_t u4 = vp_u32(); int32_t s4 = (int32_t)vp_u32(); int r; sub a = { 0, u, 0, 0 }, b = { s < 0, s < 0 ? 0 - (uint64_t)s : (uint64_t)s, 0, 0 }, a4 = { 0, u4, 0, 0 }, b4 = { s4 < 0, s4 < 0 ? 0 - (uint64_t)(int64_t)s4 : (uint64_t)s4, 0, 0 };
	static const char* const keys[4] = { "k", "", "x", "kk" }; uint32_t c = vp_choice(4); sub t = { 0, 0, keys[c], strlen(keys[c]) }, one = { 0, 1, 0, 0 };
	switch (vp_arg(1)) {
	case 0: r = pointless_eval_get(&p, rootv, &v, "[%u64][%i64]", u, s); follow(&w, a); follow(&w, b); break;
	case 1: r = pointless_eval_get(&p, rootv, &v, "[%i64] [%u64]", s, u); follow(&w, b); follow(&w, a); break;
	case 2: r = pointless_eval_get(&p, rootv, &v, "[%u32 ][%i32]", u4, s4); follow(&w, a4); follow(&w, b4); break;
	case 3: r = pointless_eval_get(&p, rootv, &v, " [%i32][%u32]", s4, u4); follow(&w, b4); follow(&w, a4); break;
	case 4: r = pointless_eval_get(&p, rootv, &v, "[1][%s][%u32]", keys[c], u4); follow(&w, one); follow(&w, t); follow(&w, a4); break;
	case 5: r = pointless_eval_get(&p, rootv, &v, "[%u64][%s]", u, keys[c]); follow(&w, a); follow(&w, t); break;
	default: { static const char* const bad[6] = { "[%u]", "[%i16]", "[%x]", "[%", "[%u64", "%u64" }; w.fail = 1; r = pointless_eval_get(&p, rootv, &v, bad[vp_choice(6)], u); }
	}
	settle(r, &v, &w);
}
static void wide(void)
{
	mv* d = document(); place w = { d, 0, 0, 0, 0 }; pointless_value_t v; if (!stored(d)) return;
	parse("[3][1]", &w);
	int r = pointless_eval_get(&p, rootv, &v, "[3][1]");
	settle(r, &v, &w);
}
static void numbers(void)
{
	static const char* const e[] = { "[4294967296]", "[1][4294967297]", "[1][-4294967295]", "[1][18446744073709551615]", "[18446744073709551616]", "[1][-9223372036854775807]", "[1][-9223372036854775808]", "[1][99999999999999999999]", "[00000000000000000000000]", "[1][+0001]", "[-0]", "[1][--1]", "[1][+-1]", "[1][- 1]", "[1][-1]", "[1]['k'][1]", "[ 1]", "\t[1\n]['k'\r][0]\v", "[1]['k", "[1]['k'", "[1]['k']]", "[1]''", "[1][k]", "[1][1][0]", "[2][1]", "[3][0]", "[3][1]", "[2][0][0]" };
	mv* d = document(); place w = { d, 0, 0, 0, 0 }; pointless_value_t v; if (!stored(d)) return;
	const char* x = e[vp_choice(sizeof(e) / sizeof(e[0]))];
	parse(x, &w);
	int r = pointless_eval_get(&p, rootv, &v, x);
	settle(r, &v, &w);
}
static void typed(void)
{
	mv *r = pv_vec(2), *x; uint32_t t = vp_choice(18), i, n = 77, u = 77; pointless_value_t o; void* a = 0; uint8_t* s8 = 0;
	switch (t) {
	case 0: x = pv_null(); break; case 1: x = pv_bool(vp_bool()); break; case 2: x = pv_i32((int32_t)vp_u32()); break; case 3: x = pv_u32(vp_u32()); break; case 4: x = pv_flt(1.5f); break;
	case 5: x = pv_str(1); break; case 6: x = pv_ucs(1); break; case 7: x = pv_map(0); break; case 8: x = pv_bv(vp_choice(2) ? 9 : 40); break;
	case 9: x = pv_vec(vp_choice(3)); for (i = 0; i < x->n; i++) x->c[i] = i ? pv_i32((int32_t)vp_u32()) : pv_null(); break;
	case 10: case 11: case 12: case 13: case 14: case 15: case 16: case 17: x = pv_prim(pv_prim_types[t - 10 + (t == 17 ? vp_choice(2) : 0)], 1 + vp_choice(2), 0); break;
	}
	r->c[0] = pv_null(); r->c[1] = x; if (!stored(r)) return;
	uint32_t at = vp_choice(3); // nowhere, another value, the value
	pointless_value_t* v = pointless_reader_vector_value(&p, rootv) + (at == 0 ? 0 : 1); int there = at != 2; uint32_t ix = at == 2 ? 2 : at;
#define GOT(call, want, good) do { int g = call; VP_CHECK((g != 0) == (there && (want)), "a typed result is delivered exactly if the element has the type"); if (g) { VP_CHECK(good, "the typed result is that of the element"); VP_REACH("typed result"); } } while (0)
	GOT(pointless_eval_get_as_u32(&p, rootv, &u, "[%u32]", ix), v->type == POINTLESS_U32, u == v->data.data_u32);
	GOT(pointless_eval_get_as_boolean(&p, rootv, &u, "[%u32]", ix), v->type == POINTLESS_BOOLEAN, u == v->data.data_u32);
	GOT(pointless_eval_get_as_map(&p, rootv, &o, "[%u32]", ix), v->type == POINTLESS_MAP_VALUE_VALUE, o.type == v->type && o.data.data_u32 == v->data.data_u32);
	GOT(pointless_eval_get_as_string(&p, rootv, &s8, "[%u32]", ix), v->type == POINTLESS_STRING_, s8 == pointless_reader_string_value_ascii(&p, v));
	GOT(pointless_eval_get_as_bitvector(&p, rootv, &o, &n, "[%u32]", ix), pointless_is_bitvector_type(v->type), o.type == v->type && o.data.data_u32 == v->data.data_u32 && n == pointless_reader_bitvector_n_bits(&p, v));
	int empty = v->type == POINTLESS_VECTOR_EMPTY;
#define VEC(T, sfx, acc, ct) n = 77; GOT(pointless_eval_get_as_vector_##sfx(&p, rootv, (ct**)&a, &n, "[%u32]", ix), empty || v->type == T, n == pointless_reader_vector_n_items(&p, v) && (empty || a == (void*)pointless_reader_vector_##acc(&p, v)))
	VEC(POINTLESS_VECTOR_U8, u8, u8, uint8_t); VEC(POINTLESS_VECTOR_U16, u16, u16, uint16_t); VEC(POINTLESS_VECTOR_U32, u32, u32, uint32_t); VEC(POINTLESS_VECTOR_U64, u64, u64, uint64_t); VEC(POINTLESS_VECTOR_FLOAT, f, float, float);
	n = 77; GOT(pointless_eval_get_as_vector_value(&p, rootv, (pointless_value_t**)&a, &n, "[%u32]", ix), empty || v->type == POINTLESS_VECTOR_VALUE || v->type == POINTLESS_VECTOR_VALUE_HASHABLE, n == pointless_reader_vector_n_items(&p, v) && (empty || a == (void*)pointless_reader_vector_value(&p, v)));
}
int main()
{
	switch (vp_arg(0)) { case 0: strings(); break; case 1: parameters(); break; case 2: numbers(); break; case 4: wide(); break; default: typed(); }
	return 0;
}
