// Opening arbitrary bytes with validation, then using everything that was accepted.
// arg 0: flags (1: any counts and any length up to the given one, no structure; 2: offsets are chosen among multiples of 4, one path each; 4: offsets fixed, parts laid out one after the other, the first vector with room for 4-byte and the others for 8-byte items, as many as flags >> 8; 16: laid out so, with no bit vectors and floats among the 8-byte items; 32: with the right counts and references; 64: integer or empty values of a map; with 4 or more buckets the keys are integers or empty; 128: stored hashes below 16; 8: use what is accepted)
// args 1-5: strings, vectors, bit vectors, sets, maps   arg 6: heap bytes (flag 1: total bytes)   arg 7: type of the root + 1 (0: any)
#include <pointless/pointless.h>
#include <pointless/pointless_validate.h>
#include <pointless/pointless_cycle_marker_wrappers.h>
#include "vp.h"
static pointless_t p; static unsigned char* raw; static size_t rawlen; static const uint32_t* heapw;
static struct { uint32_t t, d; } seen[24]; static uint32_t nseen;
static void inside(const void* a, size_t n, const char* what)
{
	size_t x = (size_t)((const unsigned char*)a - (const unsigned char*)p.header);
	VP_CHECK(x <= rawlen && n <= rawlen - x, what);
}
static void lookup_set(pointless_value_t* s, pointless_value_t* k)
{
	pointless_value_t* kk = 0; const char* error = 0;
	pointless_reader_set_lookup(&p, s, k, &kk, &error);
	VP_CHECK(error == 0 && kk == k, "a stored key is found by itself");
	pointless_hash_iter_state_t it; uint32_t h = pointless_hash_reader_32(&p, k); int found = 0;
	pointless_reader_set_iter_hash_init(&p, s, h, &it);
	while (pointless_reader_set_iter_hash(&p, s, h, &kk, &it)) if (kk == k) found++;
	VP_CHECK(found >= 1, "hash iteration visits a stored key");
}
static void lookup_map(pointless_value_t* s, pointless_value_t* k, pointless_value_t* v)
{
	pointless_value_t* kk = 0; pointless_value_t* vv = 0; const char* error = 0;
	pointless_reader_map_lookup(&p, s, k, &kk, &vv, &error);
	VP_CHECK(error == 0 && kk == k && vv == v, "a stored key is found by itself");
	pointless_hash_iter_state_t it; uint32_t h = pointless_hash_reader_32(&p, k); int found = 0;
	pointless_reader_map_iter_hash_init(&p, s, h, &it);
	while (pointless_reader_map_iter_hash(&p, s, h, &kk, &vv, &it)) if (kk == k && vv == v) found++;
	VP_CHECK(found >= 1, "hash iteration visits a stored key");
}
static void use(pointless_value_t* v);
// hashing takes little work and few paths: no inline bit vectors (which hold no reference), no floats
static int small(pointless_value_t* v, int depth)
{
	uint32_t i, n;
	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE && depth < 4) {
		n = pointless_reader_vector_n_items(&p, v);
		for (i = 0; i < n; i++) if (!small(pointless_reader_vector_value(&p, v) + i, depth + 1)) return 0;
	}
	if (v->type == POINTLESS_BITVECTOR) return pointless_reader_bitvector_n_bits(&p, v) <= 9;
	return !pointless_is_bitvector_type(v->type) && v->type != POINTLESS_FLOAT;
}
static int deep_hashable(pointless_value_t* v, int depth)
{
	uint32_t i, n;
	if (!pointless_is_hashable(v->type)) return 0;
	if (v->type != POINTLESS_VECTOR_VALUE_HASHABLE || depth == 4) return 1;
	n = pointless_reader_vector_n_items(&p, v);
	for (i = 0; i < n; i++) if (!deep_hashable(pointless_reader_vector_value(&p, v) + i, depth + 1)) return 0;
	return 1;
}
static void use_once(pointless_value_t* v)
{
	uint32_t i, n; uint64_t sum = 0; pointless_value_t* k; pointless_value_t* x; uint32_t st = 0;
	switch (v->type) {
	case POINTLESS_UNICODE_: {
		uint32_t* s = pointless_reader_unicode_value_ucs4(&p, v); n = pointless_reader_unicode_len(&p, v);
		inside(s, 4 * ((size_t)n + 1), "text lies inside the file");
		VP_CHECK(s[n] == 0 && pointless_ucs4_len(s) == n, "text has its length and ends with a zero");
		VP_REACH("text"); break; }
	case POINTLESS_STRING_: {
		uint8_t* s = pointless_reader_string_value_ascii(&p, v); n = pointless_reader_string_len(&p, v);
		inside(s, (size_t)n + 1, "text lies inside the file");
		VP_CHECK(s[n] == 0 && pointless_ascii_len(s) == n, "text has its length and ends with a zero");
		VP_REACH("string"); break; }
	case POINTLESS_VECTOR_VALUE: case POINTLESS_VECTOR_VALUE_HASHABLE:
		n = pointless_reader_vector_n_items(&p, v); x = pointless_reader_vector_value(&p, v);
		inside(x, 8 * (size_t)n, "items lie inside the file");
		for (i = 0; i < n; i++) {
			pointless_complete_value_t c = pointless_reader_vector_value_case(&p, v, i);
			VP_CHECK(c.type == x[i].type && c.complete_data.data_u32 == x[i].data.data_u32, "item as delivered by the generic accessor");
			use(x + i);
		}
		VP_REACH("vector"); break;
#define NUM(T, f, sz) case T: n = pointless_reader_vector_n_items(&p, v); inside(f(&p, v), sz * (size_t)n, "items lie inside the file"); for (i = 0; i < n; i++) { sum += (uint64_t)(f(&p, v)[i] != 0); pointless_complete_value_t c = pointless_reader_vector_value_case(&p, v, i); sum += c.type; } VP_REACH("native vector"); break;
	NUM(POINTLESS_VECTOR_I8, pointless_reader_vector_i8, 1) NUM(POINTLESS_VECTOR_U8, pointless_reader_vector_u8, 1) NUM(POINTLESS_VECTOR_I16, pointless_reader_vector_i16, 2) NUM(POINTLESS_VECTOR_U16, pointless_reader_vector_u16, 2)
	NUM(POINTLESS_VECTOR_I32, pointless_reader_vector_i32, 4) NUM(POINTLESS_VECTOR_U32, pointless_reader_vector_u32, 4) NUM(POINTLESS_VECTOR_I64, pointless_reader_vector_i64, 8) NUM(POINTLESS_VECTOR_U64, pointless_reader_vector_u64, 8)
	case POINTLESS_VECTOR_FLOAT: n = pointless_reader_vector_n_items(&p, v); inside(pointless_reader_vector_float(&p, v), 4 * (size_t)n, "items lie inside the file"); for (i = 0; i < n; i++) sum += ((uint32_t*)pointless_reader_vector_float(&p, v))[i]; break;
	case POINTLESS_VECTOR_EMPTY: VP_CHECK(pointless_reader_vector_n_items(&p, v) == 0, "an empty vector has no items"); break;
	case POINTLESS_BITVECTOR: case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1: case POINTLESS_BITVECTOR_01: case POINTLESS_BITVECTOR_10: case POINTLESS_BITVECTOR_PACKED:
		n = pointless_reader_bitvector_n_bits(&p, v);
		if (v->type == POINTLESS_BITVECTOR) inside(pointless_reader_bitvector_buffer(&p, v), 4 + ((size_t)n + 7) / 8, "bits lie inside the file");
		if (n) { uint32_t at = vp_below(n); VP_CHECK(pointless_reader_bitvector_is_set(&p, v, at) <= 1, "a bit is 0 or 1"); }
		VP_REACH("bit vector"); break;
	case POINTLESS_SET_VALUE:
		n = 0;
		while (pointless_reader_set_iter(&p, v, &k, &st)) { inside(k, 8, "keys lie inside the file"); n++; lookup_set(v, k); use(k); VP_REACH("set entry"); }
		VP_CHECK(n == pointless_reader_set_n_items(&p, v) && n < pointless_reader_set_n_buckets(&p, v), "iteration visits every entry");
		VP_REACH("set"); break;
	case POINTLESS_MAP_VALUE_VALUE:
		n = 0;
		while (pointless_reader_map_iter(&p, v, &k, &x, &st)) { inside(k, 8, "keys lie inside the file"); inside(x, 8, "values lie inside the file"); n++; lookup_map(v, k, x); use(k); use(x); VP_REACH("map entry"); }
		VP_CHECK(n == pointless_reader_map_n_items(&p, v) && n < pointless_reader_map_n_buckets(&p, v), "iteration visits every entry");
		VP_REACH("map"); break;
	case POINTLESS_BOOLEAN: VP_CHECK(v->data.data_u32 <= 1, "a boolean is 0 or 1"); break;
	case POINTLESS_NULL: case POINTLESS_EMPTY_SLOT: VP_CHECK(v->data.data_u32 == 0, "no payload"); break;
	case POINTLESS_I32: case POINTLESS_U32: case POINTLESS_FLOAT: break;
	default: VP_CHECK(0, "only known types");
	}
	(void)sum;
	if (!(v->type >= POINTLESS_EMPTY_SLOT && v->type <= POINTLESS_NULL) && pointless_is_hashable(v->type) && small(v, 0)) {
		const char* error = 0; pointless_complete_value_t c = pointless_value_to_complete(v);
		(void)pointless_hash_reader_32(&p, v);
		if (deep_hashable(v, 0)) (void)pointless_cmp_reader(&p, &c, &p, &c, &error);
		VP_CHECK(error == 0, "hashable values can be compared");
	}
}
static void use(pointless_value_t* v)
{
	uint32_t i;
	inside(v, 8, "values lie inside the file");
	for (i = 0; i < nseen; i++) if (seen[i].t == v->type && seen[i].d == v->data.data_u32) return;
	if (nseen == 24) return;
	seen[nseen].t = v->type; seen[nseen++].d = v->data.data_u32;
	use_once(v);
}
static void put32(size_t at, uint32_t x) { memcpy(raw + at, &x, 4); }
static void put64(size_t at, uint64_t x) { memcpy(raw + at, &x, 8); }
int main()
{
	uint32_t flags = vp_arg(0), i, j; const char* error = 0; size_t at;
	if (flags & 1) {
		rawlen = vp_choice(vp_arg(6) + 1);
		raw = malloc(rawlen ? rawlen : 1);
		for (i = 0; i < rawlen; i++) raw[i] = vp_u8();
	} else {
		uint32_t cnt[5], total = 0, heap = vp_arg(6);
		static const uint32_t unit[5] = { 8, 0, 8, 24, 32 }; uint32_t b = flags >> 8 ? flags >> 8 : 1;
		for (i = 0; i < 5; i++) total += cnt[i] = vp_arg(1 + i);
		rawlen = 32 + 8 * total + heap;
		raw = malloc(rawlen);
		put32(0, vp_arg(7) ? vp_arg(7) - 1 : vp_u32()); put32(4, vp_u32());
		for (i = 0; i < 5; i++) put32(8 + 4 * i, cnt[i]);
		put32(28, POINTLESS_FF_VERSION_OFFSET_64_NEWHASH);
		at = 0;
		for (i = 0, total = 0; i < 5; i++) for (j = 0; j < cnt[i]; j++) {
			uint64_t o;
			if (flags & 4) { o = at; at += i == 1 ? (j ? 4 + 8 * b : 4 + 4 * b) : unit[i]; } else if (flags & 2) o = 4 * vp_choice(heap / 4 + 1); else o = vp_u64();
			put64(32 + 8 * total++, o);
		}
		for (i = 0; i < heap / 4; i++) {
			uint32_t w = vp_u32();
			if (flags & 16) for (j = 1; j < cnt[1]; j++) {
				uint32_t first = (4 + 4 * b) / 4 + (j - 1) * (1 + 2 * b) + cnt[0] * 2 + 1;
				if (i >= first && i < first + 2 * b && (i - first) % 2 == 0) VP_ASSUME(w != POINTLESS_FLOAT && !(w >= POINTLESS_BITVECTOR && w <= POINTLESS_BITVECTOR_PACKED) && (j == 1 ? b < 4 || (w >= POINTLESS_EMPTY_SLOT && w <= POINTLESS_U32) : !(flags & 64) || w == POINTLESS_U32 || w == POINTLESS_EMPTY_SLOT));
			}
			if (flags & 128 && cnt[1] && i > cnt[0] * 2 && i <= cnt[0] * 2 + b) VP_ASSUME(w < 16);
			put32(32 + 8 * total + 4 * i, w);
		}
		if (flags & 32) { // the counts of the vectors, and which vectors the set or map refers to
			size_t h = 32 + 8 * total + 8 * cnt[0];
			for (j = 0; j < cnt[1]; j++) { put32(h, b); h += j ? 4 + 8 * b : 4 + 4 * b; }
			h += 8 * cnt[2];
			for (j = 0; j < cnt[3] + cnt[4]; j++) {
				put32(h + 8, POINTLESS_VECTOR_U32); put32(h + 12, 0); put32(h + 16, POINTLESS_VECTOR_VALUE_HASHABLE); put32(h + 20, 1);
				if (j >= cnt[3]) { put32(h + 24, POINTLESS_VECTOR_VALUE); put32(h + 28, 2); }
				h += j < cnt[3] ? 24 : 32;
			}
		}
		for (i = heap / 4 * 4; i < heap; i++) raw[32 + 8 * total + i] = vp_u8();
	}
	int ok = pointless_open_b(&p, raw, rawlen, &error);
	VP_CHECK(ok ? error == 0 : error != 0, "opening succeeds without or fails with an error message");
	VP_OUT(ok);
	if (!ok) { VP_CHECK(vp_heap_live() == 1, "no memory left allocated by a refused input"); VP_REACH("refused"); return 0; }
	VP_REACH("accepted");
	VP_CHECK(memcmp(p.header, raw, rawlen) == 0, "opening does not change the bytes");
	if (flags & 8) {
		use(pointless_root(&p));
		void* m = pointless_cycle_marker_read(&p, &error);
		VP_CHECK(m != 0 && error == 0, "cycle marking succeeds"); free(m);
		VP_CHECK(memcmp(p.header, raw, rawlen) == 0, "reading does not change the bytes");
	}
	pointless_close(&p);
	VP_CHECK(vp_heap_live() == 1, "no memory left allocated");
	return 0;
}
