// Object graphs: cycle marking when writing and reading, hashability, container ids.
// arg 0: 0 the marking algorithm alone, 1 write/read   1: nodes  2: slots per node  3: kinds (bits: vector, map value, set member, map key)  4: leaves (bits: null, u32, empty vector, native vector)  5: root (0: node 0, 1: also a leaf)  6: check a copy of the document instead
#include "pv.h"
#include <pointless/pointless_cycle_marker_wrappers.h>
enum { MAXG = 6, MAXS = 3, LEAF = 100 };
enum { G_VEC, G_MAP, G_SET, G_KEY };
static uint32_t N, n, S, kind[MAXG], slot[MAXG][MAXS], ns[MAXG]; static uint8_t reach[MAXG][MAXG];
static void generate(void)
{
	uint32_t i, j, k, kinds[4], nk = 0, leaves[4], nl = 0;
	for (i = 0; i < 4; i++) { if (vp_arg(3) >> i & 1) kinds[nk++] = i; if (vp_arg(4) >> i & 1) leaves[nl++] = LEAF + i; }
	n = 1;
	for (i = 0; i < n; i++) {
		kind[i] = kinds[vp_choice(nk)];
		ns[i] = S;
		for (j = 0; j < S; j++) {
			uint32_t c = vp_choice(nl + n + (n < N));
			if (c < nl) slot[i][j] = leaves[c]; else { slot[i][j] = c - nl; if (c - nl == n) n++; }
		}
	}
	for (i = 0; i < n; i++) for (j = 0; j < S; j++) if (slot[i][j] < LEAF) reach[i][slot[i][j]] = 1;
	for (k = 0; k < n; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (reach[i][k] && reach[k][j]) reach[i][j] = 1;
}
// --- mode 0
static uint32_t a_n(void* u) { (void)u; return n; }
static uint64_t a_root(void* u) { (void)u; return 0; }
static int a_is(void* u, uint64_t v) { (void)u; return v < LEAF; }
static uint32_t a_id(void* u, uint64_t v) { (void)u; return (uint32_t)v; }
static uint32_t a_nc(void* u, uint64_t v) { (void)u; return ns[v]; }
static uint64_t a_at(void* u, uint64_t v, uint32_t i) { (void)u; return slot[v][i]; }
static int bit(const void* m, uint32_t i) { return ((const uint8_t*)m)[i / 8] >> (i % 8) & 1; }
static void algorithm(void)
{
	cycle_marker_info_t f = { 0, a_n, a_root, a_is, a_id, a_nc, a_at }; const char* error = 0; uint32_t i; int some = 0, none = 0;
	uint64_t live = vp_heap_live();
	void* m = pointless_cycle_marker(&f, &error);
	VP_CHECK(m != 0, "marking succeeds"); if (!m) return;
	for (i = 0; i < n; i++) { VP_CHECK(bit(m, i) == reach[i][i], "a container is marked exactly if it can reach itself"); if (reach[i][i]) some = 1; else none = 1; }
	if (some && none) VP_REACH("partly cyclic");
	free(m);
	VP_CHECK(vp_heap_live() == live, "no memory left allocated");
}
// --- mode 1
static pointless_t p; static pointless_value_t* at[MAXG]; static int hashable[MAXG];
static uint32_t ids[64]; static const pointless_value_t* who[64]; static uint32_t nid;
// every container has its own id, the same for each reference to it
static void id_of(pointless_value_t* v)
{
	uint32_t id = pointless_container_id(&p, v), i;
	VP_CHECK(id < pointless_n_containers(&p), "container ids are smaller than the number of containers");
	VP_CHECK(id == pointless_container_id(&p, v), "container ids stay the same");
	int vec = pointless_is_vector_type(v->type), empty = v->type == POINTLESS_VECTOR_EMPTY;
	for (i = 0; i < nid; i++) {
		int wvec = pointless_is_vector_type(who[i]->type), wempty = who[i]->type == POINTLESS_VECTOR_EMPTY, same;
		if (vec != wvec || empty != wempty) same = 0; else if (empty) same = 1; else same = v->data.data_u32 == who[i]->data.data_u32 && (vec || v->type == who[i]->type);
		VP_CHECK((ids[i] == id) == same, "exactly the references to one container share its id");
	}
	if (nid < 64) { ids[nid] = id; who[nid++] = v; }
}
static void match(uint32_t i, pointless_value_t* v)
{
	uint32_t j, it = 0; pointless_value_t *kk = 0, *vv = 0;
	if (at[i]) { VP_CHECK(pointless_container_id(&p, at[i]) == pointless_container_id(&p, v) && at[i]->type == v->type, "each use of a container leads to the same stored container"); return; }
	at[i] = v;
	pointless_value_t* c[MAXS];
	if (kind[i] == G_VEC) {
		for (j = 0; j < ns[i]; j++) if (slot[i][j] != LEAF + 1) break;
		if (ns[i] && j == ns[i]) { VP_CHECK(v->type == POINTLESS_VECTOR_U8 && pointless_reader_vector_n_items(&p, v) == ns[i], "compact vector"); return; }
		VP_CHECK(v->type == (ns[i] == 0 ? POINTLESS_VECTOR_EMPTY : hashable[i] ? POINTLESS_VECTOR_VALUE_HASHABLE : POINTLESS_VECTOR_VALUE), "a vector is marked hashable exactly if it contains neither a cycle nor a set or map");
		if (!pointless_is_vector_type(v->type) || pointless_reader_vector_n_items(&p, v) != ns[i]) { VP_CHECK(0, "vector read back"); return; }
		for (j = 0; j < ns[i]; j++) c[j] = pointless_reader_vector_value(&p, v) + j;
	} else if (kind[i] == G_MAP) {
		VP_CHECK(v->type == POINTLESS_MAP_VALUE_VALUE && pointless_reader_map_n_items(&p, v) == ns[i], "map read back");
		if (v->type != POINTLESS_MAP_VALUE_VALUE) return;
		for (j = 0; j < ns[i]; j++) c[j] = 0;
		while (pointless_reader_map_iter(&p, v, &kk, &vv, &it)) { VP_CHECK(kk->type == POINTLESS_U32 && kk->data.data_u32 < ns[i], "map key"); if (kk->type == POINTLESS_U32 && kk->data.data_u32 < ns[i]) c[kk->data.data_u32] = vv; }
		for (j = 0; j < ns[i]; j++) { VP_CHECK(c[j] != 0, "map entry present"); if (!c[j]) return; }
	} else {
		// one member or key only
		int some = kind[i] == G_SET ? pointless_reader_set_iter(&p, v, &kk, &it) : pointless_reader_map_iter(&p, v, &kk, &vv, &it);
		VP_CHECK(v->type == (kind[i] == G_SET ? POINTLESS_SET_VALUE : POINTLESS_MAP_VALUE_VALUE) && some, "set or map read back");
		if (!some) return;
		c[0] = kk;
	}
	if (kind[i] == G_MAP || kind[i] == G_KEY) { id_of(pointless_map_hash_vector(&p, v)); id_of(pointless_map_key_vector(&p, v)); id_of(pointless_map_value_vector(&p, v)); }
	if (kind[i] == G_SET) { id_of(pointless_set_hash_vector(&p, v)); id_of(pointless_set_key_vector(&p, v)); }
	for (j = 0; j < ns[i]; j++) {
		switch (slot[i][j]) {
		case LEAF: VP_CHECK(c[j]->type == POINTLESS_NULL, "leaf"); break;
		case LEAF + 1: VP_CHECK(c[j]->type == POINTLESS_U32 && c[j]->data.data_u32 == 7, "leaf"); break;
		case LEAF + 2: VP_CHECK(c[j]->type == POINTLESS_VECTOR_EMPTY, "leaf"); if (c[j]->type == POINTLESS_VECTOR_EMPTY) id_of(c[j]); break;
		case LEAF + 3: VP_CHECK(c[j]->type == POINTLESS_VECTOR_U8, "leaf"); if (c[j]->type == POINTLESS_VECTOR_U8) id_of(c[j]); break;
		default: id_of(c[j]); match(slot[i][j], c[j]);
		}
	}
}
static void stored(void)
{
	pointless_create_t c; void* buf = 0; size_t len = 0; const char* error = 0; uint32_t h[MAXG], i, j, refuse = 0, ok;
	int leafroot = vp_arg(5) ? (int)vp_choice(2) : 0;
	pv_begin(&c);
	uint32_t nul = pointless_create_null(&c), seven = pointless_create_u32(&c, 7), emp = pointless_create_vector_value(&c), nat = pointless_create_vector_u8(&c);
	pointless_create_vector_u8_append(&c, nat, 9);
	for (i = 0; i < n; i++) { if (kind[i] >= G_SET) ns[i] = 1; h[i] = kind[i] == G_VEC ? pointless_create_vector_value(&c) : kind[i] == G_SET ? pointless_create_set(&c) : pointless_create_map(&c); VP_CHECK(h[i] != PV_FAIL, "container created"); }
	// with one member only, recompute reachability
	for (i = 0; i < n; i++) for (j = 0; j < n; j++) reach[i][j] = 0;
	for (i = 0; i < n; i++) for (j = 0; j < ns[i]; j++) if (slot[i][j] < LEAF) reach[i][slot[i][j]] = 1;
	for (uint32_t k = 0; k < n; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (reach[i][k] && reach[k][j]) reach[i][j] = 1;
	for (i = 0; i < n; i++) {
		hashable[i] = kind[i] == G_VEC && !reach[i][i];
		for (j = 0; j < n; j++) if (reach[i][j] && (kind[j] != G_VEC || reach[j][j])) hashable[i] = 0;
		for (j = 0; j < ns[i]; j++) {
			uint32_t x = slot[i][j], v = x == LEAF ? nul : x == LEAF + 1 ? seven : x == LEAF + 2 ? emp : x == LEAF + 3 ? nat : h[x], r;
			switch (kind[i]) {
			case G_VEC: r = pointless_create_vector_value_append(&c, h[i], v); break;
			case G_MAP: r = pointless_create_map_add(&c, h[i], pointless_create_u32(&c, j), v); break;
			case G_SET: r = pointless_create_set_add(&c, h[i], v); break;
			default: r = pointless_create_map_add(&c, h[i], v, nul);
			}
			VP_CHECK(r != PV_FAIL, "element added");
		}
	}
	for (i = 0; i < n; i++) if (kind[i] >= G_SET && slot[i][0] < LEAF && !hashable[slot[i][0]]) refuse = 1;
	pointless_create_set_root(&c, leafroot ? nul : h[0]);
	ok = (uint32_t)pointless_create_output_and_end_b(&c, &buf, &len, &error);
	VP_CHECK((ok != 0) == !refuse, "serialization refuses exactly the unhashable set members and map keys");
	VP_CHECK((ok != 0) == (error == 0), "an error is reported exactly on failure");
	if (!ok) { VP_CHECK(vp_heap_live() == 0, "no memory left allocated"); VP_REACH("refused"); return; }
	ok = (uint32_t)pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "serialized graph is accepted when opened"); if (!ok) return;
	if (vp_arg(6) && !pv_copy(&p, &buf, pointless_root(&p), 0)) return;
	if (!leafroot) {
		id_of(pointless_root(&p)); match(0, pointless_root(&p));
		void* m = pointless_cycle_marker_read(&p, &error);
		VP_CHECK(m != 0, "marking succeeds");
		for (i = 0; m && i < n; i++) if (at[i] && at[i]->type != POINTLESS_VECTOR_EMPTY) { VP_CHECK(bit(m, pointless_container_id(&p, at[i])) == reach[i][i], "a stored container is marked exactly if it can reach itself"); if (reach[i][i]) VP_REACH("stored cycle"); else VP_REACH("stored without cycle"); }
		free(m);
		for (i = 0; i < n; i++) if (at[i] && kind[i] == G_VEC) VP_CHECK((pointless_is_hashable(at[i]->type) != 0) == hashable[i], "values with a cycle are never hashable");
	}
	pointless_close(&p); free(buf);
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
}
int main()
{
	N = vp_arg(1); S = vp_arg(2);
	generate();
	if (vp_arg(0) == 0) algorithm(); else stored();
	return 0;
}
