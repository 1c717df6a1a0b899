// Container ids of any two values of any stored document, whatever its container counts.
#include "pv.h"
static int is_vec(uint32_t t) { return t == POINTLESS_VECTOR_VALUE || t == POINTLESS_VECTOR_VALUE_HASHABLE || t == POINTLESS_VECTOR_I8 || t == POINTLESS_VECTOR_U8 || t == POINTLESS_VECTOR_I16 || t == POINTLESS_VECTOR_U16 || t == POINTLESS_VECTOR_I32 || t == POINTLESS_VECTOR_U32 || t == POINTLESS_VECTOR_I64 || t == POINTLESS_VECTOR_U64 || t == POINTLESS_VECTOR_FLOAT; }
// 0 none, 1 empty vector, 2 vector, 3 set, 4 map
static int family(uint32_t t) { return t == POINTLESS_VECTOR_EMPTY ? 1 : is_vec(t) ? 2 : t == POINTLESS_SET_VALUE ? 3 : t == POINTLESS_MAP_VALUE_VALUE ? 4 : 0; }
int main()
{
	static pointless_header_t hd; pointless_t p; pointless_value_t a, b; uint64_t total;
	memset(&p, 0, sizeof(p)); p.header = &hd;
	hd.n_vector = vp_u32(); hd.n_set = vp_u32(); hd.n_map = vp_u32(); hd.n_string_unicode = vp_u32(); hd.n_bitvector = vp_u32();
	total = 1 + (uint64_t)hd.n_vector + hd.n_set + hd.n_map;
	VP_ASSUME(total < UINT32_MAX);
	VP_CHECK(pointless_n_containers(&p) == total, "number of containers");
	a.type = vp_u32(); a.data.data_u32 = vp_u32(); b.type = vp_u32(); b.data.data_u32 = vp_u32();
	int fa = family(a.type), fb = family(b.type);
	VP_CHECK((pointless_is_vector_type(a.type) != 0) == (fa == 1 || fa == 2), "exactly the vectors are treated as vectors");
	if (fa == 0) { VP_CHECK(pointless_container_id(&p, &a) == UINT32_MAX, "other values have no id"); VP_REACH("not a container"); return 0; }
	if (fb == 0) return 0;
	// references of an opened document are valid
	VP_ASSUME(fa == 1 || a.data.data_u32 < (fa == 2 ? hd.n_vector : fa == 3 ? hd.n_set : hd.n_map));
	VP_ASSUME(fb == 1 || b.data.data_u32 < (fb == 2 ? hd.n_vector : fb == 3 ? hd.n_set : hd.n_map));
	uint32_t ia = pointless_container_id(&p, &a), ib = pointless_container_id(&p, &b);
	VP_CHECK(ia < total && ib < total, "ids are below the number of containers");
	VP_CHECK((ia == ib) == (fa == fb && (fa == 1 || a.data.data_u32 == b.data.data_u32)), "exactly the references to one container share its id");
	VP_CHECK(ia == pointless_container_id(&p, &a), "the id is the same on every query");
	VP_REACH("two containers");
	return 0;
}
