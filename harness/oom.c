// Every memory allocation may fail: creation, serialization (memory and file), opening, copying.
// arg 0: 0 create  1 serialize  2 serialize to a file  3 open  4 copy  5 open a file  6 recreate a file
// arg 1: document  2: allocations considered  3: payload bits of texts (0: all)
#include "pv.h"
int vpf_find(const char*), vpf_create(const char*, const uint8_t*, uint32_t), vpf_open_count(void), vpf_entry_count(void), vpf_map_count(void);
void vpf_watch(void) {}
static mv* doc(uint32_t kind)
{
	mv* m; uint32_t i;
	switch (kind) {
	case 0: m = pv_vec(3); m->c[0] = pv_str(vp_choice(3)); m->c[1] = pv_ucs(1 + vp_choice(2)); m->c[2] = pv_null(); return m;
	case 1: m = pv_vec(2); m->c[0] = pv_bv(37); m->c[1] = pv_null(); for (i = 0; i < 16; i++) m->c[0]->raw[i] = (uint8_t)(i * 37 + 5); return m;
	case 2: { uint32_t t = pv_prim_types[vp_choice(9)], out = vp_choice(2); m = pv_vec(2); m->c[0] = pv_prim(t, 3, out); m->c[1] = pv_null(); return m; }
	case 3: m = pv_set(2); m->c[0] = pv_str(1); m->c[1] = pv_i32(70000); return m;
	case 4: m = pv_map(2); m->c[0] = pv_i32(1); m->d[0] = pv_vec(1); m->d[0]->c[0] = pv_i32(20000); m->c[1] = pv_vec(1); m->c[1]->c[0] = pv_bool(1); m->d[1] = pv_flt(0.5f); return m;
	case 5: m = pv_vec(3); m->c[0] = pv_vec(0); m->c[1] = pv_vec(1); m->c[1]->c[0] = pv_null(); m->c[2] = pv_vec(1); m->c[2]->c[0] = pv_bool(1); return m; // an empty vector before others
	case 6: return pv_any_leaf(2);
	case 7: m = pv_vec(3); m->c[0] = pv_i32(100000); m->c[1] = pv_i32(-100000); m->c[2] = pv_u32(100001); return m;
	case 8: m = pv_set(2); m->c[0] = pv_bv(40); m->c[1] = pv_vec(2); m->c[1]->c[0] = pv_str(1); m->c[1]->c[1] = pv_null(); for (i = 0; i < 5; i++) m->c[0]->raw[i] = (uint8_t)(0x93 + i); return m;
	default: m = pv_vec(PV_N); for (i = 0; i < PV_N; i++) m->c[i] = pv_i32(20000 + 7 * (int32_t)i); return m;
	}
}
static void arm(void) { vp_malloc_fail_at = 1 + (long)vp_choice(vp_arg(2)); }
static int disarm(void) { int fired = vp_malloc_fail_at == 0; vp_malloc_fail_at = 0; return fired; } // did an allocation fail
static mv* m; static void* plain; static size_t plain_len;
static int serialized(pointless_create_t* c, void** buf, size_t* len, const char** error) { return pointless_create_output_and_end_b(c, buf, len, error); }
static void in_memory(void)
{
	pointless_create_t c; const char* error = 0; uint32_t h;
	pointless_create_begin_64(&c); h = pv_make(&c, m); VP_CHECK(h != PV_FAIL, "creation succeeds"); pointless_create_set_root(&c, h);
	VP_CHECK(serialized(&c, &plain, &plain_len, &error), "serialization succeeds");
	VP_CHECK(vp_heap_live() == 1, "nothing but the result stays allocated");
}
static void reads_as(void* buf, size_t len, mv* x, const char* msg)
{
	pointless_t p; const char* error = 0;
	int ok = pointless_open_b(&p, buf, len, &error); VP_CHECK(ok, "serialized value is accepted when opened");
	if (ok) { VP_CHECK(pv_eq_read(&p, pointless_root(&p), x), msg); pointless_close(&p); }
}
static void create_mode(void)
{
	pointless_create_t c; const char* error = 0; uint32_t before, h, v; void* buf; size_t len; int fired; mv* all;
	pointless_create_begin_64(&c);
	before = pointless_create_vector_value(&c); VP_CHECK(before != PV_FAIL, "creation succeeds");
	mv* a = pv_vec(2); a->c[0] = pv_str(2); a->c[0]->it[0] = 'a'; a->c[0]->it[1] = 'b'; a->c[1] = pv_i32(30000);
	h = pv_make(&c, a->c[0]); VP_CHECK(h != PV_FAIL && pointless_create_vector_value_append(&c, before, h) != PV_FAIL, "creation succeeds");
	arm(); h = pv_make(&c, m); fired = disarm();
	VP_OUT(h); VP_OUT(fired);
	if (fired) VP_REACH("an allocation failed during creation"); else VP_CHECK(h != PV_FAIL, "creation fails only when an allocation fails");
	if (vp_choice(2)) { pointless_create_end(&c); VP_CHECK(vp_heap_live() == 0, "after the cleanup nothing stays allocated"); return; }
	if (h == PV_FAIL) { h = pv_make(&c, m); VP_CHECK(h != PV_FAIL, "the failed request succeeds when repeated"); }
	v = pv_make(&c, a->c[1]); VP_CHECK(v != PV_FAIL && pointless_create_vector_value_append(&c, before, v) != PV_FAIL, "what existed before remains usable");
	v = pointless_create_vector_value(&c); VP_CHECK(v != PV_FAIL, "creation succeeds");
	VP_CHECK(pointless_create_vector_value_append(&c, v, before) != PV_FAIL && pointless_create_vector_value_append(&c, v, h) != PV_FAIL, "creation succeeds");
	pointless_create_set_root(&c, v);
	VP_CHECK(serialized(&c, &buf, &len, &error), "serialization succeeds");
	all = pv_vec(2); all->c[0] = a; all->c[1] = m;
	reads_as(buf, len, all, "after a failure the values are intact");
	free(buf);
	VP_CHECK(vp_heap_live() == 0, "nothing stays allocated");
}
static void serialize_mode(int to_file)
{
	pointless_create_t c; const char* error = 0; uint32_t h; void* buf = 0; size_t len = 0; int r, fired, waste = vp_choice(2);
	pointless_create_begin_64(&c);
	if (waste) VP_CHECK(pointless_create_vector_value(&c) != PV_FAIL, "creation succeeds"); // never used
	h = pv_make(&c, m); VP_CHECK(h != PV_FAIL, "creation succeeds"); pointless_create_set_root(&c, h);
	arm();
	r = to_file ? pointless_create_output_and_end_f(&c, "out", &error) : serialized(&c, &buf, &len, &error);
	fired = disarm();
	VP_OUT(r); VP_OUT(fired);
	if (fired) VP_REACH("an allocation failed during serialization");
	if (r) {
		VP_REACH("serialized");
		if (to_file) VP_CHECK(vpf_find("out") >= 0 && vpf_entry_count() == 1, "the file is written");
		else { reads_as(buf, len, m, "the value is written"); free(buf); }
	} else {
		VP_CHECK(fired, "serialization fails only when an allocation fails");
		VP_CHECK(error != 0 && error[0] != 0, "a failure comes with a message");
		if (to_file) VP_CHECK(vpf_entry_count() == 0 && vpf_open_count() == 0, "after a failure no file is left");
		pointless_create_end(&c);
	}
	VP_CHECK(vp_heap_live() == 0, "nothing stays allocated");
}
static void open_mode(int from_file)
{
	pointless_t p; const char* error = 0; int r, fired;
	in_memory();
	if (from_file) vpf_create("in", plain, (uint32_t)plain_len);
	arm();
	r = from_file ? pointless_open_f(&p, "in", &error) : pointless_open_b(&p, plain, plain_len, &error);
	fired = disarm();
	VP_OUT(r); VP_OUT(fired);
	if (fired) VP_REACH("an allocation failed during opening");
	if (r) { VP_REACH("opened"); VP_CHECK(pv_eq_read(&p, pointless_root(&p), m), "the value is read"); pointless_close(&p); }
	else { VP_CHECK(fired, "opening fails only when an allocation fails"); VP_CHECK(error != 0 && error[0] != 0, "a failure comes with a message"); }
	VP_CHECK(vpf_open_count() == 0 && vpf_map_count() == 0, "no file stays open");
	free(plain);
	VP_CHECK(vp_heap_live() == 0, "nothing stays allocated");
}
static void copy_mode(void)
{
	pointless_t p; pointless_create_t c; const char* error = 0; uint32_t h; void* buf; size_t len; int fired;
	in_memory();
	VP_CHECK(pointless_open_b(&p, plain, plain_len, &error), "serialized value is accepted when opened");
	pointless_create_begin_64(&c);
	arm(); h = pointless_recreate_value(&p, pointless_root(&p), &c, &error); fired = disarm();
	VP_OUT(h); VP_OUT(fired);
	if (fired) VP_REACH("an allocation failed during copying");
	if (h == PV_FAIL) {
		VP_CHECK(fired, "copying fails only when an allocation fails"); VP_CHECK(error != 0 && error[0] != 0, "a failure comes with a message");
		h = pointless_recreate_value(&p, pointless_root(&p), &c, &error); VP_CHECK(h != PV_FAIL, "the failed copy succeeds when repeated");
	}
	if (vp_choice(2)) pointless_create_end(&c);
	else { pointless_create_set_root(&c, h); VP_CHECK(serialized(&c, &buf, &len, &error), "serialization succeeds"); reads_as(buf, len, m, "the copy is the value"); free(buf); }
	pointless_close(&p); free(plain);
	VP_CHECK(vp_heap_live() == 0, "nothing stays allocated");
}
static void recreate_mode(void)
{
	const char* error = 0; int r, fired;
	in_memory();
	vpf_create("in", plain, (uint32_t)plain_len); free(plain);
	arm(); r = pointless_recreate_64("in", "out", &error); fired = disarm();
	VP_OUT(r); VP_OUT(fired);
	if (fired) VP_REACH("an allocation failed during copying");
	if (r) VP_CHECK(vpf_find("out") >= 0, "the copy is written");
	else { VP_CHECK(fired, "copying fails only when an allocation fails"); VP_CHECK(error != 0 && error[0] != 0, "a failure comes with a message"); VP_CHECK(vpf_entry_count() == 1, "after a failure no file is left"); }
	VP_CHECK(vpf_open_count() == 0 && vpf_map_count() == 0, "no file stays open");
	VP_CHECK(vp_heap_live() == 0, "nothing stays allocated");
}
int main()
{
	pv_bits = vp_arg(3);
	m = doc(vp_arg(1));
	switch (vp_arg(0)) {
	case 0: create_mode(); break;
	case 1: case 2: serialize_mode(vp_arg(0) == 2); break;
	case 3: case 5: open_mode(vp_arg(0) == 5); break;
	case 4: copy_mode(); break;
	default: recreate_mode(); break;
	}
	return 0;
}
