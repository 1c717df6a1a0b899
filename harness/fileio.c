// Writing to files, opening and copying them, on a modelled file system whose calls may fail.
// arg 0: 0 write  1 open  2 recreate  3 open of damaged content
// arg 1: document  2: most failing calls  3: payload bits of texts (0: all)
#include "pv.h"
#include <sys/stat.h>
extern int vpf_faults, vpf_failed; extern uint32_t vpf_calls;
typedef struct { int used, exists, synced; uint32_t len, mode; uint8_t data[2048]; } vpf_inode_t;
typedef struct { int used; int inode; char name[24]; } vpf_entry_t;
extern vpf_inode_t vpf_inode[4]; extern vpf_entry_t vpf_entry[4];
int vpf_find(const char*), vpf_create(const char*, const uint8_t*, uint32_t), vpf_open_count(void), vpf_entry_count(void), vpf_map_count(void);
static const uint8_t old[3] = { 7, 8, 9 };
static uint8_t* want; static size_t want_len; static int had, watching; static const char* target = "dir/out";
static int is_old(void) { int e = vpf_find(target); if (!had) return e < 0; return e >= 0 && vpf_inode[vpf_entry[e].inode].len == 3 && memcmp(vpf_inode[vpf_entry[e].inode].data, old, 3) == 0; }
static int is_new(void) { int e = vpf_find(target); return e >= 0 && want && vpf_inode[vpf_entry[e].inode].len == want_len && memcmp(vpf_inode[vpf_entry[e].inode].data, want, want_len) == 0; }
// what must hold wherever the process or the machine stops
void vpf_watch(void)
{
	int e;
	if (!watching) return;
	if (is_old()) return;
	VP_CHECK(is_new(), "at every moment the target holds the old or the complete new content");
	e = vpf_find(target);
	VP_CHECK(e >= 0 && vpf_inode[vpf_entry[e].inode].synced, "the new content is on stable storage before it replaces the old");
}
static mv* doc(uint32_t kind)
{
	mv* m; uint32_t i;
	switch (kind) {
	case 0: m = pv_vec(2); m->c[0] = pv_str(vp_choice(6)); m->c[1] = pv_ucs(vp_choice(3)); return m;
	case 1: { static const uint32_t b[4] = { 1, 5, 33, 70 }; m = pv_vec(2); m->c[0] = pv_bv(b[vp_choice(4)]); m->c[1] = pv_null(); if (m->c[0]->n > 5) for (i = 1; i < 16; i++) m->c[0]->raw[i] = 0xa5; m->c[0]->raw[0] &= 7; return m; }
	case 2: { uint32_t t = pv_prim_types[vp_choice(9)], n = 1 + vp_choice(4); return pv_prim(t, n, vp_choice(2)); }
	case 3: m = pv_vec(4); m->c[0] = pv_set(1); m->c[0]->c[0] = pv_i32(5); m->c[1] = pv_map(1); m->c[1]->c[0] = pv_str(2); m->c[1]->d[0] = pv_flt(2.5f); m->c[2] = pv_vec(0); m->c[3] = pv_u32(vp_u32()); return m;
	case 4: return 0; // no root
	case 5: m = pv_set(1); m->c[0] = pv_map(0); return m; // not hashable
	case 6: return pv_i32((int32_t)vp_u32());
	default: m = pv_vec(2); m->c[0] = pv_str(3); m->c[1] = pv_null(); return m;
	}
}
static int make(pointless_create_t* c, mv* m)
{
	uint32_t h;
	pointless_create_begin_64(c);
	if (m == 0) return 1;
	h = pv_make(c, m); VP_CHECK(h != PV_FAIL, "creation succeeds");
	pointless_create_set_root(c, h);
	return 1;
}
static int in_memory(mv* m, void** buf, size_t* len)
{
	pointless_create_t c; const char* error = 0;
	make(&c, m);
	if (!pointless_create_output_and_end_b(&c, buf, len, &error)) { pointless_create_end(&c); *buf = 0; *len = 0; return 0; }
	return 1;
}
static void written(int r, int possible, const char* error, uint32_t entries)
{
	watching = 0;
	VP_CHECK(vpf_open_count() == 0, "no stream or descriptor stays open");
	if (r) {
		VP_REACH("written");
		VP_CHECK(possible, "what cannot be written to memory cannot be written to a file");
		VP_CHECK(is_new(), "after success the target holds the same bytes as in memory");
		VP_CHECK(vpf_entry_count() == (int)entries + !had, "nothing but the target is written");
	} else {
		VP_REACH("not written");
		VP_CHECK(vpf_failed || !possible, "writing fails only when a call fails");
		VP_CHECK(error != 0 && error[0] != 0, "a failure comes with a message");
		VP_CHECK(is_old(), "after a failure the target is as before");
		VP_CHECK(vpf_entry_count() == (int)entries, "after a failure no temporary file is left");
	}
}
static void write_mode(void)
{
	mv* m = doc(vp_arg(1)); pointless_create_t c; const char* error = 0; void* buf; int r, possible;
	possible = in_memory(m, &buf, &want_len); want = buf;
	VP_CHECK(vp_heap_live() == (buf ? 1 : 0), "nothing but the result stays allocated");
	had = vp_choice(2); if (had) vpf_create(target, old, 3);
	make(&c, m);
	vpf_faults = vp_arg(2); watching = 1;
	r = pointless_create_output_and_end_f(&c, target, &error);
	written(r, possible, error, had);
	VP_OUT(r); VP_OUT(vpf_calls); VP_OUT(vpf_failed); if (error) VP_OUT(strlen(error));
	if (vp_choice(2)) pointless_create_end(&c); // a second cleanup does no harm
	VP_CHECK(vp_heap_live() == (buf ? 1 : 0), "nothing stays allocated");
	free(buf);
}
static void open_mode(void)
{
	mv* m = doc(vp_arg(1)); const char* error = 0; const char* e2 = 0; void* buf; size_t len; pointless_t p, q; int r, s, ino, skip = vp_choice(2), missing;
	VP_CHECK(in_memory(m, &buf, &len), "serialization succeeds");
	if (vp_arg(0) == 3) { // any damage of one word, or a shorter file
		if (vp_choice(2)) { uint32_t at = vp_choice((uint32_t)len / 4 < 20 ? (uint32_t)len / 4 : 20), w = vp_u32(); memcpy((uint8_t*)buf + 4 * at, &w, 4); }
		else len = vp_choice((uint32_t)len + 1);
		skip = 0;
	}
	missing = vp_choice(2);
	ino = vpf_create(missing ? "else" : "in", buf, (uint32_t)len);
	vpf_faults = vp_arg(2);
	r = skip ? pointless_open_f_skip_validate(&p, "in", &error) : pointless_open_f(&p, "in", &error);
	vpf_faults = 0;
	s = pointless_open_b(&q, buf, len, &e2);
	VP_OUT(r); VP_OUT(s); VP_OUT(vpf_failed);
	if (missing) VP_CHECK(!r, "a missing file is not opened");
	else if (!vpf_failed) VP_CHECK((r != 0) == (s != 0), "a file is accepted exactly when its bytes are");
	else VP_CHECK(!r, "a failing call makes opening fail");
	if (r) {
		VP_REACH("opened");
		if (vp_arg(0) != 3) VP_CHECK(pv_eq_read(&p, pointless_root(&p), m), "the value is read from the file");
		else { pointless_value_t *a = pointless_root(&p), *b = pointless_root(&q); VP_CHECK(a->type == b->type && a->data.data_u32 == b->data.data_u32, "the same root"); }
		VP_CHECK(vpf_map_count() == 1, "the file is mapped");
		pointless_close(&p);
	} else {
		VP_REACH("not opened");
		VP_CHECK(error != 0 && error[0] != 0, "a failure comes with a message");
	}
	if (s) pointless_close(&q);
	VP_CHECK(vpf_open_count() == 0, "no stream or descriptor stays open");
	VP_CHECK(vpf_map_count() == 0, "no mapping stays");
	VP_CHECK(vpf_entry_count() == 1 && vpf_inode[ino].len == len && memcmp(vpf_inode[ino].data, buf, len) == 0, "the file is not changed");
	free(buf);
	VP_CHECK(vp_heap_live() == 0, "nothing stays allocated");
}
static void recreate_mode(void)
{
	mv* m = doc(vp_arg(1)); const char* error = 0; void* buf; size_t len; int r, ino;
	VP_CHECK(in_memory(m, &buf, &len), "serialization succeeds");
	// what the copy must be: the copy made in memory
	{ pointless_t p; pointless_create_t c; uint32_t h; void* b;
	VP_CHECK(pointless_open_b(&p, buf, len, &error), "serialized value is accepted when opened");
	pointless_create_begin_64(&c); h = pointless_recreate_value(&p, pointless_root(&p), &c, &error);
	VP_CHECK(h != PV_FAIL, "the value is copied"); pointless_create_set_root(&c, h);
	VP_CHECK(pointless_create_output_and_end_b(&c, &b, &want_len, &error), "the copy is serialized"); want = b;
	pointless_close(&p); }
	ino = vpf_create("in", buf, (uint32_t)len);
	had = vp_choice(2); if (had) vpf_create(target, old, 3);
	error = 0; vpf_faults = vp_arg(2); watching = 1;
	r = pointless_recreate_64("in", target, &error);
	VP_OUT(r); VP_OUT(vpf_calls);
	written(r, 1, error, 1 + had);
	VP_CHECK(vpf_map_count() == 0, "no mapping stays");
	VP_CHECK(vpf_inode[ino].len == len && memcmp(vpf_inode[ino].data, buf, len) == 0, "the source is not changed");
	free(buf); free(want);
	VP_CHECK(vp_heap_live() == 0, "nothing stays allocated");
}
int main()
{
	pv_bits = vp_arg(3);
	switch (vp_arg(0)) {
	case 0: write_mode(); break;
	case 1: case 3: open_mode(); break;
	case 2: recreate_mode(); break;
	}
	return 0;
}
