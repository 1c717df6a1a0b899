// A model of the file system calls the library uses, for both builds (the library and the harness
// are compiled with -Dfopen=vpf_fopen and so on).  Files are inodes with bytes, directory entries
// name inodes, streams buffer what is written until they are flushed or closed.  While
// vpf_faults is positive every call but unlink() may fail, by a free input each; a failure takes
// one from vpf_faults.  At every call the harness' vpf_watch() runs: it states what must hold
// whenever the process or the machine stops.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/types.h>
#include "vp.h"
#define VPF_N 4
#define VPF_CAP 2048
#define VPF_NAME 24
typedef struct { int used, exists, synced; uint32_t len, mode; uint8_t data[VPF_CAP]; } vpf_inode_t;
typedef struct { int used; int inode; char name[VPF_NAME]; } vpf_entry_t;
typedef struct { int open, inode, writing; uint32_t pos; } vpf_fd_t;
typedef struct { int open, fd, writing, error; uint32_t n; uint8_t buf[VPF_CAP]; } vpf_stream_t;
typedef struct { int live; void* p; size_t len; int inode; } vpf_map_t;
vpf_inode_t vpf_inode[VPF_N]; vpf_entry_t vpf_entry[VPF_N]; vpf_fd_t vpf_fd[VPF_N]; vpf_stream_t vpf_stream[VPF_N]; vpf_map_t vpf_map[VPF_N];
int vpf_faults, vpf_failed, vpf_errno_kind; uint32_t vpf_calls;
void vpf_watch(void);

static int vpf_fault(int err)
{
	vpf_calls++;
	vpf_watch();
	if (vpf_faults <= 0 || !vp_concretize(vp_bool()))
		return 0;
	vpf_faults--; vpf_failed++; errno = err;
	return 1;
}
int vpf_find(const char* name)
{
	for (int i = 0; i < VPF_N; i++) if (vpf_entry[i].used && strcmp(vpf_entry[i].name, name) == 0) return i;
	return -1;
}
static int new_inode(void) { for (int i = 0; i < VPF_N; i++) if (!vpf_inode[i].used) { memset(&vpf_inode[i], 0, sizeof(vpf_inode[i])); vpf_inode[i].used = 1; return i; } vp_fail_limit("inodes of the file model"); return 0; }
static void new_entry(const char* name, int inode)
{
	if (strlen(name) >= VPF_NAME) vp_fail_limit("name length of the file model");
	for (int i = 0; i < VPF_N; i++) if (!vpf_entry[i].used) { vpf_entry[i].used = 1; vpf_entry[i].inode = inode; strcpy(vpf_entry[i].name, name); return; }
	vp_fail_limit("entries of the file model");
}
static int new_fd(int inode, int writing) { for (int i = 0; i < VPF_N; i++) if (!vpf_fd[i].open) { vpf_fd[i].open = 1; vpf_fd[i].inode = inode; vpf_fd[i].writing = writing; vpf_fd[i].pos = 0; return i; } vp_fail_limit("descriptors of the file model"); return 0; }
static int fd_of(int fd) { int i = fd - 100; VP_CHECK(i >= 0 && i < VPF_N, "a descriptor that was never opened is used"); VP_CHECK(vpf_fd[i].open, "a descriptor is used after it was closed"); return i; }
static vpf_stream_t* st_of(FILE* f) { vpf_stream_t* s = (vpf_stream_t*)f; VP_CHECK(s >= vpf_stream && s < vpf_stream + VPF_N, "a stream that was never opened is used"); VP_CHECK(s->open, "a stream is used after it was closed"); return s; }
static FILE* new_stream(int fd, int writing) { for (int i = 0; i < VPF_N; i++) if (!vpf_stream[i].open) { vpf_stream_t* s = &vpf_stream[i]; s->open = 1; s->fd = fd; s->writing = writing; s->n = 0; s->error = 0; return (FILE*)s; } vp_fail_limit("streams of the file model"); return 0; }
static int inode_write(int fd, const uint8_t* p, uint32_t n)
{
	vpf_fd_t* d = &vpf_fd[fd]; vpf_inode_t* o = &vpf_inode[d->inode];
	if (d->pos + n > VPF_CAP) vp_fail_limit("file size of the file model");
	if (n) { memcpy(o->data + d->pos, p, n); o->synced = 0; }
	d->pos += n;
	if (d->pos > o->len) o->len = d->pos;
	return 1;
}
int vpf_create(const char* name, const uint8_t* p, uint32_t n) // for the harness: a file that is already there
{
	int i = new_inode(); if (n) memcpy(vpf_inode[i].data, p, n); vpf_inode[i].len = n; vpf_inode[i].synced = 1; new_entry(name, i); return i;
}
int vpf_open_count(void) { int n = 0; for (int i = 0; i < VPF_N; i++) n += vpf_fd[i].open + vpf_stream[i].open; return n; }
int vpf_entry_count(void) { int n = 0; for (int i = 0; i < VPF_N; i++) n += vpf_entry[i].used; return n; }
int vpf_map_count(void) { int n = 0; for (int i = 0; i < VPF_N; i++) n += vpf_map[i].live; return n; }

int vpf_mkstemp(char* t)
{
	size_t n = strlen(t);
	if (n < 6 || strcmp(t + n - 6, "XXXXXX") != 0) { vpf_calls++; errno = EINVAL; return -1; }
	if (vpf_fault(EACCES)) return -1;
	memcpy(t + n - 6, "q7Zk0a", 6);
	VP_CHECK(vpf_find(t) < 0, "one temporary file at a time");
	int i = new_inode(); new_entry(t, i); vpf_inode[i].mode = 0600;
	return 100 + new_fd(i, 1);
}
FILE* vpf_fdopen(int fd, const char* mode) { int i = fd_of(fd); if (vpf_fault(ENOMEM)) return 0; return new_stream(i, mode[0] != 'r'); }
FILE* vpf_fopen(const char* name, const char* mode)
{
	int w = mode[0] != 'r', e = vpf_find(name), ino;
	if (vpf_fault(EMFILE)) return 0;
	if (e < 0) { if (!w) { errno = ENOENT; return 0; } ino = new_inode(); new_entry(name, ino); }
	else { ino = vpf_entry[e].inode; if (mode[0] == 'w') { vpf_inode[ino].len = 0; vpf_inode[ino].synced = 0; } }
	int d = new_fd(ino, w); if (mode[0] == 'a') vpf_fd[d].pos = vpf_inode[ino].len;
	vpf_watch();
	return new_stream(d, w);
}
static int st_flush(vpf_stream_t* s)
{
	if (s->n == 0) return 1;
	inode_write(s->fd, s->buf, s->n); s->n = 0; vpf_watch(); return 1;
}
size_t vpf_fwrite(const void* p, size_t sz, size_t n, FILE* f)
{
	vpf_stream_t* s = st_of(f); size_t len = sz * n;
	VP_CHECK(s->writing, "a stream opened for reading is written to");
	if (vpf_fault(ENOSPC)) { s->error = 1; return 0; }
	if (s->n + len > VPF_CAP) vp_fail_limit("stream buffer of the file model");
	if (len) memcpy(s->buf + s->n, p, len);
	s->n += (uint32_t)len;
	return sz ? n : 0;
}
int vpf_fputc(int c, FILE* f) { uint8_t b = (uint8_t)c; return vpf_fwrite(&b, 1, 1, f) == 1 ? b : EOF; }
long vpf_ftell(FILE* f) { vpf_stream_t* s = st_of(f); if (vpf_fault(ESPIPE)) return -1; return (long)(vpf_fd[s->fd].pos + s->n); }
int vpf_ferror(FILE* f) { return st_of(f)->error; }
int vpf_fflush(FILE* f)
{
	vpf_stream_t* s = st_of(f);
	if (vpf_fault(ENOSPC)) { s->error = 1; s->n = 0; return EOF; } // what could not be written is lost
	st_flush(s); return 0;
}
int vpf_fclose(FILE* f)
{
	vpf_stream_t* s = st_of(f); int r = 0;
	if (vpf_fault(EIO)) { s->n = 0; r = EOF; } else st_flush(s); // closed in either case
	s->open = 0; vpf_fd[s->fd].open = 0;
	return r;
}
int vpf_fileno(FILE* f) { vpf_stream_t* s = st_of(f); return 100 + s->fd; }
int vpf_fsync(int fd) { int i = fd_of(fd); if (vpf_fault(EIO)) return -1; vpf_inode[vpf_fd[i].inode].synced = 1; return 0; }
int vpf_fdatasync(int fd) { return vpf_fsync(fd); }
int vpf_fchmod(int fd, mode_t m) { int i = fd_of(fd); if (vpf_fault(EPERM)) return -1; vpf_inode[vpf_fd[i].inode].mode = m; return 0; }
int vpf_chmod(const char* name, mode_t m) { int e = vpf_find(name); if (vpf_fault(EPERM)) return -1; if (e < 0) { errno = ENOENT; return -1; } vpf_inode[vpf_entry[e].inode].mode = m; return 0; }
int vpf_close(int fd) { int i = fd_of(fd); int r = vpf_fault(EIO) ? -1 : 0; for (int k = 0; k < VPF_N; k++) VP_CHECK(!(vpf_stream[k].open && vpf_stream[k].fd == i), "the descriptor of an open stream is closed"); vpf_fd[i].open = 0; return r; }
int vpf_unlink(const char* name) { vpf_calls++; int e = vpf_find(name); if (e < 0) { errno = ENOENT; return -1; } vpf_entry[e].used = 0; vpf_watch(); return 0; }
int vpf_remove(const char* name) { return vpf_unlink(name); }
int vpf_rename(const char* a, const char* b)
{
	int e = vpf_find(a), t = vpf_find(b);
	if (vpf_fault(EACCES)) return -1;
	if (e < 0) { errno = ENOENT; return -1; }
	if (t == e) return 0;
	if (t >= 0) { vpf_entry[t].inode = vpf_entry[e].inode; vpf_entry[e].used = 0; }
	else { if (strlen(b) >= VPF_NAME) vp_fail_limit("name length of the file model"); strcpy(vpf_entry[e].name, b); }
	vpf_watch();
	return 0;
}
int vpf_fstat(int fd, struct stat* s) { int i = fd_of(fd); if (vpf_fault(EOVERFLOW)) return -1; memset(s, 0, sizeof(*s)); s->st_size = vpf_inode[vpf_fd[i].inode].len; s->st_mode = S_IFREG | 0400; return 0; }
void* vpf_mmap(void* at, size_t len, int prot, int flags, int fd, off_t off)
{
	int i = fd_of(fd); vpf_inode_t* o = &vpf_inode[vpf_fd[i].inode];
	if (len == 0) { vpf_calls++; errno = EINVAL; return MAP_FAILED; }
	if (vpf_fault(ENOMEM)) return MAP_FAILED;
	VP_CHECK(len <= o->len, "no more is mapped than the file holds");
	for (int k = 0; k < VPF_N; k++) if (!vpf_map[k].live) {
		void* p = malloc(len); if (p == 0) return MAP_FAILED;
		memcpy(p, o->data, len); vpf_map[k].live = 1; vpf_map[k].p = p; vpf_map[k].len = len; vpf_map[k].inode = vpf_fd[i].inode; return p;
	}
	vp_fail_limit("mappings of the file model"); return MAP_FAILED;
}
int vpf_munmap(void* p, size_t len)
{
	vpf_calls++;
	for (int k = 0; k < VPF_N; k++) if (vpf_map[k].live && vpf_map[k].p == p) {
		VP_CHECK(vpf_map[k].len == len, "a mapping is removed with its length");
		VP_CHECK(memcmp(p, vpf_inode[vpf_map[k].inode].data, len) == 0, "a mapped file is not written to");
		vpf_map[k].live = 0; free(p); return 0;
	}
	VP_CHECK(0, "only what was mapped is unmapped");
	return -1;
}
