#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <limits.h>
#include "vf.h"

/* The hook's run-time limits. */
size_t urkel_verif_max_file_size = 0x7ffff000;
size_t urkel_verif_max_open_files = 32;
size_t urkel_verif_write_buffer = 64 << 20;
size_t urkel_verif_read_buffer = 1 << 20;

vf_fault_t vf_faults[VF_MAXFAULT];
int vf_nfaults;
long vf_fired, vf_soft;
uint32_t vf_fired_kinds;
long vf_heap, vf_maps, vf_fds, vf_calls;
void (*vf_trace)(int, long, const char *);
void (*vf_gate)(int, const char *);
void (*vf_die)(void);
int (*vf_lockw)(int, void *);
uint64_t vf_seed = 1;
static uint64_t own_ctr;
uint64_t *vf_randctr = &own_ctr;
static int rand_fd = -1;

const char *vf_kindname[K_MAX] = {
  "open", "close", "read", "write", "pread", "pwrite", "stat", "fstat",
  "mmap", "munmap", "trunc", "unlink", "mkdir", "rmdir", "sync", "fcntl",
  "opendir", "readdir", "rename", "getcwd", "lseek"
};

static void
die(void) {
  if (vf_die) vf_die();
  _exit(99);
}

/* Decide what happens to this call. */
static vf_fault_t *
step(int kind, long len, const char *path) {
  int i;
  vf_fault_t *hit = NULL;
  if (vf_gate) vf_gate(kind, path);
  vf_calls++;
  if (vf_trace) vf_trace(kind, len, path);
  for (i = 0; i < vf_nfaults; i++) {
    vf_fault_t *f = &vf_faults[i];
    if (!(f->mask & (1u << kind))) continue;
    f->seen++;
    if (hit) continue;
    if (f->seen == f->nth
        || (f->every > 0 && f->seen > f->nth && (f->seen - f->nth) % f->every == 0)) {
      if ((f->act == A_SHORT || f->act == A_PARTERR) && len >= 0 && len <= f->arg) continue;
      f->fired++;
      hit = f;
    }
  }
  if (hit && hit->act != A_SHORT && !(hit->act == A_ERR && (hit->err == EINTR
      || (hit->err == EAGAIN && (kind == K_READ || kind == K_WRITE || kind == K_PREAD || kind == K_PWRITE))))) {
    vf_fired++;
    vf_fired_kinds |= 1u << kind;
  } else if (hit) vf_soft++;
  if (hit && hit->act == A_KILL) die();
  return hit;
}

/* Nothing outside this folder is created, changed or removed. */
const char *vf_root;
long vf_escapes;
char *vf_refused;
size_t vf_refusedn;
int vf_refused_kind;
static int
contained(int kind, const char *path) {
  char full[12000], dir[PATH_MAX + 1], *s;
  size_t n;
  if (!vf_root || !path) return 1;
  if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
  else {
    char cwd[6000];
    if (!getcwd(cwd, sizeof cwd)) return 1;
    snprintf(full, sizeof full, "%s/%s", cwd, path);
  }
  n = strlen(full);
  while (n > 1 && full[n - 1] == '/') full[--n] = 0;
  s = strrchr(full, '/');
  if (!strcmp(s, "/..") || !strcmp(s, "/.")) { if (!realpath(full, dir) && !vf_refused) return 1; }
  else { *s = 0; if (!realpath(*full ? full : "/", dir) && !vf_refused) return 1; }
  n = strlen(vf_root);
  if (!vf_refused && strncmp(dir, vf_root, n) == 0 && (dir[n] == 0 || dir[n] == '/')) return 1;
  vf_escapes++;
  if (vf_refused && !vf_refused[0]) { snprintf(vf_refused, vf_refusedn, "%s", path); vf_refused_kind = kind; }
  errno = EACCES;
  return 0;
}

static int
failing(vf_fault_t *f) {
  if (f && f->act == A_ERR) {
    errno = f->err;
    return 1;
  }
  return 0;
}

static void
after(vf_fault_t *f) {
  if (f && (f->act == A_KILLA || f->act == A_KILLP)) die();
}

/* Memory */
void (*vf_mem)(int, void *, size_t);
void (*vf_touch)(const void *, size_t, int);
void (*vf_fduse)(int, int);
#define MEM(f, p, n) do { if (vf_mem && (p)) vf_mem(f, p, n); } while (0)
#define TOUCH(p, n, w) do { if (vf_touch) vf_touch(p, n, w); } while (0)
#define FDUSE(fd, w) do { if (vf_fduse) vf_fduse(fd, w); } while (0)
void *vf_malloc(size_t n) { void *p = malloc(n); if (p) { vf_heap++; memset(p, 0xa5, n < 4096 ? n : 4096); } MEM(0, p, n); return p; }
void *vf_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) vf_heap++; MEM(0, p, a * b); return p; }
void *vf_realloc(void *o, size_t n) {
  void *p;
  MEM(1, o, 0);
  p = realloc(o, n);
  if (p && !o) vf_heap++;
  MEM(0, p, n);
  return p;
}
void vf_free(void *p) { MEM(1, p, 0); if (p) vf_heap--; free(p); }
char *vf_strdup(const char *s) { char *p = strdup(s); if (p) vf_heap++; MEM(0, p, strlen(s) + 1); return p; }

/* Files */
static int
open_(const char *path, int flags, mode_t mode) {
  vf_fault_t *f = step(K_OPEN, -1, path);
  int fd;
  if (failing(f)) return -1;
  if ((flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && !contained(K_OPEN, path)) return -1;
  if (strcmp(path, "/dev/urandom") == 0 || strcmp(path, "/dev/random") == 0) {
    fd = open("/dev/zero", O_RDONLY | O_CLOEXEC);
    rand_fd = fd;
  } else {
    fd = open(path, flags, mode);
    if (fd != -1 && fd == rand_fd) rand_fd = -1;
  }
  if (fd != -1) { vf_fds++; FDUSE(fd, 2); }
  after(f);
  return fd;
}

int vf_open(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  return open_(path, flags, mode);
}
int vf_creat(const char *path, mode_t mode) { return open_(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int vf_openat(int dir, const char *path, int flags, ...) {
  mode_t mode = 0;
  vf_fault_t *f;
  int fd;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  f = step(K_OPEN, -1, path);
  if (failing(f)) return -1;
  fd = openat(dir, path, flags, mode);
  if (fd != -1) { vf_fds++; FDUSE(fd, 2); }
  after(f);
  return fd;
}

int vf_close(int fd) {
  vf_fault_t *f = step(K_CLOSE, fd, NULL);
  int r;
  FDUSE(fd, 1);
  if (fd == rand_fd) rand_fd = -1;
  r = close(fd);
  if (r == 0) vf_fds--;
  after(f);
  if (failing(f)) return -1;
  return r;
}

static uint64_t
mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

ssize_t vf_read(int fd, void *buf, size_t n) {
  vf_fault_t *f = step(K_READ, (long)n, NULL);
  ssize_t r;
  if (failing(f)) return -1;
  if (f && f->act == A_SHORT && (size_t)f->arg < n) n = f->arg;
  if (fd == rand_fd && fd != -1) {
    size_t i;
    for (i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)mix(vf_seed * 1000003 + (*vf_randctr)++);
    r = (ssize_t)n;
  } else {
    FDUSE(fd, 1);
    r = read(fd, buf, n);
    if (r > 0) TOUCH(buf, r, 1);
  }
  after(f);
  return r;
}

ssize_t vf_pread(int fd, void *buf, size_t n, off_t off) {
  vf_fault_t *f = step(K_PREAD, (long)n, NULL);
  ssize_t r;
  if (failing(f)) return -1;
  if (f && f->act == A_SHORT && (size_t)f->arg < n) n = f->arg;
  FDUSE(fd, 0);
  r = pread(fd, buf, n, off);
  if (r > 0) TOUCH(buf, r, 1);
  after(f);
  return r;
}

static int parterr;  /* the next write fails with this */

static ssize_t
write_(int kind, int fd, const void *buf, size_t n, off_t off, int at) {
  vf_fault_t *f;
  ssize_t r;
  if (parterr) {
    if (vf_gate) vf_gate(kind, NULL);
    vf_calls++;
    if (vf_trace) vf_trace(kind, (long)n, NULL);
    errno = parterr;
    parterr = 0;
    return -1;
  }
  f = step(kind, (long)n, NULL);
  if (failing(f)) return -1;
  if (f && f->act == A_ZERO) return 0;
  if (f && (f->act == A_SHORT || f->act == A_PARTERR || f->act == A_KILLP) && (size_t)f->arg < n) n = f->arg;
  FDUSE(fd, at ? 0 : 1);
  if (n) TOUCH(buf, n, 0);
  r = n == 0 && f ? 0 : at ? pwrite(fd, buf, n, off) : write(fd, buf, n);
  if (f && f->act == A_PARTERR) {
    parterr = f->err;
    if (n == 0) { parterr = 0; errno = f->err; return -1; }
  }
  after(f);
  return r;
}

ssize_t vf_write(int fd, const void *buf, size_t n) { return write_(K_WRITE, fd, buf, n, 0, 0); }
ssize_t vf_pwrite(int fd, const void *buf, size_t n, off_t off) { return write_(K_PWRITE, fd, buf, n, off, 1); }
ssize_t vf_writev(int fd, const struct iovec *v, int c) {
  size_t n = 0, o = 0; int i; char *b; ssize_t r;
  for (i = 0; i < c; i++) n += v[i].iov_len;
  b = malloc(n + 1);
  for (i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  r = write_(K_WRITE, fd, b, n, 0, 0);
  free(b);
  return r;
}

int vf_stat(const char *p, struct stat *st) { vf_fault_t *f = step(K_STAT, -1, p); int r; if (failing(f)) return -1; r = stat(p, st); after(f); return r; }
int vf_lstat(const char *p, struct stat *st) { vf_fault_t *f = step(K_STAT, -1, p); int r; if (failing(f)) return -1; r = lstat(p, st); after(f); return r; }
int vf_access(const char *p, int m) { vf_fault_t *f = step(K_STAT, -1, p); int r; if (failing(f)) return -1; r = access(p, m); after(f); return r; }
int vf_fstat(int fd, struct stat *st) { vf_fault_t *f = step(K_FSTAT, fd, NULL); int r; if (failing(f)) return -1; r = fstat(fd, st); after(f); return r; }

void *vf_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  vf_fault_t *f = step(K_MMAP, (long)n, NULL);
  void *p;
  if (failing(f)) return MAP_FAILED;
  p = mmap(a, n, prot, flags, fd, off);
  if (p != MAP_FAILED) { vf_maps++; MEM(0, p, n); }
  after(f);
  return p;
}
/* A mapping that munmap refused to release is not the library's any more,
 * unless it asks again. */
#define NSTUCK 64
static void *stuck[NSTUCK]; static int nstuck;
int vf_munmap(void *a, size_t n) {
  vf_fault_t *f = step(K_MUNMAP, (long)n, NULL);
  int r, i, again = 0;
  MEM(1, a, n);
  for (i = 0; i < nstuck; i++) if (stuck[i] == a) again = i + 1;
  if (f && f->act == A_ERR && !again && nstuck < NSTUCK) { stuck[nstuck++] = a; vf_maps--; }
  if (failing(f)) return -1;
  r = munmap(a, n);
  if (r == 0 && again) stuck[again - 1] = stuck[--nstuck];
  else if (r == 0) vf_maps--;
  after(f);
  return r;
}
#define SIMPLEN(kind, num, call) do { vf_fault_t *f = step(kind, num, NULL); int r; if (failing(f)) return -1; r = (call); after(f); return r; } while (0)
#define SIMPLE(kind, path, call) do { vf_fault_t *f = step(kind, -1, path); int r; if (failing(f) || !contained(kind, path)) return -1; r = (call); after(f); return r; } while (0)
int vf_ftruncate(int fd, off_t n) { FDUSE(fd, 1); SIMPLEN(K_TRUNC, fd, ftruncate(fd, n)); }
int vf_truncate(const char *p, off_t n) { SIMPLE(K_TRUNC, p, truncate(p, n)); }
int vf_fallocate(int fd, off_t o, off_t n) { SIMPLE(K_TRUNC, NULL, posix_fallocate(fd, o, n)); }
int vf_unlink(const char *p) { SIMPLE(K_UNLINK, p, unlink(p)); }
int vf_remove(const char *p) { SIMPLE(K_UNLINK, p, remove(p)); }
int vf_mkdir(const char *p, mode_t m) { SIMPLE(K_MKDIR, p, mkdir(p, m)); }
int vf_rmdir(const char *p) { SIMPLE(K_RMDIR, p, rmdir(p)); }
int vf_rename(const char *p, const char *q) { if (!contained(K_RENAME, q)) return -1; SIMPLE(K_RENAME, p, rename(p, q)); }
int vf_link(const char *p, const char *q) { if (!contained(K_RENAME, q)) return -1; SIMPLE(K_RENAME, p, link(p, q)); }
/* Syncing the scratch file system would cost time and prove nothing: the
 * effect is recorded instead. */
void (*vf_synced)(int fd);
static int
sync_(int fd) {
  vf_fault_t *f = step(K_SYNC, fd, NULL);
  struct stat st;
  if (failing(f)) return -1;
  if (fstat(fd, &st)) return -1;
  if (vf_synced) vf_synced(fd);
  after(f);
  return 0;
}
int vf_fsync(int fd) { return sync_(fd); }
int vf_fdatasync(int fd) { return sync_(fd); }
int vf_msync(void *a, size_t n, int fl) { SIMPLE(K_SYNC, NULL, msync(a, n, fl)); }
off_t vf_lseek(int fd, off_t o, int w) { vf_fault_t *f = step(K_LSEEK, -1, NULL); off_t r; FDUSE(fd, 1); if (failing(f)) return -1; r = lseek(fd, o, w); after(f); return r; }
char *vf_getcwd(char *b, size_t n) { vf_fault_t *f = step(K_GETCWD, -1, NULL); char *r; if (failing(f)) return NULL; r = getcwd(b, n); after(f); return r; }
int vf_fcntl(int fd, int cmd, ...) {
  va_list ap; void *arg; vf_fault_t *f; int r;
  va_start(ap, cmd); arg = va_arg(ap, void *); va_end(ap);
  f = step(K_FCNTL, cmd, NULL);
  if (failing(f)) return -1;
  r = cmd == F_SETLKW && vf_lockw ? vf_lockw(fd, arg) : fcntl(fd, cmd, arg);
  after(f);
  return r;
}
DIR *vf_opendir(const char *p) {
  vf_fault_t *f = step(K_OPENDIR, -1, p);
  DIR *d;
  if (failing(f)) return NULL;
  d = opendir(p);
  if (d) vf_fds++;
  after(f);
  return d;
}
struct dirent *vf_readdir(DIR *d) {
  vf_fault_t *f = step(K_READDIR, -1, NULL);
  struct dirent *r;
  if (failing(f)) return NULL;
  r = readdir(d);
  after(f);
  return r;
}
int vf_closedir(DIR *d) {
  int r = closedir(d);
  if (r == 0) vf_fds--;
  return r;
}
