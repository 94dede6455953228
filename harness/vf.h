/* Interposed system calls: the library's objects are linked with these in
 * place of libc's (see tools/build.py), so a harness can count, fail,
 * shorten or interrupt any of them, or end the process inside one. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>

enum vf_kind {
  K_OPEN, K_CLOSE, K_READ, K_WRITE, K_PREAD, K_PWRITE, K_STAT, K_FSTAT,
  K_MMAP, K_MUNMAP, K_TRUNC, K_UNLINK, K_MKDIR, K_RMDIR, K_SYNC, K_FCNTL,
  K_OPENDIR, K_READDIR, K_RENAME, K_GETCWD, K_LSEEK, K_MAX
};

enum vf_act { A_NONE, A_ERR, A_SHORT, A_PARTERR, A_KILL, A_KILLP, A_KILLA, A_RETRY, A_ZERO };

typedef struct {
  uint32_t mask;   /* kinds */
  long nth;        /* 1-based; counts matching calls */
  long every;      /* 0: once; k: again every k-th call after nth */
  int act;
  int err;
  long arg;        /* bytes */
  long seen;
  long fired;
} vf_fault_t;

#define VF_MAXFAULT 8
extern vf_fault_t vf_faults[VF_MAXFAULT];
extern int vf_nfaults;
extern long vf_fired;            /* faults injected so far */
extern long vf_soft;             /* short and interrupted calls */
extern uint32_t vf_fired_kinds;  /* kinds of those */
extern long vf_heap;             /* blocks held by the library */
extern long vf_maps;             /* mappings held by the library */
extern long vf_fds;              /* descriptors and directories held */
extern long vf_calls;
extern void (*vf_trace)(int kind, long len, const char *path);
extern void (*vf_gate)(int kind, const char *path);  /* before each call */
extern void (*vf_die)(void);
extern int (*vf_lockw)(int fd, void *lock);    /* stands in for a lock request that waits */
extern void (*vf_synced)(int fd);              /* after a successful sync */
extern const char *vf_root;          /* all changes must stay below */
extern long vf_escapes;
extern char *vf_refused;            /* if set: gets the first path that was refused */
extern size_t vf_refusedn;
extern int vf_refused_kind;
extern uint64_t vf_seed;
extern uint64_t *vf_randctr;
extern const char *vf_kindname[K_MAX];
extern void (*vf_mem)(int freed, void *p, size_t n);        /* blocks and mappings */
extern void (*vf_touch)(const void *p, size_t n, int w);   /* memory used by a system call */
extern void (*vf_fduse)(int fd, int w);
#endif
