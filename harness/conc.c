/* Threads of the library under a scheduler of our own.
 *
 * The library is compiled with the thread sanitizer's instrumentation but
 * linked with the functions below instead of its run time, and its lock calls
 * are redirected here too.  Exactly one thread runs at a time; it can be
 * stopped at the start of a call, before it takes a lock, after it releases
 * one, at every system call and, if asked, at every access to memory that is
 * not its stack.  Which switches happen is given by the script, so that every
 * run can be repeated.
 *
 *   T n OP...                        an operation of thread n
 *   run s n1,n2,.. [wp] [fine]       start with thread s, switch to the next one
 *                                    at the n1-th, n2-th, .. stop; wp: waiting
 *                                    writers keep new readers out
 *   record a,b,..                    run the threads one after another and print
 *                                    what locks and memory each used
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vf.h"
#include "conc.h"

#define MAXT 5
#define MAIN (MAXT - 1)
#define STACK (1 << 20)
#define MAXHIST 4096

int (*conc_exec)(char *);
void (*conc_emit)(const char *);

enum { FREE, READY, WAITING, DONE };
struct lk { void *at; int writer; int readers[MAXT]; };
static struct thr {
  pthread_t p;
  sem_t go;
  int state, mode;
  struct lk *want;
  char *ops[64];
  int nops, id;
  char *stack;
} T[MAXT];
static __thread int me = MAIN;
static sem_t alldone;
static int active, wp, fine, recording;
static long yields, waits, pre[64];
static int npre, ipre, order[MAXT], norder;
static long loops;

static char *hist[MAXHIST]; static int nhist;
static int invat[MAXHIST]; static int nid;

static void
emit(const char *fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  conc_emit(b);
}

static char *evs[MAXHIST];
static void
print_history(void) {
  int i;
  for (i = 0; i < nhist; i++) {
    int id = atoi(hist[i] + 1);
    if (hist[i][0] == 'i') {
      size_t n = (evs[id] ? strlen(evs[id]) : 2) + 100;
      char *b = malloc(n);
      snprintf(b, n, "{\"op\":\"inv\",\"e\":%s}", evs[id] ? evs[id] : "{\"op\":\"unfinished\"}");
      conc_emit(b);
      free(b);
    } else if (hist[i][0] == 'r') emit("{\"op\":\"res\",\"back\":%d}", i - invat[id]);
    else conc_emit(hist[i] + 1);
  }
}
static void add(const char *s) { if (nhist < MAXHIST) hist[nhist++] = strdup(s); }
static void bad(const char *what) {
  char b[100];
  snprintf(b, sizeof b, "b{\"op\":\"badlock\",\"what\":\"%s\",\"thread\":%d}", what, me);
  if (active) add(b); else conc_emit(b + 1);
}

static void
stop_now(const char *what) {
  print_history();
  emit("{\"op\":\"%s\",\"thread\":%d}", what, me);
  _exit(97);
}

/* ------------------------------------------------------------ scheduling */
static int
writer_waits(struct lk *l) {
  int t;
  for (t = 0; t < MAXT; t++) if (t != me && T[t].state == WAITING && T[t].want == l && T[t].mode == 2) return 1;
  return 0;
}
static int
grantable(struct lk *l, int mode, int t) {
  int i;
  if (l->writer >= 0) return 0;
  if (mode == 1) {
    if (!wp) return 1;
    for (i = 0; i < MAXT; i++) if (i != t && T[i].state == WAITING && T[i].want == l && T[i].mode == 2) return 0;
    return 1;
  }
  for (i = 0; i < MAXT; i++) if (l->readers[i]) return 0;
  return 1;
}
static int
pick(int from) {
  int k, t;
  for (k = 1; k <= MAXT; k++) {
    t = (from + k) % MAXT;
    if (t == MAIN) continue;
    if (T[t].state == READY || (T[t].state == WAITING && grantable(T[t].want, T[t].mode, t))) return t;
  }
  return -1;
}
static void
switch_to(int t) {
  if (t == me) return;
  sem_post(&T[t].go);
  while (sem_wait(&T[me].go)) ;
}
static void
yield(void) {
  int t;
  if (!active || me == MAIN) return;
  yields++;
  if (yields > 3000000) stop_now("livelock");
  if (ipre < npre && yields == pre[ipre]) {
    ipre++;
    t = pick(me);
    if (t >= 0) switch_to(t);
  }
}

/* -------------------------------------------------------------- recording */
struct block { char *at; size_t n; long id; };
static struct block *B; static int nB, capB; static long nextid;
extern char __data_start, _end;

static int
find(const char *p) {        /* index of the last block that starts at or before p */
  int lo = 0, hi = nB;
  while (lo < hi) { int m = (lo + hi) / 2; if (B[m].at <= p) lo = m + 1; else hi = m; }
  return lo - 1;
}

struct acc { long b, o, n, t; int w; };      /* t: the block that the pointer read there leads to */
static long recbase;
static struct acc *seg[MAXT]; static int nseg[MAXT], capseg[MAXT];
static int *hash[MAXT]; static int caphash[MAXT];
static char *prog[MAXT]; static size_t nprog[MAXT], capprog[MAXT];

static void
ptext(int t, const char *fmt, ...) {
  va_list ap;
  char b[256];
  int n;
  va_start(ap, fmt); n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (nprog[t] + n + 1 > capprog[t]) { capprog[t] = capprog[t] * 2 + 65536; prog[t] = realloc(prog[t], capprog[t]); }
  memcpy(prog[t] + nprog[t], b, n + 1);
  nprog[t] += n;
}
static void
endseg(int t) {
  int i;
  if (!nseg[t]) return;
  ptext(t, "%s[\"A\",[", nprog[t] ? "," : "");
  for (i = 0; i < nseg[t]; i++) ptext(t, "%s[%ld,%ld,%ld,%d,%ld]", i ? "," : "", seg[t][i].b, seg[t][i].o, seg[t][i].n, seg[t][i].w, seg[t][i].t);
  ptext(t, "]]");
  nseg[t] = 0;
  if (caphash[t]) memset(hash[t], -1, caphash[t] * sizeof(int));
}
static void
record_access(long b, long o, long n, int w, long tg) {
  unsigned h, i;
  int t = me;
  struct acc *a;
  if (nseg[t] * 2 >= caphash[t]) {
    int k;
    caphash[t] = caphash[t] ? caphash[t] * 4 : 1024;
    hash[t] = realloc(hash[t], caphash[t] * sizeof(int));
    memset(hash[t], -1, caphash[t] * sizeof(int));
    for (k = 0; k < nseg[t]; k++) {
      a = &seg[t][k];
      h = (unsigned)(a->b * 2654435761u + a->o * 40503u + a->n * 97u + a->w + a->t * 131u) % caphash[t];
      while (hash[t][h] >= 0) h = (h + 1) % caphash[t];
      hash[t][h] = k;
    }
  }
  h = (unsigned)(b * 2654435761u + o * 40503u + n * 97u + w + tg * 131u) % caphash[t];
  for (i = h; hash[t][i] >= 0; i = (i + 1) % caphash[t]) {
    a = &seg[t][hash[t][i]];
    if (a->b == b && a->o == o && a->n == n && a->w == w && a->t == tg) return;
  }
  if (nseg[t] == capseg[t]) { capseg[t] = capseg[t] * 2 + 256; seg[t] = realloc(seg[t], capseg[t] * sizeof *a); }
  a = &seg[t][nseg[t]];
  a->b = b; a->o = o; a->n = n; a->w = w; a->t = tg;
  hash[t][i] = nseg[t]++;
}
/* Where is it? -1: not shared memory of the library. */
static long
where(const void *p, long *o) {
  const char *c = p;
  int i;
  if (c >= &__data_start && c < &_end) { *o = c - &__data_start; return 0; }
  i = find(c);
  if (i < 0 || c >= B[i].at + B[i].n) return -1;
  *o = c - B[i].at;
  return B[i].id;
}
static void
access_(const void *p, size_t n, int w) {
  long o, b;
  if (me == MAIN || !active || !(fine || recording) || n == 0) return;
  if ((char *)p >= T[me].stack && (char *)p < T[me].stack + STACK) return;
  b = where(p, &o);
  if (b < 0) return;
  if (recording) {
    if (n != 8) record_access(b, o, n, w, 0);
    if (!w && n >= 8 && n <= 65536) {
      size_t k;
      for (k = 0; k + 8 <= n; k += 8) {
        void *v;
        long vo, vb;
        memcpy(&v, (const char *)p + k, 8);
        vb = where(v, &vo);
        if (vb <= recbase) vb = 0;
        if (vb || n == 8) record_access(b, o + k, 8, 0, vb);
      }
    } else if (n == 8) record_access(b, o, n, w, 0);
  }
  if (fine) yield();
}
static void
mem(int freed, void *p, size_t n) {
  int i = find(p);
  if (freed) {
    if (i >= 0 && B[i].at == p) {
      access_(p, B[i].n ? B[i].n : 1, 1);
      i = find(p);
      memmove(B + i, B + i + 1, (nB - i - 1) * sizeof *B);
      nB--;
    }
    return;
  }
  if (nB == capB) { capB = capB * 2 + 1024; B = realloc(B, capB * sizeof *B); }
  memmove(B + i + 2, B + i + 1, (nB - i - 1) * sizeof *B);
  B[i + 1].at = p; B[i + 1].n = n; B[i + 1].id = ++nextid;
  nB++;
}
static void touch(const void *p, size_t n, int w) { access_(p, n, w); }
static void
fduse(int fd, int w) {
  static long gen[1024];
  if (fd < 0 || fd >= 1024) return;
  if (w == 2) gen[fd]++;
  if (me == MAIN || !active || !recording) return;
  record_access(-1 - fd - 1024 * gen[fd], 0, 1, w ? 1 : 0, 0);
}
static void gate(int kind, const char *path) { (void)kind; (void)path; yield(); }

/* ------------------------------------------------------------------ locks */
static struct lk *locks[4096]; static int nlocks;
static struct lk *
lookup(void *at) {
  int i;
  for (i = 0; i < nlocks; i++) if (locks[i]->at == at) return locks[i];
  return NULL;
}
static int
lock_init(void *at) {
  struct lk *l = lookup(at);
  if (!l) { l = calloc(1, sizeof *l); l->at = at; if (nlocks == 4096) abort(); locks[nlocks++] = l; }
  memset(l->readers, 0, sizeof l->readers);
  l->writer = -1;
  access_(at, 1, 1);
  return 0;
}
static int
lock_destroy(void *at) {
  struct lk *l = lookup(at);
  int i;
  access_(at, 1, 1);
  if (!l) { bad("destroying no lock"); return 0; }
  if (l->writer >= 0) bad("destroying a held lock");
  for (i = 0; i < MAXT; i++) if (l->readers[i]) bad("destroying a held lock");
  for (i = 0; i < MAXT; i++) if (T[i].state == WAITING && T[i].want == l) bad("destroying an awaited lock");
  for (i = 0; i < nlocks; i++) if (locks[i] == l) locks[i] = locks[--nlocks];
  return 0;      /* not freed: somebody may wait for it */
}
static void
plock(char c, void *at, int mode) {
  long o = 0, b;
  if (!recording || me == MAIN) return;
  b = where(at, &o);
  endseg(me);
  ptext(me, "%s[\"%c\",\"%ld:%ld\",%d]", nprog[me] ? "," : "", c, b, o, mode);
}
static int
lock_get(void *at, int mode, int try) {
  struct lk *l;
  int t;
  yield();
  access_(at, 1, 0);
  l = lookup(at);
  if (!l && (char *)at >= &__data_start && (char *)at < &_end) { lock_init(at); l = lookup(at); }   /* initialized statically */
  if (!l) { bad("locking no lock"); return 0; }
  while (!grantable(l, mode, me)) {
    if (try) return 16; /* EBUSY */
    if (me == MAIN) stop_now("deadlock");
    T[me].state = WAITING; T[me].want = l; T[me].mode = mode;
    waits++;
    t = pick(me);
    if (t < 0) stop_now("deadlock");
    switch_to(t);
    if (loops++ > 10000000) stop_now("livelock");
  }
  T[me].state = READY;
  if (mode == 2) l->writer = me; else l->readers[me]++;
  plock('L', at, mode);
  return 0;
}
static int
lock_release(void *at) {
  struct lk *l = lookup(at);
  if (!l) { bad("unlocking no lock"); return 0; }
  access_(at, 1, 0);
  if (l->writer == me) { plock('U', at, 2); l->writer = -1; }
  else if (l->readers[me]) { plock('U', at, 1); l->readers[me]--; }
  else bad("unlocking a lock that is not held");
  yield();
  return 0;
}
int vf_pthread_mutex_init(void *m, void *a) { (void)a; return lock_init(m); }
int vf_pthread_mutex_destroy(void *m) { return lock_destroy(m); }
int vf_pthread_mutex_lock(void *m) { return lock_get(m, 2, 0); }
int vf_pthread_mutex_trylock(void *m) { return lock_get(m, 2, 1); }
int vf_pthread_mutex_unlock(void *m) { return lock_release(m); }
int vf_pthread_rwlock_init(void *m, void *a) { (void)a; return lock_init(m); }
int vf_pthread_rwlock_destroy(void *m) { return lock_destroy(m); }
int vf_pthread_rwlock_rdlock(void *m) { return lock_get(m, 1, 0); }
int vf_pthread_rwlock_tryrdlock(void *m) { return lock_get(m, 1, 1); }
int vf_pthread_rwlock_wrlock(void *m) { return lock_get(m, 2, 0); }
int vf_pthread_rwlock_trywrlock(void *m) { return lock_get(m, 2, 1); }
int vf_pthread_rwlock_unlock(void *m) { return lock_release(m); }

/* ------------------------------------------------- what the compiler calls */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *p) { access_(p, n, 0); } \
  void __tsan_write##n(void *p) { access_(p, n, 1); } \
  void __tsan_unaligned_read##n(void *p) { access_(p, n, 0); } \
  void __tsan_unaligned_write##n(void *p) { access_(p, n, 1); } \
  void __tsan_read_write##n(void *p) { access_(p, n, 0); access_(p, n, 1); } \
  void __tsan_unaligned_read_write##n(void *p) { access_(p, n, 0); access_(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_(s, n, 0); access_(d, n, 1); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_(s, n, 0); access_(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, n, 1); return memset(d, c, n); }
/* Atomic accesses are never races: they are not recorded. */
#define ATOMIC(bits, type) \
  type __tsan_atomic##bits##_load(const type *p, int o) { (void)o; if (fine) yield(); return *p; } \
  void __tsan_atomic##bits##_store(type *p, type v, int o) { (void)o; if (fine) yield(); *p = v; } \
  type __tsan_atomic##bits##_exchange(type *p, type v, int o) { type r = *p; (void)o; *p = v; if (fine) yield(); return r; } \
  type __tsan_atomic##bits##_fetch_add(type *p, type v, int o) { type r = *p; (void)o; *p += v; if (fine) yield(); return r; } \
  type __tsan_atomic##bits##_fetch_sub(type *p, type v, int o) { type r = *p; (void)o; *p -= v; if (fine) yield(); return r; } \
  type __tsan_atomic##bits##_fetch_or(type *p, type v, int o) { type r = *p; (void)o; *p |= v; if (fine) yield(); return r; } \
  type __tsan_atomic##bits##_fetch_and(type *p, type v, int o) { type r = *p; (void)o; *p &= v; if (fine) yield(); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(type *p, type *e, type v, int o, int f) { \
    (void)o; (void)f; if (fine) yield(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(type *p, type *e, type v, int o, int f) { \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, f); } \
  type __tsan_atomic##bits##_compare_exchange_val(type *p, type e, type v, int o, int f) { \
    type r = *p; (void)o; (void)f; if (r == e) *p = v; return r; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }
int vf_memcmp(const void *a, const void *b, size_t n) { access_(a, n, 0); access_(b, n, 0); return memcmp(a, b, n); }
int vf_bcmp(const void *a, const void *b, size_t n) { return vf_memcmp(a, b, n); }

/* -------------------------------------------------------------------- runs */
void
conc_begin(void) {
  char b[32];
  if (!active || me == MAIN) return;
  if (nid >= MAXHIST) stop_now("toolong");
  T[me].id = nid++;
  snprintf(b, sizeof b, "i%d", T[me].id);
  invat[T[me].id] = nhist;
  add(b);
  yield();
}
int
conc_done(const char *ev, size_t n) {
  char b[32];
  if (!active || me == MAIN) return 0;
  evs[T[me].id] = strndup(ev, n);
  snprintf(b, sizeof b, "r%d", T[me].id);
  add(b);
  return 1;
}

static void *
body(void *arg) {
  int i, t;
  me = (int)(intptr_t)arg;
  while (sem_wait(&T[me].go)) ;
  for (i = 0; i < T[me].nops; i++) { char *s = strdup(T[me].ops[i]); conc_exec(s); free(s); }
  for (i = 0; i < nlocks; i++) if (locks[i]->writer == me || locks[i]->readers[me]) bad("a lock is still held");
  endseg(me);
  T[me].state = DONE;
  if (norder) {
    for (i = 0; i < norder; i++) if (order[i] == me) break;
    t = i + 1 < norder ? order[i + 1] : -1;
  } else t = pick(me);
  if (t >= 0) sem_post(&T[t].go);
  else {
    for (i = 0; i < MAXT; i++) if (i != MAIN && T[i].state == WAITING) stop_now("deadlock");
    sem_post(&alldone);
  }
  return NULL;
}

static void
go(int start) {
  int t;
  pthread_attr_t at;
  sem_init(&alldone, 0, 0);
  yields = waits = 0; ipre = 0;
  alarm(60);
  active = 1;
  for (t = 0; t < MAXT; t++) {
    if (t == MAIN || !T[t].nops) continue;
    sem_init(&T[t].go, 0, 0);
    T[t].state = READY;
    T[t].stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, T[t].stack, STACK);
    if (pthread_create(&T[t].p, &at, body, (void *)(intptr_t)t)) abort();
  }
  sem_post(&T[start].go);
  while (sem_wait(&alldone)) ;
  for (t = 0; t < MAXT; t++) if (t != MAIN && T[t].nops) pthread_join(T[t].p, NULL);
  active = 0;
  alarm(0);
}

int conc_active(void) { return active && me != MAIN; }
void conc_hooks(void) { vf_mem = mem; vf_touch = touch; vf_fduse = fduse; vf_gate = gate; }

int
conc_cmd(char **tok, int nt) {
  int i, t;
  char *s;
  if (!strcmp(tok[0], "T")) {
    char b[8192] = "";
    t = atoi(tok[1]);
    for (i = 2; i < nt; i++) { strcat(b, i > 2 ? " " : ""); strcat(b, tok[i]); }
    if (t < 0 || t >= MAIN || T[t].nops == 64) abort();
    T[t].ops[T[t].nops++] = strdup(b);
    return 1;
  }
  if (!strcmp(tok[0], "run")) {
    npre = 0; wp = fine = 0; norder = 0; nhist = nid = 0;
    for (i = 2; i < nt; i++) {
      if (!strcmp(tok[i], "wp")) wp = 1;
      else if (!strcmp(tok[i], "fine")) fine = 1;
      else if (strcmp(tok[i], "-")) for (s = strtok(tok[i], ","); s && npre < 64; s = strtok(NULL, ",")) pre[npre++] = atol(s);
    }
    go(atoi(tok[1]));
    print_history();
    emit("{\"op\":\"nocut\",\"x\":0,\"yields\":%ld,\"waits\":%ld}", yields, waits);
  } else if (!strcmp(tok[0], "record")) {
    char *all;
    size_t n = 200;
    long base = recbase = nextid;
    norder = npre = 0; wp = fine = 0; nhist = nid = 0;
    for (s = strtok(tok[1], ","); s; s = strtok(NULL, ",")) order[norder++] = atoi(s);
    recording = 1;
    go(order[0]);
    recording = 0;
    print_history();
    for (t = 0; t < MAXT; t++) n += nprog[t] + 10;
    all = malloc(n);
    s = all + sprintf(all, "{\"op\":\"record\",\"base\":%ld,\"progs\":[", base);
    for (t = 0; t < MAIN; t++) {
      s += sprintf(s, "%s[", t ? "," : "");
      if (nprog[t]) { memcpy(s, prog[t], nprog[t]); s += nprog[t]; }
      s += sprintf(s, "]");
      nprog[t] = 0;
    }
    strcpy(s, "]}");
    conc_emit(all);
    free(all);
  } else return 0;
  for (t = 0; t < MAXT; t++) { while (T[t].nops) free(T[t].ops[--T[t].nops]); T[t].state = FREE; }
  return 1;
}
