/* Runs scripts against the library and records every call and its result
 * as one JSON object per line.  See tools/scripts.md for the language.
 *
 *   driver SCRIPT TRACE SCRATCH
 *
 * The script is cut into blocks that run in child processes: `new' starts a
 * fresh database directory, `proc' a new process on the same one.  A child
 * may be ended in the middle of a system call by the fault engine; that, and
 * any other death, becomes an event. */
#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <urkel.h>
#include "vf.h"
#ifdef VF_CONC
#include "conc.h"
#endif

extern size_t urkel_verif_max_file_size, urkel_verif_max_open_files;
extern size_t urkel_verif_write_buffer, urkel_verif_read_buffer;

#define NREG 128
#define NPROOF 128
#define PROOFMAX 65536
#define NTX 32
#define NIT 16
#define NKEYS 4096
#define MAXTOK 4100
#define NFILES 256

struct sync { ino_t ino; long size; };

/* Survives the death of a child. */
static struct shared {
  char reg[NREG][65];
  char proof[NPROOF][2 * PROOFMAX + 1];
  int isopen;
  struct call { char op[32], t[16], k[72], v[2200]; } call;
  uint64_t randctr;
  size_t limits[4];
  int nsync, lastfile;
  struct sync sync[NFILES];
  char keys[NKEYS][65];
  int nkeys;
  long killed;
  int slack;
} *sh;
static struct call *cur;      /* the call in progress */

static char scratch[4096], base[4096 + 64], dbdir[8192], dbpath[16384];
static int out_fd;
static int counts, curline;
static urkel_t *db;
static urkel_tx_t *tx[NTX];
static urkel_iter_t *it[NIT];
static int slack;             /* result codes of errors are free */

/* Output */
static __thread char *ob;
static __thread size_t on, ocap;
static void
o(const char *fmt, ...) {
  va_list ap;
  int n;
  for (;;) {
    va_start(ap, fmt);
    n = vsnprintf(ob + on, ocap - on, fmt, ap);
    va_end(ap);
    if ((size_t)n < ocap - on) break;
    ocap = ocap * 2 + n + 1024;
    ob = realloc(ob, ocap);
  }
  on += n;
}
static void
ohex(const unsigned char *p, size_t n) {
  static const char hx[] = "0123456789abcdef";
  size_t i;
  if (ocap - on < 2 * n + 16) { ocap = ocap * 2 + 2 * n + 1024; ob = realloc(ob, ocap); }
  for (i = 0; i < n; i++) { ob[on++] = hx[p[i] >> 4]; ob[on++] = hx[p[i] & 15]; }
  ob[on] = 0;
}
#ifndef VF_CONC
static int multi_self(void);
static void cli(char **, int), clienv_set(const char *);
static void multi_begin(const char *), multi_result(void), multi_run(char **, int), multi_line(char **, int);
#endif
static void
flush_event(void) {
  size_t d = 0;
#ifdef VF_CONC
  if (conc_done(ob, on)) { on = 0; return; }
#else
  if (multi_self()) { multi_result(); return; }
#endif
  o("\n");
  while (d < on) {
    ssize_t w = write(out_fd, ob + d, on - d);
    if (w <= 0) abort();
    d += w;
  }
  on = 0;
}

/* Somebody removed the current folder: no event of the specification. */
static void
gone(void) {
  o("{\"op\":\"gone\"}");
  flush_event();
  _exit(3);
}

/* Call log of the current operation */
static char *cl; static size_t cln, clcap;
static void
trace(int kind, long len, const char *path) {
  char b[64];
  const char *base = path ? strrchr(path, '/') : NULL;
  int n;
  if (cln > 1 << 24) return;
  n = snprintf(b, sizeof b, "%s%s:%ld:%.20s", cln ? "," : "", vf_kindname[kind], len, base ? base + 1 : "");
  if (cln + n + 1 > clcap) { clcap = clcap * 2 + 4096; cl = realloc(cl, clcap); }
  memcpy(cl + cln, b, n + 1);
  cln += n;
}

static __thread long f0, s0;
static __thread char curop[32];

static void
copystr(char *d, size_t n, const char *s) { snprintf(d, n, "%s", s ? s : ""); }

/* Something ran for too long: the rest is not worth it. */
int hung;

static void
timer(int n) {
#ifdef VF_CONC
  if (conc_active()) return;
#endif
  alarm(n);
}

static void
begin(const char *op, const char *t, const char *k, const char *v) {
  copystr(cur->op, sizeof cur->op, op);
  copystr(curop, sizeof curop, op);
  copystr(cur->t, sizeof cur->t, t);
  copystr(cur->k, sizeof cur->k, k);
  copystr(cur->v, sizeof cur->v, v);
  f0 = vf_fired; s0 = vf_soft; vf_fired_kinds = 0;
  cln = 0;
#ifndef VF_CONC
  multi_begin(op);
#endif
  timer(30);
  errno = 0;
  urkel_errno = 0;
#ifdef VF_CONC
  conc_begin();
#endif
}

/* After the call: closes the window for faults. */
static void
ended(int ret) {
  uint32_t fk = vf_fired_kinds;
  int e = ret ? 0 : urkel_errno, i, first = 1;
  timer(0);
  o("{\"op\":\"%s\",\"ret\":%d,\"err\":%d,\"f\":%ld,\"s\":%ld,\"fk\":[", curop, ret, e, vf_fired - f0, vf_soft - s0);
  for (i = 0; i < K_MAX; i++) if (fk & (1u << i)) { o("%s\"%s\"", first ? "" : ",", vf_kindname[i]); first = 0; }
  o("]");
  if (counts) o(",\"l\":%d,\"c\":\"%s\"", curline, cln ? cl : "");
  copystr(cur->op, sizeof cur->op, "none");
}
static void done(void) { o("}"); flush_event(); }

/* Parsing */
static int
split(char *s, char **tok) {
  int n = 0;
  char *p;
  for (p = strtok(s, " \t\r\n"); p && n < MAXTOK; p = strtok(NULL, " \t\r\n")) tok[n++] = p;
  return n;
}
static int
hexval(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

static void
fatal(const char *m, const char *x) { fprintf(stderr, "driver: %s: %s\n", m, x ? x : ""); fflush(stderr); _exit(98); }

/* Registers expand to their hex text; $N^B is register N with bit B changed. */
static const char *
deref(const char *t) {
  if (t[0] == '$') {
    static __thread char near[2][65];
    static __thread int which;
    int r = atoi(t + 1);
    const char *c = strchr(t, '^');
    if (r < 0 || r >= NREG) fatal("register", t);
    if (c) {
      int b = atoi(c + 1) & 255;
      char *x = near[which ^= 1];
      copystr(x, 65, sh->reg[r]);
      if (strlen(x) == 64) x[b / 4] = "0123456789abcdef"[hexval(x[b / 4]) ^ 8 >> b % 4];
      return x;
    }
    return sh->reg[r];
  }
  if (t[0] == '%') { int r = atoi(t + 1); if (r < 0 || r >= NPROOF) fatal("register", t); return sh->proof[r]; }
  return t;
}

/* Bytes: hex, a register, "-" (none), or rN:S (N bytes made from seed S). */
static unsigned char *
bytes(const char *t, size_t *n) {
  static __thread unsigned char *pool[8];
  static __thread int which;
  unsigned char *b;
  size_t i, len;
  t = deref(t);
  which = (which + 1) % 8;
  if (t[0] == 'r') {
    unsigned long cnt, s = 0;
    char *e;
    cnt = strtoul(t + 1, &e, 10);
    if (*e == ':') s = strtoul(e + 1, NULL, 10);
    free(pool[which]);
    b = pool[which] = malloc(cnt + 1);
    for (i = 0; i < cnt; i++) { s = s * 6364136223846793005ul + 1442695040888963407ul + i; b[i] = s >> 33; }
    *n = cnt;
    return b;
  }
  if (strcmp(t, "-") == 0) t = "";
  len = strlen(t);
  free(pool[which]);
  b = pool[which] = malloc(len / 2 + 1);
  for (i = 0; i + 1 < len; i += 2) {
    if (hexval(t[i]) < 0 || hexval(t[i + 1]) < 0) fatal("hex", t);
    b[i / 2] = hexval(t[i]) * 16 + hexval(t[i + 1]);
  }
  *n = len / 2;
  return b;
}

static void spelled(char *, size_t, const char *);

static unsigned char *
b32(const char *t) {
  size_t n;
  unsigned char *b = bytes(t, &n);
  if (n != 32) fatal("not 32 bytes", t);
  return b;
}

static char *
hex(const unsigned char *p, size_t n) {
  static __thread char *pool[8];
  static __thread int which;
  static const char hx[] = "0123456789abcdef";
  size_t i;
  which = (which + 1) % 8;
  pool[which] = realloc(pool[which], 2 * n + 1);
  for (i = 0; i < n; i++) { pool[which][2 * i] = hx[p[i] >> 4]; pool[which][2 * i + 1] = hx[p[i] & 15]; }
  pool[which][2 * n] = 0;
  return pool[which];
}

static int idx(const char *t, int max) { int i = atoi(t + 1); if (i < 0 || i >= max) fatal("index", t); return i; }

/* Directory */
static int
isdata(const char *n) { return strlen(n) == 10 && strspn(n, "0123456789") == 10 && !strncmp(n, "00000", 5); }

static void
fpath(char *p, size_t n, int f) { snprintf(p, n, "%s/%010d", dbdir, f); }

static int
newest(void) {
  DIR *d = opendir(dbdir);
  struct dirent *e;
  int m = 0;
  if (!d) return 0;
  while ((e = readdir(d))) if (isdata(e->d_name) && atoi(e->d_name) > m) m = atoi(e->d_name);
  closedir(d);
  return m;
}
static long
fsize(int f) {
  char p[5000];
  struct stat st;
  fpath(p, sizeof p, f);
  return stat(p, &st) == 0 ? (long)st.st_size : -1;
}
static void
opos(int ok) { int f = newest(); if (ok) sh->lastfile = f; o(",\"pos\":[%d,%ld]", f, f ? fsize(f) : 0L); }

static void
osizes(const char *name) {
  int f, m = newest();
  o(",\"%s\":[", name);
  for (f = 1; f <= m; f++) o("%s%ld", f > 1 ? "," : "", fsize(f));
  o("]");
}

static int
cmpstr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }

static void
onames(void) {
  DIR *d = opendir(dbdir);
  struct dirent *e;
  char *names[1024];
  int n = 0, i;
  o(",\"exists\":%d,\"names\":[", d != NULL);
  if (d) {
    while ((e = readdir(d)) && n < 1024)
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names[n++] = strdup(e->d_name);
    closedir(d);
    qsort(names, n, sizeof *names, cmpstr);
    for (i = 0; i < n; i++) { o("%s\"%s\"", i ? "," : "", names[i]); free(names[i]); }
  }
  o("]");
}

static int
rm_cb(const char *p, const struct stat *st, int fl, struct FTW *w) {
  (void)st; (void)fl; (void)w;
  if (strncmp(p, scratch, strlen(scratch)) == 0) remove(p);
  return 0;
}
static void
rmtree(const char *p) { if (strncmp(p, scratch, strlen(scratch)) == 0 && strlen(p) > strlen(scratch)) nftw(p, rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

static void
vf_synced_(int fd) {
  struct stat st;
  int i;
  if (fstat(fd, &st)) return;
  for (i = 0; i < sh->nsync; i++) if (sh->sync[i].ino == st.st_ino) break;
  if (i == sh->nsync) { if (i == NFILES) return; sh->nsync++; }
  sh->sync[i].ino = st.st_ino;
  sh->sync[i].size = st.st_size;
}
static long
synced(const char *path) {
  struct stat st;
  int i;
  if (stat(path, &st)) return 0;
  for (i = 0; i < sh->nsync; i++) if (sh->sync[i].ino == st.st_ino) return sh->sync[i].size < st.st_size ? sh->sync[i].size : st.st_size;
  return 0;
}

static void
died(void) { sh->killed = 1; _exit(99); }

static const int errnos[] = { EIO, ENOSPC, EINTR, EAGAIN, ENOENT, EACCES, EMFILE, ENOMEM, EDQUOT, EBADF, ENFILE, EFBIG, ELOOP, ESTALE, EROFS, EINVAL, EPERM, ENOLCK };
static const char *errnames[] = { "EIO", "ENOSPC", "EINTR", "EAGAIN", "ENOENT", "EACCES", "EMFILE", "ENOMEM", "EDQUOT", "EBADF", "ENFILE", "EFBIG", "ELOOP", "ESTALE", "EROFS", "EINVAL", "EPERM", "ENOLCK" };
static const char *actnames[] = { "none", "err", "short", "parterr", "kill", "killp", "killa", "retry", "zero" };

static void
setlimits(void) {
  urkel_verif_max_file_size = sh->limits[0];
  urkel_verif_max_open_files = sh->limits[1];
  urkel_verif_write_buffer = sh->limits[2];
  urkel_verif_read_buffer = sh->limits[3];
}

static void
save(char **tok, int nt, int at, const unsigned char *root) {
  if (nt > at && tok[at][0] == '=') snprintf(sh->reg[idx(tok[at], NREG)], 65, "%s", hex(root, 32));
}

static void
oval(const char *name, const unsigned char *v, size_t n) { o(",\"%s\":\"", name); ohex(v, n); o("\""); }

/* One whole look at a contents. */
static void
dump(const char *w, const char *what) {
  urkel_tx_t *t = NULL;
  const char *kind = "db", *name = "";
  unsigned char root[32], key[32], *r = NULL, at[32], v[2048];
  const char *rh = "";
  size_t n;
  int i, first, ret;
  unsigned char *p;
  if (w[0] == 't') { kind = "tx"; name = w; t = tx[idx(w, NTX)]; if (!t) fatal("no tx", w); }
  else if (w[0] == '@') { kind = "at"; memcpy(at, b32(w + 1), 32); r = at; rh = hex(at, 32); }
  begin("dump", name, NULL, NULL);
  o("{\"op\":\"dump\",\"w\":\"%s\",\"t\":\"%s\",\"r\":\"%s\"", kind, name, rh);
  if (strchr(what, 'r') && !r) {
    if (t) urkel_tx_root(t, root); else urkel_root(db, root);
    oval("root", root, 32);
  } else o(",\"root\":\"\"");
  o(",\"gets\":[");
  for (i = 0; strchr(what, 'g') && i < sh->nkeys; i++) {
    memcpy(key, b32(sh->keys[i]), 32);
    n = 77777;
    urkel_errno = 0;
    ret = t ? urkel_tx_get(t, v, &n, key) : urkel_get(db, v, &n, key, r);
    o("%s{\"k\":\"%s\",\"ret\":%d,\"err\":%d,\"n\":%ld", i ? "," : "", sh->keys[i], ret, ret ? 0 : urkel_errno, (long)n);
    oval("v", v, ret && n <= 1023 ? n : 0);
    o("}");
  }
  o("],\"has\":[");
  for (i = 0; strchr(what, 'h') && i < sh->nkeys; i++) {
    memcpy(key, b32(sh->keys[i]), 32);
    urkel_errno = 0;
    ret = t ? urkel_tx_has(t, key) : urkel_has(db, key, r);
    o("%s{\"k\":\"%s\",\"ret\":%d,\"err\":%d}", i ? "," : "", sh->keys[i], ret, ret ? 0 : urkel_errno);
  }
  o("],\"proofs\":[");
  for (i = 0; strchr(what, 'p') && i < sh->nkeys; i++) {
    memcpy(key, b32(sh->keys[i]), 32);
    p = NULL; n = 77777;
    urkel_errno = 0;
    ret = t ? urkel_tx_prove(t, &p, &n, key) : urkel_prove(db, &p, &n, key, r);
    o("%s{\"k\":\"%s\",\"ret\":%d,\"err\":%d", i ? "," : "", sh->keys[i], ret, ret ? 0 : urkel_errno);
    oval("p", p, ret ? n : 0);
    if (ret && strchr(what, 'v')) {
      int ex = 77, vr;
      size_t vn = 77777;
      if (t) urkel_tx_root(t, root); else if (r) memcpy(root, r, 32); else urkel_root(db, root);
      vr = urkel_verify(&ex, v, &vn, p, n, key, root);
      o(",\"vret\":%d,\"ex\":%d,\"n\":%ld", vr, ex, (long)vn);
      oval("v", v, vr && vn <= 1023 ? vn : 0);
    } else o(",\"vret\":-1,\"ex\":0,\"n\":0,\"v\":\"\"");
    o("}");
    if (ret) urkel_free(p);
  }
  o("],\"iter\":[");
  first = 1;
  if (strchr(what, 'i')) {
    urkel_iter_t *x = t ? urkel_iter_create(t) : urkel_iterate(db, r);
    int e = 0, more = 0;
    if (x) {
      for (;;) {
        n = 77777; urkel_errno = 0;
        if (!urkel_iter_next(x, key, v, &n)) { e = urkel_errno; break; }
        o("%s{\"k\":\"%s\",\"n\":%ld", first ? "" : ",", hex(key, 32), (long)n);
        oval("v", v, n <= 1023 ? n : 0);
        o("}");
        first = 0;
      }
      urkel_errno = 0;
      more = urkel_iter_next(x, key, v, &n) ? 77 : urkel_errno;   /* asking again */
      urkel_iter_destroy(x);
    }
    o("],\"ic\":%d,\"ierr\":%d,\"ierr2\":%d", x != NULL, e, more);
  } else o("],\"ic\":-1,\"ierr\":0,\"ierr2\":0");
  timer(0);
  o(",\"f\":%ld", vf_fired - f0);
  copystr(cur->op, sizeof cur->op, "none");
  done();
}

static char *proofbuf;

static int
exec1(char **tok, int nt) {
  const char *c = tok[0];
#define A(i) (nt > (i) ? tok[i] : "-")
#define ISROOT(i) (nt > (i) && tok[i][0] != '=')
  unsigned char v[2048], key[32], root[32];
  size_t n;
  int ret;
  /* Calls on handles that could not be had are left out. */
  {
    static const char *dbops[] = { "close", "root", "revert", "get", "has", "prove", "ins", "rem", "tx", "iter", NULL };
    static const char *txops[] = { "txclear", "txroot", "txinject", "txget", "txhas", "txprove", "txins", "txrem", "commit", NULL };
    int i;
    for (i = 0; dbops[i]; i++) if (!strcmp(c, dbops[i]) && !db) return 0;
    for (i = 0; txops[i]; i++) if (!strcmp(c, txops[i]) && !tx[idx(tok[1], NTX)]) return 0;
    if (!strcmp(c, "txiter") && !tx[idx(tok[2], NTX)]) return 0;
    if (!strcmp(c, "txdel") && !tx[idx(tok[1], NTX)]) return 0;
    if ((!strcmp(c, "next") || !strcmp(c, "idel")) && !it[idx(tok[1], NIT)]) return 0;
    for (i = 1; i < nt; i++)      /* nor is there a root that could not be had */
      if ((tok[i][0] == '$' && !sh->reg[idx(tok[i], NREG)][0]) || (tok[i][0] == '@' && tok[i][1] == '$' && !sh->reg[idx(tok[i] + 1, NREG)][0])) return 0;
    if (!strcmp(c, "open") && db) return 0;
    if (!strcmp(c, "dump") && (A(1)[0] == 't' ? !tx[idx(tok[1], NTX)] : !db)) return 0;
    if (!strcmp(c, "tx") && tx[idx(tok[1], NTX)]) return 0;
  }
#ifdef VF_CONC
  if (conc_cmd(tok, nt)) return 0;
#endif
  if (!strcmp(c, "open")) {
    const char *p = ISROOT(1) ? tok[1] : dbpath;
    begin(c, NULL, NULL, NULL);
    db = urkel_open(p);
    sh->isopen = db != NULL;
    ended(db != NULL); opos(0); done();
  } else if (!strcmp(c, "close")) {
    begin(c, NULL, NULL, NULL);
    urkel_close(db);
    db = NULL;
    sh->isopen = 0;
    ended(1); done();
  } else if (!strcmp(c, "destroy")) {
    const char *p = ISROOT(1) ? tok[1] : dbpath;
    begin(c, NULL, NULL, NULL);
    ret = urkel_destroy(p);
    ended(ret); done();
  } else if (!strcmp(c, "root")) {
    begin(c, NULL, NULL, NULL);
    urkel_root(db, root);
    save(tok, nt, 1, root);
    ended(1); oval("root", root, 32); done();
  } else if (!strcmp(c, "revert")) {
    memcpy(root, b32(tok[1]), 32);
    begin(c, NULL, NULL, NULL);
    ret = urkel_inject(db, root);
    ended(ret); oval("r", root, 32); done();
  } else if (!strcmp(c, "get") || !strcmp(c, "has") || !strcmp(c, "prove")) {
    int at = ISROOT(2);
    unsigned char *p = key;
    memcpy(key, b32(tok[1]), 32);
    if (at) memcpy(root, b32(tok[2]), 32);
    n = 77777;
    begin(c, NULL, NULL, NULL);
    if (c[0] == 'g') ret = urkel_get(db, v, &n, key, at ? root : NULL);
    else if (c[0] == 'h') ret = urkel_has(db, key, at ? root : NULL);
    else ret = urkel_prove(db, &p, &n, key, at ? root : NULL);
    ended(ret); oval("k", key, 32); oval("r", root, at ? 32 : 0);
    if (c[0] == 'g') { o(",\"n\":%ld", (long)n); oval("v", v, ret && n <= 1023 ? n : 0); }
    if (c[0] == 'p') {
      if (!ret) o(",\"n\":%ld", p == NULL ? (long)n : -1L);
      oval("p", p, ret ? n : 0);
      if (ret) {
        int q = at ? 3 : 2;
        if (nt > q && tok[q][0] == '=' && n <= PROOFMAX) strcpy(sh->proof[idx(tok[q], NPROOF)], hex(p, n));
        urkel_free(p);
      }
    }
    done();
  } else if (!strcmp(c, "ins")) {
    unsigned char *val;
    memcpy(key, b32(tok[1]), 32);
    val = bytes(A(2), &n);
    begin(c, NULL, hex(key, 32), n <= 1023 ? hex(val, n) : "");
    ret = urkel_insert(db, key, val, n);
    ended(ret); oval("k", key, 32); oval("v", val, n); opos(ret); done();
  } else if (!strcmp(c, "rem")) {
    memcpy(key, b32(tok[1]), 32);
    begin(c, NULL, hex(key, 32), NULL);
    ret = urkel_remove(db, key);
    ended(ret); oval("k", key, 32); opos(ret); done();
  } else if (!strcmp(c, "tx")) {
    int t = idx(tok[1], NTX), at = ISROOT(2);
    if (at) memcpy(root, b32(tok[2]), 32);
    begin(c, tok[1], NULL, NULL);
    tx[t] = urkel_tx_create(db, at ? root : NULL);
    ended(tx[t] != NULL); o(",\"t\":\"%s\"", tok[1]); oval("r", root, at ? 32 : 0); done();
  } else if (!strcmp(c, "txdel")) {
    int t = idx(tok[1], NTX);
    begin(c, tok[1], NULL, NULL);
    if (tx[t]) urkel_tx_destroy(tx[t]);
    tx[t] = NULL;
    ended(1); o(",\"t\":\"%s\"", tok[1]); done();
  } else if (!strcmp(c, "txclear")) {
    begin(c, tok[1], NULL, NULL);
    urkel_tx_clear(tx[idx(tok[1], NTX)]);
    ended(1); o(",\"t\":\"%s\"", tok[1]); done();
  } else if (!strcmp(c, "txroot")) {
    begin(c, tok[1], NULL, NULL);
    urkel_tx_root(tx[idx(tok[1], NTX)], root);
    save(tok, nt, 2, root);
    ended(1); o(",\"t\":\"%s\"", tok[1]); oval("root", root, 32); done();
  } else if (!strcmp(c, "txinject")) {
    memcpy(root, b32(tok[2]), 32);
    begin(c, tok[1], NULL, NULL);
    ret = urkel_tx_inject(tx[idx(tok[1], NTX)], root);
    ended(ret); o(",\"t\":\"%s\"", tok[1]); oval("r", root, 32); done();
  } else if (!strcmp(c, "txget") || !strcmp(c, "txhas") || !strcmp(c, "txprove")) {
    urkel_tx_t *t = tx[idx(tok[1], NTX)];
    unsigned char *p = key;
    memcpy(key, b32(tok[2]), 32);
    n = 77777;
    begin(c, tok[1], NULL, NULL);
    if (c[2] == 'g') ret = urkel_tx_get(t, v, &n, key);
    else if (c[2] == 'h') ret = urkel_tx_has(t, key);
    else ret = urkel_tx_prove(t, &p, &n, key);
    ended(ret); o(",\"t\":\"%s\"", tok[1]); oval("k", key, 32);
    if (c[2] == 'g') { o(",\"n\":%ld", (long)n); oval("v", v, ret && n <= 1023 ? n : 0); }
    if (c[2] == 'p') {
      if (!ret) o(",\"n\":%ld", p == NULL ? (long)n : -1L);
      oval("p", p, ret ? n : 0);
      if (ret) {
        if (nt > 3 && tok[3][0] == '=' && n <= PROOFMAX) strcpy(sh->proof[idx(tok[3], NPROOF)], hex(p, n));
        urkel_free(p);
      }
    }
    done();
  } else if (!strcmp(c, "txins")) {
    unsigned char *val;
    memcpy(key, b32(tok[2]), 32);
    val = bytes(A(3), &n);
    begin(c, tok[1], NULL, NULL);
    ret = urkel_tx_insert(tx[idx(tok[1], NTX)], key, val, n);
    ended(ret); o(",\"t\":\"%s\"", tok[1]); oval("k", key, 32); oval("v", val, n); done();
  } else if (!strcmp(c, "txrem")) {
    memcpy(key, b32(tok[2]), 32);
    begin(c, tok[1], NULL, NULL);
    ret = urkel_tx_remove(tx[idx(tok[1], NTX)], key);
    ended(ret); o(",\"t\":\"%s\"", tok[1]); oval("k", key, 32); done();
  } else if (!strcmp(c, "commit")) {
    begin(c, tok[1], NULL, NULL);
    ret = urkel_tx_commit(tx[idx(tok[1], NTX)]);
    ended(ret); o(",\"t\":\"%s\"", tok[1]); opos(ret); done();
  } else if (!strcmp(c, "txiter")) {
    int i = idx(tok[1], NIT);
    begin(c, tok[2], NULL, NULL);
    it[i] = urkel_iter_create(tx[idx(tok[2], NTX)]);
    ended(it[i] != NULL); o(",\"i\":\"%s\",\"t\":\"%s\"", tok[1], tok[2]); done();
  } else if (!strcmp(c, "iter")) {
    int i = idx(tok[1], NIT), at = ISROOT(2);
    if (at) memcpy(root, b32(tok[2]), 32);
    begin(c, NULL, NULL, NULL);
    it[i] = urkel_iterate(db, at ? root : NULL);
    ended(it[i] != NULL); o(",\"i\":\"%s\"", tok[1]); oval("r", root, at ? 32 : 0); done();
  } else if (!strcmp(c, "next")) {
    int i = idx(tok[1], NIT), keyonly = nt > 2, bad;
    n = 77777;
    begin(c, NULL, NULL, NULL);
    ret = urkel_iter_next(it[i], key, keyonly ? NULL : v, keyonly ? NULL : &n);
    bad = !ret && urkel_errno == URKEL_ECORRUPTION;
    if (keyonly) n = 0;
    ended(ret); o(",\"i\":\"%s\",\"ko\":%d", tok[1], keyonly); oval("k", key, ret ? 32 : 0);
    o(",\"n\":%ld", (long)n); oval("v", v, ret && n <= 1023 ? n : 0); done();
    if (bad || (!ret && vf_fired > f0)) {      /* an iterator that failed is not used again */
      begin("idel", NULL, NULL, NULL);
      urkel_iter_destroy(it[i]); it[i] = NULL;
      ended(1); o(",\"i\":\"%s\"", tok[1]); done();
    }
  } else if (!strcmp(c, "idel")) {
    int i = idx(tok[1], NIT);
    if (!it[i]) return 0;
    begin(c, NULL, NULL, NULL);
    urkel_iter_destroy(it[i]);
    it[i] = NULL;
    ended(1); o(",\"i\":\"%s\"", tok[1]); done();
  } else if (!strcmp(c, "verify")) {
    size_t pn;
    int ex = 77;
    unsigned char *p = bytes(tok[1], &pn), *q;
    memcpy(key, b32(tok[2]), 32);
    memcpy(root, b32(tok[3]), 32);
    n = 77777;
    q = malloc(pn ? pn : 1);      /* exact size, so that overreads show */
    memcpy(q, p, pn);
    memset(v, 0xee, sizeof v);
    begin(c, NULL, NULL, NULL);
    ret = urkel_verify(&ex, v, &n, q, pn, key, root);
    { int e = urkel_errno; ended(ret); (void)e; }
    free(q);
    oval("p", p, pn); oval("k", key, 32); oval("r", root, 32);
    o(",\"ex\":%d,\"n\":%ld", ex, (long)n);
    oval("v", v, ret && n <= 1023 ? n : 0); done();
  } else if (!strcmp(c, "hash")) {
    unsigned char *p = bytes(tok[1], &n), *q = malloc(n ? n : 1);
    memcpy(q, p, n);
    begin(c, NULL, NULL, NULL);
    urkel_hash(root, q, n);
    free(q);
    ended(1); oval("x", p, n); oval("h", root, 32); done();
  } else if (!strcmp(c, "hashlong")) {      /* 65536 * HI + LO bytes of a pattern, mapped again and again */
    size_t period = 1028096, hi = strtoul(A(1), NULL, 10), lo = strtoul(A(2), NULL, 10), i;
    size_t len = hi * 65536 + lo, all = (len / period + 1) * period;
    int fd = memfd_create("pattern", 0);
    unsigned char *p = malloc(period), *q;
    for (i = 0; i < period; i++) p[i] = (unsigned char)(i * 31 + i / 256 * 7);
    if (write(fd, p, period) != (ssize_t)period) abort();
    free(p);
    q = mmap(NULL, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (q == MAP_FAILED) abort();
    for (i = 0; i < all; i += period)
      if (mmap(q + i, period, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
    close(fd);
    begin(c, NULL, NULL, NULL);
    urkel_hash(root, q, len);
    munmap(q, all);
    ended(1); o(",\"hi\":%ld,\"lo\":%ld", (long)hi, (long)lo); oval("h", root, 32); done();
  } else if (!strcmp(c, "dump")) {
    dump(A(1), A(2));
  } else if (!strcmp(c, "stat")) {
    o("{\"op\":\"stat\",\"when\":\"%s\",\"heap\":%ld,\"fds\":%ld,\"maps\":%ld", A(1), vf_heap, vf_fds, vf_maps);
    osizes("sizes"); onames(); done();
  } else if (!strcmp(c, "fault")) {
    vf_fault_t *f = &vf_faults[vf_nfaults++];
    char *s = strdup(tok[1]), *p;
    int i;
    memset(f, 0, sizeof *f);
    for (p = strtok(s, ","); p; p = strtok(NULL, ",")) {
      for (i = 0; i < K_MAX; i++) if (!strcmp(p, vf_kindname[i])) f->mask |= 1u << i;
      if (!strcmp(p, "all")) f->mask = ~0u;
    }
    free(s);
    f->nth = atol(tok[2]); f->every = atol(tok[3]);
    for (i = 0; i < (int)(sizeof actnames / sizeof *actnames); i++) if (!strcmp(tok[4], actnames[i])) f->act = i;
    f->err = EIO;
    for (i = 0; i < (int)(sizeof errnos / sizeof *errnos); i++) if (nt > 5 && !strcmp(tok[5], errnames[i])) f->err = errnos[i];
    f->arg = nt > 6 ? atol(tok[6]) : 0;
  } else if (!strcmp(c, "probe")) {
    /* probe open|destroy SPELLING: every change is refused; what was the first? */
    char cwd[6000], q[16384], got[16384];
    urkel_t *x;
    spelled(q, sizeof q, tok[2]);
    if (!getcwd(cwd, sizeof cwd)) gone();
    vf_root = "/nonexistent/probe";
    vf_refused = got; vf_refusedn = sizeof got; got[0] = 0;
    begin("probe", NULL, NULL, NULL);
    if (tok[1][0] == 'o') { x = urkel_open(q); ret = x != NULL; if (x) urkel_close(x); }
    else ret = urkel_destroy(q);
    ended(ret);
    vf_root = scratch; vf_refused = NULL;
    if (got[0] && vf_refused_kind != K_MKDIR) {      /* a file in it */
      char *s = strrchr(got, '/');
      if (s) s[s == got] = 0;
    }
    o(",\"cwd\":\"%s\",\"path\":\"%s\",\"got\":\"%s\"", cwd, q, got);
    done();
  } else if (!strcmp(c, "cd")) {
    char q[12000];
    snprintf(q, sizeof q, "%s/%s", base, tok[1]);
    if (chdir(q)) fatal("cd", q);
  } else if (!strcmp(c, "faultoff")) {
    vf_nfaults = 0;
#ifndef VF_CONC
  } else if (!strcmp(c, "clienv")) {
    clienv_set(tok[1]);
  } else if (!strcmp(c, "cli")) {
    cli(tok, nt);
#endif
  } else if (!strcmp(c, "kill")) {
    _exit(99);
  } else fatal("unknown command", c);
  return 0;
}

/* Commands that act on the directory rather than through the library. */
static void
doevt(const char *op, const char *fmt, ...) {
  va_list ap;
  char b[40000];
  va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  o("{\"op\":\"%s\"%s}", op, b);
  flush_event();
}

static int nsnap;
static unsigned char *snap[NFILES]; static long snapn[NFILES];
#define NKEPT 8
static struct kept { char path[5000]; unsigned char *data; long size, left; } kept[NKEPT];
static int nkept;

static unsigned char *
slurp(const char *p, long *n) {
  int fd = open(p, O_RDONLY);
  struct stat st;
  unsigned char *b;
  if (fd < 0) { *n = -1; return NULL; }
  fstat(fd, &st);
  b = malloc(st.st_size + 1);
  *n = read(fd, b, st.st_size);
  close(fd);
  return b;
}

/* A path token: '' is empty, and ~ stands for the block's folder. */
static void
spelled(char *d, size_t n, const char *t) {
  size_t k = 0;
  if (!strcmp(t, "''")) t = "";
  for (; *t && k + strlen(base) + 2 < n; t++) {
    if (*t == '~') { strcpy(d + k, base); k += strlen(base); }
    else d[k++] = *t;
  }
  d[k] = 0;
}

static int
exec_parent(char **tok, int nt) {
  const char *c = tok[0];
  char p[5000];
#ifndef VF_CONC
  if (!strcmp(c, "P")) { multi_line(tok, nt); return 0; }
  if (!strcmp(c, "prun")) { setlimits(); multi_run(tok, nt); return 0; }
#endif
  if (!strcmp(c, "limits")) {
    int i;
    for (i = 0; i < 4; i++) sh->limits[i] = strtoul(tok[i + 1], NULL, 10);
    o("{\"op\":\"limits\",\"mfs\":%ld,\"mof\":%ld}", (long)(sh->limits[0] > 1000000000 ? 1000000000 : sh->limits[0]), (long)sh->limits[1]);
    flush_event();
  } else if (!strcmp(c, "keys")) {
    int i;
    sh->nkeys = 0;
    for (i = 1; i < nt && i <= NKEYS; i++) snprintf(sh->keys[sh->nkeys++], 65, "%s", tok[i]);
  } else if (!strcmp(c, "reg")) {
    snprintf(sh->reg[idx(tok[1], NREG)], 65, "%s", tok[2]);
  } else if (!strcmp(c, "counts")) {
    counts = atoi(tok[1]);
  } else if (!strcmp(c, "path")) {
    /* path SPELLING [DIR]: spelling of the database path for later opens; ~ is
     * the block's folder.  DIR is where it should be. */
    char cwd[6000];
    spelled(dbpath, sizeof dbpath, tok[1]);
    if (nt > 2) snprintf(dbdir, sizeof dbdir, "%s%s%s", base, strcmp(tok[2], ".") ? "/" : "", strcmp(tok[2], ".") ? tok[2] : "");
    if (!getcwd(cwd, sizeof cwd)) gone();
    o("{\"op\":\"path\",\"cwd\":\"%s\",\"path\":\"%s\",\"dir\":\"%s\"", cwd, dbpath, dbdir);
    onames();
    done();
  } else if (!strcmp(c, "plong")) {
    /* plong N SUFFIX: a directory whose path has N characters */
    int n = atoi(tok[1]);
    char cwd[6000];
    snprintf(dbdir, sizeof dbdir, "%s", base);
    while ((int)strlen(dbdir) < n) {
      int l = strlen(dbdir), k = n - l - 1;
      if (k > 200) k = k == 201 ? 199 : 200;
      if (k < 1) fatal("plong", tok[1]);
      mkdir(dbdir, 0700);
      dbdir[l] = '/';
      memset(dbdir + l + 1, 'x', k);
      dbdir[l + 1 + k] = 0;
    }
    snprintf(dbpath, sizeof dbpath, "%s%s", dbdir, nt > 2 ? tok[2] : "");
    if (!getcwd(cwd, sizeof cwd)) gone();
    o("{\"op\":\"path\",\"cwd\":\"%s\",\"path\":\"%s\",\"dir\":\"%s\"", cwd, dbpath, dbdir);
    onames();
    done();
  } else if (!strcmp(c, "mkdirp")) {
    char q[12000];
    snprintf(q, sizeof q, "%s/%s/", base, strcmp(tok[1], ".") ? tok[1] : "");
    { char *s; for (s = q + strlen(scratch) + 1; (s = strchr(s, '/')); s++) { *s = 0; mkdir(q, 0700); *s = '/'; } }
  } else if (!strcmp(c, "cut") || !strcmp(c, "cutto") || !strcmp(c, "garble") || !strcmp(c, "extend") || !strcmp(c, "power")) {
    /* cut F N: remove the last N bytes.  cutto F N: keep N.  garble F N HEX:
     * overwrite from N bytes before the end.  extend F HEX.  power S: every file
     * falls back to somewhere between its synced and its present length (S = 0:
     * synced, 1: half way, 2: all but one byte). */
    int f = atoi(tok[1]), m = newest(), g;
    long before[NFILES], intact[NFILES], sync[NFILES];
    for (g = 1; g <= m && g < NFILES; g++) { fpath(p, sizeof p, g); before[g] = intact[g] = fsize(g); sync[g] = synced(p); }
    if (c[0] == 'p') {
      int mode = f;
      struct stat st;
      long s, keep;
      for (g = 0; g <= m && g < NFILES; g++) {
        if (g) fpath(p, sizeof p, g); else snprintf(p, sizeof p, "%s/meta", dbdir);
        if (stat(p, &st)) continue;
        s = synced(p);
        keep = mode == 0 ? s : mode == 1 ? (s + st.st_size) / 2 : mode == 2 ? (st.st_size > s ? st.st_size - 1 : s)
             : s + (long)((st.st_size - s + 1) * (double)((mode * 2654435761u + g * 40503u) % 1009) / 1009.0);
        if (keep > st.st_size) keep = st.st_size;
        if (truncate(p, keep)) fatal("truncate", p);
        if (g) intact[g] = keep;
      }
    } else {
      if (f <= 0) f += m;
      if (f < 1 || f > m) { doevt("nocut", ",\"x\":0"); return 0; }
      fpath(p, sizeof p, f);
      if (!strcmp(c, "cut") || !strcmp(c, "cutto")) {
        long keep = !strcmp(c, "cut") ? before[f] - atol(tok[2]) : atol(tok[2]);
        if (keep < 0) keep = 0;
        if (keep > before[f]) keep = before[f];
        if (truncate(p, keep)) fatal("truncate", p);
        intact[f] = keep;
      } else if (c[0] == 'g') {
        long off = before[f] - atol(tok[2]), n, i, d;
        size_t gn;
        unsigned char *g2 = bytes(tok[3], &gn), *old = slurp(p, &n);
        int fd = open(p, O_WRONLY);
        if (off < 0) off = 0;
        if (pwrite(fd, g2, gn, off) != (ssize_t)gn) fatal("pwrite", p);
        close(fd);
        d = before[f];
        for (i = 0; i < (long)gn && off + i < n; i++) if (old[off + i] != g2[i]) { d = off + i; break; }
        intact[f] = d;
        free(old);
      } else {
        size_t gn;
        unsigned char *g2 = bytes(tok[2], &gn);
        int fd = open(p, O_WRONLY | O_APPEND);
        if (write(fd, g2, gn) != (ssize_t)gn) fatal("write", p);
        close(fd);
      }
    }
    o("{\"op\":\"cut\",\"before\":[");
    for (g = 1; g <= m; g++) o("%s%ld", g > 1 ? "," : "", before[g]);
    o("],\"intact\":[");
    for (g = 1; g <= m; g++) o("%s%ld", g > 1 ? "," : "", intact[g]);
    o("],\"synced\":[");
    for (g = 1; g <= m; g++) o("%s%ld", g > 1 ? "," : "", sync[g]);
    o("],\"power\":%d}", c[0] == 'p');
    flush_event();
  } else if (!strcmp(c, "show")) {      /* the bytes of the data files */
    int f, m = newest();
    o("{\"op\":\"nocut\",\"x\":0,\"bytes\":[");
    for (f = 1; f <= m; f++) {
      long n;
      unsigned char *b;
      fpath(p, sizeof p, f);
      b = slurp(p, &n);
      o("%s\"", f > 1 ? "," : "");
      ohex(b, n > 0 ? n : 0);
      o("\"");
      free(b);
    }
    o("]}");
    flush_event();
  } else if (!strcmp(c, "rawfiles")) {  /* rawfiles N: N empty data files */
    int f, n = atoi(tok[1]), fd;
    mkdir(dbdir, 0700);
    for (f = 1; f <= n; f++) {
      fpath(p, sizeof p, f);
      fd = open(p, O_CREAT | O_WRONLY, 0600);
      if (fd < 0) fatal("raw", p);
      close(fd);
    }
  } else if (!strcmp(c, "raw")) {       /* raw F OFF HEX: these bytes of data file F (0: meta) */
    int fd;
    size_t gn;
    unsigned char *g = bytes(tok[3], &gn);
    mkdir(dbdir, 0700);
    if (atoi(tok[1])) fpath(p, sizeof p, atoi(tok[1])); else snprintf(p, sizeof p, "%s/meta", dbdir);
    fd = open(p, O_CREAT | O_WRONLY, 0600);
    if (fd < 0) fatal("raw", p);
    if (pwrite(fd, g, gn, atol(tok[2])) != (ssize_t)gn) fatal("raw", p);
    if (!gn && ftruncate(fd, atol(tok[2]))) fatal("raw", p);      /* a file of zeros */
    close(fd);
  } else if (!strcmp(c, "hurt")) {
    /* hurt R N: takes all but N thousandths of the R-th (modulo) file before
     * that of the newest commit away, all of it if N is -1; R = 0: of the key */
    int r = atoi(tok[1]), f, i;
    long n = atol(tok[2]), keep;
    struct stat st;
    if (nkept == NKEPT || (r && sh->lastfile <= 1) || !sh->lastfile) { doevt("nocut", ",\"x\":0"); return 0; }
    f = r ? 1 + r % (sh->lastfile - 1) : 0;
    if (f) fpath(p, sizeof p, f); else snprintf(p, sizeof p, "%s/meta", dbdir);
    if (stat(p, &st) || !st.st_size) { doevt("nocut", ",\"x\":0"); return 0; }
    for (i = 0; i < nkept; i++) if (!strcmp(kept[i].path, p)) { doevt("nocut", ",\"x\":0"); return 0; }
    kept[nkept].data = slurp(p, &kept[nkept].size);
    keep = n < 0 ? -1 : kept[nkept].size * n / 1000;
    kept[nkept].left = keep;
    snprintf(kept[nkept++].path, sizeof kept->path, "%s", p);
    if (keep < 0 ? unlink(p) : truncate(p, keep)) fatal("hurt", p);
    doevt("hurt", ",\"f\":%d,\"n\":%ld", f, keep);
  } else if (!strcmp(c, "heal")) {
    int same = 1, fd;
    while (nkept) {
      struct kept *k = &kept[--nkept];
      long n;
      unsigned char *b = slurp(k->path, &n);
      if (n != k->left || (n > 0 && memcmp(b, k->data, n))) same = 0;
      free(b);
      fd = open(k->path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd < 0 || write(fd, k->data, k->size) != k->size) fatal("heal", k->path);
      close(fd);
      free(k->data);
    }
    doevt("heal", ",\"same\":%d", same);
  } else if (!strcmp(c, "load") || !strcmp(c, "image")) {       /* what the files of the database hold */
    int f, m = newest(), fd;
    struct stat st;
    unsigned char kb[64];
    ssize_t kn = 0;
    snprintf(p, sizeof p, "%s/meta", dbdir);
    fd = open(p, O_RDONLY);
    if (fd >= 0) { kn = read(fd, kb, sizeof kb); close(fd); }
    o("{\"op\":\"%s\",\"img\":{\"key\":\"", c);
    ohex(kb, kn > 0 ? kn : 0);
    o("\",\"files\":[");
    for (f = 1; f <= m; f++) {
      off_t at = 0, end;
      int first = 1;
      fpath(p, sizeof p, f);
      fd = open(p, O_RDONLY);
      if (fd < 0 || fstat(fd, &st)) { o("%s{\"n\":-1,\"s\":[]}", f > 1 ? "," : ""); continue; }
      o("%s{\"n\":%ld,\"s\":[", f > 1 ? "," : "", (long)st.st_size);
      while (at < st.st_size && (at = lseek(fd, at, SEEK_DATA)) >= 0) {
        unsigned char *b;
        end = lseek(fd, at, SEEK_HOLE);
        if (end < 0) end = st.st_size;
        if (end - at > (64 << 20)) fatal("no holes", p);
        b = malloc(end - at);
        if (pread(fd, b, end - at, at) != end - at) fatal("pread", p);
        o("%s[%ld,\"", first ? "" : ",", (long)at); ohex(b, end - at); o("\"]");
        free(b);
        first = 0; at = end;
      }
      close(fd);
      o("]}");
    }
    o("]}}");
    flush_event();
  } else if (!strcmp(c, "forge")) {
    /* forge N BIT: after the last record of the newest file, N copies of it with
     * one bit flipped (the bit advances with each copy) */
    int f = newest(), cnt = atoi(tok[1]), bit = atoi(tok[2]), k;
    long n, pad;
    unsigned char *b, rec[38];
    static const unsigned char zero[38];
    int fd;
    if (f == 0) { doevt("nocut", ",\"x\":0"); return 0; }
    fpath(p, sizeof p, f);
    b = slurp(p, &n);
    if (n < 38) { free(b); doevt("nocut", ",\"x\":0"); return 0; }
    fd = open(p, O_WRONLY | O_APPEND);
    pad = (38 - n % 38) % 38;
    if (write(fd, zero, pad) != pad) fatal("write", p);
    for (k = 0; k < cnt; k++) {
      memcpy(rec, b + n - n % 38 - 38, 38);
      rec[((bit + k) / 8) % 38] ^= 1 << ((bit + k) % 8);
      if (write(fd, rec, 38) != 38) fatal("write", p);
    }
    close(fd);
    free(b);
    o("{\"op\":\"cut\",\"before\":[");
    for (k = 1; k <= f; k++) o("%s%ld", k > 1 ? "," : "", k == f ? n : fsize(k));
    o("],\"intact\":[");
    for (k = 1; k <= f; k++) o("%s%ld", k > 1 ? "," : "", k == f ? n : fsize(k));
    o("],\"power\":0}");
    flush_event();
  } else if (!strcmp(c, "touch")) {     /* a file that is not the database's */
    int fd;
    snprintf(p, sizeof p, "%s/%s", dbdir, tok[1]);
    if (strchr(tok[1], '/')) fatal("name", tok[1]);
    if (nt > 2) { if (mkdir(p, 0700)) fatal("mkdir", p); }
    else { fd = open(p, O_CREAT | O_WRONLY, 0600); if (fd < 0) fatal("touch", p); close(fd); }
    doevt("touch", ",\"name\":\"%s\"", tok[1]);
  } else if (!strcmp(c, "mkdb")) {
    if (mkdir(dbdir, 0700)) fatal("mkdir", dbdir);
    doevt("mkdb", ",\"x\":0");
  } else if (!strcmp(c, "untouch")) {
    snprintf(p, sizeof p, "%s/%s", dbdir, tok[1]);
    if (strchr(tok[1], '/')) fatal("name", tok[1]);
    remove(p);
    doevt("untouch", ",\"name\":\"%s\"", tok[1]);
  } else if (!strcmp(c, "snap")) {
    int f;
    for (f = 0; f < nsnap; f++) { free(snap[f]); snap[f] = NULL; }
    nsnap = newest();
    if (nsnap >= NFILES) fatal("files", "");
    for (f = 0; f < nsnap; f++) { fpath(p, sizeof p, f + 1); snap[f] = slurp(p, &snapn[f]); }
    doevt("snap", ",\"x\":0");
  } else if (!strcmp(c, "grown")) {     /* compare with the last snap */
    int f, first = 1;
    o("{\"op\":\"grown\",\"files\":[");
    for (f = 0; f < nsnap; f++) {
      long n, d = -1, i;
      unsigned char *b;
      fpath(p, sizeof p, f + 1);
      b = slurp(p, &n);
      for (i = 0; i < snapn[f] && i < n; i++) if (b[i] != snap[f][i]) { d = i; break; }
      if (n < snapn[f]) d = n < 0 ? 0 : n;
      o("%s{\"was\":%ld,\"is\":%ld,\"diff\":%ld}", first ? "" : ",", snapn[f], n, d);
      first = 0;
      free(b);
    }
    for (; f < newest(); f++) {         /* new ones */
      long n;
      fpath(p, sizeof p, f + 1);
      free(slurp(p, &n));
      o("%s{\"was\":0,\"is\":%ld,\"diff\":-1}", first ? "" : ",", n);
      first = 0;
    }
    o("]}");
    flush_event();
  } else return -1;
  return 0;
}

#ifndef VF_CONC
#include "multi.c"
#include "cli.c"
#endif

static const char *parent_cmds[] = { "limits", "keys", "reg", "counts", "path", "plong", "mkdirp", "cut", "cutto", "garble", "extend", "power", "hurt", "heal", "show", "raw", "rawfiles", "load", "image", "forge", "touch", "mkdb", "untouch", "snap", "grown", "P", "prun", NULL };

static int
is_parent(const char *c) { int i; for (i = 0; parent_cmds[i]; i++) if (!strcmp(c, parent_cmds[i])) return 1; return 0; }

static char **lines; static int nlines;

#ifdef VF_CONC
static int
conc_line(char *s) {
  char *tok[64];
  int n = split(s, tok);
  if (n) exec1(tok, n);
  return 0;
}
static void conc_event(const char *s) { o("%s", s); flush_event(); }
#endif


int
main(int argc, char **argv) {
  FILE *fp;
  char *line = NULL;
  size_t cap = 0;
  int i, group = 0;
  static char *tok[MAXTOK];
  if (argc != 4) return 2;
  sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) return 2;
  cur = &sh->call;
  fp = fopen(argv[1], "r");
  if (!fp) return 2;
  while (getline(&line, &cap, fp) > 0) {
    if (line[0] == '#' || line[0] == '\n') continue;
    lines = realloc(lines, (nlines + 1) * sizeof *lines);
    lines[nlines++] = strdup(line);
  }
  fclose(fp);
  out_fd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0600);
  if (out_fd < 0) return 2;
  if (realpath(argv[3], scratch) == NULL) return 2;
  ocap = 1 << 16; ob = malloc(ocap);
  proofbuf = malloc(2 * PROOFMAX + 1);
#ifdef VF_CONC
  conc_exec = conc_line;
  conc_emit = conc_event;
  conc_hooks();
#endif
  vf_trace = trace;
  vf_die = died;
  vf_synced = vf_synced_;
  vf_root = scratch;
  vf_randctr = &sh->randctr;
  vf_seed = getenv("VERIF_SEED") ? strtoul(getenv("VERIF_SEED"), NULL, 10) : 1;
  for (i = 0; i < nlines && !hung; ) {
    char *s = strdup(lines[i]);
    int nt = split(s, tok);
    if (nt == 0) { i++; free(s); continue; }
    if (!strcmp(tok[0], "new")) {
      if (group) rmtree(base);
      group++;
      snprintf(base, sizeof base, "%s/d%d", scratch, group);
      snprintf(dbdir, sizeof dbdir, "%s", base);
      snprintf(dbpath, sizeof dbpath, "%s", dbdir);
      sh->isopen = 0; sh->nsync = 0; sh->nkeys = 0; sh->lastfile = 0;
      memset(sh->reg, 0, sizeof sh->reg);
      while (nkept) free(kept[--nkept].data);
      sh->limits[0] = 0x7ffff000; sh->limits[1] = 32; sh->limits[2] = 64 << 20; sh->limits[3] = 1 << 20;
      doevt("new", ",\"n\":%d,\"name\":\"%s\"", group, nt > 1 ? tok[1] : "");
      i++; free(s); continue;
    }
    if (!strcmp(tok[0], "proc")) { i++; free(s); continue; }
    if (is_parent(tok[0])) { exec_parent(tok, nt); i++; free(s); continue; }
    free(s);
    /* lines i..j-1 run in one child; commands on the directory that come while
     * the database is open run there too */
    {
      int j = i, st;
      pid_t pid;
      while (j < nlines) {
        char w[16] = "";
        sscanf(lines[j], "%15s", w);
        if (!strcmp(w, "new") || !strcmp(w, "proc")) break;
        j++;
      }
      copystr(cur->op, sizeof cur->op, "none");
      sh->killed = 0;
      pid = fork();
      if (pid == 0) {
        int k;
        setlimits();
        for (k = i; k < j; k++) {
          char *q = strdup(lines[k]);
          curline = k;
          int m = split(q, tok);
          if (m == 0) { free(q); continue; }
          if (is_parent(tok[0])) { exec_parent(tok, m); setlimits(); }
          else exec1(tok, m);
          free(q);
        }
        _exit(0);
      }
      if (pid < 0) return 2;
      while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) return 2;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 98) return 3;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
        o("{\"op\":\"crash\",\"in\":\"%s\",\"t\":\"%s\",\"k\":\"%s\",\"v\":\"%s\"}", cur->op, cur->t, cur->k, cur->v);
        flush_event();
      } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        if (sh->isopen) { o("{\"op\":\"crash\",\"in\":\"none\",\"t\":\"\",\"k\":\"\",\"v\":\"\"}"); flush_event(); }
      } else {
        o("{\"op\":\"died\",\"status\":%d,\"sig\":%d,\"in\":\"%s\",\"t\":\"%s\",\"k\":\"%s\",\"v\":\"%s\"}",
          WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, cur->op, cur->t, cur->k, cur->v);
        flush_event();
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hung = 1;
      }
      sh->isopen = 0;
      i = j;
    }
  }
  if (group) rmtree(base);
  return 0;
}
