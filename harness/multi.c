/* Several processes on one database, one of them running at a time.
 * Included by driver.c.
 *
 *   P n OP...            the next call of process n (1..)
 *   prun A|R PICK...     runs them; a process stops before every call and
 *                        before every system call (A), or only those that
 *                        have to do with the lock and the directory (R)
 *
 * A PICK n*k lets process n go on to its k-th stop from here, nk kills it
 * where it stands.  After the picks the processes run to their end, in turn. */
#include <semaphore.h>
#include <time.h>

#define NPROC 8
#define MAXGATES 20000

static struct multi {
  sem_t go[NPROC + 1], back;
  int kill[NPROC + 1], ended[NPROC + 1];
  long gates;
  long calls[NPROC + 1];
} *mp;
static int mself, mall;
static char **mline[NPROC + 1];
static int mlines[NPROC + 1];

static void
mwrite(const char *fmt, ...) {
  char b[8192];
  va_list ap;
  int n;
  va_start(ap, fmt);
  n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b || write(out_fd, b, n) != n) abort();
}

static void
mstop(void) {
  struct itimerval off = {{0, 0}, {0, 0}}, was;
  setitimer(ITIMER_REAL, &off, &was);
  mp->gates++;
  sem_post(&mp->back);
  while (sem_wait(&mp->go[mself])) ;
  if (mp->kill[mself]) {
    mwrite("{\"op\":\"pkill\",\"p\":%d,\"in\":\"%s\",\"t\":\"%s\",\"k\":\"%s\",\"v\":\"%s\"}\n", mself, cur->op, cur->t, cur->k, cur->v);
    _exit(99);
  }
  setitimer(ITIMER_REAL, &was, NULL);
}

static void
mgate(int kind, const char *path) {
  const char *s = path ? strrchr(path, '/') : NULL;
  if (!mself) return;
  s = s ? s + 1 : path;
  if (mall || kind == K_MKDIR || kind == K_RMDIR || kind == K_FCNTL || kind == K_RENAME || kind == K_STAT
      || (s && !strcmp(s, "lock") && (kind == K_OPEN || kind == K_UNLINK))
      || (s && !strcmp(s, "meta") && (kind == K_OPEN || kind == K_UNLINK))) mstop();
}

/* A lock request that would wait lets the others run. */
static int
mlockw(int fd, void *arg) {
  int n, r;
  for (n = 0; n < 200; n++) {
    r = fcntl(fd, F_SETLK, arg);
    if (r == 0 || (errno != EAGAIN && errno != EACCES)) return r;
    if (n == 0) mwrite("{\"op\":\"pwait\",\"p\":%d}\n", mself);
    mstop();
  }
  errno = EDEADLK;
  return -1;
}

static int multi_self(void) { return mself; }
static void
multi_begin(const char *op) { if (mself) mwrite("{\"op\":\"pinv\",\"p\":%d,\"in\":\"%s\",\"t\":\"%s\",\"k\":\"%s\",\"v\":\"%s\"}\n", mself, cur->op, cur->t, cur->k, cur->v); }
static void
multi_result(void) {
  size_t d = 0, n = on;
  char *e = malloc(n + 64), h[64];
  int m = snprintf(h, sizeof h, "{\"op\":\"pres\",\"p\":%d,\"e\":", mself);
  memcpy(e, h, m);
  memcpy(e + m, ob, n);
  memcpy(e + m + n, "}\n", 2);
  n += m + 2;
  while (d < n) { ssize_t w = write(out_fd, e + d, n - d); if (w <= 0) abort(); d += w; }
  free(e);
  on = 0;
}

static void
multi_line(char **tok, int nt) {
  int p = atoi(tok[1]), k;
  char b[4096] = "";
  if (p < 1 || p > NPROC) fatal("process", tok[1]);
  for (k = 2; k < nt; k++) { strcat(b, tok[k]); strcat(b, " "); }
  mline[p] = realloc(mline[p], (mlines[p] + 1) * sizeof *mline[p]);
  mline[p][mlines[p]++] = strdup(b);
}

static void
mworker(int p) {
  int k, m;
  static char *tok[MAXTOK];
  sh->randctr += 100000 * p;
  cur = calloc(1, sizeof *cur);
  mself = p;
  vf_gate = mgate;
  vf_lockw = mlockw;
  while (sem_wait(&mp->go[p])) ;
  if (mp->kill[p]) { mwrite("{\"op\":\"pkill\",\"p\":%d,\"in\":\"none\",\"t\":\"\",\"k\":\"\",\"v\":\"\"}\n", p); _exit(99); }
  copystr(cur->op, sizeof cur->op, "none");
  for (k = 0; k < mlines[p]; k++) {
    char *q = strdup(mline[p][k]);
    m = split(q, tok);
    if (k) mstop();
    if (m) exec1(tok, m);
    free(q);
  }
  if (db) mwrite("{\"op\":\"pkill\",\"p\":%d,\"in\":\"none\",\"t\":\"\",\"k\":\"\",\"v\":\"\"}\n", p);
  _exit(0);
}

static pid_t mpid[NPROC + 1];

/* Lets p run to its next stop; waits until it is gone if it ends. */
static void
mgo(int p) {
  int st;
  struct timespec t;
  pid_t w;
  if (mp->ended[p]) return;
  sem_post(&mp->go[p]);
  for (;;) {
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_nsec += 2000000;
    if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
    if (sem_timedwait(&mp->back, &t) == 0) return;
    w = waitpid(mpid[p], &st, WNOHANG);
    if (w == mpid[p]) {
      mp->ended[p] = 1;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 98) fatal("child", "98");
      if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 99))
        mwrite("{\"op\":\"died\",\"p\":%d,\"status\":%d,\"sig\":%d}\n", p, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hung = 1;
      return;
    }
  }
}

static void
multi_run(char **tok, int nt) {
  int p, k, n = 0;
  mp = mmap(NULL, sizeof *mp, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mp == MAP_FAILED) fatal("mmap", "");
  sem_init(&mp->back, 1, 0);
  mall = tok[1][0] == 'A';
  for (p = 1; p <= NPROC; p++) if (mlines[p]) {
    n = p;
    sem_init(&mp->go[p], 1, 0);
    mpid[p] = fork();
    if (mpid[p] == 0) mworker(p);
    if (mpid[p] < 0) fatal("fork", "");
  } else mp->ended[p] = 1;
  for (k = 2; k < nt; k++) {
    p = atoi(tok[k]);
    if (p < 1 || p > n) fatal("pick", tok[k]);
    if (strchr(tok[k], 'k')) { if (!mp->ended[p]) { mp->kill[p] = 1; mgo(p); } }
    else {
      char *s = strchr(tok[k], '*');
      long c = s ? atol(s + 1) : 1;
      while (c-- > 0 && !mp->ended[p]) { mgo(p); if (mp->gates > MAXGATES) break; }
    }
  }
  /* to the end; one that does not get there without the others lets them run */
  for (k = 0; mp->gates <= MAXGATES; k++) {
    int left = 0;
    for (p = 1; p <= n; p++) {
      long c = 3000;
      while (c-- > 0 && !mp->ended[p] && mp->gates <= MAXGATES) mgo(p);
      left |= !mp->ended[p];
    }
    if (!left) break;
  }
  for (p = 1; p <= n; p++) if (!mp->ended[p]) {
    mwrite("{\"op\":\"livelock\",\"p\":%d}\n", p);
    kill(mpid[p], SIGKILL);
    waitpid(mpid[p], NULL, 0);
    hung = 1;
  }
  mwrite("{\"op\":\"nocut\",\"gates\":%ld}\n", mp->gates);
  for (p = 1; p <= NPROC; p++) {
    for (k = 0; k < mlines[p]; k++) free(mline[p][k]);
    free(mline[p]); mline[p] = NULL; mlines[p] = 0;
  }
  munmap(mp, sizeof *mp);
  mp = NULL;
}
