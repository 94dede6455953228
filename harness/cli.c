/* Runs the command-line tool.  Included by driver.c.
 *
 *   clienv PATH|-          value of URKEL_PATH (-: unset)
 *   cli DIR [=Rn|=Pn] ARG...
 *
 * DIR: the directory the author of the script means (- : none, @: the current
 * one), below the block's folder.  =Rn and =Pn keep the first line of the output in register
 * $n or %n.  An ARG is ~... (a path), @ (the current path), v:BYTES (hex of these bytes, see
 * bytes()), V:BYTES (in capitals), R:n or P:n (a register), x:HEX (these
 * characters), '' (nothing), or itself. */
static char clienv[16384];
static int cliset;

static void
clienv_set(const char *t) {
  cliset = strcmp(t, "-") != 0;
  if (cliset) spelled(clienv, sizeof clienv, t); else clienv[0] = 0;
}

static void
ojson(const char *name, const char *s, size_t n) {
  size_t k;
  o("%s\"", name);
  for (k = 0; k < n; k++) {
    if (ocap - on < 16) { ocap *= 2; ob = realloc(ob, ocap); }
    ob[on++] = s[k] < 32 || s[k] > 126 || s[k] == '"' || s[k] == '\\' ? '?' : s[k];
    ob[on] = 0;
  }
  o("\"");
}

static char *
cliarg(const char *t) {
  static char q[16384];
  size_t n, k;
  unsigned char *b;
  char *s;
  if (t[0] == 'v' && t[1] == ':') { b = bytes(t + 2, &n); return strdup(hex(b, n)); }
  if (t[0] == 'V' && t[1] == ':') { b = bytes(t + 2, &n); s = strdup(hex(b, n)); for (k = 0; s[k]; k++) if (s[k] >= 'a') s[k] -= 32; return s; }
  if (t[0] == 'R' && t[1] == ':') return strdup(sh->reg[idx(t + 1, NREG)]);
  if (t[0] == 'P' && t[1] == ':') return strdup(sh->proof[idx(t + 1, NPROOF)]);
  if (t[0] == 'x' && t[1] == ':') { b = bytes(t + 2, &n); s = calloc(1, n + 1); memcpy(s, b, n); return s; }
  if (!strcmp(t, "@")) return strdup(dbpath);
  spelled(q, sizeof q, t);
  return strdup(q);
}

/* A digest of what is below a folder, times included. */
static unsigned long treesum;
static int
tree_cb(const char *p, const struct stat *st, int fl, struct FTW *w) {
  unsigned long h = 1469598103934665603ul;
  const char *s;
  (void)w;
  for (s = p; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ul;
  h = (h ^ st->st_ino) * 1099511628211ul;
  h = (h ^ fl) * 1099511628211ul;
  h = (h ^ st->st_size) * 1099511628211ul;
  h = (h ^ st->st_mtim.tv_sec) * 1099511628211ul;
  h = (h ^ st->st_mtim.tv_nsec) * 1099511628211ul;
  treesum += h;
  return 0;
}
static unsigned long
tree(const char *p) { treesum = 0; nftw(p, tree_cb, 16, FTW_PHYS); return treesum; }

static void
cli(char **tok, int nt) {
  char *argv[80], cwd[6000], was[16384], rep[4200], fault[2000] = "", *out = NULL;
  size_t outn = 0, outcap = 0, k;
  int argc = 0, i, at = 2, fd[2], st, first;
  long fired = 0, soft = 0, heap = 0, fds = 0, maps = 0;
  unsigned long sum;
  unsigned kinds = 0;
  FILE *fp;
  pid_t pid;
  const char *keep = NULL;
  argv[argc++] = "urkel";
  if (nt > 2 && tok[2][0] == '=') { keep = tok[2] + 1; at = 3; }
  for (i = at; i < nt && argc < 70; i++) argv[argc++] = cliarg(tok[i]);
  argv[argc] = NULL;
  if (!getcwd(cwd, sizeof cwd)) gone();
  snprintf(was, sizeof was, "%s", dbdir);
  if (!strcmp(tok[1], "@")) ;
  else if (strcmp(tok[1], "-")) snprintf(dbdir, sizeof dbdir, "%s%s%s", base, strcmp(tok[1], ".") ? "/" : "", strcmp(tok[1], ".") ? tok[1] : "");
  else snprintf(dbdir, sizeof dbdir, "%s/nothing here", base);
  o("{\"op\":\"cli\",\"cwd\":\"%s\",\"dir\":\"%s\"", cwd, dbdir);
  onames();
  o(",\"set\":%d,\"env\":\"%s\",\"argv\":[", cliset, clienv);
  for (i = 1; i < argc; i++) ojson(i > 1 ? "," : "", argv[i], strlen(argv[i]));
  o("],\"ax\":[");
  for (i = 1; i < argc; i++) { o(i > 1 ? ",\"" : "\""); ohex((unsigned char *)argv[i], strlen(argv[i])); o("\""); }
  o("],\"al\":[");
  for (i = 1; i < argc; i++) {
    char *q = strdup(argv[i]);
    for (k = 0; q[k]; k++) if (q[k] >= 'A' && q[k] <= 'Z') q[k] += 32;
    ojson(i > 1 ? "," : "", q, strlen(q));
    free(q);
  }
  o("]");
  for (i = 0; i < vf_nfaults; i++) {
    vf_fault_t *f = &vf_faults[i];
    snprintf(fault + strlen(fault), sizeof fault - strlen(fault), "%u %ld %ld %d %d %ld;", f->mask, f->nth, f->every, f->act, f->err, f->arg);
  }
  snprintf(rep, sizeof rep, "%s/report", scratch);
  unlink(rep);
  sh->randctr += 1000;
  sum = tree(base);
  if (pipe(fd)) fatal("pipe", "");
  pid = fork();
  if (pid == 0) {
    char b[40];
    dup2(fd[1], 1);
    close(fd[0]); close(fd[1]);
    if (!getenv("VF_STDERR")) { int z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z); }
    if (cliset) setenv("URKEL_PATH", clienv, 1); else unsetenv("URKEL_PATH");
    setenv("VF_ROOT", scratch, 1);
    setenv("VF_REPORT", rep, 1);
    setenv("VF_FAULT", fault, 1);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99", 1);
    snprintf(b, sizeof b, "%lu", (unsigned long)sh->randctr);
    setenv("VF_RAND", b, 1);
    alarm(30);
    execv(getenv("VF_CLI") ? getenv("VF_CLI") : "cli", argv);
    _exit(97);
  }
  if (pid < 0) fatal("fork", "");
  close(fd[1]);
  for (;;) {
    ssize_t r;
    if (outcap - outn < 4096) { outcap = outcap * 2 + 8192; out = realloc(out, outcap + 1); }
    r = read(fd[0], out + outn, outcap - outn);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) break;
    outn += r;
    if (outn > 1 << 24) kill(pid, SIGKILL);     /* no database here has so much to tell */
  }
  close(fd[0]);
  while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) fatal("waitpid", "");
  st = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  if (st == 128 + SIGALRM || st == 128 + SIGKILL) hung = 1;
  if (st == 97) fatal("cannot run", getenv("VF_CLI"));
  fp = fopen(rep, "r");
  if (fp) { if (fscanf(fp, "%ld %ld %u %ld %ld %ld", &fired, &soft, &kinds, &heap, &fds, &maps) != 6) fatal("report", rep); fclose(fp); }
  else if (st != 99 && st < 128) fatal("no report", "");
  unlink(rep);
  o(",\"status\":%d,\"f\":%ld,\"s\":%ld,\"heap\":%ld,\"fds\":%ld,\"maps\":%ld,\"fk\":[", st, fired, soft, heap, fds, maps);
  for (i = 0, first = 1; i < K_MAX; i++) if (kinds & (1u << i)) { o("%s\"%s\"", first ? "" : ",", vf_kindname[i]); first = 0; }
  o("],\"out\":[");
  for (k = 0, i = 0; k < outn; i++) {
    char *e = memchr(out + k, '\n', outn - k);
    size_t n = e ? (size_t)(e - (out + k)) : outn - k;
    if (i == 0 && keep && e) {
      if (keep[0] == 'R') snprintf(sh->reg[idx(keep, NREG)], 65, "%.*s", (int)(n < 64 ? n : 64), out + k);
      else if (n <= 2 * PROOFMAX) { memcpy(sh->proof[idx(keep, NPROOF)], out + k, n); sh->proof[idx(keep, NPROOF)][n] = 0; }
    }
    ojson(i ? "," : "", out + k, n);
    k += n + (e != NULL);
  }
  o("],\"touched\":%d", tree(base) != sum);
  o(",\"nl\":%d", outn == 0 || out[outn - 1] == '\n');
  snprintf(dbdir, sizeof dbdir, "%s", was);
  done();
  free(out);
  for (i = 1; i < argc; i++) free(argv[i]);
}
