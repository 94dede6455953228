/* Linked into the command-line tool under test: sets up the stand-ins for
 * system calls from the environment and reports what was injected. */
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include "vf.h"

static void
report(void) {
  const char *p = getenv("VF_REPORT");
  char b[100];
  int n, fd;
  if (!p || (fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600)) < 0) return;
  n = snprintf(b, sizeof b, "%ld %ld %u %ld %ld %ld\n", vf_fired, vf_soft, vf_fired_kinds, vf_heap, vf_fds, vf_maps);
  if (write(fd, b, n) != n) abort();
  close(fd);
}

__attribute__((constructor)) static void
setup(void) {
  char *s = getenv("VF_FAULT");
  static uint64_t ctr;
  vf_root = getenv("VF_ROOT");
  vf_seed = getenv("VERIF_SEED") ? strtoul(getenv("VERIF_SEED"), NULL, 10) : 1;
  ctr = getenv("VF_RAND") ? strtoul(getenv("VF_RAND"), NULL, 10) : 0;
  vf_randctr = &ctr;
  vf_die = report;
  while (s && *s && vf_nfaults < VF_MAXFAULT) {
    vf_fault_t *f = &vf_faults[vf_nfaults++];
    f->mask = strtoul(s, &s, 10); f->nth = strtol(s, &s, 10); f->every = strtol(s, &s, 10);
    f->act = strtol(s, &s, 10); f->err = strtol(s, &s, 10); f->arg = strtol(s, &s, 10);
    if (*s == ';') s++;
  }
  atexit(report);
}
