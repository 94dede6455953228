/* Threads under a scheduler of our own: see conc.c. */
#ifndef CONC_H
#define CONC_H
#include <stddef.h>
void conc_begin(void);                       /* a call starts */
int conc_done(const char *ev, size_t n);     /* a call ended with this event */
int conc_cmd(char **tok, int nt);            /* T, run, record */
extern int (*conc_exec)(char *line);         /* executes one line of a thread */
extern void (*conc_emit)(const char *line);  /* one event to the trace */
int conc_active(void);
void conc_hooks(void);
#endif
