/* Linked into a whole program (cocogen) with --wrap: OOM_AT, OOM_ON say when
   requests are refused, OOM_STATE is a file that tells what happened. */
#define OOM_MAIN
#define STATUS_EVENT
#include "oom.h"
#include <dirent.h>
#include <fcntl.h>
#include <regex.h>
#include <stdio.h>
#include <unistd.h>
void oom_refused(void) {}
static __attribute__((constructor)) void begin(void)
{
    const char *f = getenv("OOM_STATE"), *at = getenv("OOM_AT"), *on = getenv("OOM_ON");
    int fd = f ? open(f, O_RDWR) : -1;
    if (fd < 0) return;
    struct oom *o = mmap(0, sizeof *o, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (o == MAP_FAILED) return;
    memset(o, 0, sizeof *o);
    o->at = at ? atol(at) : 0;
    o->on = on ? atoi(on) : 0;
    oom = o;
    (void)oom_setup;
}
int __real_regcomp(regex_t *, const char *, int);
int __wrap_regcomp(regex_t *r, const char *p, int f) { return refuse(1) ? REG_ESPACE : __real_regcomp(r, p, f); }
int __real_regexec(const regex_t *, const char *, size_t, regmatch_t *, int);
int __wrap_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f)
{
    return refuse(1) ? REG_ESPACE : __real_regexec(r, s, n, m, f);
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { return refuse(1) ? NULL : __real_fopen(p, m); }
DIR *__real_opendir(const char *);
DIR *__wrap_opendir(const char *p) { return refuse(1) ? NULL : __real_opendir(p); }
