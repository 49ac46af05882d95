/* Allocation that refuses: linked with --wrap, so that everything the program
   (generated code, runtime, palm) asks for itself comes through here.
   Counters live in shared memory, so that a parent sees those of its child. */
#ifndef OOM_H
#define OOM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
struct oom { long n, at; int on, hit; };
extern struct oom *oom;
#ifdef OOM_MAIN
#include <sys/mman.h>
struct oom *oom;
void oom_refused(void);
static void oom_setup(void)
{
    oom = mmap(0, sizeof *oom, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static bool refuse(size_t size)
{
    if (!oom || !size) return false;
    oom->n++;
    bool r = oom->at > 0 && (oom->on ? oom->n >= oom->at : oom->n == oom->at);
    if (r) {
        oom->hit = 1;
        oom_refused();
        errno = ENOMEM;
    }
    return r;
}
void *__wrap_malloc(size_t s) { return refuse(s) ? NULL : __real_malloc(s); }
void *__wrap_calloc(size_t a, size_t b) { return refuse(a * b) ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t s) { return refuse(s) ? NULL : __real_realloc(p, s); }
char *__wrap_strdup(const char *s)
{
    size_t k = strlen(s) + 1;
    char *r = refuse(k) ? NULL : __real_malloc(k);
    return r ? memcpy(r, s, k) : r;
}
char *__wrap_strndup(const char *s, size_t m)
{
    size_t k = strnlen(s, m);
    char *r = refuse(k + 1) ? NULL : __real_malloc(k + 1);
    if (r) { memcpy(r, s, k); r[k] = 0; }
    return r;
}
#ifndef STATUS_EVENT
/* runs of larger programs: the plan is "at:on,at:on,...", one for each run */
#include <stdio.h>
#include <sys/wait.h>
#include <unistd.h>
static int oom_err = -1;
void oom_refused(void) {}
static void oom_next(void)
{
    static char *plan;
    if (!oom) {
        oom_setup();
        plan = getenv("OOM_PLAN");
    }
    memset(oom, 0, sizeof *oom);
    if (plan && *plan) {
        oom->at = strtol(plan, &plan, 10);
        if (*plan == ':') oom->on = (int)strtol(plan + 1, &plan, 10);
        if (*plan == ',') plan++;
    }
    if (oom_err >= 0) close(oom_err);
    oom_err = memfd_create("err", 0);
}
static void oom_over(int fd, int st)
{
    static char said[400], s[1000];
    ssize_t k = pread(oom_err, said, sizeof said, 0);
    int n = sprintf(s, "\n@@OVER %d %ld %d ", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), oom->n, oom->hit);
    for (ssize_t i = 0; i < k; i++) n += sprintf(s + n, "%02x", (unsigned char)said[i]);
    s[n++] = '\n';
    if (write(fd, s, (size_t)n) != n) _exit(70);
}
#endif
#endif
#endif
