/* palm's memory functions, with requests refused */
#define STATUS_EVENT
#define OOM_MAIN
#include "oom.h"
#define malloc(n) __real_malloc(n)
#define realloc(p, n) __real_realloc(p, n)
#include "forked.h"
#undef malloc
#undef realloc
#include "palm/memory.h"

#define NB 12
static struct { unsigned char *p; size_t n; } blk[NB];
void oom_refused(void)
{
    struct oom *o = oom;
    oom = NULL;
    emit("\"e\":\"refuse\"");
    oom = o;
}
static void report(const char *op, size_t n, int a, int b)
{
    static char s[1 << 16];
    size_t k = 0;
    bool apart = true;
    k += sprintf(s + k, "[");
    for (int i = 0, m = 0; i < NB; i++) {
        if (!blk[i].p) continue;
        k += sprintf(s + k, "%s{\"b\":%d,\"c\":[", m++ ? "," : "", i + 1);
        for (size_t j = 0; j < blk[i].n; j++)
            k += sprintf(s + k, "%s%d", j ? "," : "", blk[i].p[j]);
        k += sprintf(s + k, "]}");
        for (int j = 0; j < NB; j++)
            if (j != i && blk[j].p && blk[j].p < blk[i].p + blk[i].n && blk[i].p < blk[j].p + blk[j].n)
                apart = false;
    }
    sprintf(s + k, "]");
    emit("\"e\":\"%s\",\"n\":%zu,\"a\":%d,\"b\":%d,\"apart\":%s,\"mem\":%s", op, n, a, b, apart ? "true" : "false", s);
}
static void perform(char **w, int n)
{
    if (!oom) oom_setup();
    int b = n > 1 ? atoi(w[1]) : 0;
    size_t k = n > 2 ? (size_t)atol(w[2]) : 0;
    int a = n > 3 ? atoi(w[3]) : 0;
    if (w[0][0] == 'R') { oom->n = 0; oom->at = b; oom->on = (int)k; return; }
    b = b % NB;
    if (a) a = (a - 1) % NB + 1;
    switch (w[0][0]) {
    case 'm':   /* into a free place */
        if (blk[b].p) return;
        blk[b].p = MEMmalloc(k);
        blk[b].n = blk[b].p ? k : 0;
        report("malloc", k, 0, blk[b].p ? b + 1 : 0);
        return;
    case 'c':
        if (blk[b].p || !a || !blk[a - 1].p) return;
        if (k > blk[a - 1].n) k = blk[a - 1].n;
        blk[b].p = MEMcopy(k, blk[a - 1].p);
        blk[b].n = blk[b].p ? k : 0;
        report("copy", k, a, blk[b].p ? b + 1 : 0);
        return;
    case 'r': {  /* the block stays in its place, or there is none yet */
        int was = blk[b].p ? b + 1 : 0;
        blk[b].p = MEMrealloc(blk[b].p, k);
        blk[b].n = blk[b].p ? k : 0;
        report("realloc", k, was, blk[b].p ? b + 1 : 0);
        return;
    }
    case 'f': {
        int was = blk[b].p ? b + 1 : 0;
        void *r = MEMfree(blk[b].p);
        blk[b].p = NULL;
        report("free", 0, was, r ? 99 : 0);
        return;
    }
    case 'w':
        if (!blk[b].p) return;
        memset(blk[b].p, (int)k, blk[b].n);
        {
            char op[64];
            sprintf(op, "fill\",\"k\":%d,\"z\":\"", (int)k);
            report(op, 0, b + 1, b + 1);
        }
        return;
    }
}
static void finished(void) {}
