/* Harness for consistency checking: user functions edit the tree at random and
 * log it.  The including file provides the tables of the declarations. */
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include "palm/ctinfo.h"
#include "palm/str.h"
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

struct childdecl { int n, ty[16]; };              /* admitted types */
struct typedecl { enum ccn_nodetype nt; int nc, na; struct childdecl c[6]; int attr[6]; }; /* attr: 0 string 1 link */
extern struct typedecl decls[];
extern int ndecls;
node_st *mk(int t);
node_st **childp(node_st *n, int i);
void **attrp(node_st *n, int i);

static uint64_t rs;
static int events, outfd = 1, wrong, rate, p_gate;
static int pc[16][6], pa[16][6];
static int rnd(int n) {
    rs = rs * 6364136223846793005ULL + 1442695040888963407ULL;
    return (int)((rs >> 33) % (uint64_t)n);
}
static bool chance(int pct) { return rnd(100) < pct; }
static char buf[1 << 16];
static int bl;
static void put(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    bl += vsnprintf(buf + bl, sizeof buf - bl - 2, fmt, ap);
    va_end(ap);
}
static void flush_ev(void) {
    buf[bl++] = '\n';
    if (write(outfd, buf, bl) != bl) _exit(70);
    bl = 0;
}
static int typeof_node(node_st *n) {
    for (int i = 0; i < ndecls; i++) if (decls[i].nt == NODE_TYPE(n)) return i;
    _exit(72);
}
static node_st *all[400];
static int nall;
static void collect(node_st *n) {
    if (nall >= 390) return;
    all[nall++] = n;
    int t = typeof_node(n);
    for (int i = 0; i < decls[t].nc; i++) if (*childp(n, i)) collect(*childp(n, i));
}
static int idx(node_st *n) {
    for (int i = 0; i < nall; i++) if (all[i] == n) return i + 1;
    return 0;
}
static void put_tree(node_st *root) {
    nall = 0;
    collect(root);
    put("\"tree\":[");
    for (int k = 0; k < nall; k++) {
        int t = typeof_node(all[k]);
        put("%s{\"t\":%d,\"c\":[", k ? "," : "", t + 1);
        for (int i = 0; i < decls[t].nc; i++) put("%s%d", i ? "," : "", *childp(all[k], i) ? idx(*childp(all[k], i)) : 0);
        put("],\"a\":[");
        for (int i = 0; i < decls[t].na; i++) put("%s%d", i ? "," : "", *attrp(all[k], i) != NULL);
        put("]}");
    }
    put("]");
}
static int budget;
static void fill_attr(node_st *n, int t, int i, bool on) {
    void **p = attrp(n, i);
    if (decls[t].attr[i] == 0) {
        if (*p) free(*p);
        *p = on ? STRcpy("s") : NULL;
    } else *p = on ? n : NULL;
}
static int pick_type(int t, int i) {
    struct childdecl *c = &decls[t].c[i];
    if (chance(wrong)) return rnd(ndecls);
    return c->ty[rnd(c->n)];
}
static node_st *grow(int t, int depth) {
    node_st *n = mk(t);
    budget--;
    for (int i = 0; i < decls[t].nc; i++) {
        int p = pc[t][i];
        if (depth > 3 || budget < 0) p = 0;
        *childp(n, i) = chance(p) ? grow(pick_type(t, i), depth + 1) : NULL;
    }
    for (int i = 0; i < decls[t].na; i++) fill_attr(n, t, i, chance(pa[t][i]));
    return n;
}
static void edit(node_st *root) {
    nall = 0;
    collect(root);
    node_st *n = all[rnd(nall)];
    int t = typeof_node(n);
    int k = decls[t].nc + decls[t].na;
    if (!k) return;
    k = rnd(k);
    if (k < decls[t].nc) {
        if (*childp(n, k) && chance(60)) *childp(n, k) = NULL; /* leaked on purpose: it may be linked to */
        else budget = 6, *childp(n, k) = grow(pick_type(t, k), 2);
    } else {
        k -= decls[t].nc;
        fill_attr(n, t, k, *attrp(n, k) == NULL);
    }
}
static void cut(void) {
    if (++events > 120) {
        put("{\"e\":\"cut\"}");
        flush_ev();
        _exit(0);
    }
}
static node_st *leaf(const char *name, node_st *n) {
    cut();
    while (chance(rate)) edit(n);
    if (chance(rate) && chance(10)) { budget = 10; n = grow(0, 0); }
    if (chance(10)) CCNcycleNotify();
    put("{\"e\":\"run\",\"a\":\"%s\",", name);
    put_tree(n);
    put("}");
    flush_ev();
    return n;
}
static bool gate(const char *name) {
    bool v = chance(p_gate);
    cut();
    put("{\"e\":\"gate\",\"a\":\"%s\",\"v\":%s}", name, v ? "true" : "false");
    flush_ev();
    return v;
}
void BreakpointHandler(node_st *n) { (void)n; _exit(73); }

int main(void) {
    char line[256];
    outfd = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    while (fgets(line, sizeof line, stdin)) {
        unsigned long seed;
        int check, mixed, verb;
        if (sscanf(line, "%lu %d %d %d %d %d %d", &seed, &check, &wrong, &rate, &p_gate, &mixed, &verb) != 7) return 71;
        put("#");
        flush_ev();
        pid_t pid = fork();
        if (pid == 0) {
            alarm(20);
            rs = seed * 2654435761UL + 12345;
            rnd(2);
            for (int t = 0; t < 16; t++)
                for (int i = 0; i < 6; i++) {
                    pc[t][i] = chance(mixed) ? 50 : chance(50) ? 100 : 0;
                    pa[t][i] = chance(mixed) ? 50 : chance(50) ? 100 : 0;
                }
            CCNsetTreeCheck(check);
            CCNsetVerbosity(verb);
            budget = 14;
            node_st *n = grow(0, 0);
            put("{\"e\":\"start\",");
            put_tree(n);
            put("}");
            flush_ev();
            CCNrun(n);
            put("{\"e\":\"ret\"}");
            flush_ev();
            exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) < 64) put("{\"e\":\"exit\",\"ok\":%s}", WEXITSTATUS(st) ? "false" : "true");
        else put("{\"e\":\"crash\",\"st\":%d}", st);
        flush_ev();
    }
    return 0;
}
