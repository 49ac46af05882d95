/* Harness for traversals: user functions act at random and log everything. */
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include "ccngen/trav_data.h"
#include "palm/ctinfo.h"
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef OOM      /* requests for memory are refused (P23) */
#define OOM_MAIN
#include "oom.h"
#define malloc(n) __real_malloc(n)
#endif

struct slot { int n, ty[16]; };
struct typedecl { enum ccn_nodetype nt; int nc; struct slot c[6]; };
struct travdecl { enum ccn_traversal_type tt; bool data; int nt, ty[16]; };
extern struct typedecl decls[];
extern struct travdecl travs[];
extern int ndecls, ntravs;
node_st *mk(int t, int v);
node_st **childp(node_st *n, int i);
node_st *travchild(node_st *n, int i); /* the generated TRAV<child> */
int *valp(node_st *n);
int dget(int T);            /* data of the current traversal T, -2: fields disagree */
void dset(int T, int k);

static uint64_t rs;
static int events, outfd = 1, depth, p_nest, p_kids, p_repl, p_null, maxev;
static int rnd(int n) {
    rs = rs * 6364136223846793005ULL + 1442695040888963407ULL;
    return (int)((rs >> 33) % (uint64_t)n);
}
static bool chance(int pct) { return rnd(100) < pct; }
static char buf[1 << 18];
static int bl;
static void flush_ev(void) {
    if (bl && write(outfd, buf, bl) != bl) _exit(70);
    bl = 0;
}
static void put(const char *fmt, ...) {
    va_list ap;
    if (bl > (int)sizeof buf - 4096) flush_ev();
    va_start(ap, fmt);
    bl += vsnprintf(buf + bl, 2048, fmt, ap);
    va_end(ap);
#ifdef OOM
    flush_ev();
#endif
}
/* identities */
static node_st *objs[4000];
static int nobjs;
static int idof(node_st *n) {
    if (!n) return 0;
    for (int i = nobjs; i > 0; i--) if (objs[i - 1] == n) return i;
    return -1;
}
static int typeof_node(node_st *n) {
    for (int i = 0; i < ndecls; i++) if (decls[i].nt == NODE_TYPE(n)) return i;
    return -1;
}
static void put_node(node_st *n) {
    int t = typeof_node(n);
    put("{\"id\":%d,\"t\":%d,\"c\":[", idof(n), t + 1);
    for (int i = 0; t >= 0 && i < decls[t].nc; i++) put("%s%d", i ? "," : "", idof(*childp(n, i)));
    put("],\"v\":%d}", t >= 0 ? *valp(n) : -1);
}
static int firstnew, budget;
static node_st *grow(int t, int d) {
    node_st *n = mk(t, rnd(5));
    if (nobjs >= 3900) _exit(75);
    objs[nobjs++] = n;
    budget--;
    for (int i = 0; i < decls[t].nc; i++) {
        struct slot *s = &decls[t].c[i];
        *childp(n, i) = (d > 9 || budget <= 0 || chance(p_null)) ? NULL : grow(s->ty[rnd(s->n)], d + 1);
    }
    return n;
}
static node_st *fresh(int t, int size) {
    firstnew = nobjs;
    budget = size;
    node_st *n = grow(t, 0);
    put("{\"e\":\"new\",\"ns\":[");
    for (int i = firstnew; i < nobjs; i++) {
        if (i > firstnew) put(",");
        put_node(objs[i]);
    }
    put("]}\n");
    return n;
}
static bool first_dump;
static void dump_rec(node_st *n, int d) {
    if (!n || d > 60) return;
    put(first_dump ? "" : ",");
    first_dump = false;
    put_node(n);
    int t = typeof_node(n);
    for (int i = 0; t >= 0 && i < decls[t].nc; i++) dump_rec(*childp(n, i), d + 1);
}
static void dump(node_st *n) {
    put("{\"e\":\"dump\",\"ns\":[");
    first_dump = true;
    dump_rec(n, 0);
    put("]}\n");
}
static int curdata(int T) { return travs[T].data ? dget(T) : 0; }
static int which(void) {
    ccn_trav_st *c = TRAVgetCurrent();
    for (int i = 0; c && i < ntravs; i++) if (travs[i].tt == c->trav_type) return i;
    return -1;
}
static node_st *start(int T, node_st *n) {
    put("{\"e\":\"tstart\",\"T\":%d,\"n\":%d}\n", T + 1, idof(n));
    node_st *r;
    depth++;
    if (chance(80)) r = TRAVstart(n, travs[T].tt);
    else {
        TRAVpush(travs[T].tt);
        r = TRAVopt(n);
        TRAVpop();
    }
    depth--;
    put("{\"e\":\"tend\",\"r\":%d}\n", idof(r));
    return r;
}
static void ev_init(int T) {
    int d = dget(T), s = d;
    if (chance(50)) dset(T, s = rnd(90) + 1);
    put("{\"e\":\"init\",\"T\":%d,\"d\":%d,\"s\":%d}\n", T + 1, d, s);
}
static void ev_fini(int T) { put("{\"e\":\"fini\",\"T\":%d,\"d\":%d}\n", T + 1, dget(T)); }
static void maybe_data(void) {
    int T = which();
    if (T < 0) {
        put("{\"e\":\"data\",\"T\":-1,\"d\":0}\n"); /* some other traversal is current */
        return;
    }
    if (travs[T].data && chance(60)) put("{\"e\":\"data\",\"T\":%d,\"d\":%d}\n", T + 1, dget(T));
    if (travs[T].data && chance(40)) {
        int k = rnd(90) + 1;
        dset(T, k);
        put("{\"e\":\"setd\",\"d\":%d}\n", k);
    }
}
static void nested(node_st *n, int t) {
    if (depth > 4 || !chance(p_nest)) return;
    if (chance(25)) { /* the framework's own traversals are nested traversals too */
        node_st *c = CCNcopy(n);
        if (c && NODE_TYPE(c) == NODE_TYPE(n)) CCNfree(c);
        maybe_data();
        return;
    }
    int T = rnd(ntravs), k = decls[t].nc ? rnd(decls[t].nc + 1) : 0;
    if (k == 0) {
        start(T, chance(90) ? fresh(rnd(ndecls), 5) : NULL);
    } else {
        k--;
        node_st *r = start(T, *childp(n, k));
        if (chance(80)) {
            *childp(n, k) = r;
            put("{\"e\":\"setc\",\"n\":%d,\"i\":%d,\"m\":%d}\n", idof(n), k + 1, idof(r));
        }
    }
    maybe_data();
}
static node_st *user(int T, int t, node_st *n) {
    put("{\"e\":\"enter\",\"T\":%d,\"t\":%d,\"n\":%d,\"d\":%d}\n", T + 1, t + 1, idof(n),
        which() == T ? curdata(T) : -3);
    int me = idof(n);
    if (++events > maxev) goto out;
    if (NODE_TYPE(n) != decls[t].nt) goto out;
    maybe_data();
    nested(n, t);
    if (chance(p_kids)) {
        put("{\"e\":\"kids\",\"n\":%d}\n", me);
        TRAVchildren(n);
        put("{\"e\":\"kidsd\",\"n\":%d}\n", me);
    } else {
        int ops = rnd(decls[t].nc + 2);
        while (ops-- > 0 && decls[t].nc) {
            int i = rnd(decls[t].nc), k = rnd(10);
            if (k < 5) {
                put("{\"e\":\"desc\",\"n\":%d,\"i\":%d}\n", me, i + 1);
                travchild(n, i);
                put("{\"e\":\"descd\",\"n\":%d,\"i\":%d}\n", me, i + 1);
            } else if (k < 7) {
                put("{\"e\":\"opt\",\"n\":%d}\n", idof(*childp(n, i)));
                node_st *r = *childp(n, i) && chance(50) ? TRAVdo(*childp(n, i)) : TRAVopt(*childp(n, i));
                put("{\"e\":\"optd\",\"r\":%d}\n", idof(r));
                if (chance(70)) {
                    *childp(n, i) = r;
                    put("{\"e\":\"setc\",\"n\":%d,\"i\":%d,\"m\":%d}\n", me, i + 1, idof(r));
                }
            } else if (k < 8 && chance(p_repl)) {
                struct slot *s = &decls[t].c[i];
                node_st *m = chance(30) ? NULL : fresh(s->ty[rnd(s->n)], 4);
                *childp(n, i) = m;
                put("{\"e\":\"setc\",\"n\":%d,\"i\":%d,\"m\":%d}\n", me, i + 1, idof(m));
            } else if (k < 9) {
                *valp(n) = rnd(90);
                put("{\"e\":\"setv\",\"n\":%d,\"v\":%d}\n", me, *valp(n));
            } else maybe_data();
        }
    }
    maybe_data();
    nested(n, t);
out:;
    node_st *r = n;
    if (events <= maxev && chance(p_repl)) {
        int k = rnd(4);
        if (k == 0) { /* one of its children of the same type takes its place */
            for (int i = 0; i < decls[t].nc; i++)
                if (*childp(n, i) && NODE_TYPE(*childp(n, i)) == NODE_TYPE(n)) r = *childp(n, i);
        } else if (k == 1 && depth == 1 && chance(50)) r = NULL;
        else if (k == 2) r = fresh(t, 4);
    }
    put("{\"e\":\"leave\",\"n\":%d,\"r\":%d}\n", me, idof(r));
    flush_ev();
    return r;
}
void BreakpointHandler(node_st *n) { (void)n; _exit(73); }

int main(void) {
    char line[256];
    outfd = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    while (fgets(line, sizeof line, stdin)) {
        unsigned long seed;
        int size, n;
        if (sscanf(line, "%lu %d %d %d %d %d %d %d", &seed, &size, &n, &p_nest, &p_kids, &p_repl, &p_null, &maxev) != 8)
            return 71;
        put("#\n");
        flush_ev();
#ifdef OOM
        oom_next();
#endif
        pid_t pid = fork();
        if (pid == 0) {
#ifdef OOM
            dup2(oom_err, 2);
#endif
            alarm(20);
            rs = seed * 2654435761UL + 12345;
            rnd(2);
            node_st *root = fresh(chance(60) ? 0 : rnd(ndecls), size);
            for (int i = 0; i < n && root; i++) {
                root = start(rnd(ntravs), root);
                dump(root);
            }
            flush_ev();
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
#ifdef OOM
        oom_over(outfd, st);
#else
        put("{\"e\":\"exit\",\"ok\":%s}\n", WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "true" : "false");
#endif
        flush_ev();
    }
    return 0;
}
