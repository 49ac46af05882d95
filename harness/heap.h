/* Harness for node construction, fields, copying and releasing. */
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "ccngen/ag.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include "palm/ctinfo.h"
#include <fcntl.h>
#include <inttypes.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef OOM      /* requests for memory are refused (P23) */
#define OOM_MAIN
#include "oom.h"
#define malloc(n) __real_malloc(n)
#endif

struct val { node_st *n; char *s; long long i; unsigned long long u; double d; };
struct slot { int n, ty[16]; };
struct pdecl { char ty; int bits, e; };
struct tdecl {
    enum ccn_nodetype nt;
    int nc, nl, ns, np, na;
    struct slot c[6], l[8];
    struct pdecl p[16];
    int nord;
    struct { char k; int i; } ord[32];
};
extern struct tdecl decls[];
extern int ndecls, nenums, enumn[], enumvals[][12];
node_st *construct(int t, struct val *a);
int nvia(int t, char k, int i);
void setf(node_st *n, int t, char k, int i, int via, struct val v);
struct val getf(node_st *n, int t, char k, int i, int via);
void getag(node_st *n, int t, int i, char *out);

int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));

static uint64_t rs;
static int rnd(int n) {
    rs = rs * 6364136223846793005ULL + 1442695040888963407ULL;
    return (int)((rs >> 33) % (uint64_t)n);
}
static bool chance(int pct) { return rnd(100) < pct; }
static int outfd = 1;
static char buf[1 << 18];
static int bl;
static void flush_ev(void) {
    if (bl && write(outfd, buf, bl) != bl) _exit(70);
    bl = 0;
}
static void put(const char *fmt, ...) {
    va_list ap;
    if (bl > (int)sizeof buf - 4096) flush_ev();
    va_start(ap, fmt);
    bl += vsnprintf(buf + bl, 2048, fmt, ap);
    va_end(ap);
#ifdef OOM
    flush_ev();
#endif
}

/* blocks that belong to the tree */
static bool tracking;
static int nblocks;
static const volatile void *blocks[1 << 16];
static unsigned hashp(const volatile void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & 65535; }
#define TOMB ((void *)1)
static void on_malloc(const volatile void *p, size_t s) {
    (void)s;
    if (!tracking || !p) return;
    unsigned h = hashp(p);
    while (blocks[h] && blocks[h] != TOMB) h = (h + 1) & 65535;
    blocks[h] = p;
    nblocks++;
}
static void on_free(const volatile void *p) {
    if (!p) return;
    for (unsigned h = hashp(p); blocks[h]; h = (h + 1) & 65535)
        if (blocks[h] == p) {
            blocks[h] = TOMB;
            nblocks--;
            return;
        }
}

/* identities */
#define MAXN 3000
static node_st *objs[MAXN];
static bool dead[MAXN];
static int nobjs, parent[MAXN], typ[MAXN];
static int idof(node_st *n) {
    if (!n) return 0;
    for (int i = nobjs; i > 0; i--) if (objs[i - 1] == n) return i;
    return -1;
}
static int typeof_node(node_st *n) {
    for (int i = 0; i < ndecls; i++) if (decls[i].nt == NODE_TYPE(n)) return i;
    return -1;
}
static int reg(node_st *n) {
    if (nobjs >= MAXN - 2) _exit(75);
    objs[nobjs] = n;
    typ[nobjs] = typeof_node(n);
    parent[nobjs] = 0;
    return ++nobjs;
}
static void put_str(const char *s) {
    if (!s) { put("\"-\""); return; }
    put("\"s:");
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') put("\\%c", *s);
        else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) put("<%02x>", (unsigned char)*s);
        else put("%c", *s);
    }
    put("\"");
}
static void put_p(int t, int i, struct val v) {
    struct pdecl *p = &decls[t].p[i];
    if (p->ty == 'i' || p->ty == 'U') put("\"%lld\"", v.i);
    else if (p->ty == 'u') put("\"%llu\"", v.u);
    else if (p->ty == 'b') put("\"%s\"", v.i == 0 ? "0" : v.i == 1 ? "1" : "?");
    else if (p->ty == 'e') {
        int k = -1;
        for (int j = 0; j < enumn[p->e]; j++) if (enumvals[p->e][j] == v.i) k = j;
        put("\"e%d\"", k);
    } else put("\"%.17g\"", v.d);
}
static void put_val(int t, char k, int i, struct val v) {
    put("{\"n\":%d,\"s\":", k == 'c' || k == 'l' ? idof(v.n) : 0);
    if (k == 's') put_str(v.s);
    else if (k == 'p') put_p(t, i, v);
    else put("\"\"");
    put("}");
}
static char *newstr(void) {
    static const char *pool[] = {"", "x", "a b", "\"q\\", "0123456789012345678901234567890123456789012345678901234567890123456789", "%s%d", "-", "tab\there\n"};
    const char *s = pool[rnd(8)];
    tracking = true;
    char *r = malloc(strlen(s) + 1);
    tracking = false;
    strcpy(r, s);
    return r;
}
static struct val randp(int t, int i) {
    struct pdecl *p = &decls[t].p[i];
    struct val v = {0};
    long long r = (long long)((uint64_t)rnd(1 << 30) << 34 ^ (uint64_t)rnd(1 << 30) << 15 ^ (uint64_t)rnd(1 << 15));
    int k = rnd(6);
    switch (p->ty) {
    case 'i':
        if (k == 0) v.i = p->bits == 64 ? INT64_MIN : -(1LL << (p->bits - 1));
        else if (k == 1) v.i = p->bits == 64 ? INT64_MAX : (1LL << (p->bits - 1)) - 1;
        else if (k == 2) v.i = rnd(3) - 1;
        else v.i = r >> (64 - p->bits);
        break;
    case 'u':
        if (k == 0) v.u = p->bits == 64 ? UINT64_MAX : (1ULL << p->bits) - 1;
        else if (k == 1) v.u = rnd(2);
        else v.u = (unsigned long long)r >> (64 - p->bits);
        break;
    case 'b': v.i = rnd(2); break;
    case 'f': v.d = (double)(float)((k ? 1.0 : 1e-30) * (rnd(2001) - 1000) / 7.0); break;
    case 'd': v.d = (k ? 1.0 : 1e-300) * (rnd(200001) - 100000) / 7.0; break;
    case 'e': v.i = enumvals[p->e][rnd(enumn[p->e])]; break;
    case 'U': v.i = r; break;
    }
    return v;
}
static bool fits(struct slot *s, int t) {
    for (int i = 0; i < s->n; i++) if (s->ty[i] == t) return true;
    return false;
}
static int rootof(int id) {
    while (parent[id - 1]) id = parent[id - 1];
    return id;
}
static int pick_live(void) {
    for (int k = 0; k < 40; k++) {
        int i = rnd(nobjs);
        if (!dead[i]) return i + 1;
    }
    for (int i = 0; i < nobjs; i++) if (!dead[i]) return i + 1;
    return 0;
}
static int pick_root(struct slot *s, int notroot) {
    int c[64], n = 0;
    for (int i = nobjs - 1; i >= 0 && n < 64; i--)
        if (!dead[i] && !parent[i] && i + 1 != notroot && fits(s, typ[i])) c[n++] = i + 1;
    return n ? c[rnd(n)] : 0;
}
static int pick_any(struct slot *s) {
    int c[64], n = 0;
    for (int i = nobjs - 1; i >= 0 && n < 64; i--) if (!dead[i] && fits(s, typ[i])) c[n++] = i + 1;
    return n ? c[rnd(n)] : 0;
}
static int p_null;
static int make(int t, int d) {
    struct val a[32];
    memset(a, 0, sizeof a);
    int nargs = decls[t].nord, kids[32] = {0};
    for (int j = 0; j < nargs; j++) {
        char k = decls[t].ord[j].k;
        int i = decls[t].ord[j].i;
        if (k == 'c' && !chance(p_null)) {
            int m = chance(60) ? pick_root(&decls[t].c[i], 0) : 0;
            for (int q = 0; q < j; q++) if (kids[q] == m) m = 0;
            if (!m && d < 4) {
                m = make(decls[t].c[i].ty[rnd(decls[t].c[i].n)], d + 1);
                for (int q = 0; q < j; q++) if (kids[q] && parent[kids[q] - 1]) kids[q] = 0, a[q].n = NULL; /* taken meanwhile */
            }
            kids[j] = m;
            a[j].n = m ? objs[m - 1] : NULL;
        } else if (k == 'l' && !chance(p_null)) {
            int m = pick_any(&decls[t].l[i]);
            a[j].n = m ? objs[m - 1] : NULL;
        } else if (k == 's') a[j].s = chance(p_null) ? NULL : newstr();
        else if (k == 'p') a[j] = randp(t, i);
    }
    tracking = true;
    node_st *n = construct(t, a);
    tracking = false;
    int id = reg(n);
    put("{\"e\":\"new\",\"t\":%d,\"n\":%d,\"args\":[", typ[id - 1] + 1, id);
    for (int j = 0; j < nargs; j++) {
        if (j) put(",");
        put_val(t, decls[t].ord[j].k, decls[t].ord[j].i, a[j]);
        if (kids[j]) parent[kids[j] - 1] = id;
    }
    put("]}\n");
    return id;
}
static struct val via0(int id, char k, int i) { return getf(objs[id - 1], typ[id - 1], k, i, 0); }
static void put_fields(int id, char k, int n) {
    for (int i = 0; i < n; i++) {
        struct val v = via0(id, k, i);
        put(i ? "," : "");
        if (k == 's') put_str(v.s);
        else if (k == 'p') put_p(typ[id - 1], i, v);
        else put("%d", idof(v.n));
    }
}
static void dump(void) {
    static void *own[MAXN * 8];
    int no = 0;
    bool first = true;
    put("{\"e\":\"dump\",\"ns\":[");
    for (int id = 1; id <= nobjs; id++) {
        if (dead[id - 1]) continue;
        node_st *n = objs[id - 1];
        int t = typeof_node(n);
        put(first ? "" : ",");
        first = false;
        put("{\"id\":%d,\"t\":%d,\"c\":[", id, t + 1);
        if (t < 0 || t != typ[id - 1]) { put("]}"); continue; }
        put_fields(id, 'c', decls[t].nc);
        put("],\"l\":[");
        put_fields(id, 'l', decls[t].nl);
        put("],\"s\":[");
        put_fields(id, 's', decls[t].ns);
        put("],\"p\":[");
        put_fields(id, 'p', decls[t].np);
        put("],\"pos\":[%d,%d,%d,%d],\"file\":", (int)NODE_BLINE(n), (int)NODE_ELINE(n), (int)NODE_BCOL(n), (int)NODE_ECOL(n));
        put_str(NODE_FILENAME(n));
        put("}");
        for (int i = 0; i < decls[t].ns; i++) {
            char *s = via0(id, 's', i).s;
            if (s) own[no++] = s;
        }
        if (NODE_FILENAME(n)) own[no++] = NODE_FILENAME(n);
    }
    put("],\"own\":[");
    for (int i = 0; i < no; i++) {
        int j = 0;
        while (own[j] != own[i]) j++;
        put("%s%d", i ? "," : "", j);
    }
    put("]}\n");
}
static void live(void) { put("{\"e\":\"live\",\"k\":%d}\n", nblocks); }
static void kill_tree(int id) {
    dead[id - 1] = true;
    for (int i = 0; i < nobjs; i++) if (!dead[i] && parent[i] == id) kill_tree(i + 1);
}
static void walk_copy(node_st *n, int par) { /* number the copy like the specification does */
    if (!n || idof(n) > 0) return;
    int id = reg(n), t = typ[id - 1];
    parent[id - 1] = par;
    if (t < 0) return;
    for (int i = 0; i < decls[t].nc; i++) {
        node_st *c = via0(id, 'c', i).n;
        if (c && idof(c) > 0) continue;
        walk_copy(c, id);
    }
}
static bool dangling(int id) {
    int t = typ[id - 1];
    for (int i = 0; i < decls[t].nl; i++) {
        int m = idof(via0(id, 'l', i).n);
        if (m && (m < 0 || dead[m - 1])) return true;
    }
    for (int i = 0; i < nobjs; i++) if (!dead[i] && parent[i] == id && dangling(i + 1)) return true;
    return false;
}
static void setchild(int id, int i, int m) {
    int t = typ[id - 1], old = idof(via0(id, 'c', i).n);
    if (old > 0 && !dead[old - 1] && parent[old - 1] == id) parent[old - 1] = 0;
    struct val v = {0};
    v.n = m ? objs[m - 1] : NULL;
    setf(objs[id - 1], t, 'c', i, 0, v);
    if (m) parent[m - 1] = id;
    put("{\"e\":\"set\",\"n\":%d,\"k\":\"c\",\"i\":%d,\"v\":", id, i + 1);
    put_val(t, 'c', i, v);
    put("}\n");
}
static void op_set(int id) {
    int t = typ[id - 1], n = decls[t].nc + decls[t].nl + decls[t].ns + decls[t].np;
    if (!n) return;
    int f = rnd(n);
    char k;
    struct val v = {0};
    if (f < decls[t].nc) {
        setchild(id, f, chance(p_null) ? 0 : pick_root(&decls[t].c[f], rootof(id)));
        return;
    }
    f -= decls[t].nc;
    if (f < decls[t].nl) {
        k = 'l';
        int m = chance(p_null) ? 0 : pick_any(&decls[t].l[f]);
        v.n = m ? objs[m - 1] : NULL;
    } else if ((f -= decls[t].nl) < decls[t].ns) {
        k = 's';
        free(via0(id, 's', f).s);
        v.s = chance(p_null) ? NULL : newstr();
    } else {
        k = 'p';
        f -= decls[t].ns;
        v = randp(t, f);
    }
    setf(objs[id - 1], t, k, f, rnd(nvia(t, k, f)), v);
    put("{\"e\":\"set\",\"n\":%d,\"k\":\"%c\",\"i\":%d,\"v\":", id, k, f + 1);
    put_val(t, k, f, v);
    put("}\n");
}
static void op_get(int id) {
    static const char ks[] = "clsp";
    int t = typ[id - 1], n[4] = {decls[t].nc, decls[t].nl, decls[t].ns, decls[t].np};
    for (int q = 0; q < 4; q++) for (int i = 0; i < n[q]; i++) for (int via = 0; via < nvia(t, ks[q], i); via++) {
        if (!chance(50)) continue;
        put("{\"e\":\"get\",\"n\":%d,\"k\":\"%c\",\"i\":%d,\"v\":", id, ks[q], i + 1);
        put_val(t, ks[q], i, getf(objs[id - 1], t, ks[q], i, via));
        put("}\n");
    }
}
static void op_pos(int id) {
    node_st *n = objs[id - 1];
    NODE_BLINE(n) = rnd(1000);
    NODE_ELINE(n) = rnd(1000);
    NODE_BCOL(n) = rnd(1000);
    NODE_ECOL(n) = rnd(1000);
    free(NODE_FILENAME(n));
    NODE_FILENAME(n) = chance(40) ? NULL : newstr();
    put("{\"e\":\"pos\",\"n\":%d,\"pos\":[%d,%d,%d,%d],\"file\":", id, (int)NODE_BLINE(n), (int)NODE_ELINE(n), (int)NODE_BCOL(n), (int)NODE_ECOL(n));
    put_str(NODE_FILENAME(n));
    put("}\n");
}
static void op_copy(int id) {
    tracking = true;
    node_st *r = chance(50) ? CCNcopy(id ? objs[id - 1] : NULL) : TRAVstart(id ? objs[id - 1] : NULL, TRAV_cpy);
    tracking = false;
    int known = idof(r);
    if (r && known < 0) {
        walk_copy(r, 0);
        known = idof(r);
    }
    put("{\"e\":\"copy\",\"n\":%d,\"r\":%d}\n", id, known);
}
static void op_free(int id) {
    int p = id ? parent[id - 1] : 0;
    node_st *r = chance(50) ? CCNfree(id ? objs[id - 1] : NULL) : TRAVstart(id ? objs[id - 1] : NULL, TRAV_free);
    put("{\"e\":\"free\",\"n\":%d,\"r\":%d}\n", id, idof(r));
    if (!id) return;
    kill_tree(id);
    if (p) {
        int t = typ[p - 1];
        for (int i = 0; i < decls[t].nc; i++) if (via0(p, 'c', i).n == objs[id - 1]) setchild(p, i, 0);
    }
}
static void op_run(int id) {
    if (parent[id - 1] || dangling(id)) return;
    CCNrun(objs[id - 1]);
    put("{\"e\":\"run\",\"n\":%d}\n", id);
    kill_tree(id);
}
static int evaluating;
void ev_eval(int i, const char *v) { put("{\"e\":\"eval\",\"n\":%d,\"i\":%d,\"v\":\"%s\"}\n", evaluating, i + 1, v); }
static void op_ag(int id) {
    int t = typ[id - 1];
    for (int i = 0; i < decls[t].na; i++) {
        int fd[2];
        char out[128];
        memset(out, 0, sizeof out);
        if (pipe(fd)) _exit(76);
        pid_t pid = fork();
        if (pid == 0) {
            getag(objs[id - 1], t, i, out);
            if (write(fd[1], out, strlen(out)) < 0) _exit(1);
            _exit(0);
        }
        close(fd[1]);
        int st;
        waitpid(pid, &st, 0);
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        ssize_t k = read(fd[0], out, sizeof out - 1);
        close(fd[0]);
        put("{\"e\":\"ag\",\"n\":%d,\"i\":%d,\"v\":\"%s\"}\n", id, i + 1, ok && k > 0 ? out : "unset");
    }
}
void BreakpointHandler(node_st *n) { (void)n; _exit(73); }

int main(void) {
    char line[256];
    outfd = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    while (fgets(line, sizeof line, stdin)) {
        unsigned long seed;
        int nops, w_set, w_copy, w_free, maxlive;
        if (sscanf(line, "%lu %d %d %d %d %d %d", &seed, &nops, &w_set, &w_copy, &w_free, &p_null, &maxlive) != 7)
            return 71;
        put("#\n");
        flush_ev();
#ifdef OOM
        oom_next();
#endif
        pid_t pid = fork();
        if (pid == 0) {
#ifdef OOM
            dup2(oom_err, 2);
#endif
            alarm(30);
            rs = seed * 2654435761UL + 12345;
            rnd(2);
            /* warm up buffers, learn what a bare node takes */
            struct val none[32];
            memset(none, 0, sizeof none);
            __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
            put("{\"e\":\"cost\",\"k\":[");
            for (int t = 0; t < ndecls; t++) {
                int before = nblocks;
                tracking = true;
                node_st *n = construct(t, none);
                tracking = false;
                put("%s%d", t ? "," : "", nblocks - before);
                if (w_free) CCNfree(CCNcopy(n)), CCNfree(n);
                memset(blocks, 0, sizeof blocks);
                nblocks = 0;
            }
            put("]}\n{\"e\":\"enums\",\"vs\":[");
            for (int e = 0; e < nenums; e++) {
                put(e ? ",[" : "[");
                for (int j = 0; j < enumn[e]; j++) put("%s%d", j ? "," : "", enumvals[e][j]);
                put("]");
            }
            put("]}\n");
            make(chance(50) ? 0 : rnd(ndecls), 0);
            for (int o = 0; o < nops; o++) {
                int id = pick_live(), nlive = 0;
                for (int i = 0; i < nobjs; i++) nlive += !dead[i];
                if (!id || chance(15)) {
                    if (nlive < maxlive) make(rnd(ndecls), 0);
                    if (chance(30)) dump();
                    continue;
                }
                int k = rnd(w_set + w_copy + w_free);
                if (k < w_set) {
                    if (chance(60)) op_set(id);
                    else if (chance(50)) op_get(id);
                    else op_pos(id);
                    if (chance(20)) dump();
                } else if (k < w_set + w_copy) {
                    if (decls[typ[id - 1]].na && chance(70)) {
                        evaluating = id;
                        CCNevaluateAttributes(objs[id - 1]);
                        evaluating = -1;
                        op_ag(id);
                    }
                    if (nlive < maxlive * 2) op_copy(chance(95) ? id : 0);
                    if (chance(70)) dump();
                    if (w_free) live();
                    if (chance(30) && !dead[nobjs - 1]) op_ag(nobjs);
                } else {
                    if (chance(20)) op_run(rootof(id));
                    else op_free(chance(95) ? id : 0);
                    if (chance(70)) dump();
                    live();
                }
            }
            dump();
            if (w_free) {
                for (int id; (id = pick_live()) != 0;) op_free(rootof(id));
                live();
            }
            flush_ev();
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
#ifdef OOM
        oom_over(outfd, st);
#else
        put("{\"e\":\"exit\",\"ok\":%s}\n", WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "true" : "false");
#endif
        flush_ev();
    }
    return 0;
}
