/* palm's hash table, driven by scenarios and recorded for HashTable.tla */
#include "forked.h"
#include <ctype.h>
#include <stdint.h>
#include "palm/hash_table.h"

#define MAX 64
typedef struct group { int refs; void **keys; int n, cap; } group;
static struct { htable_st *h; char kind; group *g; } T[MAX];
static struct { htable_iter_st *it; int t; } I[MAX];
static char arena[8192];

static size_t const_hash(void *k) { return 7; }
static size_t big_hash(void *k) { size_t h = ~(size_t)0; for (char *s = k; *s; s++) h -= (unsigned char)*s; return h; }
static bool str_eq(void *a, void *b) { return !strcmp(a, b); }
static size_t ci_hash(void *k) { size_t h = 1; for (char *s = k; *s; s++) h = h * 31 + (size_t)tolower((unsigned char)*s); return h; }
static bool ci_eq(void *a, void *b) { return !strcasecmp(a, b); }

static void own(group *g, void *k)
{
    if (g->n == g->cap)
        g->keys = realloc(g->keys, sizeof(void *) * (size_t)(g->cap = g->cap * 2 + 8));
    g->keys[g->n++] = k;
}
static void *key(char kind, const char *w)
{
    if (kind == 'p')
        return w[0] == 'N' ? NULL : arena + atoi(w);
    if (kind == 'i') {
        int *k = malloc(sizeof *k);
        *k = (int)strtol(w, NULL, 10);
        return k;
    }
    return unhex(w);
}
static void drop(char kind, void *k) { if (kind != 'p') free(k); }
static const char *class(char kind, void *k)
{
    static char b[8][8300];
    static int x;
    char *o = b[x++ % 8];
    if (kind == 'p') {
        if (k) sprintf(o, "p:%ld", (long)((char *)k - arena)); else sprintf(o, "p:N");
    } else if (kind == 'i') {
        sprintf(o, "i:%d", *(int *)k);
    } else if (kind == 'c') {
        char *l = strdup(k);
        for (char *s = l; *s; s++) *s = (char)tolower((unsigned char)*s);
        sprintf(o, "s:%s", hex(l));
        free(l);
    } else {
        sprintf(o, "s:%s", hex(k));
    }
    return o;
}
static long num(void *v) { return (long)(intptr_t)v; }
static void *val(long v) { return (void *)(intptr_t)v; }
static long f(long v) { return v ? (v * 7 + 3) % 1009 : 5; }

/* calls of user functions */
static char *cs;
static size_t ncs, ncap;
static char ckind;
static void note(const char *s)
{
    size_t l = strlen(s);
    if (ncs + l + 2 > ncap) cs = realloc(cs, ncap = (ncs + l + 2) * 2);
    memcpy(cs + ncs, s, l + 1);
    ncs += l;
}
static void call(const char *k, long v, long r)
{
    char b[9000];
    sprintf(b, "%s{\"k\":\"%s\",\"v\":%ld,\"r\":%ld}", ncs ? "," : "", k, v, r);
    note(b);
}
static void *fmap(void *v) { call("", num(v), f(num(v))); return val(f(num(v))); }
static long fk(const char *k, long v) { return (v * 5 + (long)strlen(k) * 11 + k[strlen(k) - 1]) % 997; }
static void *fmapk(void *k, void *v)
{
    const char *c = class(ckind, k);
    call(c, num(v), fk(c, num(v)));
    return val(fk(c, num(v)));
}
static int token;
static void *fmapdk(void *d, void *k, void *v) { if (d != &token) sound = false; return fmapk(k, v); }
static void *ffold(void *a, void *v) { if (a != &token) sound = false; call("", num(v), 0); return NULL; }
static struct { char *k; bool set; } dk[4096];
static long dv[4096];
static int nk, nv;
static group *dg;
static void *cpk(void *k)
{
    void *n = k;
    if (ckind == 'i') { int *x = malloc(sizeof *x); *x = *(int *)k; n = x; }
    else if (ckind != 'p') n = strdup(k);
    dk[nk++].k = strdup(class(ckind, k));
    if (ckind != 'p') own(dg, n);
    return n;
}
static void *cpv(void *v) { dv[nv++] = num(v); return val(f(num(v))); }

static group *group_new(void) { group *g = calloc(1, sizeof *g); g->refs = 1; return g; }
static void where(int i, const char *e, int t)
{
    if (I[i].it)
        emit("\"e\":\"%s\",\"i\":%d,\"t\":%d,\"k\":\"%s\",\"v\":%ld", e, i, t, class(T[t].kind, HTiterKey(I[i].it)), num(HTiterValue(I[i].it)));
    else
        emit("\"e\":\"%s\",\"i\":%d,\"t\":%d,\"k\":\"\",\"v\":0", e, i, t);
}
static void perform(char **w, int n)
{
    const char *o = w[0];
    int t = atoi(w[1]);
    char kind = T[t].kind;
    htable_st *h = T[t].h;
    if (!strcmp(o, "new")) {
        size_t s = (size_t)atol(w[3]);
        T[t].kind = w[2][0];
        T[t].g = group_new();
        switch (w[2][0]) {
        case 's': T[t].h = HTnew_String(s); break;
        case 'i': T[t].h = HTnew_Int(s); break;
        case 'p': T[t].h = HTnew_Ptr(s); break;
        case 'x': T[t].h = HTnew(s, const_hash, str_eq); break;
        case 'b': T[t].h = HTnew(s, big_hash, str_eq); break;
        case 'c': T[t].h = HTnew(s, ci_hash, ci_eq); break;
        }
        emit("\"e\":\"new\",\"t\":%d", t);
    } else if (!strcmp(o, "ins")) {
        void *k = key(kind, w[2]);
        if (kind != 'p') own(T[t].g, k);
        const char *c = class(kind, k);
        bool r = HTinsert(h, k, val(atol(w[3])));
        emit("\"e\":\"ins\",\"t\":%d,\"k\":\"%s\",\"v\":%s,\"r\":%s", t, c, w[3], r ? "true" : "false");
    } else if (!strcmp(o, "get") || !strcmp(o, "rem")) {
        void *k = key(kind, w[2]);
        void *r = o[0] == 'g' ? HTlookup(h, k) : HTremove(h, k);
        emit("\"e\":\"%s\",\"t\":%d,\"k\":\"%s\",\"r\":%ld", o, t, class(kind, k), num(r));
        drop(kind, k);
    } else if (!strcmp(o, "clr")) {
        HTclear(h);
        emit("\"e\":\"clr\",\"t\":%d", t);
    } else if (!strcmp(o, "del")) {
        HTdelete(h);
        T[t].h = NULL;
        group *g = T[t].g;
        if (!--g->refs) {
            for (int i = 0; i < g->n; i++) free(g->keys[i]);
            free(g->keys);
            free(g);
        }
        emit("\"e\":\"del\",\"t\":%d", t);
    } else if (!strcmp(o, "cnt")) {
        emit("\"e\":\"cnt\",\"t\":%d,\"n\":%ld", t, (long)HTelementCount(h));
    } else if (!strcmp(o, "cpy")) {
        int u = atoi(w[2]);
        T[u].kind = kind;
        T[u].g = T[t].g;
        T[u].g->refs++;
        T[u].h = HTcpy(h);
        emit("\"e\":\"cpy\",\"t\":%d,\"u\":%d", t, u);
    } else if (!strcmp(o, "dcpy")) {
        int u = atoi(w[2]);
        T[u].kind = ckind = kind;
        T[u].g = dg = group_new();
        nk = nv = 0;
        T[u].h = HTdeep_copy(h, cpk, cpv);
        ncs = 0;
        note("");
        for (int i = 0; i < nk && i < nv; i++)
            call(dk[i].k, dv[i], f(dv[i]));
        for (int i = 0; i < nk; i++)
            free(dk[i].k);
        if (nk != nv) sound = false;
        emit("\"e\":\"dcpy\",\"t\":%d,\"u\":%d,\"cs\":[%s]", t, u, cs);
    } else if (!strcmp(o, "mapk") || !strcmp(o, "mapdk") || !strcmp(o, "map") || !strcmp(o, "fold")) {
        ckind = kind;
        ncs = 0;
        note("");
        if (!strcmp(o, "mapk")) HTmapWithKey(h, fmapk);
        else if (!strcmp(o, "mapdk")) HTmapWithDataAndKey(h, &token, fmapdk);
        else if (!strcmp(o, "map")) HTmap(h, fmap);
        else HTfold(h, ffold, &token);
        emit("\"e\":\"%s\",\"t\":%d,\"cs\":[%s]", !strcmp(o, "mapdk") ? "mapk" : o, t, cs);
    } else if (!strcmp(o, "it")) {
        int i = atoi(w[2]);
        I[i].it = HTiterate(h);
        I[i].t = t;
        where(i, "it", t);
    } else {   /* iterators; skipped when the iteration is over */
        int i = t;
        t = I[i].t;
        if (!I[i].it) return;
        if (!strcmp(o, "itn")) {
            I[i].it = HTiterateNext(I[i].it);
            where(i, "itn", t);
        } else if (!strcmp(o, "its")) {
            HTiterSetValue(I[i].it, val(atol(w[2])));
            emit("\"e\":\"its\",\"i\":%d,\"v\":%s", i, w[2]);
        } else if (!strcmp(o, "itv")) {
            where(i, "itv", t);
        } else if (!strcmp(o, "itc")) {
            HTiterateCancel(I[i].it);
            I[i].it = NULL;
            emit("\"e\":\"itc\",\"i\":%d", i);
        }
    }
}
static void finished(void) {}
