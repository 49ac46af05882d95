/* Harness for the evaluation of attributes.  Reads trees from the file named
 * first, evaluates each in a process of its own and writes what happened, one
 * JSON object per line and "@@END" after each tree, to the file named second.
 * Tree: "T count", then per node "N type" with a line "A index token" for each
 * plain attribute, then "K parent slot child" for each child. */
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccngen/ag.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccngen/equation.h"
#include <fcntl.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef USER_CASE
#define USER_CASE
#endif
static FILE *out;
static int count, argn;
static char buf[16][64];
static int bufn;
#define SLOT (buf[bufn = (bufn + 1) % 16])
#define STRI(n, T, f, c) static char *n(T v) { char *b = SLOT; snprintf(b, 64, f, (c)v); return b; }
STRI(s_bool, bool, "b%d", int)
STRI(s_f, float, "f%.2f", double)
STRI(s_d, double, "d%.2f", double)
STRI(s_8, int8_t, "i8:%ld", long)
STRI(s_16, int16_t, "i16:%ld", long)
STRI(s_32, int32_t, "i32:%ld", long)
STRI(s_64, int64_t, "i64:%ld", long)
STRI(s_u8, uint8_t, "u8:%lu", unsigned long)
STRI(s_u16, uint16_t, "u16:%lu", unsigned long)
STRI(s_u32, uint32_t, "u32:%lu", unsigned long)
STRI(s_u64, uint64_t, "u64:%lu", unsigned long)
STRI(s_n, node_st *, "n%lu", unsigned long)
STRI(s_u, void *, "u%lu", unsigned long)
static char *s_s(char *v) { char *b = SLOT; snprintf(b, 64, "s%.40s", v ? v : "-"); return b; }
#define STR(e) _Generic((e), bool: s_bool, float: s_f, double: s_d, int8_t: s_8, int16_t: s_16, int32_t: s_32, \
    int64_t: s_64, uint8_t: s_u8, uint16_t: s_u16, uint32_t: s_u32, uint64_t: s_u64, char *: s_s, node_st *: s_n USER_CASE)(e)
/* values, different for different tokens, that need their whole type */
#define MK_bool(n) ((bool)((n) & 1))
#define MK_float(n) ((float)((n) + .25))
#define MK_double(n) (1e9 + (n) + .25)
#define MK_int8(n) ((int8_t)(-(n) % 100))
#define MK_int16(n) ((int16_t)(-300 - (n)))
#define MK_int32(n) (-100000 - (n))
#define MK_int(n) (-100000 - (n))
#define MK_int64(n) (-10000000000L - (n))
#define MK_uint8(n) ((uint8_t)(130 + (n) % 120))
#define MK_uint16(n) ((uint16_t)(40000 + (n)))
#define MK_uint32(n) (3000000000U + (n))
#define MK_uint64(n) (10000000000000000000UL + (n))
#define MK_node(n) ((node_st *)(0x7f0000000000UL + 16 * (n)))
#define MK_user(n) ((UserT)(0x7e0000000000UL + 16 * (n)))
static char *mk_string(int n) { char *b = malloc(16); snprintf(b, 16, "%d", n); return b; }
#define MK_string(n) mk_string(n)

static void call(const char *x, const char *who, const char *a, const char *nulls) {
    fprintf(out, "{\"k\": \"call\", \"x\": \"%s\", \"who\": \"%s\", \"a\": \"%s\", \"nulls\": [%s], \"args\": [", x, who, a, nulls);
    argn = 0;
    if (++count > 5000) {
        _exit(79);
    }
}
static void arg(const char *s) { fprintf(out, "%s\"%s\"", argn++ ? ", " : "", s); }
static void ret(const char *s) { fprintf(out, "], \"ret\": \"%s\"}\n", s); fflush(out); }
static void plain(int v, const char *a, const char *s) {
    fprintf(out, "{\"k\": \"plain\", \"v\": %d, \"a\": \"%s\", \"val\": \"%s\"}\n", v, a, s);
}
static void fin(int v, const char *a, const char *by, const char *s) {
    fprintf(out, "{\"k\": \"fin\", \"v\": %d, \"a\": \"%s\", \"by\": \"%s\", \"val\": \"%s\"}\n", v, a, by, s);
    fflush(out);
}
static node_st *mk(int type);
static void put(int type, int v, node_st *n, int a, int token);
static void kid(int type, int slot, node_st *n, node_st *c);
static void all_plain(int type, int v, node_st *n);
static void all_fin(int type, int v, node_st *n);
void BreakpointHandler(node_st *n) { (void)n; _exit(73); }

static node_st *nodes[200];
static int types[200];
static void tree(char **p) {
    int n, k, a, b, c, i = 0, used;
    sscanf(*p, "T %d\n%n", &n, &used);
    *p += used;
    for (;;) {
        char *q = *p;
        if (sscanf(q, "N %d\n%n", &a, &used) == 1) {
            types[++i] = a;
            nodes[i] = mk(a);
        } else if (sscanf(q, "A %d %d\n%n", &a, &b, &used) == 2) {
            put(types[i], i, nodes[i], a, b);
        } else if (sscanf(q, "K %d %d %d\n%n", &a, &b, &c, &used) == 3) {
            kid(types[a], b, nodes[a], nodes[c]);
        } else {
            break;
        }
        *p += used;
    }
    for (k = 1; k <= n; k++) {
        all_plain(types[k], k, nodes[k]);
    }
    fflush(out);
    CCNevaluateAttributes(nodes[1]);
    for (k = 1; k <= n; k++) {
        all_fin(types[k], k, nodes[k]);
    }
    fprintf(out, "{\"k\": \"end\"}\n");
    fflush(out);
}
int main(int argc, char **argv) {
    static char in[1 << 22];
    FILE *f = fopen(argv[1], "r");
    in[fread(in, 1, sizeof in - 1, f)] = 0;
    fclose(f);
    out = fopen(argv[2], "w");
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    for (char *p = strchr(in, 'T'); p; p = strstr(p + 1, "\nT ") ? strstr(p + 1, "\nT ") + 1 : 0) {
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(20);
            char *q = p;
            tree(&q);
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        fseek(out, 0, SEEK_END);
        if (st != 0) {
            fprintf(out, "\n{\"k\": \"died\", \"how\": \"%s %d\"}\n", WIFSIGNALED(st) ? "signal" : "exit",
                    WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        }
        fprintf(out, "@@END\n");
    }
    fclose(out);
    return 0;
}
