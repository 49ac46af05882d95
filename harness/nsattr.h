/* Harness for attributes of nodesets: the type of every accessor there is, and
 * where the accessors of nodesets lead.  Prints JSON objects, one per line. */
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include <fcntl.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef USER_CASE
#define USER_CASE
#endif
#define TYPE(e) _Generic((e), bool: "bool", float: "float", double: "double", int8_t: "int8", int16_t: "int16", \
    int32_t: "int32", int64_t: "int64", uint8_t: "uint8", uint16_t: "uint16", uint32_t: "uint32", \
    uint64_t: "uint64", char *: "string", node_st *: "node" USER_CASE, default: "?")

node_st *mk(int type);
void fields(void);
void vias(void);

static FILE *out;
static inline void entity(const char *x) { fprintf(out, "[\"entity\", \"%s\"]\n", x); }
static inline void field(const char *a, const char *t) { fprintf(out, "[\"field\", \"%s\", \"%s\"]\n", a, t); }
static inline void none(void) { fprintf(out, "[\"none\"]\n"); }
static inline void via(int type, void (*get)(node_st *, void **, void **)) {
    fflush(out);
    pid_t pid = fork();
    if (pid == 0) {
        void *p = 0, *q = (void *)1;
        alarm(10);
        get(mk(type), &p, &q);
        _exit(p == q ? 77 : 78);
    }
    int st;
    waitpid(pid, &st, 0);
    fprintf(out, "[\"%s\"]\n", WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "same" : WIFEXITED(st) && WEXITSTATUS(st) == 78 ? "other" : "stop");
}
void BreakpointHandler(node_st *n) { (void)n; _exit(73); }
#ifndef PROBE
int main(void) {
    out = fdopen(dup(1), "w");
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    fields();
    vias();
    fclose(out);
    return 0;
}
#endif
