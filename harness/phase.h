/* Harness around a generated compiler: user functions that behave randomly
 * (from a seed) and log what they see.  One forked child per scenario. */
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include "palm/ctinfo.h"
#include <ctype.h>
#include <fcntl.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static uint64_t rs;
static int events, fresh = 1, outfd = 1;
static int p_notify, p_perr, p_aerr, p_gate, p_setmax, p_new, p_null, decay;
static bool in_run;

static int rnd(int n) { /* 0 .. n-1 */
    rs = rs * 6364136223846793005ULL + 1442695040888963407ULL;
    return (int)((rs >> 33) % (uint64_t)n);
}
static bool chance(int pct) { return rnd(100) < pct; }
static void emit(const char *fmt, ...) {
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    b[n++] = '\n';
    if (write(outfd, b, n) != n) _exit(70);
}
static void cut(void) {
    if (++events > 600) {
        emit("{\"e\":\"cut\"}");
        _exit(0);
    }
}
static node_st *mktree(int id);
static int treeid(node_st *n);

static node_st *leaf(const char *name, node_st *n) {
    int in = n ? treeid(n) : -1;
    bool nt = chance(p_notify), pe = chance(p_perr), ae = chance(p_aerr);
    if (decay && p_notify > 0) p_notify -= decay;
    int mx = chance(p_setmax) ? rnd(4) : -1;
    unsigned long id = CCNgetCurrentActionId();
    cut();
    if (nt) CCNcycleNotify();
    if (pe) CCNerrorPhase();
    if (ae) CCNerrorAction();
    if (mx >= 0) CCNsetCycles(mx);
    if (chance(p_new)) n = mktree(fresh++);
    if (p_null && chance(p_null)) n = NULL;
    emit("{\"e\":\"run\",\"a\":\"%s\",\"id\":%lu,\"in\":%d,\"out\":%d,\"nt\":%s,\"pe\":%s,\"ae\":%s,\"mx\":%d}", name, id,
         in, n ? treeid(n) : -1, nt ? "true" : "false", pe ? "true" : "false", ae ? "true" : "false", mx);
    return n;
}
static bool gate(const char *name) {
    bool v = chance(p_gate);
    cut();
    emit("{\"e\":\"gate\",\"a\":\"%s\",\"id\":%lu,\"v\":%s}", name, (unsigned long)CCNgetCurrentActionId(),
         v ? "true" : "false");
    return v;
}
void BreakpointHandler(node_st *n) { emit("{\"e\":\"bp\",\"in\":%d}", n ? treeid(n) : -1); }

int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "show")) {
        CCNshowTree();
        return 0;
    }
    char line[1024];
    outfd = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    while (fgets(line, sizeof line, stdin)) {
        unsigned long seed;
        int runs, max, bpid, verb, check;
        char path[600];
        if (sscanf(line, "%lu %d %d %d %599s %d %d %d %d %d %d %d %d %d %d", &seed, &runs, &max, &bpid, path, &p_notify,
                   &p_perr, &p_aerr, &p_gate, &p_setmax, &p_new, &p_null, &decay, &verb, &check) != 15)
            return 71;
        emit("#");
        pid_t pid = fork();
        if (pid == 0) {
            alarm(20);
            rs = seed * 2654435761UL + 12345;
            rnd(2);
            if (max >= 0) CCNsetCycles(max);
            if (bpid > 0) CCNsetBreakpointWithID(bpid);
            if (strcmp(path, "-")) CCNsetBreakpoint(path);
            CCNsetVerbosity(verb);
            CCNsetTreeCheck(check);
            for (int i = 0; i < runs; i++) {
                int id = p_null && chance(p_null) ? -1 : fresh++;
                emit("{\"e\":\"start\",\"in\":%d}", id);
                CCNrun(id < 0 ? NULL : mktree(id));
                emit("{\"e\":\"ret\"}");
            }
            exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) < 64) emit("{\"e\":\"exit\",\"ok\":%s}", WEXITSTATUS(st) ? "false" : "true");
        else emit("{\"e\":\"crash\",\"st\":%d}", st);
    }
    return 0;
}
