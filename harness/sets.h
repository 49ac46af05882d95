/* Harness for node sets: which types the check admits in a child of a nodeset,
 * and which types a traversal handles.  Prints one line of 0/1 per nodeset and
 * per traversal, one digit per node type. */
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "ccngen/ast.h"
#include "ccngen/trav.h"
#include <fcntl.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

extern int nsets, ntravs, ntypes;
extern enum ccn_traversal_type travs[];
node_st *mk(int type);
node_st *probe(int set, int type);  /* a root with a node of this type in a child of this nodeset */
node_st *every(void);               /* a root with every other type below it */

static char seen[4096];
static node_st *user(int trav, int type, node_st *n) {
    (void)trav;
    seen[type] = '1';
    TRAVchildren(n);
    return n;
}
void BreakpointHandler(node_st *n) { (void)n; _exit(73); }

int main(void) {
    int outfd = dup(1), nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    FILE *out = fdopen(outfd, "w");
    for (int s = 0; s < nsets; s++) {
        for (int t = 0; t < ntypes; t++) {
            fflush(out);
            pid_t pid = fork();
            if (pid == 0) {
                alarm(10);
                CCNsetTreeCheck(true);
                CCNrun(probe(s, t));
                exit(0);
            }
            int st;
            waitpid(pid, &st, 0);
            fputc(!WIFEXITED(st) || WEXITSTATUS(st) >= 64 ? 'x' : WEXITSTATUS(st) ? '0' : '1', out);
        }
        fputc('\n', out);
    }
    for (int k = 0; k < ntravs; k++) {
        fflush(out);
        int p[2];
        if (pipe(p)) return 70;
        pid_t pid = fork();
        if (pid == 0) {
            alarm(10);
            memset(seen, '0', sizeof seen);
            TRAVstart(every(), travs[k]);
            if (write(p[1], seen, ntypes) != ntypes) _exit(70);
            _exit(0);
        }
        int st;
        char got[4097];
        close(p[1]);
        waitpid(pid, &st, 0);
        ssize_t n = read(p[0], got, ntypes);
        close(p[0]);
        got[n < 0 ? 0 : n] = 0;
        fprintf(out, "%s\n", st == 0 ? got : "x");
    }
    fclose(out);
    return 0;
}
