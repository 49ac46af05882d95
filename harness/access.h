/* Harness for the use of accessors (P20).  Reads programs from stdin, one per
 * line: operations "N type", "K use parent child" (an access that attaches),
 * "U use node", "V child node", "E node", "C node", ended by ".".  Each runs in
 * a process of its own; writes how many operations it performed, how it ended
 * and what it said. */
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccngen/trav.h"
#include "palm/ctinfo.h"
#include <fcntl.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
static node_st *mk(int type);
static void use(int k, node_st *n);
static void attach(int k, node_st *n, node_st *c);
static void visit(int k, node_st *n);
static void evaluate(node_st *n);
void BreakpointHandler(node_st *n) { (void)n; _exit(73); }
static node_st *nodes[400];
static int count;
static volatile int *done;
static void reg(node_st *n) {
    nodes[++count] = n;
    for (long i = 0; i < (long)NODE_NUMCHILDREN(n); i++) {
        if (NODE_CHILDREN(n)[i]) {
            reg(NODE_CHILDREN(n)[i]);
        }
    }
}
static void program(char *p) {
    char c;
    int a, b, d, u;
    while (sscanf(p, " %c%n", &c, &u) == 1 && c != '.') {
        p += u;
        if (c == 'N' && sscanf(p, "%d%n", &a, &u) == 1) {
            nodes[++count] = mk(a);
        } else if (c == 'K' && sscanf(p, "%d %d %d%n", &a, &b, &d, &u) == 3) {
            attach(a, nodes[b], nodes[d]);
        } else if (c == 'U' && sscanf(p, "%d %d%n", &a, &b, &u) == 2) {
            use(a, nodes[b]);
        } else if (c == 'V' && sscanf(p, "%d %d%n", &a, &b, &u) == 2) {
            visit(a, nodes[b]);
        } else if (c == 'E' && sscanf(p, "%d%n", &a, &u) == 1) {
            evaluate(nodes[a]);
        } else if (c == 'C' && sscanf(p, "%d%n", &a, &u) == 1) {
            reg(CCNcopy(nodes[a]));
        } else {
            _exit(74);
        }
        p += u;
        int n = *done + 1;
        *done = n;
    }
}
#include <sys/mman.h>
int main(void) {
    static char line[1 << 16];
    FILE *out = fdopen(dup(1), "w");
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    done = mmap(0, sizeof *done, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE *said = tmpfile();
    while (fgets(line, sizeof line, stdin)) {
        *done = 0;
        if (ftruncate(fileno(said), 0)) {
            return 75;
        }
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            lseek(fileno(said), 0, SEEK_SET);
            dup2(fileno(said), 2);
            alarm(10);
            program(line);
            _exit(0);
        }
        int st, n;
        char b[2000];
        waitpid(pid, &st, 0);
        lseek(fileno(said), 0, SEEK_SET);
        n = read(fileno(said), b, sizeof b - 1);
        fprintf(out, "%d %d %d ", *done, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFSIGNALED(st) ? 0 : WEXITSTATUS(st));
        for (int i = 0; i < n; i++) {
            fputc(b[i] == '\n' ? '|' : b[i], out);
        }
        fputc('\n', out);
    }
    fclose(out);
    return 0;
}
