/* palm's messages: what is printed, what is counted, how the process ends */
#define STATUS_EVENT
#include "forked.h"
#include <fcntl.h>
#include <limits.h>
#include "palm/ctinfo.h"
#include "palm/memory.h"

static long off;
static const char *printed(void)
{
    static char *b;
    static char *h;
    fflush(stderr);
    int fd = open(errname, O_RDONLY);
    long end = lseek(fd, 0, SEEK_END);
    b = realloc(b, (size_t)(end - off) + 1);
    h = realloc(h, 2 * (size_t)(end - off) + 1);
    lseek(fd, off, SEEK_SET);
    long n = read(fd, b, (size_t)(end - off));
    for (long i = 0; i < n; i++)
        sprintf(h + 2 * i, "%02x", (unsigned char)b[i]);
    h[2 * n] = 0;
    off = end;
    close(fd);
    return h;
}
static void perform(char **w, int n)
{
    static const char *names[] = {"state", "note", "warn", "error"};
    static const enum cti_type types[] = {CTI_STATE, CTI_NOTE, CTI_WARN, CTI_ERROR};
    if (!strcmp(w[0], "msg") || !strcmp(w[0], "obj")) {
        int ty = atoi(w[1]), nl = atoi(w[2]), how = atoi(w[3]);
        char *m = unhex(w[4]);
        struct ctinfo o = {0};
        char *file = NULL, *line = NULL;
        if (w[0][0] == 'o') {
            o.first_line = atoi(w[5]);
            o.first_column = atoi(w[6]);
            o.last_line = atoi(w[7]);
            o.last_column = atoi(w[8]);
            o.filename = file = strcmp(w[9], "N") ? unhex(w[9]) : NULL;
            o.line = line = strcmp(w[10], "N") ? unhex(w[10]) : NULL;
            switch (how) {
            case 0: CTIobj(types[ty], nl, o, "%s", m); break;
            case 1: CTIobj(types[ty], nl, o, "%s %d", m, -17); break;
            default: CTIobj(types[ty], nl, o, "a%%%s %c", m, 'z'); break;
            }
        } else {
            switch (how) {
            case 0: CTI(types[ty], nl, "%s", m); break;
            case 1: CTI(types[ty], nl, "%s %d", m, -17); break;
            default: CTI(types[ty], nl, "a%%%s %c", m, 'z'); break;
            }
        }
        emit("\"e\":\"msg\",\"type\":\"%s\",\"how\":%d,\"text\":\"%s\",\"o\":{\"fl\":%d,\"fc\":%d,\"ll\":%d,\"lc\":%d,\"file\":\"%s\",\"line\":\"%s\"},\"out\":\"%s\"",
             names[ty], how, w[4], o.first_line, o.first_column, o.last_line, o.last_column, file ? w[9] : "", line ? w[10] : "", printed());
        free(m);
        free(file);
        free(line);
    } else if (!strcmp(w[0], "cnt")) {
        emit("\"e\":\"cnt\",\"errors\":%d,\"warnings\":%d", CTIgetErrors(), CTIgetWarnings());
    } else {
        emit("\"e\":\"%s\"", w[0]);
        if (!strcmp(w[0], "aoe")) CTIabortOnError();
        else if (!strcmp(w[0], "abort")) CTIabortCompilation();
        else if (!strcmp(w[0], "oom") && n > 1) CTIabortOutOfMemory((unsigned)strtoul(w[1], NULL, 10));
        else if (!strcmp(w[0], "oom")) free(MEMmalloc((size_t)1 << 60));
        else if (!strcmp(w[0], "segv")) CTIinstallInterruptHandlers(), raise(SIGSEGV);
        emit("\"e\":\"cont\"");
    }
}
static void finished(void) {}
