/* One scenario per block of input lines ("S" starts one): each runs in a
   process of its own, and its events become one JSON object per line. */
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static FILE *ev;
static int nev;
static bool sound = true;
static void emit(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static void emit(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    fprintf(ev, nev++ ? ",\n{" : "{");
    vfprintf(ev, fmt, a);
    fprintf(ev, "}");
    fflush(ev);
    va_end(a);
}
static char *unhex(const char *h)   /* "-" is the empty string */
{
    size_t n = strcmp(h, "-") ? strlen(h) / 2 : 0;
    char *s = malloc(n + 1);
    for (size_t i = 0; i < n; i++) {
        unsigned x;
        sscanf(h + 2 * i, "%2x", &x);
        s[i] = (char)x;
    }
    s[n] = 0;
    return s;
}
static const char *hex(const char *s)  /* rotating buffers */
{
    static char b[8][8192];
    static int k;
    char *o = b[k++ % 8];
    size_t n = 0;
    for (; s[n] && n < 4000; n++)
        sprintf(o + 2 * n, "%02x", (unsigned char)s[n]);
    o[2 * n] = 0;
    return o;
}
#ifdef STATUS_EVENT
static char errname[4096];   /* where standard error goes */
#endif
static void perform(char **w, int n);
static void finished(void);
static void scenario(char **lines, int n)
{
    fprintf(ev, "{\"ev\":[");
    nev = 0;
    fflush(ev);
    static int hung;
    if (hung >= 5) {    /* enough is known; do not wait for more of them */
        fprintf(ev, "]}\n@@END\n");
        return;
    }
    pid_t p = fork();
    if (!p) {
        alarm(4);
#ifdef STATUS_EVENT
        freopen(errname, "w", stderr);
        setvbuf(stderr, NULL, _IONBF, 0);
#endif
        for (int i = 0; i < n; i++) {
            char *w[64];
            int k = 0;
            for (char *t = strtok(lines[i], " \n"); t && k < 64; t = strtok(NULL, " \n"))
                w[k++] = t;
            perform(w, k);
        }
        finished();
#ifdef STATUS_EVENT
        exit(0);
#endif
        emit("\"e\":\"exit\",\"ok\":%s", sound ? "true" : "false");
        fflush(ev);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
        hung++;
#ifdef STATUS_EVENT
    /* the child's events end at the end of the file; ours follow */
    fseek(ev, 0, SEEK_END);
    fprintf(ev, ",\n{\"e\":\"end\",\"code\":%d,\"out\":\"", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
    FILE *f = fopen(errname, "r");
    for (int c; f && (c = getc(f)) != EOF;)
        fprintf(ev, "%02x", c);
    if (f) fclose(f);
    fprintf(ev, "\"}");
#else
    if (!WIFEXITED(st) || WEXITSTATUS(st))
        fprintf(ev, "%s", "\n@@DIED");
#endif
    fprintf(ev, "]}\n@@END\n");
    fflush(ev);
}
int main(int argc, char **argv)
{
    char *line = NULL;
    size_t cap = 0;
    char **ls = NULL;
    int n = 0, room = 0;
    FILE *in = fopen(argv[1], "r");
    ev = fopen(argv[2], "a");
#ifdef STATUS_EVENT
    sprintf(errname, "%s.err", argv[2]);
#endif
    while (getline(&line, &cap, in) >= 0) {
        if (n == room)
            ls = realloc(ls, sizeof(char *) * (size_t)(room = room * 2 + 16));
        ls[n++] = strdup(line);
    }
    fclose(in);     /* before any fork: the position would be shared */
    for (int i = 0; i < n;) {
        int j = i + 1;
        while (j < n && ls[j][0] != 'S')
            j++;
        scenario(ls + i + 1, j - i - 1);
        i = j;
    }
    return 0;
}
