/* palm's string helpers: every call with its arguments and result */
#include "forked.h"
#include "palm/str.h"

static void arr(const char *s)
{
    if (!s) {
        fprintf(ev, "[-1]");
        return;
    }
    fputc('[', ev);
    for (size_t i = 0; s[i]; i++)
        fprintf(ev, "%s%d", i ? "," : "", (unsigned char)s[i]);
    fputc(']', ev);
}
static char *arg(const char *w) { return !strcmp(w, "N") ? NULL : unhex(w); }
static char *dup0(const char *s) { return s ? strdup(s) : NULL; }
static bool same(const char *a, const char *b) { return a && b ? !strcmp(a, b) : a == b; }

/* w[0] function, w[1] number of strings, the strings, the numbers */
static void perform(char **w, int n)
{
    const char *f = w[0];
    int ns = atoi(w[1]), k = 0;
    char *s[16] = {0}, *was[16] = {0};
    int nums[4] = {0}, nn = 0;
    char *kinds = NULL;
    for (int i = 0; i < ns; i++) {
        s[i] = arg(w[2 + i]);
        was[i] = dup0(s[i]);
    }
    for (int i = 2 + ns; i < n; i++)
        if (!strcmp(f, "fmt"))
            kinds = w[i];
        else
            nums[nn++] = (int)strtol(w[i], NULL, 10);
    char *r = NULL;
    bool fresh = true, string = true, inplace = false, kept = true;
    long v = 0;
#define IS(x) !strcmp(f, x)
    if (IS("cpy")) r = STRcpy(s[0]);
    else if (IS("ncpy")) r = STRncpy(s[0], nums[0]);
    else if (IS("eq")) string = false, v = STReq(s[0], s[1]);
    else if (IS("eqci")) string = false, v = STReqci(s[0], s[1]);
    else if (IS("eqn")) string = false, v = STReqn(s[0], s[1], nums[0]);
    else if (IS("len")) string = false, v = (long)STRlen(s[0]);
    else if (IS("cat")) r = STRcat(s[0], s[1]);
    else if (IS("catn")) switch (ns) {
        case 3: r = STRcatn(3, s[0], s[1], s[2]); break;
        case 4: r = STRcatn(4, s[0], s[1], s[2], s[3]); break;
        case 5: r = STRcatn(5, s[0], s[1], s[2], s[3], s[4]); break;
        default: r = STRcatn(8, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]); break;
    }
    else if (IS("fmt")) {
        /* arguments: strings as they are, numbers and characters as text */
        char *a = s[1], *b = s[2], *c = s[3];
        #define D(x) atoi(x)
        if (!kinds) r = STRfmt(s[0]);
        else if (!strcmp(kinds, "s")) r = STRfmt(s[0], a);
        else if (!strcmp(kinds, "d")) r = STRfmt(s[0], D(a));
        else if (!strcmp(kinds, "c")) r = STRfmt(s[0], a[0]);
        else if (!strcmp(kinds, "ss")) r = STRfmt(s[0], a, b);
        else if (!strcmp(kinds, "sd")) r = STRfmt(s[0], a, D(b));
        else if (!strcmp(kinds, "ds")) r = STRfmt(s[0], D(a), b);
        else if (!strcmp(kinds, "dc")) r = STRfmt(s[0], D(a), b[0]);
        else if (!strcmp(kinds, "dd")) r = STRfmt(s[0], D(a), D(b));
        else if (!strcmp(kinds, "sss")) r = STRfmt(s[0], a, b, c);
        else if (!strcmp(kinds, "sds")) r = STRfmt(s[0], a, D(b), c);
        else if (!strcmp(kinds, "dsd")) r = STRfmt(s[0], D(a), b, D(c));
        else _exit(75);
    }
    else if (IS("onnull")) r = STRonNull(s[0], s[1]), fresh = false;
    else if (IS("itoa")) r = STRitoa(nums[0]);
    else if (IS("lower")) r = STRlower(s[0]);
    else if (IS("upper")) r = STRupper(s[0]);
    else if (IS("tolower")) STRtoLower(s[0]), r = s[0], inplace = true, fresh = false;
    else if (IS("toupper")) STRtoUpper(s[0]), r = s[0], inplace = true, fresh = false;
    else if (IS("prefix")) string = false, v = STRprefix(s[0], s[1]);
    else if (IS("suffix")) string = false, v = STRsuffix(s[0], s[1]);
    else if (IS("sub")) string = false, v = STRsub(s[0], s[1]);
    else if (IS("substr")) r = STRsubStr(s[0], nums[0], nums[1]);
    else if (IS("subst")) r = STRsubstToken(s[0], s[1], s[2]);
    else if (IS("null")) r = STRnull();
    else if (IS("tok")) r = STRtok(s[0], s[1]);
    else _exit(75);
    for (int i = 0; i < ns; i++) {
        if (!inplace && !same(s[i], was[i])) kept = false;
        if (fresh && string && r && r == s[i]) kept = false;
    }
    fprintf(ev, nev++ ? ",\n{" : "{");
    fprintf(ev, "\"e\":\"%s\",\"f\":\"%s\",\"s\":[", IS("tok") ? "tok" : "call", f);
    for (int i = 0; i < ns; i++) {
        if (i) fputc(',', ev);
        if (IS("fmt") && i > 0 && kinds[i - 1] == 'd') fprintf(ev, "[%d]", atoi(was[i]));
        else arr(was[i]);
    }
    fprintf(ev, "],\"n\":[");
    for (int i = 0; i < nn; i++) fprintf(ev, "%s%d", i ? "," : "", nums[i]);
    fprintf(ev, "],\"r\":");
    if (string) arr(r); else fprintf(ev, "[%ld]", v);
    if (fresh && string && r) {   /* the result belongs to the caller */
        memset(r, 'x', strlen(r));
        for (int i = 0; i < ns; i++)
            if (!same(s[i], was[i])) kept = false;
        free(r);
    }
    fprintf(ev, ",\"kept\":%s}", kept ? "true" : "false");
    fflush(ev);
    for (int i = 0; i < ns; i++) {
        free(s[i]);
        free(was[i]);
    }
}
static void finished(void) {}
