/* Programs of exceptions: each one is run with the real macros of try_catch.h, nested as the program says. */
#include "hcommon.h"
#include <setjmp.h>
#include <try_catch.h>
#undef malloc
#undef realloc
#undef free

typedef struct { char k[12]; int n; int kind; char* t; } Ins;
static Ins      g_p[4096];
static int      g_n;
static int      g_first;
static sigjmp_buf g_stop;

static int opens(int i)  { return !strcmp(g_p[i].k, "try") || !strcmp(g_p[i].k, "call"); }
static int closes(int i) { return !strcmp(g_p[i].k, "end") || !strcmp(g_p[i].k, "endcall"); }
static int find(int i, const char* what)
{
    int depth = 0;
    for ( ; i < g_n ; i++)
    {
        if (depth == 0 && !strcmp(g_p[i].k, what)) return i;
        if (opens(i)) depth++;
        if (closes(i)) depth--;
    }
    abort();
}
static void see(const char* at)
{
    fputs(g_first ? "" : ",", g_out);
    g_first = 0;
    fprintf(g_out, "{\"at\":\"%s\"", at);
    jInt("code", getExceptionCode());
    jStr("msg", getExceptionMessage());
    fputc('}', g_out);
}
static void onStop(int s) { (void)s; siglongjmp(g_stop, 1); }

static void function(int i, int j);
static __attribute__((noinline)) void throwIt(const Ins* x) { __throws __throw(x->n); }
static __attribute__((noinline)) void throwText(const Ins* x)
{
    switch (x->kind)
    {
    case 0: __throw_msg(x->n, "%s", x->t);
    case 1: __throw_msg(x->n, "%d|%08X|%c%s", x->n, (unsigned)x->n * 2654435761u, 'z', x->t);
    default: __throw_msg(x->n, "only text");
    }
}
/* Instructions i..j-1; 1 when the function they are in is to be left. */
static int run(volatile int i, volatile int j)
{
    for ( ; i < j ; i++)
    {
        const Ins* volatile x = &g_p[i];
        if (!strcmp(x->k, "try"))
        {
            volatile int c = find(i + 1, "catch"), e = find(i + 1, "end"), left = 0;
            __try
                run(i + 1, c);
            __catch
            {
                see("catch");
                left = run(c + 1, e);
            }
            if (left) return 1;
            see("end");
            i = e;
        }
        else if (!strcmp(x->k, "call"))
        {
            volatile int e = find(i + 1, "endcall");
            function(i + 1, e);
            see("endcall");
            i = e;
        }
        else if (!strcmp(x->k, "throw")) throwIt(x);
        else if (!strcmp(x->k, "msg")) throwText(x);
        else if (!strcmp(x->k, "rethrow")) __rethrow;
        else if (!strcmp(x->k, "clear")) clearExceptionCode();
        else if (!strcmp(x->k, "set")) setExceptionCode(x->n);
        else if (!strcmp(x->k, "ret")) __nothrow_and_return(1);
        else abort();
    }
    return 0;
}
static __attribute__((noinline)) void function(int i, int j)
{
    if (run(i, j)) __nothrow;
}

static char* copy(const char* hex)
{
    char* t = real_malloc(strlen(hex) / 2 + 2);
    t[h_unhex(hex, (unsigned char*)t, strlen(hex))] = 0;
    return t;
}
int main(int argc, char** argv)
{
    static char line[1 << 20];
    struct sigaction a;
    memset(&a, 0, sizeof(a));
    a.sa_handler = onStop;
    a.sa_flags = SA_NODEFER;
    sigaction(SIGTRAP, &a, NULL);
    g_out = fopen(argv[1], "a");
    while (fgets(line, sizeof(line), stdin))
    {
        char* s;
        int   i;
        h_watchdog();
        if (line[0] == 'H') { fprintf(g_out, "{\"ev\":\"H\",\"h\":%s}\n", strtok(line + 2, "\n")); fflush(g_out); continue; }
        for (g_n = 0, s = strtok(line, " \n") ; s ; s = strtok(NULL, " \n"))
        {
            Ins* x = &g_p[g_n++];
            char hex[8192] = "-";
            x->n = x->kind = 0;
            sscanf(s, "%11[^:]:%d:%d:%8191s", x->k, &x->n, &x->kind, hex);
            x->t = copy(hex);
        }
        jOpen("prog");
        fputs(",\"p\":[", g_out);
        for (i = 0 ; i < g_n ; i++)
        {
            static char t[1 << 14];
            Ins* x = &g_p[i];
            t[0] = 0;
            if (!strcmp(x->k, "msg"))
            {
                if (x->kind == 0) snprintf(t, sizeof(t), "%s", x->t);
                else if (x->kind == 1) snprintf(t, sizeof(t), "%d|%08X|%c%s", x->n, (unsigned)x->n * 2654435761u, 'z', x->t);
                else strcpy(t, "only text");
            }
            fprintf(g_out, "%s{\"k\":\"%s\"", i ? "," : "", x->k);
            jInt("n", x->n);
            jStr("t", t);
            fputc('}', g_out);
        }
        fputs("],\"out\":[", g_out);
        fflush(g_out);
        g_first = 1;
        __try { } __catch { }                   /* nothing pending, no message */
        clearExceptionCode();
        if (sigsetjmp(g_stop, 1)) see("uncaught");
        else { run(0, g_n); see("done"); }
        fputc(']', g_out);
        jClose();
        for (i = 0 ; i < g_n ; i++) real_free(g_p[i].t);
        fflush(g_out);
    }
    fclose(g_out);
    return 0;
}
