/* The stand-ins of libmocks and GetFileSize, driven through their public headers over the real heap, a real file and the real
   standard streams. */
#include "hcommon.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
static int real_fflush(FILE* f) { return fflush(f); }
static size_t real_fwrite(const void* p, size_t s, size_t n, FILE* f) { return fwrite(p, s, n, f); }
static int plainPrintf(FILE* f, const char* format, ...) { va_list a; int r; va_start(a, format); r = vfprintf(f, format, a); va_end(a); return r; }
#include <common.h>
#include <MallocFailureInject.h>
#include <FileFailureInject.h>
#include <printfSpy.h>

#define MAXB (1 << 18)
static char*  g_block[5];
static int    g_blockSize[5];
static FILE*  g_f;
static char   g_given[64];
#define MAXLINES 1024
static char*  g_lines[MAXLINES];
static unsigned char g_buf[MAXB], g_buf2[MAXB];
#define OUT plainPrintf(g_out,

static int pattern(int b, int i) { return (b * 31 + i * 7 + 5) & 0xFF; }
static void fillBlock(int b) { int i; for (i = 0 ; i < g_blockSize[b] ; i++) g_block[b][i] = (char)pattern(b, i); }
static int keptTo(int b, int n) { int i; for (i = 0 ; i < n ; i++) if ((unsigned char)g_block[b][i] != pattern(b, i)) return 0; return 1; }
static int allKept(void) { int b; for (b = 1 ; b < 5 ; b++) if (g_block[b] && !keptTo(b, g_blockSize[b])) return 0; return 1; }
static void head(const char* ev, const char* k, long a, long b) { OUT "{\"ev\":\"%s\",\"k\":\"%s\",\"a\":%ld,\"b\":%ld", ev, k, a, b); }
static void bytes(const char* k, const void* p, long n)
{
    long i;
    OUT ",\"%s\":[", k);
    for (i = 0 ; i < n ; i++) OUT "%s%u", i ? "," : "", ((const unsigned char*)p)[i]);
    OUT "]");
}
static void num(const char* k, long v) { OUT ",\"%s\":%ld", k, v); }
static void end(void) { OUT "}\n"); real_fflush(g_out); }

/* ---- heap */
static void heapOp(const char* k, int a, int b)
{
    int   v = 0, kept = 1;
    char* q;
    if (!strcmp(k, "fail")) MallocFailureInject_FailAllocation((unsigned)a);
    else if (!strcmp(k, "restore")) MallocFailureInject_Restore();
    else if (!strcmp(k, "free")) { free(g_block[b]); g_block[b] = NULL; }
    else if (!strcmp(k, "many"))          /* a allocations, all given back: how many succeeded */
    {
        int i;
        for (i = 0 ; i < a ; i++)
        {
            q = i & 1 ? realloc(NULL, 8) : malloc(8);
            v += q != NULL;
            free(q);
        }
    }
    else if (!strcmp(k, "malloc"))
    {
        q = malloc((size_t)a);
        v = q != NULL;
        if (q) { g_block[b] = q; g_blockSize[b] = a; fillBlock(b); }
    }
    else
    {
        int before = g_block[b] ? g_blockSize[b] : 0;
        q = realloc(g_block[b], (size_t)a);
        v = q != NULL;
        if (q)
        {
            g_block[b] = q;
            kept = keptTo(b, before < a ? before : a);
            g_blockSize[b] = a;
            fillBlock(b);
        }
    }
    head("heap", k, a, b);
    num("v", v);
    num("kept", kept && allKept());
    end();
}
/* ---- file */
static void fileState(void)
{
    long n;
    FILE* f;
    num("pos", real_ftell(g_f));
    real_fflush(g_f);
    f = real_fopen("the_file", "rb");
    n = (long)real_fread(g_buf2, 1, MAXB, f);
    real_fclose(f);
    bytes("data", g_buf2, n);
}
static int whence(const char* m) { return !strcmp(m, "set") ? SEEK_SET : !strcmp(m, "cur") ? SEEK_CUR : SEEK_END; }
static void reopen(void)
{
    if (g_f) real_fclose(g_f);
    g_f = real_fopen("the_file", "w+b");
    fopenRestore(); fcloseRestore(); fseekRestore(); ftellRestore(); fwriteRestore(); freadRestore(); fgetsRestore();
}
static void fileOp(const char* k, long a, long b, const char* m, const unsigned char* d, long dn)
{
    long v = 0, r = 0, over = 0, i;
    const char* bool1 = NULL;
    real_fseek(g_f, 0, SEEK_CUR);
    memset(g_buf, 0xEE, MAXB);
    if (!strcmp(k, "ifopen")) fopenSetReturn(!strcmp(m, "given") ? (FILE*)g_given : NULL);
    else if (!strcmp(k, "rfopen")) fopenRestore();
    else if (!strcmp(k, "ifclose")) fcloseIgnore();
    else if (!strcmp(k, "rfclose")) fcloseRestore();
    else if (!strcmp(k, "ifseek")) fseekSetReturn((int)a);
    else if (!strcmp(k, "pfseek")) fseekSetCallsBeforeFailure((int)a);
    else if (!strcmp(k, "rfseek")) fseekRestore();
    else if (!strcmp(k, "iftell")) ftellFail(a);
    else if (!strcmp(k, "rftell")) ftellRestore();
    else if (!strcmp(k, "ifwrite")) fwriteFail((size_t)a);
    else if (!strcmp(k, "rfwrite")) fwriteRestore();
    else if (!strcmp(k, "ifread")) freadFail((size_t)a);
    else if (!strcmp(k, "nfread")) freadToFail((int)a);
    else if (!strcmp(k, "rfread")) freadRestore();
    else if (!strcmp(k, "rfgets")) fgetsRestore();
    else if (!strcmp(k, "mfseek"))        /* a seeks: how many really moved */
    {
        for (i = 0 ; i < a ; i++)
        {
            real_fseek(g_f, 1, SEEK_SET);
            (void)fseek(g_f, 0, SEEK_SET);
            v += real_ftell(g_f) == 0;
        }
        real_fseek(g_f, 0, SEEK_SET);
    }
    else if (!strcmp(k, "mfread"))        /* a reads of the first byte: how many really read */
    {
        for (i = 0 ; i < a ; i++)
        {
            real_fseek(g_f, 0, SEEK_SET);
            g_buf[0] = 0xEE;
            (void)!fread(g_buf, 1, 1, g_f);
            v += g_buf[0] != 0xEE;
        }
        real_fseek(g_f, 0, SEEK_SET);
    }
    else if (!strcmp(k, "fopen"))
    {
        FILE* f = fopen(!strcmp(m, "exists") ? "the_file" : "no_such_file", "rb");
        v = f == NULL ? 0 : f == (FILE*)g_given ? 2 : 1;
        if (v == 1) real_fclose(f);
    }
    else if (!strcmp(k, "fclose"))
    {
        FILE* f = real_fopen("the_file", "rb");
        int   fd = fileno(f);
        v = fclose(f);
        bool1 = fcntl(fd, F_GETFD) == -1 && errno == EBADF ? "[1]" : "[0]";
        if (bool1[1] == '0') real_fclose(f);
    }
    else if (!strcmp(k, "fseek")) v = fseek(g_f, a, whence(m));
    else if (!strcmp(k, "eofseek"))       /* found at its end by reading, then the seek: is it still? */
    {
        real_fseek(g_f, 0, SEEK_END);
        (void)fgetc(g_f);
        v = fseek(g_f, a, whence(m));
        bool1 = feof(g_f) ? "[1]" : "[0]";
    }
    else if (!strcmp(k, "ftell")) v = ftell(g_f);
    else if (!strcmp(k, "fwrite")) v = (long)fwrite(d, (size_t)a, (size_t)(dn / a), g_f);
    else if (!strcmp(k, "fread"))
    {
        v = (long)fread(g_buf, (size_t)a, (size_t)b, g_f);
        for (i = a * b ; i < a * b + 64 ; i++) over |= g_buf[i] != 0xEE;
    }
    else if (!strcmp(k, "fgets"))
    {
        char* s = fgets((char*)g_buf, (int)a, g_f);
        v = s != NULL;
        if (s && s != (char*)g_buf) v = 7;
        r = s ? (long)strnlen((char*)g_buf, (size_t)a) : 0;
        if (r == a) over = 2;
        for (i = a ; i < a + 64 ; i++) over |= g_buf[i] != 0xEE;
    }
    head("file", k, a, b);
    OUT ",\"m\":\"%s\"", m);
    bytes("d", d, dn);
    OUT ",\"l\":[]");
    num("v", v);
    if (bool1) OUT ",\"r\":%s", bool1);
    else if (!strcmp(k, "fread"))
    {   /* an injected result delivers nothing */
        long n = 0;
        for (i = 0 ; i < a * b ; i++) if (g_buf[i] != 0xEE) n = i + 1;
        bytes("r", g_buf, n == 0 ? 0 : a * v);
    }
    else bytes("r", g_buf, r);
    num("over", over);
    fileState();
    end();
}
static void linesOp(char* hex)
{
    int n = 0, i;
    char* s;
    for (i = 0 ; i < MAXLINES ; i++) { real_free(g_lines[i]); g_lines[i] = NULL; }
    for (s = strtok(hex, ",") ; s && n < MAXLINES ; s = strtok(NULL, ","))
    {
        size_t m;
        if (*s == '_') continue;
        g_lines[n] = real_malloc(strlen(s) + 2);
        m = h_unhex(s, (unsigned char*)g_lines[n], strlen(s));
        g_lines[n++][m] = 0;
    }
    fgetsSetData((const char**)g_lines, (size_t)n);
    head("file", "ifgets", 0, 0);
    OUT ",\"m\":\"\",\"d\":[],\"l\":[");
    for (i = 0 ; i < n ; i++)
    {
        size_t j;
        OUT "%s[", i ? "," : "");
        for (j = 0 ; g_lines[i][j] ; j++) OUT "%s%u", j ? "," : "", (unsigned char)g_lines[i][j]);
        OUT "]");
    }
    OUT "],\"v\":0,\"r\":[],\"over\":0");
    fileState();
    end();
}
static void sizeOp(void)
{
    volatile long v = 0, c = 0;
    real_fseek(g_f, 0, SEEK_CUR);
    __try v = GetFileSize(g_f);
    __catch { c = getExceptionCode(); clearExceptionCode(); }
    head("file", "size", 0, 0);
    OUT ",\"m\":\"\",\"d\":[],\"l\":[]");
    num("c", c);
    num("v", c ? 0 : v);
    fileState();
    end();
}
/* A file of a given length of its own: "real LEN START MODE": start 0.., -1 at the end, -2 after having read to the end. */
static void realOp(const char* len, long long start, const char* mode)
{
    volatile long v = 0, c = 0;
    long long n = strtoll(len, NULL, 10), i;
    int   seekable = 1, same = 1, p[2] = { -1, -1 };
    FILE* f;
    struct stat st;
    if (!strcmp(mode, "pipe")) { if (pipe(p)) abort(); f = fdopen(p[0], "r"); seekable = 0; }
    else
    {
        f = real_fopen("real_file", "wb");
        for (i = 0 ; i < n && i < 5000 ; i++) fputc((int)(i * 13 + 1) & 0xFF, f);
        real_fflush(f);
        if (ftruncate(fileno(f), n)) abort();
        real_fclose(f);
        f = real_fopen("real_file", mode);
    }
    if (start == -1) fseeko(f, 0, SEEK_END);
    else if (start == -2) { while (n < MAXB && fgetc(f) != EOF) { } }
    else if (seekable && *mode != 'a') fseeko(f, start, SEEK_SET);
    __try v = GetFileSize(f);
    __catch { c = getExceptionCode(); clearExceptionCode(); }
    OUT "{\"ev\":\"real\",\"seekable\":%d,\"len\":\"%lld\",\"c\":%ld,\"size\":\"%ld\"", seekable, n, c, c ? 0 : v);
    OUT ",\"at\":\"%lld\"", seekable ? (long long)ftello(f) : 0);
    if (seekable && mode[0] == 'r')
    {   /* the next bytes read are the first ones of the file */
        for (i = 0 ; i < n && i < 5000 ; i++) if (fgetc(f) != ((int)(i * 13 + 1) & 0xFF)) { same = 0; break; }
        if (n < 5000 && same && fgetc(f) != EOF) same = 0;
    }
    if (seekable && (stat("real_file", &st) || st.st_size != n)) same = 0;
    num("same", same);
    end();
    real_fclose(f);
    if (p[1] >= 0) close(p[1]);
    unlink("real_file");
}
/* ---- spy */
static int g_real[3];
static void divert(int fd)
{
    int t = open(fd == 1 ? "out1" : "out2", O_RDWR | O_CREAT | O_TRUNC, 0600);
    real_fflush(fd == 1 ? stdout : stderr);
    g_real[fd] = fcntl(fd, F_DUPFD, 30);
    dup2(t, fd);
    close(t);
}
static long diverted(int fd, unsigned char* p, long at)
{
    long n;
    int  t;
    real_fflush(fd == 1 ? stdout : stderr);
    dup2(g_real[fd], fd);
    close(g_real[fd]);
    t = open(fd == 1 ? "out1" : "out2", O_RDONLY);
    n = read(t, p + at, (size_t)(MAXB - at));
    close(t);
    return at + n;
}
static void spyOp(const char* k, long a, long form, const char* text)
{
    long v = 0, n = 0, wn = 0, other = 0;
    const char* s = NULL;
    if (!strcmp(k, "hook")) printfSpy_Hook((size_t)a);
    else if (!strcmp(k, "unhook")) printfSpy_Unhook();
    else if (!strcmp(k, "count")) v = (long)printfSpy_GetCallCount();
    else if (!strcmp(k, "many")) { long i; for (i = 0 ; i < a ; i++) v += printf("plain\n") == 6; }
    else if (!strcmp(k, "out") || !strcmp(k, "err"))
    {
        int err = k[0] == 'e';
        divert(1); divert(2);
        switch (form)
        {
        case 0: v = err ? fprintf(stderr, "%s", text) : printf("%s", text); break;
        case 1: v = err ? fprintf(stderr, "%d:%s:%05.1f", -5, text, 2.5) : printf("%d:%s:%05.1f", -5, text, 2.5); break;
        case 2: v = err ? fprintf(stderr, "%s%08lX%c%%", text, 0xABCDEFUL, 'q') : fprintf(stdout, "%s%08lX%c%%", text, 0xABCDEFUL, 'q'); break;
        default: v = err ? fprintf(stderr, "plain\n") : printf("plain\n"); break;
        }
        n = diverted(err ? 2 : 1, g_buf, 0);
        other = diverted(err ? 1 : 2, g_buf, n) - n;
        wn = form == 0 ? sprintf((char*)g_buf2, "%s", text) : form == 1 ? sprintf((char*)g_buf2, "%d:%s:%05.1f", -5, text, 2.5) :
             form == 2 ? sprintf((char*)g_buf2, "%s%08lX%c%%", text, 0xABCDEFUL, 'q') : sprintf((char*)g_buf2, "plain\n");
    }
    else
    {
        int err = k[1] == 'e';
        s = err ? printfSpy_GetNthErrorOutput((size_t)a) : printfSpy_GetNthOutput((size_t)a);
        if (a == 1 && s != (err ? printfSpy_GetLastErrorOutput() : printfSpy_GetLastOutput())) s = "last differs";
        if (a == 2 && s != (err ? printfSpy_GetPreviousErrorOutput() : printfSpy_GetPreviousOutput())) s = "previous differs";
        v = s != NULL;
        n = s ? (long)strlen(s) : 0;
        if (s) memcpy(g_buf, s, (size_t)n);
    }
    head("spy", k, a, form);
    OUT ",\"m\":\"\",\"l\":[]");
    bytes("d", g_buf2, wn);
    num("v", v);
    bytes("r", g_buf, n + other);
    end();
}
int main(int argc, char** argv)
{
    static char line[1 << 18], rest[1 << 18], text[1 << 17];
    static unsigned char d[1 << 17];
    g_out = real_fopen(argv[1], "a");
    while (real_fgets(line, sizeof(line), stdin))
    {
        char ev[16] = "", k[16] = "", m[32] = "";
        long a = 0, b = 0;
        int  i;
        h_watchdog();
        if (line[0] == 'H')
        {
            printfSpy_Unhook();
            printfSpy_Hook(1);
            printfSpy_Unhook();
            MallocFailureInject_Restore();
            for (i = 1 ; i < 5 ; i++) { real_free(g_block[i]); g_block[i] = NULL; }
            reopen();
            OUT "{\"ev\":\"H\",\"h\":%ld}\n", strtol(line + 2, NULL, 10));
            real_fflush(g_out);
            continue;
        }
        rest[0] = '-'; rest[1] = 0;
        sscanf(line, "%15s %15s %ld %ld %31s %200000s", ev, k, &a, &b, m, rest);
        if (!strcmp(m, "-")) m[0] = 0;
        if (!strcmp(ev, "heap")) heapOp(k, (int)a, (int)b);
        else if (!strcmp(ev, "file") && !strcmp(k, "ifgets")) linesOp(rest);
        else if (!strcmp(ev, "file") && !strcmp(k, "size")) sizeOp();
        else if (!strcmp(ev, "file")) fileOp(k, a, b, m, d, (long)h_unhex(rest, d, sizeof(d)));
        else if (!strcmp(ev, "spy"))
        {
            text[h_unhex(rest, (unsigned char*)text, sizeof(text) - 1)] = 0;
            spyOp(k, a, b, text);
        }
        else if (!strcmp(ev, "real")) { char len[32]; long long start; sscanf(line, "%*s %31s %lld %31s", len, &start, m); realOp(len, start, m); }
    }
    return 0;
}
