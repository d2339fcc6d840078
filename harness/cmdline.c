/* Drives the real start-up code: files and arguments in, complete outcome out. Runs in a scratch directory of its own. */
#include "hcommon.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <try_catch.h>
#include <MemorySim.h>
#include <CrashDebugCommandLine.h>
#undef malloc
#undef realloc
#undef free

#define MAXIN (1 << 19)
#define MAXFILES 12
#define MAXARGS 1600
static unsigned char g_data[MAXIN];
static char          g_line[2 * MAXIN + 65536];
static char          g_hex[2 * MAXIN + 16];
static struct { char name[600]; size_t nameLen; int dir; unsigned char* d; size_t n; } g_files[MAXFILES];
static int  g_fileCount;
static char g_argStore[MAXARGS][4096];
static size_t g_argLen[MAXARGS];
static int  g_argc;
static char g_outText[1 << 16], g_errText[1 << 16];

/* ---- injected I/O faults: the n-th call of an operation from the start of the run ---------------------------------- */
extern FILE*  (*hook_fopen)(const char* filename, const char* mode);
extern int    (*hook_fclose)(FILE* stream);
extern size_t (*hook_fread)(void* ptr, size_t size, size_t nitems, FILE* stream);
extern int    (*hook_fseek)(FILE* stream, long offset, int whence);
extern long   (*hook_ftell)(FILE* stream);
extern char*  (*hook_fgets)(char* str, int size, FILE* stream);
static char g_faultOp[16];
static int  g_faultAt, g_faultHit, g_smallBuffers;
static int due(const char* op)
{
    if (strcmp(op, g_faultOp) || !g_faultAt || --g_faultAt) return 0;
    g_faultHit = 1;
    return 1;
}
/* Make the next reads of the file fail in the system itself: its descriptor becomes that of a directory. */
static void breakReads(FILE* f)
{
    int d = open("/", O_RDONLY | O_DIRECTORY);
    dup2(d, fileno(f));
    close(d);
}
static FILE* f_open(const char* n, const char* m)
{
    static char  buffers[64][16];      /* (the C library ignores the size when it is to allocate the buffer) */
    static int   next;
    FILE* f;
    if (due("fopen")) { errno = EMFILE; return NULL; }
    f = real_fopen(n, m);
    if (f && g_smallBuffers) setvbuf(f, buffers[next++ % 64], _IOFBF, 16);
    return f;
}
static int    f_close(FILE* f)                                { int r = real_fclose(f); return due("fclose") ? EOF : r; }
static size_t f_read(void* p, size_t s, size_t n, FILE* f)    { if (due("fread")) breakReads(f); return real_fread(p, s, n, f); }
static char*  f_gets(char* b, int n, FILE* f)                 { if (due("fgets")) breakReads(f); return real_fgets(b, n, f); }
static int    f_seek(FILE* f, long o, int w)                  { if (due("fseek")) { errno = EIO; return -1; } return real_fseek(f, o, w); }
static long   f_tell(FILE* f)                                 { if (due("ftell")) { errno = EIO; return -1; } return real_ftell(f); }

static int openDescriptors(void)
{
    int i, n = 0;
    for (i = 0 ; i < 256 ; i++) n += fcntl(i, F_GETFD) != -1;
    return n;
}
static void slurp(const char* name, char* p, size_t max)
{
    FILE*  f = real_fopen(name, "rb");
    size_t n = f ? real_fread(p, 1, max - 1, f) : 0;
    p[n] = '\0';
    if (f) real_fclose(f);
}
static void clearFiles(void)
{
    int i;
    for (i = 0 ; i < g_fileCount ; i++)
    {
        if (g_files[i].dir) rmdir(g_files[i].name); else unlink(g_files[i].name);
        real_free(g_files[i].d);
    }
    g_fileCount = 0;
}
static void probes(IMemory* pMem, char* s)
{
    int   first = 1;
    char* tok;
    fprintf(g_out, ",\"p\":[");
    for (tok = strtok(s, " \n") ; tok && pMem ; tok = strtok(NULL, " \n"))
    {
        unsigned a = 0, n = 0, i;
        if (sscanf(tok, "%x:%x", &a, &n) != 2) continue;
        a--; n += 2;
        fprintf(g_out, "%s{\"a\":[%u,%u],\"v\":[", first ? "" : ",", a >> 16, a & 0xFFFF);
        first = 0;
        for (i = 0 ; i < n ; i++)
        {
            volatile int v = -1;
            __try { v = IMemory_Read8(pMem, a + i); } __catch { v = getExceptionCode() == busErrorException ? -1 : -2; }
            fprintf(g_out, "%s%d", i ? "," : "", v);
        }
        fprintf(g_out, "],\"w\":[");
        for (i = 0 ; i < n ; i++)
        {
            volatile int w = 1;
            __try { MemorySim_MapSimulatedAddressToHostAddressForWrite(pMem, a + i, 1); } __catch { w = 0; }
            fprintf(g_out, "%s%d", i ? "," : "", w);
        }
        fprintf(g_out, "]}");
    }
    fputc(']', g_out);
    clearExceptionCode();
}
static void jWords(const char* k, const uint32_t* p, int n)
{
    int i;
    fprintf(g_out, ",\"%s\":[", k);
    for (i = 0 ; i < n ; i++) fprintf(g_out, "%s[%u,%u]", i ? "," : "", p[i] >> 16, p[i] & 0xFFFF);
    fputc(']', g_out);
}
static int indexOf(const char* s, const char* w) { const char* p = strstr(s, w); return p ? (int)(p - s) + 1 : 0; }
static int countOf(const char* s, const char* w) { int n = 0; while ((s = strstr(s, w)) != NULL) { n++; s++; } return n; }

static void run(char* probeText)
{
    static CrashDebugCommandLine cl;
    const char*  argv[MAXARGS + 1];
    volatile int code = 0;
    int          i, before, after, out = dup(1), err = dup(2), fd;
    const char* volatile xml = "";
    char*        firstLine;
    static char  line1[8000];

    for (i = 0 ; i < g_argc ; i++) argv[i] = g_argStore[i];
    argv[g_argc] = NULL;
    h_resetAllocator();
    if (!strcmp(g_faultOp, "malloc")) h_failAt = g_faultAt;
    memset(&cl, 0xFF, sizeof(cl));
    g_exceptionMessage[0] = '\0';
    clearExceptionCode();
    fflush(stdout); fflush(stderr);
    fd = open("../out", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd);
    fd = open("../err", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
    before = openDescriptors();
    __try { CrashDebugCommandLine_Init(&cl, g_argc, argv); } __catch { code = getExceptionCode(); }
    clearExceptionCode();
    after = openDescriptors();
    fflush(stdout); fflush(stderr);
    dup2(out, 1); dup2(err, 2); close(out); close(err);
    slurp("../out", g_outText, sizeof(g_outText));
    slurp("../err", g_errText, sizeof(g_errText));
    h_failAt = 0;
    if (h_injected) g_faultHit = 1;

    firstLine = strchr(g_errText, '\n');
    snprintf(line1, sizeof(line1), "%.*s", firstLine ? (int)(firstLine - g_errText) : 0, g_errText);
    jOpen("start");
    fprintf(g_out, ",\"args\":[");
    for (i = 0 ; i < g_argc ; i++)
    {
        size_t k;
        fprintf(g_out, "%s[", i ? "," : "");
        for (k = 0 ; k < g_argLen[i] ; k++) fprintf(g_out, "%s%u", k ? "," : "", (unsigned char)g_argStore[i][k]);
        fputc(']', g_out);
    }
    fprintf(g_out, "],\"files\":[");
    for (i = 0 ; i < g_fileCount ; i++)
    {
        fprintf(g_out, "%s{\"x\":0", i ? "," : "");
        jBytes("n", g_files[i].name, g_files[i].nameLen);
        jBool("dir", g_files[i].dir);
        jBytes("d", g_files[i].d, g_files[i].n);
        fputc('}', g_out);
    }
    fputc(']', g_out);
    jStr("fault", g_faultOp[0] && g_faultHit ? g_faultOp : "");
    jInt("c", code);
    jInt("out", (long)strlen(g_outText));
    jInt("err", (long)strlen(g_errText));
    jStr("err1", line1);
    jInt("errors", countOf(g_errText, "ERROR:"));
    jInt("copyright", indexOf(g_errText, "Copyright"));
    jInt("usage", indexOf(g_errText, "Usage: CrashDebug"));
    jInt("opts", (strstr(g_errText, "--elf") && strstr(g_errText, "--bin") && strstr(g_errText, "--dump") && strstr(g_errText, "--alias")) ? 1 : 0);
    jInt("fds", after - before);
    jInt("nomem", code ? cl.pMemory == NULL : 0);
    if (code)
    {
        jInt("live", h_liveCount);
        jStr("xml", "");
        fprintf(g_out, ",\"p\":[]");
        jInt("regs", 0);
    }
    else
    {
        __try { xml = MemorySim_GetMemoryMapXML(cl.pMemory); } __catch { xml = "exception"; }
        jStr("xml", xml);
        probes(cl.pMemory, probeText);
        jInt("regs", 1);
        jWord("flags", cl.context.flags);
        jWords("R", cl.context.R, TOTAL_REG_COUNT);
        jWord("ePSR", cl.context.exceptionPSR);
        jWords("FPR", cl.context.FPR, TOTAL_FPREG_COUNT);
        CrashDebugCommandLine_Uninit(&cl);
        jInt("live", h_liveCount);
    }
    jInt("badfree", h_badFree);
    jClose();
    fflush(g_out);
    h_resetAllocator();
}

int main(int argc, char** argv)
{
    char dir[600];
    g_out = fopen(argv[1], "a");
    snprintf(dir, sizeof(dir), "%s.dir", argv[1]);
    mkdir(dir, 0700);
    if (chdir(dir)) return 1;
    mkdir("f", 0700);
    if (chdir("f")) return 1;
    h_installAllocator();
    hook_fopen = f_open; hook_fclose = f_close; hook_fread = f_read; hook_fseek = f_seek; hook_ftell = f_tell; hook_fgets = f_gets;
    while (fgets(g_line, sizeof(g_line), stdin))
    {
        char op[16] = "";
        int  used = 0;
        sscanf(g_line, "%15s %n", op, &used);
        if (!strcmp(op, "H"))
        {
            h_watchdog();
            clearFiles();
            g_argc = 0;
            fprintf(g_out, "{\"ev\":\"H\",\"h\":%d}\n", atoi(g_line + 2));
            fflush(g_out);
        }
        else if (!strcmp(op, "clear")) { clearFiles(); g_argc = 0; }
        else if (!strcmp(op, "file") || !strcmp(op, "dir"))
        {
            char  name[1200];
            int   more = 0;
            FILE* f;
            size_t n;
            if (g_fileCount == MAXFILES) continue;
            sscanf(g_line + used, "%1199s %n", name, &more);
            n = h_unhex(name, (unsigned char*)g_files[g_fileCount].name, sizeof(g_files[0].name) - 1);
            g_files[g_fileCount].name[n] = '\0';
            g_files[g_fileCount].nameLen = n;
            g_files[g_fileCount].dir = op[0] == 'd';
            g_files[g_fileCount].n = 0;
            g_files[g_fileCount].d = NULL;
            if (op[0] == 'd') mkdir(g_files[g_fileCount].name, 0700);
            else
            {
                sscanf(g_line + used + more, "%s", g_hex);
                n = h_unhex(g_hex, g_data, sizeof(g_data));
                g_files[g_fileCount].d = real_malloc(n + 1);
                memcpy(g_files[g_fileCount].d, g_data, n);
                g_files[g_fileCount].n = n;
                f = real_fopen(g_files[g_fileCount].name, "wb");
                if (f) { fwrite(g_data, 1, n, f); real_fclose(f); }
            }
            g_fileCount++;
        }
        else if (!strcmp(op, "args"))
        {
            char* tok;
            g_argc = 0;
            for (tok = strtok(g_line + used, " \n") ; tok && g_argc < MAXARGS ; tok = strtok(NULL, " \n"))
            {
                size_t n = h_unhex(tok, (unsigned char*)g_argStore[g_argc], sizeof(g_argStore[0]) - 1);
                g_argStore[g_argc][n] = '\0';
                g_argLen[g_argc++] = n;
            }
        }
        else if (!strcmp(op, "run"))       /* run <fault op or none> <n> <small buffers> probes */
        {
            int more = 0;
            g_faultHit = 0;
            sscanf(g_line + used, "%15s %d %d %n", g_faultOp, &g_faultAt, &g_smallBuffers, &more);
            if (!strcmp(g_faultOp, "none")) { g_faultOp[0] = '\0'; g_faultAt = 0; }
            run(g_line + used + more);
        }
    }
    clearFiles();
    fflush(g_out);
    if (chdir("../..") == 0)
    {
        char p[700];
        snprintf(p, sizeof(p), "%s/f", dir); rmdir(p);
        snprintf(p, sizeof(p), "%s/out", dir); unlink(p);
        snprintf(p, sizeof(p), "%s/err", dir); unlink(p);
        rmdir(dir);
    }
    _exit(0);
}
