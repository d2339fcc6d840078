/* Drives the real image and dump readers: one case per command on a fresh memory, complete outcome recorded. */
#include "hcommon.h"
#include <try_catch.h>
#include <MemorySim.h>
#include <ElfLoad.h>
#include <CrashCatcherDump.h>
#include <GdbLogParser.h>
#undef malloc
#undef realloc
#undef free

#ifndef MAXIN
#define MAXIN (1 << 19)
#endif
static unsigned char g_data[MAXIN];
static char          g_line[2 * MAXIN + 65536];
static char          g_hex[2 * MAXIN + 16];
static int           g_open;

extern FILE*  (*hook_fopen)(const char* filename, const char* mode);
extern int    (*hook_fclose)(FILE* stream);
static FILE* countOpen(const char* f, const char* m) { FILE* p = real_fopen(f, m); if (p) g_open++; return p; }
static int   countClose(FILE* f) { g_open--; return real_fclose(f); }

static const char* xmlOf(IMemory* pMem)
{
    const char* volatile x = "";
    __try { x = MemorySim_GetMemoryMapXML(pMem); } __catch { x = "exception"; }
    return x;
}

/* probes: "a:n" words; every byte from a-1 to a+n. */
static void probes(IMemory* pMem, char* s)
{
    int   first = 1;
    char* tok;
    fprintf(g_out, ",\"p\":[");
    for (tok = strtok(s, " \n") ; tok ; tok = strtok(NULL, " \n"))
    {
        unsigned a = 0, n = 0, i;
        if (sscanf(tok, "%x:%x", &a, &n) != 2) continue;
        a--; n += 2;
        fprintf(g_out, "%s{\"a\":[%u,%u],\"v\":[", first ? "" : ",", a >> 16, a & 0xFFFF);
        first = 0;
        for (i = 0 ; i < n ; i++)
        {
            volatile int v = -1;
            __try { v = IMemory_Read8(pMem, a + i); } __catch { v = getExceptionCode() == busErrorException ? -1 : -2; }
            fprintf(g_out, "%s%d", i ? "," : "", v);
        }
        fprintf(g_out, "],\"w\":[");
        for (i = 0 ; i < n ; i++)
        {
            volatile int w = 1;
            __try { MemorySim_MapSimulatedAddressToHostAddressForWrite(pMem, a + i, 1); } __catch { w = 0; }
            fprintf(g_out, "%s%d", i ? "," : "", w);
        }
        fprintf(g_out, "]}");
    }
    fputc(']', g_out);
    clearExceptionCode();
}

static void jWords(const char* k, const uint32_t* p, int n)
{
    int i;
    fprintf(g_out, ",\"%s\":[", k);
    for (i = 0 ; i < n ; i++) fprintf(g_out, "%s[%u,%u]", i ? "," : "", p[i] >> 16, p[i] & 0xFFFF);
    fputc(']', g_out);
}

int main(int argc, char** argv)
{
    char fileName[256];
    g_out = argc > 1 ? fopen(argv[1], "a") : stdout;
    snprintf(fileName, sizeof(fileName), "%s.dmp", argc > 1 ? argv[1] : "/tmp/image_harness");
    h_installAllocator();
    hook_fopen = countOpen;
    hook_fclose = countClose;
    while (fgets(g_line, sizeof(g_line), stdin))
    {
        char          op[16] = "";
        int           used = 0;
        size_t        len;
        volatile int  code = 0;
        char          msg[1100];
        IMemory*      pMem;
        RegisterContext ctx;

        sscanf(g_line, "%15s", op);
        if (!strcmp(op, "H"))
        {
            h_watchdog();
            h_resetAllocator();
            fprintf(g_out, "{\"ev\":\"H\",\"h\":%d}\n", atoi(g_line + 2));
            fflush(g_out);
            continue;
        }
        sscanf(g_line, "%*s %s %n", g_hex, &used);
        len = h_unhex(g_hex, g_data, sizeof(g_data));
        pMem = MemorySim_Init();
        memset(&ctx, 0xA5, sizeof(ctx));
        g_open = 0;
        g_exceptionMessage[0] = '\0';
        if (!strcmp(op, "elf"))
        {
            char* pCopy = real_malloc(len ? len : 1);      /* exact size: reads outside of it are seen */
            memcpy(pCopy, g_data, len);
            __try { ElfLoad_FromMemory(pMem, pCopy, len); } __catch { code = getExceptionCode(); }
            real_free(pCopy);
        }
        else
        {
            FILE* pFile = real_fopen(fileName, "wb");
            fwrite(g_data, 1, len, pFile);
            real_fclose(pFile);
            __try
            {
                if (!strcmp(op, "bin")) CrashCatcherDump_ReadBinary(pMem, &ctx, fileName);
                else if (!strcmp(op, "hex")) CrashCatcherDump_ReadHex(pMem, &ctx, fileName);
                else GdbLogParse(pMem, &ctx, fileName);
            }
            __catch { code = getExceptionCode(); }
        }
        snprintf(msg, sizeof(msg), "%s", code ? getExceptionMessage() : "");
        jOpen(!strcmp(op, "elf") ? "elf" : !strcmp(op, "log") ? "log" : "dump");
        jStr("kind", op);
        jBytes("d", g_data, len);
        jInt("c", code);
        jStr("msg", msg);
        jStr("xml", xmlOf(pMem));
        probes(pMem, g_line + used);
        if (strcmp(op, "elf"))
        {
            jInt("open", g_open);
            jWord("flags", ctx.flags);
            jWords("R", ctx.R, TOTAL_REG_COUNT);
            jWord("ePSR", ctx.exceptionPSR);
            jWords("FPR", ctx.FPR, TOTAL_FPREG_COUNT);
        }
        jClose();
        fflush(g_out);
        MemorySim_Uninit(pMem);
        clearExceptionCode();
    }
    fflush(g_out);
    unlink(fileName);
    _exit(0);
}
