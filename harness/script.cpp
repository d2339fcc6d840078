/* The scripted stand-ins for the line to GDB (libCrashDebug/mocks), driven through the interfaces they stand in for. */
#include "hcommon.h"
extern "C"
{
#include <common.h>
#include <Console.h>
#include <mockConsole.h>
}
#include <mockIComm.h>

#define MAXB (1 << 18)
static char          g_line[4 * MAXB], g_hex1[2 * MAXB], g_hex2[2 * MAXB];
static char*         g_text[2];                 /* scripts stay where they are for as long as they play */
static unsigned char g_d[MAXB], g_e[MAXB], g_r[MAXB];

static char* keepText(int i, const unsigned char* d, size_t n)
{
    char* p = (char*)malloc(n + 1);
    memcpy(p, d, n);
    p[n] = 0;
    free(g_text[i]);
    return g_text[i] = p;
}
static char* passing(const unsigned char* d, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, d, n); p[n] = 0; return p; }
static void start(void)
{
    mockIComm_Uninit();
    mockIComm_InitReceiveData("", "");
    ConsoleMock_Uninit();
}
static size_t take(const char* s) { size_t n = strlen(s); memcpy(g_r, s, n); return n; }
static void line(const char* k, long a, size_t dn, size_t en)
{
    IComm* p = mockIComm_Get();
    long   v = 0, i;
    size_t rn = 0;
    if (!strcmp(k, "init"))
    {
        char* t1 = keepText(0, g_d, dn);
        if (a == 1) mockIComm_InitReceiveData(t1);
        else mockIComm_InitReceiveData(t1, keepText(1, g_e, en));
    }
    else if (!strcmp(k, "initsum"))
    {   /* copied: gone afterwards */
        char* t1 = passing(g_d, dn);
        char* t2 = passing(g_e, en);
        if (a == 1) mockIComm_InitReceiveChecksummedData(t1);
        else mockIComm_InitReceiveChecksummedData(t1, t2);
        memset(t1, 'x', dn); memset(t2, 'x', en);
        free(t1); free(t2);
    }
    else if (!strcmp(k, "delay")) mockIComm_DelayReceiveData((int)a);
    else if (!strcmp(k, "has")) v = IComm_HasReceiveData(p) != 0;
    else if (!strcmp(k, "recv")) v = IComm_ReceiveChar(p) & 0xFF;
    else if (!strcmp(k, "recvs")) for (i = 0 ; i < a ; i++) g_r[rn++] = (unsigned char)IComm_ReceiveChar(p);
    else if (!strcmp(k, "keep")) mockIComm_InitTransmitDataBuffer((size_t)a);
    else if (!strcmp(k, "send")) for (i = 0 ; i < (long)dn ; i++) IComm_SendChar(p, i & 1 ? (char)g_d[i] : g_d[i]);
    else if (!strcmp(k, "sent")) rn = take(mockIComm_GetTransmittedData());
    else if (!strcmp(k, "sum")) { char* t = passing(g_d, dn); const char* s = mockIComm_ChecksumData(t); free(t); rn = take(s); }
    else if (!strcmp(k, "setstop")) mockIComm_SetShouldStopRunFlag((int)a);
    else if (!strcmp(k, "stop")) v = IComm_ShouldStopRun(p) != 0;
    else if (!strcmp(k, "setconn")) mockIComm_SetIsGdbConnectedFlag((int)a);
    else if (!strcmp(k, "conn")) v = IComm_IsGdbConnected(p) != 0;
    else if (!strcmp(k, "uninit")) mockIComm_Uninit();
    jOpen("line"); jInt("c", 0); jInt("left", 0); jInt("v", v); jBytes("r", g_r, rn);
}
static void con(const char* k, long a, size_t dn)
{
    volatile long v = 0, c = 0;
    size_t rn = 0, i;
    if (!strcmp(k, "sethx")) ConsoleMock_HasStdInDataToRead_SetException((int)a);
    else if (!strcmp(k, "sethv")) ConsoleMock_HasStdInDataToRead_SetReturn((int)a);
    else if (!strcmp(k, "setrx")) ConsoleMock_ReadStdIn_SetException((int)a);
    else if (!strcmp(k, "setwx")) ConsoleMock_WriteStdOut_SetException((int)a);
    else if (!strcmp(k, "input")) ConsoleMock_ReadStdIn_SetBuffer(keepText(0, g_d, dn), dn);
    else if (!strcmp(k, "keep")) ConsoleMock_WriteStdOut_SetCaptureBufferSize((size_t)a);
    else if (!strcmp(k, "kept")) rn = take(ConsoleMock_WriteStdOut_GetCapturedText());
    else if (!strcmp(k, "uninit")) ConsoleMock_Uninit();
    else
    {
        __try
        {
            if (!strcmp(k, "has")) v = Console_HasStdInDataToRead();
            else if (!strcmp(k, "read")) v = Console_ReadStdIn() & 0xFF;
            else if (!strcmp(k, "reads")) for (i = 0 ; i < (size_t)a ; i++) g_r[i] = (unsigned char)Console_ReadStdIn();
            else if (!strcmp(k, "write")) Console_WriteStdOut((int)a);
            else if (!strcmp(k, "writes")) for (i = 0 ; i < dn ; i++) Console_WriteStdOut(g_d[i]);
        }
        __catch { c = getExceptionCode(); clearExceptionCode(); }
        if (!strcmp(k, "reads")) rn = (size_t)a;
    }
    jOpen("con"); jInt("c", c); jInt("left", getExceptionCode()); jInt("v", v); jBytes("r", g_r, rn);
}
int main(int argc, char** argv)
{
    g_out = real_fopen(argv[1], "a");
    while (real_fgets(g_line, sizeof(g_line), stdin))
    {
        char   ev[16] = "", k[16] = "";
        long   a = 0;
        size_t dn, en;
        h_watchdog();
        if (g_line[0] == 'H')
        {
            start();
            fprintf(g_out, "{\"ev\":\"H\",\"h\":%ld}\n", strtol(g_line + 2, NULL, 10));
            fflush(g_out);
            continue;
        }
        g_hex1[0] = g_hex2[0] = '-'; g_hex1[1] = g_hex2[1] = 0;
        sscanf(g_line, "%15s %15s %ld %s %s", ev, k, &a, g_hex1, g_hex2);
        dn = h_unhex(g_hex1, g_d, MAXB - 1);
        en = h_unhex(g_hex2, g_e, MAXB - 1);
        fflush(g_out);
        if (!strcmp(ev, "line")) line(k, a, dn, en);
        else con(k, a, dn);
        jStr("k", k); jInt("a", a); jBytes("d", g_d, dn); jBytes("e", g_e, en); jClose();
    }
    fflush(g_out);
    _exit(0);
}
