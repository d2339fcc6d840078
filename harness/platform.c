/* Plays GDB against the real mriPlatform: a crash is set up, debugger commands go in as packets, every answer comes out. */
#include "hcommon.h"
#include <try_catch.h>
#include <MemorySim.h>
#include <IComm.h>
#include <mriPlatform.h>
#include <platforms.h>
#include <semihost.h>
#undef malloc
#undef realloc
#undef free

#define LINES 4096
static char            g_line[1 << 18];
static char            g_hex[1 << 17];
static char*           g_script[LINES];
static int             g_lineCount, g_at;
static unsigned char   g_data[1 << 16];
static IMemory*        g_mem;
static RegisterContext g_ctx;

/* ---- the GDB end of the line -------------------------------------------------------------------------------------- */
static unsigned char g_queue[1 << 18];
static int   g_head, g_tail;
static char  g_packet[1 << 17];
static int   g_packetLen, g_inPacket, g_trailer, g_sum, g_badSum;
static int   g_acks, g_naks, g_noise, g_late, g_replyCount;
static char  g_console[1 << 16];
static char  g_replies[1 << 18];        /* JSON array contents */
static char  g_head_[1 << 18];          /* the event being answered */
static int   g_pending;
static int   g_connectAfter;
static unsigned g_offered;              /* packet size the program has offered */

static void push(int c) { g_queue[g_tail++] = (unsigned char)c; }
static void pushPacket(const unsigned char* p, size_t n)
{
    static const char digits[] = "0123456789abcdef";
    unsigned char sum = 0;
    size_t i;
    push('$');
    for (i = 0 ; i < n ; i++) { push(p[i]); sum += p[i]; }
    push('#'); push(digits[sum >> 4]); push(digits[sum & 15]);
}
static void jAppend(char* dst, const char* s)
{
    char* p = dst + strlen(dst);
    for ( ; *s ; s++)
    {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') p += sprintf(p, "\\%c", c);
        else if (c == '\n') p += sprintf(p, "\\n");
        else if (c < 32 || c > 126) p += sprintf(p, "?%02x", c);
        else *p++ = c;
    }
    *p = '\0';
}
static void endPacket(void)
{
    if (g_packet[0] == 'O' && g_packetLen > 1 && g_packet[1] != 'K')
    {
        size_t n = h_unhex(g_packet + 1, g_data, sizeof(g_data) - 1);
        g_data[n] = '\0';
        strcat(g_console, (char*)g_data);
        if (g_replyCount) g_late++;
    }
    else
    {
        if (g_replyCount++) strcat(g_replies, ",");
        strcat(g_replies, "\"");
        jAppend(g_replies, g_packet);
        strcat(g_replies, "\"");
    }
    push('+');
}
static void finishEvent(void)
{
    if (!g_pending) return;
    g_pending = 0;
    fprintf(g_out, "%s,\"r\":[%s]", g_head_, g_replies);
    if (strstr(g_replies, "PacketSize=")) g_offered = (unsigned)strtoul(strstr(g_replies, "PacketSize=") + 11, NULL, 16);
    jStr("con", g_console);
    jInt("acks", g_acks); jInt("naks", g_naks); jInt("noise", g_noise + g_inPacket); jInt("late", g_late); jInt("badsum", g_badSum);
    jClose();
}
static void startEvent(void)
{
    g_pending = 1;
    g_replies[0] = g_console[0] = '\0';
    g_acks = g_naks = g_noise = g_late = g_badSum = g_replyCount = 0;
    g_head = g_tail = 0;
}

static int  c_has(IComm* p)    { return g_head < g_tail; }
static void c_send(IComm* p, int c)
{
    c &= 0xFF;
    if (g_inPacket)
    {
        if (g_inPacket == 1)
        {
            if (c == '#') { g_inPacket = 2; g_trailer = 0; return; }
            g_sum += c;
            if (g_packetLen < (int)sizeof(g_packet) - 1) g_packet[g_packetLen++] = (char)c;
            return;
        }
        g_trailer = g_trailer * 16 + (h_nib(c) & 15);
        if (g_inPacket++ == 3)
        {
            g_packet[g_packetLen] = '\0';
            if (g_trailer != (g_sum & 0xFF)) g_badSum++;
            g_inPacket = 0;
            endPacket();
        }
        return;
    }
    if (c == '$') { g_inPacket = 1; g_packetLen = 0; g_sum = 0; }
    else if (c == '+') g_acks++;
    else if (c == '-') g_naks++;
    else g_noise++;
}
static int  c_stop(IComm* p)      { return 0; }
static int  c_connected(IComm* p) { return g_connectAfter-- <= 0; }
static void dispatch(char* line);
static int  c_receive(IComm* p)
{
    while (g_head == g_tail)
    {
        finishEvent();
        if (g_at == g_lineCount) __throw(fileException);
        dispatch(g_script[g_at++]);
    }
    return (char)g_queue[g_head++];
}
static ICommVTable g_vtable = { c_has, c_receive, c_send, c_stop, c_connected };
static IComm g_comm = { &g_vtable };

/* ---- events ---------------------------------------------------------------------------------------------------------- */
static char* addW(char* p, const char* k, uint32_t v) { return p + sprintf(p, ",\"%s\":[%u,%u]", k, v >> 16, v & 0xFFFF); }
static char* addI(char* p, const char* k, long v) { return p + sprintf(p, ",\"%s\":%ld", k, v); }
static char* addB(char* p, const char* k, const unsigned char* d, size_t n)
{
    size_t i;
    p += sprintf(p, ",\"%s\":[", k);
    for (i = 0 ; i < n ; i++) p += sprintf(p, "%s%u", i ? "," : "", d[i]);
    return p + sprintf(p, "]");
}
static void jWords(const char* k, const uint32_t* p, int n)
{
    int i;
    fprintf(g_out, ",\"%s\":[", k);
    for (i = 0 ; i < n ; i++) fprintf(g_out, "%s[%u,%u]", i ? "," : "", p[i] >> 16, p[i] & 0xFFFF);
    fputc(']', g_out);
}
static void context(void)
{
    jWord("flags", g_ctx.flags);
    jWords("R", g_ctx.R, TOTAL_REG_COUNT);
    jWord("ePSR", g_ctx.exceptionPSR);
    jWords("FPR", g_ctx.FPR, TOTAL_FPREG_COUNT);
}
static void probes(char* s)
{
    int   first = 1;
    char* tok;
    fprintf(g_out, ",\"p\":[");
    for (tok = strtok(s, " \n") ; tok ; tok = strtok(NULL, " \n"))
    {
        unsigned a = 0, n = 0, i;
        if (sscanf(tok, "%x:%x", &a, &n) != 2) continue;
        fprintf(g_out, "%s{\"a\":[%u,%u],\"v\":[", first ? "" : ",", a >> 16, a & 0xFFFF);
        first = 0;
        for (i = 0 ; i < n ; i++)
        {
            volatile int v = -1;
            __try { v = IMemory_Read8(g_mem, a + i); } __catch { v = -1; }
            fprintf(g_out, "%s%d", i ? "," : "", v);
        }
        fprintf(g_out, "],\"w\":[");
        for (i = 0 ; i < n ; i++)
        {
            volatile int w = 1;
            __try { MemorySim_MapSimulatedAddressToHostAddressForWrite(g_mem, a + i, 1); } __catch { w = 0; }
            fprintf(g_out, "%s%d", i ? "," : "", w);
        }
        fprintf(g_out, "]}");
    }
    fputc(']', g_out);
    clearExceptionCode();
}

/* One line of the script: a debugger command (as a packet), a direct call of the platform layer, or a look at the state. */
static void dispatch(char* line)
{
    char           op[16] = "";
    unsigned       a = 0, n = 0, t = 0;
    int            used = 0;
    unsigned char* d = g_data;
    static unsigned char packet[1 << 17];
    size_t         len = 0, i, k;
    char*          p = g_head_;

    sscanf(line, "%15s %n", op, &used);
    if (!strcmp(op, "state"))
    {
        const char* x = MemorySim_GetMemoryMapXML(g_mem);
        jOpen("state"); context(); jStr("map", x); probes(line + used); jClose();
        return;
    }
    if (!strcmp(op, "call"))       /* call rd8|rd16|rd32|wr8|wr16|wr32|fault|cause|... a v: the platform layer itself */
    {
        char      what[16] = "";
        uint32_t  v = 0, r = 0;
        int       fault = 0;
        unsigned  k = 1;                /* as often as asked before anybody looks at the outcome */
        sscanf(line + used, "%15s %x %x %x", what, &a, &v, &k);
#define PTR(X) ((void*)(uintptr_t)(X))
        while (k--)
        {
        if (!strcmp(what, "rd8")) r = Platform_MemRead8(PTR(a));
        else if (!strcmp(what, "rd16")) r = Platform_MemRead16(PTR(a));
        else if (!strcmp(what, "rd32")) r = Platform_MemRead32(PTR(a));
        else if (!strcmp(what, "wr8")) Platform_MemWrite8(PTR(a), (uint8_t)v);
        else if (!strcmp(what, "wr16")) Platform_MemWrite16(PTR(a), (uint16_t)v);
        else if (!strcmp(what, "wr32")) Platform_MemWrite32(PTR(a), v);
        else if (!strcmp(what, "cause")) r = Platform_DetermineCauseOfException();
        else if (!strcmp(what, "setpc")) Platform_SetProgramCounter(a);
        else if (!strcmp(what, "advance")) Platform_AdvanceProgramCounterToNextInstruction();
        else if (!strcmp(what, "step")) { Platform_EnableSingleStep(); }
        else if (!strcmp(what, "nostep")) { Platform_DisableSingleStep(); }
        else if (!strcmp(what, "enter")) { Platform_EnteringDebuggerHook(); Platform_EnteringDebugger(); }
        else if (!strcmp(what, "leave")) { Platform_LeavingDebugger(); Platform_LeavingDebuggerHook(); }
        else if (!strcmp(what, "semiret")) Platform_SetSemihostCallReturnAndErrnoValues((int)a, (int)v);
        else if (!strcmp(what, "semiask")) { Platform_GetSemihostCallParameters(); Semihost_IsDebuggeeMakingSemihostCall(); }
        else if (!strcmp(what, "sbp")) Platform_SetHardwareBreakpoint(a, v);
        else if (!strcmp(what, "cbp")) Platform_ClearHardwareBreakpoint(a, v);
        else if (!strcmp(what, "swp")) { Platform_SetHardwareWatchpoint(a, v, MRI_PLATFORM_WRITE_WATCHPOINT); Platform_SetHardwareWatchpoint(a, v, MRI_PLATFORM_READ_WATCHPOINT); Platform_SetHardwareWatchpoint(a, v, MRI_PLATFORM_READWRITE_WATCHPOINT); }
        else if (!strcmp(what, "cwp")) { Platform_ClearHardwareWatchpoint(a, v, MRI_PLATFORM_WRITE_WATCHPOINT); Platform_ClearHardwareWatchpoint(a, v, MRI_PLATFORM_READWRITE_WATCHPOINT); }
        }
        fault = Platform_WasMemoryFaultEncountered();
        jOpen("call"); jStr("k", what); jWord("a", a); jWord("v", v); jWord("res", r); jInt("fault", fault != 0); jInt("again", Platform_WasMemoryFaultEncountered() != 0);
        jClose();
        return;
    }
    if (!strcmp(op, "fullm") || !strcmp(op, "fullX"))   /* fullm a max / fullX a max: with the largest packet the program has offered to handle */
    {
        static char full[1 << 17];
        sscanf(line + used, "%x %x", &a, &t);
        if (op[4] == 'm') { n = g_offered / 2; if (n > t) n = t; sprintf(full, "m %x %x", a, n); }
        else
        {
            for (n = t ; n && (unsigned)sprintf(full, "X%x,%x:", a, n) + n > g_offered ; n--) { }
            k = (size_t)sprintf(full, "X %x %x ", a, n);
            for (i = 0 ; i < n ; i++) k += (size_t)sprintf(full + k, "%02x", (unsigned)((i * 7 + 1) & 0x1F));
        }
        dispatch(full);
        return;
    }
    startEvent();
    p += sprintf(p, "{\"ev\":\"cmd\",\"k\":\"%s\"", op);
    k = 0;
    if (!strcmp(op, "?") || !strcmp(op, "g")) packet[k++] = op[0];
    else if (!strcmp(op, "G"))
    {
        sscanf(line + used, "%s", g_hex);
        len = h_unhex(g_hex, d, sizeof(g_data));
        p = addB(p, "d", d, len);
        k = (size_t)sprintf((char*)packet, "G%s", g_hex);
    }
    else if (!strcmp(op, "m"))
    {
        sscanf(line + used, "%x %x", &a, &n);
        p = addI(addW(p, "a", a), "n", n);
        k = (size_t)sprintf((char*)packet, "m%x,%x", a, n);
    }
    else if (!strcmp(op, "M") || !strcmp(op, "X"))
    {
        g_hex[0] = '\0';
        sscanf(line + used, "%x %x %s", &a, &n, g_hex);
        len = h_unhex(g_hex, d, sizeof(g_data));
        p = addB(addI(addW(p, "a", a), "n", n), "d", d, len);
        k = (size_t)sprintf((char*)packet, "%s%x,%x:", op, a, n);
        if (op[0] == 'M') k += (size_t)sprintf((char*)packet + k, "%s", len ? g_hex : "");
        else for (i = 0 ; i < len ; i++)
        {
            if (d[i] == '$' || d[i] == '#' || d[i] == '}' || d[i] == '*') { packet[k++] = '}'; packet[k++] = d[i] ^ 0x20; }
            else packet[k++] = d[i];
        }
    }
    else if (!strcmp(op, "map") || !strcmp(op, "xml"))
    {
        sscanf(line + used, "%x %x", &a, &n);
        p = addI(addI(p, "o", a), "n", n);
        k = (size_t)sprintf((char*)packet, op[0] == 'm' ? "qXfer:memory-map:read::%x,%x" : "qXfer:features:read:target.xml:%x,%x", a, n);
    }
    else if (!strcmp(op, "Z") || !strcmp(op, "z"))
    {
        sscanf(line + used, "%u %x %x", &t, &a, &n);
        p = addI(addI(addW(p, "a", a), "n", n), "t", t);
        k = (size_t)sprintf((char*)packet, "%s%u,%x,%x", op, t, a, n);
    }
    else if (!strcmp(op, "c") || !strcmp(op, "s") || !strcmp(op, "C") || !strcmp(op, "S"))
    {
        char text[64] = "";
        sscanf(line + used, "%63s", text);
        p += sprintf(p, ",\"x\":\"%s\"", text);
        k = (size_t)sprintf((char*)packet, "%s%s", op, text);
    }
    else /* raw text */
    {
        char* e = strchr(line + used, '\n');
        if (e) *e = '\0';
        p += sprintf(p, ",\"x\":\"");
        jAppend(p, line + used);
        p += strlen(p);
        p += sprintf(p, "\"");
        k = (size_t)sprintf((char*)packet, "%s", line + used);
    }
    pushPacket(packet, k);
}

static void runSession(char* args)      /* session <wait 0/1> <polls before connected> <characters before the first '+'> */
{
    int      wait = 1, polls = 0;
    volatile int code = 0;
    char     lead[256] = "";
    size_t   n;
    g_offered = 0;
    sscanf(args, "%d %d %255s", &wait, &polls, lead);
    g_inPacket = 0;
    startEvent();
    sprintf(g_head_, "{\"ev\":\"start\",\"wait\":%d", wait);
    g_connectAfter = polls;
    if (wait)
    {
        n = h_unhex(lead, g_data, sizeof(g_data));
        memcpy(g_queue, g_data, n); g_tail = (int)n;
        push('+');
    }
    mriPlatform_setWaitForGdbConnect(wait);
    __try
    {
        mriPlatform_Init(&g_ctx, g_mem);
        mriPlatform_Run(&g_comm);
    }
    __catch { code = getExceptionCode(); }
    clearExceptionCode();
    mriPlatform_setWaitForGdbConnect(1);
    finishEvent();
    jOpen("end"); jInt("c", code); jInt("left", g_lineCount - g_at); jClose();
}
static void words(char* s, uint32_t* p, int n)
{
    char* tok = strtok(s, " \n");
    while (n-- && tok) { *p++ = (uint32_t)strtoul(tok, NULL, 16); tok = strtok(NULL, " \n"); }
}
static void endScript(void)
{
    int i;
    for (i = 0 ; i < g_lineCount ; i++) real_free(g_script[i]);
    g_lineCount = g_at = 0;
}
/* Setup lines build the crash; after "session" come the commands, up to "end". */
static int  g_collect;
static char g_session[400];
int main(int argc, char** argv)
{
    g_out = fopen(argv[1], "a");
    h_installAllocator();
    while (fgets(g_line, sizeof(g_line), stdin))
    {
        char          op[16] = "";
        unsigned      a = 0, b = 0, n = 0;
        volatile int  code = 0;
        int           used = 0;
        sscanf(g_line, "%15s %n", op, &used);
        if (!strcmp(op, "H"))
        {
            h_watchdog();
            h_resetAllocator();
            endScript();
            g_collect = 0;
            g_mem = MemorySim_Init();
            memset(&g_ctx, 0, sizeof(g_ctx));
            fprintf(g_out, "{\"ev\":\"H\",\"h\":%d}\n", atoi(g_line + 2));
            fflush(g_out);
        }
        else if (!strcmp(op, "end")) { g_collect = 0; g_at = 0; runSession(g_session); endScript(); fflush(g_out); }
        else if (g_collect) { if (g_lineCount < LINES) g_script[g_lineCount++] = strcpy(real_malloc(strlen(g_line) + 1), g_line); }
        else if (!strcmp(op, "session")) { g_collect = 1; snprintf(g_session, sizeof(g_session), "%s", g_line + used); }
        else if (!strcmp(op, "ctx"))       /* flags ePSR R[19] FPR[33] */
        {
            uint32_t w[2 + TOTAL_REG_COUNT + TOTAL_FPREG_COUNT];
            memset(w, 0, sizeof(w));
            words(g_line + used, w, 2 + TOTAL_REG_COUNT + TOTAL_FPREG_COUNT);
            g_ctx.flags = w[0]; g_ctx.exceptionPSR = w[1];
            memcpy(g_ctx.R, w + 2, sizeof(g_ctx.R));
            memcpy(g_ctx.FPR, w + 2 + TOTAL_REG_COUNT, sizeof(g_ctx.FPR));
            jOpen("ctx"); context(); jClose();
        }
        else
        {
            size_t len = 0;
            g_hex[0] = '\0';
            if (!strcmp(op, "region")) { sscanf(g_line + used, "%x %x", &a, &n); MemorySim_CreateRegion(g_mem, a, n); }
            else if (!strcmp(op, "ro")) { sscanf(g_line + used, "%x", &a); MemorySim_MakeRegionReadOnly(g_mem, a); }
            else if (!strcmp(op, "load"))
            {
                sscanf(g_line + used, "%x %s", &a, g_hex);
                len = h_unhex(g_hex, g_data, sizeof(g_data));
                MemorySim_LoadFromFlashImage(g_mem, a, g_data, (uint32_t)len);
            }
            else if (!strcmp(op, "alias")) { sscanf(g_line + used, "%x %x %x", &a, &b, &n); MemorySim_CreateAlias(g_mem, a, b, n); }
            else continue;
            jOpen(op); jWord("a", a); jWord("b", b); jWord("n", n); jBytes("d", g_data, len); jClose();
        }
    }
    fflush(g_out);
    _exit(0);
}
