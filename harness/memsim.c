/* Drives the real MemorySim with the operations on stdin and records one event per public call, at its return. */
#include "hcommon.h"
#include <try_catch.h>
#include <MemorySim.h>
#undef malloc
#undef realloc
#undef free

static unsigned char g_data[1 << 20];
static IMemory*      g_mem;

static void finish(int code)
{
    jInt("c", code);
    jBool("inj", h_injected);
    jBool("big", h_big);
    jClose();
    clearExceptionCode();
}

int main(int argc, char** argv)
{
    static char line[2 * sizeof(g_data) + 256];
    static char hex[2 * sizeof(g_data) + 16];
    g_out = argc > 1 ? fopen(argv[1], "a") : stdout;
    setvbuf(g_out, NULL, _IOLBF, 1 << 16);
    h_installAllocator();
    while (fgets(line, sizeof(line), stdin))
    {
        char          op[16] = "";
        unsigned      a = 0, b = 0, n = 0, t = 0;
        volatile int  code = 0;
        size_t        len = 0;
        h_injected = h_big = 0;
        sscanf(line, "%15s", op);
        if (!strcmp(op, "H"))
        {
            int id = atoi(line + 2);
            h_watchdog();
            h_resetAllocator();
            g_mem = MemorySim_Init();
            fprintf(g_out, "{\"ev\":\"H\",\"h\":%d}\n", id);
            continue;
        }
        if (!strcmp(op, "fail")) { h_failAt = (unsigned)atoi(line + 5); continue; }
        if (!strcmp(op, "nofail")) { h_failAt = 0; continue; }
        if (!strcmp(op, "create"))
        {
            sscanf(line, "%*s %x %x", &a, &n);
            __try { MemorySim_CreateRegion(g_mem, a, n); } __catch { code = getExceptionCode(); }
            jOpen(op); jWord("a", a); jWord("s", n); finish(code);
        }
        else if (!strcmp(op, "alias"))
        {
            sscanf(line, "%*s %x %x %x", &a, &b, &n);
            __try { MemorySim_CreateAlias(g_mem, a, b, n); } __catch { code = getExceptionCode(); }
            jOpen(op); jWord("a", a); jWord("r", b); jWord("s", n); finish(code);
        }
        else if (!strcmp(op, "ro"))
        {
            sscanf(line, "%*s %x", &a);
            __try { MemorySim_MakeRegionReadOnly(g_mem, a); } __catch { code = getExceptionCode(); }
            jOpen(op); jWord("a", a); finish(code);
        }
        else if (!strcmp(op, "load") || !strcmp(op, "flash"))
        {
            unsigned char* copy;
            if (op[0] == 'l') sscanf(line, "%*s %x %s", &a, hex); else sscanf(line, "%*s %s", hex);
            len = h_unhex(hex, g_data, sizeof(g_data));
            copy = real_malloc(len ? len : 1);           /* exact size: reads past the image are seen */
            memcpy(copy, g_data, len);
            __try
            {
                if (op[0] == 'l') MemorySim_LoadFromFlashImage(g_mem, a, copy, (uint32_t)len);
                else MemorySim_CreateRegionsFromFlashImage(g_mem, copy, (uint32_t)len);
            }
            __catch { code = getExceptionCode(); }
            real_free(copy);
            jOpen(op); if (op[0] == 'l') jWord("a", a); jBytes("d", g_data, len); finish(code);
        }
        else if (!strcmp(op, "rd") || !strcmp(op, "mapr"))
        {
            volatile uint32_t v = 0;
            sscanf(line, "%*s %x %u", &a, &n);
            __try
            {
                if (op[0] == 'm') memcpy(g_data, MemorySim_MapSimulatedAddressToHostAddressForRead(g_mem, a, n), n);
                else
                {
                    v = n == 4 ? IMemory_Read32(g_mem, a) : n == 2 ? IMemory_Read16(g_mem, a) : IMemory_Read8(g_mem, a);
                    g_data[0] = v; g_data[1] = v >> 8; g_data[2] = v >> 16; g_data[3] = v >> 24;
                }
            }
            __catch { code = getExceptionCode(); }
            jOpen(op); jWord("a", a); jInt("n", n); jBytes("d", g_data, code ? 0 : n); finish(code);
        }
        else if (!strcmp(op, "wr") || !strcmp(op, "mapw"))
        {
            uint32_t v = 0;
            size_t   i;
            sscanf(line, "%*s %x %s", &a, hex);
            len = h_unhex(hex, g_data, sizeof(g_data));
            for (i = 0 ; i < len && i < 4 ; i++) v |= (uint32_t)g_data[i] << (8 * i);
            __try
            {
                if (op[0] == 'm') memcpy(MemorySim_MapSimulatedAddressToHostAddressForWrite(g_mem, a, (uint32_t)len), g_data, len);
                else if (len == 4) IMemory_Write32(g_mem, a, v);
                else if (len == 2) IMemory_Write16(g_mem, a, (uint16_t)v);
                else IMemory_Write8(g_mem, a, (uint8_t)v);
            }
            __catch { code = getExceptionCode(); }
            jOpen(op); jWord("a", a); jBytes("d", g_data, len); finish(code);
        }
        else if (!strcmp(op, "rdn") || !strcmp(op, "wrn"))     /* the same access k times: the last one's result */
        {
            volatile uint32_t v = 0, i;
            unsigned k = 0;
            if (op[0] == 'r') sscanf(line, "%*s %x %u %u", &a, &n, &k);
            else { sscanf(line, "%*s %x %s %u", &a, hex, &k); n = (unsigned)h_unhex(hex, g_data, 4); for (i = 0 ; i < n ; i++) v |= (uint32_t)g_data[i] << (8 * i); }
            for (i = 0 ; i < k ; i++)
            {
                code = 0;
                __try
                {
                    if (op[0] == 'r') v = n == 4 ? IMemory_Read32(g_mem, a) : n == 2 ? IMemory_Read16(g_mem, a) : IMemory_Read8(g_mem, a);
                    else if (n == 4) IMemory_Write32(g_mem, a, v);
                    else if (n == 2) IMemory_Write16(g_mem, a, (uint16_t)v);
                    else IMemory_Write8(g_mem, a, (uint8_t)v);
                }
                __catch { code = getExceptionCode(); }
                clearExceptionCode();
            }
            if (op[0] == 'r') { g_data[0] = v; g_data[1] = v >> 8; g_data[2] = v >> 16; g_data[3] = v >> 24; }
            jOpen(op); jWord("a", a); jInt("n", n); jInt("k", k); jBytes("d", g_data, op[0] == 'r' && code ? 0 : n); finish(code);
        }
        else if (!strcmp(op, "cnt"))
        {
            volatile uint32_t v = 0;
            sscanf(line, "%*s %x", &a);
            __try { v = MemorySim_GetFlashReadCount(g_mem, a); } __catch { code = getExceptionCode(); }
            jOpen(op); jWord("a", a); jInt("k", v > 1000000000u ? 1000000000 : (long)v); finish(code);
        }
        else if (!strcmp(op, "sbp") || !strcmp(op, "cbp") || !strcmp(op, "swp") || !strcmp(op, "cwp"))
        {
            sscanf(line, "%*s %x %x %u", &a, &n, &t);
            __try
            {
                if (op[1] == 'b') { if (op[0] == 's') MemorySim_SetHardwareBreakpoint(g_mem, a, n); else MemorySim_ClearHardwareBreakpoint(g_mem, a, n); }
                else if (op[0] == 's') MemorySim_SetHardwareWatchpoint(g_mem, a, n, (WatchpointType)t);
                else MemorySim_ClearHardwareWatchpoint(g_mem, a, n, (WatchpointType)t);
            }
            __catch { code = getExceptionCode(); }
            jOpen(op); jWord("a", a); jInt("n", n); if (op[1] == 'w') jInt("t", t); finish(code);
        }
        else if (!strcmp(op, "wpe"))
        {
            int k = MemorySim_WasWatchpointEncountered(g_mem);
            jOpen(op); jBool("k", k); finish(0);
        }
        else if (!strcmp(op, "xml"))
        {
            const char* volatile x = "";
            __try { x = MemorySim_GetMemoryMapXML(g_mem); (void)strlen(MemorySim_GetMemoryMapXML(g_mem)); /* as GDB's request does */ } __catch { code = getExceptionCode(); }
            jOpen(op); jStr("x", code ? "" : x); finish(code);
        }
        else if (!strcmp(op, "uninit"))
        {
            MemorySim_Uninit(g_mem);
            jOpen(op); jInt("live", h_liveCount); jInt("bad", h_badFree); finish(0);
        }
    }
    fflush(g_out);
    _exit(0);
}
