/* Stand-in for the mri debug monitor core (the mri submodule is empty here). It reproduces the GDB remote protocol
   behaviour of the core linked into /repo/bins/lin64/CrashDebug, from its disassembly and by differential runs
   (tools/diff_core.py). Only the CrashDebug side of the interface (Platform_*) is under verification. */
#include <string.h>
#include <mri.h>
#include <core.h>
#include <gdb_console.h>
#include <semihost.h>
#include <platforms.h>

#define FLAG_INIT  1
#define FLAG_FIRST 2

int    __mriExceptionCode;
static int     g_err;                /* sticky per-operation error: 0 or exception code */
static int     g_flags;
static uint8_t g_signal;
static Buffer  g_buffer;

static void raise_(int code) { if (code > g_err) g_err = code; }

void __mriBuffer_Init(Buffer* p, char* s, size_t n) { p->pStart = s; p->pEnd = s + n; p->pCurrent = s; }
static void   reset(Buffer* p) { p->pCurrent = p->pStart; }
static size_t left(Buffer* p) { return p->pCurrent > p->pEnd ? 0 : (size_t)(p->pEnd - p->pCurrent); }
static int    overrun(Buffer* p) { return p->pCurrent > p->pEnd; }
void __mriBuffer_WriteChar(Buffer* p, char c)
{
    if (left(p) < 1) { p->pCurrent = p->pEnd + 1; raise_(bufferOverrunException); return; }
    *p->pCurrent++ = c;
}
char __mriBuffer_ReadChar(Buffer* p)
{
    if (left(p) < 1) { p->pCurrent = p->pEnd + 1; raise_(bufferOverrunException); return 0; }
    return *p->pCurrent++;
}
static const char hexDigits[] = "0123456789abcdef";
void __mriBuffer_WriteByteAsHex(Buffer* p, uint8_t b)
{
    __mriBuffer_WriteChar(p, hexDigits[b >> 4]);
    __mriBuffer_WriteChar(p, hexDigits[b & 15]);
}
static int nibble(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
uint8_t __mriBuffer_ReadByteAsHex(Buffer* p)
{
    int hi, lo;
    if (left(p) < 2) { p->pCurrent = p->pEnd + 1; raise_(bufferOverrunException); return 0; }
    hi = nibble(*p->pCurrent++);
    lo = nibble(*p->pCurrent++);
    if (hi < 0 || lo < 0) { raise_(invalidHexDigitException); return 0; }
    return (uint8_t)((hi << 4) | lo);
}
static void writeSized(Buffer* p, const char* s, size_t n) { while (n--) __mriBuffer_WriteChar(p, *s++); }
void __mriBuffer_WriteString(Buffer* p, const char* s) { writeSized(p, s, strlen(s)); }
static void writeUInt(Buffer* p, uint32_t v)
{
    int shift, started = 0;
    for (shift = 24 ; shift >= 0 ; shift -= 8)
    {
        uint8_t b = (uint8_t)(v >> shift);
        if (b || started || shift == 0) { __mriBuffer_WriteByteAsHex(p, b); started = 1; }
    }
}
static uint32_t readUInt(Buffer* p)
{
    uint32_t v = 0;
    int n = 0;
    while (left(p) && nibble(*p->pCurrent) >= 0) { v = (v << 4) | (uint32_t)nibble(*p->pCurrent++); n++; if (n > 8) { raise_(invalidValueException); return 0; } }
    if (!n) { raise_(invalidValueException); return 0; }
    return v;
}
static int nextIs(Buffer* p, char c)
{
    if (left(p) && *p->pCurrent == c) { p->pCurrent++; return 1; }
    return 0;
}
static int matches(Buffer* p, const char* s)
{
    size_t n = strlen(s), l = left(p), i;
    if (l < n) return 0;
    for (i = 0 ; i < n ; i++) if (p->pCurrent[i] != s[i]) return 0;
    if (l > n && !strchr(";:, ", p->pCurrent[n]) && p->pCurrent[n] != 0) return 0;
    p->pCurrent += n;
    return 1;
}

static void sendPacket(Buffer* p)
{
    /* p->pCurrent marks the end of the data. */
    char* pEnd = p->pCurrent > p->pEnd ? p->pEnd : p->pCurrent;
    for (;;)
    {
        char*   s;
        uint8_t sum = 0;
        int     c;
        Platform_CommSendChar('$');
        for (s = p->pStart ; s < pEnd ; s++) { Platform_CommSendChar(*s); sum += (uint8_t)*s; }
        Platform_CommSendChar('#');
        Platform_CommSendChar(hexDigits[sum >> 4]);
        Platform_CommSendChar(hexDigits[sum & 15]);
        do c = (char)Platform_CommReceiveChar(); while (c == 3);
        if (c == '+' || c == '$')
            return;
    }
}
static void initBuffer(void) { __mriBuffer_Init(&g_buffer, Platform_GetPacketBuffer(), Platform_GetPacketBufferSize()); }
static void respond(const char* s) { initBuffer(); __mriBuffer_WriteString(&g_buffer, s); }

static void receivePacket(void)
{
    char c = 0;
    initBuffer();
    for (;;)
    {
        uint8_t sum = 0, expected;
        int     hi, lo;
        while (c != '$') c = (char)Platform_CommReceiveChar();
        reset(&g_buffer);
        c = (char)Platform_CommReceiveChar();
        while (left(&g_buffer) && c != '#' && c != '$')
        {
            sum += (uint8_t)c;
            __mriBuffer_WriteChar(&g_buffer, c);
            c = (char)Platform_CommReceiveChar();
        }
        if (c != '#') continue;
        hi = nibble(c = (char)Platform_CommReceiveChar());
        lo = nibble(c = (char)Platform_CommReceiveChar());
        expected = (hi < 0 || lo < 0) ? (uint8_t)~sum : (uint8_t)((hi << 4) | lo);
        if (Platform_CommHasReceiveData()) continue;
        Platform_CommSendChar(expected == sum ? '+' : '-');
        if (expected == sum) break;
    }
    g_buffer.pEnd = g_buffer.pCurrent;
    reset(&g_buffer);
}

void __mriGdbConsole_WriteString(const char* s)
{
    initBuffer();
    __mriBuffer_WriteChar(&g_buffer, 'O');
    while (*s) __mriBuffer_WriteByteAsHex(&g_buffer, (uint8_t)*s++);
    sendPacket(&g_buffer);
}
void __mriGdbConsole_WriteHexValue(uint32_t v)
{
    char   text[16];
    Buffer b;
    __mriBuffer_Init(&b, text, sizeof(text) - 1);
    __mriBuffer_WriteString(&b, "0x");
    writeUInt(&b, v);
    *b.pCurrent = 0;
    __mriGdbConsole_WriteString(text);
}

int __mriCore_WasSuccessfullyInit(void) { return g_flags & FLAG_INIT; }
int __mriCore_IsFirstException(void) { return g_flags & FLAG_FIRST; }
static Token g_token;
void __mriInit(const char* pParams)
{
    g_flags = 0;
    g_err = 0;
    Platform_Init(&g_token);
    g_flags = FLAG_INIT | FLAG_FIRST;
}

static void cmdT(void)
{
    initBuffer();
    __mriBuffer_WriteChar(&g_buffer, 'T');
    __mriBuffer_WriteByteAsHex(&g_buffer, g_signal);
    Platform_WriteTResponseRegistersToBuffer(&g_buffer);
}
static void addressLength(uint32_t* pA, uint32_t* pL, int colon)
{
    *pA = readUInt(&g_buffer);
    if (g_err) return;
    if (!nextIs(&g_buffer, ',')) { raise_(invalidArgumentException); return; }
    *pL = readUInt(&g_buffer);
    if (g_err) return;
    if (colon && !nextIs(&g_buffer, ':')) raise_(invalidArgumentException);
}
static void cmdMemRead(void)
{
    uint32_t a = 0, l = 0, i;
    addressLength(&a, &l, 0);
    if (g_err) { respond("E01"); return; }
    initBuffer();
#define PTR(X) ((void*)(uintptr_t)(X))
    if (l == 2 && !(a & 1))
    {
        uint16_t v = Platform_MemRead16(PTR(a));
        if (Platform_WasMemoryFaultEncountered()) { respond("E03"); return; }
        __mriBuffer_WriteByteAsHex(&g_buffer, (uint8_t)v);
        __mriBuffer_WriteByteAsHex(&g_buffer, (uint8_t)(v >> 8));
        return;
    }
    if (l == 4 && !(a & 3))
    {
        uint32_t v = Platform_MemRead32(PTR(a));
        if (Platform_WasMemoryFaultEncountered()) { respond("E03"); return; }
        for (i = 0 ; i < 4 ; i++) __mriBuffer_WriteByteAsHex(&g_buffer, (uint8_t)(v >> (8 * i)));
        return;
    }
    for (i = 0 ; i < l ; i++)
    {
        uint8_t b = Platform_MemRead8(PTR(a + i));
        if (Platform_WasMemoryFaultEncountered()) break;
        __mriBuffer_WriteByteAsHex(&g_buffer, b);
    }
    if (i == 0) respond("E03");
}
static int binByte(void)
{
    char c = __mriBuffer_ReadChar(&g_buffer);
    if (!g_err && c == '}') c = (char)(__mriBuffer_ReadChar(&g_buffer) ^ 0x20);
    return (uint8_t)c;
}
static void cmdMemWrite(int binary)
{
    uint32_t a = 0, l = 0, i, n;
    uint8_t  d[4];
    addressLength(&a, &l, 1);
    if (g_err) { respond("E01"); return; }
    n = (l == 2 && !(a & 1)) ? 2 : (l == 4 && !(a & 3)) ? 4 : 0;
    for (i = 0 ; i < l ; i++)
    {
        uint8_t b = binary ? (uint8_t)binByte() : __mriBuffer_ReadByteAsHex(&g_buffer);
        if (g_err) { respond(overrun(&g_buffer) ? "E04" : "E03"); return; }
        if (n)
        {
            d[i] = b;
            if (i + 1 < n) continue;
            if (n == 2) Platform_MemWrite16(PTR(a), (uint16_t)(d[0] | d[1] << 8));
            else Platform_MemWrite32(PTR(a), d[0] | d[1] << 8 | d[2] << 16 | (uint32_t)d[3] << 24);
        }
        else
            Platform_MemWrite8(PTR(a + i), b);
        if (Platform_WasMemoryFaultEncountered()) { respond("E03"); return; }
    }
    respond("OK");
}
static void transfer(const char* pData, uint32_t size, uint32_t offset, uint32_t length)
{
    uint32_t valid = size > offset ? size - offset : 0, room;
    initBuffer();
    room = (uint32_t)left(&g_buffer);
    if (length > room) length = room;
    if (valid == 0 || length > valid) { __mriBuffer_WriteChar(&g_buffer, 'l'); length = valid; }
    else __mriBuffer_WriteChar(&g_buffer, 'm');
    writeSized(&g_buffer, pData + offset, length);
}
static void cmdQuery(void)
{
    if (matches(&g_buffer, "Supported"))
    {
        respond("qXfer:memory-map:read+;qXfer:features:read+;PacketSize=");
        writeUInt(&g_buffer, Platform_GetPacketBufferSize());
        return;
    }
    if (matches(&g_buffer, "Xfer"))
    {
        int map, annex = 0;
        uint32_t o = 0, l = 0;
        if (!nextIs(&g_buffer, ':')) { respond("E01"); return; }
        map = matches(&g_buffer, "memory-map");
        if (!map && !matches(&g_buffer, "features")) { respond(""); return; }
        if (!nextIs(&g_buffer, ':') || !matches(&g_buffer, "read") || !nextIs(&g_buffer, ':')) { respond("E01"); return; }
        annex = matches(&g_buffer, "target.xml");
        if (!nextIs(&g_buffer, ':')) { respond("E01"); return; }
        addressLength(&o, &l, 0);
        if (g_err || annex == map) { respond("E01"); return; }
        if (map)
        {
            const char* p = Platform_GetDeviceMemoryMapXml();
            uint32_t    n = Platform_GetDeviceMemoryMapXmlSize();
            transfer(p, n, o, l);
        }
        else
        {
            const char* p = Platform_GetTargetXml();
            uint32_t    n = Platform_GetTargetXmlSize();
            transfer(p, n, o, l);
        }
        return;
    }
    respond("");
}
static void cmdBreak(int set)
{
    char     type = __mriBuffer_ReadChar(&g_buffer);
    uint32_t a = 0, l = 0;
    PlatformWatchpointType w;
    if (!nextIs(&g_buffer, ',')) raise_(invalidArgumentException);
    if (!g_err) addressLength(&a, &l, 0);
    if (g_err) { respond("E01"); return; }
    if (type == '1') { if (set) Platform_SetHardwareBreakpoint(a, l); else Platform_ClearHardwareBreakpoint(a, l); respond("OK"); return; }
    if (type == '2') w = MRI_PLATFORM_WRITE_WATCHPOINT;
    else if (type == '3') w = MRI_PLATFORM_READ_WATCHPOINT;
    else if (type == '4') w = MRI_PLATFORM_READWRITE_WATCHPOINT;
    else { respond(""); return; }
    if (set) Platform_SetHardwareWatchpoint(a, l, w); else Platform_ClearHardwareWatchpoint(a, l, w);
    respond("OK");
}
static void setPC(void)
{
    uint32_t pc = readUInt(&g_buffer);
    if (!g_err) Platform_SetProgramCounter(pc);
}
static int isHardcoded(void)
{
    return !Platform_WasProgramCounterModifiedByUser() &&
           Platform_TypeOfCurrentInstruction() == MRI_PLATFORM_INSTRUCTION_HARDCODED_BREAKPOINT;
}
/* Returns non-zero if the program is to be resumed. */
static int handleCommand(void)
{
    receivePacket();
    g_err = 0;
    switch (__mriBuffer_ReadChar(&g_buffer))
    {
    case '?': cmdT(); break;
    case 'g': initBuffer(); Platform_CopyContextToBuffer(&g_buffer); break;
    case 'G': Platform_CopyContextFromBuffer(&g_buffer); respond(overrun(&g_buffer) ? "E04" : "OK"); break;
    case 'm': cmdMemRead(); break;
    case 'M': cmdMemWrite(0); break;
    case 'X': cmdMemWrite(1); break;
    case 'q': cmdQuery(); break;
    case 'Z': cmdBreak(1); break;
    case 'z': cmdBreak(0); break;
    case 'S': case 'C':
    {
        int step = g_buffer.pCurrent[-1] == 'S';
        __mriBuffer_ReadByteAsHex(&g_buffer);
        if (g_err) { respond("E01"); break; }
        if (nextIs(&g_buffer, ';')) { g_err = 0; setPC(); if (g_err) { respond("E01"); break; } }
        if (isHardcoded()) Platform_AdvanceProgramCounterToNextInstruction();
        if (step) Platform_EnableSingleStep();
        return 1;
    }
    case 's': if (left(&g_buffer)) setPC(); if (isHardcoded()) { Platform_AdvanceProgramCounterToNextInstruction(); } Platform_EnableSingleStep(); return 1;
    case 'c': if (left(&g_buffer)) setPC(); if (isHardcoded()) Platform_AdvanceProgramCounterToNextInstruction(); return 1;
    default: respond(""); break;
    }
    sendPacket(&g_buffer);
    return 0;
}

void __mriDebugException(void)
{
    int wait = 0, stepping;
    if (g_flags & FLAG_FIRST) wait = Platform_CommShouldWaitForGdbConnect() != 0;
    stepping = Platform_IsSingleStepping();
    if (Platform_CommCausedInterrupt() && !Platform_CommHasReceiveData()) { Platform_CommClearInterrupt(); return; }
    Platform_EnteringDebuggerHook();
    if ((g_flags & FLAG_FIRST) && Platform_CommShouldWaitForGdbConnect())
    {
        for (;;)
        {
            while (Platform_CommIsWaitingForGdbToConnect()) {}
            if (Platform_CommReceiveChar() == '+') break;
            Platform_CommWaitForReceiveDataToStop();
            Platform_CommPrepareToWaitForGdbConnection();
        }
    }
    Platform_EnteringDebugger();
    g_signal = Platform_DetermineCauseOfException();
    if (!(g_signal == 5 && Semihost_IsDebuggeeMakingSemihostCall() && Semihost_HandleSemihostRequest() && !stepping))
    {
        if (!wait)
        {
            Platform_DisplayFaultCauseToGdbConsole();
            cmdT();
            sendPacket(&g_buffer);
        }
        while (!handleCommand()) {}
    }
    Platform_LeavingDebugger();
    Platform_LeavingDebuggerHook();
    g_flags &= ~FLAG_FIRST;
}
