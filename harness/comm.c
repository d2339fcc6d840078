/* The real line to GDB: StandardIComm over the POSIX console, with standard input and output being pipes, files or broken. */
#include "hcommon.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <try_catch.h>
#include <Console.h>
#include <IComm.h>
#include <StandardIComm.h>
#include <platforms.h>
#include <mriPlatform.h>
#undef malloc
#undef realloc
#undef free

static IComm* g_comm;
static int    g_inWrite = -1, g_outRead = -1;
static char   g_dir[4096];
static unsigned char g_buf[1 << 16];

static void shut(int* fd) { if (*fd >= 0) close(*fd); *fd = -1; }
/* Keep everything else away from descriptors 0 and 1, either of which may be closed. */
static int high(int fd) { int h = fcntl(fd, F_DUPFD, 50); close(fd); return h; }
static void use(int fd, int as) { fd = high(fd); dup2(fd, as); close(fd); }
static void makePipe(int p[2]) { if (pipe(p)) abort(); p[0] = high(p[0]); p[1] = high(p[1]); }
static void setIn(const char* m)
{
    int p[2];
    shut(&g_inWrite);
    if (!strcmp(m, "closed")) { close(0); return; }
    if (!strcmp(m, "dir")) { use(open(g_dir, O_RDONLY | O_DIRECTORY), 0); return; }
    makePipe(p);
    use(p[0], 0);
    fcntl(0, F_SETFL, !strcmp(m, "nowait") ? O_NONBLOCK : 0);
    g_inWrite = p[1];
}
static void setFile(const unsigned char* d, size_t n)
{
    int fd = high(open("data", O_RDWR | O_CREAT | O_TRUNC, 0600));
    shut(&g_inWrite);
    if (fd < 0 || write(fd, d, n) != (ssize_t)n) abort();
    lseek(fd, 0, SEEK_SET);
    use(fd, 0);
}
static void setOut(const char* m)
{
    int p[2];
    shut(&g_outRead);
    if (!strcmp(m, "closed")) { close(1); return; }
    makePipe(p);
    use(p[1], 1);
    g_outRead = p[0];
    fcntl(g_outRead, F_SETFL, O_NONBLOCK);
    if (!strcmp(m, "gone")) shut(&g_outRead);
    if (!strcmp(m, "full"))
    {
        fcntl(1, F_SETFL, O_NONBLOCK);
        while (write(1, g_buf, sizeof(g_buf)) > 0) { }
        while (write(1, g_buf, 1) > 0) { }
    }
}
static int wouldWait(void)
{
    struct pollfd p = { 0, POLLIN, 0 };
    int flags = fcntl(0, F_GETFL);
    return flags >= 0 && !(flags & O_NONBLOCK) && poll(&p, 1, 0) == 0;
}
/* The line as the debug monitor sees it: what it asks of the platform while mriPlatform_Run() runs it. The monitor is entered again and
   again until an error ends the run; once what is asked has been done, the next entry ends it. */
#define END_OF_RUN 9
static const char*  g_asked;
static int          g_askedByte, g_answer, g_entered;
void __wrap___mriDebugException(void)
{
    if (g_entered++) __throw(END_OF_RUN);
    if (!strcmp(g_asked, "phas")) g_answer = Platform_CommHasReceiveData() != 0;
    else if (!strcmp(g_asked, "precv")) g_answer = Platform_CommReceiveChar() & 0xFF;
    else if (!strcmp(g_asked, "psend")) Platform_CommSendChar(g_askedByte);
    else if (!strcmp(g_asked, "pwaiting")) g_answer = Platform_CommIsWaitingForGdbToConnect() != 0;
    else if (!strcmp(g_asked, "pother"))    /* the line is GDB's alone and never interrupts anything; getting ready to wait, or to stop waiting, doesn't touch it */
    {
        g_answer = (Platform_CommCausedInterrupt() != 0) + 2 * (Platform_CommSharingWithApplication() != 0);
        Platform_CommClearInterrupt(); Platform_CommPrepareToWaitForGdbConnection(); Platform_CommWaitForReceiveDataToStop();
    }
}
/* Each run is on another one of two lines which both are the real one; only the one it is run on may be used. */
typedef struct Line { ICommVTable* pVTable; int wrong; } Line;
static Line g_lines[2];
static int  g_turn;
static void used(IComm* p) { if ((Line*)p != &g_lines[g_turn]) ((Line*)p)->wrong = 1; }
static int  lineHas(IComm* p) { used(p); return IComm_HasReceiveData(g_comm); }
static int  lineReceive(IComm* p) { used(p); return IComm_ReceiveChar(g_comm); }
static void lineSend(IComm* p, int c) { used(p); IComm_SendChar(g_comm, c); }
static int  lineStop(IComm* p) { used(p); return IComm_ShouldStopRun(g_comm); }
static int  lineConnected(IComm* p) { used(p); return IComm_IsGdbConnected(g_comm); }
static ICommVTable g_lineVTable = { lineHas, lineReceive, lineSend, lineStop, lineConnected };
static int viaMonitor(const char* what, int byte)
{
    g_asked = what; g_askedByte = byte; g_answer = 0; g_entered = 0;
    g_turn = !g_turn;
    g_lines[0].pVTable = g_lines[1].pVTable = &g_lineVTable;
    g_lines[0].wrong = g_lines[1].wrong = 0;
    mriPlatform_Run((IComm*)&g_lines[g_turn]);
    return -2;                              /* it stopped running */
}
int main(int argc, char** argv)
{
    char line[1 << 15];
    FILE* script = fdopen(fcntl(0, F_DUPFD, 20), "r");
    signal(SIGPIPE, SIG_IGN);
    g_out = fopen(argv[1], "a");
    if (!getcwd(g_dir, sizeof(g_dir))) return 1;
    {   /* keep the report away from descriptors 0 and 1 */
        int fd = fcntl(fileno(g_out), F_DUPFD, 40);
        fclose(g_out);
        g_out = fdopen(fd, "a");
    }
    while (fgets(line, sizeof(line), script))
    {
        char         k[16] = "", m[1 << 14] = "";
        volatile int c = 0, v = 0, left = 0;
        size_t       n = 0;
        unsigned     b = 0;
        volatile int odd = 0;
        size_t       len = 0;
        sscanf(line, "%15s %16000s %x", k, m, &b);
        if (!strcmp(k, "H"))
        {
            h_watchdog();
            clearExceptionCode();
            setIn("open");
            setOut("open");
            g_comm = StandardIComm_Init();
            fprintf(g_out, "{\"ev\":\"H\",\"h\":%d}\n", atoi(line + 2));
            fflush(g_out);
            continue;
        }
        if (!strcmp(k, "put") || !strcmp(k, "file")) n = h_unhex(m, g_buf, sizeof(g_buf));
        if (!strcmp(k, "send") || !strcmp(k, "csend") || !strcmp(k, "psend")) b = (unsigned)strtoul(m, NULL, 16);
        if ((!strcmp(k, "recv") || !strcmp(k, "crecv") || !strcmp(k, "precv")) && wouldWait()) strcpy(k, "wait");
        __try
        {
            if (!strcmp(k, "init")) g_comm = StandardIComm_Init();
            else if (!strcmp(k, "put")) { if (write(g_inWrite, g_buf, n) != (ssize_t)n) abort(); }
            else if (!strcmp(k, "file")) setFile(g_buf, n);
            else if (!strcmp(k, "eof")) shut(&g_inWrite);
            else if (!strcmp(k, "in")) setIn(m);
            else if (!strcmp(k, "out")) setOut(m);
            else if (!strcmp(k, "has")) v = IComm_HasReceiveData(g_comm) != 0;
            else if (!strcmp(k, "connected")) v = IComm_IsGdbConnected(g_comm) != 0;
            else if (!strcmp(k, "stop")) v = IComm_ShouldStopRun(g_comm) != 0;
            else if (!strcmp(k, "recv")) v = IComm_ReceiveChar(g_comm) & 0xFF;
            else if (!strcmp(k, "send")) IComm_SendChar(g_comm, (int)b);
            else if (k[0] == 'p' && strcmp(k, "put") && strcmp(k, "polls")) v = viaMonitor(k, (int)b);
            else if (!strcmp(k, "chas")) v = Console_HasStdInDataToRead() != 0;
            else if (!strcmp(k, "crecv")) v = Console_ReadStdIn() & 0xFF;
            else if (!strcmp(k, "csend")) Console_WriteStdOut((int)b);
            else if (!strcmp(k, "polls")) { unsigned i; for (i = 0 ; i < b ; i++) v += !strcmp(m, "has") ? IComm_HasReceiveData(g_comm) != 0 : !strcmp(m, "stop") ? IComm_ShouldStopRun(g_comm) != 0 : IComm_IsGdbConnected(g_comm) != 0; }
            else if (!strcmp(k, "recvs") || !strcmp(k, "sends"))     /* the bytes d, b times over; v: how many came through, odd: the first that came out otherwise */
            {
                unsigned i;
                size_t j;
                n = 0;
                len = h_unhex(m, g_buf, sizeof(g_buf) / 4);
                for (i = 0 ; i < b && !odd ; i++)
                {
                    unsigned char back[sizeof(g_buf) / 4];
                    if (k[0] == 'r')
                    {
                        if (write(g_inWrite, g_buf, len) != (ssize_t)len) abort();
                        for (j = 0 ; j < len ; j++) { back[j] = (unsigned char)IComm_ReceiveChar(g_comm); v++; }
                    }
                    else
                    {
                        ssize_t got;
                        for (j = 0 ; j < len ; j++) IComm_SendChar(g_comm, g_buf[j]);
                        got = read(g_outRead, back, sizeof(back));
                        if (got != (ssize_t)len) odd = 1;
                        v += got > 0 ? (int)got : 0;
                    }
                    if (memcmp(back, g_buf, len)) odd = 1;
                }
            }
            else if (!strcmp(k, "drain")) { ssize_t r = read(g_outRead, g_buf, sizeof(g_buf)); n = r > 0 ? (size_t)r : 0; }
        }
        __catch
        {
            c = getExceptionCode();
            if (c == END_OF_RUN) { c = 0; v = g_answer; clearExceptionCode(); }
            if (g_lines[0].wrong || g_lines[1].wrong) v = c = -3;
        }
        if (!c) left = getExceptionCode();      /* an error nobody was told about */
        clearExceptionCode();
        jOpen("comm"); jStr("k", k); jInt("c", c); jInt("v", v); jInt("left", left); jInt("b", (int)(b & 0xFF)); jStr("m", k[0] == 'i' || k[0] == 'o' ? m : ""); jBytes("d", g_buf, n);
        if (!strcmp(k, "polls") || !strcmp(k, "recvs") || !strcmp(k, "sends")) { jInt("times", (int)b); jInt("len", (int)len); jInt("odd", odd); jStr("what", m); }
        jClose();
    }
    fflush(g_out);
    _exit(0);
}
