/* Shared support for the conformance harnesses: tracking allocator with fault injection, JSON output, input helpers.
   Only public interfaces of the code under test are used: its headers and the hook_* pointers. */
#ifndef HCOMMON_H_
#define HCOMMON_H_
#include <ctype.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

/* The real functions, captured before any project header redefines the names. */
static void* real_malloc(size_t n)            { return malloc(n); }
static void* real_realloc(void* p, size_t n)  { return realloc(p, n); }
static void  real_free(void* p)               { free(p); }
static FILE* real_fopen(const char* f, const char* m) { return fopen(f, m); }
static int   real_fclose(FILE* f)             { return fclose(f); }
static size_t real_fread(void* p, size_t s, size_t n, FILE* f) { return fread(p, s, n, f); }
static int   real_fseek(FILE* f, long o, int w) { return fseek(f, o, w); }
static long  real_ftell(FILE* f)              { return ftell(f); }
static char* real_fgets(char* b, int n, FILE* f) { return fgets(b, n, f); }
#define UNUSED_FN __attribute__((unused))

extern void* (*hook_malloc)(size_t size);
extern void* (*hook_realloc)(void* ptr, size_t size);
extern void  (*hook_free)(void* ptr);

static FILE* g_out;

/* ---- tracking allocator ------------------------------------------------------------------------------------------ */
#define H_CAP   (64u * 1024 * 1024)   /* larger requests run out of memory, as on a small machine */
#define H_SLOTS 65536
static void*        h_live[H_SLOTS];
static unsigned     h_liveCount, h_badFree, h_allocCount;
static unsigned     h_failAt;          /* fail the h_failAt-th allocation from now (0 = none) */
static int          h_injected;        /* an allocation was refused during the current call */
static int          h_big;             /* ... because it asked for more than there is */

static unsigned h_slot(void* p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % H_SLOTS; }
static int h_find(void* p)
{
    unsigned i = h_slot(p), n;
    for (n = 0 ; n < H_SLOTS ; n++, i = (i + 1) % H_SLOTS)
    {
        if (h_live[i] == p) return (int)i;
        if (h_live[i] == NULL) return -1;
    }
    return -1;
}
#define H_DELETED ((void*)1)
static void h_add(void* p)
{
    unsigned i = h_slot(p);
    while (h_live[i] != NULL && h_live[i] != H_DELETED) i = (i + 1) % H_SLOTS;
    h_live[i] = p;
    h_liveCount++;
}
static int h_refuse(size_t n)
{
    h_allocCount++;
    if (h_failAt && --h_failAt == 0) { h_injected = 1; return 1; }
    if (n > H_CAP) { h_injected = h_big = 1; return 1; }
    return 0;
}
static UNUSED_FN void* h_malloc(size_t n)
{
    void* p;
    if (h_refuse(n)) return NULL;
    p = real_malloc(n ? n : 1);
    if (n < 4096) memset(p, 0xA5, n);
    h_add(p);
    return p;
}
static UNUSED_FN void h_free(void* p)
{
    int i;
    if (!p) return;
    i = h_find(p);
    if (i < 0) { h_badFree++; return; }
    h_live[i] = H_DELETED;
    h_liveCount--;
    real_free(p);
}
static UNUSED_FN void* h_realloc(void* p, size_t n)
{
    void* q;
    int   i;
    if (h_refuse(n)) return NULL;
    if (!p) { q = real_malloc(n ? n : 1); h_add(q); return q; }
    i = h_find(p);
    if (i < 0) { h_badFree++; return NULL; }
    h_live[i] = H_DELETED;
    h_liveCount--;
    q = real_realloc(p, n ? n : 1);
    h_add(q);
    return q;
}
static UNUSED_FN void h_installAllocator(void)
{
    hook_malloc = h_malloc;
    hook_realloc = h_realloc;
    hook_free = h_free;
}
/* Release whatever is still live (after it has been reported) so the next history starts clean. */
static UNUSED_FN void h_resetAllocator(void)
{
    unsigned i;
    for (i = 0 ; i < H_SLOTS ; i++)
    {
        if (h_live[i] && h_live[i] != H_DELETED) real_free(h_live[i]);
        h_live[i] = NULL;
    }
    h_liveCount = h_badFree = h_allocCount = 0;
    h_failAt = 0;
    h_injected = h_big = 0;
}

/* ---- JSON output ------------------------------------------------------------------------------------------------- */
static UNUSED_FN void jWord(const char* k, uint32_t v) { fprintf(g_out, ",\"%s\":[%u,%u]", k, v >> 16, v & 0xFFFF); }
static UNUSED_FN void jInt(const char* k, long v)      { fprintf(g_out, ",\"%s\":%ld", k, v); }
static UNUSED_FN void jBool(const char* k, int v)      { fprintf(g_out, ",\"%s\":%s", k, v ? "true" : "false"); }
static UNUSED_FN void jBytes(const char* k, const void* p, size_t n)
{
    const unsigned char* b = (const unsigned char*)p;
    size_t i;
    fprintf(g_out, ",\"%s\":[", k);
    for (i = 0 ; i < n ; i++) fprintf(g_out, "%s%u", i ? "," : "", b[i]);
    fputc(']', g_out);
}
static UNUSED_FN void jStr(const char* k, const char* s)
{
    fprintf(g_out, ",\"%s\":\"", k);
    for ( ; *s ; s++)
    {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(g_out, "\\%c", c);
        else if (c == '\n') fputs("\\n", g_out);
        else if (c == '\r') fputs("\\r", g_out);
        else if (c == '\t') fputs("\\t", g_out);
        else if (c < 32 || c > 126) fprintf(g_out, "?%02x", c);
        else fputc(c, g_out);
    }
    fputc('"', g_out);
}
static UNUSED_FN void jOpen(const char* ev) { fprintf(g_out, "{\"ev\":\"%s\"", ev); }
static UNUSED_FN void jClose(void)          { fputs("}\n", g_out); }

/* ---- input ------------------------------------------------------------------------------------------------------- */
static int h_nib(int c)
{
    if (c >= '0' && c <= '9') return c - '0';
    c = tolower(c);
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    return -1;
}
/* Decode hex ("-" = empty) into p; returns byte count. */
static UNUSED_FN size_t h_unhex(const char* s, unsigned char* p, size_t max)
{
    size_t n = 0;
    if (*s == '-') return 0;
    while (n < max && h_nib(s[0]) >= 0 && h_nib(s[1]) >= 0) { p[n++] = (unsigned char)(h_nib(s[0]) * 16 + h_nib(s[1])); s += 2; }
    return n;
}

#define H_HANG 97
static UNUSED_FN void h_onAlarm(int s) { (void)s; _exit(H_HANG); }
static UNUSED_FN void h_watchdog(void) { signal(SIGALRM, h_onAlarm); alarm(10); }
#endif
