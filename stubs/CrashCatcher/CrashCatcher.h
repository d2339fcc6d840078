/* Stand-in for CrashCatcher/include/CrashCatcher.h (empty submodule). Values read from the DWARF macro information of
   /repo/bins/lin64/CrashDebug. */
#ifndef _CRASH_CATCHER_H_
#define _CRASH_CATCHER_H_
#include <stdint.h>
#define CRASH_CATCHER_SIGNATURE_BYTE0 'c'
#define CRASH_CATCHER_SIGNATURE_BYTE1 'C'
#define CRASH_CATCHER_VERSION_MAJOR 3
#define CRASH_CATCHER_VERSION_MINOR 0
#define CRASH_CATCHER_FLAGS_FLOATING_POINT (1 << 0)
#define CRASH_CATCHER_STACK_SENTINEL 0xACCE55ED
typedef struct { uint32_t startAddress; uint32_t endAddress; } CrashCatcherMemoryRegionInfo;
#endif
