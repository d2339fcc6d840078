From 0c7897397b7d470e797432ee6d69f55c9ab91e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 01/12] fix: resolve the redirect address of an alias to
 another alias

findMatchingRegion() translates the address when it falls in an existing
alias, but CreateAlias() kept the untranslated address. Accesses through
such an alias then used an offset outside of the region's data.
---
 libCrashDebug/src/MemorySim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e10c041..c8310b5 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -216,8 +216,8 @@ void MemorySim_CreateAlias(IMemory* pMemory, uint32_t aliasAddress, uint32_t red
     {
         pRegion = throwingZeroedMalloc(sizeof(*pRegion));
         pRegion->baseAddress = aliasAddress;
-        pRegion->redirectAddress = redirectAddress;
         pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
+        pRegion->redirectAddress = redirectAddress;
         uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);
         if (size > maxSize)
             pRegion->size = maxSize;
-- 
2.43.0


From d01f28d10cf3c7231d79c72f042c5c4e6ebd90d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 02/12] fix: break/watchpoints ending at the top of the address
 space

The end address of a range which includes 0xFFFFFFFF wraps to 0 so
accesses inside of it were missed.
---
 libCrashDebug/src/MemorySim.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index c8310b5..12aab53 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -649,5 +649,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
 
 static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress)
 {
-    return startAddress >= pWatchpoint->startAddress && endAddress <= pWatchpoint->endAddress;
+    /* Compare distances from the start since the end address of a range at the top of the address space wraps to 0. */
+    return startAddress >= pWatchpoint->startAddress &&
+           endAddress - pWatchpoint->startAddress <= pWatchpoint->endAddress - pWatchpoint->startAddress;
 }
-- 
2.43.0


From 0a96b0b3f332befefd7171677c24e27f384eda12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 03/12] fix: memory map type of an alias created before its
 region is read-only

Writes through such an alias fail but the memory map still told GDB that
it was RAM.
---
 libCrashDebug/src/MemorySim.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 12aab53..3cde9ef 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -404,12 +404,14 @@ static void appendMemoryMapRegions(MemorySim* pThis, SizedBuffer* pBuffer)
 
     while (pCurr)
     {
+        int isReadOnly = pCurr->isAlias ? pCurr->pRedirect->isReadOnly : pCurr->isReadOnly;
+
         bytesUsed = snprintf(pBuffer->pBuffer, pBuffer->size,
                              "<memory type=\"%s\" start=\"0x%X\" length=\"0x%X\">%s</memory>",
-                             pCurr->isReadOnly ? "flash" : "ram",
+                             isReadOnly ? "flash" : "ram",
                              pCurr->baseAddress,
                              pCurr->size,
-                             pCurr->isReadOnly ? " <property name=\"blocksize\">1</property>" : "");
+                             isReadOnly ? " <property name=\"blocksize\">1</property>" : "");
         assert (bytesUsed < (int)pBuffer->size);
         pBuffer->pBuffer += bytesUsed;
         pBuffer->size -= bytesUsed;
-- 
2.43.0


From 4667c6a9d2c5da4945d26a597bc3282d2176c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 04/12] fix: out of memory in MemorySim_MakeRegionReadOnly()

The region was left read-only without its read count array, which
MemorySim_GetFlashReadCount() then dereferenced. Making a region read-only
twice also leaked the first array.
---
 libCrashDebug/src/MemorySim.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 3cde9ef..1e11b2f 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -241,8 +241,8 @@ void MemorySim_MakeRegionReadOnly(IMemory* pMemory, uint32_t baseAddress)
 {
     MemorySim* pThis = (MemorySim*)pMemory;
     MemoryRegion* pRegion = findMatchingRegion(pThis, &baseAddress, 1);
-    pRegion->isReadOnly = 1;
     allocateReadCountArrayForReadOnlyRegion(pRegion);
+    pRegion->isReadOnly = 1;
 }
 
 static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, uint32_t size)
@@ -270,7 +270,9 @@ static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, ui
 static void allocateReadCountArrayForReadOnlyRegion(MemoryRegion* pRegion)
 {
     uint32_t halfWordCount = pRegion->size / sizeof(uint16_t);
-    pRegion->pReadCounts = throwingZeroedMalloc(halfWordCount * sizeof(uint32_t));
+    uint32_t* pReadCounts = throwingZeroedMalloc(halfWordCount * sizeof(uint32_t));
+    free(pRegion->pReadCounts);
+    pRegion->pReadCounts = pReadCounts;
     pRegion->readCounts = halfWordCount;
 }
 
-- 
2.43.0


From eb1c48b9dd5902d69ea1ba03c8d8d8a0e7c7529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 05/12] fix: ELF segment whose file offset plus size wraps 32
 bits

fetchSizedByteArray() added the 32-bit offset and size before comparing
them against the file size, so a segment with a huge size passed the check
and was then read from outside of the file image.
---
 libCrashDebug/src/ElfLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/ElfLoad.c b/libCrashDebug/src/ElfLoad.c
index 4455583..cb1f9cd 100644
--- a/libCrashDebug/src/ElfLoad.c
+++ b/libCrashDebug/src/ElfLoad.c
@@ -70,7 +70,7 @@ static SizedBlob initSizedBlob(const char* pBlob, size_t blobSize)
 
 static const void* fetchSizedByteArray(const SizedBlob* pBlob, uint32_t offset, uint32_t size)
 {
-    if (offset > pBlob->blobSize || (offset + size) > pBlob->blobSize)
+    if (offset > pBlob->blobSize || size > pBlob->blobSize - offset)
         __throw(elfFormatException);
     return (void*)(pBlob->pBlob + offset);
 }
-- 
2.43.0


From 9202769d1fbaaaec6e59665d965f8d3ba0a83119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 06/12] fix: GDB log lines without four values created memory
 not shown in log

A memory line with fewer than 4 words got an extra zero word for the text
left on the line (even just its newline) and lines such as GDB's frame or
"Cannot access memory" lines were turned into words of zeroes.
---
 libCrashDebug/src/GdbLogParser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ee3abf2..f15b819 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -240,6 +240,8 @@ static ParseResults parseMemoryLine(const char* pLine)
     pLine = parseAddress(&results, pLine);
     while (areMoreValuesToParseOnLine(&results, pLine))
         pLine = skipWhitespaceSymbolsAndParseNextValue(&results, pLine);
+    if (results.valueCount == 0)
+        return parseOtherLine(pLine);
     return results;
 }
 
@@ -299,8 +301,12 @@ static const char* skipSymbol(const char* pLine)
 
 static const char* parseValue(ParseResults* pResults, const char* pLine)
 {
-    char* pNext = NULL;
-    pResults->values[pResults->valueCount++] = strtoul(pLine, &pNext, 0);
+    char*    pNext = NULL;
+    uint32_t value = strtoul(pLine, &pNext, 0);
+    // There are no more values on this line if there was no number to convert.
+    if (pNext == pLine)
+        return pLine + strlen(pLine);
+    pResults->values[pResults->valueCount++] = value;
     return pNext;
 }
 
-- 
2.43.0


From 016a92062d2cb111f750e5a4f349dde791220435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 07/12] fix: GDB log with memory at both ends of the address
 space

The line at address 0 was taken as a continuation of the region ending at
0xFFFFFFFF, giving one region which wraps and can't be written.
---
 libCrashDebug/src/GdbLogParser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index f15b819..ed66308 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -140,7 +140,8 @@ static void firstPassHandler(ParseObject* pObject, const ParseResults* pParseRes
 
 static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pParseResults)
 {
-    if (pParseResults->address != pObject->nextExpectedAddress)
+    // A line ending at the top of the address space isn't continued by a line at address 0.
+    if (pParseResults->address != pObject->nextExpectedAddress || pParseResults->address == 0)
     {
         if (pObject->regionStart != 0xFFFFFFFF)
             MemorySim_CreateRegion(pObject->pMem, pObject->regionStart, pObject->regionSize);
-- 
2.43.0


From b4ecf15af1807fd5fa67fb71e87329da0aa76509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 08/12] fix: read errors taken for the end of the dump file

An I/O error while reading the dump (such as for a directory name) was
handled like the end of the file, so the debugger was started with a
partial or all zero crash instead of reporting the error.
---
 libCrashDebug/src/CrashCatcherDump.c      | 2 ++
 libCrashDebug/src/CrashDebugCommandLine.c | 4 ++++
 libCrashDebug/src/GdbLogParser.c          | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 7baf723..d42035b 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -190,6 +190,8 @@ static int readNextMemoryRegion(Object* pObject)
     bytesRead = pObject->read(pObject, &regionOrSentinel, sizeof(regionOrSentinel));
     if (isStackOverflowSentinelInsteadOfRegionDescription(bytesRead, &regionOrSentinel))
         __throw_msg(stackOverflowException, "The dump file ended with an indication that CrashCatcher detected a stack overflow.");
+    else if (bytesRead == 0 && ferror(pObject->pFile))
+        __throw_msg(fileException, "Failed to read the dump file.");
     else if (bytesRead == 0)
         return TRUE;
     else if (bytesRead != sizeof(regionOrSentinel.region))
diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index 87a74a6..0ecf2a7 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -329,12 +329,16 @@ static void loadDumpFile(CrashDebugCommandLine* pThis)
 static DumpFileType getFileType(const char* pDumpFilename)
 {
     uint8_t fileHeader[4] = { 0, 0, 0, 0 };
+    int     readFailed = FALSE;
 
     FILE*   pFile = fopen(pDumpFilename, "rb");
     if (!pFile)
         __throw_msg(fileException, "Failed to open \"%s\".", pDumpFilename);
     fread(fileHeader, 1, sizeof(fileHeader), pFile);
+    readFailed = ferror(pFile);
     fclose(pFile);
+    if (readFailed)
+        __throw_msg(fileException, "Failed to read \"%s\".", pDumpFilename);
 
     if (hasBinaryCrashCatcherSignature(fileHeader))
         return CRASH_CATCHER_BIN;
diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ed66308..b537aa0 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -13,6 +13,7 @@
 #include <common.h>
 #include <CrashCatcher.h>
 #include <ctype.h>
+#include <errno.h>
 #include <GdbLogParser.h>
 #include <FileFailureInject.h>
 #include <stddef.h>
@@ -186,11 +187,16 @@ static void parseLines(IMemory* pMem,
     object.regionSize = 0;
     object.nextExpectedAddress = 0xFFFFFFFF;
 
+    // errno is only set when fgets() ends because of a read error rather than the end of the file.
+    errno = 0;
     while (NULL != fgets(object.lineText, sizeof(object.lineText), pLogFile))
     {
         ParseResults parseResults = parseLine(object.lineText);
         passHandler(&object, &parseResults);
+        errno = 0;
     }
+    if (errno != 0)
+        __throw_msg(fileException, "Failed to read GDB log.");
     if (object.regionSize != 0)
         MemorySim_CreateRegion(object.pMem, object.regionStart, object.regionSize);
 }
-- 
2.43.0


From 34dfcef6ddd17c200b899dcb90a046389db2458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 09/12] fix: empty error message for failures without a
 specific message

Running out of memory for a region of the image or log, a log showing
read-only memory and invalid characters in a hex dump only printed
"ERROR: ".
---
 libCrashDebug/src/CrashCatcherDump.c      |  2 +-
 libCrashDebug/src/CrashDebugCommandLine.c | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index d42035b..2f4e335 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -308,6 +308,6 @@ static uint8_t nibbleDigitToVal(char hexDigit)
     if (hexDigit >= 'A' && hexDigit <= 'F')
         return hexDigit - 'A' + 10;
 
-    __throw(fileFormatException);
+    __throw_msg(fileFormatException, "The hex dump file contained a character which isn't a hexadecimal digit.");
     return 0;
 }
diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index 0ecf2a7..3696d55 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -101,6 +101,7 @@ static int hasHexCrashCatcherSignature(const uint8_t* pHeader);
 static uint8_t hiNibbleDigit(uint8_t byte);
 static uint8_t loNibbleDigit(uint8_t byte);
 static uint8_t nibbleDigit(uint8_t byte);
+static const char* defaultExceptionMessage(int exceptionCode);
 static void displayExceptionMessage(void);
 
 
@@ -377,9 +378,24 @@ static uint8_t nibbleDigit(uint8_t byte)
     return nibbleToHexDigit[byte];
 }
 
+static const char* defaultExceptionMessage(int exceptionCode)
+{
+    switch (exceptionCode)
+    {
+    case outOfMemoryException:
+        return "Ran out of memory.";
+    case busErrorException:
+        return "Failed to write dump contents to memory which is read-only or doesn't exist.";
+    default:
+        return "Encountered unexpected error.";
+    }
+}
+
 static void displayExceptionMessage(void)
 {
     const char* pExceptionMessage = getExceptionMessage();
+    if (pExceptionMessage[0] == '\0')
+        pExceptionMessage = defaultExceptionMessage(getExceptionCode());
     fprintf(stderr, "ERROR: %s\n", pExceptionMessage);
 }
 
-- 
2.43.0


From 10e5186dc251e5f59a1cc7ad0b2018ae3160fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 10/12] fix: end of input taken for an endless stream of NUL
 characters

---
 main/MockDefaults.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/MockDefaults.c b/main/MockDefaults.c
index c5a29df..e2b95f8 100644
--- a/main/MockDefaults.c
+++ b/main/MockDefaults.c
@@ -108,7 +108,7 @@ int Console_ReadStdIn()
     char    c = 0;
 
     result = read(STDIN_FILENO, &c, sizeof(c));
-    if (result == -1)
+    if (result != (ssize_t)sizeof(c))
         __throw(fileException);
     return c;
 }
-- 
2.43.0


From f8ae3602618f4d4a79e498918ea30c6da10b5b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 11/12] fix: memory map document moved while it is being sent

The debug monitor asks for the document and then for its size, and the
latter reallocated the buffer returned by the former.
---
 libCrashDebug/src/MemorySim.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 1e11b2f..a0a1dbe 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -120,6 +120,7 @@ struct MemorySim
     MemoryRegion*  pHeadRegion;
     MemoryRegion*  pTailRegion;
     char*          pMemoryMapXML;
+    size_t         memoryMapXMLSize;
     int            watchpointEncountered;
 };
 
@@ -153,6 +154,7 @@ void MemorySim_Uninit(IMemory* pMemory)
 
     free(pThis->pMemoryMapXML);
     pThis->pMemoryMapXML = NULL;
+    pThis->memoryMapXMLSize = 0;
 }
 
 static void freeRegion(MemoryRegion* pRegion)
@@ -385,10 +387,17 @@ static size_t countRegions(MemorySim* pThis)
 
 static void allocateMemoryMapXML(MemorySim* pThis, size_t allocSize)
 {
-    char* pRealloc = realloc(pThis->pMemoryMapXML, allocSize);
+    char* pRealloc;
+
+    /* The caller may still be using the document returned by an earlier call so don't move it unless it must grow. */
+    if (allocSize <= pThis->memoryMapXMLSize)
+        return;
+
+    pRealloc = realloc(pThis->pMemoryMapXML, allocSize);
     if (!pRealloc)
         __throw(outOfMemoryException);
     pThis->pMemoryMapXML = pRealloc;
+    pThis->memoryMapXMLSize = allocSize;
 }
 
 static void appendMemoryMapXmlHeader(MemorySim* pThis, SizedBuffer* pBuffer)
-- 
2.43.0


From 3e7279a6ee047b096c5cb52f39eccfc9a83ee51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 12/12] fix: fseekRestore forgets the calls that were still to
 pass

A later fseekSetReturn() otherwise lets calls through that were asked for by an
injection that had been restored already.
---
 libmocks/src/FileFailureInject.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmocks/src/FileFailureInject.c b/libmocks/src/FileFailureInject.c
index 491aa35..3968ac8 100644
--- a/libmocks/src/FileFailureInject.c
+++ b/libmocks/src/FileFailureInject.c
@@ -107,6 +107,7 @@ void fseekSetCallsBeforeFailure(int callCountToAllowBeforeFailing)
 void fseekRestore(void)
 {
     hook_fseek = fseek;
+    g_fseekCallsToPass = 0;
 }
 
 
-- 
2.43.0

