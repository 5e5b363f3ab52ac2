From dd160f00c905b1c1762bbf692ed4a20b4aba12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 01/13] fix: GDB log lines with fewer than four words no longer
 add phantom zero words

The line ending after the last value (or text such as GDB's 'Cannot access
memory at address') was parsed as one more word with a value of zero.
---
 libCrashDebug/src/GdbLogParser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ee3abf2..6bfafd4 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -240,6 +240,8 @@ static ParseResults parseMemoryLine(const char* pLine)
     pLine = parseAddress(&results, pLine);
     while (areMoreValuesToParseOnLine(&results, pLine))
         pLine = skipWhitespaceSymbolsAndParseNextValue(&results, pLine);
+    if (results.valueCount == 0)
+        return parseOtherLine(pLine);
     return results;
 }
 
@@ -299,8 +301,13 @@ static const char* skipSymbol(const char* pLine)
 
 static const char* parseValue(ParseResults* pResults, const char* pLine)
 {
-    char* pNext = NULL;
-    pResults->values[pResults->valueCount++] = strtoul(pLine, &pNext, 0);
+    char*    pNext = NULL;
+    uint32_t value = strtoul(pLine, &pNext, 0);
+
+    // Ignore the rest of the line once there are no more values to be found on it.
+    if (pNext == pLine)
+        return pLine + strlen(pLine);
+    pResults->values[pResults->valueCount++] = value;
     return pNext;
 }
 
-- 
2.43.0


From 18e9e75e2cd169788b20d2ac5f42f8ca48db906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 02/13] fix: GDB log symbols containing operators such as -> or
 << no longer hide the words after them

---
 libCrashDebug/src/GdbLogParser.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 6bfafd4..d1f0fbd 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -281,10 +281,20 @@ static const char* skipWhitespace(const char* pLine)
 
 static const char* skipSymbol(const char* pLine)
 {
-    int nestingLevel = 0;
+    int         nestingLevel = 0;
+    const char* pEnd = NULL;
 
     if (*pLine != '<')
         return pLine;
+
+    // The symbol which follows the address ends with ">:". Looking for it doesn't depend on '<' and '>' being balanced,
+    // as they aren't in symbols like "<Class::operator->() const+2>:".
+    for (pEnd = strstr(pLine, ">:") ; pEnd ; pEnd = strstr(pEnd + 1, ">:"))
+    {
+        if (pEnd[2] == '\0' || isspace(pEnd[2]))
+            return pEnd + 2;
+    }
+
     while (*pLine)
     {
         if (*pLine == '<')
-- 
2.43.0


From 8c5cee16fc1083d40918a79865055a75508ad2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 03/13] fix: The rest of an overlong GDB log line is no longer
 parsed as a line of its own

---
 libCrashDebug/src/GdbLogParser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index d1f0fbd..d4aff53 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -179,6 +179,7 @@ static void parseLines(IMemory* pMem,
                        void (*passHandler)(ParseObject*, const ParseResults*))
 {
     ParseObject object;
+    int         isStartOfLine = TRUE;
     object.pMem = pMem;
     object.pContext = pContext;
     object.regionStart = 0xFFFFFFFF;
@@ -187,8 +188,14 @@ static void parseLines(IMemory* pMem,
 
     while (NULL != fgets(object.lineText, sizeof(object.lineText), pLogFile))
     {
-        ParseResults parseResults = parseLine(object.lineText);
-        passHandler(&object, &parseResults);
+        // The rest of a line which was too long for the buffer isn't a line of its own.
+        if (isStartOfLine)
+        {
+            ParseResults parseResults = parseLine(object.lineText);
+            passHandler(&object, &parseResults);
+        }
+        isStartOfLine = strlen(object.lineText) < sizeof(object.lineText) - 1 ||
+                        object.lineText[sizeof(object.lineText) - 2] == '\n';
     }
     if (object.regionSize != 0)
         MemorySim_CreateRegion(object.pMem, object.regionStart, object.regionSize);
-- 
2.43.0


From 7403e83d5e58d3b1775c8938b32c464bf69fb206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 04/13] fix: ELF offset plus size overflowing 32 bits no longer
 defeats the image bounds check

---
 libCrashDebug/src/ElfLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/ElfLoad.c b/libCrashDebug/src/ElfLoad.c
index 4455583..cb1f9cd 100644
--- a/libCrashDebug/src/ElfLoad.c
+++ b/libCrashDebug/src/ElfLoad.c
@@ -70,7 +70,7 @@ static SizedBlob initSizedBlob(const char* pBlob, size_t blobSize)
 
 static const void* fetchSizedByteArray(const SizedBlob* pBlob, uint32_t offset, uint32_t size)
 {
-    if (offset > pBlob->blobSize || (offset + size) > pBlob->blobSize)
+    if (offset > pBlob->blobSize || size > pBlob->blobSize - offset)
         __throw(elfFormatException);
     return (void*)(pBlob->pBlob + offset);
 }
-- 
2.43.0


From 34234c40534242b0f5126b19eea630e96fe1e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 05/13] fix: Alias of an address inside another alias now
 redirects to the memory behind it

---
 libCrashDebug/src/MemorySim.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e10c041..05ad3a5 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -218,6 +218,8 @@ void MemorySim_CreateAlias(IMemory* pMemory, uint32_t aliasAddress, uint32_t red
         pRegion->baseAddress = aliasAddress;
         pRegion->redirectAddress = redirectAddress;
         pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
+        /* The requested address might have been in another alias so use the address to which it was redirected. */
+        pRegion->redirectAddress = redirectAddress;
         uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);
         if (size > maxSize)
             pRegion->size = maxSize;
-- 
2.43.0


From 477f01ff7044eb961db5d5279a5a590607f86e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 06/13] fix: Marking a region read-only twice no longer leaks
 its read counts and failing to mark it leaves it unmarked

---
 libCrashDebug/src/MemorySim.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 05ad3a5..3d64881 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -243,8 +243,10 @@ void MemorySim_MakeRegionReadOnly(IMemory* pMemory, uint32_t baseAddress)
 {
     MemorySim* pThis = (MemorySim*)pMemory;
     MemoryRegion* pRegion = findMatchingRegion(pThis, &baseAddress, 1);
-    pRegion->isReadOnly = 1;
+    if (pRegion->isReadOnly)
+        return;
     allocateReadCountArrayForReadOnlyRegion(pRegion);
+    pRegion->isReadOnly = 1;
 }
 
 static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, uint32_t size)
-- 
2.43.0


From 2fed28d5d5a9a100eb1ae259afeea5287512dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 07/13] fix: Breakpoints and watchpoints which end at the top
 of the address space no longer have an end address of 0

---
 libCrashDebug/src/MemorySim.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 3d64881..75bf09d 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -78,7 +78,7 @@ static void* getDataPointer(MemorySim* pThis, uint32_t address, uint32_t size, A
 static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type);
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress);
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress);
 
 static uint32_t read32(IMemory* pMemory, uint32_t address);
 static uint16_t read16(IMemory* pMemory, uint32_t address);
@@ -93,7 +93,7 @@ struct Watchpoint
 {
     WatchpointType type;
     uint32_t       startAddress;
-    uint32_t       endAddress;
+    uint64_t       endAddress;
 
 };
 
@@ -463,7 +463,7 @@ __throws void MemorySim_SetHardwareBreakpoint(IMemory* pMemory, uint32_t address
 static void setWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -540,7 +540,7 @@ __throws void MemorySim_ClearHardwareBreakpoint(IMemory* pMemory, uint32_t addre
 static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -626,7 +626,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type)
 {
-    uint32_t endAddress = address + size;
+    uint64_t endAddress = (uint64_t)address + size;
     uint32_t i;
 
     for (i = 0 ; i < pRegion->watchpointCount ; i++)
@@ -651,7 +651,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
     }
 }
 
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress)
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress)
 {
     return startAddress >= pWatchpoint->startAddress && endAddress <= pWatchpoint->endAddress;
 }
-- 
2.43.0


From cc7301df2891ee89fcd3c4d93e7326d406281f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 08/13] fix: Invalid hexadecimal digit outside of a memory
 region in a dump is now reported with a message

---
 libCrashDebug/src/CrashCatcherDump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 7baf723..20c81ef 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -306,6 +306,6 @@ static uint8_t nibbleDigitToVal(char hexDigit)
     if (hexDigit >= 'A' && hexDigit <= 'F')
         return hexDigit - 'A' + 10;
 
-    __throw(fileFormatException);
+    __throw_msg(fileFormatException, "The dump file contained an invalid hexadecimal digit.");
     return 0;
 }
-- 
2.43.0


From afe3c62e56fa6b6981f54682e1d9ace3e3b734a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:51 +0000
Subject: [PATCH 09/13] fix: Closing stdin ends the program instead of leaving
 it waiting for GDB forever

---
 main/MockDefaults.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/MockDefaults.c b/main/MockDefaults.c
index c5a29df..22338b1 100644
--- a/main/MockDefaults.c
+++ b/main/MockDefaults.c
@@ -108,7 +108,7 @@ int Console_ReadStdIn()
     char    c = 0;
 
     result = read(STDIN_FILENO, &c, sizeof(c));
-    if (result == -1)
+    if (result != sizeof(c))
         __throw(fileException);
     return c;
 }
-- 
2.43.0


From fd8d926b997ccc5360a3ca67b32a1d2fffef0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 10/13] fix: A dump file which can't be read is reported
 instead of being treated as an empty GDB log

---
 libCrashDebug/src/CrashDebugCommandLine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index 87a74a6..01a73e0 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -330,11 +330,16 @@ static DumpFileType getFileType(const char* pDumpFilename)
 {
     uint8_t fileHeader[4] = { 0, 0, 0, 0 };
 
+    int     hadReadError = FALSE;
+
     FILE*   pFile = fopen(pDumpFilename, "rb");
     if (!pFile)
         __throw_msg(fileException, "Failed to open \"%s\".", pDumpFilename);
     fread(fileHeader, 1, sizeof(fileHeader), pFile);
+    hadReadError = ferror(pFile);
     fclose(pFile);
+    if (hadReadError)
+        __throw_msg(fileException, "Failed to read \"%s\".", pDumpFilename);
 
     if (hasBinaryCrashCatcherSignature(fileHeader))
         return CRASH_CATCHER_BIN;
-- 
2.43.0


From 02eb3ab5f8a64806dc010c89a3b82f68c8e5adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 11/13] fix: A read error between memory regions of a dump is
 reported instead of being treated as its end

---
 libCrashDebug/src/CrashCatcherDump.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 20c81ef..22d63d2 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -188,6 +188,8 @@ static int readNextMemoryRegion(Object* pObject)
     RegionOrSentinel regionOrSentinel;
 
     bytesRead = pObject->read(pObject, &regionOrSentinel, sizeof(regionOrSentinel));
+    if (ferror(pObject->pFile))
+        __throw_msg(fileException, "Failed to read the next memory region from the dump file.");
     if (isStackOverflowSentinelInsteadOfRegionDescription(bytesRead, &regionOrSentinel))
         __throw_msg(stackOverflowException, "The dump file ended with an indication that CrashCatcher detected a stack overflow.");
     else if (bytesRead == 0)
-- 
2.43.0


From 8b52d74adb2e3f9acd237b384fb9d7bf11bb8d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 12/13] fix: Restoring fseek() forgets how many calls were
 still to pass before the failure

---
 libmocks/src/FileFailureInject.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmocks/src/FileFailureInject.c b/libmocks/src/FileFailureInject.c
index 491aa35..3968ac8 100644
--- a/libmocks/src/FileFailureInject.c
+++ b/libmocks/src/FileFailureInject.c
@@ -107,6 +107,7 @@ void fseekSetCallsBeforeFailure(int callCountToAllowBeforeFailing)
 void fseekRestore(void)
 {
     hook_fseek = fseek;
+    g_fseekCallsToPass = 0;
 }
 
 
-- 
2.43.0


From 7f1d9c55908c2fd0ceda1d872a6646cc15988626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 13/13] fix: GDB log memory at address 0 no longer continues a
 region which ends at the top of the address space

---
 libCrashDebug/src/GdbLogParser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index d4aff53..e21bef6 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -140,7 +140,8 @@ static void firstPassHandler(ParseObject* pObject, const ParseResults* pParseRes
 
 static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pParseResults)
 {
-    if (pParseResults->address != pObject->nextExpectedAddress)
+    // Memory at address 0 doesn't continue a region which ends at the top of the address space.
+    if (pParseResults->address != pObject->nextExpectedAddress || pParseResults->address == 0)
     {
         if (pObject->regionStart != 0xFFFFFFFF)
             MemorySim_CreateRegion(pObject->pMem, pObject->regionStart, pObject->regionSize);
-- 
2.43.0

