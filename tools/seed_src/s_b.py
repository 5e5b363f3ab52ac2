import os
exec(open(os.path.join(V, "tools/seed_src/s_a.py")).read().split("seed(\"c01")[0])

PLAT_HEAD = '''
#include <MemorySim.h>
#include <mriPlatform.h>
#include <platforms.h>
#include <buffer.h>
#include <signal.h>
#include <CrashCatcher.h>
#include "util.h"
'''

seed("c17-other-flags", "C17", {PLAT: [
("    return g_pContext->flags & CRASH_CATCHER_FLAGS_FLOATING_POINT;", "    return g_pContext->flags == CRASH_CATCHER_FLAGS_FLOATING_POINT;")]}, "lib", PLAT_HEAD + '''
int main(void)
{
    static RegisterContext c;
    static char text[1024];
    Buffer b;
    mriPlatform_Init(&c, MemorySim_Init());
    c.flags = CRASH_CATCHER_FLAGS_FLOATING_POINT | 0x80;
    Buffer_Init(&b, text, sizeof(text));
    Platform_CopyContextToBuffer(&b);
    CHECK(sizeof(text) - Buffer_BytesLeft(&b) == 8 * (19 + 33));
    return 0;
}
''', "a context whose flags have another bit set besides the floating point bit", "The floating point registers are left out of the register block.")

seed("c18-256-faults", "C18", {PLAT: [
("static int              g_memoryFaultEncountered;", "static uint8_t          g_memoryFaultEncountered;")]}, "lib", PLAT_HEAD + '''
int main(void)
{
    static RegisterContext c;
    int i;
    IMemory* m = MemorySim_Init();
    mriPlatform_Init(&c, m);
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    Platform_MemWrite32((void*)0x10000000, 0x12345678);
    CHECK(!Platform_WasMemoryFaultEncountered());
    for (i = 0; i < 256; i++)
        Platform_MemRead32((void*)(uintptr_t)(0x20000000 + i));
    CHECK(Platform_WasMemoryFaultEncountered());
    CHECK(!Platform_WasMemoryFaultEncountered());
    return 0;
}
''', "256 (or a multiple of it) faulting accesses before the fault indication is asked for", "The count wraps to 0 and the faults are not reported.")

seed("c19-psr-follows-xpsr", "C19", {PLAT: [
("    readBytesFromBufferAsHex(pBuffer, g_pContext->R, sizeof(g_pContext->R));\n",
 "    readBytesFromBufferAsHex(pBuffer, g_pContext->R, sizeof(g_pContext->R));\n"
 "    // Keep the exception number up to date when user switches to another exception's context.\n"
 "    if (g_pContext->R[XPSR] & 0xFF)\n"
 "        g_pContext->exceptionPSR = (g_pContext->exceptionPSR & ~0xFF) | (g_pContext->R[XPSR] & 0xFF);\n")]}, "exe", '''
g = Gdb("--bin", path("i.bin", bytes(16)), "0", "--dump", path("d", dump(psr=3)))
s = g.ask("?")
check(s[:3] in ("T0b", "S0b"), "stop reason " + s)
r = g.ask("g")
r = r[:16 * 8] + "06000000" + r[17 * 8:]
check(g.ask("G" + r) == "OK", "G")
check(g.ask("g") == r, "registers")
s = g.ask("c")
check(s[:3] in ("T0b", "S0b"), "stop reason after writing XPSR: " + s)
g.close()
''', "the user writes a new XPSR with another exception number in its low byte", "The signal reported afterwards is that of the written XPSR, not that of the crash.")

seed("c20-mmfar-missing", "C20", {PLAT: [
("""            uint32_t memManageFaultAddressRegister = IMemory_Read32(g_pMemory, MMFAR);
            WriteStringToGdbConsole("\\n    Fault Address: ");
            WriteHexValueToGdbConsole(memManageFaultAddressRegister);
        }
        __catch
        {
        }
""",
"""            uint32_t memManageFaultAddressRegister = IMemory_Read32(g_pMemory, MMFAR);
            WriteStringToGdbConsole("\\n    Fault Address: ");
            WriteHexValueToGdbConsole(memManageFaultAddressRegister);
        }
        __catch
        {
            return;
        }
""")]}, "exe", '''
cfsr = struct.pack("<I", 0x82)
g = Gdb("--bin", path("i.bin", bytes(16)), "0", "--dump", path("d", dump(psr=4, regions=[(0xE000ED28, cfsr)])))
g.ask("g")
g.ask("c")
check("MPU Fault" in g.text, "the section: " + repr(g.text))
check("Data Access" in g.text, "the cause: " + repr(g.text))
check("Fault Address" not in g.text, "no address")
g.close()
''', "a dump with the memory management address marked as valid but not captured", "The causes after it are left out of the report.")

seed("c21-psp-msp-fpu", "C21", {PLAT: [
("""    "<reg name=\\"msp\\" bitsize=\\"32\\" regnum=\\"26\\"/>\\n"
    "<reg name=\\"psp\\" bitsize=\\"32\\" regnum=\\"27\\"/>\\n"
    "</feature>\\n"
    "<feature name=\\"org.gnu.gdb.arm.vfp\\">\\n"
""",
"""    "<reg name=\\"psp\\" bitsize=\\"32\\" regnum=\\"27\\"/>\\n"
    "<reg name=\\"msp\\" bitsize=\\"32\\" regnum=\\"26\\"/>\\n"
    "</feature>\\n"
    "<feature name=\\"org.gnu.gdb.arm.vfp\\">\\n"
""")]}, "exe", '''
import re
for fp in (0, 1):
    g = Gdb("--bin", path("i.bin", bytes(16)), "0", "--dump", path("d", dump(flags=fp, fpr=range(33))))
    x = g.xfer("features")
    names = re.findall('reg name="([a-z0-9]+)"', x)
    want = ["r%d" % i for i in range(13)] + ["sp", "lr", "pc", "xpsr", "msp", "psp"]
    if fp:
        want += ["d%d" % i for i in range(16)] + ["fpscr"]
    check(names == want, "order of registers " + str(names))
    check(re.search('name="msp"[^>]*regnum="26"', x) and re.search('name="psp"[^>]*regnum="27"', x), "numbers")
    g.close()
''', "a dump with floating point registers", "MSP and PSP are described in another order than they are sent in.")

seed("c22-breakpoint-forwarded", "C22", {PLAT: [
("""__throws void Platform_SetHardwareBreakpoint(uint32_t address, uint32_t kind)
{
    /* Ignore during post-mortem debugging. */
}
""",
"""__throws void Platform_SetHardwareBreakpoint(uint32_t address, uint32_t kind)
{
    __try
        MemorySim_SetHardwareBreakpoint(g_pMemory, address, kind);
    __catch
        clearExceptionCode();
}
""")]}, "lib", PLAT_HEAD + '''
int main(void)
{
    static RegisterContext c;
    IMemory* m = MemorySim_Init();
    mriPlatform_Init(&c, m);
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    Platform_MemWrite16((void*)0x10000008, 0x1234);
    Platform_SetHardwareBreakpoint(0x10000008, 2);
    CHECK(Platform_MemRead16((void*)0x10000008) == 0x1234);
    CHECK(!Platform_WasMemoryFaultEncountered());
    return 0;
}
''', "a breakpoint request for a mapped address and a later 16-bit read there", "The read faults and shows zero.")

seed("c22-set-pc", "C22", {PLAT: [
("""    /* This is just called when user tries to set new PC value from continue command which we don't really support
       so just ignore this request. */
""",
"""    g_pContext->R[PC] = newPC;
""")]}, "exe", '''
g = Gdb("--bin", path("i.bin", bytes(16)), "0", "--dump", path("d", dump()))
r = g.ask("g")
g.ask("c8000")
check(g.ask("g") == r, "registers after continue at another address")
g.close()
''', "a continue or step request with a new address", "The program counter of the crash is lost.")

seed("c23-failed-read-connects", "C23", {COMM: [
("""    int c = Console_ReadStdIn();
    pThis->hasGdbConnected = TRUE;
    return c;
""",
"""    pThis->hasGdbConnected = TRUE;
    return Console_ReadStdIn();
""")]}, "bare", '''
#include <Console.h>
#include <StandardIComm.h>
#include "util.h"
FILE*  (*hook_fopen)(const char*, const char*) = fopen;
int    (*hook_fclose)(FILE*) = fclose;
size_t (*hook_fread)(void*, size_t, size_t, FILE*) = fread;
int    (*hook_fseek)(FILE*, long, int) = fseek;
long   (*hook_ftell)(FILE*) = ftell;
char*  (*hook_fgets)(char*, int, FILE*) = fgets;
void*  (*hook_malloc)(size_t) = malloc;
void*  (*hook_realloc)(void*, size_t) = realloc;
void   (*hook_free)(void*) = free;
int    (*hook_printf)(const char*, ...) = printf;
int    (*hook_fprintf)(FILE*, const char*, ...) = fprintf;
static int g_fail = 1;
int Console_HasStdInDataToRead(void) { return 0; }
int Console_ReadStdIn(void) { if (g_fail) __throw(fileException); return 'x'; }
void Console_WriteStdOut(int c) { }
int main(void)
{
    IComm* p = StandardIComm_Init();
    CHECK(THROWN(IComm_ReceiveChar(p)) == fileException);
    CHECK(!IComm_IsGdbConnected(p));
    g_fail = 0;
    CHECK(IComm_ReceiveChar(p) == 'x');
    CHECK(IComm_IsGdbConnected(p));
    return 0;
}
''', "a read which fails before any byte was received", "GDB counts as connected although nothing was received.")

seed("c18-unaligned-write", "C18", {PLAT: [
("        IMemory_Write16(g_pMemory, (uint32_t)(unsigned long)pv, value);",
 "    {\n        // Simulated memory is little endian.\n        IMemory_Write8(g_pMemory, (uint32_t)(unsigned long)pv, (uint8_t)value);\n        IMemory_Write8(g_pMemory, ((uint32_t)(unsigned long)pv) | 1, (uint8_t)(value >> 8));\n    }")]}, "lib", PLAT_HEAD + '''
int main(void)
{
    static RegisterContext c;
    IMemory* m = MemorySim_Init();
    mriPlatform_Init(&c, m);
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    Platform_MemWrite16((void*)0x10000008, 0x1234);
    CHECK(Platform_MemRead16((void*)0x10000008) == 0x1234);
    Platform_MemWrite16((void*)0x10000011, 0x5678);
    CHECK(Platform_MemRead16((void*)0x10000011) == 0x5678);
    return 0;
}
''', "a 16-bit write to an odd address (unaligned)", "The high byte of the value is lost.")

seed("c18-sticky-fault", "C18", {PLAT: [
("    int memoryFaultEncountered = g_memoryFaultEncountered;\n    g_memoryFaultEncountered = 0;\n    return memoryFaultEncountered;",
 "    int memoryFaultEncountered = g_memoryFaultEncountered;\n    if (memoryFaultEncountered)\n        g_memoryFaultEncountered--;\n    return memoryFaultEncountered;")]}, "lib", PLAT_HEAD + """
int main(void)
{
    static RegisterContext c;
    mriPlatform_Init(&c, MemorySim_Init());
    Platform_MemRead8((void*)0x10);
    CHECK(Platform_WasMemoryFaultEncountered());
    CHECK(!Platform_WasMemoryFaultEncountered());
    Platform_MemRead8((void*)0x10);
    Platform_MemRead8((void*)0x10);
    CHECK(Platform_WasMemoryFaultEncountered());
    CHECK(!Platform_WasMemoryFaultEncountered());
    return 0;
}
""", "two faulting accesses before the fault indication is asked for", "The fault is reported a second time, for a good access.")

seed("c24-never-ends", "C24", {PLAT: [
("""        __mriDebugException();
    } while""",
"""        // Trouble with one request shouldn't end the session.
        __try
            __mriDebugException();
        __catch
            clearExceptionCode();
    } while""")]}, "exe", """
g = Gdb("--bin", path("i.bin", bytes(16)), "0", "--dump", path("d", dump()))
g.ask("g")
check(g.close(), "ends by itself once GDB is gone")
""", "GDB closing the connection", "The program goes on forever, using a whole processor.")

seed("c25-silent-dump-error", "C25", {"main/main.c": [
("        case fileException:\n        case elfFormatException:\n", "        case fileException:\n        case busErrorException:\n        case elfFormatException:\n")]}, "exe", '''
i, d = path("i.bin", bytes(16)), path("d", dump())
p = subprocess.run([EXE, "--bin", i, "0", "--dump", d, "--alias", "0x30000000", "16", "0x40000000"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
check(p.returncode > 0, "fails")
check(p.stdout == b"", "nothing on stdout")
check(b"Encountered unexpected error: 19" in p.stderr, "number of the error is shown")
''', "an alias to an unmapped address", "The bus error is not reported with its number.")

seed("c26-watchpoint-alloc", "C26", {MEM: [
("""        Watchpoint* pRealloc = realloc(pRegion->pWatchpoints, sizeof(*pRegion->pWatchpoints) * requiredSize);
        if (!pRealloc)
            __throw(outOfMemoryException);
        pRegion->pWatchpoints = pRealloc;
        pRegion->watchpointAlloc = requiredSize;
""",
"""        Watchpoint* pRealloc = NULL;
        pRegion->watchpointAlloc = requiredSize;
        pRealloc = realloc(pRegion->pWatchpoints, sizeof(*pRegion->pWatchpoints) * pRegion->watchpointAlloc);
        if (!pRealloc)
            __throw(outOfMemoryException);
        pRegion->pWatchpoints = pRealloc;
""")]}, "lib", C_HEAD + '''
extern void* (*hook_realloc)(void*, size_t);
static void* failing(void* p, size_t n) { return NULL; }
int main(void)
{
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    MemorySim_SetHardwareWatchpoint(m, 0x10000010, 4, WATCHPOINT_READ);
    hook_realloc = failing;
    CHECK(THROWN(MemorySim_SetHardwareWatchpoint(m, 0x10000020, 4, WATCHPOINT_WRITE)) == outOfMemoryException);
    hook_realloc = realloc;
    CHECK(THROWN(MemorySim_SetHardwareWatchpoint(m, 0x10000020, 4, WATCHPOINT_WRITE)) == 0);
    IMemory_Write32(m, 0x10000020, 1);
    CHECK(MemorySim_WasWatchpointEncountered(m));
    return 0;
}
''', "setting a watchpoint fails for lack of memory and is tried again", "The second attempt writes behind the end of the array.")

seed("c27-short-image", "C27", {CLI: [
("        if ((long)bytesRead != fileSize)\n", "        if (bytesRead == 0)\n")]}, "lib", C_HEAD + '''
#include <unistd.h>
extern size_t (*hook_fread)(void*, size_t, size_t, FILE*);
static size_t shortRead(void* p, size_t s, size_t n, FILE* f) { return fread(p, s, n > 8 ? 8 : n, f); }
int main(void)
{
    static const char log[] = "r0             0x1\\t1\\n";
    const char* args[] = {"--bin", "image", "0", "--dump", "log"};
    CrashDebugCommandLine c;
    writeFile("image", "0123456789abcdef", 16);
    writeFile("log", log, sizeof(log) - 1);
    CHECK(THROWN(CrashDebugCommandLine_Init(&c, 5, args)) == 0);
    CrashDebugCommandLine_Uninit(&c);
    hook_fread = shortRead;
    CHECK(THROWN(CrashDebugCommandLine_Init(&c, 5, args)) == fileException);
    return 0;
}
''', "a read of the image file which comes up short", "The rest of the image is whatever was in the buffer, and nobody is told.")

seed("c28-message-cut", "C28", {"include/try_catch.h": [("extern char              g_exceptionMessage[1024];", "extern char              g_exceptionMessage[256];")],
 "libcommon/src/try_catch.c": [("char              g_exceptionMessage[1024];", "char              g_exceptionMessage[256];")]}, "lib", C_HEAD + '''
static int f(const char* s)
{
    __try
        __throw_msg(fileException, "name %s!", s);
    __catch
    {
        CHECK(getExceptionCode() == fileException);
        clearExceptionCode();
    }
    return 0;
}
int main(void)
{
    char name[400];
    memset(name, 'n', sizeof(name));
    name[sizeof(name) - 1] = 0;
    f(name);
    CHECK(strlen(getExceptionMessage()) == 5 + 399 + 1);
    return 0;
}
''', "a message longer than 255 characters (a long file name)", "The message is cut to 255 characters.")

seed("c29-size-from-position", "C29", {"libcommon/src/common.c": [
("""    int    result = -1;
    long   fileSize = 0;

    result = fseek(pFile, 0, SEEK_END);
    if (result == -1)
        __throw(fileException);

    fileSize = ftell(pFile);
    if (fileSize < 0)
        __throw(fileException);
""",
"""    int    result = -1;
    long   start = ftell(pFile);
    long   end = 0;
    long   fileSize = 0;

    if (start < 0)
        __throw(fileException);
    result = fseek(pFile, 0, SEEK_END);
    if (result == -1)
        __throw(fileException);

    end = ftell(pFile);
    if (end < 0)
        __throw(fileException);
    fileSize = end - start;
""")]}, "lib", C_HEAD + """
#include <common.h>
int main(void)
{
    FILE* f;
    writeFile("f", "0123456789", 10);
    f = fopen("f", "rb");
    CHECK(GetFileSize(f) == 10 && ftell(f) == 0);
    fgetc(f);
    CHECK(GetFileSize(f) == 10 && ftell(f) == 0);
    return 0;
}
""", "a file which is not at its start", "The size is too small by the position the file was at.")

seed("c30-count-over-255", "C30", {"libmocks/src/MallocFailureInject.c": [
("unsigned int   g_allocationToFail = 0;", "unsigned char  g_allocationToFail = 0;")]}, "mocks", """
#include <MallocFailureInject.h>
#include "util.h"
#undef malloc
#undef realloc
int main(void)
{
    int i;
    MallocFailureInject_FailAllocation(300);
    for (i = 1; i <= 310; i++)
    {
        void* p = hook_malloc(4);
        CHECK((p == NULL) == (i == 300));
        free(p);
    }
    return 0;
}
""", "asking for an allocation beyond the 255th to fail", "Another allocation fails instead (the number modulo 256), or none.")

seed("c31-empty-output", "C31", {"libmocks/src/printfSpy.c": [
("    assert (pFile == stdout || pFile == stderr);\n", "    assert (pFile == stdout || pFile == stderr);\n    if (pFormat[0] == '\\0')\n        return 0;\n")]}, "mocks", """
#include <printfSpy.h>
#include "util.h"
#undef printf
#undef fprintf
int main(void)
{
    printfSpy_Hook(32);
    hook_printf("%s", "one");
    hook_printf("");
    if (printfSpy_GetCallCount() != 2 || strcmp(printfSpy_GetLastOutput(), "") || strcmp(printfSpy_GetPreviousOutput(), "one"))
        return 1;
    return 0;
}
""", "printing an empty format string", "The call is neither counted nor recorded, so later queries are off by one.")

seed("c32-fgets-size-1", "C32", {"libmocks/src/FileFailureInject.c": [
("    strncpy(str, *g_ppFgetsCurr++, size);\n    str[size-1] = '\\0';\n",
 "    str[0] = '\\0';\n    strncat(str, *g_ppFgetsCurr++, size > 1 ? size - 1 : size);\n")]}, "mocks", '''
#include <stdio.h>
#include <FileFailureInject.h>
#include "util.h"
int main(void)
{
    static const char* lines[] = {"abc"};
    char* b = malloc(2);
    b[1] = 'z';
    fgetsSetData(lines, 1);
    CHECK(hook_fgets(b, 1, NULL) == b);
    CHECK(b[0] == 0 && b[1] == 'z');
    return 0;
}
''', "reading a line into a buffer of one byte", "Two bytes are written.")

seed("c33-checksum-sign", "C33", {"libCrashDebug/mocks/mockIComm.cpp": [
("            *pDest++ = NibbleToHexChar[EXTRACT_HI_NIBBLE(checksum)];", "            *pDest++ = NibbleToHexChar[EXTRACT_HI_NIBBLE(checksum < 0 && checksum == -128 ? 0 : checksum)];")]}, "icomm", '''
extern "C" {
#include <common.h>
}
#include <stdio.h>
#include "mockIComm.h"
int main(void)
{
    // A packet with a checksum of 0x80.
    const char* p = mockIComm_ChecksumData("$@@#");
    int ok = !strcmp(p, "$@@#80");
    printf("%s\\n", p);
    return !ok;
}
''', "a packet whose checksum is exactly 0x80", "The checksum is written as 00.")
