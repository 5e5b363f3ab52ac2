import os
exec(open(os.path.join(V, "tools/seed_src/s_a.py")).read().split("seed(\"c01")[0])
exec("PLAT_HEAD = '''" + open(os.path.join(V, "tools/seed_src/s_b.py")).read().split("PLAT_HEAD = '''")[1].split("'''")[0] + "'''")
FFI, SPY, TC = "libmocks/src/FileFailureInject.c", "libmocks/src/printfSpy.c", "include/try_catch.h"
MD = "main/MockDefaults.c"

# A version 3 dump without floating point registers in d, followed by what is added behind it.
DUMP_C = r'''
static uint8_t d[1 << 20];
static uint32_t n;
static void add32(uint32_t v) { put32(d + n, v); n += 4; }
static void header(void)
{
    uint32_t i;
    memcpy(d, "cC\3\0", 4);
    n = 4;
    add32(0);
    for (i = 0; i < 20; i++)
        add32(i);
}
'''

seed("c01-256-regions", "C01", {DUMP: [
("    int eof = FALSE;\n\n    do\n    {\n        eof = readNextMemoryRegion(pObject);\n    } while (!eof);",
 "    uint8_t regionsRead = 0;\n\n    while (!readNextMemoryRegion(pObject))\n    {\n        if (++regionsRead == 0)\n            break;\n    }")]}, "lib", C_HEAD + DUMP_C + r'''
int main(void)
{
    RegisterContext context;
    uint32_t i;
    IMemory* m = MemorySim_Init();
    header();
    for (i = 0; i < 300; i++)
    {
        add32(0x20000000 + i * 16);
        add32(0x20000000 + i * 16 + 1);
        d[n++] = i;
    }
    writeFile("d", d, n);
    CHECK(THROWN(CrashCatcherDump_ReadBinary(m, &context, "d")) == 0);
    for (i = 0; i < 300; i++)
    {
        volatile uint8_t b = 0;
        CHECK(THROWN(b = IMemory_Read8(m, 0x20000000 + i * 16)) == 0);
        CHECK(b == (uint8_t)i);
    }
    return 0;
}
''', "a dump with more than 256 memory regions", "All regions after the 256th are left out without an error.")

seed("c02-zero-digit", "C02", {DUMP: [
("static uint8_t nibbleDigitToVal(char hexDigit)\n{\n", "static uint8_t nibbleDigitToVal(char hexDigit)\n{\n    static const char digits[] = \"0123456789ABCDEFabcdef\";\n    const char* pDigit = memchr(digits, hexDigit, sizeof(digits));\n\n    if (pDigit && (hexDigit < '0' || hexDigit > '9'))\n        return 10 + (pDigit - digits - 10) % 6;\n")]}, "lib", C_HEAD + DUMP_C + r'''
int main(void)
{
    RegisterContext context;
    uint32_t i;
    static char hex[4096];
    IMemory* m = MemorySim_Init();
    header();
    for (i = 0; i < n; i++)
        sprintf(hex + i * 2, "%02x", d[i]);
    writeFile("h", hex, n * 2);
    CHECK(THROWN(CrashCatcherDump_ReadHex(m, &context, "h")) == 0);
    hex[41] = '\0';
    writeFile("h", hex, n * 2);
    CHECK(THROWN(CrashCatcherDump_ReadHex(m, &context, "h")) == fileFormatException);
    return 0;
}
''', "a NUL character where a hex digit belongs", "The terminating NUL of the table of digits counts as a digit, so damaged text is accepted.")

seed("c05-indented-register", "C05", {LOG: [
("    size_t registerOffset = 0;\n    if", "    size_t registerOffset = 0;\n    if (isspace(*pLine) && isalpha(pLine[1]))\n        pLine++;\n    if")]}, "lib", C_HEAD + r'''
int main(void)
{
    static const char log[] = "sp             0x20001000\t0x20001000\n sp             0x1234\t4660\n";
    RegisterContext context;
    IMemory* m = MemorySim_Init();
    memset(&context, 0, sizeof(context));
    writeFile("log", log, sizeof(log) - 1);
    CHECK(THROWN(GdbLogParse(m, &context, "log")) == 0);
    CHECK(context.R[SP] == 0x20001000);
    return 0;
}
''', "other text of which a line begins with a blank followed by a register name in a 15 column field", "The line is taken for a register line.")

seed("c06-entries-8bit", "C06", {ELF: [
("i < pObject->pElfHeader->e_phnum ;", "i < (uint8_t)pObject->pElfHeader->e_phnum ;")]}, "lib", C_HEAD + r'''
int main(void)
{
    enum { N = 258 };
    static uint8_t e[52 + N * 32 + 16];
    uint32_t i, data = 52 + N * 32;
    IMemory* m = MemorySim_Init();
    memcpy(e, "\x7f" "ELF\1\1\1", 7);
    e[16] = 2; e[18] = 40; put32(e + 20, 1);
    put32(e + 28, 52);
    e[40] = 52; e[42] = 32; e[44] = N & 255; e[45] = N >> 8;
    for (i = 0; i < 16; i++)
        e[data + i] = i + 1;
    for (i = 0; i < N; i++)
        put32(e + 52 + i * 32, 4);
    /* The first and the last entry are to be loaded. */
    for (i = 0; i < N; i += N - 1)
    {
        uint8_t* p = e + 52 + i * 32;
        put32(p, 1); put32(p + 4, data); put32(p + 12, i ? 0x1000 : 0); put32(p + 16, 16); put32(p + 20, 16);
    }
    CHECK(THROWN(ElfLoad_FromMemory(m, e, sizeof(e))) == 0);
    CHECK(IMemory_Read32(m, 0) == 0x04030201);
    CHECK(THROWN(IMemory_Read32(m, 0x1000)) == 0);
    return 0;
}
''', "an image with more than 255 program headers", "Only the first (count modulo 256) entries are looked at.")

seed("c09-first-base", "C09", {CLI: [
("        pThis->pBinFilename = ppArgs[0];\n        pThis->baseAddress = strtoul(ppArgs[1], NULL, 0);",
 "        if (!pThis->pBinFilename)\n            pThis->baseAddress = strtoul(ppArgs[1], NULL, 0);\n        pThis->pBinFilename = ppArgs[0];")]}, "lib", C_HEAD + DUMP_C + r'''
int main(void)
{
    const char* args[] = {"--bin", "other", "0x1000", "--dump", "d", "--bin", "i", "0x8000"};
    CrashDebugCommandLine cl;
    header();
    writeFile("d", d, n);
    writeFile("i", "12345678", 8);
    CHECK(THROWN(CrashDebugCommandLine_Init(&cl, 8, args)) == 0);
    CHECK(THROWN(IMemory_Read8(cl.pMemory, 0x1000)) == busErrorException);
    CHECK(THROWN(IMemory_Read8(cl.pMemory, 0x8000)) == 0);
    return 0;
}
''', "a --bin option which overrules an earlier one with another base address", "The file of the later option is loaded at the address of the earlier one.")

seed("c10-name-cut", "C10", {CLI: [
('__throw_msg(fileException, "Failed to open \\"%s\\".", pDumpFilename);', '__throw_msg(fileException, "Failed to open \\"%.*s\\".", 64, pDumpFilename);')]}, "lib", C_HEAD + r'''
int main(void)
{
    char name[200];
    const char* args[] = {"--bin", "i", "0", "--dump", name};
    CrashDebugCommandLine cl;
    volatile int named = 0;
    memset(name, 'n', sizeof(name));
    strcpy(name + 150, "/dump");
    writeFile("i", "12345678", 8);
    freopen("err", "w", stderr);
    __try
    {
        CrashDebugCommandLine_Init(&cl, 5, args);
    }
    __catch
    {
        named = strstr(getExceptionMessage(), name) != NULL;
        clearExceptionCode();
    }
    CHECK(named);
    return 0;
}
''', "a dump file which can't be opened and has a path of more than 64 characters", "The error message names only the first part of the path.")

seed("c12-alias-of-middle", "C12", {MEM: [
("uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);", "uint32_t maxSize = pRedirect->size - (uint16_t)(pRegion->redirectAddress - pRedirect->baseAddress);")]}, "lib", C_HEAD + r'''
int main(void)
{
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, 0x20000000, 0x20010);
    CHECK(THROWN(MemorySim_CreateAlias(m, 0x40000000, 0x20020000, 64)) != 0 || 1);
    CHECK(THROWN(MemorySim_CreateAlias(m, 0x50000000, 0x20010008, 0x20000)) == 0);
    CHECK(THROWN(IMemory_Write8(m, 0x50000000 + 0x10007, 1)) == 0);
    CHECK(THROWN(IMemory_Write8(m, 0x50000000 + 0x10008, 1)) == busErrorException);
    /* What follows the alias in the address space is not hidden by it. */
    CHECK(strstr(MemorySim_GetMemoryMapXML(m), "start=\"0x50000000\" length=\"0x10008\"") != NULL);
    return 0;
}
''', "an alias for the part of a region which lies more than 64 KB from its start, with a size beyond the end of the region", "The alias is not cut at the end of the region.")

seed("c13-over-255", "C13", {MEM: [
("size_t            regionCount = countRegions(pThis);", "uint8_t           regionCount = countRegions(pThis);")]}, "lib", C_HEAD + r'''
int main(void)
{
    IMemory* m = MemorySim_Init();
    int i, count = 0;
    const char* p;
    for (i = 0; i < 300; i++)
        MemorySim_CreateRegion(m, 0x20000000 + i * 16, 4);
    p = MemorySim_GetMemoryMapXML(m);
    CHECK(strstr(p, "</memory-map>"));
    while ((p = strstr(p, "<memory ")) != NULL)
    {
        count++;
        p++;
    }
    CHECK(count == 300);
    return 0;
}
''', "more than 255 memory regions", "The memory map text is written into a buffer which was sized for the number of regions modulo 256.")

seed("c15-slot-16bit", "C15", {MEM: [
("pRegion->pReadCounts[regionOffset / sizeof(uint16_t)]++;", "pRegion->pReadCounts[(uint16_t)(regionOffset / sizeof(uint16_t))]++;")]}, "lib", C_HEAD + r'''
int main(void)
{
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, 0, 0x20100);
    MemorySim_MakeRegionReadOnly(m, 0);
    IMemory_Read16(m, 0x20010);
    CHECK(MemorySim_GetFlashReadCount(m, 0x20010) == 1);
    CHECK(MemorySim_GetFlashReadCount(m, 0x10) == 0);
    return 0;
}
''', "a halfword read 128 KB or more into a flash region", "The read is counted for the halfword 128 KB below.")

seed("c16-vector-table-only", "C16", {MEM: [
("    if (flashImageSize < sizeof(uint32_t))", "    if (flashImageSize <= sizeof(uint32_t))")]}, "lib", C_HEAD + r'''
int main(void)
{
    uint8_t image[4];
    IMemory* m = MemorySim_Init();
    put32(image, 0x10000010);
    CHECK(THROWN(MemorySim_CreateRegionsFromFlashImage(m, image, 4)) == 0);
    CHECK(IMemory_Read32(m, 0) == 0x10000010);
    CHECK(THROWN(IMemory_Write32(m, 0x1000000C, 1)) == 0);
    return 0;
}
''', "an image of exactly four bytes", "It is refused as too short.")

seed("c20-both-address-registers", "C20", {PLAT: [
("            uint32_t busFaultAddressRegister = IMemory_Read32(g_pMemory, BFAR);", "            uint32_t busFaultAddressRegister = IMemory_Read32(g_pMemory, (IMemory_Read32(g_pMemory, CFSR) & 0x80) ? MMFAR : BFAR);")]}, "exe", '''
regs = struct.pack("<5I", 0x8280, 0x40000000, 0, 0x11111110, 0x22222220)
g = Gdb("--bin", path("i.bin", bytes(16)), "0", "--dump", path("d", dump(psr=3, regions=[(0xE000ED28, regs)])))
g.ask("g")
g.ask("c")
check("0x22222220" in g.text and "0x11111110" in g.text, repr(g.text))
g.close()
''', "a hard fault with valid memory management and bus fault addresses", "The memory management fault address is reported as the bus fault address.")

seed("c31-count-stops", "C31", {SPY: [
("    g_callCount++;", "    if (g_callCount < OUTPUT_COUNT * 64)\n        g_callCount++;")]}, "mocks", """
#include <printfSpy.h>
#include "util.h"
#undef printf
#undef fprintf
int main(void)
{
    int i;
    printfSpy_Hook(8);
    for (i = 0; i < 1000; i++)
        hook_printf("%d", i);
    if (printfSpy_GetCallCount() != 1000)
        return 1;
    return 0;
}
""", "more than 256 calls while hooked", "The call count stops.")

seed("c32-read-number", "C32", {FFI: [
("static int          g_freadToFail;", "static signed char  g_freadToFail;")]}, "mocks", r'''
#include <stdio.h>
#include <FileFailureInject.h>
#include "util.h"
int main(void)
{
    FILE* f;
    char c;
    int i;
    writeFile("f", "abcdefgh", 8);
    f = fopen("f", "rb");
    freadFail(0);
    freadToFail(200);
    for (i = 1; i <= 210; i++)
    {
        rewind(f);
        CHECK(hook_fread(&c, 1, 1, f) == (i != 200));
    }
    return 0;
}
''', "failing a read beyond the 127th", "All reads fail from the first one on.")

seed("c03-long-range", "C03", {DUMP: [
("regionOrSentinel.region.startAddress, regionOrSentinel.region.endAddress);", "regionOrSentinel.region.startAddress, regionOrSentinel.region.startAddress + (uint16_t)(regionOrSentinel.region.endAddress - regionOrSentinel.region.startAddress));")]}, "lib", C_HEAD + DUMP_C + """
int main(void)
{
    RegisterContext context;
    IMemory* m = MemorySim_Init();
    volatile int named = 0;
    header();
    add32(0x20000000);
    add32(0x20010010);
    writeFile("d", d, n + 0x10000);
    __try
    {
        CrashCatcherDump_ReadBinary(m, &context, "d");
    }
    __catch
    {
        named = strstr(getExceptionMessage(), "0x20000000 - 0x20010010") != NULL;
        clearExceptionCode();
    }
    CHECK(named);
    return 0;
}
""", "a dump cut inside a memory region of more than 64 KB", "The error message names another end address.")
