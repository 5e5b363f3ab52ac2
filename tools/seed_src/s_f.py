import os
exec(open(os.path.join(V, "tools/seed_src/s_b.py")).read().split("seed(\"c17")[0])
exec(open(os.path.join(V, "tools/seed_src/s_a.py")).read().split("seed(\"c01")[0])
COMMON = "libcommon/src/common.c"

seed("c07-core-type", "C07", {ELF: [
("    if (pHeader->e_type != ET_EXEC)", "    /* Images of stopped programs can be loaded too. */\n    if (pHeader->e_type != ET_EXEC && pHeader->e_type != 4)")]}, "lib", C_HEAD + r"""
int main(void)
{
    static uint8_t image[52 + 32 + 16];
    IMemory* m = MemorySim_Init();
    memcpy(image, "\x7f" "ELF\1\1\1", 7);
    image[16] = 4; image[18] = 40; image[20] = 1;
    put32(image + 28, 52);
    image[40] = 52; image[42] = 32; image[44] = 1;
    put32(image + 52, 1); put32(image + 56, 84); put32(image + 60, 0x8000); put32(image + 64, 0x8000);
    put32(image + 68, 16); put32(image + 72, 16);
    CHECK(THROWN(ElfLoad_FromMemory(m, image, sizeof(image))) == elfFormatException);
    image[16] = 2;
    CHECK(THROWN(ElfLoad_FromMemory(m, image, sizeof(image))) == 0);
    return 0;
}
""", "an image whose type is core rather than executable", "The image is loaded as if it were an executable.")

seed("c11-region-of-last-access", "C11", {MEM: [
("    char*          pMemoryMapXML;\n", "    char*          pMemoryMapXML;\n    MemoryRegion*  pLastAccessed;\n"),
("    uint32_t address = *pAddress;\n    MemoryRegion* pCurr = pThis->pHeadRegion;\n\n    while (pCurr)",
 "    uint32_t address = *pAddress;\n    MemoryRegion* pCurr = pThis->pLastAccessed;\n\n    /* Most accesses are to the same region as the one before. */\n    if (pCurr && address - pCurr->baseAddress + 1 < pCurr->size)\n        return pCurr;\n\n    pCurr = pThis->pHeadRegion;\n    while (pCurr)"),
("            return pCurr;\n        }\n        pCurr = pNext;", "            pThis->pLastAccessed = pCurr;\n            return pCurr;\n        }\n        pCurr = pNext;"),
("    pThis->pTailRegion = pPrev;\n", "    pThis->pTailRegion = pPrev;\n    pThis->pLastAccessed = NULL;\n")]}, "lib", C_HEAD + r"""
int main(void)
{
    int i;
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    for (i = 0; i < 2; i++)
    {
        CHECK(THROWN(IMemory_Read32(m, 0x1000003d)) == busErrorException);
        CHECK(THROWN(IMemory_Read8(m, 0x1000003f)) == 0);
    }
    return 0;
}
""", "an access which straddles the end of the region which was accessed before it", "It goes beyond the end of the region instead of raising a bus error.")

seed("c19-interrupts-over-127", "C19", {PLAT: [
("    return (g_pContext->exceptionPSR & 0xFF);", "    return (g_pContext->exceptionPSR & 0x7F);")]}, "exe", '''
g = Gdb("--bin", path("i", bytes(16)), "0", "--dump", path("d", dump(psr=0x83)))
r = g.ask("c")
check(r[:3] in ("T11", "T13", "S11", "S13"), "stop signal of external interrupt 115: " + r)
g.close()
''', "a crash in an external interrupt numbered 112 or more whose exception number less 128 is one of the faults", "The stop is reported with the signal of that fault.")

seed("c24-256-stops", "C24", {PLAT: [
("    g_pComm = pComm;\n    do\n    {\n        __mriDebugException();\n    } while (!IComm_ShouldStopRun(pComm));",
 "    uint8_t stops = 0;\n\n    /* A script which resumes over and over again would never end. */\n    g_pComm = pComm;\n    do\n    {\n        __mriDebugException();\n        stops++;\n    } while (stops && !IComm_ShouldStopRun(pComm));")]}, "exe", '''
g = Gdb("--bin", path("i", bytes(range(16))), "0", "--dump", path("d", dump()))
first = None
for i in range(300):
    r = g.ask("c")
    first = first or r
    check(r == first, "stop %d: %s" % (i, r))
check(g.ask("m0,4") == "00010203", "memory")
g.close()
''', "256 resume requests in one session", "The program ends the session.")

seed("c26-map-lost", "C26", {MEM: [
("    char* pRealloc = realloc(pThis->pMemoryMapXML, allocSize);\n    if (!pRealloc)\n        __throw(outOfMemoryException);\n    pThis->pMemoryMapXML = pRealloc;\n",
 "    pThis->pMemoryMapXML = realloc(pThis->pMemoryMapXML, allocSize);\n    if (!pThis->pMemoryMapXML)\n        __throw(outOfMemoryException);\n")]}, "bare", C_HEAD + r"""
#include <stdarg.h>
static int g_live, g_fail;
static void* countedMalloc(size_t n) { g_live++; return malloc(n); }
static void* countedRealloc(void* p, size_t n) { if (g_fail) return NULL; if (!p) g_live++; return realloc(p, n); }
static void countedFree(void* p) { if (p) g_live--; free(p); }
#undef malloc
#undef realloc
#undef free
FILE*  (*hook_fopen)(const char*, const char*) = fopen;
int    (*hook_fclose)(FILE*) = fclose;
size_t (*hook_fread)(void*, size_t, size_t, FILE*) = fread;
int    (*hook_fseek)(FILE*, long, int) = fseek;
long   (*hook_ftell)(FILE*) = ftell;
char*  (*hook_fgets)(char*, int, FILE*) = fgets;
void*  (*hook_malloc)(size_t) = countedMalloc;
void*  (*hook_realloc)(void*, size_t) = countedRealloc;
void   (*hook_free)(void*) = countedFree;
int    (*hook_printf)(const char*, ...) = printf;
int    (*hook_fprintf)(FILE*, const char*, ...) = fprintf;
int  Console_HasStdInDataToRead() { return 0; }
int  Console_ReadStdIn() { return 0; }
void Console_WriteStdOut(int c) { }
int main(void)
{
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    CHECK(THROWN(MemorySim_GetMemoryMapXML(m)) == 0);
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x20000000, 64)) == 0);
    g_fail = 1;
    CHECK(THROWN(MemorySim_GetMemoryMapXML(m)) == outOfMemoryException);
    g_fail = 0;
    MemorySim_Uninit(m);
    CHECK(g_live == 0);
    return 0;
}
""", "the memory map is asked for again while memory is short", "The document of the earlier request is lost and never freed.")

seed("c29-over-2-gigabytes", "C29", {COMMON: [
("    long   fileSize = 0;\n", "    int    fileSize = 0;\n")]}, "lib", C_HEAD + r"""
#include <common.h>
#include <unistd.h>
int main(void)
{
    volatile long n = 0;
    FILE* f = fopen("big", "w+");
    if (!f || ftruncate(fileno(f), 3000000000L))
        exit(2);
    CHECK(THROWN(n = GetFileSize(f)) == 0);
    CHECK(n == 3000000000L);
    fclose(f);
    return 0;
}
""", "a file of 2 GB or more", "The size is reported as an error.")

seed("c22-breakpoint-units", "C22", {PLAT: [
("__throws void Platform_SetHardwareBreakpoint(uint32_t address, uint32_t kind)\n{\n    /* Ignore during post-mortem debugging. */\n}",
 "static uint32_t g_breakpoints[8];\nstatic uint32_t g_breakpointCount;\n\n__throws void Platform_SetHardwareBreakpoint(uint32_t address, uint32_t kind)\n{\n    uint32_t i;\n\n    for (i = 0 ; i < g_breakpointCount ; i++)\n    {\n        if (g_breakpoints[i] == address)\n            return;\n    }\n    if (g_breakpointCount >= sizeof(g_breakpoints) / sizeof(g_breakpoints[0]))\n        __throw(outOfMemoryException);\n    g_breakpoints[g_breakpointCount++] = address;\n}"),
("__throws void Platform_ClearHardwareBreakpoint(uint32_t address, uint32_t kind)\n{\n    /* Ignore during post-mortem debugging. */\n}",
 "__throws void Platform_ClearHardwareBreakpoint(uint32_t address, uint32_t kind)\n{\n    uint32_t i;\n\n    for (i = 0 ; i < g_breakpointCount ; i++)\n    {\n        if (g_breakpoints[i] == address)\n            g_breakpoints[i--] = g_breakpoints[--g_breakpointCount];\n    }\n}")]}, "lib", PLAT_HEAD + r'''
int main(void)
{
    static RegisterContext c;
    uint32_t i;
    mriPlatform_Init(&c, MemorySim_Init());
    for (i = 0; i < 100; i++)
        CHECK(THROWN(Platform_SetHardwareBreakpoint(0x1000 + 2 * i, 2)) == 0);
    return 0;
}
''', "more than eight breakpoints set at the same time", "Setting the ninth breakpoint raises an exception.")
