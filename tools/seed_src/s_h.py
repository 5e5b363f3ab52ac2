import os
exec(open(os.path.join(V, "tools/seed_src/s_b.py")).read().split("seed(\"c17")[0])
exec(open(os.path.join(V, "tools/seed_src/s_a.py")).read().split("seed(\"c01")[0])

seed("c03-cut-after-4-kilobytes", "C03", {DUMP: [
("        if (bytesRead != 1)\n            __throw(fileFormatException);\n        IMemory_Write8",
 """        if (bytesRead == 0 && i != 0 && (i & 0xFFF) == 0)
            return;
        if (bytesRead != 1)
            __throw(fileFormatException);
        IMemory_Write8""")]}, "lib", C_HEAD + r"""
#include <CrashCatcherDump.h>
int main(void)
{
    static RegisterContext c;
    static uint8_t d[4 + 4 + 19 * 4 + 4 + 8 + 8192];
    uint32_t a[2] = {0x20000000, 0x20000000 + 8192};
    size_t cut[] = {1, 100, 4095, 4096, 4097};
    unsigned i;
    memcpy(d, "cC\3\0", 4);
    memcpy(d + 88, a, 8);
    for (i = 0; i < 5; i++)
    {
        IMemory* m = MemorySim_Init();
        FILE* f = fopen("dump", "wb");
        if (!f || fwrite(d, 1, sizeof(d) - cut[i], f) != sizeof(d) - cut[i])
            exit(2);
        fclose(f);
        CHECK(THROWN(CrashCatcherDump_ReadBinary(m, &c, "dump")) == fileFormatException);
        MemorySim_Uninit(m);
    }
    return 0;
}
""", "a dump cut within a memory region, a multiple of 4096 bytes after its start", "The dump is accepted, and the rest of the region reads as zero.")

seed("c26-region-left-over", "C26", {LOG: [
("    ParseObject object;\n", "    static ParseObject object;\n"),
("    object.regionStart = 0xFFFFFFFF;\n    object.regionSize = 0;\n", "    object.regionStart = 0xFFFFFFFF;\n"),
("    if (object.regionSize != 0)\n        MemorySim_CreateRegion(object.pMem, object.regionStart, object.regionSize);\n", "    if (object.regionSize != 0 && passHandler == firstPassHandler)\n        MemorySim_CreateRegion(object.pMem, object.regionStart, object.regionSize);\n    object.regionSize = 0;\n")]}, "bare", C_HEAD + r"""
#include <GdbLogParser.h>
#include <stdarg.h>
static int g_fail;
static void* failingMalloc(size_t n) { return g_fail && --g_fail == 0 ? NULL : malloc(n); }
""" + open(os.path.join(V, "tools/seed_src/s_f.py")).read().split("static void countedFree")[1].split("#undef malloc")[1].split("int main")[0].join(["#undef malloc", ""]).replace("countedMalloc", "failingMalloc").replace("countedRealloc", "realloc").replace("countedFree", "free") + r"""
static void log_(const char* s)
{
    FILE* f = fopen("log", "wb");
    if (!f)
        exit(2);
    fputs(s, f);
    fclose(f);
}
int main(void)
{
    static RegisterContext c;
    IMemory* m = MemorySim_Init();
    log_("0x20000000:\t0x1\t0x2\n0x30000000:\t0x1\t0x2\n");
    g_fail = 1;
    CHECK(THROWN(GdbLogParse(m, &c, "log")) == outOfMemoryException);
    g_fail = 0;
    MemorySim_Uninit(m);
    m = MemorySim_Init();
    log_("r0             0x5      5\n");
    CHECK(THROWN(GdbLogParse(m, &c, "log")) == 0);
    CHECK(c.R[0] == 5);
    CHECK(strstr(MemorySim_GetMemoryMapXML(m), "<memory ") == NULL);
    MemorySim_Uninit(m);
    return 0;
}
""", "running out of memory while loading a GDB log, and then loading one without any memory", "The later log has a region which isn't in it.")

seed("c13-alias-of-itself", "C13", {MEM: [
("        addRegionToTail(pThis, pRegion);\n    }\n    __catch\n    {\n        freeRegion(pRegion);\n        __rethrow;\n    }\n}\n\n\nvoid MemorySim_MakeRegionReadOnly",
 "        /* There is nothing to redirect. */\n        if (aliasAddress == redirectAddress)\n            freeRegion(pRegion);\n        else\n            addRegionToTail(pThis, pRegion);\n    }\n    __catch\n    {\n        freeRegion(pRegion);\n        __rethrow;\n    }\n}\n\n\nvoid MemorySim_MakeRegionReadOnly")]}, "lib", C_HEAD + r"""
int main(void)
{
    IMemory* m = MemorySim_Init();
    const char* p;
    MemorySim_CreateRegion(m, 0x20000000, 64);
    CHECK(THROWN(MemorySim_CreateAlias(m, 0x20000010, 0x20000010, 8)) == 0);
    p = MemorySim_GetMemoryMapXML(m);
    CHECK(strstr(p, "start=\"0x20000010\" length=\"0x8\"") != NULL);
    MemorySim_Uninit(m);
    return 0;
}
""", "an alias of an area of memory to itself", "The alias isn't listed.")

seed("c10-verbose", "C10", {CLI: [
("    else\n        __throw_msg(invalidArgumentException, \"\\\"%s\\\" isn't a valid command line option.\", *ppArgs);",
 "    else if (0 == strcasecmp(*ppArgs, \"--verbose\"))\n        return 1;\n    else\n        __throw_msg(invalidArgumentException, \"\\\"%s\\\" isn't a valid command line option.\", *ppArgs);")]}, "exe", '''
for extra in ("--wordy", "--verbose", "--verbos"):
    p = subprocess.run([EXE, "--bin", path("i", bytes(16)), "0", extra, "--dump", path("d", dump())], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    check(p.stderr.startswith(b"ERROR: ") and extra.encode() in p.stderr, extra + " is reported")
''', "the unknown option --verbose", "It is ignored.")

seed("c14-clear-16-bit-size", "C14", {MEM: [
("static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)\n{", "static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint16_t size, WatchpointType type)\n{"),
("static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type);", "static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint16_t size, WatchpointType type);")]}, "lib", C_HEAD + r"""
int main(void)
{
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, 0x20000000, 0x20000);
    MemorySim_SetHardwareWatchpoint(m, 0x20000000, 4, WATCHPOINT_WRITE);
    CHECK(THROWN(MemorySim_ClearHardwareWatchpoint(m, 0x20000000, 0x10004, WATCHPOINT_WRITE)) == 0);
    IMemory_Write32(m, 0x20000000, 1);
    CHECK(MemorySim_WasWatchpointEncountered(m));
    MemorySim_Uninit(m);
    return 0;
}
""", "clearing a watchpoint of more than 64 KB at the address of another one", "The other one is cleared.")

seed("c17-stop-sp-msp", "C17", {PLAT: [
("    sendRegisterForTResponse(pBuffer, 13, g_pContext->R[13]);", "    /* The version 2 dumps of some boards don't have SP. */\n    sendRegisterForTResponse(pBuffer, 13, g_pContext->R[SP] ? g_pContext->R[SP] : g_pContext->R[MSP]);")]}, "exe", '''
g = Gdb("--bin", path("i", bytes(16)), "0", "--dump", path("d", dump(regs=[1] * 13 + [0, 2, 3, 4, 5, 6])))
r = g.ask("c")
check("0d:00000000;" in r, "SP in the stop report is 0: " + r)
g.close()
''', "a stack pointer of 0", "The stop report has MSP in place of SP.")
