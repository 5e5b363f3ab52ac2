import os
exec(open(os.path.join(V, "tools/seed_src/s_b.py")).read().split("seed(\"c17")[0])
exec(open(os.path.join(V, "tools/seed_src/s_a.py")).read().split("seed(\"c01")[0])

seed("c21-fpu-disabled", "C21", {PLAT: [
("    if (hasFPURegisters())\n        return sizeof(g_targetFpuXML) - 1;", "    if (hasFPURegisters() && isFPUEnabled())\n        return sizeof(g_targetFpuXML) - 1;"),
("    if (hasFPURegisters())\n        return g_targetFpuXML;", "    if (hasFPURegisters() && isFPUEnabled())\n        return g_targetFpuXML;"),
("uint32_t Platform_GetTargetXmlSize(void)\n{", """static int isFPUEnabled(void)
{
    static const uint32_t CPACR = 0xE000ED88;
    volatile uint32_t     coprocessorAccess = 0xF << 20;

    /* The dump might not contain this register. */
    __try
        coprocessorAccess = IMemory_Read32(g_pMemory, CPACR);
    __catch
        coprocessorAccess = 0xF << 20;
    return (coprocessorAccess & (0xF << 20)) != 0;
}

uint32_t Platform_GetTargetXmlSize(void)
{""")]}, "lib", PLAT_HEAD + r'''
int main(void)
{
    static RegisterContext c;
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, 0xE000ED00, 0x90);
    c.flags = CRASH_CATCHER_FLAGS_FLOATING_POINT;
    mriPlatform_Init(&c, m);
    CHECK(strstr(Platform_GetTargetXml(), "fpscr") != NULL);
    CHECK(Platform_GetTargetXmlSize() == strlen(Platform_GetTargetXml()));
    IMemory_Write32(m, 0xE000ED88, 0x00F00000);
    CHECK(strstr(Platform_GetTargetXml(), "fpscr") != NULL);
    return 0;
}
''', "a dump which contains the coprocessor access register, with the floating point unit switched off", "The description leaves out floating point registers which the register block has.")

seed("c19-active-vector", "C19", {PLAT: [
("    return (g_pContext->exceptionPSR & 0xFF);", """    static const uint32_t ICSR = 0xE000ED04;
    volatile uint32_t     exceptionNumber = g_pContext->exceptionPSR & 0xFF;

    /* The interrupt controller knows too, if it was dumped. */
    if (exceptionNumber == 0)
    {
        __try
            exceptionNumber = IMemory_Read32(g_pMemory, ICSR) & 0xFF;
        __catch
            clearExceptionCode();
    }
    return exceptionNumber;""")]}, "exe", '''
g = Gdb("--bin", path("i", bytes(16)), "0", "--dump", path("d", dump(psr=0x01000000, regions=[(0xE000ED00, bytes([0, 0, 0, 0, 5, 0, 0, 0]))])))
r = g.ask("c")
h = Gdb("--bin", path("i", bytes(16)), "0", "--dump", path("d", dump(psr=0x01000000)))
s = h.ask("c")
check(r == s, "stop signal with and without the interrupt control register in the dump: " + r[:3] + " and " + s[:3])
g.close()
h.close()
''', "exception number 0, and a dump which contains the interrupt control and state register", "The signal depends on the memory contents.")

seed("c18-bit-band", "C18", {PLAT: [
("uint8_t Platform_MemRead8(const void* pv)\n{\n    uint8_t retVal = 0;\n    __try\n        retVal = IMemory_Read8(g_pMemory, (uint32_t)(unsigned long)pv);\n    __catch\n        g_memoryFaultEncountered++;\n    return retVal;\n",
 """uint8_t Platform_MemRead8(const void* pv)
{
    uint8_t  retVal = 0;
    uint32_t address = (uint32_t)(unsigned long)pv;
    uint32_t offset = address & 0x01FFFFFF;

    __try
    {
        /* Each word of the bit-band alias stands for one bit of SRAM. */
        if ((address & 0xFE000000) == 0x22000000)
            retVal = (address & 3) ? 0 : (IMemory_Read8(g_pMemory, 0x20000000 + offset / 32) >> (offset / 4 % 8)) & 1;
        else
            retVal = IMemory_Read8(g_pMemory, address);
    }
    __catch
    {
        g_memoryFaultEncountered++;
    }
    return retVal;
""")]}, "lib", PLAT_HEAD + r'''
int main(void)
{
    static RegisterContext c;
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, 0x20000000, 16);
    mriPlatform_Init(&c, m);
    Platform_MemWrite8((void*)0x20000001, 0xFF);
    CHECK(Platform_MemRead8((void*)0x20000001) == 0xFF);
    CHECK(!Platform_WasMemoryFaultEncountered());
    CHECK(Platform_MemRead8((void*)0x22000020) == 0);
    CHECK(Platform_WasMemoryFaultEncountered());
    return 0;
}
''', "a byte is read where the hardware has the bit-band alias of memory which was dumped", "The read does not report a fault.")

seed("c11-mirrored-code", "C11", {MEM: [
("    uint32_t address = *pAddress;\n    MemoryRegion* pCurr = pThis->pHeadRegion;\n", "    /* Bit 27 isn't decoded by the code memory: 0x08000000 and 0 are the same on many devices. */\n    uint32_t address = (*pAddress & 0xFFF80000) == 0x08000000 && !pThis->pHeadRegion->baseAddress ? *pAddress & 0x7FFFF : *pAddress;\n    MemoryRegion* pCurr = pThis->pHeadRegion;\n")]}, "lib", C_HEAD + r"""
int main(void)
{
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0, 64)) == 0);
    CHECK(THROWN(IMemory_Read32(m, 0x3C)) == 0);
    CHECK(THROWN(IMemory_Read32(m, 0x0800003C)) == busErrorException);
    return 0;
}
""", "the first region starts at 0, and its mirror at 0x08000000 is accessed", "The access succeeds instead of raising a bus error.")

seed("c05-name-and-space", "C05", {LOG: [
("        if (0 == strncmp(registers[i].pName, pLine, 15))", "        /* Some versions of GDB pad to other widths. */\n        if (0 == strncmp(registers[i].pName, pLine, strcspn(registers[i].pName, \" \") + 1))")]}, "lib", C_HEAD + r"""
int main(void)
{
    static RegisterContext c;
    IMemory* m = MemorySim_Init();
    FILE* f = fopen("d", "wb");
    fputs("0x20000000:\t0x00000001\nlr             0x8001234\t134222388\nlr is not from the stack 5\n", f);
    fclose(f);
    CHECK(THROWN(GdbLogParse(m, &c, "d")) == 0);
    CHECK(c.R[LR] == 0x8001234);
    return 0;
}
""", "other text which begins with the name of a register and a space", "It replaces the value of the register.")

seed("c24-256-arguments", "C24", {CLI: [
("static void parseArguments(CrashDebugCommandLine* pThis, int volatile argc, const char** volatile argv, ParsePass pass)\n{", "static void parseArguments(CrashDebugCommandLine* pThis, uint8_t volatile argc, const char** volatile argv, ParsePass pass)\n{"),
("static void parseArguments(CrashDebugCommandLine* pThis, int volatile argc, const char** volatile argv, ParsePass pass);", "static void parseArguments(CrashDebugCommandLine* pThis, uint8_t volatile argc, const char** volatile argv, ParsePass pass);")]}, "exe", '''
args = ["--bin", path("i", bytes(range(16))), "0", "--dump", path("d", dump())]
for i in range(64):
    args += ["--alias", hex(0x30000000 + i * 16), "4", "4"]
g = Gdb(*args)
for i in (0, 1, 62, 63):
    r = g.ask("m%x,4" % (0x30000000 + i * 16))
    check(r == "04050607", "alias %d: %s" % (i, r))
g.close()
''', "more than 255 arguments", "Only the first few are looked at.")

seed("c32-16-bit-failure", "C32", {"libmocks/src/FileFailureInject.c": [
("static size_t       g_fwriteFailureReturn;", "static unsigned short g_fwriteFailureReturn;")]}, "mocks", """
#include <stdio.h>
#include <stdlib.h>
#include <FileFailureInject.h>
#include "util.h"
int main(void)
{
    size_t v[] = {0, 1, 70000, (size_t)-1};
    unsigned i;
    for (i = 0; i < 4; i++)
    {
        fwriteFail(v[i]);
        CHECK(hook_fwrite("a", 1, 1, stdout) == v[i]);
        fwriteRestore();
    }
    return 0;
}
""", "a failure value above 65535", "Another value is returned.")
