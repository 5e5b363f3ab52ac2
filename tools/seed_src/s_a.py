SEEDS = []
def seed(id, property, edits, kind, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, kind=kind, demo=demo, needs=needs, breaks=breaks))
DUMP, CLI, ELF = "libCrashDebug/src/CrashCatcherDump.c", "libCrashDebug/src/CrashDebugCommandLine.c", "libCrashDebug/src/ElfLoad.c"
LOG, MEM, PLAT = "libCrashDebug/src/GdbLogParser.c", "libCrashDebug/src/MemorySim.c", "libCrashDebug/src/mriPlatform.c"
COMM = "libCrashDebug/src/StandardIComm.c"

C_HEAD = '''
#include <MemorySim.h>
#include <CrashCatcherDump.h>
#include <CrashDebugCommandLine.h>
#include <ElfLoad.h>
#include <GdbLogParser.h>
#include <CrashCatcher.h>
#include "util.h"
'''

seed("c01-region-over-64k", "C01", {DUMP: [
("""    uint32_t address = pRegion->startAddress;
    uint32_t i;

    MemorySim_CreateRegion(pObject->pMem, pRegion->startAddress, bytesInRegion);
    for (i = 0 ; i < bytesInRegion ; i++)
    {
        uint8_t byte;
        int bytesRead = pObject->read(pObject, &byte, 1);
        if (bytesRead != 1)
            __throw(fileFormatException);
        IMemory_Write8(pObject->pMem, address++, byte);
    }
""",
"""    uint32_t bytesLeft = bytesInRegion;
    uint16_t offset = 0;

    MemorySim_CreateRegion(pObject->pMem, pRegion->startAddress, bytesInRegion);
    while (bytesLeft > 0)
    {
        uint8_t byte;
        int bytesRead = pObject->read(pObject, &byte, 1);
        if (bytesRead != 1)
            __throw(fileFormatException);
        IMemory_Write8(pObject->pMem, pRegion->startAddress + offset, byte);
        offset++;
        bytesLeft--;
    }
""")]}, "lib", C_HEAD + '''
int main(void)
{
    static uint8_t d[84 + 4 + 8 + 70000];
    RegisterContext context;
    IMemory* m = MemorySim_Init();
    uint32_t i, n = 0;
    memcpy(d, "cC\\3\\0", 4); n = 4;
    put32(d + n, 0); n += 4;
    for (i = 0; i < 20; i++, n += 4)
        put32(d + n, i);
    put32(d + n, 0x20000000); n += 4;
    put32(d + n, 0x20000000 + 70000); n += 4;
    for (i = 0; i < 70000; i++)
        d[n++] = i * 7 + (i >> 8);
    writeFile("dump", d, n);
    CHECK(THROWN(CrashCatcherDump_ReadBinary(m, &context, "dump")) == 0);
    for (i = 0; i < 70000; i++)
        CHECK(IMemory_Read8(m, 0x20000000 + i) == (uint8_t)(i * 7 + (i >> 8)));
    return 0;
}
''', "a memory region larger than 64 KB in the dump",
"The bytes beyond the first 64 KB of a region are loaded over its start and the rest stays zero.")

seed("c02-lone-cr", "C02", {DUMP: [
("""    char curr;
    int  result;

    do
    {
        result = fread(&curr, 1, 1, pObject->pFile);
    } while (result == 1 && (curr == '\\r' || curr == '\\n'));
""",
"""    char curr;
    int  result;

    do
    {
        result = fread(&curr, 1, 1, pObject->pFile);
        // Windows line endings: Skip the linefeed which follows the carriage return as well.
        if (result == 1 && curr == '\\r')
        {
            result = fread(&curr, 1, 1, pObject->pFile);
            if (result == 1)
                curr = '\\n';
        }
    } while (result == 1 && curr == '\\n');
""")]}, "lib", C_HEAD + '''
int main(void)
{
    RegisterContext context;
    IMemory* m = MemorySim_Init();
    FILE* f = fopen("dump", "wb");
    uint32_t i;
    fprintf(f, "63430300\\r00000000\\r");
    for (i = 0; i < 20; i++)
        fprintf(f, "%02x000000\\r\\n", i + 1);
    fprintf(f, "00000020\\r08000020\\r0102030405060708\\r");
    fclose(f);
    CHECK(THROWN(CrashCatcherDump_ReadHex(m, &context, "dump")) == 0);
    CHECK(context.R[0] == 1 && context.R[18] == 19 && context.exceptionPSR == 20);
    CHECK(IMemory_Read32(m, 0x20000000) == 0x04030201 && IMemory_Read32(m, 0x20000004) == 0x08070605);
    return 0;
}
''', "a hex dump with a lone carriage return as line break", "The digit after a carriage return which no line feed follows is dropped.")

seed("c03-last-byte-missing", "C03", {DUMP: [
("""        if (bytesRead != 1)
            __throw(fileFormatException);
        IMemory_Write8(pObject->pMem, address++, byte);
""",
"""        if (bytesRead != 1)
        {
            // Some capture tools strip trailing zeroes.
            if (i > 0 && i + 1 == bytesInRegion)
                break;
            __throw(fileFormatException);
        }
        IMemory_Write8(pObject->pMem, address++, byte);
""")]}, "lib", C_HEAD + '''
int main(void)
{
    uint8_t d[200];
    RegisterContext context;
    IMemory* m = MemorySim_Init();
    uint32_t i, n = 0;
    memcpy(d, "cC\\3\\0", 4); n = 4;
    put32(d + n, 0); n += 4;
    for (i = 0; i < 20; i++, n += 4)
        put32(d + n, i);
    put32(d + n, 0x20000000); n += 4;
    put32(d + n, 0x20000010); n += 4;
    for (i = 0; i < 16; i++)
        d[n++] = i;
    writeFile("dump", d, n);
    CHECK(THROWN(CrashCatcherDump_ReadBinary(m, &context, "dump")) == 0);
    for (i = 1; i <= 16; i++)
    {
        writeFile("dump", d, n - i);
        MemorySim_Uninit(m);
        m = MemorySim_Init();
        CHECK(THROWN(CrashCatcherDump_ReadBinary(m, &context, "dump")) == fileFormatException);
    }
    return 0;
}
''', "a dump cut short by exactly one byte, within the body of its last region", "A truncated dump is accepted and its last byte reads as zero.")

seed("c04-region-at-zero", "C04", {LOG: [
("        if (pObject->regionStart != 0xFFFFFFFF)\n            MemorySim_CreateRegion", "        if (pObject->regionStart)\n            MemorySim_CreateRegion"),
("    object.regionStart = 0xFFFFFFFF;\n", "    object.regionStart = 0;\n")]}, "lib", C_HEAD + '''
int main(void)
{
    static const char log[] = "0x00000000:\\t0x20001000\\t0x00000101\\n0x20000000 <a>:\\t0x11111111\\n";
    RegisterContext context;
    IMemory* m = MemorySim_Init();
    memset(&context, 0, sizeof(context));
    writeFile("log", log, sizeof(log) - 1);
    CHECK(THROWN(GdbLogParse(m, &context, "log")) == 0);
    CHECK(IMemory_Read32(m, 0) == 0x20001000 && IMemory_Read32(m, 4) == 0x101);
    CHECK(IMemory_Read32(m, 0x20000000) == 0x11111111);
    return 0;
}
''', "a log with a memory region at address 0 which another region follows", "No region is made for the memory logged at address 0.")

seed("c04-s31", "C04", {LOG: [
("           registerOffset <= offsetof(RegisterContext, FPR[S31]);", "           registerOffset < offsetof(RegisterContext, FPR[S31]);")]}, "lib", C_HEAD + '''
int main(void)
{
    static const char log[] = "s31            1\\t(raw 0x3f800000)\\n";
    RegisterContext context;
    IMemory* m = MemorySim_Init();
    memset(&context, 0, sizeof(context));
    writeFile("log", log, sizeof(log) - 1);
    CHECK(THROWN(GdbLogParse(m, &context, "log")) == 0);
    CHECK(context.FPR[S31] == 0x3f800000 && (context.flags & CRASH_CATCHER_FLAGS_FLOATING_POINT));
    return 0;
}
''', "the last of the floating point registers, s31", "s31 gets the rounded number instead of its raw value.")

seed("c05-register-line-splits-region", "C05", {LOG: [
("""    if (isFloatingPointRegister(pParseResults->registerOffset))
        pObject->pContext->flags |= CRASH_CATCHER_FLAGS_FLOATING_POINT;
""",
"""    if (isFloatingPointRegister(pParseResults->registerOffset))
    {
        pObject->pContext->flags |= CRASH_CATCHER_FLAGS_FLOATING_POINT;
        // A memory listing can't continue after a register listing.
        pObject->nextExpectedAddress = 0xFFFFFFFF;
    }
""")]}, "lib", C_HEAD + '''
int main(void)
{
    static const char log[] = "0x20000000:\\t0x11111111\\t0x22222222\\t0x33333333\\t0x44444444\\n"
                              "s0             1\\t(raw 0x3f800000)\\n"
                              "0x20000010:\\t0x55555555\\t0x66666666\\t0x77777777\\t0x88888888\\n";
    RegisterContext context;
    IMemory* m = MemorySim_Init();
    memset(&context, 0, sizeof(context));
    writeFile("log", log, sizeof(log) - 1);
    CHECK(THROWN(GdbLogParse(m, &context, "log")) == 0);
    CHECK(THROWN(IMemory_Read32(m, 0x2000000E)) == 0);
    CHECK(IMemory_Read32(m, 0x2000000E) == 0x55554444);
    return 0;
}
''', "a floating point register line between two contiguous memory lines", "The memory before and after becomes two regions, and an access across them faults.")

seed("c06-program-headers-over-64k", "C06", {ELF: [
("    Elf32_Off         pgmHeaderOffset;\n", "    Elf32_Half        pgmHeaderOffset;\n")]}, "lib", C_HEAD + '''
#include "ElfPriv.h"
int main(void)
{
    static uint8_t image[0x18000];
    Elf32_Ehdr* h = (Elf32_Ehdr*)image;
    Elf32_Phdr* p = (Elf32_Phdr*)(image + 0x14000);
    IMemory* m = MemorySim_Init();
    memcpy(h->e_ident, "\\177ELF\\1\\1\\1", 7);
    h->e_type = ET_EXEC;
    h->e_phoff = 0x14000;
    h->e_phentsize = sizeof(*p);
    h->e_phnum = 1;
    p->p_type = PT_LOAD;
    p->p_offset = 0x1000;
    p->p_paddr = 0x08000000;
    p->p_filesz = p->p_memsz = 16;
    memcpy(image + 0x1000, "0123456789abcdef", 16);
    CHECK(THROWN(ElfLoad_FromMemory(m, image, sizeof(image))) == 0);
    CHECK(IMemory_Read8(m, 0x08000000) == '0' && IMemory_Read8(m, 0x0800000f) == 'f');
    return 0;
}
''', "program headers which lie beyond the first 64 KB of the file", "The headers are looked for at the offset modulo 64 KB, so the image is refused.")

seed("c07-no-byte-order", "C07", {ELF: [
("    if (pHeader->e_ident[EI_DATA] != ELFDATA2LSB)", "    if (pHeader->e_ident[EI_DATA] > ELFDATA2LSB)")]}, "lib", C_HEAD + '''
#include "ElfPriv.h"
int main(void)
{
    static uint8_t image[0x100];
    Elf32_Ehdr* h = (Elf32_Ehdr*)image;
    Elf32_Phdr* p = (Elf32_Phdr*)(image + 0x40);
    IMemory* m = MemorySim_Init();
    memcpy(h->e_ident, "\\177ELF\\1\\1\\1", 7);
    h->e_type = ET_EXEC;
    h->e_phoff = 0x40;
    h->e_phentsize = sizeof(*p);
    h->e_phnum = 1;
    p->p_type = PT_LOAD;
    p->p_offset = 0x80;
    p->p_paddr = 0x08000000;
    p->p_filesz = p->p_memsz = 16;
    CHECK(THROWN(ElfLoad_FromMemory(m, image, sizeof(image))) == 0);
    MemorySim_Uninit(m);
    m = MemorySim_Init();
    h->e_ident[5] = 0;
    CHECK(THROWN(ElfLoad_FromMemory(m, image, sizeof(image))) == elfFormatException);
    return 0;
}
''', "an image whose byte order field is 0 (none) rather than big endian", "The image is accepted.")

seed("c08-erased-words", "C08", {MEM: [
("""        load32(pMemory, address, *pSrcWord++);
        address += sizeof(uint32_t);
""",
"""        // Nothing to copy for words of FLASH which are still erased.
        if (*pSrcWord != 0xFFFFFFFF)
            load32(pMemory, address, *pSrcWord);
        pSrcWord++;
        address += sizeof(uint32_t);
""")]}, "exe", '''
image = bytes(range(16)) + b"\\xff" * 8 + bytes(range(16, 32))
g = Gdb("--bin", path("i.bin", image), "0x8000", "--dump", path("d", dump()))
r = g.ask("m8000,%x" % len(image))
check(r == image.hex(), "image bytes: " + r)
g.close()
''', "a word of 0xFFFFFFFF in the image", "Erased words of the image read as zero.")

seed("c09-hex-signature", "C09", {CLI: [
("            pHeader[2] == hiNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1) &&\n            pHeader[3] == loNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1));",
 "            pHeader[2] == hiNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1));")]}, "exe", '''
log = b"634 breakpoints hit\\nr0             0x12345678\\t305419896\\n"
g = Gdb("--bin", path("i.bin", bytes(16)), "0", "--dump", path("d", log))
r = g.ask("g")
check(r.startswith("78563412"), "r0: " + r[:8])
g.close()
''', "a GDB log whose first line begins with 634", "The log is taken for a hex dump and refused.")

seed("c10-option-prefix", "C10", {CLI: [
('    if (0 == strcasecmp(*ppArgs, "--bin"))', '    if (0 == strncasecmp(*ppArgs, "--bin", 5))')]}, "exe", '''
i, d = path("i.bin", bytes(16)), path("d", dump())
p = subprocess.run([EXE, "--binary", i, "0", "--dump", d], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
check(p.returncode != 0, "--binary is refused")
check(p.stderr.startswith(b"ERROR: ") and b"--binary" in p.stderr.split(b"\\n")[0], "names the option")
check(p.stdout == b"", "nothing on stdout")
''', "an unknown option which starts with --bin", "The unknown option is taken for --bin.")

seed("c11-top-of-address-space", "C11", {MEM: [
("        if (address >= pCurr->baseAddress && (uint64_t)address + size <= (uint64_t)pCurr->baseAddress + pCurr->size)",
 "        if (address >= pCurr->baseAddress && address + size <= (uint64_t)pCurr->baseAddress + pCurr->size)")]}, "lib", C_HEAD + '''
int main(void)
{
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0xFFFFFF00, 0x80)) == 0);
    CHECK(THROWN(IMemory_Read32(m, 0xFFFFFF7D)) == busErrorException);
    CHECK(THROWN(IMemory_Read32(m, 0xFFFFFFFE)) == busErrorException);
    CHECK(THROWN(IMemory_Write16(m, 0xFFFFFFFF, 1)) == busErrorException);
    return 0;
}
''', "an access which wraps around the end of the address space, with a region below it", "The access is let through and touches memory outside the region.")

seed("c12-alias-end", "C12", {MEM: [
("""        if (address >= pCurr->baseAddress && (uint64_t)address + size <= (uint64_t)pCurr->baseAddress + pCurr->size)
        {
            if (pCurr->isAlias)
            {
                *pAddress = (address - pCurr->baseAddress) + pCurr->redirectAddress;
                return pCurr->pRedirect;
            }
            return pCurr;
        }
""",
"""        if (address >= pCurr->baseAddress && address - pCurr->baseAddress < pCurr->size)
        {
            uint32_t      matched = address;
            MemoryRegion* pMatch = pCurr;
            if (pCurr->isAlias)
            {
                matched = (address - pCurr->baseAddress) + pCurr->redirectAddress;
                pMatch = pCurr->pRedirect;
            }
            if ((uint64_t)matched + size <= (uint64_t)pMatch->baseAddress + pMatch->size)
            {
                *pAddress = matched;
                return pMatch;
            }
        }
""")]}, "lib", C_HEAD + '''
int main(void)
{
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    CHECK(THROWN(MemorySim_CreateAlias(m, 0x20000000, 0x10000008, 16)) == 0);
    CHECK(THROWN(IMemory_Write32(m, 0x2000000c, 0x12345678)) == 0);
    CHECK(IMemory_Read32(m, 0x10000014) == 0x12345678);
    CHECK(THROWN(IMemory_Read32(m, 0x2000000e)) == busErrorException);
    CHECK(THROWN(IMemory_Write16(m, 0x2000000f, 0xffff)) == busErrorException);
    return 0;
}
''', "an access which starts in an alias and ends behind it, where the target region goes on", "The access is let through to memory which the alias does not cover.")

seed("c13-stale-map", "C13", {MEM: [
("""    char*          pMemoryMapXML;
    int            watchpointEncountered;
};
""",
"""    char*          pMemoryMapXML;
    size_t         memoryMapRegionCount;
    int            watchpointEncountered;
};
"""),
("""    allocateMemoryMapXML(pThis, allocSize);
    buffer.pBuffer""",
"""    // Nothing has changed if there are still as many regions as last time.
    if (pThis->pMemoryMapXML && pThis->memoryMapRegionCount == regionCount)
        return pThis->pMemoryMapXML;
    allocateMemoryMapXML(pThis, allocSize);
    pThis->memoryMapRegionCount = regionCount;
    buffer.pBuffer""")]}, "lib", C_HEAD + '''
int main(void)
{
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    CHECK(strstr(MemorySim_GetMemoryMapXML(m), "type=\\"ram\\""));
    CHECK(THROWN(MemorySim_MakeRegionReadOnly(m, 0x10000000)) == 0);
    CHECK(strstr(MemorySim_GetMemoryMapXML(m), "type=\\"flash\\""));
    return 0;
}
''', "asking for the map, making a region read-only, and asking again", "The second map is the first one, with the region still listed as ram.")

seed("c14-same-address-duplicates", "C14", {MEM: [
("    else if (pKey->startAddress < pCurr->startAddress)\n        return -1;", "    else if (pKey->startAddress <= pCurr->startAddress)\n        return -1;")]}, "lib", C_HEAD + '''
int main(void)
{
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    MemorySim_SetHardwareWatchpoint(m, 0x10000010, 4, WATCHPOINT_READ);
    MemorySim_SetHardwareWatchpoint(m, 0x10000010, 4, WATCHPOINT_WRITE);
    MemorySim_SetHardwareWatchpoint(m, 0x10000010, 4, WATCHPOINT_READ);
    MemorySim_ClearHardwareWatchpoint(m, 0x10000010, 4, WATCHPOINT_READ);
    IMemory_Read32(m, 0x10000010);
    CHECK(!MemorySim_WasWatchpointEncountered(m));
    IMemory_Write32(m, 0x10000010, 1);
    CHECK(MemorySim_WasWatchpointEncountered(m));
    MemorySim_ClearHardwareWatchpoint(m, 0x10000010, 4, WATCHPOINT_WRITE);
    IMemory_Write32(m, 0x10000010, 1);
    CHECK(!MemorySim_WasWatchpointEncountered(m));
    return 0;
}
''', "two different watchpoints at the same address, and then setting or clearing the first again", "A watchpoint set twice is kept twice and clearing it leaves one behind, or it can't be cleared.")

seed("c15-16-bit-counts", "C15", {MEM: [
("    uint32_t*            pReadCounts;\n", "    uint16_t*            pReadCounts;\n"),
("    pRegion->pReadCounts = throwingZeroedMalloc(halfWordCount * sizeof(uint32_t));", "    pRegion->pReadCounts = throwingZeroedMalloc(halfWordCount * sizeof(*pRegion->pReadCounts));")]}, "lib", C_HEAD + '''
int main(void)
{
    IMemory* m = MemorySim_Init();
    int i;
    CHECK(THROWN(MemorySim_CreateRegion(m, 0, 64)) == 0);
    MemorySim_MakeRegionReadOnly(m, 0);
    for (i = 0; i < 70000; i++)
        IMemory_Read16(m, 8);
    CHECK(MemorySim_GetFlashReadCount(m, 8) == 70000);
    CHECK(MemorySim_GetFlashReadCount(m, 10) == 0);
    return 0;
}
''', "more than 65535 reads of the same halfword (a delay loop)", "The read count wraps around to 0.")

seed("c16-dangling-tail", "C16", {MEM: [
("        pPrev->pNext = NULL;\n    pThis->pTailRegion = pPrev;\n    freeRegion(pCurr);",
 "    {\n        pPrev->pNext = NULL;\n        pThis->pTailRegion = pPrev;\n    }\n    freeRegion(pCurr);")]}, "lib", C_HEAD + '''
extern void* (*hook_malloc)(size_t);
static int g_count, g_fail;
static void* myMalloc(size_t n) { return ++g_count == g_fail ? NULL : malloc(n); }
int main(void)
{
    uint32_t image[2] = {0x20000100, 0x101};
    for (g_fail = 1; g_fail <= 5; g_fail++)
    {
        IMemory* m = MemorySim_Init();
        g_count = 0;
        hook_malloc = myMalloc;
        CHECK(THROWN(MemorySim_CreateRegionsFromFlashImage(m, image, sizeof(image))) == outOfMemoryException);
        hook_malloc = malloc;
        CHECK(THROWN(IMemory_Read32(m, 0x20000000)) == busErrorException);
        CHECK(THROWN(MemorySim_CreateRegion(m, 0x20000000, 16)) == 0);
        CHECK(THROWN(IMemory_Write32(m, 0x20000000, 5)) == 0);
        CHECK(IMemory_Read32(m, 0x20000000) == 5);
        MemorySim_Uninit(m);
    }
    return 0;
}
''', "running out of memory while the flash is the only region, then creating another region", "The next region is linked behind freed memory and can't be found.")
