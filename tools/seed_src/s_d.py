import os
exec(open(os.path.join(V, "tools/seed_src/s_c.py")).read().split("seed(\"c01")[0])

seed("c04-unaligned-lines", "C04", {LOG: [
("    pObject->nextExpectedAddress = pParseResults->address + pParseResults->valueCount * sizeof(uint32_t);",
 "    pObject->nextExpectedAddress = (pParseResults->address & ~3) + pParseResults->valueCount * sizeof(uint32_t);")]}, "lib", C_HEAD + r"""
int main(void)
{
    static const char log[] = "0x20000002:\t0x11111111\t0x22222222\n0x2000000a:\t0x33333333\n";
    RegisterContext context;
    volatile uint32_t v = 0;
    IMemory* m = MemorySim_Init();
    memset(&context, 0, sizeof(context));
    writeFile("log", log, sizeof(log) - 1);
    CHECK(THROWN(GdbLogParse(m, &context, "log")) == 0);
    CHECK(THROWN(v = IMemory_Read32(m, 0x20000006)) == 0 && v == 0x22222222);
    CHECK(THROWN(v = IMemory_Read32(m, 0x2000000a)) == 0 && v == 0x33333333);
    CHECK(THROWN(v = IMemory_Read32(m, 0x20000008)) == 0 && v == 0x33332222);
    return 0;
}
""", "memory words logged at addresses which aren't a multiple of four", "Each line becomes a region of its own, so reads across two lines fault.")

seed("c09-text-like-dump", "C09", {CLI: [
("    return (pHeader[0] == CRASH_CATCHER_SIGNATURE_BYTE0 && pHeader[1] == CRASH_CATCHER_SIGNATURE_BYTE1);",
 "    // The version bytes which follow aren't printable in a binary dump.\n    return (pHeader[0] == CRASH_CATCHER_SIGNATURE_BYTE0 && pHeader[1] == CRASH_CATCHER_SIGNATURE_BYTE1 && pHeader[2] < ' ');")]}, "lib", C_HEAD + r'''
int main(void)
{
    const char* args[] = {"--bin", "i", "0", "--dump", "d"};
    CrashDebugCommandLine cl;
    /* Signature of a binary dump, with a version nobody has ever written. */
    static const char d[] = "cC!\0 and more than a dump header of eighty bytes, in which there is not one line of a GDB log, really";
    writeFile("i", "12345678", 8);
    writeFile("d", d, sizeof(d) - 1);
    freopen("err", "w", stderr);
    CHECK(THROWN(CrashDebugCommandLine_Init(&cl, 5, args)) == fileFormatException);
    return 0;
}
''', "a file which starts like a binary dump and has a version number of 32 or more", "The damaged dump is loaded as an empty GDB log without an error.")

seed("c08-zero-padded-base", "C08", {CLI: [
("        pThis->baseAddress = strtoul(ppArgs[1], NULL, 0);", "        // Zero padded addresses like 00008000 aren't meant to be octal.\n        int isPadded = ppArgs[1][0] == '0' && ppArgs[1][1] == '0';\n        pThis->baseAddress = strtoul(ppArgs[1], NULL, isPadded ? 16 : 0);")]}, "exe", '''
image = bytes(range(64))
g = Gdb("--bin", path("i.bin", image), "000100000", "--dump", path("d", dump()))
r = g.ask("m8000,40")
check(r == image.hex(), "image at octal 100000: " + r)
g.close()
''', "a base address in octal with more than one leading zero", "The image is placed at another address.")

seed("c10-no-dump-two-images", "C10", {CLI: [
("    if (!pThis->pDumpFilename)\n        __throw_msg", "    if (!pThis->pDumpFilename && !(pThis->pElfFilename && pThis->pBinFilename))\n        __throw_msg")]}, "lib", C_HEAD + r'''
int main(void)
{
    const char* args[] = {"--bin", "i", "0", "--elf", "e"};
    CrashDebugCommandLine cl;
    volatile int named = 0;
    writeFile("i", "12345678", 8);
    freopen("err", "w", stderr);
    __try
    {
        CrashDebugCommandLine_Init(&cl, 5, args);
    }
    __catch
    {
        named = getExceptionCode() == invalidArgumentException && strstr(getExceptionMessage(), "--dump") != NULL;
        clearExceptionCode();
    }
    CHECK(named);
    return 0;
}
''', "both kinds of image and no dump on the command line", "The missing dump option is not reported as such.")

seed("c13-length-kept", "C13", {PLAT: [
("    return strlen(MemorySim_GetMemoryMapXML(g_pMemory));",
 "    static uint32_t length;\n    if (!length)\n        length = strlen(MemorySim_GetMemoryMapXML(g_pMemory));\n    return length;")]}, "lib", PLAT_HEAD + r'''
int main(void)
{
    static RegisterContext c;
    IMemory* m = MemorySim_Init();
    mriPlatform_Init(&c, m);
    CHECK(Platform_GetDeviceMemoryMapXmlSize() == strlen(Platform_GetDeviceMemoryMapXml()));
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    CHECK(Platform_GetDeviceMemoryMapXmlSize() == strlen(Platform_GetDeviceMemoryMapXml()));
    return 0;
}
''', "the memory map is asked for, a region is added, and it is asked for again", "GDB is given the length of the old map for the new one.")

seed("c14-hundreds", "C14", {MEM: [
("            sizeof(*pRegion->pWatchpoints) * (pRegion->watchpointCount - i));\n    pRegion->pWatchpoints[i] = watchpoint;",
 "            sizeof(*pRegion->pWatchpoints) * (uint8_t)(pRegion->watchpointCount - i));\n    pRegion->pWatchpoints[i] = watchpoint;")]}, "lib", C_HEAD + r'''
int main(void)
{
    uint32_t i;
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 4096)) == 0);
    for (i = 0; i < 300; i++)
        CHECK(THROWN(MemorySim_SetHardwareWatchpoint(m, 0x10000000 + (299 - i) * 8, 4, WATCHPOINT_WRITE)) == 0);
    for (i = 0; i < 300; i++)
    {
        CHECK(THROWN(IMemory_Write32(m, 0x10000000 + i * 8, i)) == 0);
        CHECK(MemorySim_WasWatchpointEncountered(m));
        CHECK(THROWN(IMemory_Write32(m, 0x10000004 + i * 8, i)) == 0);
        CHECK(!MemorySim_WasWatchpointEncountered(m));
    }
    return 0;
}
''', "setting a watchpoint in front of more than 255 others of the same region", "Watchpoints are lost, and others never set appear.")

seed("c18-fault-of-last-session", "C18", {PLAT: [
("    g_memoryFaultEncountered = FALSE;\n", "")]}, "lib", PLAT_HEAD + r'''
int main(void)
{
    static RegisterContext c;
    IMemory* m = MemorySim_Init();
    mriPlatform_Init(&c, m);
    Platform_MemRead8((void*)0x10);
    mriPlatform_Init(&c, m);
    CHECK(!Platform_WasMemoryFaultEncountered());
    return 0;
}
''', "a session which ends with a fault nobody asked for, and then another one", "The first access of the new session is reported as a fault.")


seed("c22-watchpoint-forwarded", "C22", {PLAT: [
("""__throws void Platform_SetHardwareWatchpoint(uint32_t address, uint32_t size, PlatformWatchpointType type)
{
    /* Ignore during post-mortem debugging. */
}
""",
"""__throws void Platform_SetHardwareWatchpoint(uint32_t address, uint32_t size, PlatformWatchpointType type)
{
    __try
        MemorySim_SetHardwareBreakpoint(g_pMemory, address & ~1, size);
    __catch
        clearExceptionCode();
}
""")]}, "lib", PLAT_HEAD + r'''
int main(void)
{
    static RegisterContext c;
    IMemory* m = MemorySim_Init();
    mriPlatform_Init(&c, m);
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    Platform_MemWrite16((void*)0x10000008, 0x1234);
    Platform_SetHardwareWatchpoint(0x10000008, 4, MRI_PLATFORM_WRITE_WATCHPOINT);
    CHECK(Platform_MemRead16((void*)0x10000008) == 0x1234);
    CHECK(!Platform_WasMemoryFaultEncountered());
    return 0;
}
''', "a watchpoint request for a mapped address and a later 16-bit read inside it", "The read faults and shows zero.")

seed("c25-code-as-status", "C25", {"main/main.c": [
("            fprintf(stderr, \"Encountered unexpected error: %d\\n\", getExceptionCode());\n            break;\n        }\n        returnValue = -1;",
 "            fprintf(stderr, \"Encountered unexpected error: %d\\n\", getExceptionCode());\n            break;\n        }\n        returnValue = getExceptionCode() == fileFormatException ? 0x100 : -1;")]}, "exe", '''
i, d = path("i.bin", bytes(16)), path("d", dump()[:50])
p = subprocess.run([EXE, "--bin", i, "0", "--dump", d], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
check(p.returncode != 0, "fails")
''', "a damaged dump", "The program ends with status 0 (0x100 cut to eight bits).")

seed("c28-outermost-stays", "C28", {TC: [
("            g_pExceptionHandlers = exceptionHandler.pPrevious; \\\n        } while(0); \\",
 "            if (exceptionHandler.pPrevious || g_exceptionCode == noException) \\\n                g_pExceptionHandlers = exceptionHandler.pPrevious; \\\n        } while(0); \\")]}, "lib", C_HEAD + r'''
int main(void)
{
    CHECK(THROWN(__throw(busErrorException)) == busErrorException);
    CHECK(g_pExceptionHandlers == NULL);
    return 0;
}
''', "an exception which the outermost block catches", "The handler of a block which was left stays in force, so the next exception thrown outside of any block jumps into a dead stack frame.")

