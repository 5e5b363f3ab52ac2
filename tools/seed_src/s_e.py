import os
exec(open(os.path.join(V, "tools/seed_src/s_b.py")).read().split("seed(\"c17")[0])
exec(open(os.path.join(V, "tools/seed_src/s_a.py")).read().split("seed(\"c01")[0])
MD = "main/MockDefaults.c"

seed("c23-cr-to-lf", "C23", {MD: [("""        __throw(fileException);
    return c;
}

void Console_WriteStdOut(int character)
{
    ssize_t result = -1;""", """        __throw(fileException);
    /* Terminals end lines with a carriage return. */
    return c == '\\r' ? '\\n' : c;
}

void Console_WriteStdOut(int character)
{
    ssize_t result = -1;""")]}, "lib", C_HEAD + r"""
#include <StandardIComm.h>
#include <unistd.h>
int main(void)
{
    static const unsigned char sent[] = "$X20000000,3:a\r\n#00\r";
    int p[2];
    unsigned i;
    IComm* c = StandardIComm_Init();
    if (pipe(p) || dup2(p[0], 0) < 0 || write(p[1], sent, sizeof(sent)) != sizeof(sent))
        exit(2);
    for (i = 0; i < sizeof(sent); i++)
    {
        volatile int v = -1;
        CHECK(IComm_HasReceiveData(c));
        CHECK(THROWN(v = IComm_ReceiveChar(c)) == 0);
        CHECK((v & 0xFF) == sent[i]);
    }
    return 0;
}
""", "GDB sends a carriage return (in the binary data of a packet, say)", "Another byte is received.")

seed("c23-end-read-as-zero", "C23", {MD: [("""    result = read(STDIN_FILENO, &c, sizeof(c));
    if (result != sizeof(c))""", """    result = read(STDIN_FILENO, &c, sizeof(c));
    if (result == -1)""")]}, "lib", C_HEAD + r"""
#include <StandardIComm.h>
#include <unistd.h>
int main(void)
{
    int p[2];
    volatile int v = -1;
    IComm* c = StandardIComm_Init();
    if (pipe(p) || dup2(p[0], 0) < 0 || write(p[1], "+", 1) != 1)
        exit(2);
    CHECK(THROWN(v = IComm_ReceiveChar(c)) == 0 && v == '+');
    close(p[1]);
    CHECK(THROWN(v = IComm_ReceiveChar(c)) == fileException);
    CHECK(THROWN(v = IComm_ReceiveChar(c)) == fileException);
    return 0;
}
""", "the input ends", "Zero bytes are received, without end, where the read should fail.")

seed("c06-whole-words-of-file", "C06", {CLI: [
("            ElfLoad_FromMemory(pThis->pMemory, fileData.pData, fileData.dataSize);",
 "            /* Everything in an ELF file is word aligned. */\n            ElfLoad_FromMemory(pThis->pMemory, fileData.pData, fileData.dataSize & ~(sizeof(uint32_t) - 1));")]}, "exe", '''
import struct
data = bytes(range(1, 46))
elf = b"\\x7fELF\\x01\\x01\\x01" + bytes(9) + struct.pack("<HHIIIIIHHHHHH", 2, 40, 1, 0x8000, 52, 0, 0, 52, 32, 1, 0, 0, 0)
elf += struct.pack("<8I", 1, 84, 0x8000, 0x8000, len(data), len(data), 5, 4) + data
g = Gdb("--elf", path("i.elf", elf), "--dump", path("d", dump()))
r = g.ask("m8000,2d")
check(r == data.hex(), "image: " + r)
g.close()
''', "an ELF file which ends, with its last segment, somewhere inside a word", "The file is refused.")

seed("c01-process-stack", "C01", {CLI: [
("        CrashCatcherDump_ReadBinary(pThis->pMemory, &pThis->context, pThis->pDumpFilename);",
 "        CrashCatcherDump_ReadBinary(pThis->pMemory, &pThis->context, pThis->pDumpFilename);\n        /* Exception came from a thread so it is the process stack which counts. */\n        if (pThis->context.R[LR] == 0xFFFFFFFD)\n            pThis->context.R[SP] = pThis->context.R[PSP];")]}, "exe", '''
regs = list(range(0x100, 0x113))
regs[14] = 0xFFFFFFFD
g = Gdb("--bin", path("i", bytes(16)), "0", "--dump", path("d", dump(regs)))
r = g.ask("g")
check(r[13 * 8:14 * 8] == struct.pack("<I", regs[13]).hex(), "sp: " + r)
g.close()
''', "a binary dump whose LR is EXC_RETURN for thread mode with the process stack", "SP isn't what the dump says.")

seed("c02-other-version-as-log", "C02", {CLI: [
("            pHeader[3] == loNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1));",
 "            pHeader[3] == loNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1) && pHeader[4] == '0');"),
("uint8_t fileHeader[4] = { 0, 0, 0, 0 };", "uint8_t fileHeader[5] = { 0, 0, 0, 0, 0 };")]}, "exe", '''
h = dump(regions=[(0x20000000, b"12345678")]).hex().upper()
text = h[:4] + "\\r\\n" + h[4:40] + "\\r\\n" + h[40:] + "\\r\\n"
g = Gdb("--bin", path("i", bytes(16)), "0", "--dump", path("d", text.encode()))
r = g.ask("m20000000,8")
check(r == b"12345678".hex(), "memory of the dump: " + r)
g.close()
''', "a hexadecimal dump broken into lines right behind its two signature bytes", "The dump is taken for a GDB log, in which there is nothing.")

seed("c09-blank-lines-first", "C09", {CLI: [
("    fread(fileHeader, 1, sizeof(fileHeader), pFile);",
 "    /* Terminal programs like to leave empty lines in front of what they capture. */\n    do\n    {\n        fileHeader[0] = 0;\n        if (fread(fileHeader, 1, 1, pFile) != 1)\n            break;\n    } while (fileHeader[0] == '\\n');\n    fread(fileHeader + 1, 1, sizeof(fileHeader) - 1, pFile);")]}, "exe", '''
log = "\\n63430300\\n0x20000000:\\t0x11111111\\t0x22222222\\nr0             0x5\\t5\\n"
g = Gdb("--bin", path("i", bytes(16)), "0", "--dump", path("d", log.encode()))
r = g.ask("m20000000,8")
check(r == "1111111122222222", "memory of the log: " + r)
g.close()
''', "a GDB log with an empty line and then text which looks like the signature of a hexadecimal dump", "The log is read as a hexadecimal dump.")

seed("c09-log-by-name", "C09", {CLI: [
("    if (hasBinaryCrashCatcherSignature(fileHeader))",
 "    if (strlen(pDumpFilename) > 4 && 0 == strcmp(pDumpFilename + strlen(pDumpFilename) - 4, \".log\"))\n        return GDB_LOG;\n    if (hasBinaryCrashCatcherSignature(fileHeader))")]}, "exe", '''
g = Gdb("--bin", path("i", bytes(16)), "0", "--dump", path("putty.log", dump(regions=[(0x20000000, b"12345678")]).hex().encode()))
r = g.ask("m20000000,8")
check(r == b"12345678".hex(), "memory of the dump: " + r)
g.close()
''', "a hexadecimal dump in a file called *.log", "The dump is taken for a GDB log, in which there is nothing.")

seed("c09-elf-kept", "C09", {CLI: [
("    if (pass == FIRST_PASS)\n        pThis->pElfFilename = ppArgs[0];",
 "    if (pass == FIRST_PASS && (!pThis->pElfFilename || !pThis->pBinFilename))\n        pThis->pElfFilename = ppArgs[0];")]}, "lib", C_HEAD + r'''
int main(void)
{
    const char* args[] = {"--elf", "a", "--bin", "i", "0x8000", "--elf", "b", "--dump", "d"};
    CrashDebugCommandLine cl;
    static const char log[] = "r0             0x5\t5\n";
    writeFile("i", "12345678", 8);
    writeFile("d", log, sizeof(log) - 1);
    freopen("err", "w", stderr);
    THROWN(CrashDebugCommandLine_Init(&cl, 9, args));
    CHECK(cl.pElfFilename && 0 == strcmp(cl.pElfFilename, "b"));
    return 0;
}
''', "--elf, --bin and --elf again", "The first ELF file is loaded instead of the last.")

seed("c14-hits-of-last-session", "C14", {MEM: [
("static MemorySim g_object;\n", "static MemorySim g_object;\nstatic int g_hits;\n"),
("    pThis->pHeadRegion = pThis->pTailRegion = NULL;\n", "    pThis->pHeadRegion = pThis->pTailRegion = NULL;\n    g_hits = pThis->watchpointEncountered;\n"),
("    g_object.pVTable = &g_vTable;", "    g_object.pVTable = &g_vTable;\n    g_object.watchpointEncountered = g_hits;")]}, "lib", C_HEAD + r"""
int main(void)
{
    IMemory* m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    CHECK(THROWN(MemorySim_SetHardwareWatchpoint(m, 0x10000000, 4, WATCHPOINT_WRITE)) == 0);
    CHECK(THROWN(IMemory_Write32(m, 0x10000000, 1)) == 0);
    MemorySim_Uninit(m);
    m = MemorySim_Init();
    CHECK(THROWN(MemorySim_CreateRegion(m, 0x10000000, 64)) == 0);
    CHECK(THROWN(IMemory_Write32(m, 0x10000000, 1)) == 0);
    CHECK(!MemorySim_WasWatchpointEncountered(m));
    return 0;
}
""", "a simulator taken down with a watchpoint hit which nobody has asked about, and a new one", "The new simulator reports a watchpoint it doesn't have.")
