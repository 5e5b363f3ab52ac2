#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CC = "libCrashDebug/src/CrashCatcherDump.c"; GL = "libCrashDebug/src/GdbLogParser.c"; EL = "libCrashDebug/src/ElfLoad.c"
MS = "libCrashDebug/src/MemorySim.c"; CL = "libCrashDebug/src/CrashDebugCommandLine.c"; MP = "libCrashDebug/src/mriPlatform.c"
SC = "libCrashDebug/src/StandardIComm.c"; MA = "main/main.c"; MD = "main/MockDefaults.c"; TC = "include/try_catch.h"

prop("C01", "A binary CrashCatcher dump is loaded exactly",
 "Loading any well-formed binary CrashCatcher dump (version 2.0 or 3.0, with or without floating point registers, any number of non-overlapping memory regions of any size) yields exactly the flags, R0-R12, SP, LR, PC, xPSR, MSP, PSP, exception PSR, floating point registers and memory bytes that were encoded in it. "
 "A version 2.0 dump, which carries no MSP and PSP, yields 0xBAADBAAD for both; floating point registers are left untouched when the dump says it has none. "
 "No address outside the dumped regions becomes readable, the dumped regions are writable RAM in file order, and the file is closed.",
 ["inputs"], "all well-formed binary dumps: both versions, both register sets, all register and memory values, all region lists (0..N regions, any non-wrapping address, adjacent or apart)",
 "Existing tests load about ten hand-written dumps with one or two tiny regions and fixed register values; fidelity must hold for every register value and region list.",
 [CC, MS, "include/mriPlatform.h"], [("readIntegerRegisters / readFloatingPointRegisters / readMemoryRegions", CC), ("DEFAULT_SP_VALUE", "include/mriPlatform.h")],
 ["CrashCatcherDump_ReadBinary() result: register context, simulated memory, memory map"])

prop("C02", "A hex CrashCatcher dump means the same as its binary form",
 "For every CrashCatcher dump, the hexadecimal text form, with upper and lower case digits mixed in any way and line breaks (LF, CR or CRLF, including blank lines) placed anywhere at all, even between the two digits of a byte, loads to exactly the same registers, flags and memory as the binary form. "
 "The two forms of the same damaged byte sequence (cut short at a byte boundary, wrong signature, stack overflow marker) are refused with the same exception code and the same message. "
 "Hex text containing any other character where a digit is expected is refused with an exception, never read as data; a single digit left over at the very end of the file is ignored.",
 ["inputs"], "all dumps x all digit-case choices x all line-break placements; all cut points at byte boundaries; any invalid character at any digit position",
 "The hex tests re-run the handful of binary dumps with one line layout each and check one invalid digit.",
 [CC], [("hexRead / readNextCharacterSkippingNewLines / nibbleDigitToVal", CC)],
 ["CrashCatcherDump_ReadHex() vs CrashCatcherDump_ReadBinary()"])

prop("C03", "Damaged CrashCatcher dumps are refused with the right diagnosis",
 "Every dump that is cut short, has a wrong or unsupported signature, or contains a truncated region header or region body is refused with a file format exception whose message names the part which is missing (signature, flags, integer registers, exception PSR, floating point registers, memory region header, or the address range of the memory region). "
 "A dump which ends with the 4-byte stack overflow marker 0xACCE55ED where a region header belongs is refused with the stack overflow exception; a dump ending exactly at a region boundary is accepted. "
 "No such input makes the loader crash, hang, read or write out of bounds, or leave the file open.",
 ["inputs"], "all prefixes of all well-formed dumps, all signature values, marker or partial header at every region boundary, plus arbitrary byte strings",
 "Tests try a dozen fixed cut points; the property is about every byte position of every dump.",
 [CC], [("length checks after every read", CC), ("isStackOverflowSentinelInsteadOfRegionDescription", CC)],
 ["CrashCatcherDump_ReadBinary() exception code, message, open files"])

prop("C04", "A GDB log reproduces the recorded registers and memory",
 "Parsing any GDB log made of 'x/4wx' style lines (an 8-digit hex address, an optional <symbol>, a colon, and one to four hex or decimal words separated by white space, optional <symbol>s between them) and 'info registers' lines (the name padded to a 15 column field) yields a register context holding exactly the last value logged for each register r0-r12, sp, lr, pc, xpsr, msp, psp, s0-s31 and fpscr, and a memory holding exactly the logged words at their addresses. "
 "Floating point register values come from the '(raw 0x...)' field and mark the floating point registers as present; MSP and PSP not in the log read 0xBAADBAAD. "
 "Consecutive lines with contiguous addresses form one RAM region, a break in the addresses starts a new one, and nothing else becomes readable.",
 ["inputs"], "all register subsets, orders and 32-bit values; all word values; all contiguous/non-contiguous runs of 1-4 word lines; all symbol texts without line breaks that keep the line within 1022 characters, including C++ names containing nested <>, operator names, spaces and offsets",
 "Existing tests parse logs of one to three lines with fixed symbols; symbol text and line sequences are unbounded.",
 [GL], [("isMemoryLine / parseMemoryLine / skipSymbol", GL), ("firstPassMemoryHandler region merging", GL), ("isRegisterLine / parseRegisterLine", GL)],
 ["GdbLogParse() result: register context, memory bytes, memory map"])

prop("C05", "Unrelated text in a GDB log never changes what is loaded",
 "Inserting any lines of other text (prompts, commands, backtraces, warnings, registers GDB shows that CrashDebug does not keep, blank lines, binary junk without line breaks longer than a log line) between the lines of a GDB log, using LF or CRLF line endings, or leaving off the final line ending, does not change the registers, memory or regions loaded from it. "
 "An address line which carries no value, such as GDB's 'Cannot access memory at address ...', contributes no memory, and a line with fewer than four words contributes only the words it shows. "
 "Arbitrary bytes presented as a log never crash, hang or corrupt the loader: it loads what it recognises or fails with an exception, and closes the file.",
 ["inputs"], "all noise insertions at any position of any log; all line endings; arbitrary byte strings as a log; memory and register lines of up to 1022 characters, other lines of any length",
 "The tests contain a few clean logs; noise text and positions are unbounded.",
 [GL], [("parseOtherLine fall through", GL), ("areMoreValuesToParseOnLine / parseValue", GL)],
 ["GdbLogParse(log) vs GdbLogParse(log with noise)"])

prop("C06", "Every loadable ELF segment appears as read-only flash",
 "For every valid 32-bit little-endian executable ELF file, each program header entry of type LOAD with a non-zero file size not larger than its memory size becomes a read-only flash region at its physical address whose bytes equal the bytes of the file at the entry's offset, in program header order. "
 "Entries of any other type, with zero file size, or with a file size larger than the memory size contribute nothing, and neither does any other part of the file. "
 "This holds for any program header table offset, entry size of at least 32 bytes, entry count, segment alignment and segment size, and whatever the fields the loader does not need contain.",
 ["inputs"], "all ELF images: header table placement, entry size 32..65535, up to hundreds of entries, any mix of entry types, any segment addresses that do not overlap or wrap, any segment size including sizes that are not a multiple of four",
 "Tests use ELF images with one to three entries at fixed offsets with 4-byte segments.",
 [EL, MS, "libCrashDebug/src/ElfPriv.h"], [("loadFlashLoadableEntries / isFlashLoadableEntry", EL), ("MemorySim_LoadFromFlashImage", MS)],
 ["ElfLoad_FromMemory(): simulated memory and memory map"])

prop("C07", "Malformed ELF images are refused, never over-read",
 "An image which is too short for an ELF header, has a wrong magic number, class, byte order or type, no program header offset or count, a program header entry size below 32, a program header entry outside the file, a loadable entry whose data lies (even partly) outside the file, or no loadable entry at all, is refused with an ELF format exception and a message naming the problem (with the index of the entry or the offsets in the file concerned). "
 "This holds for every 32-bit offset and size, including sums which do not fit in 32 bits: the loader never reads a byte outside the image. "
 "Arbitrary or randomly corrupted images either load or fail with an exception; they never crash, hang or corrupt memory.",
 ["inputs"], "all single and multiple corruptions of valid ELF images, all truncations, all extreme 32-bit offsets/sizes, arbitrary bytes",
 "Tests check one wrong value per header field; the arithmetic corners need search over 32-bit values.",
 [EL], [("fetchSizedByteArray bounds check", EL), ("validateElfHeaderContents", EL)],
 ["ElfLoad_FromMemory() exception code, message; sanitizer-checked accesses"])

prop("C08", "A raw flash image appears byte for byte at its base address",
 "With --bin, every byte of an image file of any non-zero size appears at the base address given on the command line plus its offset, and the area is one read-only flash region exactly as long as the file. "
 "The base address may be written in decimal, hexadecimal or octal. "
 "Addresses just below and just above the image are not readable unless the crash dump supplies them, and the flash cannot be written by the debugger.",
 ["inputs", "configurations"], "all image contents and sizes (1 byte to tens of kilobytes, any size modulo 4), all base addresses that do not wrap, all number notations",
 "Tests load two words at one or two base addresses.",
 [CL, MS], [("loadBinFile / loadFileData", CL), ("MemorySim_LoadFromFlashImage", MS)],
 ["CrashDebugCommandLine_Init() result: memory and memory map"])

prop("C09", "Command line order and dump format do not affect the loaded state",
 "For a given set of valid options, every order in which --elf or --bin, --dump and any number of --alias options appear, and every upper/lower case spelling of the option names, produces the same registers, memory and memory map; when both --elf and --bin are given the ELF image is used. "
 "The dump format (binary CrashCatcher, hex CrashCatcher, GDB log) is recognised from the first four characters of the file alone ('cC' is binary, '6343' is hex, anything else a log), so the same crash state delivered in any of the three formats gives the same registers and memory. "
 "When an option is repeated, the last --elf, --bin or --dump wins and every --alias applies in the order given.",
 ["inputs", "configurations"], "all permutations and spellings of option lists with 0..4 aliases, all three dump formats of the same generated crash state",
 "Tests use a handful of fixed option orders with tiny fixed files.",
 [CL, CC, GL, EL], [("two-pass parseArguments", CL), ("getFileType", CL)],
 ["CrashDebugCommandLine_Init() result"])

prop("C10", "Bad command lines and files are reported, with nothing left behind",
 "Every invalid command line (an argument not starting with '--', an unknown option, missing option parameters, no image, no dump, an unreadable file, a damaged ELF or crash dump, an alias to an unmapped address, in any combination and position) makes start-up fail with an exception. "
 "The first line written to stderr is 'ERROR: ' followed by a non-empty message that names the offending option, file or address (both addresses of an alias), then the copyright notice and the usage text; nothing is written to stdout. "
 "After the failure no memory and no file opened on the way is still held, and the memory handle is cleared so that clean-up may be called again.",
 ["inputs", "configurations"], "all argument lists built from valid and broken fragments, with faults in any one of the options or files, in every order",
 "Tests check one fixed message per error; combinations and positions (first error wins) are untested.",
 [CL, MA], [("CrashDebugCommandLine_Init catch block / displayExceptionMessage", CL), ("__throw_msg call sites", CL)],
 ["CrashDebugCommandLine_Init() exception, captured stderr, live allocations and FILEs"])

prop("C11", "Simulated memory behaves like memory, with bus errors outside it",
 "For every history of region creations (without overlap), read-only markings, flash loads and 8/16/32-bit reads and writes at any address and alignment, a read returns the last bytes written or loaded there (zero if never written), little-endian, with accesses of different sizes seeing the same bytes. "
 "An access which is not entirely inside one region, or a write to a read-only region, raises the bus error exception and changes nothing; no access changes any byte outside its own range, and direct read/write mappings point to the same bytes. "
 "Starting over after clean-up gives an empty memory, and clean-up releases everything.",
 ["histories"], "all operation histories over any set of non-overlapping regions anywhere in the 32-bit space, with accesses at, across and beyond every region edge",
 "Tests perform one or two accesses on one or two regions.",
 [MS, "include/IMemory.h"], [("findMatchingRegion bounds check", MS), ("getDataPointer", MS)],
 ["IMemory_Read*/Write*, MemorySim_Map*ForRead/Write, LoadFromFlashImage"])

prop("C12", "An alias is the same memory as its target",
 "After an alias is created, every read, write, breakpoint, watchpoint or flash read count through an alias address acts on the corresponding target address, and vice versa, for every offset and access size, including aliases whose target address is given through another alias and aliases to the middle of a region. "
 "The alias covers the requested size, or less if the region which the target address finally lies in ends sooner; accesses beyond that, or straddling its end, raise a bus error. "
 "Creating an alias to an address that is not mapped raises a bus error and leaves the memory as it was; the alias is reported as flash exactly when its target was read-only when the alias was made.",
 ["histories"], "all sets of regions and aliases (including aliases of aliases, oversized aliases, aliases at the very end of a region), then all operation histories over alias and target addresses",
 "Tests create one alias to the start of a region and access its first word.",
 [MS], [("MemorySim_CreateAlias size clipping", MS), ("findMatchingRegion redirection", MS)],
 ["IMemory_* through alias and target addresses, MemorySim_GetMemoryMapXML"])

prop("C13", "The memory map given to GDB lists exactly the regions that exist",
 "At every point of any history of region, alias, read-only and flash operations, the memory map document lists each region and alias once, in creation order, with its exact start and length, as type 'flash' with a block size of 1 if read-only and as type 'ram' otherwise, inside one well-formed memory-map document. "
 "Asking again without changes returns the same text, and the text is complete and NUL terminated for any number of regions and any 32-bit addresses and sizes. "
 "Failed region or alias creations leave no entry behind. GDB is given this text and its length, as it is at the time of asking.",
 ["histories"], "all histories of creations, failures and queries; 0 to hundreds of regions; addresses and lengths over the whole 32-bit range",
 "Tests query maps of zero to two regions.",
 [MS], [("MemorySim_GetMemoryMapXML sizing and appendMemoryMapRegions", MS)],
 ["MemorySim_GetMemoryMapXML()"])

prop("C14", "Breakpoints and watchpoints fire exactly when they should",
 "For every history of setting and clearing breakpoints and watchpoints (any size, type, address, order and overlap), an 8, 16 or 32-bit access counts as a watchpoint hit exactly when some currently set watchpoint of a matching type (read, write or both) wholly contains it, and a 16-bit read inside a currently set breakpoint raises the hardware breakpoint exception; no other access is disturbed. "
 "Setting the same one twice equals setting it once, clearing removes exactly the one with the same address, size and type and clearing one that is not set is harmless; addresses outside memory raise a bus error. "
 "The watchpoint indication is reported once after it happened and then cleared; host mappings and flash loading never trigger either.",
 ["histories"], "all histories of set/clear/access/query over one or more regions with overlapping, nested, adjacent and duplicate break/watchpoints",
 "Tests set at most three, at distinct addresses; ordering and early termination of the search matter only for mixtures.",
 [MS], [("setWatchpoint/clearWatchpoint sorted array", MS), ("checkForBreakWatchPoint scan and early return", MS)],
 ["MemorySim_Set*/Clear*, IMemory_* accesses, MemorySim_WasWatchpointEncountered"],
 [("pWatchpoints", "per region array ordered by start address", MS)])

prop("C15", "Flash read counts equal the number of halfword reads",
 "For every history of accesses, the read count reported for a flash address equals the number of completed 16-bit reads made so far to the halfword slot which contains the start of the access, whether by direct read or by mapping two bytes for reading, and whether made directly or through an alias. "
 "8 and 32-bit reads, writes and loading never count, reads before the region became read-only are not counted, and asking for the count does not change it (whether a read which a breakpoint stopped counts is left open). "
 "Asking for the count of an address which is in writable memory, in no region or whose halfword is not wholly inside a region raises a bus error.",
 ["histories"], "all access histories over read-only regions of any size and base address (odd sizes included) at every offset, aligned or not",
 "Tests count one to three reads at the first word.",
 [MS], [("pReadCounts", MS), ("MemorySim_GetFlashReadCount", MS)],
 ["MemorySim_GetFlashReadCount()"])

prop("C16", "Memory built from a flash image has flash at 0 and RAM below the stack top",
 "For every flash image of at least four bytes, building the memory from it gives a read-only region at address 0 of exactly the image's size and bytes, and a zero-filled RAM region from the initial stack pointer (the image's first word) with only its top four bits kept, up to the initial stack pointer. "
 "Images shorter than four bytes raise the buffer overrun exception and leave no region. "
 "If memory for any part cannot be obtained, the out of memory exception is raised, no partly built region can be accessed, and nothing leaks.",
 ["inputs", "fault_sequences"], "all image contents and sizes, all first words with an affordable RAM size, every position of an allocation failure",
 "Tests use one image and fail three allocations.",
 [MS], [("MemorySim_CreateRegionsFromFlashImage", MS), ("freeLastRegion", MS)],
 ["memory contents, map, exceptions"])

prop("C17", "Register packets carry the crash context exactly, both ways",
 "For every register context the register block sent to GDB is the hex form of R0-R12, SP, LR, PC, xPSR, MSP, PSP in that order, each little-endian, followed by S0-S31 and FPSCR exactly when the context has floating point registers. "
 "Writing a register block stores exactly those values, changes nothing else (flags and exception PSR, and floating point registers when absent, stay as they were), and reading back returns what was written. "
 "The stop report lists registers 12 to 15 with the values of R12, SP, LR and PC.",
 ["inputs", "histories"], "all register values, both register sets, all alternations of reads, writes and stop reports",
 "Tests read and write one fixed set of values.",
 [MP], [("Platform_CopyContextToBuffer / FromBuffer", MP), ("Platform_WriteTResponseRegistersToBuffer", MP)],
 ["g, G and ? packets; RegisterContext"])

prop("C18", "Debugger memory accesses succeed or report a fault, once and exactly",
 "For every sequence of 8, 16 and 32-bit reads and writes issued by the debugger, an access to mapped memory returns or stores exactly the simulated value and reports no fault, and an access to unmapped memory or a write to flash changes nothing, reads as zero and is reported as a fault. "
 "The fault indication is non-zero exactly when at least one access since it was last asked for failed, and asking clears it and a new session starts without it; a failed access never disturbs later ones. "
 "Only the low 32 bits of the address are significant, and no exception escapes to the debug monitor.",
 ["histories"], "all interleavings of successful and failing accesses of all sizes with fault queries, over any memory layout including flash, RAM, aliases and region edges",
 "Tests make one access of each kind.",
 [MP, MS], [("Platform_MemRead*/MemWrite* try/catch", MP), ("Platform_WasMemoryFaultEncountered", MP)],
 ["Platform_Mem* functions; m, M and X packets"])

prop("C19", "The stop signal tells GDB which exception crashed the device",
 "For every crash context, the signal reported to GDB depends only on the low 8 bits of the exception PSR: NMI (2) gives SIGINT, HardFault (3) and MemManage (4) SIGSEGV, BusFault (5) SIGBUS, UsageFault (6) SIGILL, Debug Monitor (12) SIGTRAP, and every other value SIGSTOP. "
 "The same signal is reported on every request for as long as the session lasts, whatever registers or memory the user modifies.",
 ["inputs", "histories"], "all 32-bit exception PSR values, all other context values, all session histories in between",
 "Tests try seven exception numbers with all other bits clear.",
 [MP], [("Platform_DetermineCauseOfException", MP), ("getCurrentlyExecutingExceptionNumber", MP)],
 ["signal in the T packet"])

prop("C20", "The fault report shows exactly the fault bits recorded in the dump",
 "For every value of the fault status registers captured in the dump, the text shown to the user names the fault classes and the causes whose bits are set, in the documented order and wording, shows each status value as hex, and shows the fault address exactly when its valid bit is set and the register was captured. "
 "A HardFault shows its own status and, only if it was forced, the MPU, Bus and Usage fault sections; MemManage, BusFault and UsageFault exceptions show only their own section; sections whose status is zero are left out, and other exceptions show nothing. "
 "Registers missing from the dump are skipped without failing: the report still ends with a line feed, and the session continues.",
 ["inputs", "configurations"], "all 32-bit values of the four fault registers x which of them were captured x all exception numbers",
 "Tests set one bit at a time with all registers present.",
 [MP], [("display*FaultCauseToGdbConsole", MP)],
 ["O packets sent before the stop report"])

prop("C21", "The target description GDB gets matches the register block",
 "For every context the target description is a well-formed XML document, with the standard feature names org.gnu.gdb.arm.m-profile, m-system and vfp, describing exactly the registers sent in the register block, in the same order, with sizes that add up to the length of the block and unique register numbers: r0-r12, sp, lr, pc, xpsr (25), msp (26), psp (27), and d0-d15 and fpscr exactly when floating point registers are present. "
 "Reading it in pieces of any offset and length, in any order, gives the pieces of the same document, and the size reported is its length. "
 "It does not depend on register or memory contents.",
 ["inputs", "configurations"], "both register sets, all offset/length splits, all register values",
 "Tests compare the first bytes of the document against a copy.",
 [MP], [("Platform_GetTargetXml / g_targetXML / g_targetFpuXML", MP)],
 ["qXfer:features:read:target.xml packets, g packet"])

prop("C22", "Resuming, stepping and breakpoints never change the crash state",
 "No sequence of continue, step, signal-continue (with or without a new address), hardware breakpoint or watchpoint set/clear requests, semihosting queries or program counter changes issued by the debug monitor changes any register, any byte of memory or the memory map, or raises an exception. "
 "Each resume attempt reports the original stop again, with the same signal and registers, and the session goes on. "
 "Breakpoint and watchpoint requests for any address, mapped or not, are accepted and have no effect on later memory accesses.",
 ["histories"], "all sequences of such requests with any addresses, sizes and types, mixed with reads that verify the state",
 "Tests issue each command once.",
 [MP], [("Platform_SetHardwareBreakpoint.. and other ignored requests", MP)],
 ["RegisterContext, memory and packets before and after"])

prop("C23", "The standard I/O channel passes bytes through unchanged and in order",
 "Bytes received from GDB reach the debug monitor in order with none lost, added or changed, bytes sent by the monitor reach GDB in order unchanged for all 256 byte values, and data availability is reported as the console sees it, with a console failure while asking treated as no data and leaving no pending exception. "
 "GDB counts as connected from the moment data is available or after the first byte was received, and never before; starting a new session forgets the connection. "
 "Console failures while reading or writing are passed on as exceptions, a failed read does not count as a connection, and the channel never asks for the run to stop. The communication functions which the platform layer offers to the debug monitor hand all of this on as it is.",
 ["histories", "fault_sequences"], "all interleavings of availability checks, receives, sends, connection checks and re-initialisations, with console failures at any point",
 "Tests check one or two bytes in each direction.",
 [SC, MD, MP], [("hasReceiveData / receiveChar / isGdbConnected", SC), ("Platform_CommHasReceiveData / Platform_CommIsWaitingForGdbToConnect", MP)],
 ["IComm_* and Platform_Comm* functions over a model console"])

prop("C24", "A GDB session over stdin/stdout sees exactly the dumped crash",
 "For every valid combination of image file, crash dump and aliases, the program answers every remote protocol session on stdin/stdout (register and memory reads and writes, stop queries, memory map and target description transfers, breakpoints, resume requests) with exactly what a model of the crashed device predicts, including writes being visible to later reads. "
 "Fault reports and stop reports after a resume request show the dump's exception and fault registers. "
 "When GDB closes the connection (or no longer takes what is sent) the program ends by itself, without hanging or consuming the processor.",
 ["inputs", "histories"], "all generated images, dumps (three formats), alias options and lock-step packet sequences, ending by end-of-file at any packet boundary",
 "No existing test runs the program itself; its units are only tested separately against fixed packets.",
 [MA, MD, MP, SC, CL], [("main()", MA), ("Console_ReadStdIn / Console_WriteStdOut", MD), ("mriPlatform_Run", MP)],
 ["stdin/stdout/stderr and exit status of the program"])

prop("C25", "The program fails visibly when it cannot start",
 "For every invalid command line or unusable image or dump file the program exits by itself with a non-zero status, without being killed by a signal, writes its error message and usage to stderr and writes nothing to stdout. "
 "It does so without waiting for any input from GDB. "
 "Error conditions other than file, ELF format and argument errors are additionally reported with their number.",
 ["inputs", "configurations"], "all broken argument lists, missing, truncated and corrupted image and dump files",
 "No existing test runs the program itself.",
 [MA, CL], [("main() catch block", MA)],
 ["exit status, stdout and stderr of the program"])

prop("C26", "Running out of memory anywhere is reported cleanly",
 "If any single memory allocation, or every allocation from some point on, fails while loading an image and a dump, creating regions or aliases, setting break/watchpoints or producing the memory map, the operation ends with the out of memory exception. "
 "Everything that existed before the failed operation still works with its old contents, nothing leaks, files are closed and memory is never accessed out of bounds. "
 "Retrying the operation when memory is available again succeeds with the same result as if nothing had failed.",
 ["fault_sequences", "histories"], "every allocation index (single failure and all-after) of generated load operations and memory operation histories",
 "Tests fail one chosen allocation in a few fixed scenarios.",
 [MS, CL, GL, CC, EL], [("throwingZeroedMalloc", MS), ("catch blocks freeing partial regions", MS), ("loadFileData", CL)],
 ["exceptions, leak accounting, later behaviour"])

prop("C27", "Every file failure is reported and no file stays open",
 "If any single open, seek, tell or read of the image or dump file fails or comes up short, loading fails (except that a dump whose file really ends at a point where its format allows it to end is complete) with an exception, and a non-empty message is available for failures to open, size, read or rewind a file; a dump or log whose data ends early is never silently accepted as complete where its format says there is more. "
 "On success and on every failure, every file which was opened has been closed exactly once, and no memory leaks. "
 "A later load in the same process works normally.",
 ["fault_sequences", "inputs"], "every file operation index x failure kind (open fails, seek fails, tell fails, short read, zero read) for generated ELF/bin images and dumps in all formats",
 "Tests inject one failure at a few chosen calls.",
 [CL, CC, GL, "libcommon/src/common.c"], [("loadFileData", CL), ("GetFileSize", "libcommon/src/common.c"), ("rewindLogFileAndThrowOnError", GL)],
 ["exception, message, open/close balance"])

prop("C28", "Exceptions reach the nearest handler with their code and message",
 "For every nesting of try/catch blocks, throws with and without messages, rethrows, throws from handlers and normal completions, through any call depth, control passes exactly to the innermost active handler, code after the throw is not executed, and after a block completes the previously active handler is active again. "
 "The handler sees the thrown code, where a higher code replaces a lower pending one and a lower code never replaces a higher one until it is cleared, and the formatted message, cut to at most 1023 characters, which stays available until the next block is entered or the next message is thrown. "
 "Different kinds of exception have different codes. Entering a block clears the pending code and message, and a block which completes without a throw does not run its handler (as long as every handler inside it which did not itself throw has cleared what it caught).",
 ["programs", "histories"], "all programs built from nested try/catch/throw/throw_msg/rethrow/clear constructs, compared with an interpreter of their meaning",
 "Tests cover eight fixed nestings.",
 [TC, "libcommon/src/try_catch.c"], [("__try/__catch/__throw/__throw_msg macros", TC)],
 ["order of executed steps, getExceptionCode(), getExceptionMessage()"])

prop("C29", "File sizes are exact and the file is left at its start",
 "For every regular file and every current position in it, asking for the file size returns its exact number of bytes and leaves the file positioned at its first byte, with the contents unchanged. "
 "If seeking to the end, telling the position or seeking back fails, a file exception is raised. "
 "The operation neither closes the file nor depends on what was read before.",
 ["inputs", "fault_sequences"], "all file sizes and contents (empty, small, sparse beyond 2 GB), all prior positions, each of the three steps failing",
 "Tests use one 4-byte file.",
 ["libcommon/src/common.c"], [("GetFileSize", "libcommon/src/common.c")],
 ["return value, position, bytes read afterwards"])

prop("C30", "Allocation failure injection fails exactly the chosen allocation",
 "After asking for the n-th allocation to fail, in any sequence of malloc and realloc calls made through the hooks exactly the n-th returns NULL and every other behaves as the normal allocator, and a failed realloc leaves the old block intact. "
 "Asking again restarts the count, asking for zero fails none, and a restore at any point makes all further allocations succeed. "
 "Freeing is never affected.",
 ["histories"], "all sequences of arm(n), restore, malloc, realloc and free",
 "Tests fail the first or second call only.",
 ["libmocks/src/MallocFailureInject.c", "include/MallocFailureInject.h"], [("shouldThisAllocationBeFailed countdown", "libmocks/src/MallocFailureInject.c")],
 ["hook_malloc / hook_realloc / hook_free results"])

prop("C31", "The printf spy records exactly what was printed",
 "While hooked with a buffer size of B, each printf or fprintf to stdout or stderr is recorded as its formatted text cut to B characters and returns the full formatted length, the n-th last output (n from 1 to 4) of a stream is what was written to it n calls ago when that call went to that stream, and the call count is the number of calls since hooking. "
 "A stream to which nothing was written since hooking has no outputs. Nothing reaches the real stdout or stderr while hooked. "
 "Hooking again starts with a zero count and the new size, unhooking restores normal printing, and no history of hook, print and unhook leaks or overruns a buffer.",
 ["histories", "inputs"], "all histories of hook(B)/unhook/print to either stream with any format and length (B from 0 to hundreds), reading back any of the last four",
 "Tests check at most four calls and two buffer sizes around one fixed string.",
 ["libmocks/src/printfSpy.c", "include/printfSpy.h"], [("mock_common ring of four buffers", "libmocks/src/printfSpy.c")],
 ["printfSpy_Get* functions, real streams, allocations"])

prop("C32", "File failure injection fails exactly the chosen calls",
 "Each file hook passes straight through to the C library unless told to fail, and then returns exactly the configured failure value: opens return the configured stream, closes can be ignored, seeks fail after the chosen number of passes, tells and writes fail always, and reads fail always or only on the n-th call, after which they work normally again. "
 "Supplied text lines are returned by line reads in order, cut to the buffer size with a terminating NUL, followed by one end-of-file, and then start over. "
 "Each restore function makes its call behave normally again, independently of the others, in any order.",
 ["histories"], "all histories of arming, restoring and calling the seven hooked file functions with real files and any parameters",
 "Tests arm each hook once, and these tests do not even build in this checkout.",
 ["libmocks/src/FileFailureInject.c", "include/FileFailureInject.h"], [("mock_* functions and counters", "libmocks/src/FileFailureInject.c")],
 ["results of hook_fopen/fclose/fseek/ftell/fread/fwrite/fgets"])

prop("C33", "The console and channel test doubles behave like their real counterparts",
 "For every history, the console double hands out exactly the configured input bytes in order and then zero bytes, records written bytes in order up to the capture size and drops the rest, reports the configured availability, and throws the configured exceptions until reset. "
 "The channel double delivers its first and then its second buffer in order (the second defaulting to an empty packet '$#00'), reports no data exactly once between the two buffers, always after the second, and for the configured number of delayed checks, records transmitted characters up to the capture size, and reports the configured stop and connection flags. "
 "Text given for checksumming gets the two lower case hex digits of the modulo 256 sum of the characters between each '$' and '#' inserted after every '#', and resetting releases all memory.",
 ["histories", "inputs"], "all configuration and use histories of both doubles, all texts for checksumming",
 "Their own tests use a few fixed strings.",
 ["libCrashDebug/mocks/mockConsole.c", "libCrashDebug/mocks/mockIComm.cpp"], [("RecvBuffer / copyChecksummedData", "libCrashDebug/mocks/mockIComm.cpp")],
 ["mockIComm_* / ConsoleMock_* functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
