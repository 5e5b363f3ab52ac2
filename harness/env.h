/* The environment of the code under test: its hook variables, console and debugger port are provided here, so that every
   allocation, file operation and byte of console input or output is observed and can be made to fail. */
#ifndef ENV_H_
#define ENV_H_
#include "pbt.h"
#include <algorithm>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>
extern "C" {
#include <common.h>
#include <try_catch.h>
#include <IMemory.h>
#include <MemorySim.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <CrashCatcherDump.h>
#include <GdbLogParser.h>
#include <ElfLoad.h>
#include <CrashDebugCommandLine.h>
#include "guard.h"
}
#undef malloc
#undef realloc
#undef free
#undef printf
#undef fprintf
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fread
#undef fwrite
#undef fgets
#undef __try
#undef __catch
#undef __throw
#define __try      try
#define __catch(X) catch(X)

namespace env {

struct Result
{
    bool        threw = false;
    int         code = 0;
    std::string msg;
    std::string text() const { return threw ? pbt::format("exception %d %s", code, pbt::quote(msg).c_str()) : std::string("no exception"); }
};

/* Run f() inside one of the code's own try blocks, with allocation and file accounting on.  f must not own C++ objects. */
Result run(void (*fn)(void*), void* arg);
template<class F> Result call(F f)
{
    return run([](void* p) { (*(F*)p)(); }, &f);
}

/* Callbacks which the code under test runs, but which are not part of it. */
struct Outside { int saved; Outside(); ~Outside(); };

void reset();                       /* start of a case: nothing live, no faults armed, no pending exception */

/* --- allocations */
extern size_t allocCap;             /* larger requests fail */
extern uint64_t allocCount;         /* allocation attempts since reset (malloc and realloc hooks) */
extern uint64_t allocFailAt;        /* 1-based index of the allocation to fail; 0 = none */
extern bool     allocFailAllAfter;  /* also fail every later one */
extern uint64_t allocFailed;
extern bool sparseBlocks;           /* blocks over 1 MB are cheap, but their contents repeat every 2 MB */
size_t liveBlocks();                /* blocks obtained by the code under test and not yet released */
size_t liveBytes();

/* --- files */
enum FileOp { OP_FOPEN, OP_FCLOSE, OP_FSEEK, OP_FTELL, OP_FREAD, OP_FGETS, OP_COUNT };
enum FileFault { FAULT_FAIL, FAULT_SHORT, FAULT_EOF, FAULT_SHORT_EOF };    /* reads: nothing or half of it, with a read error or end of file */
extern uint64_t fileOps;            /* operations since reset which may be made to fail (all but fclose) */
extern uint64_t fileFailAt;         /* 1-based index; 0 = none */
extern FileFault fileFault;
extern bool     fileFaulted;
extern FileOp   fileFaultedOp;
extern std::string fileFaultedName; /* the file which it was done on, how many times it had been opened so far, and where in it */
extern unsigned fileFaultedOpen;
extern long     fileFaultedPos, fileFaultedEnd;  /* the end: after what a read cut short still delivered */
extern size_t   fileOpens, fileCloses, fileBadCloses;
size_t openFiles();
void   forgetOpens();               /* start counting opens per file again */
void   closeLeakedFiles();
struct OpRecord { FileOp op; std::string name; };
extern std::vector<OpRecord> opLog;

/* --- captured standard streams */
extern std::string outText, errText;

/* --- files in the scratch directory */
std::string path(const char* name);
void writeFile(const std::string& path, const std::string& content);
std::string readFile(const std::string& path);

/* --- simulated memory as seen through its public interface */
struct RegionInfo { bool flash; uint32_t start; uint32_t length; };
inline bool operator==(const RegionInfo& a, const RegionInfo& b) { return a.flash == b.flash && a.start == b.start && a.length == b.length; }
std::string memoryMapText(IMemory* mem);
std::vector<RegionInfo> parseMemoryMap(const std::string& xml);     /* fails the case if it is not the documented form */
std::vector<RegionInfo> memoryMap(IMemory* mem);
std::string describe(const std::vector<RegionInfo>& m);
bool read8(IMemory* mem, uint32_t address, uint8_t* p);
bool readable(IMemory* mem, uint32_t address);
/* Compare a run of memory with the bytes expected there (all bytes through byte reads up to a limit, else a host mapping). */
void expectBytes(IMemory* mem, uint32_t address, const std::string& want, const char* what);
void expectUnreadable(IMemory* mem, uint32_t address, const char* what);

IMemory* memInit();
void     memUninit(IMemory* mem);

} /* namespace env */
#endif
