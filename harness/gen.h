/* Generators of crash states, dump files in the three formats, ELF images and address layouts, and their expected meaning. */
#ifndef GEN_H_
#define GEN_H_
#include "env.h"

namespace gen {

struct Block { uint32_t start; std::string data; };

struct Crash
{
    bool     v2 = false;
    uint32_t flags = 0;
    uint32_t R[TOTAL_REG_COUNT] = {};
    uint32_t exceptionPSR = 0;
    uint32_t FPR[TOTAL_FPREG_COUNT] = {};
    std::vector<Block> regions;
    bool hasFP() const { return (flags & 1) != 0; }
};

/* Non-overlapping address ranges. */
struct Layout
{
    struct Range { uint64_t lo, hi; };
    std::vector<Range> used;
    uint64_t top = 0xFFFFFFFFull;       /* ranges must end at or below this */
    bool     fits(uint64_t lo, uint64_t n) const;
    /* Pick a place for n bytes: often next to an earlier range, aligned as asked. */
    uint32_t place(uint32_t n, uint32_t align = 1);
    void     add(uint64_t lo, uint64_t n) { used.push_back({lo, lo + n}); }
    bool     covered(uint32_t a) const { for (auto& r : used) if (a >= r.lo && a < r.hi) return true; return false; }
    /* Addresses which are worth probing: every edge plus and minus a little, and some random ones. */
    std::vector<uint32_t> probes() const;
};

/* Where the hardware has something: memory and system control registers. */
uint32_t    special();
/* An address which hardware (not CrashDebug) might take for A: mirrored, bit banded, in another memory. */
uint32_t    lookalike(uint32_t a);

struct CrashOptions { unsigned maxRegions = 6; uint32_t maxSize = 4096; bool words = false; bool allowEmpty = true; bool big = false; uint32_t minSize = 0; /* of the first region */ bool unaligned = false; /* with words: sometimes at any address */ };
Crash       crash(Layout& layout, const CrashOptions& o);
void        registers(Crash& c);

std::string toBinary(const Crash& c);
std::string toHex(const std::string& binary);           /* draws case and line breaks */
std::string plainHex(const std::string& binary);
std::string le32(uint32_t v);

/* --- GDB logs */
struct LogLine { std::string text; };
std::string symbolName(bool afterAddress);
struct LogOptions { bool symbols = true; bool shortLines = true; bool decimal = true; bool shuffle = true; bool repeats = true; bool subset = true; };
/* Lines (without line endings) which record this crash state; for a log the registers given by mask are present. */
struct Log
{
    std::vector<std::string> lines;
    bool     hasR[TOTAL_REG_COUNT] = {};
    bool     hasF[TOTAL_FPREG_COUNT] = {};
    bool     anyS = false;
};
Log         toLog(const Crash& c, const LogOptions& o);
std::string noiseLine();
std::string joinLog(const std::vector<std::string>& lines, bool lastEol);

/* --- expected results */
void fillContext(RegisterContext* p, uint32_t seed);
void expectContext(const RegisterContext& got, const Crash& want, const RegisterContext& before, const char* what);
std::string describe(const Crash& c);
std::string describeContextDiff(const RegisterContext& a, const RegisterContext& b);

/* --- reference reader of binary dumps */
struct DumpMeaning
{
    int         code = 0;           /* noException or the exception */
    std::string msg;
    bool        tooBig = false;     /* a region larger than the allocation limit: out of memory is a right answer, too */
    Crash       crash;              /* registers which were complete before the problem, all complete regions */
    bool        gotFlags = false, gotR = false, gotPSR = false, gotFPR = false;
    bool        overlaps = false;       /* regions overlap each other: contents not specified */
    uint32_t    failedStart = 0, failedLen = 0;     /* the region which is not complete */
    bool        wraps = false;          /* a region runs past the end of the address space: outcome not specified */
};
DumpMeaning readDump(const std::string& bytes);

} /* namespace gen */
#endif
