/* Model-based histories of simulated memory: each operation is done on the code under test and on a plain model. */
#ifndef MACHINE_H_
#define MACHINE_H_
#include "model.h"

namespace machine {

using model::Region;
using model::Place;

enum Op { CREATE, ALIAS, READONLY, LOAD, READ, WRITE, MAP_READ, MAP_WRITE, MEMORY_MAP, SET_BREAK, CLEAR_BREAK, SET_WATCH, CLEAR_WATCH, WAS_HIT,
          READ_COUNT, RESTART, READ_LOOP, OPS };

struct Watch
{
    size_t region; uint64_t start; uint32_t size; int type;     /* type 0: breakpoint */
    bool operator<(const Watch& o) const { return std::tie(region, start, size, type) < std::tie(o.region, o.start, o.size, o.type); }
};

struct Options
{
    uint32_t maxRegionSize = 300;
    uint64_t top = 0x100000000ull;
    bool     faults = false;            /* make allocations fail now and then */
    bool     zeroSizes = true;
    bool     anyAddress = true;
    bool     mapEveryStep = false;
    bool     asGdb = false;             /* also ask for the memory map in the way the debug monitor does */
};

struct Machine : model::Memory
{
    IMemory* mem = nullptr;
    std::set<Watch> watches;
    gen::Layout layout;
    Options o;
    int hit = 0;                        /* watchpoint indication: 0 no, 1 yes, 2 not specified */
    std::string lastMap;
    bool mapStale = true;
    /* statistics for labels and the non-triviality rules */
    unsigned straddles = 0, busErrors = 0, aliasAccesses = 0, hits = 0, misses = 0, breaks = 0, counted = 0, faultsHit = 0, okAccesses = 0, roWrites = 0, nested = 0;
    struct Held { const uint8_t* p; size_t region; uint32_t offset, size; };
    std::vector<Held> held;

    explicit Machine(const Options& opt) : o(opt) { layout.top = o.top; }
    void init();
    void finish();                      /* clean up and check that nothing is held */
    void step(const std::vector<unsigned>& weights);
    void verifyAll(const char* when);

    void create(uint32_t base, uint32_t size);
    void createAlias(uint32_t base, uint32_t redirect, uint32_t size);
    void makeReadOnly(uint32_t address);
    void load(uint32_t address, const std::string& data);
    void read(uint32_t address, unsigned size);
    void write(uint32_t address, unsigned size, uint32_t value);
    void mapRead(uint32_t address, uint32_t size);
    void mapWrite(uint32_t address, uint32_t size);
    void memoryMap();
    void setWatch(uint32_t address, uint32_t size, int type, bool set);
    void wasHit();
    void readCount(uint32_t address);
    void readLoop(uint32_t address, uint32_t times);
    void restart(int style);

    uint32_t pickAddress(uint32_t size);
    template<class F> env::Result exec(const char* what, F f);
    void     access(const Place& p, uint32_t size, bool writing, bool* wantBreak);
};

/* Weights: most operations on, some randomly switched off for the whole history. */
std::vector<unsigned> allOps();

} /* namespace machine */
#endif
