/* C11 - C16: simulated memory against a model. */
#include "props.h"
#include "machine.h"
#include "scenario.h"
extern "C" {
#include <mriPlatform.h>
}

using namespace pbt;
using namespace env;
using namespace machine;

static void history(Machine& m, const std::vector<unsigned>& base, unsigned minOps, unsigned maxOps, unsigned pctMap, unsigned pctVerify)
{
    std::vector<unsigned> w = swarm(base);
    for (unsigned i = 0 ; i < minOps || more(97, i, maxOps) ; i++)
    {
        m.step(w);
        if (pctMap && chance(pctMap)) m.memoryMap();
        if (pctVerify && chance(pctVerify)) m.verifyAll("during the history");
    }
}

/* A few regions to begin with, perhaps an alias and a read-only one. */
static void setup(Machine& m, bool flash)
{
    unsigned n = range(1, 3);
    for (unsigned i = 0 ; i < n ; i++)
    {
        uint32_t size = 1 + pbt::size(m.o.maxRegionSize - 1);
        if (chance(40)) size = 4 + below(m.o.maxRegionSize - 4);
        m.create(m.layout.place(size, 1), size);
    }
    if (flash) m.makeReadOnly(m.regs[below(n)].base);
    if (chance(50))
    {
        Region& g = m.regs[below(n)];
        uint32_t off = chance(50) ? 0 : below(g.size), size = g.size - off;
        m.createAlias(m.layout.place(size, 1), g.base + off, size);
    }
}

/* Start with an empty memory, or with what a command line with an image, a dump and aliases gives. */
static bool begin(Machine& m, unsigned pctProgram, bool large = false)
{
    if (!chance(pctProgram))
    {
        m.init();
        return false;
    }
    scenario::Options so;
    so.maxRegions = 3;
    so.maxSize = std::min<uint32_t>(m.o.maxRegionSize, 400);
    so.large = large && chance(1);
    scenario::Scenario s = scenario::make(so);
    RegisterContext context;
    Result r = scenario::start(s.commandLine(), &context, &m.mem);
    REQUIRE(!r.threw, "a valid command line failed: %s", r.text().c_str());
    note("%s", s.describe().c_str());
    (model::Memory&)m = s.memory;
    for (auto& g : m.regs)
        if (g.readOnly) { g.countMin.assign(g.size / 2, 0); g.countMax = g.countMin; }
    m.layout.used = s.layout.used;
    return true;
}

static void commonLabels(const Machine& m)
{
    if (m.regs.size() > 4) label("over 4 regions");
    if (m.straddles) label("straddling access");
    if (m.roWrites) label("write to read-only");
    if (m.aliasAccesses) label("access through alias");
    if (m.nested) label("alias through alias");
}

static void prop_C11()
{
    reset();
    Options o;
    if (chance(2)) o.maxRegionSize = 200000;
    Machine m(o);
    begin(m, 5);
    std::vector<unsigned> w = allOps();
    w[ALIAS] = 0; w[SET_BREAK] = w[CLEAR_BREAK] = w[SET_WATCH] = w[CLEAR_WATCH] = 0;
    w[RESTART] = chance(20) ? 1 : 0;
    history(m, w, 1, 60, 0, 8);
    m.finish();
    commonLabels(m);
    if (m.okAccesses && m.busErrors) nontrivial();
}

static void prop_C12()
{
    reset();
    Options o;
    if (chance(2)) o.maxRegionSize = 100000;
    Machine m(o);
    if (!begin(m, 6, true)) setup(m, chance(40));
    std::vector<unsigned> w = allOps();
    w[ALIAS] = 7; w[CREATE] = 2;
    w[SET_BREAK] = w[SET_WATCH] = 2; w[READ_COUNT] = 4; w[WAS_HIT] = 4;
    history(m, w, 3, 60, 3, 6);
    m.finish();
    commonLabels(m);
    if (m.hits) label("watchpoint hit");
    if (m.counted) label("counted reads");
    if (m.aliasAccesses) nontrivial();
}

/* Regions with sizes of eight hex digits. */
static void bigRegions()
{
    sparseBlocks = true;
    allocCap = (size_t)3 << 30;
    IMemory* mem = memInit();
    std::vector<RegionInfo> want;
    unsigned n = range(1, 2);
    for (unsigned i = 0 ; i < n ; i++)
    {
        uint32_t size = 0x10000000 + below(0x1000000), base = 0x10000000u + 0x40000000u * i + below(0x1000000);
        bool flash = chance(75);
        Result r = call([=] { MemorySim_CreateRegion(mem, base, size); if (flash) MemorySim_MakeRegionReadOnly(mem, base); });
        REQUIRE(!r.threw, "creating a region of %x bytes raised %s", size, r.text().c_str());
        want.push_back({flash, base, size});
        if (chance(50))
        {
            uint32_t at = base + 0x20000000u, len = 0x10000000u + below(size - 0x10000000u + 1);
            r = call([=] { MemorySim_CreateAlias(mem, at, base, len); });
            REQUIRE(!r.threw, "creating an alias of %x bytes raised %s", len, r.text().c_str());
            want.push_back({flash, at, len});
        }
    }
    note("%s", describe(want).c_str());
    for (int i = 0 ; i < 2 ; i++)
    {
        std::vector<RegionInfo> got = memoryMap(mem);
        REQUIRE(got == want, "the memory map lists %s but the regions are %s", describe(got).c_str(), describe(want).c_str());
    }
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu block(s) still held after clean-up", liveBlocks());
    label("sizes of 8 digits");
}

/* Very many small regions. */
static void crowd()
{
    uint32_t n = chance(3) ? 65530 + below(20) : chance(30) ? 254 + below(5) : chance(50) ? below(400) : below(3000);
    uint32_t size = chance(50) ? 1 : 1 + below(16), step = size + (chance(50) ? 0 : below(5)), first = u32() & 0x7FFFFFFF;
    uint32_t flash = chance(30) ? 0 : chance(50) ? 1 : 1 + below(7);     /* every how many are read-only */
    uint32_t aliasFrom = chance(70) ? n : below(n + 1);
    note("%u regions of %u bytes, %u apart, from %08x; every %u. is flash, from %u on they are aliases of the first", n, size, step, first, flash, aliasFrom);
    if (aliasFrom == 0) aliasFrom = 1;
    IMemory* mem = memInit();
    Result r = call([=] {
        for (uint32_t i = 0 ; i < n ; i++)
        {
            uint32_t a = first + i * step;
            if (i >= aliasFrom) { MemorySim_CreateAlias(mem, a, first, size); continue; }
            MemorySim_CreateRegion(mem, a, size);
            if (flash && i % flash == 0 && i < 5000) MemorySim_MakeRegionReadOnly(mem, a);
        }
    });
    REQUIRE(!r.threw, "creating %u regions raised %s", n, r.text().c_str());
    std::vector<RegionInfo> want;
    for (uint32_t i = 0 ; i < n ; i++)
        want.push_back({i >= aliasFrom ? flash != 0 : flash && i % flash == 0 && i < 5000, first + i * step, size});
    std::vector<RegionInfo> got = memoryMap(mem);
    if (!(got == want))
    {
        REQUIRE(got.size() == n, "the memory map lists %zu regions but there are %u", got.size(), n);
        for (uint32_t i = 0 ; i < n ; i++) REQUIRE(got[i] == want[i], "region %u of %u is listed as %s but is %s", i, n, describe({got[i]}).c_str(), describe({want[i]}).c_str());
    }
    std::string text = memoryMapText(mem);
    REQUIRE(parseMemoryMap(text) == want, "asked again, the memory map is another one");
    if (n)
    {
        uint32_t k = below(n), b = first + k * step;
        expectBytes(mem, b, std::string(size, '\0'), "one of the regions");
        expectBytes(mem, first + (n - 1) * step, std::string(size, '\0'), "the last region");
    }
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu block(s) still held after clean-up", liveBlocks());
    if (n > 255) label("over 255 regions");
    if (n > 65535) label("over 65535 regions");
}

static void prop_C13()
{
    reset();
    if (chance(2)) { crowd(); nontrivial(); return; }
    if (chance(1) && chance(10)) { bigRegions(); nontrivial(); return; }
    Options o;
    o.maxRegionSize = chance(90) ? 60 : 3000;
    o.faults = chance(12);
    bool asGdb = o.asGdb = chance(40);
    Machine m(o);
    begin(m, 5);
    if (asGdb)
    {
        static RegisterContext context;
        IMemory* mem = m.mem;
        Result r = call([=] { mriPlatform_Init(&context, mem); });
        REQUIRE(!r.threw, "initialising the debugger's side raised %s", r.text().c_str());
        label("as seen by GDB");
    }
    std::vector<unsigned> w(OPS, 0);
    w[CREATE] = 6; w[ALIAS] = 5; w[READONLY] = 5; w[LOAD] = 1; w[READ] = 1; w[WRITE] = 1; w[MEMORY_MAP] = 3; w[SET_WATCH] = 1;
    bool isLong = chance(3);
    history(m, w, 1, isLong ? 400 : 40, isLong ? 5 : 60, 0);
    if (isLong) label("long history");
    m.memoryMap();
    m.finish();
    unsigned flash = 0, ram = 0, alias = 0;
    for (auto& r : m.regs) { if (r.shownFlash) flash++; else ram++; if (r.alias) alias++; }
    if (m.regs.size() > 20) label("over 20 regions");
    if (m.faultsHit) label("an operation ran out of memory");
    if (alias && flash) label("aliases and flash");
    if (flash && ram) nontrivial();
}

/* Hundreds of breakpoints and watchpoints in one region, set in an order which makes them go in front of, behind or between those already there. */
static void crowdOfWatches()
{
    Options o;
    o.anyAddress = false;
    Machine m(o);
    m.init();
    uint32_t size = 700 + below(3000), n = chance(70) ? range(250, 300) : range(300, 700), order = below(4);
    m.create(m.layout.place(size, 1), size);
    if (chance(30)) { m.create(m.layout.place(40, 1), 40); }
    if (chance(50)) m.makeReadOnly(m.regs[0].base);
    uint32_t base = m.regs[0].base;
    for (uint32_t i = 0 ; i < n ; i++)
    {
        uint32_t len = 1 + below(4), room = size - len;
        uint32_t at = order == 0 ? (uint32_t)((uint64_t)room * (n - 1 - i) / n) : order == 1 ? (uint32_t)((uint64_t)room * i / n) : order == 2 ? below(room + 1) : i & 1 ? room - below(room / 2) : below(room / 2);
        m.setWatch(base + at, len, (int)below(4), true);
    }
    label("hundreds set");
    std::vector<unsigned> w(OPS, 0);
    w[READ] = 10; w[WRITE] = 6; w[WAS_HIT] = 9; w[SET_WATCH] = 2; w[CLEAR_WATCH] = 4; w[CLEAR_BREAK] = 3; w[SET_BREAK] = 1;
    history(m, w, 20, 80, 0, 0);
    /* Every one of a few of them still does what it should. */
    for (uint32_t i = 0, k = range(5, 30) ; i < k && !m.watches.empty() ; i++)
    {
        auto it = m.watches.begin();
        std::advance(it, (long)(chance(30) ? i < m.watches.size() ? i : 0 : below((uint32_t)m.watches.size())));
        Watch x = *it;
        if (x.region != 0) continue;
        m.wasHit();
        if (x.type == WATCHPOINT_WRITE) m.write(base + x.start, 1, below(256));
        else m.read(base + x.start, x.type == 0 && x.size >= 2 ? 2 : 1);
        m.wasHit();
        if (chance(60)) m.setWatch(base + x.start, x.size, x.type, false);
    }
    m.finish();
    if (m.hits || m.breaks) nontrivial();
}

static void prop_C14()
{
    reset();
    if (chance(1) && chance(40)) { crowdOfWatches(); return; }
    Options o;
    o.maxRegionSize = 40;
    o.anyAddress = chance(20);
    if (chance(2)) o.maxRegionSize = 70000;
    Machine m(o);
    if (!begin(m, 5)) setup(m, chance(15));
    std::vector<unsigned> w(OPS, 0);
    w[CREATE] = 1; w[ALIAS] = 1; w[READONLY] = 1; w[READ] = 10; w[WRITE] = 6; w[MAP_READ] = w[MAP_WRITE] = 1; w[LOAD] = 1;
    w[SET_BREAK] = 3; w[CLEAR_BREAK] = 2; w[SET_WATCH] = 7; w[CLEAR_WATCH] = 4; w[WAS_HIT] = 9; w[READ_COUNT] = 1; w[READ_LOOP] = chance(10) ? 1 : 0;
    bool isLong = chance(1);
    if (isLong) { w[SET_WATCH] = 30; w[SET_BREAK] = 10; w[CLEAR_WATCH] = w[CLEAR_BREAK] = 1; label("long history"); }
    history(m, w, isLong ? 100 : 4, isLong ? 900 : 80, 0, 0);
    if (chance(6))
    {
        m.restart((int)below(3));
        setup(m, chance(15));
        history(m, w, 4, 40, 0, 0);
        label("started over");
    }
    m.finish();
    commonLabels(m);
    if (m.watches.size() > 100) label("over 100 set at the end");
    if (m.breaks) label("breakpoint hit");
    if (m.hits) label("watchpoint hit");
    if (m.hits && m.breaks) label("both hit");
    if (m.watches.size() > 5) label("over 5 set at the end");
    for (auto& x : m.watches) if ((uint64_t)m.regs[x.region].base + x.start + x.size == 0x100000000ull) { label("at the top of the address space"); break; }
    if ((m.hits && m.misses) || m.breaks) nontrivial();
}

static void prop_C15()
{
    reset();
    Options o;
    o.maxRegionSize = chance(50) ? 12 : 200;
    if (chance(2)) o.maxRegionSize = 140000;
    Machine m(o);
    if (!begin(m, 5)) setup(m, chance(85));
    std::vector<unsigned> w(OPS, 0);
    w[CREATE] = 2; w[ALIAS] = 2; w[READONLY] = 2; w[READ] = 12; w[WRITE] = 2; w[MAP_READ] = 5; w[MAP_WRITE] = 1; w[LOAD] = 1;
    w[SET_WATCH] = 1; w[SET_BREAK] = chance(20) ? 1 : 0; w[READ_COUNT] = 10; w[READ_LOOP] = 1;
    history(m, w, 4, 80, 0, 0);
    if (chance(4))
    {
        m.restart((int)below(3));
        setup(m, chance(85));
        history(m, w, 4, 40, 0, 0);
        label("started over");
    }
    m.finish();
    commonLabels(m);
    if (m.counted > 5) label("over 5 counted reads");
    if (m.counted) nontrivial();
}

static void prop_C16()
{
    reset();
    IMemory* mem = memInit();
    uint32_t n = chance(10) ? below(5) : chance(2) ? value(1, 200000) : 4 + size(600);
    std::string image = bytes(n);
    uint32_t sp = 0, base = 0, ram = 0;
    if (n >= 4)
    {
        /* The RAM must not reach into the image at 0, and its size must be one which can be had. */
        base = chance(8) ? 0 : below(16) << 28;
        uint32_t kind = below(10);
        ram = kind < 2 ? 0 : kind < 8 ? size(5000) : kind == 8 ? value(0, 0x100000) : value(0x800001, 0x0FFFFFFF);
        if (chance(20)) ram &= ~3u;
        if (base == 0) { if (chance(50)) ram = 0; else base = 0x10000000; }
        sp = base + ram;
        for (int i = 0 ; i < 4 ; i++) image[(size_t)i] = (char)(sp >> (8 * i));
    }
    char* p = (char*)malloc(n ? n : 1);
    memcpy(p, image.data(), n);
    const char* q = p;
    note("image of %u bytes, stack pointer %08x", n, sp);
    /* There may be something else already. */
    std::vector<RegionInfo> prior;
    std::string priorData;
    if (chance(25))
    {
        for (uint32_t i = 0, k = range(1, 3) ; i < k ; i++)
        {
            prior.push_back({chance(40), 0xF9000000u + 0x1000 * i, 1 + below(40)});
            uint32_t at = prior.back().start, len = prior.back().length;
            bool flash = prior.back().flash;
            std::string d = bytes(len);
            const char* pd = d.data();
            Result c = call([=] { MemorySim_CreateRegion(mem, at, len); MemorySim_LoadFromFlashImage(mem, at, pd, len); if (flash) MemorySim_MakeRegionReadOnly(mem, at); });
            REQUIRE(!c.threw, "creating a region raised %s", c.text().c_str());
            priorData += d;
        }
        label("other regions before");
    }
    auto checkPrior = [&](const char* when) {
        size_t at = 0;
        for (auto& g : prior) { expectBytes(mem, g.start, priorData.substr(at, g.length), when); at += g.length; }
    };
    unsigned failAt = chance(25) ? range(1, 7) : 0;
    if (failAt) failAt += (unsigned)allocCount;
    allocFailAt = failAt;
    allocFailAllAfter = failAt && chance(30);
    Result r = call([=] { MemorySim_CreateRegionsFromFlashImage(mem, q, n); });
    bool oom = allocFailed != 0;
    allocFailAt = 0;
    std::vector<RegionInfo> want;
    if (n < 4)
    {
        REQUIRE(r.threw && r.code == bufferOverrunException, "an image of %u bytes: %s instead of the buffer overrun exception", n, r.text().c_str());
        label("image too short");
    }
    else if (oom)
    {
        REQUIRE(r.threw && r.code == outOfMemoryException, "out of memory at allocation %u: %s", failAt, r.text().c_str());
        label("out of memory");
        /* No partly built region: everything which is listed can be read wholly, and is exactly what was asked for. */
        std::vector<RegionInfo> left = memoryMap(mem);
        REQUIRE(left.size() >= prior.size() && std::equal(prior.begin(), prior.end(), left.begin()), "after running out of memory the regions are %s, before there were %s", env::describe(left).c_str(), env::describe(prior).c_str());
        left.erase(left.begin(), left.begin() + (long)prior.size());
        checkPrior("what was there before memory ran out");
        for (auto& g : left)
        {
            bool isFlash = g.flash && g.start == 0 && g.length == n, isRam = !g.flash && g.start == base && g.length == ram;
            REQUIRE(isFlash || isRam, "after running out of memory there is a region %s", env::describe({g}).c_str());
            if (isFlash) expectBytes(mem, 0, image, "flash after running out of memory");
        }
        expectUnreadable(mem, base + ram, "after running out of memory");
        if (chance(60))
        {
            /* What is created now is found, and what was there stays. */
            std::vector<RegionInfo> before = memoryMap(mem);
            uint32_t at = 0xF8000000u + below(256) * 4, len = 1 + below(40);
            bool alias = prior.empty() && !before.empty() && before[0].start == 0 && n < 0x10000000 && chance(30);
            if (alias) len = std::min(len, n);
            r = call([=] { if (alias) MemorySim_CreateAlias(mem, at, 0, len); else MemorySim_CreateRegion(mem, at, len); });
            REQUIRE(!r.threw, "creating another region after running out of memory raised %s", r.text().c_str());
            before.push_back({alias, at, len});
            REQUIRE(memoryMap(mem) == before, "after running out of memory and creating another region the regions are %s, expected %s", env::describe(memoryMap(mem)).c_str(), env::describe(before).c_str());
            expectBytes(mem, at, alias ? image.substr(0, len) : std::string(len, '\0'), "a region created after running out of memory");
            label("created more after running out of memory");
        }
        memUninit(mem);
        REQUIRE(liveBlocks() == 0, "%zu block(s) still held after running out of memory and clean-up", liveBlocks());
        mem = memInit();
        prior.clear();
        bool tooBig = ram > allocCap;
        r = call([=] { MemorySim_CreateRegionsFromFlashImage(mem, q, n); });
        REQUIRE(r.threw == tooBig, "retrying: %s", r.text().c_str());
        nontrivial();
    }
    else REQUIRE(!r.threw, "an image of %u bytes with %x bytes of RAM at %08x is refused: %s", n, ram, base, r.text().c_str());
    if (n >= 4 && !r.threw)
    {
        want = prior;
        want.push_back({true, 0, n});
        want.push_back({false, base, ram});
        checkPrior("what was there before the image");
        std::vector<RegionInfo> got = memoryMap(mem);
        REQUIRE(got == want, "regions are %s but should be %s", env::describe(got).c_str(), env::describe(want).c_str());
        expectBytes(mem, 0, image, "flash");
        expectUnreadable(mem, n, "beyond the image");
        if (ram)
        {
            expectBytes(mem, base, std::string(std::min(ram, 4000u), '\0'), "RAM");
            expectBytes(mem, base + ram - 1, std::string(1, '\0'), "end of RAM");
            uint32_t a = base + (uint32_t)draw(ram - 1);
            volatile uint8_t v = 0;
            volatile uint8_t* pv = &v;
            Result w = call([=] { IMemory_Write8(mem, a, 0xA5); *pv = IMemory_Read8(mem, a); });
            REQUIRE(!w.threw && v == 0xA5, "RAM at %08x is not writable: %s, reads %02x", a, w.text().c_str(), v);
            nontrivial();
        }
        if (base + ram >= n) expectUnreadable(mem, base + ram, "above RAM");
        if (base > n) expectUnreadable(mem, base - 1, "below RAM");
        uint32_t f = (uint32_t)draw(n - 1);
        Result w = call([=] { IMemory_Write8(mem, f, 0x5A); });
        REQUIRE(w.threw && w.code == busErrorException, "the flash at %08x: writing gives %s", f, w.text().c_str());
        expectBytes(mem, f, image.substr(f, 1), "flash after a write attempt");
        uint32_t f2 = (uint32_t)draw(n - 2);
        volatile uint32_t count = 77;
        volatile uint32_t* pc = &count;
        w = call([=] { IMemory_Read16(mem, f2); *pc = MemorySim_GetFlashReadCount(mem, f2); });
        REQUIRE(!w.threw && count == 1, "the flash at %08x has read count %u after one read (%s)", f2, count, w.text().c_str());
        if (n % 4) label("size not a multiple of 4");
    }
    if (n < 4) { want = prior; REQUIRE(memoryMap(mem) == want, "a too short image left a region"); }
    free(p);
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu block(s) still held after clean-up", liveBlocks());
}

void addMemProps(std::vector<Property>& v)
{
    v.push_back({"C11", prop_C11, 1250000, 8000000,
        "Histories of region creations, read-only markings, flash loads, reads, writes and host mappings at addresses in and around the regions, against a model; everything is compared at the end and now and then in between. "
        "Some begin with what a command line loads. Non-trivial: at least one access succeeded and one had to fail.", {}});
    v.push_back({"C12", prop_C12, 750000, 8000000,
        "The same histories with aliases (of regions, of the middle of regions, through other aliases, too long, to unmapped addresses), breakpoints, watchpoints and read counts.  Some begin with what a command line loads. Non-trivial: an access through an alias.", {}});
    v.push_back({"C13", prop_C13, 60000, 4000000,
        "Histories of region and alias creations (some of which fail, for want of memory too) and read-only markings, up to 400 operations and sizes up to eight digits; the memory map text, and what the debug monitor is given for it, is parsed strictly and compared with the model. "
        "Some begin with what a command line loads. Non-trivial: both flash and RAM present.", {}});
    v.push_back({"C14", prop_C14, 1200000, 10000000,
        "Histories of setting and clearing break/watchpoints (up to hundreds in one region) and accesses close to them, with aliases, host mappings and loads in between, against a set model.  Some begin with what a command line loads. Non-trivial: a hit together with a near miss, or a breakpoint hit.", {}});
    v.push_back({"C15", prop_C15, 400000, 8000000,
        "Histories of reads of all sizes, host mappings, writes and loads on small regions and aliases, with read counts asked for in between and for all slots at the end.  Some begin with what a command line loads. Non-trivial: at least one counted read.", {}});
    v.push_back({"C16", prop_C16, 1000000, 8000000,
        "Images of 0 to 200 KB with a generated stack pointer, with and without one allocation failing. Non-trivial: RAM of non-zero size, or memory running out.", {}});
}
