#include "machine.h"
#include <tuple>
extern "C" {
#include <buffer.h>
#include <platforms.h>
#include <mri.h>
#include <mriPlatform.h>
}

using namespace pbt;
using namespace env;

namespace machine {

std::vector<unsigned> allOps()
{
    std::vector<unsigned> w(OPS, 0);
    w[CREATE] = 3; w[ALIAS] = 3; w[READONLY] = 2; w[LOAD] = 2; w[READ] = 8; w[WRITE] = 8; w[MAP_READ] = 2; w[MAP_WRITE] = 2;
    w[MEMORY_MAP] = 2; w[SET_BREAK] = 1; w[CLEAR_BREAK] = 1; w[SET_WATCH] = 2; w[CLEAR_WATCH] = 1; w[WAS_HIT] = 2; w[READ_COUNT] = 2; w[RESTART] = 0;
    return w;
}

void Machine::init()
{
    mem = memInit();
    REQUIRE(mem != nullptr, "MemorySim_Init() returned NULL");
}

/* Run an operation; with faults on, first make one of its allocations fail and check that nothing came of it. */
template<class F> Result Machine::exec(const char* what, F f)
{
    if (o.faults && chance(40))
    {
        size_t live = liveBlocks();
        uint64_t failedBefore = allocFailed;
        allocFailAt = allocCount + 1 + below(3);
        allocFailAllAfter = chance(30);
        Result r = call(f);
        allocFailAt = 0;
        allocFailAllAfter = false;
        if (allocFailed == failedBefore) return r;
        faultsHit++;
        REQUIRE(r.threw && r.code == outOfMemoryException, "%s while out of memory: %s instead of the out of memory exception", what, r.text().c_str());
        REQUIRE(liveBlocks() == live, "%s while out of memory: %zu blocks are held afterwards, %zu before", what, liveBlocks(), live);
        o.faults = false;
        verifyAll("after an operation ran out of memory");
        o.faults = true;
    }
    return call(f);
}

uint32_t Machine::pickAddress(uint32_t n)
{
    if (regs.empty() || (o.anyAddress && chance(2))) return u32();
    if (o.anyAddress && chance(2))
    {
        const Region& r = regs[below((uint32_t)regs.size())];
        return chance(80) ? gen::lookalike(r.base + below(r.size ? r.size : 1)) : gen::special();
    }
    if (!watches.empty() && chance(35))
    {
        auto it = watches.begin();
        std::advance(it, (long)below((uint32_t)watches.size()));
        uint64_t base = regs[it->region].base + it->start;
        uint64_t a;
        switch (below(3))
        {
        case 0:  a = base + below(5) - 2; break;
        case 1:  a = base + it->size - n + below(5) - 2; break;
        default: a = base + (it->size ? below(it->size) : 0); break;
        }
        /* Perhaps through an alias of that region. */
        if (chance(30))
            for (auto& r : regs)
                if (r.alias && r.target == it->region && a - regs[it->region].base - r.offset < r.size) { a = a - regs[it->region].base - r.offset + r.base; break; }
        return (uint32_t)a;
    }
    const Region& r = regs[below((uint32_t)regs.size())];
    if (r.size >= n && !chance(22)) return r.base + (uint32_t)draw(r.size - n, chance(50) ? STRUCT : VALUE);
    switch (below(3))
    {
    case 0:  return r.base + below(9) - 4;
    case 1:  return r.base + r.size - n + below(9) - 4;
    default: return r.base + r.size + below(5) - 2;
    }
}

void Machine::create(uint32_t base, uint32_t size)
{
    IMemory* m = mem;
    if (wantNote()) note("create region %08x size %x", base, size);
    Result r = exec("creating a region", [=] { MemorySim_CreateRegion(m, base, size); });
    if (size > allocCap)
    {
        REQUIRE(r.threw && r.code == outOfMemoryException, "creating a region of %x bytes while only %zx can be obtained: %s", size, allocCap, r.text().c_str());
        return;
    }
    REQUIRE(!r.threw, "creating a region at %08x of size %x raised %s", base, size, r.text().c_str());
    Region g;
    g.base = base;
    g.size = size;
    g.data.assign(size, '\0');
    regs.push_back(g);
    layout.add(base, size);
    mapStale = true;
}

void Machine::createAlias(uint32_t base, uint32_t redirect, uint32_t size)
{
    IMemory* m = mem;
    if (wantNote()) note("create alias %08x -> %08x size %x", base, redirect, size);
    Place t = find(redirect, 1);
    Result r = exec("creating an alias", [=] { MemorySim_CreateAlias(m, base, redirect, size); });
    if (r.threw && r.code == outOfMemoryException && size > allocCap) return;
    if (!t.ok)
    {
        REQUIRE(r.threw && r.code == busErrorException, "an alias to %08x, which is not mapped: %s instead of a bus error", redirect, r.text().c_str());
        busErrors++;
        return;
    }
    REQUIRE(!r.threw, "creating an alias of %08x at %08x size %x raised %s", redirect, base, size, r.text().c_str());
    for (auto& x : regs) if (x.alias && redirect >= x.base && redirect - x.base < x.size) { nested++; break; }
    Region g;
    g.base = base;
    g.alias = true;
    g.target = t.region;
    g.offset = t.offset;
    g.size = std::min(size, regs[t.region].size - t.offset);
    g.shownFlash = regs[t.region].readOnly;
    regs.push_back(g);
    layout.add(base, g.size);
    mapStale = true;
}

void Machine::makeReadOnly(uint32_t address)
{
    IMemory* m = mem;
    if (wantNote()) note("make %08x read-only", address);
    Place t = find(address, 1);
    Result r = exec("marking a region read-only", [=] { MemorySim_MakeRegionReadOnly(m, address); });
    if (!t.ok)
    {
        REQUIRE(r.threw && r.code == busErrorException, "marking %08x, which is not mapped, as read-only: %s instead of a bus error", address, r.text().c_str());
        busErrors++;
        return;
    }
    REQUIRE(!r.threw, "marking %08x as read-only raised %s", address, r.text().c_str());
    Region& g = regs[t.region];
    if (!g.readOnly)
    {
        g.countMin.assign(g.size / 2, 0);
        g.countMax = g.countMin;
    }
    g.readOnly = g.shownFlash = true;
    mapStale = true;
}

void Machine::load(uint32_t address, const std::string& data)
{
    IMemory* m = mem;
    if (wantNote()) note("load %zu bytes at %08x", data.size(), address);
    char* p = (char*)malloc(data.size() ? data.size() : 1);
    memcpy(p, data.data(), data.size());
    uint32_t n = (uint32_t)data.size();
    Result r = exec("loading flash", [=] { MemorySim_LoadFromFlashImage(m, address, p, n); });
    free(p);
    Place t = find(address, n);
    if (n == 0) { REQUIRE(!r.threw, "loading nothing raised %s", r.text().c_str()); return; }
    if (t.ok)
    {
        REQUIRE(!r.threw, "loading %u bytes at %08x raised %s", n, address, r.text().c_str());
        regs[t.region].data.replace(t.offset, n, data);
        return;
    }
    /* Not wholly inside one region: may continue in the next one; what was loaded before an error is not specified. */
    uint32_t a = address;
    bool all = true;
    for (uint32_t i = 0 ; i < n ; i++, a++)
    {
        Place b = find(a, 1);
        if (!b.ok) { all = false; break; }
        uint8_t got;
        const uint8_t* volatile q = nullptr;
        const uint8_t* volatile* pq = &q;
        Result g = call([=] { *pq = (const uint8_t*)MemorySim_MapSimulatedAddressToHostAddressForRead(m, a, 1); });
        REQUIRE(!g.threw, "mapping %08x raised %s", a, g.text().c_str());
        got = *q;
        std::string& d = regs[b.region].data;
        REQUIRE(got == (uint8_t)d[b.offset] || data.find((char)got) != std::string::npos, "byte at %08x is %02x after a failed load: neither the old nor the new value", a, got);
        d[b.offset] = (char)got;
    }
    if (!all) REQUIRE(r.threw && r.code == busErrorException, "loading %u bytes at %08x, which is not all mapped: %s instead of a bus error", n, address, r.text().c_str());
    else if (r.threw) REQUIRE(r.code == busErrorException, "loading raised %s", r.text().c_str());
    busErrors++;
}

/* Model side effects of an access to a mapped place. */
void Machine::access(const Place& p, uint32_t size, bool writing, bool* wantBreak)
{
    Region& g = regs[p.region];
    *wantBreak = false;
    bool within = false;
    for (auto& w : watches)
    {
        if (w.region != p.region) continue;
        bool in = p.offset >= w.start && (uint64_t)p.offset + size <= w.start + w.size;
        if (w.type == 0) { if (in && !writing && size == 2) *wantBreak = true; continue; }
        bool match = (w.type & (writing ? WATCHPOINT_WRITE : WATCHPOINT_READ)) != 0;
        if (in && match) within = true;
        else misses++;
    }
    if (*wantBreak)
    {
        breaks++;
        if (within && hit == 0) hit = 2;        /* which of the two is seen first is not specified */
    }
    else if (within) { hit = 1; hits++; }
    if (!writing && size == 2 && g.readOnly && p.offset / 2 < g.countMin.size())
    {
        g.countMax[p.offset / 2]++;
        if (!*wantBreak) g.countMin[p.offset / 2]++;
        counted++;
    }
}

static bool inAlias(const std::vector<Region>& regs, uint32_t a)
{
    for (auto& r : regs) if (r.alias && a >= r.base && a - r.base < r.size) return true;
    return false;
}

void Machine::read(uint32_t address, unsigned size)
{
    IMemory* m = mem;
    volatile uint32_t v = 0;
    volatile uint32_t* pv = &v;
    if (wantNote()) note("read%u %08x", size * 8, address);
    Result r = exec("reading", [=] {
        *pv = size == 4 ? IMemory_Read32(m, address) : size == 2 ? IMemory_Read16(m, address) : IMemory_Read8(m, address);
    });
    Place p = find(address, size);
    if (!p.ok)
    {
        REQUIRE(r.threw && r.code == busErrorException, "%u-bit read at %08x outside any region: %s instead of a bus error", size * 8, address, r.text().c_str());
        busErrors++;
        if (find(address, 1).ok || find(address + size - 1, 1).ok) straddles++;
        return;
    }
    bool wantBreak;
    access(p, size, false, &wantBreak);
    if (wantBreak)
    {
        REQUIRE(r.threw && r.code == hardwareBreakpointException, "16-bit read at %08x inside a breakpoint: %s instead of the breakpoint exception", address, r.text().c_str());
        return;
    }
    REQUIRE(!r.threw, "%u-bit read at %08x raised %s", size * 8, address, r.text().c_str());
    uint32_t want = 0;
    for (unsigned i = 0 ; i < size ; i++) want |= (uint32_t)(uint8_t)regs[p.region].data[p.offset + i] << (8 * i);
    REQUIRE(v == want, "%u-bit read at %08x returned %x, expected %x", size * 8, address, v, want);
    okAccesses++;
    if (inAlias(regs, address)) aliasAccesses++;
}

/* Many 16-bit reads of one address, as in a loop which waits for something. */
void Machine::readLoop(uint32_t address, uint32_t times)
{
    IMemory* m = mem;
    volatile uint32_t v = 0, done = 0;
    volatile uint32_t *pv = &v, *pd = &done;
    if (wantNote()) note("%u times read16 %08x", times, address);
    Place p = find(address, 2);
    Result r = call([=] { for (uint32_t i = 0 ; i < times ; i++) { *pv = IMemory_Read16(m, address); (*pd)++; } });
    if (!p.ok)
    {
        REQUIRE(r.threw && r.code == busErrorException, "16-bit read at %08x outside any region: %s instead of a bus error", address, r.text().c_str());
        busErrors++;
        return;
    }
    bool wantBreak;
    access(p, 2, false, &wantBreak);
    if (wantBreak)
    {
        REQUIRE(r.threw && r.code == hardwareBreakpointException, "16-bit read at %08x inside a breakpoint: %s instead of the breakpoint exception", address, r.text().c_str());
        return;
    }
    REQUIRE(!r.threw && done == times, "16-bit read at %08x raised %s after %u reads", address, r.text().c_str(), done);
    Region& g = regs[p.region];
    if (g.readOnly && p.offset / 2 < g.countMin.size()) { g.countMin[p.offset / 2] += times - 1; g.countMax[p.offset / 2] += times - 1; }
    uint32_t want = (uint32_t)(uint8_t)g.data[p.offset] | (uint32_t)(uint8_t)g.data[p.offset + 1] << 8;
    REQUIRE(v == want, "16-bit read at %08x returned %x, expected %x", address, v, want);
    okAccesses++;
}

void Machine::write(uint32_t address, unsigned size, uint32_t value)
{
    IMemory* m = mem;
    if (wantNote()) note("write%u %08x = %x", size * 8, address, value);
    Result r = exec("writing", [=] {
        if (size == 4) IMemory_Write32(m, address, value);
        else if (size == 2) IMemory_Write16(m, address, (uint16_t)value);
        else IMemory_Write8(m, address, (uint8_t)value);
    });
    Place p = find(address, size);
    if (!p.ok || regs[p.region].readOnly)
    {
        REQUIRE(r.threw && r.code == busErrorException, "%u-bit write at %08x %s: %s instead of a bus error", size * 8, address,
                p.ok ? "in a read-only region" : "outside any region", r.text().c_str());
        busErrors++;
        if (p.ok) roWrites++;
        else if (find(address, 1).ok || find(address + size - 1, 1).ok) straddles++;
        return;
    }
    bool wantBreak;
    access(p, size, true, &wantBreak);
    REQUIRE(!r.threw, "%u-bit write at %08x raised %s", size * 8, address, r.text().c_str());
    for (unsigned i = 0 ; i < size ; i++) regs[p.region].data[p.offset + i] = (char)(value >> (8 * i));
    okAccesses++;
    if (inAlias(regs, address)) aliasAccesses++;
}

void Machine::mapRead(uint32_t address, uint32_t size)
{
    IMemory* m = mem;
    const uint8_t* volatile q = nullptr;
    const uint8_t* volatile* pq = &q;
    if (wantNote()) note("map for reading %08x size %x", address, size);
    Result r = exec("mapping for reading", [=] { *pq = (const uint8_t*)MemorySim_MapSimulatedAddressToHostAddressForRead(m, address, size); });
    Place p = find(address, size);
    if (!p.ok)
    {
        REQUIRE(r.threw && r.code == busErrorException, "mapping %x bytes at %08x, not inside one region, for reading: %s instead of a bus error", size, address, r.text().c_str());
        busErrors++;
        return;
    }
    REQUIRE(!r.threw, "mapping %x bytes at %08x for reading raised %s", size, address, r.text().c_str());
    Region& g = regs[p.region];
    if (size == 2 && g.readOnly && p.offset / 2 < g.countMin.size()) { g.countMin[p.offset / 2]++; g.countMax[p.offset / 2]++; counted++; }
    REQUIRE(memcmp((const void*)q, g.data.data() + p.offset, size) == 0, "the %x bytes mapped for reading at %08x are %s, expected %s", size, address,
            hexdump((const void*)q, size).c_str(), hexdump(g.data.data() + p.offset, size).c_str());
    if (held.size() < 8) held.push_back({q, p.region, p.offset, size});
    okAccesses++;
    if (inAlias(regs, address)) aliasAccesses++;
}

void Machine::mapWrite(uint32_t address, uint32_t size)
{
    IMemory* m = mem;
    uint8_t* volatile q = nullptr;
    uint8_t* volatile* pq = &q;
    if (wantNote()) note("map for writing %08x size %x", address, size);
    Result r = exec("mapping for writing", [=] { *pq = (uint8_t*)MemorySim_MapSimulatedAddressToHostAddressForWrite(m, address, size); });
    Place p = find(address, size);
    if (!p.ok || regs[p.region].readOnly)
    {
        REQUIRE(r.threw && r.code == busErrorException, "mapping %x bytes at %08x, %s, for writing: %s instead of a bus error", size, address,
                p.ok ? "read-only" : "not inside one region", r.text().c_str());
        busErrors++;
        return;
    }
    REQUIRE(!r.threw, "mapping %x bytes at %08x for writing raised %s", size, address, r.text().c_str());
    std::string& d = regs[p.region].data;
    REQUIRE(memcmp((const void*)q, d.data() + p.offset, size) == 0, "the %x bytes mapped for writing at %08x are not the contents of the memory", size, address);
    std::string data = bytes(std::min<uint32_t>(size, 64));
    memcpy((void*)q, data.data(), data.size());
    d.replace(p.offset, data.size(), data);
    if (held.size() < 8) held.push_back({q, p.region, p.offset, size});
    okAccesses++;
    if (inAlias(regs, address)) aliasAccesses++;
}

void Machine::memoryMap()
{
    IMemory* m = mem;
    const char* volatile p = nullptr;
    const char* volatile* pp = &p;
    Result r = exec("asking for the memory map", [=] { *pp = MemorySim_GetMemoryMapXML(m); });
    REQUIRE(!r.threw && p, "asking for the memory map raised %s", r.text().c_str());
    std::string text((const char*)p);
    if (!mapStale) REQUIRE(text == lastMap, "the memory map changed although no region did: %s, was %s", quote(text, 900).c_str(), quote(lastMap, 900).c_str());
    lastMap = text;
    mapStale = false;
    std::vector<RegionInfo> got = parseMemoryMap(text), want;
    for (auto& g : regs) want.push_back({g.shownFlash, g.base, g.size});
    REQUIRE(got == want, "the memory map lists %s but the regions are %s", env::describe(got).c_str(), env::describe(want).c_str());
    if (o.asGdb)
    {
        static RegisterContext context;
        volatile uint32_t size = 0;
        volatile uint32_t* ps = &size;
        bool init = chance(25), sizeFirst = chance(70);
        r = call([=] {
            if (init) mriPlatform_Init(&context, m);
            if (sizeFirst) *ps = Platform_GetDeviceMemoryMapXmlSize();
            *pp = Platform_GetDeviceMemoryMapXml();
            if (!sizeFirst) *ps = Platform_GetDeviceMemoryMapXmlSize();
            if (!sizeFirst) *pp = Platform_GetDeviceMemoryMapXml();
        });
        REQUIRE(!r.threw && p, "asking for the memory map as the debug monitor does raised %s", r.text().c_str());
        REQUIRE(text == (const char*)p, "GDB is given the memory map %s, but it is %s", quote((const char*)p, 900).c_str(), quote(text, 900).c_str());
        REQUIRE(size == text.size(), "GDB is told that the memory map has %u characters, but it has %zu", size, text.size());
    }
}

void Machine::setWatch(uint32_t address, uint32_t size, int type, bool set)
{
    IMemory* m = mem;
    if (wantNote()) note("%s %s %08x size %x", set ? "set" : "clear", type == 0 ? "breakpoint" : type == 1 ? "read watchpoint" : type == 2 ? "write watchpoint" : "read/write watchpoint", address, size);
    Result r = exec(set ? "setting a breakpoint or watchpoint" : "clearing a breakpoint or watchpoint", [=] {
        if (type == 0) { if (set) MemorySim_SetHardwareBreakpoint(m, address, size); else MemorySim_ClearHardwareBreakpoint(m, address, size); }
        else if (set) MemorySim_SetHardwareWatchpoint(m, address, size, (WatchpointType)type);
        else MemorySim_ClearHardwareWatchpoint(m, address, size, (WatchpointType)type);
    });
    Place p = find(address, size);
    if (!p.ok)
    {
        REQUIRE(r.threw && r.code == busErrorException, "a break or watchpoint at %08x size %x, not inside one region: %s instead of a bus error", address, size, r.text().c_str());
        busErrors++;
        return;
    }
    if (size == 0 && r.threw) { REQUIRE(r.code == busErrorException, "raised %s", r.text().c_str()); return; }
    REQUIRE(!r.threw, "%s a break or watchpoint at %08x size %x raised %s", set ? "setting" : "clearing", address, size, r.text().c_str());
    Watch w{p.region, p.offset, size, type};
    if (set) watches.insert(w);
    else watches.erase(w);
}

void Machine::wasHit()
{
    IMemory* m = mem;
    volatile int v = 0;
    volatile int* pv = &v;
    Result r = exec("asking for the watchpoint indication", [=] { *pv = MemorySim_WasWatchpointEncountered(m); });
    REQUIRE(!r.threw, "asking for the watchpoint indication raised %s", r.text().c_str());
    if (wantNote()) note("watchpoint indication: %d", v);
    if (hit != 2) REQUIRE((v != 0) == (hit == 1), "the watchpoint indication is %d, but %s", v, hit ? "a watchpoint was hit since it was last asked for" : "no watchpoint was hit since it was last asked for");
    hit = 0;
}

void Machine::readCount(uint32_t address)
{
    IMemory* m = mem;
    volatile uint32_t v = 0;
    volatile uint32_t* pv = &v;
    Result r = exec("asking for a read count", [=] { *pv = MemorySim_GetFlashReadCount(m, address); });
    Place p = find(address, 2);
    bool ok = p.ok && regs[p.region].readOnly;
    if (!ok)
    {
        REQUIRE(r.threw && r.code == busErrorException, "the read count of %08x, %s: %s instead of a bus error", address,
                p.ok ? "which is in writable memory" : "which is not wholly inside a region", r.text().c_str());
        busErrors++;
        return;
    }
    REQUIRE(!r.threw, "the read count of %08x raised %s", address, r.text().c_str());
    Region& g = regs[p.region];
    uint32_t lo = g.countMin[p.offset / 2], hi = g.countMax[p.offset / 2];
    if (wantNote()) note("read count of %08x: %u", address, v);
    REQUIRE(v >= lo && v <= hi, "the read count of %08x is %u, but %u 16-bit reads were made", address, v, lo);
}

void Machine::restart(int style)
{
    IMemory* m = mem;
    if (wantNote()) note("clean up and start over");
    Result r = call([=] {
        MemorySim_Uninit(m);
        if (style == 1) MemorySim_Uninit(m);
        if (style == 2) MemorySim_Uninit(NULL);
    });
    REQUIRE(!r.threw, "cleaning up raised %s", r.text().c_str());
    REQUIRE(liveBlocks() == 0, "%zu block(s) still held after clean-up", liveBlocks());
    uint32_t a = regs.empty() ? 0 : regs[below((uint32_t)regs.size())].base;
    regs.clear();
    watches.clear();
    layout.used.clear();
    held.clear();
    hit = 0;
    mapStale = true;
    mem = memInit();
    read(a, 1);
    memoryMap();
    wasHit();
}

void Machine::verifyAll(const char* when)
{
    bool notes = o.faults;
    o.faults = false;
    memoryMap();
    IMemory* m = mem;
    for (size_t i = 0 ; i < regs.size() ; i++)
    {
        Region& g = regs[i];
        if (g.size == 0) continue;
        const std::string& d = g.alias ? regs[g.target].data : g.data;
        uint32_t off = g.alias ? g.offset : 0;
        uint32_t base = g.base, size = g.size, step = size == 2 ? 1 : size;
        for (uint32_t k = 0 ; k < size ; k += step)
        {
            const uint8_t* volatile q = nullptr;
            const uint8_t* volatile* pq = &q;
            Result r = call([=] { *pq = (const uint8_t*)MemorySim_MapSimulatedAddressToHostAddressForRead(m, base + k, step); });
            REQUIRE(!r.threw, "%s: the region at %08x can not be mapped: %s", when, base, r.text().c_str());
            if (memcmp((const void*)q, d.data() + off + k, step))
            {
                uint32_t j = 0;
                while (q[j] == (uint8_t)d[off + k + j]) j++;
                fail("%s: the byte at %08x is %02x, expected %02x", when, base + k + j, q[j], (uint8_t)d[off + k + j]);
            }
        }
    }
    for (auto& h : held)
        REQUIRE(memcmp(h.p, regs[h.region].data.data() + h.offset, h.size) == 0, "%s: an earlier host mapping of %08x no longer shows the contents of the memory", when,
                regs[h.region].base + h.offset);
    o.faults = notes;
}

void Machine::finish()
{
    o.faults = false;
    verifyAll("at the end");
    wasHit();
    for (size_t i = 0 ; i < regs.size() ; i++)
        if (!regs[i].alias && regs[i].readOnly && counted)
            for (uint32_t k = 0 ; k + 1 < regs[i].size ; k += std::max(1u, regs[i].size / 64)) readCount(regs[i].base + k);
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu block(s) still held after clean-up", liveBlocks());
}

void Machine::step(const std::vector<unsigned>& weights)
{
    static const uint32_t sizes[3] = {1, 2, 4};
    if (regs.empty() && (weights[CREATE] == 0 || chance(85)))
    {
        uint32_t n = 1 + pbt::size(o.maxRegionSize - 1);
        create(layout.place(n, 1), n);
        return;
    }
    Op op = (Op)weighted(weights);
    switch (op)
    {
    case CREATE:
    {
        uint32_t n = o.zeroSizes && chance(3) ? 0 : 1 + pbt::size(o.maxRegionSize - 1);
        if (chance(1)) n = value((uint32_t)allocCap + 1, 0xFFFFFFFFu);
        create(n > allocCap ? u32() : layout.place(n, 1), n);
        break;
    }
    case ALIAS:
    {
        uint32_t redirect = chance(8) ? u32() : pickAddress(1);
        Place t = find(redirect, 1);
        uint32_t left = t.ok ? regs[t.region].size - t.offset : 16;
        uint32_t n;
        switch (below(4))
        {
        case 0:  n = left + below(5) - 2; if (n > left + 2) n = left; break;
        case 1:  n = 1 + pbt::size(o.maxRegionSize - 1); break;
        case 2:  n = below(left + 1); break;
        default: n = chance(10) ? u32() : value(0, o.maxRegionSize * 3); break;
        }
        if (n == 0 && !o.zeroSizes) n = 1;
        if (t.ok && chance(2))
        {
            /* Of itself: the same memory at the same address, listed once more. */
            uint32_t end = 0;
            for (auto& r : regs) if (redirect >= r.base && redirect - r.base < r.size) { end = r.size - (redirect - r.base); break; }
            label("alias of itself");
            createAlias(redirect, redirect, std::min(n, end));
            break;
        }
        uint32_t clipped = std::min(n, left);
        createAlias(layout.place(clipped, 1), redirect, n);
        break;
    }
    case READONLY: makeReadOnly(pickAddress(1)); break;
    case LOAD:
    {
        uint32_t n = chance(5) ? pbt::size(o.maxRegionSize) : pbt::size(12);
        uint32_t a = pickAddress(std::max(1u, n));
        load(a, bytes(n));
        break;
    }
    case READ:  { unsigned s = sizes[below(3)]; read(pickAddress(s), s); break; }
    case WRITE: { unsigned s = sizes[below(3)]; uint32_t a = pickAddress(s); write(a, s, chance(50) ? (uint32_t)draw(0xFFFFFFFFu) : u32()); break; }
    case MAP_READ: case MAP_WRITE:
    {
        uint32_t n;
        if (chance(40)) n = sizes[below(3)];
        else n = 1 + pbt::size(regs.empty() ? 8 : regs[below((uint32_t)regs.size())].size + 1);
        uint32_t a = pickAddress(n);
        if (op == MAP_READ) mapRead(a, n);
        else mapWrite(a, n);
        break;
    }
    case MEMORY_MAP: memoryMap(); break;
    case SET_BREAK: case CLEAR_BREAK: case SET_WATCH: case CLEAR_WATCH:
    {
        bool set = op == SET_BREAK || op == SET_WATCH, brk = op == SET_BREAK || op == CLEAR_BREAK;
        int type = brk ? 0 : (int)range(1, 3);
        if (!watches.empty() && chance(set ? 15 : 75))
        {
            /* One which is set, exactly or almost. */
            auto it = watches.begin();
            std::advance(it, (long)below((uint32_t)watches.size()));
            uint32_t a = regs[it->region].base + (uint32_t)it->start, n = it->size;
            if (chance(25))
                for (auto& r : regs)
                    if (r.alias && r.target == it->region && it->start >= r.offset && it->start - r.offset + n <= r.size) { a = (uint32_t)(it->start - r.offset) + r.base; break; }
            if (chance(70)) type = it->type;
            if (chance(10)) n += below(3) - 1;
            if (chance(10)) a += below(3) - 1;
            if (chance(4)) n ^= 1u << below(32);        /* the same in all bits but one */
            else if (chance(4)) a ^= 1u << below(32);
            setWatch(a, n, type, set);
            break;
        }
        uint32_t n;
        switch (below(4))
        {
        case 0:  n = sizes[below(3)]; break;
        case 1:  n = 1 + below(8); break;
        case 2:  n = o.zeroSizes && chance(10) ? 0 : 1 + pbt::size(64); break;
        default: n = 1 + pbt::size(regs.empty() ? 8 : regs[below((uint32_t)regs.size())].size); break;
        }
        setWatch(pickAddress(n), n, type, set);
        break;
    }
    case WAS_HIT: wasHit(); break;
    case READ_COUNT: readCount(pickAddress(2)); break;
    case RESTART: restart((int)below(3)); break;
    case READ_LOOP:
    {
        uint32_t times = chance(12) ? 256u << below(chance(30) ? 9 : 3) : chance(80) ? range(1, 300) : chance(20) ? 65530 + below(1000) : range(250, 5000);
        uint32_t a = pickAddress(2);
        readLoop(a, times);
        if (chance(50)) readCount(a);
        if (chance(50)) wasHit();
        break;
    }
    default: break;
    }
}

} /* namespace machine */
