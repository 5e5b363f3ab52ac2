/* C17 - C22: what the debug monitor core asks of the crashed device. */
#include "props.h"
#include "client.h"
extern "C" {
#include <buffer.h>
#include <platforms.h>
#include <mri.h>
#include <semihost.h>
}

using namespace pbt;
using namespace env;
using namespace client;

namespace {

/* A register context in a block of its own, next to a model of it. */
struct Ctx
{
    RegisterContext* real;
    RegisterContext  want;
    Ctx()
    {
        real = (RegisterContext*)malloc(sizeof(*real));
        memset(real, 0, sizeof(*real));
    }
    ~Ctx() { free(real); }
    Ctx(const Ctx&) = delete;
    void randomize()
    {
        gen::fillContext(&want, u32());
        want.flags = chance(80) ? below(2) : u32();
        want.exceptionPSR = u32();
        for (unsigned i = 0 ; more(60, i, 8) ; i++) want.R[below(TOTAL_REG_COUNT)] = u32();
        for (unsigned i = 0 ; more(50, i, 8) ; i++) want.FPR[below(TOTAL_FPREG_COUNT)] = u32();
        *real = want;
    }
    bool fp() const { return want.flags & CRASH_CATCHER_FLAGS_FLOATING_POINT; }
    void check(const char* what) const { scenario::expectContext(*real, want, what); }
    Device device(model::Memory* m) { return Device{&want, m, "", ""}; }
};

struct Text
{
    char*  block;
    size_t size;
    Buffer b;
    explicit Text(size_t n) : block((char*)malloc(n ? n : 1)), size(n) { Buffer_Init(&b, block, n); }
    ~Text() { free(block); }
    std::string written() const { return std::string(b.pStart, (size_t)(b.pCurrent - b.pStart)); }
};

model::Memory   g_noMem;

std::string copyOut(size_t room)
{
    Text t(room);
    Buffer* pB = &t.b;
    Result r = call([=] { Platform_CopyContextToBuffer(pB); });
    REQUIRE(!r.threw, "reading the registers raised %s", r.text().c_str());
    REQUIRE(!Buffer_OverrunDetected(&t.b), "the register block did not fit in %zu characters", room);
    return t.written();
}

void copyIn(const std::string& hex)
{
    Text t(hex.size());
    memcpy(t.block, hex.data(), hex.size());
    Buffer* pB = &t.b;
    Result r = call([=] { Platform_CopyContextFromBuffer(pB); });
    REQUIRE(!r.threw, "writing the registers raised %s", r.text().c_str());
    REQUIRE(!Buffer_OverrunDetected(&t.b), "writing the registers read more than the %zu characters of the block", hex.size());
}

std::string stopText()
{
    Text t(200);
    Buffer* pB = &t.b;
    Result r = call([=] { Platform_WriteTResponseRegistersToBuffer(pB); });
    REQUIRE(!r.threw, "writing the stop report raised %s", r.text().c_str());
    return t.written();
}

void platformInit(RegisterContext* p, IMemory* mem)
{
    Result r = call([=] { mriPlatform_Init(p, mem); });
    REQUIRE(!r.threw, "initialising raised %s", r.text().c_str());
}

int signalNow()
{
    volatile int v = 0;
    volatile int* pv = &v;
    Result r = call([=] { *pv = Platform_DetermineCauseOfException(); });
    REQUIRE(!r.threw, "asking for the signal raised %s", r.text().c_str());
    return v;
}

/* ------------------------------------------------------------------ C17 */
void prop_C17()
{
    reset();
    IMemory* mem = memInit();
    {
        Ctx c[2];
        c[0].randomize();
        c[1].randomize();
        unsigned at = 0, reads = 0, writes = 0;
        platformInit(c[0].real, mem);
        std::vector<unsigned> w = swarm({5, 5, 4, 2, 1});
        for (unsigned i = 0 ; i < 1 || more(85, i, 20) ; i++)
        {
            Ctx& x = c[at];
            Device d = x.device(&g_noMem);
            std::string regs = d.registers();
            switch (weighted(w))
            {
            case 0:
            {
                std::string got = copyOut(chance(50) ? regs.size() : regs.size() + below(200));
                note("read");
                REQUIRE(got == regs, "the register block is %s, expected %s", got.c_str(), regs.c_str());
                reads++;
                break;
            }
            case 1:
            {
                RegisterContext v = x.want;
                if (chance(70)) { gen::fillContext(&v, u32()); v.flags = x.want.flags; v.exceptionPSR = x.want.exceptionPSR; }
                for (unsigned k = 0 ; more(60, k, 6) ; k++)
                {
                    if (x.fp() && chance(50)) v.FPR[below(TOTAL_FPREG_COUNT)] = u32();
                    else v.R[below(TOTAL_REG_COUNT)] = u32();
                }
                if (!x.fp()) memcpy(v.FPR, x.want.FPR, sizeof(v.FPR));
                std::string hex = Device{&v, &g_noMem, "", ""}.registers();
                if (chance(40)) hex = scenario::anyCase(hex);
                note("write %s", hex.c_str());
                copyIn(hex);
                x.want = v;
                writes++;
                break;
            }
            case 2:
            {
                std::string got = stopText(), want = d.stop().substr(3);
                note("stop report");
                REQUIRE(got == want, "the stop report lists %s, expected %s", got.c_str(), want.c_str());
                break;
            }
            case 3:
            {
                note("registers change");
                x.randomize();
                break;
            }
            default:
                at ^= 1;
                note("another session");
                platformInit(c[at].real, mem);
                break;
            }
            c[0].check("context");
            c[1].check("other context");
        }
        for (int k = 0 ; k < 2 ; k++)
        {
            std::string want = c[at].device(&g_noMem).registers(), got = copyOut(want.size());
            REQUIRE(got == want, "the register block is %s at the end, expected %s", got.c_str(), want.c_str());
        }
        if (c[at].fp()) label("floating point registers");
        if (reads && writes) nontrivial();
    }
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu block(s) still held", liveBlocks());
}

/* ------------------------------------------------------------------ a device with some memory */
struct Memory
{
    IMemory*      mem;
    model::Memory want;
    gen::Layout   layout;

    Memory() : mem(memInit()) { layout.top = 0x100000000ull; }
    void create(uint32_t base, const std::string& data, bool flash)
    {
        uint32_t n = (uint32_t)data.size();
        const char* p = data.data();
        IMemory* m = mem;
        Result r = call([=] {
            MemorySim_CreateRegion(m, base, n);
            MemorySim_LoadFromFlashImage(m, base, p, n);
            if (flash) MemorySim_MakeRegionReadOnly(m, base);
        });
        REQUIRE(!r.threw, "creating memory raised %s", r.text().c_str());
        layout.add(base, n);
        want.add(base, data, flash);
    }
    void alias(uint32_t base, uint32_t redirect, uint32_t size)
    {
        IMemory* m = mem;
        Result r = call([=] { MemorySim_CreateAlias(m, base, redirect, size); });
        REQUIRE(!r.threw, "creating an alias raised %s", r.text().c_str());
        layout.add(base, size);
        want.addAlias(base, redirect, size);
    }
    void randomize(unsigned maxRegions, uint32_t maxSize)
    {
        for (unsigned i = 0 ; i < 1 || more(60, i, maxRegions) ; i++)
        {
            std::string data = bytes(1 + size(maxSize - 1));
            create(layout.place((uint32_t)data.size(), chance(50) ? 4 : 1), data, chance(40));
        }
        if (chance(40))
        {
            const model::Region& r = want.regs[below((uint32_t)want.regs.size())];
            uint32_t off = chance(50) ? 0 : below(r.size), n = r.size - off;
            uint32_t from = r.base + off;
            alias(layout.place(n, chance(50) ? 4 : 1), from, n);
        }
    }
    uint32_t address(uint32_t n)
    {
        if (chance(6)) return u32();
        const model::Region& r = want.regs[below((uint32_t)want.regs.size())];
        if (chance(4)) return chance(80) ? gen::lookalike(r.base + below(r.size)) : gen::special();
        switch (below(4))
        {
        case 0: return r.base - 4 + below(8);
        case 1: return r.base + r.size - n - 2 + below(6);
        default: return r.base + below(r.size);
        }
    }
    void check(const char* what) { want.expect(mem, layout, what); }
    void done()
    {
        memUninit(mem);
        REQUIRE(liveBlocks() == 0, "%zu block(s) still held after clean-up", liveBlocks());
    }
};

void* garbagePointer(uint32_t address)
{
    uintptr_t hi = chance(30) ? 0 : (uintptr_t)draw(0xFFFFFFFFu);
    return (void*)(hi << 32 | address);
}

struct Access { bool threw; uint32_t value; };

uint32_t platRead(void* p, unsigned n)
{
    volatile uint32_t v = 0;
    volatile uint32_t* pv = &v;
    Result r = call([=] { *pv = n == 1 ? Platform_MemRead8(p) : n == 2 ? Platform_MemRead16(p) : Platform_MemRead32(p); });
    REQUIRE(!r.threw, "a debugger read of %u bytes at %p let %s escape", n, p, r.text().c_str());
    return v;
}
void platWrite(void* p, unsigned n, uint32_t value)
{
    Result r = call([=] {
        if (n == 1) Platform_MemWrite8(p, (uint8_t)value);
        else if (n == 2) Platform_MemWrite16(p, (uint16_t)value);
        else Platform_MemWrite32(p, value);
    });
    REQUIRE(!r.threw, "a debugger write of %u bytes at %p let %s escape", n, p, r.text().c_str());
}
bool faulted()
{
    volatile int v = 0;
    volatile int* pv = &v;
    Result r = call([=] { *pv = Platform_WasMemoryFaultEncountered(); });
    REQUIRE(!r.threw, "asking for faults raised %s", r.text().c_str());
    return v != 0;
}

void prop_C18()
{
    reset();
    Memory m;
    m.randomize(4, 60);
    Ctx c;
    c.randomize();
    platformInit(c.real, m.mem);
    bool     pending = false;
    unsigned ok = 0, bad = 0, asked = 0, wasSet = 0;
    std::vector<unsigned> w = swarm({6, 6, 5, 1, 1});
    unsigned burst = chance(2) ? chance(10) ? 65536 : 256 * range(1, 2) : 0;        /* many faults before asking */
    unsigned since = 0;
    for (unsigned i = 0 ; i < 2 || more(95, i, 50) ; i++)
    {
        switch (weighted(w))
        {
        case 0:
        {
            unsigned n = 1u << below(3);
            uint32_t a = m.address(n);
            uint8_t  b[4] = {};
            bool     good = m.want.read(a, n, b);
            uint32_t want = good ? b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24 : 0;
            uint32_t got = platRead(garbagePointer(a), n);
            note("read%u %08x: %s", n * 8, a, good ? "mapped" : "fault");
            REQUIRE(got == want, "reading %u bytes at %08x gave %x, expected %x%s", n, a, got, want, good ? "" : " (not mapped)");
            pending |= !good;
            since += !good;
            (good ? ok : bad)++;
            break;
        }
        case 1:
        {
            unsigned n = 1u << below(3);
            uint32_t a = m.address(n), v = u32();
            uint8_t  b[4] = {(uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), (uint8_t)(v >> 24)};
            bool     good = m.want.write(a, n, b);
            platWrite(garbagePointer(a), n, v);
            note("write%u %08x = %x: %s", n * 8, a, v, good ? "done" : "fault");
            pending |= !good;
            since += !good;
            (good ? ok : bad)++;
            break;
        }
        case 2:
        {
            bool got = faulted();
            note("fault? %d", pending);
            REQUIRE(got == pending, "a fault is%s reported, but %s", got ? "" : " not", pending ? "an access failed since the last question" : "no access failed since the last question");
            wasSet += pending;
            pending = false;
            since = 0;
            asked++;
            break;
        }
        case 3:
            note("another session");
            platformInit(c.real, m.mem);
            if (pending) label("another session after a fault");
            pending = false;
            since = 0;
            break;
        default:
            m.check("during the session");
            break;
        }
        if (burst && bad)
        {
            uint32_t a = 0x12345678;
            uint8_t b;
            while (m.want.read(a, 1, &b)) a += 0x1000;
            while (since < burst) { platRead((void*)(uintptr_t)a, 1); since++; }
            pending = true;
            REQUIRE(faulted(), "no fault is reported after %u failed accesses", since);
            pending = false;
            since = 0;
            burst = 0;
            label("many faults at once");
        }
    }
    bool got = faulted();
    REQUIRE(got == pending, "a fault is%s reported at the end, but %s", got ? "" : " not", pending ? "an access failed" : "no access failed");
    REQUIRE(!faulted(), "a fault is still reported after it was asked for");
    m.check("at the end");
    c.check("registers after memory accesses");
    m.done();
    if (asked > 1) label("asked more than once");
    if (ok && bad) nontrivial();
}

/* ------------------------------------------------------------------ requests which must change nothing */
std::string ignoredRequest(Memory& m, bool direct)
{
    uint32_t a = m.address(4), n = chance(60) ? 1u << below(4) : u32();
    unsigned type = range(1, 4), how = below(direct ? 12 : 8);
    if (!direct)
    {
        switch (how)
        {
        case 0: case 1: return format("Z%u,%x,%x", type, a, n);
        case 2: case 3: return format("z%u,%x,%x", type, a, n);
        case 4: return chance(50) ? "s" : format("s%x", a);
        case 5: return chance(50) ? "c" : format("c%x", a);
        case 6: return chance(50) ? format("C%02x", below(40)) : format("C%02x;%x", below(40), a);
        default: return chance(50) ? format("S%02x", below(40)) : format("S%02x;%x", below(40), a);
        }
    }
    volatile int out = 0;
    volatile int* po = &out;
    PlatformWatchpointType t = (PlatformWatchpointType)below(3);
    Result r;
    const char* name = "";
    switch (how)
    {
    case 0: name = "set breakpoint"; r = call([=] { Platform_SetHardwareBreakpoint(a, n); }); break;
    case 1: name = "clear breakpoint"; r = call([=] { Platform_ClearHardwareBreakpoint(a, n); }); break;
    case 2: name = "set watchpoint"; r = call([=] { Platform_SetHardwareWatchpoint(a, n, t); }); break;
    case 3: name = "clear watchpoint"; r = call([=] { Platform_ClearHardwareWatchpoint(a, n, t); }); break;
    case 4: name = "enable stepping"; r = call([=] { Platform_EnableSingleStep(); }); break;
    case 5: name = "disable stepping"; r = call([=] { Platform_DisableSingleStep(); }); break;
    case 6: name = "set PC"; r = call([=] { Platform_SetProgramCounter(a); }); break;
    case 7: name = "advance PC"; r = call([=] { Platform_AdvanceProgramCounterToNextInstruction(); }); break;
    case 8: name = "entering and leaving"; r = call([=] { __mriPlatform_EnteringDebuggerHook(); Platform_EnteringDebugger(); Platform_LeavingDebugger(); __mriPlatform_LeavingDebuggerHook(); }); break;
    case 9:
        name = "semihosting query";
        r = call([=] { *po = Semihost_IsDebuggeeMakingSemihostCall() | Semihost_HandleSemihostRequest() | (Platform_TypeOfCurrentInstruction() != MRI_PLATFORM_INSTRUCTION_OTHER); });
        REQUIRE(!out, "the crashed device is said to make a semihosting call or to be at a hard coded breakpoint");
        break;
    case 10:
        name = "semihosting result";
        r = call([=] { Platform_GetSemihostCallParameters(); Platform_SetSemihostCallReturnAndErrnoValues((int)a, (int)n); });
        break;
    default:
        name = "state query";
        r = call([=] { *po = Platform_IsSingleStepping() | Platform_CommCausedInterrupt() | Platform_CommSharingWithApplication(); Platform_CommClearInterrupt(); Platform_WasProgramCounterModifiedByUser(); });
        REQUIRE(!out, "the crashed device is said to be stepping, interrupted or sharing its port");
        break;
    }
    REQUIRE(!r.threw, "%s at %08x with size %x raised %s", name, a, n, r.text().c_str());
    return format("%s %08x %x", name, a, n);
}

std::vector<RegionInfo> mapOf(const model::Memory& m) { return m.map(); }

void expectReply(const Client& c, size_t i, const std::string& payload, const std::string& console)
{
    const Reply& r = c.replies[i];
    const char* what = r.step < 0 ? "the first stop" : c.steps[(size_t)r.step].text.c_str();
    REQUIRE(r.complete, "%s was not answered", what);
    REQUIRE(r.console == console, "%s: console text is %s, expected %s", what, quote(r.console, 600).c_str(), quote(console, 600).c_str());
    REQUIRE(r.payload == payload, "%s was answered by %s, expected %s", what, quote(r.payload, 600).c_str(), quote(payload, 600).c_str());
}
void expectClean(const Client& c)
{
    REQUIRE(c.error.empty(), "%s", c.error.c_str());
    REQUIRE(!c.stalled, "the program waits for more input instead of answering %s", c.next ? c.steps[c.next - 1].text.c_str() : "the first stop");
}

/* Registers, memory and map as they were, through the platform and directly. */
void unchanged(Memory& m, Ctx& c, const char* when)
{
    c.check(when);
    m.check(when);
    std::vector<RegionInfo> got = memoryMap(m.mem);
    REQUIRE(got == mapOf(m.want), "%s: the memory map is now %s", when, describe(got).c_str());
    REQUIRE(signalNow() == signalFor(c.want.exceptionPSR), "%s: signal %d, expected %d", when, signalNow(), signalFor(c.want.exceptionPSR));
}

void prop_C22()
{
    reset();
    Memory m;
    m.randomize(3, 40);
    Ctx c;
    c.randomize();
    if (chance(30)) c.want.exceptionPSR = range(2, 12), *c.real = c.want;
    unsigned done = 0, resumes = 0;
    if (chance(50))
    {
        platformInit(c.real, m.mem);
        for (unsigned i = 0 ; i < 1 || more(90, i, 40) ; i++)
        {
            std::string t = ignoredRequest(m, true);
            note("%s", t.c_str());
            done++;
            if (chance(30))
            {
                unsigned n = 1u << below(3);
                uint32_t a = m.address(n);
                uint8_t b[4] = {};
                bool good = m.want.read(a, n, b);
                uint32_t want = b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24, got = platRead((void*)(uintptr_t)a, n);
                bool f = faulted();
                REQUIRE(got == want && f == !good, "reading %u bytes at %08x after %s: %x%s, expected %x%s", n, a, t.c_str(), got, f ? " (fault)" : "", want, good ? "" : " (fault)");
            }
            if (chance(20)) unchanged(m, c, t.c_str());
        }
    }
    else
    {
        Client cl;
        cl.expectInitialStop = chance(30);
        bool wait = !cl.expectInitialStop;
        if (wait) cl.steps.push_back({Step::CONNECT, "+", "connect"});
        Device d = c.device(&m.want);
        std::vector<std::pair<std::string, std::string>> expect;
        if (!wait) expect.push_back({d.stop(), d.faultText()});
        unsigned often = chance(1) ? 1 + size(1500) : 0;
        for (unsigned i = 0 ; i < 1 || i < often || more(90, i, 30) ; i++)
        {
            if (chance(25))
            {
                uint32_t n = 1 + below(8), a = m.address(n);
                bool regs = chance(25);
                cl.steps.push_back(ask(regs ? "g" : format("m%x,%x", a, n)));
                expect.push_back({regs ? d.registers() : d.readMemory(a, n), ""});
            }
            else
            {
                std::string t = ignoredRequest(m, false);
                cl.steps.push_back(ask(t));
                bool resume = !(t[0] == 'Z' || t[0] == 'z');
                if (resume) { expect.push_back({d.stop(), d.faultText()}); resumes++; }
                else expect.push_back({"OK", ""});
                done++;
            }
            note("%s", cl.steps.back().text.c_str());
        }
        runInProcess(cl, c.real, m.mem, wait);
        expectClean(cl);
        REQUIRE(cl.replies.size() == expect.size(), "%zu answers, expected %zu", cl.replies.size(), expect.size());
        for (size_t i = 0 ; i < expect.size() ; i++) expectReply(cl, i, expect[i].first, expect[i].second);
        label("session");
        if (resumes > 1) label("resumed more than once");
        if (resumes > 256) label("resumed more than 256 times");
    }
    unchanged(m, c, "at the end");
    m.done();
    if (done > 1) nontrivial();
}

/* ------------------------------------------------------------------ C19 */
void prop_C19()
{
    reset();
    Memory m;
    m.randomize(2, 30);
    Ctx c;
    c.randomize();
    uint32_t number = chance(50) ? below(16) : chance(50) ? below(256) : c.want.exceptionPSR & 0xFF;
    uint32_t upper = chance(30) ? 0 : chance(50) ? u32() & ~0xFFu : 1u << range(8, 31);
    c.want.exceptionPSR = upper | number;
    c.real->exceptionPSR = c.want.exceptionPSR;
    int want = signalFor(c.want.exceptionPSR);
    note("exception PSR %08x", c.want.exceptionPSR);
    if (chance(60))
    {
        platformInit(c.real, m.mem);
        for (unsigned i = 0 ; i < 1 || more(70, i, 10) ; i++)
        {
            int got = signalNow();
            REQUIRE(got == want, "exception PSR %08x gives signal %d, expected %d", c.want.exceptionPSR, got, want);
            switch (below(4))
            {
            case 0: ignoredRequest(m, true); break;
            case 1:
            {
                RegisterContext v = c.want;
                for (int k = 0 ; k < TOTAL_REG_COUNT ; k++) v.R[k] = u32();
                copyIn(Device{&v, &g_noMem, "", ""}.registers());
                memcpy(c.want.R, v.R, sizeof(v.R));
                break;
            }
            case 2: { uint32_t a = m.address(4), v = u32(); platWrite((void*)(uintptr_t)a, 4, v); break; }
            default: platRead((void*)(uintptr_t)m.address(4), 2); break;
            }
        }
    }
    else
    {
        Client cl;
        bool wait = chance(70);
        cl.expectInitialStop = !wait;
        if (wait) cl.steps.push_back({Step::CONNECT, "+", "connect"});
        for (unsigned i = 0 ; i < 1 || more(70, i, 12) ; i++)
        {
            std::string t;
            switch (below(5))
            {
            case 0: t = "?"; break;
            case 1: t = ignoredRequest(m, false); break;
            case 2: t = format("M%x,2:%04x", m.address(2), below(65536)); break;
            case 3: { RegisterContext v = c.want; for (int k = 0 ; k < TOTAL_REG_COUNT ; k++) v.R[k] = u32(); t = "G" + Device{&v, &g_noMem, "", ""}.registers(); break; }
            default: t = chance(50) ? "c" : "s"; break;
            }
            note("%s", t.c_str());
            cl.steps.push_back(ask(t));
        }
        cl.steps.push_back(ask("?"));
        runInProcess(cl, c.real, m.mem, wait);
        expectClean(cl);
        std::string sig = format("T%02x", want);
        unsigned stops = 0;
        for (auto& r : cl.replies)
        {
            bool stop = r.step < 0 || strchr("?cCsS", cl.steps[(size_t)r.step].text[0]);
            if (!stop) continue;
            stops++;
            REQUIRE(r.payload.compare(0, 3, sig) == 0, "exception PSR %08x: the stop report is %s, expected signal %02x", c.want.exceptionPSR, quote(r.payload).c_str(), want);
        }
        if (stops > 1) label("several stop reports in a session");
    }
    REQUIRE(c.real->exceptionPSR == c.want.exceptionPSR, "the exception PSR changed to %08x", c.real->exceptionPSR);
    m.done();
    label(format("signal %d", want).c_str());
    if (upper) nontrivial();
}

/* ------------------------------------------------------------------ C20 */
void prop_C20()
{
    reset();
    Memory m;
    struct { uint32_t a; const char* name; } reg[] = {{0xE000ED28, "CFSR"}, {0xE000ED2C, "HFSR"}, {0xE000ED30, "DFSR"}, {0xE000ED34, "MMFAR"}, {0xE000ED38, "BFAR"}};
    uint32_t value[5];
    for (auto& v : value)
    {
        v = 0;
        switch (below(5))
        {
        case 0: break;
        case 1: v = (uint32_t)draw(0xFFFFFFFFu); break;
        case 2: v = u32(); break;
        default: for (unsigned k = 0 ; k == 0 || more(60, k, 12) ; k++) v |= 1u << below(32); break;
        }
    }
    if (chance(50)) value[1] |= 0x40000000;
    unsigned have = 0;
    auto put = [&](uint32_t a, const std::string& data, bool flash) { m.create(a, data, flash); };
    std::string block;
    for (auto v : value) block += gen::le32(v);
    switch (below(10))
    {
    case 0: case 1: case 2: put(0xE000ED28, block, false); have = 31; break;
    case 3: put(0xE000ED00, bytes(0x28) + block + bytes(chance(50) ? below(20) : 0x60), chance(20)); have = 31; break;
    case 4:
    {
        uint32_t n = below(20) + 1;        /* ends anywhere, perhaps within a register */
        put(0xE000ED28, block.substr(0, n), chance(20));
        have = (1u << (n / 4)) - 1;
        break;
    }
    case 5:
    {
        uint32_t skip = below(20);         /* starts anywhere */
        put(0xE000ED28 + skip, block.substr(skip), chance(20));
        for (unsigned k = (skip + 3) / 4 ; k < 5 ; k++) have |= 1u << k;
        break;
    }
    default:
        for (unsigned k = 0 ; k < 5 ; k++)
            if (chance(75)) { put(reg[k].a, gen::le32(value[k]), chance(20)); have |= 1u << k; }
        break;
    }
    bool viaAlias = false;
    if (m.want.regs.empty() && chance(40))
    {
        put(0x20000000, block, false);
        m.alias(0xE000ED28, 0x20000000, 20);
        have = 31;
        viaAlias = true;
    }
    /* something unrelated */
    if (chance(40) || m.want.regs.empty()) m.randomize(1, 30);

    Ctx c;
    c.randomize();
    unsigned number = chance(85) ? range(3, 6) : chance(50) ? below(17) : below(256);
    c.want.exceptionPSR = (chance(50) ? 0 : u32() & ~0xFFu) | number;
    *c.real = c.want;
    for (int k = 0 ; k < 5 ; k++) note("%s %s%08x", reg[k].name, have & (1u << k) ? "" : "(missing) ", value[k]);
    note("exception PSR %08x", c.want.exceptionPSR);
    Device d = c.device(&m.want);
    std::string want = d.faultText();
    Client cl;
    bool wait = chance(50);
    cl.expectInitialStop = !wait;
    if (wait) cl.steps.push_back({Step::CONNECT, "+", "connect"});
    std::vector<std::string> texts, stops;
    if (!wait) { texts.push_back(want); stops.push_back(d.stop()); }
    unsigned n = wait ? range(1, 2) : below(3);
    for (unsigned i = 0 ; i < n ; i++)
    {
        if (chance(20)) { cl.steps.push_back(ask("g")); texts.push_back(""); stops.push_back(d.registers()); }
        cl.steps.push_back(ask(chance(50) ? "c" : "s"));
        texts.push_back(want);
        stops.push_back(d.stop());
    }
    runInProcess(cl, c.real, m.mem, wait);
    expectClean(cl);
    REQUIRE(cl.replies.size() == stops.size(), "%zu answers, expected %zu", cl.replies.size(), stops.size());
    for (size_t i = 0 ; i < stops.size() ; i++) expectReply(cl, i, stops[i], texts[i]);
    m.check("after the reports");
    c.check("after the reports");
    m.done();
    if (!want.empty()) label(format("exception %u", number).c_str());
    if (viaAlias) label("registers through an alias");
    if (!want.empty() && have != 31) label("some registers missing");
    if (want.find("Fault Address") != std::string::npos) label("with an address");
    if (want.find("MPU") != std::string::npos && want.find("Bus") != std::string::npos && want.find("Usage") != std::string::npos) label("all sections");
    if (want.size() > 20) nontrivial();
}

/* ------------------------------------------------------------------ C21 */
struct XmlReg { std::string name, feature; unsigned bits; int num; };

std::vector<XmlReg> parseTarget(const std::string& x)
{
    std::vector<XmlReg> out;
    std::vector<std::string> open;
    std::string feature;
    size_t i = 0;
    int next = 0;
    unsigned roots = 0;
    auto bad = [&](const char* why) { fail("target description: %s at offset %zu: %s", why, i, quote(x.substr(i > 20 ? i - 20 : 0, 80)).c_str()); };
    static const char head[] = "<?xml version=\"1.0\"?>";
    if (x.compare(0, sizeof(head) - 1, head)) bad("no XML header");
    i = sizeof(head) - 1;
    while (i < x.size())
    {
        if (isspace((unsigned char)x[i])) { i++; continue; }
        if (x[i] != '<') bad("text outside of elements");
        size_t e = x.find('>', i);
        if (e == std::string::npos) bad("unfinished tag");
        std::string tag = x.substr(i + 1, e - i - 1);
        if (tag.find('<') != std::string::npos) bad("unfinished tag");
        if (tag.compare(0, 8, "!DOCTYPE") == 0) { if (!open.empty() || roots) bad("misplaced DOCTYPE"); i = e + 1; continue; }
        if (tag[0] == '/')
        {
            if (open.empty() || open.back() != tag.substr(1)) bad("wrong closing tag");
            open.pop_back();
            i = e + 1;
            continue;
        }
        bool empty = !tag.empty() && tag.back() == '/';
        if (empty) tag.pop_back();
        /* name and attributes */
        size_t k = 0;
        std::string name;
        while (k < tag.size() && (isalnum((unsigned char)tag[k]) || tag[k] == '-')) name += tag[k++];
        if (name.empty()) bad("no element name");
        std::map<std::string, std::string> at;
        for (;;)
        {
            size_t sp = k;
            while (k < tag.size() && isspace((unsigned char)tag[k])) k++;
            if (k == tag.size()) break;
            if (sp == k) bad("attributes not separated");
            std::string key;
            while (k < tag.size() && (isalnum((unsigned char)tag[k]) || tag[k] == '-')) key += tag[k++];
            if (key.empty() || tag.compare(k, 2, "=\"")) bad("malformed attribute");
            size_t q = tag.find('"', k + 2);
            if (q == std::string::npos) bad("malformed attribute");
            if (at.count(key)) bad("repeated attribute");
            at[key] = tag.substr(k + 2, q - k - 2);
            k = q + 1;
        }
        if (open.empty() && roots++) bad("more than one root element");
        if (name == "feature") feature = at["name"];
        if (name == "reg")
        {
            if (open.empty() || open.back() != "feature") bad("register outside of a feature");
            XmlReg r;
            r.feature = feature;
            r.name = at["name"];
            r.bits = (unsigned)atoi(at["bitsize"].c_str());
            r.num = at.count("regnum") ? atoi(at["regnum"].c_str()) : next;
            next = r.num + 1;
            if (r.name.empty() || !r.bits) bad("register without name or size");
            out.push_back(r);
        }
        if (!empty) open.push_back(name);
        i = e + 1;
    }
    if (!open.empty()) bad("unclosed element");
    if (roots != 1) bad("no root element");
    return out;
}

void prop_C21()
{
    reset();
    Memory m;
    m.randomize(2, 30);
    Ctx c;
    c.randomize();
    platformInit(c.real, m.mem);
    const char* volatile px = nullptr;
    volatile uint32_t len = 0;
    const char* volatile* ppx = &px;
    volatile uint32_t* pl = &len;
    std::string xml;
    unsigned asked = range(1, 3);
    for (unsigned i = 0 ; i < asked ; i++)
    {
        bool sizeFirst = chance(50);
        Result r = call([=] {
            if (sizeFirst) *pl = Platform_GetTargetXmlSize();
            *ppx = Platform_GetTargetXml();
            if (!sizeFirst) *pl = Platform_GetTargetXmlSize();
        });
        REQUIRE(!r.threw, "asking for the target description raised %s", r.text().c_str());
        std::string now = px;
        REQUIRE(now.size() == len, "the target description is %zu characters long, but its size is given as %u", now.size(), len);
        REQUIRE(i == 0 || now == xml, "the target description changed");
        xml = now;
        if (chance(50)) { c.want.R[below(TOTAL_REG_COUNT)] = u32(); *c.real = c.want; }
        if (chance(50)) { uint32_t a = m.address(4), v = u32(); uint8_t b[4]; memcpy(b, &v, 4); m.want.write(a, 4, b); platWrite((void*)(uintptr_t)a, 4, v); }
        if (chance(30)) { c.want.flags ^= (uint32_t)draw(0xFFFFFFFFu) & ~1u; *c.real = c.want; }
    }
    std::vector<XmlReg> want;
    static const char* const core[] = {"r0","r1","r2","r3","r4","r5","r6","r7","r8","r9","r10","r11","r12","sp","lr","pc"};
    for (int i = 0 ; i < 16 ; i++) want.push_back({core[i], "org.gnu.gdb.arm.m-profile", 32, i});
    want.push_back({"xpsr", "org.gnu.gdb.arm.m-profile", 32, 25});
    want.push_back({"msp", "org.gnu.gdb.arm.m-system", 32, 26});
    want.push_back({"psp", "org.gnu.gdb.arm.m-system", 32, 27});
    if (c.fp())
    {
        for (int i = 0 ; i < 16 ; i++) want.push_back({format("d%d", i), "org.gnu.gdb.arm.vfp", 64, -1});
        want.push_back({"fpscr", "org.gnu.gdb.arm.vfp", 32, -1});
    }
    std::vector<XmlReg> got = parseTarget(xml);
    REQUIRE(got.size() == want.size(), "the target description lists %zu registers, expected %zu", got.size(), want.size());
    unsigned bits = 0;
    std::set<int> nums;
    for (size_t i = 0 ; i < want.size() ; i++)
    {
        REQUIRE(got[i].name == want[i].name && got[i].bits == want[i].bits, "register %zu is %s with %u bits, expected %s with %u", i, got[i].name.c_str(), got[i].bits, want[i].name.c_str(), want[i].bits);
        REQUIRE(got[i].feature == want[i].feature, "register %s is in feature %s, expected %s", got[i].name.c_str(), got[i].feature.c_str(), want[i].feature.c_str());
        REQUIRE(want[i].num < 0 || got[i].num == want[i].num, "register %s has number %d, expected %d", got[i].name.c_str(), got[i].num, want[i].num);
        REQUIRE(nums.insert(got[i].num).second, "register number %d is used twice", got[i].num);
        bits += got[i].bits;
    }
    std::string block = copyOut(2000);
    REQUIRE(bits == block.size() * 4, "the described registers have %u bits, but the register block has %zu", bits, block.size() * 4);

    /* In pieces. */
    if (chance(70))
    {
        Client cl;
        cl.steps.push_back({Step::CONNECT, "+", "connect"});
        std::vector<std::string> expect;
        auto piece = [&](uint32_t off, uint32_t n) {
            cl.steps.push_back(ask(format("qXfer:features:read:target.xml:%x,%x", off, n)));
            uint32_t o = std::min<uint32_t>(off, (uint32_t)xml.size());
            uint32_t l = std::min<uint32_t>(std::min<uint32_t>(n, (uint32_t)xml.size() - o), 16 * 1024 - 1);
            expect.push_back((o + l < xml.size() ? "m" : "l") + xml.substr(o, l));
        };
        if (chance(50))
        {
            uint32_t step = 1 + below((uint32_t)xml.size() + 50);
            if (step < 30) step += 30;
            for (uint32_t at = 0 ; at < xml.size() ; at += step) piece(at, step);
            label("read to the end");
        }
        for (unsigned i = 0 ; i < 1 || more(70, i, 8) ; i++)
            piece(chance(80) ? below((uint32_t)xml.size() + 3) : u32(), chance(80) ? 1 + below((uint32_t)xml.size() + 3) : u32());
        runInProcess(cl, c.real, m.mem);
        expectClean(cl);
        REQUIRE(cl.replies.size() == expect.size(), "%zu answers, expected %zu", cl.replies.size(), expect.size());
        for (size_t i = 0 ; i < expect.size() ; i++) expectReply(cl, i, expect[i], "");
        label("in pieces");
        nontrivial();
    }
    m.done();
    if (c.fp()) label("floating point registers");
}

} /* namespace */

void addPlatformProps(std::vector<Property>& v)
{
    v.push_back({"C17", prop_C17, 450000, 6000000,
        "Histories of up to 20 register block reads, writes, stop reports, changes by the owner and new sessions over two contexts with random flags; compared with a plain hex rendering after every step. Non-trivial: at least one read and one write.", {}});
    v.push_back({"C18", prop_C18, 160000, 3000000,
        "Histories of up to 50 debugger accesses of 1, 2 and 4 bytes and fault questions over 1-6 regions (flash, RAM, aliases), addresses at region edges, pointers with random upper halves, sometimes thousands of faults before a question; compared with a memory model. Non-trivial: at least one access succeeds and one faults.", {}});
    v.push_back({"C19", prop_C19, 1800000, 20000000,
        "Exception PSR values with all low bytes and random upper bits, other context values random, requests in between, asked directly and through stop reports of sessions. Non-trivial: upper bits of the exception PSR are set.", {}});
    v.push_back({"C20", prop_C20, 1200000, 15000000,
        "Fault register values (random bits, single bits, dictionary values) x captured in one region, apart, partly, in flash, through an alias or missing x exception numbers; the text of the session's console packets is compared with an independent rendering. Non-trivial: a report with at least one status section.", {}});
    v.push_back({"C21", prop_C21, 450000, 8000000,
        "Contexts with and without floating point registers and random other flags; the description is parsed and compared with the register block; random offset and length splits through a session. Non-trivial: it was read in pieces.", {}});
    v.push_back({"C22", prop_C22, 400000, 10000000,
        "Histories of up to 40 (1 %: 1500) breakpoint, watchpoint, step, resume, semihosting and PC requests (direct or as packets) with addresses in and around memory, mixed with reads; registers, memory and map are compared with the model. Non-trivial: at least two such requests.", {}});
}
