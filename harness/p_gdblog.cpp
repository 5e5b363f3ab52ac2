/* C04, C05: GDB logs. */
#include "props.h"
#include "scenario.h"

using namespace pbt;
using namespace env;

struct Loaded
{
    Result r;
    RegisterContext context;
    std::vector<RegionInfo> map;
};

static Result parse(IMemory* mem, RegisterContext* pContext, const std::string& file)
{
    const char* name = file.c_str();
    return call([=] { GdbLogParse(mem, pContext, name); });
}

/* Directly, or as the dump of a command line; then there is an image as well, and nothing in the registers before. */
static Result parseSomehow(IMemory** pMem, RegisterContext* pContext, RegisterContext* pBefore, const std::string& file, const std::string& text,
                           const std::map<uint32_t, uint8_t>& logged, std::vector<RegionInfo>& preset)
{
    scenario::Companion with;
    if (chance(15) && text.compare(0, 2, "cC") != 0 && text.compare(0, 4, "6343") != 0)
    {
        std::vector<std::pair<uint32_t, uint64_t>> taken;
        for (auto& b : logged)
        {
            if (taken.empty() || taken.back().first + taken.back().second != b.first) taken.push_back({b.first, 0});
            taken.back().second++;
        }
        if (!logged.empty() && logged.rbegin()->first >= 0xFFFFFFF0u) taken.push_back({0, 8});
        with = scenario::companion(taken);
    }
    if (!with.found)
    {
        *pMem = memInit();
        return parse(*pMem, pContext, file);
    }
    memset(pBefore, 0, sizeof(*pBefore));
    preset.push_back(with.region());
    std::vector<std::string> args = with.option;
    args.push_back("--dump");
    args.push_back(file);
    return scenario::start(args, pContext, pMem);
}

/* What a log says, as generated: words in order of appearance, and the final registers. */
struct Meaning
{
    gen::Crash crash;
    gen::Log   log;
    std::vector<std::pair<uint32_t, uint32_t>> chunks;      /* address, byte count of each memory line, in order */
    std::map<uint32_t, uint8_t> bytes;
    bool overlaps = false;
};

static void addRegion(Meaning& m, const gen::Block& b)
{
    for (size_t i = 0 ; i < b.data.size() ; i++) m.bytes[b.start + (uint32_t)i] = (uint8_t)b.data[i];
}

static Meaning logMeaning(unsigned maxRegions, uint32_t maxSize, uint32_t minSize = 0)
{
    Meaning m;
    gen::Layout layout;
    layout.top = 0x100000000ull;
    gen::CrashOptions o;
    o.maxRegions = maxRegions;
    o.maxSize = maxSize;
    o.minSize = minSize;
    o.words = true;
    o.unaligned = true;
    o.allowEmpty = false;
    m.crash = gen::crash(layout, o);
    for (auto& b : m.crash.regions) addRegion(m, b);
    if (!m.crash.regions.empty() && chance(12))
    {
        /* Part of the memory was logged again later, perhaps with other values: the last one counts. */
        gen::Block b = pick(m.crash.regions);
        uint32_t w = (uint32_t)b.data.size() / 4, from = below(w), n = 1 + below(w - from);
        bool changed = chance(50);
        gen::Block again{b.start + from * 4, changed ? bytes(n * 4) : b.data.substr(from * 4, n * 4)};
        m.crash.regions.push_back(again);
        addRegion(m, again);
        m.overlaps = true;
        label("memory logged twice");
    }
    m.log = gen::toLog(m.crash, gen::LogOptions());
    return m;
}

static void expectMeaning(IMemory* mem, const RegisterContext& got, const RegisterContext& before, const Meaning& m, const std::vector<RegionInfo>& preset, const char* what)
{
    uint32_t flags = before.flags | (m.log.anyS ? 1u : 0u);
    REQUIRE(got.flags == flags, "%s: flags are %08x, expected %08x", what, got.flags, flags);
    for (int i = 0 ; i < TOTAL_REG_COUNT ; i++)
    {
        uint32_t w = m.log.hasR[i] ? m.crash.R[i] : i >= MSP ? 0xBAADBAADu : before.R[i];
        REQUIRE(got.R[i] == w, "%s: R[%d] is %08x, expected %08x", what, i, got.R[i], w);
    }
    for (int i = 0 ; i < TOTAL_FPREG_COUNT ; i++)
    {
        uint32_t w = m.log.hasF[i] ? m.crash.FPR[i] : before.FPR[i];
        REQUIRE(got.FPR[i] == w, "%s: FPR[%d] is %08x, expected %08x", what, i, got.FPR[i], w);
    }
    REQUIRE(got.exceptionPSR == before.exceptionPSR, "%s: exception PSR changed from %08x to %08x", what, before.exceptionPSR, got.exceptionPSR);

    std::vector<RegionInfo> map = memoryMap(mem);
    REQUIRE(map.size() >= preset.size() && std::equal(preset.begin(), preset.end(), map.begin()), "%s: memory regions are %s, without the image at %s", what, describe(map).c_str(), describe(preset).c_str());
    map.erase(map.begin(), map.begin() + (long)preset.size());
    uint32_t free = 0;
    while (!preset.empty() && free >= preset[0].start && free < preset[0].start + preset[0].length) free += 0x1000;
    if (!m.overlaps)
    {
        std::vector<RegionInfo> want;
        for (auto& b : m.crash.regions)
        {
            if (!want.empty() && (uint64_t)want.back().start + want.back().length == b.start) want.back().length += (uint32_t)b.data.size();
            else want.push_back({false, b.start, (uint32_t)b.data.size()});
        }
        REQUIRE(map == want, "%s: memory regions are %s but should be %s", what, describe(map).c_str(), describe(want).c_str());
    }
    else
        for (auto& r : map) REQUIRE(!r.flash, "%s: a region from a log is read-only", what);
    /* Every logged byte, grouped in runs. */
    size_t single = 0;
    for (auto it = m.bytes.begin() ; it != m.bytes.end() ;)
    {
        uint32_t start = it->first;
        std::string run;
        while (it != m.bytes.end() && it->first == start + run.size()) { run += (char)it->second; ++it; }
        if (m.overlaps || run.size() <= 96)
        {
            for (size_t i = 0 ; i < run.size() ; i++)
            {
                uint8_t b;
                REQUIRE(read8(mem, start + (uint32_t)i, &b), "%s: logged byte at %08x is not readable", what, start + (uint32_t)i);
                REQUIRE(b == (uint8_t)run[i], "%s: byte at %08x is %02x, expected %02x", what, start + (uint32_t)i, b, (uint8_t)run[i]);
            }
        }
        single++;
        if (start) expectUnreadable(mem, start - 1, what);
        if ((uint64_t)start + run.size() <= 0xFFFFFFFFu) { expectUnreadable(mem, start + (uint32_t)run.size(), what); if (!m.bytes.count(start + (uint32_t)run.size() + 3)) expectUnreadable(mem, start + (uint32_t)run.size() + 3, what); }
        else label("at the top of the address space");
        if (start >= 4 && !m.bytes.count(start - 4)) expectUnreadable(mem, start - 4, what);
    }
    if (!m.overlaps) for (auto& r : map)
    {
        std::string want;
        for (uint32_t i = 0 ; i < r.length ; i++) { auto it = m.bytes.find(r.start + i); want += it == m.bytes.end() ? '?' : (char)it->second; }
        expectBytes(mem, r.start, want, what);
    }
    if (!m.bytes.count(free)) expectUnreadable(mem, free, what);
}

static void expectClosed(const char* what)
{
    REQUIRE(openFiles() == 0 && fileOpens == fileCloses, "%s: %zu opens but %zu closes", what, fileOpens, fileCloses);
}

static void prop_C04()
{
    reset();
    unsigned scale = chance(3) ? 1 + chance(10) : 0;
    Meaning m = logMeaning(5, scale == 2 ? 30000 : scale ? 20000 : 400, scale == 2 ? range(65500, 70000) : 0);
    std::string text;
    for (auto& l : m.log.lines) text += l + "\n";
    note("%s", quote(text, 900).c_str());
    std::string file = path("log");
    writeFile(file, text);
    RegisterContext before, context;
    gen::fillContext(&before, chance(50) ? 0x1357BD01 : 0);
    context = before;
    IMemory* mem = nullptr;
    std::vector<RegionInfo> preset;
    Result r = parseSomehow(&mem, &context, &before, file, text, m.bytes, preset);
    REQUIRE(!r.threw, "a GDB log was refused with %s", r.text().c_str());
    expectClosed("after loading");
    expectMeaning(mem, context, before, m, preset, "loaded log");
    for (auto& b : m.crash.regions)
    {
        uint32_t a = b.start + (uint32_t)draw(b.data.size() - 1);
        Result w = call([=] { IMemory_Write8(mem, a, 0x5a); });
        REQUIRE(!w.threw, "RAM at %08x cannot be written: %s", a, w.text().c_str());
    }
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
    if (m.log.anyS) label("floating point");
    if (m.bytes.size() > 65536) label("over 64 KB");
    if (m.crash.regions.size() > 1) label("2+ runs");
    if (!m.crash.regions.empty() && m.log.lines.size() > 2) nontrivial();
}

static void prop_C05()
{
    reset();
    RegisterContext before, context;
    gen::fillContext(&before, 0x2468ACE1);
    context = before;
    std::string file = path("log");
    if (chance(15))
    {
        /* Anything at all: a damaged log or arbitrary bytes. */
        std::string text;
        if (chance(70))
        {
            Meaning m = logMeaning(3, 100);
            for (auto& l : m.log.lines) text += l + "\n";
            for (unsigned i = 0 ; i == 0 || more(70, i, 12) ; i++)
            {
                if (text.empty()) break;
                size_t at = (size_t)draw(text.size() - 1);
                switch (below(5))
                {
                case 0: text[at] = (char)u8(); break;
                case 1: text.erase(at, 1 + below(20)); break;
                case 2: text.insert(at, bytes(1 + below(10))); break;
                case 3: text.insert(at, text.substr(at / 2, below(80))); break;
                default: text.resize(at); break;
                }
            }
        }
        else
            text = bytes(size(5000));
        writeFile(file, text);
        note("arbitrary: %s", quote(text, 300).c_str());
        IMemory* mem = memInit();
        Result r = parse(mem, &context, file);
        expectClosed("after an arbitrary log");
        std::vector<RegionInfo> map = memoryMap(mem);
        for (auto& x : map)
        {
            uint8_t b;
            if (x.length) read8(mem, x.start, &b);
        }
        memUninit(mem);
        REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
        label(r.threw ? "arbitrary bytes refused" : "arbitrary bytes accepted");
        return;
    }
    Meaning m = logMeaning(4, chance(3) ? 4000 : 160);
    std::vector<std::string> lines;
    unsigned rate = chance(30) ? 80 : 30;
    unsigned noise = 0;
    auto addNoise = [&] {
        for (unsigned i = 0 ; more(rate, i, 4) ; i++)
        {
            std::string s = gen::noiseLine();
            if (chance(4))
            {
                /* A long line which contains what looks like a record further on. */
                s = "(" + std::string(chance(60) ? 1021 + below(5) : below(4000), "x \t-"[below(4)]);
                s += chance(50) ? format("0x%08x:\t0x%08x\t0x%08x", u32() & ~3u, u32(), u32()) : std::string("sp             0x1234\t4660");
                label("very long line");
            }
            lines.push_back(s);
            noise++;
        }
    };
    for (auto& l : m.log.lines) { addNoise(); lines.push_back(l); }
    addNoise();
    bool lastEol = chance(80);
    if (chance(3))
    {
        /* Ends with a line which fills the log line buffer (1023 characters), once or more. */
        lines.push_back("(" + std::string(1023 * range(1, 3) - 1 - below(3), 'x'));
        noise++;
        lastEol = chance(30);
        label("full last line");
    }
    std::string text = gen::joinLog(lines, lastEol);
    writeFile(file, text);
    note("%s", quote(text, 1200).c_str());
    IMemory* mem = nullptr;
    std::vector<RegionInfo> preset;
    Result r = parseSomehow(&mem, &context, &before, file, text, m.bytes, preset);
    REQUIRE(!r.threw, "a GDB log with other text in it was refused with %s", r.text().c_str());
    expectClosed("after loading");
    expectMeaning(mem, context, before, m, preset, "log with other text");
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
    if (!lastEol) label("no final line ending");
    if (noise > 1 && m.log.lines.size() > 1) nontrivial();
}

/* A memory line which is longer than the loader's line buffer. */
static void probeLongSymbol()
{
    reset();
    std::string file = path("log");
    writeFile(file, "0x20000000 <" + std::string(1100, 's') + ">:\t0x11111111\t0x22222222\t0x33333333\t0x44444444\n");
    RegisterContext context;
    memset(&context, 0, sizeof(context));
    IMemory* mem = memInit();
    Result r = parse(mem, &context, file);
    bool ok = !r.threw && readable(mem, 0x2000000f);
    memUninit(mem);
    REQUIRE(ok, "a memory line with a symbol of 1100 characters was not loaded: %s", r.text().c_str());
}

/* A line of other text which is longer than the line buffer and contains a zero byte. */
static void probeLongLineWithZero()
{
    reset();
    std::string file = path("log");
    std::string line = "some output" + std::string(1, '\0') + std::string(1023 - 12, 'x') + "0x20000000:\t0x11111111\t0x22222222\t0x33333333\t0x44444444\n";
    writeFile(file, line + "0x10000000:\t0x11111111\n");
    RegisterContext context;
    memset(&context, 0, sizeof(context));
    IMemory* mem = memInit();
    Result r = parse(mem, &context, file);
    bool ok = !r.threw && readable(mem, 0x10000003) && !readable(mem, 0x20000000);
    memUninit(mem);
    REQUIRE(ok, "the rest of a line of other text of more than 1023 characters, one of them zero, was loaded as memory: %s", r.text().c_str());
}

void addGdbLogProps(std::vector<Property>& v)
{
    v.push_back({"C04", prop_C04, 180000, 4000000,
        "Random crash states written as GDB logs (register subsets, order, repeated and outdated values, 0-5 memory runs of 4 bytes to 20 KB in lines of 1-4 words, contiguous or apart, at aligned or any addresses, hex and decimal, "
        "plain and C++ symbols with nested <>, operators, spaces and offsets), parsed and compared with the generating state. Some go through a command line. Non-trivial: memory and more than two lines.", {{"long-symbol", probeLongSymbol}}});
    v.push_back({"C05", prop_C05, 180000, 4000000,
        "Random GDB logs with unrelated lines (prompts, other registers, unreadable addresses, symbols, junk bytes, very long lines holding look-alike records) inserted anywhere, LF/CRLF/mixed endings, "
        "optionally no final line ending, compared with the meaning of the clean log; plus mutated and arbitrary bytes. Some go through a command line. Non-trivial: at least two noise lines in a log of at least two records.", {{"long-line-zero-byte", probeLongLineWithZero}}});
}
