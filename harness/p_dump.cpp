/* C01 - C03: CrashCatcher dumps. */
#include "props.h"
#include "scenario.h"

using namespace pbt;
using namespace env;

static const char* g_dumpName;
static Result load(IMemory* mem, RegisterContext* pContext, const std::string& file, bool hex)
{
    const char* name = file.c_str();
    g_dumpName = name;
    return hex ? call([=] { CrashCatcherDump_ReadHex(mem, pContext, name); })
               : call([=] { CrashCatcherDump_ReadBinary(mem, pContext, name); });
}

static std::vector<RegionInfo> nonEmpty(const std::vector<RegionInfo>& m)
{
    std::vector<RegionInfo> r;
    for (auto& x : m) if (x.length) r.push_back(x);
    return r;
}

static void expectClosed(const char* what)
{
    REQUIRE(openFiles() == 0, "%s: %zu file(s) left open", what, openFiles());
    REQUIRE(fileOpens == fileCloses, "%s: %zu opens but %zu closes", what, fileOpens, fileCloses);
}

static void expectRegions(IMemory* mem, const std::vector<gen::Block>& regions, const std::vector<RegionInfo>& preset, const char* what)
{
    std::vector<RegionInfo> want = preset, got = nonEmpty(memoryMap(mem));
    for (auto& r : regions) if (!r.data.empty()) want.push_back({false, r.start, (uint32_t)r.data.size()});
    REQUIRE(got == want, "%s: memory regions are %s but should be %s", what, describe(got).c_str(), describe(want).c_str());
    for (auto& r : regions) expectBytes(mem, r.start, r.data, what);
}

static void prop_C01()
{
    reset();
    gen::Layout layout;
    layout.top = 0x100000000ull;
    bool     program = chance(15);
    IMemory* mem = program ? nullptr : memInit();
    std::vector<RegionInfo> preset;
    std::string flash;
    uint32_t flashBase = 0;
    if (program || chance(20))
    {
        flash = bytes(1 + size(64));
        flashBase = layout.place((uint32_t)flash.size());
        layout.add(flashBase, flash.size());
        const void* p = flash.data();
        uint32_t n = (uint32_t)flash.size();
        if (!program)
        {
        Result r = call([=] { MemorySim_CreateRegion(mem, flashBase, n); MemorySim_LoadFromFlashImage(mem, flashBase, p, n); MemorySim_MakeRegionReadOnly(mem, flashBase); });
        REQUIRE(!r.threw, "setting up flash raised %s", r.text().c_str());
        }
        preset.push_back({true, flashBase, n});
    }
    gen::CrashOptions o;
    o.maxSize = 6000;
    o.big = true;
    gen::Crash c = gen::crash(layout, o);
    std::string file = path("dump");
    std::string image = gen::toBinary(c);
    writeFile(file, image);
    note("%s", gen::describe(c).c_str());

    RegisterContext before, context;
    gen::fillContext(&before, chance(50) ? 0x12345679 : 0);
    context = before;
    Result r;
    if (program)
    {
        std::string image = path("image");
        writeFile(image, flash);
        memset(&before, 0, sizeof(before));
        r = scenario::start({"--bin", image, format("0x%x", flashBase), "--dump", file}, &context, &mem);
    }
    else
        r = load(mem, &context, file, false);
    REQUIRE(!r.threw, "a well-formed dump was refused with %s", r.text().c_str());
    expectClosed("after loading");
    gen::expectContext(context, c, before, "loaded dump");
    expectRegions(mem, c.regions, preset, "loaded dump");
    if (!flash.empty()) expectBytes(mem, flashBase, flash, "flash after loading");
    for (uint32_t a : layout.probes())
        if (!layout.covered(a)) expectUnreadable(mem, a, "loaded dump");
    /* RAM can be written, and only that byte changes. */
    for (auto& b : c.regions)
    {
        if (b.data.empty()) continue;
        size_t k = (size_t)draw(b.data.size() - 1);
        uint8_t v = (uint8_t)(b.data[k] ^ 0x5a);
        uint32_t a = b.start + (uint32_t)k;
        Result w = call([=] { IMemory_Write8(mem, a, v); });
        REQUIRE(!w.threw, "writing RAM at %08x raised %s", a, w.text().c_str());
        b.data[k] = (char)v;
    }
    for (auto& b : c.regions) expectBytes(mem, b.start, b.data, "after writing one byte per region");
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
    size_t total = 0;
    for (auto& b : c.regions) total += b.data.size();
    if (c.v2) label("version 2");
    if (c.hasFP()) label("floating point");
    if (c.regions.size() > 1) label("2+ regions");
    if (total > 1024) label("over 1 KB of memory");
    if (total > 0) nontrivial();
}

/* A well-formed dump, possibly damaged in one of the ways the properties name. */
static std::string damagedDump(bool allowMutation)
{
    gen::Layout layout;
    gen::CrashOptions o;
    o.maxSize = chance(2) ? chance(20) ? 140000 : 9000 : 300;
    o.maxRegions = 4;
    gen::Crash c = gen::crash(layout, o);
    std::string s = gen::toBinary(c);
    switch (below(allowMutation ? 8 : 6))
    {
    case 0: label("whole"); break;
    case 1: case 2:
        s.resize((size_t)draw(s.size()));
        label("cut anywhere");
        break;
    case 3:
    {
        /* Around the end of a part. */
        std::vector<size_t> edges = {4, 8};
        size_t e = 8 + (c.v2 ? 17 : 19) * 4;
        edges.push_back(e); e += 4; edges.push_back(e);
        if (c.hasFP()) { e += 132; edges.push_back(e); }
        size_t inside = 0;
        for (auto& r : c.regions)
        {
            edges.push_back(e + 4); e += 8; edges.push_back(e);
            /* Where reading it in blocks would stop. */
            size_t block = (size_t)1 << range(3, 16);
            if (r.data.size() > block) inside = e + block * range(1, (unsigned)((r.data.size() - 1) / block));
            e += r.data.size(); edges.push_back(e);
        }
        if (inside && chance(40)) { s.resize(inside); label("cut after whole blocks"); break; }
        size_t at = edges[below((uint32_t)edges.size())];
        long d = (long)below(9) - 4;
        if ((long)at + d >= 0 && at + (size_t)d <= s.size()) s.resize(at + (size_t)d);
        label("cut at a part's edge");
        break;
    }
    case 4:
    {
        /* Wrong signatures, one field at a time. */
        switch (below(5))
        {
        case 0: s[0] = (char)u8(); break;
        case 1: s[1] = (char)u8(); break;
        case 2: s[2] = (char)below(8); break;
        case 3: s[3] = (char)u8(); break;
        default: s[below(4)] ^= (char)(1u << below(8)); break;
        }
        if (chance(30)) s.resize((size_t)draw(s.size()));
        label("signature changed");
        break;
    }
    case 5:
        s += gen::le32(chance(70) ? 0xACCE55EDu : 0xACCE55EDu ^ (1u << below(32)));
        if (chance(30)) s += bytes(below(12));
        else if (chance(20)) s.resize(s.size() - below(4));
        label("stack overflow marker");
        break;
    case 6:
        for (unsigned i = 0 ; i == 0 || more(50, i, 6) ; i++)
            if (!s.empty()) s[(size_t)draw(s.size() - 1)] = (char)u8();
        label("bytes changed");
        break;
    default:
        if (chance(50)) s.resize(std::min<size_t>(s.size(), below(100)));
        s += bytes(size(200));
        label("bytes appended");
        break;
    }
    return s;
}

static std::vector<std::pair<uint32_t, uint64_t>> taken(const gen::DumpMeaning& m)
{
    std::vector<std::pair<uint32_t, uint64_t>> t;
    for (auto& r : m.crash.regions) t.push_back({r.start, r.data.size()});
    t.push_back({m.failedStart, m.failedLen});
    return t;
}

static void prop_C02()
{
    reset();
    std::string dump = chance(50) ? damagedDump(false) : std::string();
    if (dump.empty())
    {
        gen::Layout layout;
        gen::CrashOptions o;
        o.maxSize = 600;
        dump = gen::toBinary(gen::crash(layout, o));
        label("whole");
    }
    std::string hex = gen::toHex(dump);
    if (chance(6))
    {
        hex += "0123456789abcdefABCDEF"[below(22)];
        if (chance(50)) hex += "\n";
        label("left over digit");
    }
    bool spoil = chance(30) && !dump.empty();
    size_t spoiledDigit = 0;
    if (spoil)
    {
        /* Replace one digit by a character which is neither a digit nor a line break. */
        std::vector<size_t> digits;
        for (size_t i = 0 ; i < hex.size() ; i++) if (isxdigit((unsigned char)hex[i])) digits.push_back(i);
        digits.resize(dump.size() * 2);                 /* not a digit left over */
        spoiledDigit = (size_t)draw(digits.size() - 1);
        static const char near[] = "/:@G`g \t-+.xXoO\0\x1a\x7f\xff\x80\xb0\xc1\xe1";
        unsigned char bad = chance(60) ? (unsigned char)near[below(sizeof(near) - 1)] : u8();
        if (isxdigit(bad) || bad == '\r' || bad == '\n') bad = 'g';
        hex[digits[spoiledDigit]] = (char)bad;
        label("invalid digit");
    }
    note("hex form of %zu bytes: %s%s", dump.size(), quote(hex, 160).c_str(), spoil ? format(" with digit %zu invalid", spoiledDigit).c_str() : "");
    std::string fb = path("bin"), fh = path("hex");
    writeFile(fb, dump);
    writeFile(fh, hex);

    RegisterContext before, cb, ch;
    gen::fillContext(&before, 0xC0FFEE11);
    cb = ch = before;
    gen::DumpMeaning meaning = gen::readDump(dump);

    scenario::Companion with;
    if (chance(15) && !meaning.wraps && dump.compare(0, 2, "cC") == 0 && hex.compare(0, 4, "6343") == 0) with = scenario::companion(taken(meaning));
    bool program = with.found;
    if (program) memset(&before, 0, sizeof(before));
    auto loadAs = [&](IMemory** pMem, RegisterContext* p, const std::string& f, bool isHex) {
        if (!program) { *pMem = memInit(); return load(*pMem, p, f, isHex); }
        std::vector<std::string> args = with.option;
        args.push_back("--dump");
        args.push_back(f);
        return scenario::start(args, p, pMem);
    };
    IMemory* mem = nullptr;
    Result rh = loadAs(&mem, &ch, fh, true);
    expectClosed("after reading hex");
    if (spoil)
    {
        REQUIRE(rh.threw, "hex text with an invalid character was accepted (digit %zu)", spoiledDigit);
        REQUIRE(rh.code == fileFormatException || rh.code == outOfMemoryException || (rh.code == stackOverflowException && meaning.code == rh.code) || meaning.wraps,
                "hex text with an invalid character raised %s", rh.text().c_str());
        memUninit(mem);
        REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
        nontrivial();
        return;
    }
    std::vector<RegionInfo> mapHex, mapBin;
    if (mem) mapHex = memoryMap(mem);
    if (mem && !meaning.overlaps) for (auto& r : meaning.crash.regions) expectBytes(mem, r.start, r.data, "memory loaded from hex");
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up (hex)", liveBlocks());

    Result rb = loadAs(&mem, &cb, fb, false);
    expectClosed("after reading binary");
    REQUIRE(rb.threw == rh.threw && rb.code == rh.code && rb.msg == rh.msg, "binary form: %s, but hex form: %s", rb.text().c_str(), rh.text().c_str());
    if (mem) mapBin = memoryMap(mem);
    REQUIRE(mapBin == mapHex, "binary form: regions %s, but hex form: %s", describe(mapBin).c_str(), describe(mapHex).c_str());
    if (!rb.threw)
    {
        REQUIRE(memcmp(&cb, &ch, sizeof(cb)) == 0, "registers differ between binary and hex form: %s", gen::describeContextDiff(cb, ch).c_str());
        gen::Crash want = meaning.crash;
        gen::expectContext(ch, want, before, "hex form");
    }
    if (mem && !meaning.overlaps) for (auto& r : meaning.crash.regions) expectBytes(mem, r.start, r.data, "memory loaded from binary");
    memUninit(mem);
    if (dump.size() > 80) nontrivial();
}

static void prop_C03()
{
    reset();
    allocCap = 1u << 20;
    std::string dump = chance(8) ? bytes(size(400)) : damagedDump(true);
    note("%zu bytes: %s", dump.size(), hexdump(dump.data(), dump.size(), 160).c_str());
    gen::DumpMeaning want = gen::readDump(dump);
    std::string file = path("dump");
    writeFile(file, dump);
    RegisterContext before, context;
    gen::fillContext(&before, 0xABCDEF01);
    context = before;
    scenario::Companion with;
    if (chance(15) && !want.wraps && dump.compare(0, 2, "cC") == 0) with = scenario::companion(taken(want));
    std::vector<RegionInfo> preset;
    IMemory* mem = nullptr;
    Result r;
    if (with.found)
    {
        std::vector<std::string> args = with.option;
        args.push_back("--dump");
        args.push_back(file);
        memset(&before, 0, sizeof(before));
        r = scenario::start(args, &context, &mem);
        preset.push_back(with.region());
    }
    else
    {
        mem = memInit();
        r = load(mem, &context, file, false);
    }
    expectClosed("after loading");
    if (want.wraps)
    {
        if (want.code != noException && !want.tooBig) REQUIRE(r.threw, "a damaged dump was accepted");
        label("wrapping region");
    }
    else if (want.code == noException)
    {
        REQUIRE(!r.threw, "a complete dump was refused with %s", r.text().c_str());
        gen::expectContext(context, want.crash, before, "complete dump");
        if (!want.overlaps) expectRegions(mem, want.crash.regions, preset, "complete dump");
        label("accepted");
    }
    else
    {
        REQUIRE(r.threw, "a damaged dump was accepted; expected exception %d %s", want.code, quote(want.msg).c_str());
        bool codeOk = r.code == want.code || (want.tooBig && (r.code == fileFormatException || r.code == outOfMemoryException));
        REQUIRE(codeOk && r.msg == want.msg, "expected exception %d %s, got %s", want.code, quote(want.msg).c_str(), r.text().c_str());
        nontrivial();
        if (want.code == stackOverflowException) label("stack overflow marker seen");
    }
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
}

void addDumpProps(std::vector<Property>& v)
{
    v.push_back({"C01", prop_C01, 400000, 25000000,
        "Random well-formed binary dumps (both versions, any flags, edge-biased register values, 0-6 non-overlapping regions of 0-6000 bytes, often adjacent, at any address), "
        "loaded by CrashCatcherDump_ReadBinary and compared field by field and byte by byte with what was encoded, probing every region edge. Some go through a command line. Non-trivial: at least one byte of memory.", {}});
    v.push_back({"C02", prop_C02, 1200000, 25000000,
        "Random dumps (whole, cut at any byte, wrong signature, stack overflow marker) rendered as hex with random digit case and line breaks anywhere, or with one digit replaced by an invalid character; "
        "ReadHex is compared with ReadBinary and with a reference reader. Some go through a command line. Non-trivial: more than 80 bytes, or an invalid character.", {}});
    v.push_back({"C03", prop_C03, 1800000, 40000000,
        "Random dumps cut anywhere or at the edges of their parts, with changed signatures, stack overflow markers, changed or appended bytes, and arbitrary bytes; exception code and message are compared "
        "with a reference reader. Some go through a command line. Non-trivial: the dump must be refused.", {}});
}
