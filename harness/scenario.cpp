#include "scenario.h"

using namespace pbt;
using namespace env;

namespace scenario {

std::string numberText(uint32_t v)
{
    switch (below(6))
    {
    case 0:  return format("0x%08x", v);
    case 5:
    {
        /* More leading zeros than needed. */
        unsigned n = range(9, 14);
        return chance(50) ? format("0x%0*x", (int)n, v) : format("0%0*o", (int)n + 3, v);
    }
    case 1:  return format("0x%X", v);
    case 2:  return format("%u", v);
    case 3:  return format("0%o", v);
    default: return format("0X%x", v);
    }
}

std::string anyCase(const std::string& s)
{
    std::string t = s;
    switch (below(3))
    {
    case 0:  break;
    case 1:  for (auto& c : t) c = (char)toupper((unsigned char)c); break;
    default: for (auto& c : t) if (chance(50)) c = (char)toupper((unsigned char)c); break;
    }
    return t;
}

/* Part of a file name; mostly nothing. */
std::string oddName()
{
    static const char* const odd[] = {"%s%s%n", "%d", "100%", " b", "\xc3\xbc\xff", "--dump", "--elf", "%", "\n", "..", "\\", "'\"", "%08x", "0x10", ".elf", ".txt", "$HOME", "*"};
    static const char* const extensions[] = {".log", ".bin", ".hex", ".dump", ".dmp", ".txt", ".elf", ".axf", ".LOG", ".BIN", ".HEX", ".img"};
    if (chance(25)) return extensions[below(12)];
    if (!chance(15)) return "";
    if (chance(10)) return std::string(200, 'n');
    return odd[below(18)];
}

void Scenario::makeImage(const Options& o)
{
    layout.top = 0x100000000ull;
    useElf = o.image < 0 ? chance(50) : o.image == 1;
    if (useElf)
    {
        elf::Options eo;
        eo.maxSegs = 4;
        eo.maxSize = o.maxSize;
        eo.wild = false;
        elfImage = elf::make(layout, eo);
        imageData = elfImage.blob;
    }
    else
    {
        uint32_t n = 1 + size(o.maxSize - 1);
        imageData = bytes(n);
        binBase = layout.place(n, chance(50) ? 4 : 1);
        layout.add(binBase, n);
    }
}

void Scenario::makeCrash(const Options& o)
{
    layout.top = 0x100000000ull;
    gen::CrashOptions co;
    co.maxRegions = o.maxRegions;
    co.maxSize = o.maxSize;
    if (o.words) { co.words = true; co.allowEmpty = false; }
    gen::registers(crash);
    if (o.words)
    {
        crash.flags &= 1;
        crash.v2 = false;
        crash.exceptionPSR = 0;
        if (!crash.hasFP()) memset(crash.FPR, 0, sizeof(crash.FPR));
    }
    if (o.faultRegisters && chance(60))
    {
        /* CFSR 28, HFSR 2C, MMFAR 34, BFAR 38, in one region or apart, perhaps not all. */
        struct { uint32_t a, n; } choice[] = {{0xE000ED28, 20}, {0xE000ED28, 8}, {0xE000ED28, 4}, {0xE000ED2C, 16}, {0xE000ED00, chance(50) ? 128u : 0x104u}, {0xE000ED28, 16}, {0xE000ED28, 24}};
        auto c = choice[below(7)];
        if (layout.fits(c.a, c.n))
        {
            gen::Block b{c.a, std::string(c.n, '\0')};
            for (uint32_t i = 0 ; i + 4 <= c.n ; i += 4)
            {
                uint32_t v = chance(25) ? 0 : chance(30) ? (uint32_t)draw(0xFFFFFFFFu) : 0;
                if (v == 0 && chance(75)) for (unsigned k = 0 ; k == 0 || more(50, k, 5) ; k++) v |= 1u << below(32);
                for (int k = 0 ; k < 4 ; k++) b.data[i + (uint32_t)k] = (char)(v >> (8 * k));
            }
            layout.add(c.a, c.n);
            crash.regions.push_back(b);
        }
        if (chance(70)) crash.exceptionPSR = (crash.exceptionPSR & ~0xFFu) | range(2, 6);
    }
    if (o.large)
    {
        gen::Block b;
        b.data = bytes(4 * range(16000, 30000));
        b.start = layout.place((uint32_t)b.data.size(), 4);
        layout.add(b.start, b.data.size());
        crash.regions.push_back(b);
        label("memory over 64 KB");
    }
    gen::Crash more_ = gen::crash(layout, co);
    crash.regions.insert(crash.regions.end(), more_.regions.begin(), more_.regions.end());
}

void Scenario::makeDump(Format f)
{
    format = f;
    memset(&context, 0, sizeof(context));
    if (f != LOG)
    {
        std::string bin = gen::toBinary(crash);
        dumpData = bin;
        if (f == HEX)
        {
            /* The first four characters tell what it is. */
            for (;;)
            {
                dumpData = gen::toHex(bin);
                if (dumpData.compare(0, 4, "6343") == 0) break;
                dumpData = "6343" + gen::toHex(bin.substr(2));
                break;
            }
        }
        context.flags = crash.flags;
        for (int i = 0 ; i < TOTAL_REG_COUNT ; i++) context.R[i] = i >= MSP && crash.v2 ? 0xBAADBAADu : crash.R[i];
        context.exceptionPSR = crash.exceptionPSR;
        for (int i = 0 ; i < TOTAL_FPREG_COUNT ; i++) if (crash.hasFP()) context.FPR[i] = crash.FPR[i];
        return;
    }
    gen::LogOptions lo;
    lo.subset = false;
    gen::Log log = gen::toLog(crash, lo);
    std::vector<std::string> lines;
    bool noise = chance(50);
    if (chance(20))
    {
        /* What almost looks like the first characters of the other formats. */
        static const char* const starts[] = {"634", "63", "6", "6342", "6344", "6353", "7343", "6443", "cc", "c", "C", "Cc", "CC", "cD", "dC", "63 43", " 6343", "c C", " cC", "\x7f" "ELF",
                                             "6363", "4363", "634c", "c3", "63C"};
        std::string s = starts[below(sizeof(starts) / sizeof(starts[0]))];
        if (chance(50)) s += " " + gen::noiseLine();
        lines.push_back(s);
        label("log almost like another format");
    }
    else if (noise) lines.push_back("(gdb) info registers");
    for (auto& l : log.lines)
    {
        if (noise && chance(20)) lines.push_back(gen::noiseLine());
        lines.push_back(l);
    }
    dumpData = gen::joinLog(lines, chance(80));
    context.flags = log.anyS ? CRASH_CATCHER_FLAGS_FLOATING_POINT : 0;
    for (int i = 0 ; i < TOTAL_REG_COUNT ; i++) context.R[i] = crash.R[i];
    for (int i = 0 ; i < TOTAL_FPREG_COUNT ; i++) if (crash.hasFP()) context.FPR[i] = crash.FPR[i];
}

void Scenario::expectMemory()
{
    memory.regs.clear();
    if (useElf) for (auto& b : elfImage.flash) memory.add(b.start, b.data, true);
    else memory.add(binBase, imageData, true);
    size_t first = memory.regs.size();
    for (auto& r : crash.regions)
    {
        if (format == LOG)
        {
            /* Contiguous lines make one region. */
            if (memory.regs.size() > first)
            {
                model::Region& last = memory.regs.back();
                if ((uint64_t)last.base + last.size == r.start) { last.data += r.data; last.size = (uint32_t)last.data.size(); continue; }
            }
        }
        memory.add(r.start, r.data, false);
    }
    for (auto& a : aliases) memory.addAlias(a.base, a.redirect, a.size);
}

void Scenario::makeAliases(const Options& o)
{
    layout.top = 0x100000000ull;
    expectMemory();
    bool many = o.manyAliases && chance(1) && chance(60);
    unsigned atLeast = many ? 10 + size(150) : 0;
    if (many) label("10+ aliases");
    if (atLeast > 64) label("more than 256 arguments");
    for (unsigned i = 0 ; many ? i < atLeast : more(40, i, o.maxAliases) ; i++)
    {
        std::vector<size_t> some;
        for (size_t k = 0 ; k < memory.regs.size() ; k++) if (memory.regs[k].size) some.push_back(k);
        size_t which = some[below((uint32_t)some.size())];
        if (o.large && chance(60)) for (size_t k : some) if (memory.regs[k].size > 60000) which = k;
        const model::Region& r = memory.regs[which];
        Alias a;
        a.redirect = r.base + (chance(50) ? 0 : below(r.size));
        model::Place t = memory.find(a.redirect, 1);
        uint32_t left = memory.regs[t.region].size - t.offset;
        a.size = chance(50) ? left : chance(60) ? 1 + below(left) : 1 + size(2000);
        uint32_t covered = std::min(a.size, left);
        a.base = layout.place(covered, chance(50) ? 4 : 1);
        layout.add(a.base, covered);
        aliases.push_back(a);
        memory.addAlias(a.base, a.redirect, a.size);
    }
}

void Scenario::writeFiles(const char* prefix)
{
    imageFile = path((std::string(prefix) + "image" + oddName()).c_str());
    dumpFile = path((std::string(prefix) + "dump" + oddName()).c_str());
    writeFile(imageFile, imageData);
    writeFile(dumpFile, dumpData);
    if (useElf) imageOption = {anyCase("--elf"), imageFile};
    else imageOption = {anyCase("--bin"), imageFile, numberText(binBase)};
    dumpOption = {anyCase("--dump"), dumpFile};
    aliasOptions.clear();
    for (auto& a : aliases) aliasOptions.push_back({anyCase("--alias"), numberText(a.base), numberText(a.size), numberText(a.redirect)});
}

std::vector<std::string> shuffled(const std::vector<std::vector<std::string>>& fixedOrder, const std::vector<std::vector<std::string>>& others)
{
    std::vector<std::vector<std::string>> all = fixedOrder;
    for (auto& g : others) all.insert(all.begin() + (long)below((uint32_t)all.size() + 1), g);
    std::vector<std::string> args;
    for (auto& g : all) args.insert(args.end(), g.begin(), g.end());
    return args;
}

std::vector<std::string> Scenario::commandLine() const { return shuffled(aliasOptions, {imageOption, dumpOption}); }

std::string Scenario::describe() const
{
    std::string s = pbt::format("%s image, %s dump: flags %x, exception PSR %x, regions", useElf ? "ELF" : "raw", format == BINARY ? "binary" : format == HEX ? "hex" : "GDB log", crash.flags, crash.exceptionPSR);
    for (auto& r : memory.regs) s += pbt::format(" %s%08x+%x", r.alias ? "alias " : r.readOnly ? "flash " : "", r.base, r.size);
    return s;
}

Scenario make(const Options& o)
{
    Scenario s;
    s.makeImage(o);
    Options co = o;
    Format f = (Format)(o.format < 0 ? (int)weighted({3, 2, 2}) : o.format);
    if (f == LOG) co.words = true;
    s.makeCrash(co);
    s.makeDump(f);
    s.makeAliases(o);
    s.expectMemory();
    s.writeFiles();
    return s;
}

Argv::Argv(const std::vector<std::string>& args)
{
    for (auto& a : args)
    {
        char* p = (char*)malloc(a.size() + 1);
        memcpy(p, a.c_str(), a.size() + 1);
        v.push_back(p);
    }
    block = (const char**)malloc(v.size() ? v.size() * sizeof(char*) : 1);
    for (size_t i = 0 ; i < v.size() ; i++) block[i] = v[i];
}
Argv::~Argv()
{
    for (char* p : v) free(p);
    free(block);
}

void expectContext(const RegisterContext& got, const RegisterContext& want, const char* what)
{
    std::string d = gen::describeContextDiff(got, want);
    REQUIRE(d.empty(), "%s: registers differ (got/expected): %s", what, d.c_str());
}

env::Result start(const std::vector<std::string>& args, RegisterContext* pContext, IMemory** ppMem)
{
    static CrashDebugCommandLine cl;
    Argv a(args);
    memset(&cl, 0xA5, sizeof(cl));
    int argc = a.argc();
    const char** argv = a.argv();
    env::Result r = env::call([=] { CrashDebugCommandLine_Init(&cl, argc, argv); });
    *pContext = cl.context;
    *ppMem = r.threw ? nullptr : cl.pMemory;
    label("through the command line");
    return r;
}

Companion companion(const std::vector<std::pair<uint32_t, uint64_t>>& taken)
{
    Companion c;
    c.data = bytes(1 + size(40));
    for (int i = 0 ; i < 8 && !c.found ; i++)
    {
        c.base = i == 0 ? 0 : u32();
        uint64_t end = (uint64_t)c.base + c.data.size();
        c.found = end <= 0xFFFFFFFFu;
        for (auto& t : taken) if (c.base < t.first + t.second + 8 && end + 8 > t.first) c.found = false;
    }
    std::string f = env::path("companion");
    env::writeFile(f, c.data);
    c.option = {"--bin", f, format("0x%x", c.base)};
    return c;
}

} /* namespace scenario */
