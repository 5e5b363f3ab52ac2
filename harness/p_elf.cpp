/* C06, C07: ELF images. */
#include "props.h"
#include "scenario.h"

using namespace pbt;
using namespace env;

/* The image is handed over in a block of exactly its size so that reading beyond it is noticed. */
static Result loadElf(IMemory* mem, const std::string& blob)
{
    char* p = (char*)malloc(blob.size() ? blob.size() : 1);
    char* q = blob.size() ? p : p + 1;
    memcpy(q, blob.data(), blob.size());
    size_t n = blob.size();
    Result r = call([=] { ElfLoad_FromMemory(mem, q, n); });
    free(p);
    return r;
}

/* The same, or from a file named on a command line, with a dump which has nothing but a register. */
static Result loadSomehow(IMemory** pMem, const std::string& blob)
{
    if (!chance(10))
    {
        *pMem = memInit();
        return loadElf(*pMem, blob);
    }
    std::string image = path("image"), dump = path("dump");
    writeFile(image, blob);
    writeFile(dump, "r0             0x1\t1\n");
    RegisterContext context;
    Result r = scenario::start({"--elf", image, "--dump", dump}, &context, pMem);
    REQUIRE(openFiles() == 0, "%zu file(s) left open", openFiles());
    return r;
}

static void expectFlash(IMemory* mem, const std::vector<gen::Block>& flash, const char* what)
{
    std::vector<RegionInfo> want, got = memoryMap(mem);
    for (auto& b : flash) want.push_back({true, b.start, (uint32_t)b.data.size()});
    REQUIRE(got == want, "%s: memory regions are %s but should be %s", what, describe(got).c_str(), describe(want).c_str());
    for (auto& b : flash) expectBytes(mem, b.start, b.data, what);
}

/* Tables of up to 65535 entries of which a few are to be loaded. */
static void longTable()
{
    uint32_t n = chance(40) ? 65535 - below(3) : chance(40) ? 32766 + below(5) : 256 + below(65280), ents = chance(70) ? 32 : 32 + 4 * below(5);
    uint32_t phoff = 52 + below(100);
    std::string data = bytes(1 + size(200)), blob((size_t)phoff + (size_t)n * ents, '\0');
    blob += data;
    auto put = [&](size_t at, uint32_t v, int k) { for (int i = 0 ; i < k ; i++) blob[at + (size_t)i] = (char)(v >> (8 * i)); };
    static const char ident[7] = {0x7f, 'E', 'L', 'F', 1, 1, 1};
    for (int i = 0 ; i < 7 ; i++) blob[(size_t)i] = ident[i];
    put(16, 2, 2); put(18, 40, 2); put(20, 1, 4); put(40, 52, 2);
    put(28, phoff, 4); put(42, ents, 2); put(44, n, 2);
    std::set<uint32_t> at;
    static const uint32_t edge[] = {255, 256, 32767, 32768};
    for (unsigned i = 0 ; i == 0 || more(60, i, 5) ; i++) at.insert(chance(50) ? n - 1 - below(3) : chance(40) ? edge[below(4)] % n : below(n));
    std::vector<gen::Block> flash;
    for (uint32_t i : at)
    {
        size_t p = phoff + (size_t)i * ents;
        uint32_t off = (uint32_t)draw(data.size() - 1), len = 1 + (uint32_t)draw(data.size() - off - 1), where = 0x1000 * (uint32_t)flash.size() + below(0xE00);
        put(p, 1, 4); put(p + 4, (uint32_t)(blob.size() - data.size()) + off, 4); put(p + 12, where, 4); put(p + 16, len, 4); put(p + 20, len, 4);
        flash.push_back({where, data.substr(off, len)});
    }
    note("%u entries of %u bytes, %zu loadable, the first is entry %u", n, ents, flash.size(), *at.begin());
    IMemory* mem = nullptr;
    Result r = loadSomehow(&mem, blob);
    REQUIRE(!r.threw, "a valid ELF image with %u entries was refused with %s", n, r.text().c_str());
    expectFlash(mem, flash, "loaded ELF");
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
    label("tens of thousands of entries");
    nontrivial();
}

/* Tables which begin inside the ELF header, in the fields at its end, as in images made to be as small as possible. */
static void tableInHeader()
{
    uint32_t phoff = chance(50) ? 44 : 48, where = chance(50) ? 0 : u32() & 0x7FFFFFFF, ents = chance(60) ? 32 : 32 + below(40);
    std::string blob = bytes((size_t)phoff + 32 + size(200));
    auto put = [&](size_t at, uint32_t v, int k) { for (int i = 0 ; i < k ; i++) blob[at + (size_t)i] = (char)(v >> (8 * i)); };
    static const char ident[7] = {0x7f, 'E', 'L', 'F', 1, 1, 1};
    for (int i = 0 ; i < 7 ; i++) blob[(size_t)i] = ident[i];
    uint32_t off = (uint32_t)draw(blob.size() - 1), len = 1 + (uint32_t)draw(blob.size() - off - 1);
    put(16, 2, 2); put(18, 40, 2); put(20, 1, 4); put(40, 52, 2);
    put(28, phoff, 4); put(42, ents, 2); put(44, 1, 2);
    put(phoff, 1, 4); put(phoff + 4, off, 4); put(phoff + 12, where, 4); put(phoff + 16, len, 4); put(phoff + 20, len + below(9), 4);
    note("%zu byte image, one entry at %u for the %u bytes at %u: %s", blob.size(), phoff, len, off, hexdump(blob.data(), blob.size(), 200).c_str());
    IMemory* mem = nullptr;
    Result r = loadSomehow(&mem, blob);
    REQUIRE(!r.threw, "a valid ELF image whose table begins in the last fields of the header was refused with %s", r.text().c_str());
    expectFlash(mem, {{where, blob.substr(off, len)}}, "loaded ELF");
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
    label("table begins in the header");
    nontrivial();
}

static void prop_C06()
{
    reset();
    if (chance(1) && chance(4)) { longTable(); return; }
    if (chance(1)) { tableInHeader(); return; }
    gen::Layout layout;
    layout.top = 0x100000000ull;
    elf::Options o;
    o.maxSize = chance(2) ? 150000 : 3000;
    elf::Image im = elf::make(layout, o);
    note("%zu byte image, table at %u, %zu entries of %u bytes", im.blob.size(), im.phoff, im.segs.size(), im.phentsize);
    for (size_t i = 0 ; i < im.segs.size() && i < 8 ; i++)
        note("  type %x offset %x paddr %08x filesz %x memsz %x", im.segs[i].type, im.segs[i].offset, im.segs[i].paddr, im.segs[i].filesz, im.segs[i].memsz);
    IMemory* mem = nullptr;
    Result r = loadSomehow(&mem, im.blob);
    REQUIRE(!r.threw, "a valid ELF image was refused with %s", r.text().c_str());
    expectFlash(mem, im.flash, "loaded ELF");
    for (uint32_t a : layout.probes())
        if (!layout.covered(a)) expectUnreadable(mem, a, "loaded ELF");
    for (size_t k = 0 ; k < im.flash.size() && k < 6 ; k++)
    {
        auto& b = im.flash[k];
        uint32_t a = b.start + (uint32_t)draw(b.data.size() - 1);
        Result w = call([=] { IMemory_Write8(mem, a, 0x77); });
        REQUIRE(w.threw && w.code == busErrorException, "writing flash at %08x: %s instead of a bus error", a, w.text().c_str());
        if (b.data.size() >= 2)
        {
            uint32_t c = b.start + (uint32_t)draw(b.data.size() - 2);
            volatile uint32_t count = 1;
            volatile uint32_t* pc = &count;
            Result q = call([=] { *pc = MemorySim_GetFlashReadCount(mem, c); });
            REQUIRE(!q.threw && count == 0, "flash at %08x has read count %u right after loading (%s)", c, count, q.text().c_str());
        }
        expectBytes(mem, b.start, b.data, "after write attempts");
    }
    memUninit(mem);
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
    if (im.flash.size() > 1) label("2+ loadable entries");
    if (im.flash.size() < im.segs.size()) label("entries which must not be loaded");
    if (im.phentsize > 32) label("large table entries");
    if (im.segs.size() > 100) label("over 100 entries");
    for (auto& b : im.flash) if (b.data.size() % 4) { label("size not a multiple of 4"); break; }
    if (im.segs.size() > 1) nontrivial();
}

static void prop_C07()
{
    reset();
    std::string blob;
    if (chance(6)) { blob = bytes(size(300)); label("arbitrary bytes"); }
    else
    {
        gen::Layout layout;
        elf::Options o;
        bool big = chance(4);
        o.maxSize = big ? chance(20) ? 140000 : 10000 : 200;
        o.large = big;
        o.maxSegs = chance(10) ? 40 : 4;
        o.wild = false;
        elf::Image im = elf::make(layout, o);
        blob = im.blob;
        auto put = [&](size_t at, uint32_t v, int n) { for (int i = 0 ; i < n && at + (size_t)i < blob.size() ; i++) blob[at + (size_t)i] = (char)(v >> (8 * i)); };
        for (unsigned e = 0 ; e == 0 || more(25, e, 4) ; e++)
        {
            switch (big && chance(60) ? 7 : below(12))
            {
            case 0: blob.resize((size_t)draw(blob.size())); label("truncated"); break;
            case 1: blob.resize(std::min<size_t>(blob.size(), 48 + below(8))); label("truncated at header"); break;
            case 2: put(below(6), u8(), 1); label("identification"); break;
            case 3: put(16, chance(60) ? below(5) : u32(), 2); label("type"); break;
            case 4: put(28, chance(30) ? 0 : chance(50) ? (uint32_t)(blob.size() - 32 + below(3) - 1) : u32(), 4); label("table offset"); break;
            case 5: put(42, chance(60) ? below(34) : u32(), 2); label("entry size"); break;
            case 6: put(44, chance(60) ? below(5) : u32(), 2); label("entry count"); break;
            case 7: case 8: case 9: case 10:
            {
                size_t i = chance(30) ? im.segs.size() - 1 : below((uint32_t)im.segs.size());
                if (big) for (size_t k = 0 ; k < im.segs.size() ; k++) if (im.segs[k].filesz > 4000 && im.segs[k].filesz < 200000) i = k;
                size_t at = im.phoff + i * im.phentsize;
                const elf::Seg& s = im.segs[i];
                uint32_t size32 = (uint32_t)blob.size();
                switch (big && chance(50) ? 2 : below(8))
                {
                case 0: put(at + 4, u32(), 4); break;
                case 1: put(at + 16, u32(), 4); if (chance(70)) put(at + 20, 0xFFFFFFFFu, 4); break;
                case 2: put(at + 4, size32 - s.filesz + below(5) - 2, 4); break;                        /* ends around the end of the file */
                case 3: put(at + 4, 0u - s.filesz + below(5) - 2, 4); break;                            /* sum wraps around zero */
                case 4: { uint32_t off = size32 ? below(size32) : 0; put(at + 4, off, 4); put(at + 16, 0u - off + below(size32 + 2), 4); put(at + 20, 0xFFFFFFFFu, 4); break; }
                case 5: put(at + 16, s.filesz + (chance(50) ? 1 : below(100)), 4); break;
                case 6: put(at + 20, chance(50) ? s.filesz - 1 : u32(), 4); break;
                default: put(at, chance(50) ? below(9) : u32(), 4); break;
                }
                label("program header entry");
                break;
            }
            default:
                if (!blob.empty()) blob[(size_t)draw(blob.size() - 1)] = (char)u8();
                label("random byte");
                break;
            }
        }
    }
    elf::Meaning want = elf::read(blob);
    note("%zu bytes, expecting %s: %s", blob.size(), want.errors.empty() ? "to load" : want.errors[0].c_str(), hexdump(blob.data(), blob.size(), 200).c_str());
    IMemory* mem = nullptr;
    Result r = loadSomehow(&mem, blob);
    if (!want.errors.empty())
    {
        REQUIRE(r.threw, "a malformed ELF image was loaded; expected: %s", want.errors[0].c_str());
        if (!want.overlaps || r.code == elfFormatException)
        {
            REQUIRE(r.code == elfFormatException, "a malformed ELF image raised %s; expected an ELF format exception: %s", r.text().c_str(), want.errors[0].c_str());
            bool match = false;
            for (auto& e : want.errors) match |= r.msg.compare(0, e.size(), e) == 0;
            REQUIRE(match, "a malformed ELF image was refused with message %s; expected: %s", quote(r.msg).c_str(), want.errors[0].c_str());
        }
        nontrivial();
    }
    else if (want.overlaps) label("overlapping entries");
    else
    {
        REQUIRE(!r.threw, "a valid ELF image was refused with %s", r.text().c_str());
        expectFlash(mem, want.flash, "loaded ELF");
        label("still valid");
    }
    memUninit(mem);
    REQUIRE(want.overlaps || liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
}

void addElfProps(std::vector<Property>& v)
{
    v.push_back({"C06", prop_C06, 240000, 8000000,
        "Random executable ELF images (table anywhere, entry size 32-3000, 1-6 and sometimes up to 300 entries, loadable ones of 1 byte to 150 KB at non-overlapping addresses mixed with other types, zero file sizes and "
        "file sizes above the memory size, random values in unused fields), loaded from a block of exactly their size and compared with the segments. Some go through a command line. Non-trivial: at least two entries.", {}});
    v.push_back({"C07", prop_C07, 1200000, 25000000,
        "Valid ELF images with 1-4 corruptions (truncation, identification, type, table offset/size/count, entry offsets and sizes around the file end and around 2^32, random bytes) and arbitrary bytes; outcome and message "
        "are compared with a reference reader using 64-bit arithmetic, under address sanitizer. Some go through a command line. Non-trivial: the image must be refused.", {}});
}
