#include "elf.h"
using namespace pbt;

namespace elf {

static void put32(std::string& s, size_t at, uint32_t v) { for (int i = 0 ; i < 4 ; i++) s[at + (size_t)i] = (char)(v >> (8 * i)); }
static void put16(std::string& s, size_t at, uint16_t v) { for (int i = 0 ; i < 2 ; i++) s[at + (size_t)i] = (char)(v >> (8 * i)); }
static uint32_t get32(const std::string& s, size_t at)
{
    uint32_t v = 0;
    for (int i = 3 ; i >= 0 ; i--) v = v << 8 | (uint8_t)s[at + (size_t)i];
    return v;
}
static uint16_t get16(const std::string& s, size_t at) { return (uint16_t)((uint8_t)s[at] | (uint8_t)s[at + 1] << 8); }

static uint32_t otherType()
{
    static const uint32_t types[] = {0, 2, 3, 4, 5, 6, 7, 0x60000000, 0x6474e551, 0x70000000, 0x70000001, 0x7fffffff, 0xffffffff, 0x80000001, 0x101, 0x10001};
    uint32_t t = chance(70) ? types[below(16)] : u32();
    return t == 1 ? 0 : t;
}

Image make(gen::Layout& layout, const Options& o)
{
    Image im;
    unsigned count = 1;
    while (more(60, count, o.maxSegs)) count++;
    if (o.wild && chance(2)) count = 1 + below(300);
    im.phentsize = (uint16_t)(chance(70) ? 32 : chance(80) ? 32 + below(40) : 32 + below(count > 20 ? 300 : 3000));
    im.phoff = chance(60) ? 52 : 52 + size(2000);
    size_t tableEnd = im.phoff + (size_t)(count - 1) * im.phentsize + 32;
    size_t total = tableEnd + (o.large ? range(2000, o.maxSize) : chance(30) ? 0 : size(o.maxSize));
    im.blob = bytes(total);

    std::vector<Seg> segs;
    bool any = false;
    for (unsigned i = 0 ; i < count ; i++)
    {
        Seg s;
        unsigned kind = count == 1 ? 0 : below(10);
        if (!any && i + 1 == count) kind = 0;
        bool loadable = kind < 6;
        s.type = 1;
        s.vaddr = u32();
        s.flags = chance(70) ? below(8) : u32();
        s.align = chance(70) ? 1u << below(17) : u32();
        uint32_t n = std::min<uint32_t>(1 + size(o.maxSize), (uint32_t)total);
        if (o.large && chance(50)) n = std::min(range(2000, o.maxSize), (uint32_t)total);
        if (count > 20 && n > 64) n = 1 + n % 64;
        s.filesz = n;
        s.offset = (uint32_t)draw(total - n);
        if (chance(10)) s.offset = (uint32_t)(total - n);
        if (chance(30)) s.memsz = n; else s.memsz = value(n, 0xFFFFFFFFu);
        if (loadable)
        {
            s.paddr = layout.place(n, chance(50) ? 4 : 1);
            if (chance(50)) s.vaddr = s.paddr;
            layout.add(s.paddr, n);
            any = true;
        }
        else
        {
            s.paddr = u32();
            switch (kind)
            {
            case 6: s.filesz = 0; if (chance(50)) s.offset = u32(); break;
            case 7: s.memsz = n > 1 && chance(50) ? n - 1 : below(n); if (chance(50)) s.offset = u32(); break;
            default: s.type = otherType(); if (chance(50)) s.offset = u32(); if (chance(50)) s.filesz = u32(); break;
            }
        }
        segs.push_back(s);
    }
    /* ELF header */
    static const char ident[7] = {0x7f, 'E', 'L', 'F', 1, 1, 1};
    for (int i = 0 ; i < (o.wild && chance(20) ? 6 : 7) ; i++) im.blob[(size_t)i] = ident[i];
    put16(im.blob, 16, 2);
    if (!o.wild || chance(70)) { put16(im.blob, 18, 40); put32(im.blob, 20, 1); put16(im.blob, 40, 52); }
    put32(im.blob, 28, im.phoff);
    put16(im.blob, 42, im.phentsize);
    put16(im.blob, 44, (uint16_t)count);
    for (size_t i = 0 ; i < segs.size() ; i++)
    {
        size_t at = im.phoff + i * im.phentsize;
        const Seg& s = segs[i];
        const uint32_t f[8] = {s.type, s.offset, s.vaddr, s.paddr, s.filesz, s.memsz, s.flags, s.align};
        for (size_t k = 0 ; k < 8 ; k++) put32(im.blob, at + k * 4, f[k]);
    }
    im.segs = segs;
    for (auto& s : segs)
        if (s.type == 1 && s.filesz != 0 && s.filesz <= s.memsz)
            im.flash.push_back({s.paddr, im.blob.substr(s.offset, s.filesz)});
    return im;
}

Meaning read(const std::string& b)
{
    Meaning m;
    if (b.size() < 52) { m.errors.push_back("ELF was too short to contain valid header."); return m; }
    if (b.compare(0, 4, "\x7f" "ELF") != 0) m.errors.push_back("ELF header doesn't start with expected magic ELF identifier.");
    if (b[4] != 1) m.errors.push_back("ELF header doesn't contain 32-bit flag.");
    if (b[5] != 1) m.errors.push_back("ELF header doesn't contain little endian flag.");
    if (get16(b, 16) != 2) m.errors.push_back("ELF header doesn't contain executable flag.");
    uint32_t phoff = get32(b, 28);
    uint16_t entsize = get16(b, 42), num = get16(b, 44);
    if (phoff == 0) m.errors.push_back("ELF header contains an invalid offset of 0 for the page headers.");
    if (num == 0) m.errors.push_back("ELF header contains an invalid page header entry count of 0.");
    if (entsize < 32) m.errors.push_back(format("ELF header contains a page header entry size of %d", entsize));
    if (!m.errors.empty()) return m;
    std::vector<std::pair<uint64_t, uint64_t>> used;
    for (uint32_t i = 0 ; i < num ; i++)
    {
        uint64_t at = (uint64_t)phoff + (uint64_t)i * entsize;
        if (at + 32 > b.size()) { m.errors.push_back(format("ELF page header entry %u is at an invalid file offset of %u.", i, (unsigned)at)); break; }
        uint32_t type = get32(b, at), off = get32(b, at + 4), paddr = get32(b, at + 12), filesz = get32(b, at + 16), memsz = get32(b, at + 20);
        if (type != 1 || filesz == 0 || memsz < filesz) continue;
        if ((uint64_t)off + filesz > b.size()) { m.errors.push_back(format("ELF failed to load entry from file at offsets %d to %d.", (int)off, (int)(off + filesz - 1))); continue; }
        uint64_t hi = (uint64_t)paddr + filesz;
        if (hi > 0x100000000ull) m.overlaps = true;
        for (auto& u : used) if (paddr < u.second && u.first < hi) m.overlaps = true;
        used.push_back({paddr, hi});
        m.flash.push_back({paddr, b.substr(off, filesz)});
    }
    if (m.errors.empty() && m.flash.empty()) m.errors.push_back("ELF contained no entries which were loadable");
    return m;
}

} /* namespace elf */
