#include "model.h"

using namespace pbt;
using namespace env;

namespace model {

Place Memory::find(uint32_t address, uint32_t size) const
{
    for (size_t i = 0 ; i < regs.size() ; i++)
    {
        const Region& r = regs[i];
        if (address >= r.base && (uint64_t)address + size <= (uint64_t)r.base + r.size)
            return r.alias ? Place{true, r.target, r.offset + (address - r.base)} : Place{true, i, address - r.base};
    }
    return {false, 0, 0};
}

void Memory::add(uint32_t base, const std::string& data, bool readOnly)
{
    Region r;
    r.base = base;
    r.size = (uint32_t)data.size();
    r.data = data;
    r.readOnly = r.shownFlash = readOnly;
    regs.push_back(r);
}

bool Memory::addAlias(uint32_t base, uint32_t redirect, uint32_t size)
{
    Place t = find(redirect, 1);
    if (!t.ok) return false;
    Region r;
    r.base = base;
    r.alias = true;
    r.target = t.region;
    r.offset = t.offset;
    r.size = std::min(size, regs[t.region].size - t.offset);
    r.shownFlash = regs[t.region].readOnly;
    regs.push_back(r);
    return true;
}

bool Memory::read(uint32_t address, uint32_t size, uint8_t* p) const
{
    Place t = find(address, size);
    if (t.ok) memcpy(p, regs[t.region].data.data() + t.offset, size);
    return t.ok;
}

bool Memory::write(uint32_t address, uint32_t size, const uint8_t* p)
{
    Place t = find(address, size);
    if (!t.ok || regs[t.region].readOnly) return false;
    regs[t.region].data.replace(t.offset, size, std::string((const char*)p, size));
    return true;
}

std::vector<RegionInfo> Memory::map() const
{
    std::vector<RegionInfo> v;
    for (auto& r : regs) v.push_back({r.shownFlash, r.base, r.size});
    return v;
}

std::string Memory::mapText() const
{
    std::string s = "<?xml version=\"1.0\"?>"
        "<!DOCTYPE memory-map PUBLIC \"+//IDN gnu.org//DTD GDB Memory Map V1.0//EN\" \"http://sourceware.org/gdb/gdb-memory-map.dtd\">"
        "<memory-map>";
    for (auto& r : regs)
        s += format("<memory type=\"%s\" start=\"0x%X\" length=\"0x%X\">%s</memory>", r.shownFlash ? "flash" : "ram", r.base, r.size,
                    r.shownFlash ? " <property name=\"blocksize\">1</property>" : "");
    return s + "</memory-map>";
}

void Memory::expect(IMemory* mem, const gen::Layout& layout, const char* what) const
{
    std::vector<RegionInfo> want = map(), got = env::memoryMap(mem);
    REQUIRE(got == want, "%s: memory regions are %s but should be %s", what, env::describe(got).c_str(), env::describe(want).c_str());
    for (auto& r : regs)
        if (r.alias) expectBytes(mem, r.base, regs[r.target].data.substr(r.offset, r.size), what);
        else expectBytes(mem, r.base, r.data, what);
    for (uint32_t a : layout.probes())
        if (!find(a, 1).ok) expectUnreadable(mem, a, what);
}

} /* namespace model */
