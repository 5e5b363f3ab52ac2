/* A plain model of simulated memory. */
#ifndef MODEL_H_
#define MODEL_H_
#include "gen.h"

namespace model {

struct Region
{
    uint32_t base = 0, size = 0;
    bool     alias = false, shownFlash = false;
    /* real regions */
    std::string data;
    bool     readOnly = false;
    std::vector<uint32_t> countMin, countMax;       /* read counts per halfword slot */
    /* aliases */
    size_t   target = 0;
    uint32_t offset = 0;
};
struct Place { bool ok; size_t region; uint32_t offset; };

struct Memory
{
    std::vector<Region> regs;
    Place find(uint32_t address, uint32_t size) const;
    void  add(uint32_t base, const std::string& data, bool readOnly);
    bool  addAlias(uint32_t base, uint32_t redirect, uint32_t size);      /* false: the target is not mapped */
    bool  read(uint32_t address, uint32_t size, uint8_t* p) const;
    bool  write(uint32_t address, uint32_t size, const uint8_t* p);
    std::vector<env::RegionInfo> map() const;
    std::string mapText() const;
    /* Compare the code's memory with this, all regions and the addresses around them. */
    void  expect(IMemory* mem, const gen::Layout& layout, const char* what) const;
};

} /* namespace model */
#endif
