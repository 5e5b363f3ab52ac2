/* ELF images: generator and reference reader. */
#ifndef ELF_GEN_H_
#define ELF_GEN_H_
#include "gen.h"

namespace elf {

struct Seg { uint32_t type, offset, vaddr, paddr, filesz, memsz, flags, align; };
struct Image
{
    std::string      blob;
    std::vector<Seg> segs;
    std::vector<gen::Block> flash;      /* what must appear, in order */
    uint32_t phoff = 0;
    uint16_t phentsize = 32;
};
struct Options { unsigned maxSegs = 6; uint32_t maxSize = 3000; bool wild = true; bool large = false; /* segments of thousands of bytes */ };
Image make(gen::Layout& layout, const Options& o);

struct Meaning
{
    std::vector<std::string> errors;    /* start of each right message; empty: must load (or overlap) */
    std::vector<gen::Block> flash;
    bool overlaps = false;              /* loadable entries overlap or wrap: only a clean outcome is specified */
};
Meaning read(const std::string& blob);

} /* namespace elf */
#endif
