/* A complete start-up: image file, crash dump file, aliases, command line, and the state which they must give. */
#ifndef SCENARIO_H_
#define SCENARIO_H_
#include "elf.h"
#include "model.h"

namespace scenario {

struct Alias { uint32_t base, size, redirect; };
enum Format { BINARY, HEX, LOG };

struct Options
{
    unsigned maxRegions = 4;
    uint32_t maxSize = 300;
    int      image = -1;            /* 0 bin, 1 elf, -1 any */
    int      format = -1;
    bool     words = false;         /* the crash can be put in any of the formats */
    unsigned maxAliases = 3;
    bool     manyAliases = false;   /* now and then tens of them */
    bool     large = false;         /* a region of more than 64 KB */
    bool     faultRegisters = false;/* include the fault status registers, somehow */
};

struct Scenario
{
    gen::Layout  layout;
    bool         useElf = false;
    elf::Image   elfImage;
    uint32_t     binBase = 0;
    std::string  imageData, dumpData;
    std::string  imageFile, dumpFile;
    gen::Crash   crash;
    Format       format = BINARY;
    std::vector<Alias> aliases;
    /* Options of the command line: image, dump and aliases. */
    std::vector<std::string> imageOption, dumpOption;
    std::vector<std::vector<std::string>> aliasOptions;
    /* What it must come to. */
    RegisterContext context;
    model::Memory   memory;

    void makeImage(const Options& o);
    void makeCrash(const Options& o);
    void makeDump(Format f);        /* from the crash; sets the expected context */
    void makeAliases(const Options& o);
    void expectMemory();            /* model memory from image, dump and aliases */
    void writeFiles(const char* prefix = "");
    std::vector<std::string> commandLine() const;
    std::string describe() const;
};
Scenario make(const Options& o);

std::string numberText(uint32_t v);             /* decimal, hex or octal */
std::string oddName();
std::string anyCase(const std::string& s);
/* Join option groups in a drawn order which keeps the order of the aliases. */
std::vector<std::string> shuffled(const std::vector<std::vector<std::string>>& fixedOrder, const std::vector<std::vector<std::string>>& others);

/* argv in blocks of exactly the right size. */
struct Argv
{
    std::vector<char*> v;
    const char** block = nullptr;
    explicit Argv(const std::vector<std::string>& args);
    ~Argv();
    int argc() const { return (int)v.size(); }
    const char** argv() const { return block; }
};

void expectContext(const RegisterContext& got, const RegisterContext& want, const char* what);

/* Start the program's way: everything named on a command line.  The memory is NULL if it failed. */
env::Result start(const std::vector<std::string>& args, RegisterContext* pContext, IMemory** ppMem);
/* An image to go with a dump: a few bytes where none of these are. */
struct Companion { bool found = false; uint32_t base = 0; std::string data; std::vector<std::string> option; env::RegionInfo region() const { return {true, base, (uint32_t)data.size()}; } };
Companion companion(const std::vector<std::pair<uint32_t, uint64_t>>& taken);

} /* namespace scenario */
#endif
