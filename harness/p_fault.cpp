/* C26, C27: memory and files which fail. */
#include "props.h"
#include "machine.h"
#include "scenario.h"

using namespace pbt;
using namespace env;
using namespace scenario;

static CrashDebugCommandLine g_cl;

static Result init(const Argv& a)
{
    memset(&g_cl, 0xA5, sizeof(g_cl));
    int argc = a.argc();
    const char** argv = a.argv();
    return call([=] { CrashDebugCommandLine_Init(&g_cl, argc, argv); });
}
static void uninit()
{
    Result r = call([] { CrashDebugCommandLine_Uninit(&g_cl); });
    REQUIRE(!r.threw, "cleaning up raised %s", r.text().c_str());
}
static void expectClean(const char* when)
{
    REQUIRE(openFiles() == 0, "%zu file(s) still open %s", openFiles(), when);
    REQUIRE(fileOpens == fileCloses, "%zu opens but %zu closes %s", fileOpens, fileCloses, when);
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released %s", liveBlocks(), when);
}
static void expectLoaded(const Scenario& s, const Result& r, const char* when)
{
    REQUIRE(!r.threw, "%s: a valid command line failed with %s", when, r.text().c_str());
    REQUIRE(openFiles() == 0, "%s: %zu file(s) still open", when, openFiles());
    expectContext(g_cl.context, s.context, when);
    s.memory.expect(g_cl.pMemory, s.layout, when);
}

/* After a failure, something else altogether is loaded. */
static void loadAnother(const Options& o)
{
    Scenario s = make(o);
    Argv a(s.commandLine());
    if (wantNote()) note("then %s", s.describe().c_str());
    Result r = init(a);
    expectLoaded(s, r, "another load after the failure");
    uninit();
    expectClean("after another load and clean-up");
    label("another load");
}

/* ------------------------------------------------------------------ C26 */
static void memoryHistory()
{
    machine::Options o;
    o.faults = true;
    o.maxRegionSize = chance(20) ? 4000 : 60;
    machine::Machine m(o);
    m.init();
    std::vector<unsigned> w = swarm(machine::allOps());
    w[machine::CREATE] = 3;
    w[machine::ALIAS] += 2;
    w[machine::MEMORY_MAP] += 2;
    unsigned n = 0;
    while (more(92, n, 60)) { m.step(w); n++; }
    m.verifyAll("at the end of the history");
    m.finish();
    label("memory history");
    if (m.faultsHit > 3) label("4+ failed operations");
    if (m.faultsHit && m.regs.size() > 1) nontrivial();
}

static void wholeLoad()
{
    Options o;
    o.maxSize = 64;
    Scenario s = make(o);
    std::vector<std::string> args = s.commandLine();
    Argv a(args);
    note("%s", s.describe().c_str());
    Result r = init(a);
    uint64_t total = allocCount;
    expectLoaded(s, r, "with enough memory");
    uninit();
    expectClean("after loading and clean-up");
    bool all = total <= 24 && chance(40);
    unsigned runs = all ? (unsigned)total : range(1, 4);
    for (unsigned i = 0 ; i < runs ; i++)
    {
        uint64_t at = all ? i + 1 : 1 + draw(total - 1);
        uint64_t before = allocFailed;
        allocFailAt = allocCount + at;
        allocFailAllAfter = chance(30);
        if (wantNote()) note("allocation %llu of %llu fails%s", (unsigned long long)at, (unsigned long long)total, allocFailAllAfter ? ", and all after it" : "");
        bool exhausted = allocFailAllAfter;
        r = init(a);
        allocFailAt = 0;
        allocFailAllAfter = false;
        REQUIRE(allocFailed > before, "allocation %llu of %llu was not reached in the second run", (unsigned long long)at, (unsigned long long)total);
        REQUIRE(r.threw && r.code == outOfMemoryException, "loading with allocation %llu of %llu failing%s: %s instead of the out of memory exception",
                (unsigned long long)at, (unsigned long long)total, exhausted ? " (and all later)" : "", r.text().c_str());
        REQUIRE(g_cl.pMemory == NULL, "the failed command line still refers to simulated memory");
        expectClean("after running out of memory");
        if (!all && chance(10)) { loadAnother(o); break; }
        if (i + 1 == runs || chance(20))
        {
            r = init(a);
            expectLoaded(s, r, "after running out of memory before");
            uninit();
            expectClean("after loading and clean-up");
        }
    }
    label("command line");
    if (all) label("every allocation of a load");
    if (total > 6) nontrivial();
}

/* The loaders with memory which already holds something. */
static void loadIntoExisting()
{
    machine::Options mo;
    mo.maxRegionSize = 40;
    machine::Machine m(mo);
    m.init();
    std::vector<unsigned> w(machine::OPS, 0);
    w[machine::CREATE] = 3; w[machine::ALIAS] = 1; w[machine::READONLY] = 1; w[machine::WRITE] = 3; w[machine::LOAD] = 1; w[machine::SET_WATCH] = 1; w[machine::SET_BREAK] = 1;
    for (unsigned n = 0 ; more(85, n, 20) ; n++) m.step(w);
    Scenario s;
    s.layout = m.layout;
    Options o;
    o.maxSize = 64;
    int kind = (int)below(4);
    o.image = kind == 3;
    s.makeImage(o);
    if (kind == 2) o.words = true;
    s.makeCrash(o);
    s.makeDump(kind == 2 ? LOG : kind == 1 ? HEX : BINARY);
    s.writeFiles();
    m.layout = s.layout;
    static RegisterContext context;
    IMemory* mem = m.mem;
    const char* file = s.dumpFile.c_str();
    char* blob = (char*)malloc(s.imageData.size() ? s.imageData.size() : 1);
    memcpy(blob, s.imageData.data(), s.imageData.size());
    uint32_t n = (uint32_t)s.imageData.size();
    RegisterContext* pc = &context;
    uint64_t at = 1 + draw(7);
    uint64_t before = allocFailed;
    allocFailAt = allocCount + at;
    allocFailAllAfter = chance(30);
    Result r = call([=] {
        if (kind == 0) CrashCatcherDump_ReadBinary(mem, pc, file);
        else if (kind == 1) CrashCatcherDump_ReadHex(mem, pc, file);
        else if (kind == 2) GdbLogParse(mem, pc, file);
        else ElfLoad_FromMemory(mem, blob, n);
    });
    free(blob);
    allocFailAt = 0;
    allocFailAllAfter = false;
    static const char* names[] = {"a binary dump", "a hex dump", "a GDB log", "an ELF image"};
    bool failed = allocFailed > before;
    if (failed) REQUIRE(r.threw && r.code == outOfMemoryException, "loading %s with allocation %llu failing: %s instead of the out of memory exception", names[kind], (unsigned long long)at, r.text().c_str());
    else REQUIRE(!r.threw, "loading valid %s raised %s", names[kind], r.text().c_str());
    REQUIRE(openFiles() == 0, "%zu file(s) still open after loading %s", openFiles(), names[kind]);
    /* What was there before is as it was: the first regions in the map, with their contents. */
    for (size_t i = 0 ; i < m.regs.size() ; i++)
    {
        std::vector<RegionInfo> want = m.map(), got = memoryMap(mem);
        REQUIRE(got.size() >= want.size(), "regions have vanished after %s failed to load", names[kind]);
        got.resize(want.size());
        REQUIRE(got == want, "the earlier regions were %s but are %s after %s %s", describe(want).c_str(), describe(got).c_str(), names[kind], failed ? "failed to load" : "was loaded");
        auto& g = m.regs[i];
        if (!g.alias && g.size) expectBytes(mem, g.base, g.data, "region from before");
    }
    memUninit(mem);
    expectClean("after clean-up");
    label(names[kind]);
    if (failed) { label("ran out of memory"); if (m.regs.size() > 0) nontrivial(); }
}

static void prop_C26()
{
    reset();
    switch (weighted({5, 3, 2}))
    {
    case 0:  memoryHistory(); break;
    case 1:  wholeLoad(); break;
    default: loadIntoExisting(); break;
    }
}

/* ------------------------------------------------------------------ C27 */
static std::string baseName(const std::string& p) { return p.substr(p.rfind('/') + 1); }

/* Offsets (in bytes of the binary form) at which a dump may end. */
static std::vector<size_t> ends(const Scenario& s)
{
    std::vector<size_t> v;
    size_t at = gen::toBinary(s.crash).size();
    v.push_back(at);
    for (size_t i = s.crash.regions.size() ; i-- > 0 ;) { at -= 8 + s.crash.regions[i].data.size(); v.push_back(at); }
    return v;
}

static void checkFault(const Scenario& s, const Result& r)
{
    static const char* ops[] = {"fopen", "fclose", "fseek", "ftell", "fread", "fgets"};
    static const char* kinds[] = {"failing", "coming up short", "at an unexpected end of file", "cut short by the end of file"};
    const char* op = ops[fileFaultedOp];
    bool read = fileFaultedOp == OP_FREAD || fileFaultedOp == OP_FGETS;
    std::string what = format("%s %s on the %s (opened %u times, at %ld)", op, kinds[read ? fileFault : 0], baseName(fileFaultedName).c_str(), fileFaultedOpen, fileFaultedPos);
    bool endOfFile = fileFault == FAULT_EOF || fileFault == FAULT_SHORT_EOF;
    bool image = fileFaultedName == s.imageFile;
    if (!image && fileFaultedOp == OP_FGETS)
    {
        label("log line");      /* taken for the end of the log: a known finding */
        return;
    }
    if (!image && fileFaultedOp == OP_FREAD && endOfFile)
    {
        label("dump ends early");
        /* As if the file ended there. */
        if (fileFaultedOpen == 1) return;       /* whatever the file would have been taken for then */
        size_t pos = (size_t)fileFaultedEnd;
        if (s.format == HEX)
        {
            size_t digits = 0;
            for (size_t i = 0 ; i < pos ; i++) if (s.dumpData[i] != '\r' && s.dumpData[i] != '\n') digits++;
            pos = digits / 2;
        }
        std::vector<size_t> e = ends(s);
        bool mayEnd = false;
        for (size_t x : e) if (x == pos) mayEnd = true;
        if (mayEnd) return;
        REQUIRE(r.threw, "loading succeeded in spite of %s", what.c_str());
        return;
    }
    REQUIRE(r.threw, "loading succeeded in spite of %s", what.c_str());
    REQUIRE(r.code == fileException || (fileFaultedOp == OP_FREAD && r.code == fileFormatException), "%s raised %s", what.c_str(), r.text().c_str());
    REQUIRE(!r.msg.empty(), "no message is available after %s", what.c_str());
    if (image || fileFaultedOp == OP_FOPEN || fileFaultedOpen == 1)
        if (!(fileFaultedOp == OP_FREAD && !image && s.format == LOG) && fileFaultedOp != OP_FGETS && (image || fileFaultedOp != OP_FSEEK))
            REQUIRE(r.msg.find(fileFaultedName) != std::string::npos, "the message %s after %s does not name the file", quote(r.msg).c_str(), what.c_str());
}

static void prop_C27()
{
    reset();
    Options o;
    o.maxSize = 24;
    o.maxRegions = 3;
    o.maxAliases = 1;
    Scenario s = make(o);
    std::vector<std::string> args = s.commandLine();
    note("%s", s.describe().c_str());
    if (chance(3))
    {
        /* A directory in place of one of the files, which can be opened but not read. */
        bool dump = chance(50);
        std::string dir = scratchDir();
        for (auto& x : args) if (x == (dump ? s.dumpFile : s.imageFile)) x = dir;
        Argv a(args);
        Result r = init(a);
        note("%s is a directory: %s", dump ? "dump" : "image", r.text().c_str());
        REQUIRE(r.threw && !r.msg.empty(), "a directory given as the %s: %s", dump ? "dump" : "image", r.text().c_str());
        expectClean("after a directory was given");
        label("directory");
        return;
    }
    Argv a(args);
    Result r = init(a);
    expectLoaded(s, r, "without failures");
    uint64_t total = fileOps;
    std::vector<OpRecord> ops = opLog;
    REQUIRE(fileOpens == fileCloses, "%zu opens but %zu closes after loading", fileOpens, fileCloses);
    uninit();
    expectClean("after loading and clean-up");
    bool all = total <= 40 && chance(30);
    unsigned runs = all ? (unsigned)total : range(1, 4);
    for (unsigned i = 0 ; i < runs ; i++)
    {
        uint64_t at = all ? i : chance(50) ? draw(total - 1, VALUE) : draw(total - 1);
        if (!all && chance(35))
        {
            /* One of the rarer kinds. */
            std::vector<uint64_t> rare;
            for (size_t k = 0 ; k < ops.size() ; k++) if (ops[k].op != OP_FREAD && ops[k].op != OP_FGETS) rare.push_back(k);
            at = pick(rare);
        }
        fileFault = (FileFault)below(4);
        fileFaulted = false;
        fileFailAt = fileOps + at + 1;
        forgetOpens();
        r = init(a);
        fileFailAt = 0;
        REQUIRE(fileFaulted, "file operation %llu of %llu was not reached in the second run", (unsigned long long)at + 1, (unsigned long long)total);
        if (wantNote()) note("operation %llu of %llu fails: %s", (unsigned long long)at + 1, (unsigned long long)total, r.text().c_str());
        if (r.threw) REQUIRE(g_cl.pMemory == NULL, "the failed command line still refers to simulated memory");
        else uninit();
        expectClean("after a file operation failed");
        checkFault(s, r);
        static const char* names[] = {"fopen fails", "fclose", "fseek fails", "ftell fails", "fread fails", "fgets fails"};
        label(names[fileFaultedOp]);
        if (!all && chance(8)) { loadAnother(o); break; }
        if (i + 1 == runs || chance(20))
        {
            r = init(a);
            expectLoaded(s, r, "after a file operation failed before");
            uninit();
            expectClean("after loading and clean-up");
        }
    }
    if (all) label("every operation of a load");
    nontrivial();
}

/* A read error in the middle of a GDB log is taken for its end. */
static void probeLogReadError()
{
    reset();
    std::string image = path("image"), log = path("log");
    writeFile(image, std::string(8, 'x'));
    writeFile(log, "0x20000000:\t0x11111111\t0x22222222\n0x20000008:\t0x33333333\n");
    Argv a({"--bin", image, "0", "--dump", log});
    Result r = init(a);
    REQUIRE(!r.threw, "loading failed: %s", r.text().c_str());
    uninit();
    uint64_t at = 0;
    for (size_t k = 0 ; k < opLog.size() ; k++) if (opLog[k].op == OP_FGETS) at = k;    /* the last lines of the second pass */
    fileFault = FAULT_FAIL;
    fileFailAt = fileOps + at;
    r = init(a);
    fileFailAt = 0;
    if (!r.threw) uninit();
    REQUIRE(r.threw, "a read error in the middle of a GDB log went unnoticed");
}

void addFaultProps(std::vector<Property>& v)
{
    v.push_back({"C26", prop_C26, 240000, 3000000,
        "Either a memory operation history in which 40% of the operations first run with one of their allocations (or it and all later ones) failing, with everything verified against the model "
        "afterwards and the operation then repeated; or a whole start-up (raw/ELF image, dump in any format, aliases) of which one allocation, several, or each in turn fails, followed by a start-up with enough "
        "memory which must give the full state; or one loader run into memory which already has contents. Non-trivial: at least one operation failed while two regions existed, a start-up with over six allocations, or a loader failed.", {}});
    v.push_back({"C27", prop_C27, 150000, 1500000,
        "Random start-ups (raw/ELF image, dump in any format, aliases): first without failures, counting file operations, then with one of them (or each in turn) failing: open, seek or tell error, read error with nothing or half "
        "of the data, end of file with nothing or half; plus directories in place of files. Checked: the exception and message, open/close balance, leaks and that the next start-up gives the full state. Non-trivial: a file operation failed.",
        {{"log-line-read-error", probeLogReadError}}});
}
