/* C08 - C10: command line, image and dump loading. */
#include "props.h"
#include "broken.h"

using namespace pbt;
using namespace env;
using namespace scenario;

static CrashDebugCommandLine g_cl;

static Result init(const std::vector<std::string>& args)
{
    std::string text;
    for (auto& a : args) text += " " + quote(a.compare(0, scratchDir().size(), scratchDir()) == 0 ? a.substr(scratchDir().size() + 1) : a);
    note("%s", text.c_str());
    Argv a(args);
    memset(&g_cl, 0xA5, sizeof(g_cl));
    int argc = a.argc();
    const char** argv = a.argv();
    return call([=] { CrashDebugCommandLine_Init(&g_cl, argc, argv); });
}

static void uninit()
{
    Result r = call([] { CrashDebugCommandLine_Uninit(&g_cl); });
    REQUIRE(!r.threw, "cleaning up raised %s", r.text().c_str());
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released after clean-up", liveBlocks());
    REQUIRE(openFiles() == 0, "%zu file(s) not closed", openFiles());
}

static void prop_C08()
{
    reset();
    Options o;
    o.image = 0;
    o.maxSize = chance(3) ? 150000 : 600;
    Scenario s;
    s.makeImage(o);
    if (s.imageData.size() >= 4 && chance(20)) s.imageData.replace(0, 4, "\x7f" "ELF");        /* contents do not matter */
    Options co;
    co.maxSize = 60;
    s.makeCrash(co);
    s.makeDump(BINARY);
    s.expectMemory();
    s.writeFiles();
    note("%zu bytes at %08x", s.imageData.size(), s.binBase);
    Result r = init(s.commandLine());
    REQUIRE(!r.threw, "loading %zu bytes to %s failed: %s", s.imageData.size(), s.imageOption[2].c_str(), r.text().c_str());
    IMemory* mem = g_cl.pMemory;
    s.memory.expect(mem, s.layout, "with --bin");
    for (int i = 0 ; i < 3 ; i++)
    {
        uint32_t a = s.binBase + (uint32_t)draw(s.imageData.size() - 1);
        unsigned n = 1u << below(3);
        Result w = call([=] {
            if (n == 1) IMemory_Write8(mem, a, 0x77);
            else if (n == 2) IMemory_Write16(mem, a, 0x7777);
            else IMemory_Write32(mem, a, 0x77777777);
        });
        REQUIRE(w.threw && w.code == busErrorException, "writing %u bytes to flash at %08x: %s instead of a bus error", n, a, w.text().c_str());
    }
    expectBytes(mem, s.binBase, s.imageData, "flash after write attempts");
    uint32_t end = s.binBase + (uint32_t)s.imageData.size();
    for (uint32_t k = 1 ; k < 4 && k <= s.imageData.size() ; k++)
    {
        uint32_t a = end - k;
        Result w = call([=] { IMemory_Read32(mem, a); });
        REQUIRE(w.threw && w.code == busErrorException, "a 32-bit read across the end of the image at %08x: %s instead of a bus error", a, w.text().c_str());
    }
    uninit();
    if (s.imageData.size() > 65536) label("over 64 KB");
    if (s.imageData.size() % 4) label("size not a multiple of 4");
    if (s.imageOption[2][0] != '0') label("decimal base");
    else if (s.imageOption[2].size() > 1 && s.imageOption[2][1] != 'x' && s.imageOption[2][1] != 'X') label("octal base");
    if (end == 0) label("ends at the top of the address space");
    if (s.imageData.size() > 1) nontrivial();
}

/* What the first characters of a dump file decide, when the rest of it belongs to something else. */
static void recognition()
{
    Options o;
    o.words = true;
    o.maxSize = 60;
    o.maxAliases = 0;
    Scenario s;
    s.makeImage(o);
    s.makeCrash(o);
    s.makeDump(LOG);
    static const char* const starts[] = {"cC", "6343", "", "c", "C", "6", "63", "634", "6344", "cc", "Cc"};
    std::string start = starts[chance(60) ? below(2) : below(11)];
    std::string rest = chance(30) ? "" : chance(50) ? s.dumpData : bytes(below(200));
    if (start.size() > 1 && start != "cC" && start != "6343" && !rest.empty()) rest = "\n" + s.dumpData;
    if (start.size() < 2) rest.clear();
    std::string data = start + rest;
    bool dump = start == "cC" || start == "6343";
    if (chance(25))
    {
        /* A whole dump which doesn't begin with the first character of the file. */
        static const char* const before[] = {"\n", "\r\n", " ", "\n\n", "\t", "\xef\xbb\xbf", "0x", "x", "\n6", "\nc"};
        start = before[below(10)];
        data = start + (chance(70) ? gen::toHex(gen::toBinary(s.crash)) : gen::toBinary(s.crash)) + "\n";
        if (start == "0x") data = start + "6343\n";
        dump = false;
        bool known = chance(50);
        if (known) data += s.dumpData;
        rest = known ? "log" : "";
        label("dump further on in the file");
    }
    /* Nearly always: neither is a valid dump by chance, as the version follows. */
    if (dump && rest.size() >= 2) { rest[0] = chance(50) ? (char)(4 + below(252)) : rest[0]; data = start + rest; }
    if (start == "cC") { if (data.size() > 3 && (data[2] == 2 || data[2] == 3) && data[3] == 0) discard(); }
    if (start == "6343")
    {
        std::string digits;
        for (char ch : rest) if (ch != '\r' && ch != '\n') digits += ch;
        if (digits.compare(0, 4, "0200") == 0 || digits.compare(0, 4, "0300") == 0) discard();
    }
    s.dumpData = data;
    s.writeFiles();
    note("dump file: %s", quote(data, 300).c_str());
    Result r = init(s.commandLine());
    if (dump)
    {
        REQUIRE(r.threw, "a file which starts with %s and isn't a dump was accepted", start.c_str());
        REQUIRE(r.code == fileFormatException, "a file which starts with %s and isn't a dump was refused with %s", start.c_str(), r.text().c_str());
        REQUIRE(openFiles() == 0 && liveBlocks() == 0, "files or memory are held after a failed start");
        label("recognised as a dump");
    }
    else
    {
        REQUIRE(!r.threw, "a log which starts with %s was refused with %s", quote(start).c_str(), r.text().c_str());
        RegisterContext want = s.context;
        if (rest.empty())
        {
            memset(&want, 0, sizeof(want));
            want.R[MSP] = want.R[PSP] = 0xBAADBAAD;
        }
        expectContext(g_cl.context, want, "log");
        uninit();
        label("recognised as a log");
    }
    nontrivial();
}

static void prop_C09()
{
    reset();
    if (chance(10)) { recognition(); return; }
    Options o;
    o.words = true;
    o.manyAliases = true;
    o.maxSize = chance(3) ? (chance(25) ? 150000 : 5000) : 120;
    o.large = o.maxSize > 100000;
    Scenario s;
    s.makeImage(o);
    s.makeCrash(o);
    /* Contiguous regions would be one in a log and several in the other formats. */
    for (size_t i = 0 ; i + 1 < s.crash.regions.size() ; i++)
        if (s.crash.regions[i].start + s.crash.regions[i].data.size() == s.crash.regions[i + 1].start) { s.crash.regions.erase(s.crash.regions.begin() + (long)i + 1); i--; }
    s.makeDump(BINARY);
    s.makeAliases(o);
    Format formats[3] = {BINARY, HEX, LOG};
    unsigned runs = range(1, 3);
    note("%s", s.describe().c_str());
    for (unsigned i = 0 ; i < runs ; i++)
    {
        Format f = runs == 3 ? formats[i] : (Format)below(3);
        s.makeDump(f);
        s.expectMemory();
        s.writeFiles(format("%u", i).c_str());
        std::vector<std::vector<std::string>> groups = s.aliasOptions;
        std::vector<std::string> args;
        /* Earlier --elf, --bin and --dump options which are overruled. */
        std::vector<std::vector<std::string>> others = {s.imageOption, s.dumpOption};
        args = shuffled(groups, others);
        for (unsigned d = 0 ; more(d == 0 ? 30 : 50, d, 3) ; d++)
        {
            std::string decoyFile = path(d == 0 ? "decoy" : d == 1 ? "decoy1" : "decoy2");
            if (chance(50)) writeFile(decoyFile, bytes(below(100)));
            else remove(decoyFile.c_str());
            std::vector<std::string> decoy;
            unsigned k = below(3);
            if (k == 0) decoy = {anyCase("--dump"), decoyFile};
            else if (s.useElf) decoy = {anyCase("--elf"), decoyFile};
            else decoy = {anyCase("--bin"), decoyFile, numberText(u32())};
            bool anywhere = k == 1 && s.useElf;
            if (anywhere) decoy = {anyCase("--bin"), chance(80) ? decoyFile : chance(50) ? s.imageFile : s.dumpFile, numberText(u32())};
            else if (chance(10)) decoy[1] = chance(50) ? s.imageFile : s.dumpFile;
            /* Insert at an option boundary, in front of the option which overrules it. */
            std::vector<size_t> starts;
            for (size_t at = 0 ; at < args.size() ;)
            {
                starts.push_back(at);
                const char* opt = args[at].c_str();
                bool same = (k == 0 && !strcasecmp(opt, "--dump")) || (k != 0 && (!strcasecmp(opt, "--elf") || !strcasecmp(opt, "--bin")));
                if (same && !anywhere) break;
                at += !strcasecmp(opt, "--alias") ? 4 : !strcasecmp(opt, "--bin") ? 3 : 2;
            }
            size_t at = pick(starts);
            args.insert(args.begin() + (long)at, decoy.begin(), decoy.end());
            label(d > 0 ? "several overruled options" : anywhere ? "both --elf and --bin" : "repeated option");
        }
        Result r = init(args);
        const char* what = f == BINARY ? "binary dump" : f == HEX ? "hex dump" : "GDB log";
        REQUIRE(!r.threw, "a valid command line with a %s failed: %s", what, r.text().c_str());
        expectContext(g_cl.context, s.context, what);
        s.memory.expect(g_cl.pMemory, s.layout, what);
        uninit();
        label(what);
    }
    if (s.aliases.size() > 1) label("2+ aliases");
    if (s.crash.hasFP()) label("floating point");
    if (!s.crash.regions.empty() && (runs > 1 || !s.aliases.empty())) nontrivial();
}

/* ------------------------------------------------------------------ C10 */
struct File { bool exists; std::string data; const std::vector<gen::Block>* log = nullptr; /* the memory in a GDB log */ };

/* Everything which is wrong with a command line. */
static std::vector<Expected> problems(const std::vector<std::string>& args, const std::map<std::string, File>& files, bool* unspecified)
{
    std::vector<Expected> v;
    std::string elfFile, binFile, dumpFile, base;
    struct A { uint32_t base, size, redirect; };
    std::vector<A> aliases;
    bool stop = false;
    for (size_t i = 0 ; i < args.size() && !stop ;)
    {
        const std::string& a = args[i];
        size_t left = args.size() - i - 1, need;
        const char* c = a.c_str();
        if (a.compare(0, 2, "--") != 0) { v.push_back({invalidArgumentException, {"--"}}); break; }
        if (!strcasecmp(c, "--bin")) need = 2;
        else if (!strcasecmp(c, "--elf") || !strcasecmp(c, "--dump")) need = 1;
        else if (!strcasecmp(c, "--alias")) need = 3;
        else { v.push_back({invalidArgumentException, {a.size() > 900 ? a.substr(0, 900) : a}}); break; }
        if (left < need)
        {
            std::string low;
            for (char ch : a) low += (char)tolower((unsigned char)ch);
            v.push_back({invalidArgumentException, {low}});
            break;
        }
        if (need == 2) { binFile = args[i + 1]; base = args[i + 2]; }
        else if (!strcasecmp(c, "--elf")) elfFile = args[i + 1];
        else if (need == 1) dumpFile = args[i + 1];
        else aliases.push_back({(uint32_t)strtoul(args[i + 1].c_str(), nullptr, 0), (uint32_t)strtoul(args[i + 2].c_str(), nullptr, 0), (uint32_t)strtoul(args[i + 3].c_str(), nullptr, 0)});
        i += need + 1;
    }
    if (!v.empty()) return v;
    bool haveElf = !elfFile.empty(), haveBin = !binFile.empty(), haveDump = !dumpFile.empty();
    if (!haveElf && !haveBin) v.push_back({invalidArgumentException, {"--bin", "--elf"}});
    if (!haveDump) v.push_back({invalidArgumentException, {"--dump"}});
    if (!v.empty()) return v;
    model::Memory memory;
    std::string name = haveElf ? elfFile : binFile;
    auto f = files.find(name);
    bool imageOk = false;
    if (f == files.end() || !f->second.exists) v.push_back({fileException, {name}});
    else if (haveElf)
    {
        elf::Meaning m = elf::read(f->second.data);
        for (auto& e : m.errors) v.push_back({elfFormatException, {e}});
        if (m.overlaps) *unspecified = true;
        if (m.errors.empty()) { imageOk = true; for (auto& b : m.flash) memory.add(b.start, b.data, true); }
    }
    else
    {
        uint32_t b = (uint32_t)strtoul(base.c_str(), nullptr, 0);
        if (f->second.data.empty()) v.push_back({0, {format("%08X", b)}});
        else { imageOk = true; memory.add(b, f->second.data, true); }
    }
    auto d = files.find(dumpFile);
    bool dumpOk = false;
    if (d == files.end() || !d->second.exists) v.push_back({fileException, {dumpFile}});
    else
    {
        std::string data = d->second.data;
        bool bad = false;
        if (data.compare(0, 4, "6343") == 0)
        {
            std::string raw, digits;
            for (char ch : data) if (ch != '\r' && ch != '\n') digits += ch;
            if (digits.size() % 2) digits.pop_back();       /* a single character left over at the end of the file is ignored */
            for (size_t i = 0 ; i < digits.size() ; i++)
                if (!isxdigit((unsigned char)digits[i])) { bad = true; digits.resize(i); break; }
            for (size_t i = 0 ; i + 1 < digits.size() ; i += 2) raw += (char)strtoul(digits.substr(i, 2).c_str(), nullptr, 16);
            data = raw;
        }
        if (data.compare(0, 2, "cC") == 0 || bad)
        {
            gen::DumpMeaning m = gen::readDump(data);
            if (m.overlaps || m.wraps) *unspecified = true;
            if (bad) v.push_back({fileFormatException, {""}});      /* the bad digit is reached, or something else stops it before */
            if (m.code != noException) v.push_back({m.code, {m.msg}});
            if (m.tooBig) v.push_back({outOfMemoryException, {""}});
            else if (m.code == noException && !bad) { dumpOk = true; for (auto& r : m.crash.regions) memory.add(r.start, r.data, false); }
            /* What is already at these addresses decides how a region fails. */
            for (auto& g : memory.regs)
                if (m.failedLen && (uint64_t)m.failedStart < (uint64_t)g.base + g.size && g.base < (uint64_t)m.failedStart + m.failedLen) *unspecified = true;
            for (auto& r : m.crash.regions)
                for (uint32_t k = 0 ; k < r.data.size() ; k++)
                    for (auto& g : memory.regs) if (g.readOnly && r.start + k >= g.base && r.start + k - g.base < g.size) *unspecified = true;
        }
        else if (d->second.log || d->second.data.find("0x") == std::string::npos)
        {
            dumpOk = true;
            size_t first = memory.regs.size();
            if (d->second.log) for (auto& r : *d->second.log)
            {
                for (auto& g : memory.regs) if (g.readOnly && r.start < (uint64_t)g.base + g.size && g.base < (uint64_t)r.start + r.data.size()) *unspecified = true;
                model::Region* last = memory.regs.size() > first ? &memory.regs.back() : nullptr;
                if (last && (uint64_t)last->base + last->size == r.start) { last->data += r.data; last->size = (uint32_t)last->data.size(); }
                else memory.add(r.start, r.data, false);
            }
        }
        else *unspecified = true;
    }
    if (imageOk && dumpOk)
        for (auto& a : aliases)
            if (!memory.addAlias(a.base, a.redirect, a.size)) v.push_back({busErrorException, {format("%08X", a.redirect), format("%08X", a.base)}});
    return v;
}

static void expectFailure(const Result& r, const std::vector<Expected>& want)
{
    std::string all;
    for (auto& w : want) all += format("[%d: %s] ", w.code, w.parts[0].c_str());
    REQUIRE(r.threw, "an invalid command line was accepted; wrong with it: %s", all.c_str());
    REQUIRE(outText.empty(), "text was written to stdout: %s", quote(outText).c_str());
    REQUIRE(errText.compare(0, 7, "ERROR: ") == 0, "stderr does not start with 'ERROR: ': %s", quote(errText).c_str());
    size_t eol = errText.find("\n\nCrashDebug - ");
    REQUIRE(eol != std::string::npos, "there is no copyright notice after the message: %s", quote(errText).c_str());
    std::string msg = errText.substr(7, eol - 7);
    REQUIRE(!msg.empty(), "the error message is empty (%s); wrong with the command line: %s", r.text().c_str(), all.c_str());
    size_t usage = errText.find("Usage: CrashDebug");
    REQUIRE(usage != std::string::npos && usage > eol && errText.find("Copyright", eol) < usage, "the copyright notice and the usage text do not follow the message: %s", quote(errText, 400).c_str());
    REQUIRE(errText.find("Usage: CrashDebug", usage + 1) == std::string::npos, "the usage text is shown more than once: %s", quote(errText, 400).c_str());
    for (auto opt : {"--elf", "--bin", "--dump", "--alias"}) REQUIRE(errText.find(opt, usage) != std::string::npos, "the usage text does not explain %s: %s", opt, quote(errText, 4000).c_str());
    REQUIRE(errText.find("ERROR: ", 1) == std::string::npos, "more than one error is reported: %s", quote(errText, 400).c_str());
    bool ok = false;
    for (auto& w : want)
    {
        bool all = w.code == 0 || r.code == w.code;
        for (auto& p : w.parts) all = all && msg.find(p) != std::string::npos;
        ok |= all;
    }
    REQUIRE(ok, "exception %d with message %s does not name what is wrong: %s", r.code, quote(msg).c_str(), all.c_str());
    REQUIRE(openFiles() == 0 && fileOpens == fileCloses, "%zu file(s) not closed after a failed start", openFiles());
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) still held after a failed start", liveBlocks());
    REQUIRE(g_cl.pMemory == nullptr, "the memory handle is not cleared after a failed start");
    for (int i = 0 ; i < 2 ; i++)
    {
        Result u = call([] { CrashDebugCommandLine_Uninit(&g_cl); });
        REQUIRE(!u.threw, "cleaning up after a failed start raised %s", u.text().c_str());
    }
}

Broken makeBroken()
{
    Broken b;
    Options o;
    o.maxSize = 60;
    o.maxRegions = 2;
    o.maxAliases = 2;
    Scenario s = make(o);
    std::map<std::string, File> files;
    files[s.imageFile] = {true, s.imageData};
    files[s.dumpFile] = {true, s.dumpData, s.format == LOG ? &s.crash.regions : nullptr};
    std::string missing = path(chance(50) ? ("missing" + oddName()).c_str() : "image/under-a-file");
    files[missing] = {false, ""};
    bool noImage = false, noDump = false;
    for (unsigned k = 0 ; k == 0 || more(25, k, 4) ; k++)
    {
        switch (below(10))
        {
        case 0: noImage = true; label("no image option"); break;
        case 1: noDump = true; label("no dump option"); break;
        case 2: s.imageOption[1] = missing; label("missing image"); break;
        case 3: s.dumpOption[1] = missing; label("missing dump"); break;
        case 4: case 5:
        {
            /* Damage the image. */
            std::string& d = files[s.imageFile].data;
            if (!s.useElf) { if (chance(50)) d.clear(); }
            else switch (below(4))
            {
            case 0:  d.resize((size_t)draw(d.size())); break;
            case 1:  if (!d.empty()) d[below(std::min<uint32_t>(52, (uint32_t)d.size()))] = (char)u8(); break;
            case 2:  if (d.size() > 52) d[52 + below(std::min<uint32_t>(64, (uint32_t)d.size() - 52))] = (char)u8(); break;
            default: d.clear(); break;
            }
            label("damaged image");
            break;
        }
        case 6: case 7:
        {
            std::string& d = files[s.dumpFile].data;
            if (s.format == LOG || d.size() < 12) break;
            if (s.format == BINARY)
            {
                if (chance(15)) { d += std::string("\xED\x55\xCE\xAC"); label("stack overflow marker"); }
                else if (chance(70)) d.resize(4 + below((uint32_t)d.size() - 4));
                else d[2 + below(2)] = (char)u8();
            }
            else
            {
                if (chance(15)) { d += chance(50) ? "ed55CEac" : "ED55CEAC"; label("stack overflow marker"); }
                else if (chance(50)) d.resize(8 + below((uint32_t)d.size() - 8));
                else d[4 + below((uint32_t)d.size() - 4)] = (char)u8();
            }
            label("damaged dump");
            break;
        }
        default:
        {
            Alias a{u32(), size(100), u32()};
            s.aliasOptions.push_back({anyCase("--alias"), numberText(a.base), numberText(a.size), numberText(a.redirect)});
            label("alias to anywhere");
            break;
        }
        }
    }
    std::vector<std::vector<std::string>> others;
    if (!noImage) others.push_back(s.imageOption);
    if (!noDump) others.push_back(s.dumpOption);
    for (unsigned k = 0 ; more(15, k, 2) ; k++)
    {
        /* One more option, for one of these files or a missing one. */
        const std::string& name = chance(30) ? missing : chance(50) ? s.imageFile : s.dumpFile;
        switch (below(3))
        {
        case 0:  others.push_back({anyCase("--bin"), name, numberText(below(15) << 28)}); break;
        case 1:  others.push_back({anyCase("--elf"), name}); break;
        default: others.push_back({anyCase("--dump"), name}); break;
        }
        label("one more option");
    }
    std::vector<std::string>& args = b.args;
    args = shuffled(s.aliasOptions, others);
    if (chance(30))
    {
        /* Damage the command line itself. */
        static const char* const odd[] = {"", "-", "--", "---", "-bin", "bin", "--binary", "--bi", "--elff", "--dump=", "--ALIASES", "-elf", "--help", " --elf", "--e\xffx", "--%s%n%x", "%s%s%n", "--\n", "-h", "-?", "/?", "--version", "--verbose", "--quiet", "--debug",
                                          "--image", "--log", "--force", "-d", "-v", "\xe2\x80\x93" "elf", "\xe2\x80\x94" "dump", "-\x96" "dump", "-=", "\t--elf", "+", "@args", "/bin"};
        switch (below(5))
        {
        case 0: if (!args.empty()) args.resize(below((uint32_t)args.size())); label("cut short"); break;
        case 1: args.insert(args.begin() + (long)below((uint32_t)args.size() + 1), odd[below(sizeof(odd) / sizeof(odd[0]))]); label("odd argument"); break;
        case 4:
        {
            /* Something the program knows about, in place of an option. */
            if (sourceStrings().empty()) break;
            std::string t = pick(sourceStrings());
            for (auto w : {"ERROR", "Usage", "Copyright", "error"}) if (t.find(w) != std::string::npos) t = "--x";      /* what the check looks for in the output */
            if (t.compare(0, 2, "--") != 0 && chance(60)) t = (t[0] == '-' ? "-" : "--") + t;
            size_t at = below((uint32_t)args.size() + 1);
            args.insert(args.begin() + (long)at, t);
            label("a word of the program");
            break;
        }
        case 2: { std::string t = chance(70) ? "--" : ""; t += std::string(chance(20) ? 500 + below(1000) : below(20), 'x'); args.insert(args.begin() + (long)below((uint32_t)args.size() + 1), t); label("odd argument"); break; }
        default: if (!args.empty()) args.erase(args.begin() + (long)below((uint32_t)args.size())); label("argument left out"); break;
        }
    }
    for (auto& f : files) if (f.second.exists) writeFile(f.first, f.second.data);
    b.want = problems(args, files, &b.unspecified);
    return b;
}

static void prop_C10()
{
    reset();
    Broken b = makeBroken();
    std::vector<Expected>& want = b.want;
    bool unspecified = b.unspecified;
    /* Regions which overlap each other make some of the above a matter of luck. */
    Result r = init(b.args);
    if (want.empty() || (unspecified && !r.threw))
    {
        if (!unspecified) REQUIRE(!r.threw, "a valid command line failed: %s", r.text().c_str());
        if (!r.threw) { uninit(); label("still valid"); }
        return;
    }
    if (unspecified) { REQUIRE(liveBlocks() == 0 && openFiles() == 0, "something is still held after a failed start"); return; }
    expectFailure(r, want);
    nontrivial();
}

void addCliProps(std::vector<Property>& v)
{
    v.push_back({"C08", prop_C08, 480000, 4000000,
        "Raw images of 1 byte to 150 KB at any base address up to the top of the address space, base in decimal, hex and octal, with a small crash dump next to it; all bytes, the surroundings, the memory map and write "
        "attempts are checked. Non-trivial: more than one byte.", {}});
    v.push_back({"C09", prop_C09, 120000, 2000000,
        "Files which start like a dump and aren't one, and logs which nearly do; and one crash state delivered in up to three formats with options in random order and case, with overruled --elf/--bin/--dump options and chained aliases; each start must give the same expected registers, memory and memory map. "
        "Non-trivial: RAM regions, and more than one format or an alias.", {}});
    v.push_back({"C10", prop_C10, 480000, 4000000,
        "Valid command lines with 1-4 problems (options left out or repeated, odd arguments, missing parameters and files, damaged ELF images and dumps, aliases to nowhere) in random order; exception, message, stderr layout, open files and "
        "memory are checked against a list of what is wrong. Non-trivial: something is wrong.", {}});
}
