/* C24 - C25: the program as GDB and the user see it. */
#include "props.h"
#include "client.h"
#include "broken.h"
#include <csignal>
extern "C" {
#include <mri.h>
}

using namespace pbt;
using namespace env;
using namespace client;
using namespace scenario;

static CrashDebugCommandLine g_cl;

namespace {

struct Session
{
    Scenario s;
    Client   cl;
    Device   d;
    struct Expect { bool doc = false; std::string payload, console; };
    std::vector<Expect> expect;
    struct Piece { size_t reply; bool map; uint32_t off, len; };
    std::vector<Piece> pieces;
    unsigned writes = 0, readsAfterWrite = 0, faults = 0, resumes = 0;

    Session() { d.ctx = &s.context; d.mem = &s.memory; }
    void ask(const std::string& request, const std::string& payload, const std::string& console = "")
    {
        cl.steps.push_back(client::ask(request));
        expect.push_back({false, payload, console});
    }
    void piece(bool map, uint32_t off, uint32_t len)
    {
        pieces.push_back({expect.size(), map, off, len});
        cl.steps.push_back(client::ask(format(map ? "qXfer:memory-map:read::%x,%x" : "qXfer:features:read:target.xml:%x,%x", off, len)));
        expect.push_back({true, "", ""});
    }
    uint32_t address(uint32_t n)
    {
        if (chance(8)) return u32();
        const model::Region& r = s.memory.regs[below((uint32_t)s.memory.regs.size())];
        if (chance(3)) return chance(80) ? gen::lookalike(r.base + below(r.size ? r.size : 1)) : gen::special();
        switch (below(4))
        {
        case 0: return r.base - 4 + below(8);
        case 1: return r.base + r.size - n - 2 + below(6);
        default: return r.base + below(r.size ? r.size : 1);
        }
    }
    std::string number(uint32_t v) { return format(chance(15) ? "%08x" : chance(15) ? "%X" : "%x", v); }
    void step(const std::vector<unsigned>& w);
    void check();
};

void Session::step(const std::vector<unsigned>& w)
{
    switch (weighted(w))
    {
    case 0: ask("g", d.registers()); break;
    case 1:
    {
        RegisterContext v = s.context;
        for (unsigned k = 0 ; k == 0 || more(70, k, 20) ; k++)
        {
            if ((v.flags & 1) && chance(50)) v.FPR[below(TOTAL_FPREG_COUNT)] = u32();
            else v.R[below(TOTAL_REG_COUNT)] = u32();
        }
        std::string hex = Device{&v, &s.memory, "", ""}.registers();
        ask("G" + (chance(30) ? anyCase(hex) : hex), "OK");
        s.context = v;
        writes++;
        break;
    }
    case 2:
    {
        uint32_t n = chance(60) ? 1u << below(3) : 1 + size(chance(10) ? 2000 : 60), a = address(n);
        std::string r = d.readMemory(a, n);
        if (r[0] == 'E') faults++;
        else if (writes) readsAfterWrite++;
        ask("m" + number(a) + "," + number(n), r);
        break;
    }
    case 3: case 4:
    {
        bool        binary = chance(50);
        uint32_t    n = chance(60) ? 1u << below(3) : chance(10) ? 0 : 1 + size(60), a = address(n ? n : 1);
        std::string data = bytes(n);
        std::string head = (binary ? "X" : "M") + number(a) + "," + number(n) + ":";
        std::string r = d.writeMemory(a, data);
        if (r[0] == 'E') faults++;
        ask(head + (binary ? escape(data) : hexBytes(data, chance(30))), r);
        writes++;
        break;
    }
    case 5: ask("?", d.stop()); break;
    case 6:
    {
        static const char* const how[] = {"c", "s", "C05", "S0b", "c8000000", "s20000001", "C11;8000100"};
        ask(how[below(7)], d.stop(), d.faultText());
        resumes++;
        break;
    }
    case 7: piece(chance(50), chance(80) ? below(3000) : u32(), chance(80) ? 1 + below(3000) : u32()); break;
    case 8:
        ask(format("%c%u,", chance(50) ? 'Z' : 'z', range(1, 4)) + number(address(4)) + "," + number(chance(80) ? 1 + below(8) : u32()), "OK");
        break;
    case 9:
    {
        static const char* const unknown[] = {"vMustReplyEmpty", "qTStatus", "H g0", "Hc-1", "qC", "!", "v", "Z0,100,2", "z0,100,2", "qfThreadInfo", "p0f", "k2"};
        ask(unknown[below(12)], "");
        break;
    }
    case 10: ask("qSupported:multiprocess+;swbreak+", format("qXfer:memory-map:read+;qXfer:features:read+;PacketSize=%x", 16 * 1024)); break;
    default:
    {
        std::string t = chance(50) ? "g" : "m0,4";
        cl.steps.push_back({Step::NAK, frame(t, 1 + (int)below(255)), t + " (damaged)"});
        break;
    }
    }
    note("%s", cl.steps.back().text.c_str());
}

void Session::check()
{
    REQUIRE(cl.error.empty(), "%s", cl.error.c_str());
    size_t nth = 0;
    std::string map, features;
    for (size_t i = 0 ; i < cl.replies.size() ; i++, nth++)
    {
        const Reply& r = cl.replies[i];
        const char* what = cl.steps[(size_t)r.step].text.c_str();
        const Expect& e = expect[i];
        REQUIRE(r.complete, "%s was not answered", what);
        REQUIRE(r.acked, "%s was answered, but not acknowledged", what);
        REQUIRE(r.console == e.console, "%s: console text is %s, expected %s", what, quote(r.console, 600).c_str(), quote(e.console, 600).c_str());
        if (e.doc) continue;
        REQUIRE(r.payload == e.payload, "%s was answered by %s, expected %s", what, quote(r.payload, 600).c_str(), quote(e.payload, 600).c_str());
    }
    REQUIRE(cl.replies.size() == expect.size(), "%zu packets were answered, expected %zu", cl.replies.size(), expect.size());
    REQUIRE(!cl.stalled, "the program waits for more input in the middle of the session");
    for (int k = 0 ; k < 2 ; k++)
    {
        std::string doc;
        bool have = false;
        for (auto& p : pieces)
        {
            if (p.map != (k == 0)) continue;
            const std::string& got = cl.replies[p.reply].payload;
            const char* what = k == 0 ? "memory map" : "target description";
            REQUIRE(!got.empty() && (got[0] == 'm' || got[0] == 'l'), "a request for the %s was answered by %s", what, quote(got).c_str());
            if (!have)
            {
                /* The first one asks for all of it. */
                have = true;
                REQUIRE(got[0] == 'l', "the %s does not fit in a packet", what);
                doc = got.substr(1);
                if (k == 0)
                {
                    std::vector<RegionInfo> regions = parseMemoryMap(doc), want = s.memory.map();
                    REQUIRE(regions == want, "the memory map lists %s but the regions are %s", env::describe(regions).c_str(), env::describe(want).c_str());
                }
                else
                {
                    bool fp = doc.find("\"fpscr\"") != std::string::npos;
                    REQUIRE(fp == ((s.context.flags & 1) != 0), "the target description has%s floating point registers", fp ? "" : " no");
                }
                continue;
            }
            uint32_t off = std::min<uint32_t>(p.off, (uint32_t)doc.size()), len = std::min<uint32_t>(p.len, (uint32_t)doc.size() - off);
            std::string want = (off + len < doc.size() ? "m" : "l") + doc.substr(off, len);
            REQUIRE(got == want, "%u bytes of the %s at %u: %s, expected %s", p.len, what, p.off, quote(got).c_str(), quote(want).c_str());
        }
    }
}

void prop_C24()
{
    reset();
    Session x;
    Options o;
    o.maxRegions = 3;
    o.maxSize = chance(3) ? 30000 : 100;
    o.faultRegisters = chance(70);
    o.manyAliases = true;
    x.s = make(o);
    x.d.ctx = &x.s.context;
    x.d.mem = &x.s.memory;
    std::vector<std::string> args = x.s.commandLine();
    note("%s", x.s.describe().c_str());
    bool program = chance(50);
    bool nothing = program && chance(4);
    if (!nothing)
    {
        x.cl.steps.push_back({Step::CONNECT, "+", "connect"});
        if (chance(50)) x.ask("g", x.d.registers());
        bool docs = chance(50) && x.s.aliases.size() < 60;      /* the first piece is to be all of it */
        if (docs) { x.piece(true, 0, 0x3000); x.piece(false, 0, 0x3000); }
        std::vector<unsigned> w = swarm({4, 3, 10, 5, 5, 3, 4, docs ? 4u : 0u, 3, 1, 1, 1});
        for (unsigned i = 0 ; i < 1 || more(92, i, 40) ; i++) x.step(w);
        if (chance(1))
        {
            /* GDB stepping through a function, or a script. */
            static const unsigned kinds[] = {0, 1, 2, 3, 4, 6, 6, 6, 7, 8};
            unsigned kind = kinds[below(10)], n = 1 + size(700);
            std::vector<unsigned> one(w.size(), 0u);
            one[kind == 7 && !docs ? 6 : kind] = 1;
            for (unsigned i = 0 ; i < n ; i++) x.step(one);
            if (n > 256) label("more than 256 of one request");
        }
        if (chance(50)) x.ask("g", x.d.registers());
    }
    std::string tail;
    if (chance(25))
    {
        static const char* const cut[] = {"$", "$g", "$g#", "$g#6", "$m20000000,4", "\x03", "$M20000000,4:0011"};
        tail = cut[below(7)];
        note("closed after %s", tail.c_str());
    }
    if (program)
    {
        note("as a process");
        ExeOptions eo;
        eo.tail = tail;
        if (!nothing && chance(4))
        {
            eo.hangUp = true;
            eo.tail = frame("g");
            note("output is not taken any more");
            label("process, hung up");
        }
        ExeResult r = runProgram(args, nothing ? nullptr : &x.cl, eo);
        REQUIRE(!r.timedOut, "the program did not end within %.0f s after %s", eo.seconds, x.cl.finished() ? "GDB closed the connection" : x.cl.next ? x.cl.steps[x.cl.next - 1].text.c_str() : "it was started");
        REQUIRE(r.signal != SIGXCPU && r.signal != SIGKILL, "the program used up its processor time %s", x.cl.finished() ? "after GDB closed the connection" : "during the session");
        REQUIRE(!r.signalled, "the program was killed by signal %d (%s); stderr: %s", r.signal, strsignal(r.signal), quote(r.err).c_str());
        REQUIRE(r.err.find("ERROR:") == std::string::npos, "the program reports an error: %s", quote(r.err, 400).c_str());
        if (nothing) REQUIRE(r.out.empty(), "the program wrote to stdout without being asked: %s", quote(r.out).c_str());
        if (x.cl.finished() == false && x.cl.error.empty() && x.cl.next < x.cl.steps.size() + 1)
            REQUIRE(x.cl.finished(), "the program ended with status %d before %s was answered; stderr: %s", r.status, x.cl.next ? x.cl.steps[x.cl.next - 1].text.c_str() : "anything", quote(r.err).c_str());
        x.check();
        label(nothing ? "process, closed at once" : "process");
    }
    else
    {
        {
            Argv a(args);
            memset(&g_cl, 0xA5, sizeof(g_cl));
            int argc = a.argc();
            const char** argv = a.argv();
            Result r = call([=] { CrashDebugCommandLine_Init(&g_cl, argc, argv); });
            REQUIRE(!r.threw, "a valid command line failed: %s", r.text().c_str());
        }
        runInProcess(x.cl, &g_cl.context, g_cl.pMemory, true, tail);
        x.check();
        expectContext(g_cl.context, x.s.context, "after the session");
        x.s.memory.expect(g_cl.pMemory, x.s.layout, "after the session");
        call([] { CrashDebugCommandLine_Uninit(&g_cl); });
        REQUIRE(liveBlocks() == 0, "%zu block(s) still held after the session", liveBlocks());
        REQUIRE(openFiles() == 0, "%zu file(s) still open after the session", openFiles());
        label("in process");
    }
    label(x.s.format == BINARY ? "binary dump" : x.s.format == HEX ? "hex dump" : "GDB log");
    if (x.resumes && !x.d.faultText().empty()) label("fault report");
    if (x.faults) label("memory error replies");
    if (!x.s.aliases.empty()) label("aliases");
    if (x.readsAfterWrite) label("reads after writes");
    if (x.cl.steps.size() > 5) nontrivial();
}

void prop_C25()
{
    reset();
    Broken b = makeBroken();
    std::string text;
    for (auto& a : b.args) text += " " + quote(a.compare(0, scratchDir().size(), scratchDir()) == 0 ? a.substr(scratchDir().size() + 1) : a);
    note("%s", text.c_str());
    ExeOptions o;
    bool valid = b.want.empty() || b.unspecified;
    o.holdInput = !valid;
    ExeResult r = runProgram(b.args, nullptr, o);
    std::string all;
    for (auto& w : b.want) all += format("[%d: %s] ", w.code, w.parts[0].c_str());
    REQUIRE(!r.timedOut, "the program does not end by itself; wrong with the command line: %s", all.c_str());
    REQUIRE(!r.signalled, "the program was killed by signal %d (%s)", r.signal, strsignal(r.signal));
    REQUIRE(r.out.empty(), "the program wrote to stdout: %s", quote(r.out).c_str());
    if (b.unspecified) return;
    if (valid)
    {
        REQUIRE(r.err.find("ERROR:") == std::string::npos && r.err.find("Usage:") == std::string::npos, "a valid command line is reported as an error: %s", quote(r.err, 400).c_str());
        label("still valid");
        return;
    }
    REQUIRE(r.status != 0, "the program exits with status 0; wrong with the command line: %s", all.c_str());
    REQUIRE(r.err.compare(0, 7, "ERROR: ") == 0, "stderr does not start with the error message: %s", quote(r.err, 400).c_str());
    size_t eol = r.err.find("\n\nCrashDebug - ");
    REQUIRE(eol != std::string::npos && eol > 7, "there is no error message: %s", quote(r.err, 400).c_str());
    REQUIRE(r.err.find("Usage: CrashDebug", eol) != std::string::npos, "the usage text is not shown: %s", quote(r.err, 400).c_str());
    std::string msg = r.err.substr(7, eol - 7);
    static const char more_[] = "Encountered unexpected error: ";
    size_t at = r.err.find(more_);
    int    number = at == std::string::npos ? -1 : atoi(r.err.c_str() + at + sizeof(more_) - 1);
    bool ok = false;
    for (auto& w : b.want)
    {
        bool fits = true;
        for (auto& p : w.parts) fits = fits && msg.find(p) != std::string::npos;
        bool silent = w.code == fileException || w.code == elfFormatException || w.code == invalidArgumentException;
        if (w.code == 0) fits = fits && number != 0;
        /* The real allocator gives more memory than the harness: then the data is found missing instead. */
        else fits = fits && (silent ? number == -1 : number == w.code || (w.code == outOfMemoryException && number == fileFormatException));
        ok |= fits;
    }
    REQUIRE(ok, "the message %s with error number %d does not fit what is wrong: %s", quote(msg).c_str(), number, all.c_str());
    if (number >= 0) label("reported with a number");
    nontrivial();
}

} /* namespace */

void addSessionProps(std::vector<Property>& v)
{
    v.push_back({"C24", prop_C24, 80000, 3000000,
        "Random image (ELF or raw), dump (three formats), aliases and fault registers, then a lock-step session of up to 40 packets (1 %: one kind of request up to 700 times more) predicted by a model of the device, half of them with the program as a process over pipes (optimised build), half "
        "in process with sanitizers; closed at a packet boundary or within a packet, or (some processes) hung up with a request outstanding. Non-trivial: more than five packets.", {}});
    v.push_back({"C25", prop_C25, 90000, 4000000,
        "The program run on command lines with 1-4 problems (arguments, files, damaged images and dumps, aliases) with its stdin open and silent; exit status, stdout, stderr and error number are compared with the list of what is wrong. Non-trivial: something is wrong.", {}});
}
