/* C30 - C33: the test doubles and failure injectors. */
#include "props.h"
#include <algorithm>
#include <cerrno>
#include <deque>
#include <fcntl.h>
#include <set>
#include <unistd.h>
extern "C" {
#include <common.h>
#include <Console.h>
#include <IComm.h>
#include "guard.h"
#include <mockConsole.h>
#include <MallocFailureInject.h>
#include <FileFailureInject.h>
#include <printfSpy.h>
}
#undef malloc
#undef realloc
#undef free
#undef printf
#undef fprintf
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fread
#undef fwrite
#undef fgets
#undef __try
#undef __catch
#undef __throw
#define __try      try
#define __catch(X) catch(X)
#include <mockIComm.h>

using namespace pbt;

/* ------------------------------------------------------------------ allocations made by the code under test */
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
static volatile int g_inside;
static const volatile void* g_blocks[4096];
static size_t g_live;
static void onMalloc(const volatile void* p, size_t) { if (g_inside && p && g_live < 4096) g_blocks[g_live++] = p; }
static void onFree(const volatile void* p)
{
    if (!p) return;
    for (size_t i = g_live ; i-- > 0 ;) if (g_blocks[i] == p) { g_blocks[i] = g_blocks[--g_live]; return; }
}
struct Inside { Inside() { g_inside = 1; } ~Inside() { g_inside = 0; } };
static void start()
{
    static bool hooked = false;
    if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); }
    g_inside = 0;
    g_live = 0;
    guard_reset();
}

/* ------------------------------------------------------------------ C30 */
static void prop_C30()
{
    start();
    MallocFailureInject_Restore();
    struct Block { unsigned char* p; std::string data; };
    std::vector<Block> blocks;
    bool armed = false;
    unsigned left = 0, failed = 0, arms = 0, later = 0;
    auto fails = [&] { return armed && left && --left == 0; };
    auto verify = [](const Block& b, const char* what) {
        REQUIRE(memcmp(b.p, b.data.data(), b.data.size()) == 0, "the contents of a block changed %s", what);
    };
    try
    {
        for (unsigned n = 0 ; more(94, n, 80) ; n++)
        {
            switch (weighted({3, 1, 6, 6, 3}))
            {
            case 0:
                left = chance(70) ? below(6) : chance(50) ? range(6, 30) : (unsigned)draw(0xFFFFFFFFu, VALUE);
                armed = true;
                arms++;
                note("fail allocation %u", left);
                MallocFailureInject_FailAllocation(left);
                break;
            case 1:
                armed = false;
                note("restore");
                MallocFailureInject_Restore();
                break;
            case 2:
            {
                uint32_t size = chance(4) ? 0 : chance(1) ? range(3000, 200000) : 1 + pbt::size(3000);
                bool want = !fails();
                unsigned char* p = (unsigned char*)hook_malloc(size);
                note("malloc %u: %s", size, p ? "ok" : "NULL");
                REQUIRE((p != nullptr) == want, "malloc(%u) %s", size, want ? "failed, although it was not the one to fail" : "succeeded, although it was to fail");
                if (!p) { failed++; break; }
                later += failed > 0;
                Block b{p, bytes(size)};
                memcpy(p, b.data.data(), size);
                blocks.push_back(b);
                break;
            }
            case 3:
            {
                uint32_t size = 1 + pbt::size(3000);
                bool fresh = blocks.empty() || chance(15);
                if (fresh && chance(6)) size = 0;
                size_t i = fresh ? 0 : below((uint32_t)blocks.size());
                bool want = !fails();
                unsigned char* p = (unsigned char*)hook_realloc(fresh ? nullptr : blocks[i].p, size);
                note("realloc %s %u: %s", fresh ? "NULL" : "block", size, p ? "ok" : "NULL");
                REQUIRE((p != nullptr) == want, "realloc(%u) %s", size, want ? "failed, although it was not the one to fail" : "succeeded, although it was to fail");
                if (!p)
                {
                    failed++;
                    if (!fresh) verify(blocks[i], "when its realloc failed");
                    break;
                }
                later += failed > 0;
                Block b{p, bytes(size)};
                if (!fresh)
                {
                    size_t keep = std::min<size_t>(size, blocks[i].data.size());
                    REQUIRE(memcmp(p, blocks[i].data.data(), keep) == 0, "realloc from %zu to %u bytes lost contents", blocks[i].data.size(), size);
                    blocks.erase(blocks.begin() + (long)i);
                }
                memcpy(p, b.data.data(), size);
                blocks.push_back(b);
                break;
            }
            default:
                if (blocks.empty()) { hook_free(nullptr); break; }
                size_t i = below((uint32_t)blocks.size());
                verify(blocks[i], "before it was freed");
                note("free");
                hook_free(blocks[i].p);
                blocks.erase(blocks.begin() + (long)i);
                break;
            }
        }
        for (auto& b : blocks) verify(b, "by the end");
        for (auto& b : blocks) hook_free(b.p);
    }
    catch (...) { MallocFailureInject_Restore(); throw; }
    MallocFailureInject_Restore();
    if (failed > 1) label("2+ failures");
    if (arms > 1) label("armed repeatedly");
    if (failed && later) nontrivial();
}

/* ------------------------------------------------------------------ C31 */
static std::string g_capOut, g_capErr;
static ssize_t captureWrite(void* cookie, const char* p, size_t n)
{
    int inside = g_inside;
    g_inside = 0;
    ((std::string*)cookie)->append(p, n);
    g_inside = inside;
    return (ssize_t)n;
}
struct Streams
{
    FILE *out, *err;
    Streams()
    {
        static FILE *capOut, *capErr;
        if (!capOut)
        {
            cookie_io_functions_t io = {nullptr, captureWrite, nullptr, nullptr};
            capOut = fopencookie(&g_capOut, "w", io);
            capErr = fopencookie(&g_capErr, "w", io);
            setvbuf(capOut, nullptr, _IONBF, 0);
            setvbuf(capErr, nullptr, _IONBF, 0);
        }
        out = stdout;
        err = stderr;
        fflush(out);
        stdout = capOut;
        stderr = capErr;
        g_capOut.clear();
        g_capErr.clear();
        g_capOut.reserve(4096);
        g_capErr.reserve(4096);
    }
    ~Streams() { stdout = out; stderr = err; }
};

static void prop_C31()
{
    start();
    printfSpy_Unhook();
    struct Out { int stream; std::string text; };
    std::deque<Out> outs;               /* since hooking, newest first, at most 4 */
    bool hooked = false;
    size_t size = 0, calls = 0;
    bool wrote[3] = {};                 /* to stdout and stderr since hooking */
    std::string realOut, realErr;       /* what should have reached the real streams */
    unsigned prints = 0, cut = 0, hooks = 0;
    Streams streams;
    struct AtEnd { ~AtEnd() { printfSpy_Unhook(); } } atEnd;
    auto check = [&] {
        REQUIRE(g_capOut == realOut, "stdout received %s, expected %s", quote(g_capOut).c_str(), quote(realOut).c_str());
        REQUIRE(g_capErr == realErr, "stderr received %s, expected %s", quote(g_capErr).c_str(), quote(realErr).c_str());
        if (!hooked) return;
        REQUIRE(printfSpy_GetCallCount() == calls, "the call count is %zu after %zu calls", printfSpy_GetCallCount(), calls);
        for (size_t n = 1 ; n <= 4 ; n++)
        {
            const char *a = printfSpy_GetNthOutput(n), *b = printfSpy_GetNthErrorOutput(n);
            REQUIRE(wrote[1] || !a, "nothing was written to stdout since hooking but output %zu is %s", n, quote(a).c_str());
            REQUIRE(wrote[2] || !b, "nothing was written to stderr since hooking but output %zu is %s", n, quote(b).c_str());
        }
        for (size_t i = 0 ; i < outs.size() ; i++)
        {
            const char *a, *b = nullptr;
            if (outs[i].stream == 1) { a = printfSpy_GetNthOutput(i + 1); if (i == 0) b = printfSpy_GetLastOutput(); if (i == 1) b = printfSpy_GetPreviousOutput(); }
            else { a = printfSpy_GetNthErrorOutput(i + 1); if (i == 0) b = printfSpy_GetLastErrorOutput(); if (i == 1) b = printfSpy_GetPreviousErrorOutput(); }
            std::string want = outs[i].text.substr(0, size);
            REQUIRE(a != nullptr, "output %zu calls ago on stream %d is missing", i + 1, outs[i].stream);
            REQUIRE(want == a, "output %zu calls ago on stream %d is %s, expected %s", i + 1, outs[i].stream, quote(a).c_str(), quote(want).c_str());
            if (i < 2) REQUIRE(a == b, "the function for the %s output gives another text", i ? "previous" : "last");
        }
    };
    for (unsigned n = 0 ; more(94, n, 60) ; n++)
    {
        switch (weighted({20, 10, 90, 1}))
        {
        case 3:
        {
            /* Many in a row. */
            if (!hooked) break;
            unsigned times = chance(10) ? 65530 + below(20) : chance(50) ? 250 + below(12) : below(3000);
            note("%u times printf", times);
            for (unsigned i = 0 ; i < times ; i++)
            {
                Inside in;
                int r = i & 1 ? hook_printf("%u", i) : hook_fprintf(stderr, "<%u>", i);
                if (r <= 0) { g_inside = 0; fail("printing returned %d", r); }
                if (i + 4 >= times)
                {
                    g_inside = 0;
                    outs.push_front({i & 1 ? 1 : 2, i & 1 ? format("%u", i) : format("<%u>", i)});
                    if (outs.size() > 4) outs.pop_back();
                }
            }
            calls += times;
            prints += times;
            if (times) wrote[2] = true;
            if (times > 1) wrote[1] = true;
            label("many outputs");
            break;
        }
        case 0:
        {
            size = chance(70) ? below(24) : chance(90) ? range(0, 500) : chance(40) ? 1000 + below(50) : chance(20) ? 65530 + below(12) : range(500, 6000);
            hooked = true;
            hooks++;
            calls = 0;
            outs.clear();
            wrote[1] = wrote[2] = false;
            note("hook %zu", size);
            Inside in;
            printfSpy_Hook(size);
            break;
        }
        case 1:
        {
            note("unhook");
            { Inside in; printfSpy_Unhook(); }
            hooked = false;
            outs.clear();
            REQUIRE(g_live == 0, "%zu buffers were not released when unhooking", g_live);
            break;
        }
        default:
        {
            int stream = chance(50) ? 1 : 2;
            bool viaPrintf = stream == 1 && chance(60);
            std::string s(chance(60) ? below(12) : size ? (size_t)std::max<long>(0, (long)size + (long)below(7) - 4) : chance(5) ? (size_t)below(9000) : (size_t)below(600), ' ');
            char fill = (char)('!' + below(90));
            for (size_t i = 0 ; i < s.size() ; i++) s[i] = i < 600 ? (char)('!' + below(90)) : (char)(fill ^ (i & 7));
            int v = (int)u32();
            std::string want;
            int r = -1, kind = (int)below(7);
            const char* p = s.c_str();
            FILE* f = stream == 1 ? stdout : stderr;
            unsigned w = below(40);
            switch (kind)
            {
            case 0: want = s; break;
            case 1: want = s + format("|%d", v); break;
            case 2: want = format("%%%08x %c ", v, 'x') + s; break;
            case 3: want = format("%*d%s", (int)w, v, p); break;
            case 5: want = ""; break;
            case 6: want = "no conversions here\n"; break;
            default: want = format("%5.2f %s %lu", v / 8.0, p, (unsigned long)v); break;
            }
            {
                Inside in;
                switch (kind)
                {
                case 0: r = viaPrintf ? hook_printf("%s", p) : hook_fprintf(f, "%s", p); break;
                case 1: r = viaPrintf ? hook_printf("%s|%d", p, v) : hook_fprintf(f, "%s|%d", p, v); break;
                case 2: r = viaPrintf ? hook_printf("%%%08x %c %s", v, 'x', p) : hook_fprintf(f, "%%%08x %c %s", v, 'x', p); break;
                case 3: r = viaPrintf ? hook_printf("%*d%s", (int)w, v, p) : hook_fprintf(f, "%*d%s", (int)w, v, p); break;
                case 5: r = viaPrintf ? hook_printf("") : hook_fprintf(f, ""); break;
                case 6: r = viaPrintf ? hook_printf("no conversions here\n") : hook_fprintf(f, "no conversions here\n"); break;
                default: r = viaPrintf ? hook_printf("%5.2f %s %lu", v / 8.0, p, (unsigned long)v) : hook_fprintf(f, "%5.2f %s %lu", v / 8.0, p, (unsigned long)v); break;
                }
            }
            note("%s %s: %d", viaPrintf ? "printf" : stream == 1 ? "fprintf(stdout)" : "fprintf(stderr)", quote(want).c_str(), r);
            REQUIRE(r == (int)want.size(), "printing %zu characters returned %d", want.size(), r);
            if (hooked)
            {
                outs.push_front({stream, want});
                wrote[stream] = true;
                if (outs.size() > 4) outs.pop_back();
                calls++;
                prints++;
                if (want.size() > size) cut++;
            }
            else (stream == 1 ? realOut : realErr) += want;
            break;
        }
        }
        check();
    }
    { Inside in; printfSpy_Unhook(); }
    REQUIRE(g_live == 0, "%zu buffers were not released when unhooking", g_live);
    if (cut) label("output longer than the buffer");
    if (hooks > 1) label("hooked repeatedly");
    if (prints > 4) { label("5+ outputs"); nontrivial(); }
}

/* ------------------------------------------------------------------ C32 */
static void restoreAll()
{
    fopenRestore(); fcloseRestore(); fseekRestore(); ftellRestore(); fwriteRestore(); freadRestore(); fgetsRestore();
}

static int wideFlag()
{
    static const int wide[] = {0x100, 0x8000, 0x10000, 0x1000000, 0x40000000};
    return chance(70) ? (int)below(2) : chance(50) ? (int)below(200) : chance(50) ? wide[below(5)] : (int)(u32() >> 1);
}

static int bigCount()
{
    static const int n[] = {127, 128, 129, 130, 255, 256, 257, 258, 511, 512};
    return chance(3) ? 65530 + (int)below(10) : chance(80) ? n[below(10)] : 11 + (int)below(1000);
}

static void prop_C32()
{
    start();
    restoreAll();
    std::string nameA = scratchDir() + "/a", nameB = scratchDir() + "/b", nameNew = scratchDir() + "/new";
    std::string content;
    bool big = chance(3);
    if (big) label("big");
    for (unsigned i = 0 ; more(70, i, 12) ; i++) { content += std::string(big ? size(66000) : below(30), (char)('a' + below(26))); if (chance(70)) content += '\n'; }
    const size_t bufferSize = big ? 70000 : 64;
    auto put = [](const std::string& n, const std::string& c) {
        FILE* f = fopen(n.c_str(), "wb");
        if (!f || fwrite(c.data(), 1, c.size(), f) != c.size()) _exit(3);
        fclose(f);
    };
    put(nameA, content);
    put(nameB, content);
    remove(nameNew.c_str());
    /* The same is done to A through the hooks and, unless told to fail, to B directly. */
    FILE* a = fopen(nameA.c_str(), "r+b");
    FILE* b = fopen(nameB.c_str(), "r+b");
    struct AtEnd { FILE*& a; FILE*& b; ~AtEnd() { restoreAll(); if (a) fclose(a); if (b) fclose(b); } } atEnd{a, b};
    std::vector<FILE*> extra;
    struct AtEnd2 { std::vector<FILE*>& v; ~AtEnd2() { for (FILE* f : v) fclose(f); } } atEnd2{extra};
    /* What is armed. */
    bool openArmed = false, closeArmed = false, seekArmed = false, tellArmed = false, writeArmed = false, readArmed = false, getsArmed = false;
    FILE* openRet = nullptr;
    int seekRet = 0, seekPass = 0, readAt = 0;
    long tellRet = 0;
    size_t writeRet = 0, readRet = 0, getsAt = 0;
    std::vector<std::string> lines;
    std::vector<const char*> pointers;
    unsigned failures = 0, passes = 0, restores = 0;
    int last = 0;       /* reading after writing and the other way round takes a seek */
    auto sync = [&](int now) {
        if (last && last != now) { fseek(a, 0, SEEK_CUR); fseek(b, 0, SEEK_CUR); }
        last = now;
    };
    auto same = [&](const char* what) {
        long pa = ftell(a), pb = ftell(b);
        REQUIRE(pa == pb, "the file is at %ld after %s, expected %ld", pa, what, pb);
        REQUIRE(!feof(a) == !feof(b) && !ferror(a) == !ferror(b), "end of file or error state differs after %s", what);
    };
    for (unsigned n = 0 ; more(95, n, 90) ; n++)
    {
        switch (below(21))
        {
        case 0: openArmed = true; openRet = chance(50) ? nullptr : chance(50) ? a : (FILE*)(uintptr_t)(1 + below(3)); fopenSetReturn(openRet); note("fopenSetReturn %s", openRet ? "stream" : "NULL"); break;
        case 1: openArmed = false; fopenRestore(); restores++; note("fopenRestore"); break;
        case 2: closeArmed = true; fcloseIgnore(); note("fcloseIgnore"); break;
        case 3: closeArmed = false; fcloseRestore(); restores++; note("fcloseRestore"); break;
        case 4:
        {
            seekRet = chance(60) ? -1 : chance(60) ? (int)below(7) - 3 : (int)u32();
            int pass = chance(50) ? -1 : chance(4) ? bigCount() : (int)below(4);
            bool before = chance(40);
            note("fseekSetReturn %d%s", seekRet, pass < 0 ? "" : format(" passing %d calls", pass).c_str());
            if (pass >= 0 && before) fseekSetCallsBeforeFailure(pass);
            fseekSetReturn(seekRet);
            if (pass >= 0 && !before) fseekSetCallsBeforeFailure(pass);
            if (pass >= 0) seekPass = pass;
            seekArmed = true;
            break;
        }
        case 5: seekArmed = false; seekPass = 0; fseekRestore(); restores++; note("fseekRestore"); break;
        case 6: tellArmed = true; tellRet = chance(60) ? -1 : chance(70) ? (long)u32() - 5 : (long)((uint64_t)u32() << 32 | u32()); ftellFail(tellRet); note("ftellFail %ld", tellRet); break;
        case 7: tellArmed = false; ftellRestore(); restores++; note("ftellRestore"); break;
        case 8: writeArmed = true; writeRet = chance(60) ? below(5) : chance(50) ? (size_t)u32() : (size_t)-1 - below(3); fwriteFail(writeRet); note("fwriteFail %zu", writeRet); break;
        case 9: writeArmed = false; fwriteRestore(); restores++; note("fwriteRestore"); break;
        case 10: case 11:
        {
            readArmed = true;
            readRet = chance(30) ? (size_t)-1 : chance(70) ? below(5) : (size_t)u32() << below(2) * 32;
            readAt = chance(40) ? 0 : chance(4) ? bigCount() : 1 + (int)below(4);
            note("freadFail %zu%s", readRet, readAt ? format(" call %d", readAt).c_str() : "");
            freadFail(readRet);
            if (readAt) freadToFail(readAt);
            break;
        }
        case 12: readArmed = false; freadRestore(); restores++; note("freadRestore"); break;
        case 13:
        {
            lines.clear();
            bool manyLines = chance(10);
            if (manyLines) label("many lines");
            for (unsigned i = 0 ; manyLines ? more(96, i, chance(10) ? 1000 : 60) : more(70, i, 4) ; i++) lines.push_back(std::string(big && !manyLines ? size(3000) : below(20), (char)('A' + below(26))) + (chance(80) ? "\n" : ""));
            pointers.clear();
            for (auto& l : lines) pointers.push_back(l.c_str());
            getsArmed = true;
            getsAt = 0;
            fgetsSetData(pointers.data(), pointers.size());
            note("fgetsSetData %zu lines", lines.size());
            break;
        }
        case 14: getsArmed = false; fgetsRestore(); restores++; note("fgetsRestore"); break;
        case 15:        /* fopen */
        {
            bool exists = chance(60);
            const char* name = exists ? nameB.c_str() : nameNew.c_str();
            bool create = !exists && chance(50);
            FILE* f = hook_fopen(name, create ? "wb" : "rb");
            if (openArmed)
            {
                REQUIRE(f == openRet, "fopen did not return the configured stream");
                REQUIRE(exists || access(name, F_OK) != 0, "fopen made a file although it was to fail");
                failures++;
            }
            else
            {
                REQUIRE((f != nullptr) == (exists || create), "fopen of %s file %s", exists || create ? "a possible" : "a missing", f ? "succeeded" : "failed");
                if (f) fclose(f);
                passes++;
            }
            remove(nameNew.c_str());
            break;
        }
        case 16:        /* fclose */
        {
            FILE* f = fopen(nameB.c_str(), "rb");
            int fd = fileno(f);
            int r = hook_fclose(f);
            bool open = fcntl(fd, F_GETFD) != -1;
            if (open) extra.push_back(f);
            REQUIRE(r == 0, "fclose returned %d", r);
            REQUIRE(open == closeArmed, "the file is %s after fclose, which was %s", open ? "open" : "closed", closeArmed ? "to be ignored" : "not to be ignored");
            if (closeArmed) failures++; else passes++;
            break;
        }
        case 17:        /* fseek */
        {
            long off = big ? (long)size(200000) - (long)size(70000) : (long)below(80) - 20;
            int whence = (int)below(3);
            /* Up to about the one which is to fail. */
            if (seekArmed && seekPass > 10 && chance(60))
            {
                int times = std::max(1, seekPass - (int)below(3));
                for (int i = 0 ; i < times ; i++) { int r = hook_fseek(a, 0, SEEK_SET); REQUIRE(r == 0, "fseek number %d of %d which are to pass returned %d", i + 1, seekPass, r); }
                fseek(b, 0, SEEK_SET);
                seekPass -= times;
                label("many passed seeks");
            }
            bool fail_ = seekArmed && seekPass == 0;
            if (seekArmed && seekPass > 0) seekPass--;
            int r = hook_fseek(a, off, whence);
            int want = fail_ ? seekRet : fseek(b, off, whence);
            note("fseek %ld %d: %d", off, whence, r);
            REQUIRE(r == want, "fseek returned %d, expected %d", r, want);
            last = 0;
            same("fseek");
            if (fail_) failures++; else passes++;
            break;
        }
        case 18:        /* ftell */
        {
            long r = hook_ftell(a), want = tellArmed ? tellRet : ftell(b);
            REQUIRE(r == want, "ftell returned %ld, expected %ld", r, want);
            if (tellArmed) failures++; else passes++;
            break;
        }
        case 19:        /* fread, fgets */
        {
            sync(1);
            std::string bufferA(bufferSize, '#'), bufferB(bufferSize, '#');
            char *ba = &bufferA[0], *bb = &bufferB[0];
            if (chance(50))
            {
                size_t item = 1 + (big ? size(600) : below(8)), count = big ? size((uint32_t)(bufferSize / item)) : below(8);
                if (big && chance(10)) { item = 1 + size((uint32_t)bufferSize - 1); count = size((uint32_t)(bufferSize / item)); }
                if (readArmed && readAt > 10 && chance(60))
                {
                    int times = readAt - 1 - (int)below(3);
                    for (int i = 0 ; i < times ; i++)
                    {
                        char c = 0, d = 0;
                        size_t r = hook_fread(&c, 1, 1, a), w = fread(&d, 1, 1, b);
                        REQUIRE(r == w && c == d, "fread number %d of %d which are to pass returned %zu, expected %zu", i + 1, readAt - 1, r, w);
                    }
                    readAt -= times;
                    label("many passed reads");
                }
                bool fail_ = readArmed && readAt <= 1;
                if (readArmed && readAt > 0 && --readAt == 0) readArmed = false;
                size_t r = hook_fread(ba, item, count, a);
                size_t want = fail_ ? readRet : fread(bb, item, count, b);
                note("fread %zu %zu: %zu", item, count, r);
                REQUIRE(r == want, "fread returned %zu, expected %zu", r, want);
                same("fread");
                if (fail_) failures++; else passes++;
            }
            else
            {
                int size = 1 + (big ? (int)pbt::size(5000) : (int)below(40));
                if (getsArmed && lines.size() > 5 && chance(60))
                {
                    /* Through all lines and beyond. */
                    size_t times = lines.size() + below(4);
                    for (size_t i = 0 ; i < times ; i++)
                    {
                        char* line = bb;
                        const char* r = hook_fgets(line, size, a);
                        if (getsAt == lines.size()) { REQUIRE(r == nullptr, "fgets returned more lines than were given"); getsAt = 0; continue; }
                        std::string want = lines[getsAt++].substr(0, (size_t)size - 1);
                        REQUIRE(r == line && want == line, "fgets returned %s for line %zu, expected %s", r ? quote(r).c_str() : "NULL", getsAt, quote(want).c_str());
                    }
                }
                char* r = hook_fgets(ba, size, a);
                if (getsArmed)
                {
                    if (getsAt == lines.size()) { REQUIRE(r == nullptr, "fgets returned more lines than were given"); getsAt = 0; }
                    else
                    {
                        std::string want = lines[getsAt++].substr(0, (size_t)size - 1);
                        REQUIRE(r == ba, "fgets did not return the buffer");
                        REQUIRE(memchr(ba, 0, (size_t)size) != nullptr && want == ba, "fgets returned %s, expected %s", quote(std::string(ba, strnlen(ba, bufferSize))).c_str(), quote(want).c_str());
                        for (size_t i = (size_t)size ; i < bufferSize ; i++) REQUIRE(ba[i] == '#', "fgets wrote behind the buffer of %d bytes", size);
                    }
                    failures++;
                    break;
                }
                char* want = fgets(bb, size, b);
                note("fgets %d: %s", size, r ? "line" : "NULL");
                REQUIRE((r == ba && want == bb) || (!r && !want), "fgets returned %s", r ? "a line at the end of the file" : "nothing although there was a line");
                passes++;
                same("fgets");
            }
            REQUIRE(memcmp(ba, bb, bufferSize) == 0, "other data was read: %s, expected %s", hexdump(ba, 64).c_str(), hexdump(bb, 64).c_str());
            break;
        }
        default:        /* fwrite */
        {
            sync(2);
            std::string s = bytes(big ? size(3000) : below(20));
            size_t item = 1 + (big ? size(600) : below(3)), count = s.size() / item;
            size_t r = hook_fwrite(s.data(), item, count, a);
            size_t want = writeArmed ? writeRet : fwrite(s.data(), item, count, b);
            note("fwrite %zu %zu: %zu", item, count, r);
            REQUIRE(r == want, "fwrite returned %zu, expected %zu", r, want);
            same("fwrite");
            if (writeArmed) failures++; else passes++;
            break;
        }
        }
    }
    fclose(a);
    fclose(b);
    a = b = nullptr;
    auto get = [](const std::string& n) {
        std::string s;
        static char part[20000];
        FILE* f = fopen(n.c_str(), "rb");
        for (size_t k ; (k = fread(part, 1, sizeof(part), f)) != 0 ; ) s.append(part, k);
        fclose(f);
        return s;
    };
    REQUIRE(get(nameA) == get(nameB), "the file has other contents than if written directly");
    if (restores > 2) label("3+ restores");
    if (failures > 2 && passes > 2) nontrivial();
}

/* ------------------------------------------------------------------ C33 */
static std::string checksummed(const std::string& s)
{
    std::string out;
    unsigned sum = 0;
    for (char c : s)
    {
        out += c;
        if (c == '$') sum = 0;
        else if (c == '#') out += format("%02x", sum & 255);
        else sum += (unsigned char)c;
    }
    return out;
}
static std::string packetText(bool huge)
{
    std::string s;
    if (chance(2)) s = std::string(120 + below(300), '#');
    if (huge && chance(40)) s = std::string(size(70000), (char)('!' + below(90)));
    for (unsigned i = 0 ; more(70, i, 30) ; i++)
    {
        switch (below(6))
        {
        case 0: s += '$'; break;
        case 1: s += '#'; break;
        case 2: s += "$" + std::string(below(6), (char)('a' + below(26))) + "#"; break;
        case 3: s += "+-"[below(2)]; break;
        default: { char c = (char)u8(); s += c ? c : '~'; break; }
        }
    }
    return s;
}
template<class F> static int throws(F f)
{
    static GuardResult g;
    g_inside = 1;
    guard_run([](void* p) { (*(F*)p)(); }, &f, &g);
    g_inside = 0;
    return g.completed ? 0 : g.code;
}

static void prop_C33()
{
    start();
    bool huge = chance(1) && chance(8);     /* counts of more than 16 bits */
    if (huge) label("huge");
    { Inside in; ConsoleMock_Uninit(); mockIComm_Uninit(); }
    g_live = 0;
    std::deque<std::string> texts;      /* the doubles do not copy what they are given */
    IComm* comm = mockIComm_Get();
    /* console */
    std::string input;
    size_t inPos = 0, cap = 0;
    int avail = 0, exAvail = 0, exRead = 0, exWrite = 0;
    bool capturing = false;
    std::string written;
    /* channel */
    std::string rx[2];
    size_t index = 0, pos[2] = {0, 0}, txCap = 0;
    int delay = 0, stop = -1, connected = -1;
    bool txOn = false;
    std::string tx;
    unsigned activity = 0, resets = 0;
    auto keep = [&](const std::string& s) -> const char* { texts.push_back(s); return texts.back().c_str(); };
    auto hasData = [&] {
        if (delay > 0) { delay--; return false; }
        if (index >= 2) return false;
        if (pos[index] == rx[index].size()) { index++; return false; }
        return true;
    };
    for (unsigned n = 0 ; more(95, n, 90) ; n++)
    {
        switch (below(24))
        {
        case 0: avail = chance(80) ? (int)below(4) - 1 : wideFlag(); ConsoleMock_HasStdInDataToRead_SetReturn(avail); note("console availability %d", avail); break;
        case 1: exAvail = chance(50) ? 0 : 1 + (int)below(31); ConsoleMock_HasStdInDataToRead_SetException(exAvail); note("console availability exception %d", exAvail); break;
        case 2: exRead = chance(60) ? 0 : 1 + (int)below(31); ConsoleMock_ReadStdIn_SetException(exRead); note("console read exception %d", exRead); break;
        case 3: exWrite = chance(60) ? 0 : 1 + (int)below(31); ConsoleMock_WriteStdOut_SetException(exWrite); note("console write exception %d", exWrite); break;
        case 4:
        {
            input = bytes(chance(4) ? 250 + below(400) : huge && chance(30) ? 65500 + below(80) : below(20));
            texts.push_back(input);
            inPos = 0;
            char* block = (char*)malloc(input.size() ? input.size() : 1);      /* never freed before the end: see below */
            memcpy(block, input.data(), input.size());
            static std::vector<char*> old;
            if (old.size() > 64) { free(old.front()); old.erase(old.begin()); }
            old.push_back(block);
            ConsoleMock_ReadStdIn_SetBuffer(block, input.size());
            note("console input %s", quote(input).c_str());
            break;
        }
        case 5:
            if (capturing) break;       /* once per reset */
            cap = chance(5) ? 250 + below(300) : huge && chance(30) ? 65530 + below(12) : below(12);
            capturing = true;
            written.clear();
            { Inside in; ConsoleMock_WriteStdOut_SetCaptureBufferSize(cap); }
            note("console capture %zu", cap);
            break;
        case 6:
        {
            volatile int v = -77;
            volatile int* pv = &v;
            int code = throws([=] { *pv = Console_HasStdInDataToRead(); });
            REQUIRE(code == exAvail, "console availability raised %d, expected %d", code, exAvail);
            if (!code) REQUIRE(v == avail, "console availability is %d, expected %d", v, avail);
            break;
        }
        case 7: case 8:
        {
            unsigned times = input.size() > 200 && chance(50) ? (uint32_t)input.size() - 50 + below(500) : 1;
            for (unsigned i = 0 ; i < times ; i++)
            {
                volatile int v = -77;
                volatile int* pv = &v;
                int code = throws([=] { *pv = Console_ReadStdIn(); });
                REQUIRE(code == exRead, "reading the console raised %d, expected %d", code, exRead);
                if (code) break;
                uint8_t want = inPos < input.size() ? (uint8_t)input[inPos++] : 0;
                REQUIRE((uint8_t)v == want, "console byte %zu is %02x, expected %02x", inPos, (uint8_t)v, want);
                activity++;
            }
            break;
        }
        case 9: case 10: case 11:
        {
            int c = chance(80) ? u8() : (int)u32();
            unsigned times = capturing && cap > 200 && chance(50) ? (uint32_t)cap - 50 + below(400) : 1;
            for (unsigned i = 0 ; i < times ; i++, c++)
            {
                int code = throws([=] { Console_WriteStdOut(c); });
                REQUIRE(code == exWrite, "writing to the console raised %d, expected %d", code, exWrite);
                if (!code && capturing && written.size() < cap) written += (char)c;
            }
            activity++;
            break;
        }
        case 12:
        {
            note("reset console");
            { Inside in; ConsoleMock_Uninit(); }
            avail = exAvail = exRead = exWrite = 0;
            input.clear();
            inPos = 0;
            capturing = false;
            resets++;
            break;
        }
        case 13: case 14:
        {
            bool sums = chance(50), two = chance(60);
            std::string a = packetText(huge), b = packetText(huge);
            const char *pa = keep(a), *pb = two ? keep(b) : nullptr;
            note("channel input%s %s %s", sums ? " to be checksummed" : "", quote(a).c_str(), two ? quote(b).c_str() : "");
            {
                Inside in;
                if (sums) { if (two) mockIComm_InitReceiveChecksummedData(pa, pb); else mockIComm_InitReceiveChecksummedData(pa); }
                else { if (two) mockIComm_InitReceiveData(pa, pb); else mockIComm_InitReceiveData(pa); }
            }
            rx[0] = sums ? checksummed(a) : a;
            rx[1] = !two ? "$#00" : sums ? checksummed(b) : b;
            index = pos[0] = pos[1] = 0;
            delay = 0;
            if (chance(30)) { delay = chance(15) ? 250 + (int)below(300) : huge && chance(30) ? 65530 + (int)below(12) : (int)below(5); mockIComm_DelayReceiveData(delay); note("delayed %d", delay); }
            break;
        }
        case 15:
        {
            txCap = chance(5) ? 250 + below(300) : huge && chance(30) ? 65530 + below(12) : below(12);
            txOn = true;
            tx.clear();
            { Inside in; mockIComm_InitTransmitDataBuffer(txCap); }
            note("channel capture %zu", txCap);
            break;
        }
        case 16: stop = wideFlag(); mockIComm_SetShouldStopRunFlag(stop); break;
        case 17: connected = wideFlag(); mockIComm_SetIsGdbConnectedFlag(connected); break;
        case 18:
        {
            int r = IComm_HasReceiveData(comm);
            bool want = hasData();
            REQUIRE(!r == !want, "the channel reports %s, expected %s", r ? "data" : "no data", want ? "data" : "no data");
            break;
        }
        case 19: case 20:
        {
            /* Only while there is something left to receive. */
            bool left = false;
            for (size_t i = index ; i < 2 ; i++) if (pos[i] < rx[i].size()) left = true;
            if (!left) break;
            for (unsigned k = 0 ; k == 0 || more(60, k, 8) ; k++)
            {
                left = false;
                for (size_t i = index ; i < 2 ; i++) if (pos[i] < rx[i].size()) left = true;
                if (!left) break;
                while (!hasData()) {}
                uint8_t want = (uint8_t)rx[index][pos[index]++];
                int c = IComm_ReceiveChar(comm);
                REQUIRE((uint8_t)c == want, "the channel delivered %02x, expected %02x", (uint8_t)c, want);
                activity++;
            }
            break;
        }
        case 21:
        {
            unsigned times = txOn && txCap > 200 && chance(50) ? (uint32_t)txCap - 50 + below(400) : 0;
            for (unsigned k = 0 ; k <= times || more(60, k, 8) ; k++)
            {
                int c = times ? (int)(k * 7 & 255) : (int)u8();
                IComm_SendChar(comm, c);
                if (txOn && tx.size() < txCap) tx += (char)c;
            }
            activity++;
            break;
        }
        case 22:
        {
            std::string s = packetText(huge);
            const char* p = keep(s);
            const char* r;
            { Inside in; r = mockIComm_ChecksumData(p); }
            REQUIRE(checksummed(s) == r, "checksumming %s gave %s, expected %s", quote(s).c_str(), quote(r).c_str(), quote(checksummed(s)).c_str());
            break;
        }
        default:
            if (!chance(40)) break;
            note("reset channel");
            { Inside in; mockIComm_Uninit(); }
            mockIComm_DelayReceiveData(0);
            delay = 0;
            rx[0].clear();
            rx[1].clear();
            pos[0] = pos[1] = 0;
            txOn = false;
            connected = -1;
            resets++;
            break;
        }
        if (capturing)
        {
            const char* p = ConsoleMock_WriteStdOut_GetCapturedText();
            REQUIRE(memcmp(p, written.c_str(), written.size() + 1) == 0, "the console captured %s, expected %s", quote(p).c_str(), quote(written).c_str());
        }
        if (txOn)
        {
            const char* p = mockIComm_GetTransmittedData();
            REQUIRE(memcmp(p, tx.c_str(), tx.size() + 1) == 0, "the channel captured %s, expected %s", quote(p).c_str(), quote(tx).c_str());
        }
        if (stop >= 0) REQUIRE(!IComm_ShouldStopRun(comm) == !stop, "the stop flag is %d, expected %d", IComm_ShouldStopRun(comm), stop);
        if (connected >= 0) REQUIRE(!IComm_IsGdbConnected(comm) == !connected, "the connection flag is %d, expected %d", IComm_IsGdbConnected(comm), connected);
    }
    { Inside in; ConsoleMock_Uninit(); mockIComm_Uninit(); }
    mockIComm_SetShouldStopRunFlag(TRUE);
    REQUIRE(g_live == 0, "%zu allocation(s) not released by resetting both doubles", g_live);
    if (resets) label("reset in between");
    if (activity > 3) nontrivial();
}

/* Setting the capture size twice without a reset in between. */
static void probeCaptureTwice()
{
    start();
    {
        Inside in;
        ConsoleMock_Uninit();
        ConsoleMock_WriteStdOut_SetCaptureBufferSize(4);
        ConsoleMock_WriteStdOut_SetCaptureBufferSize(5);
        ConsoleMock_Uninit();
    }
    size_t live = g_live;
    REQUIRE(live == 0, "%zu capture buffer(s) were not released", live);
}

void addMocksProps(std::vector<Property>& v)
{
    v.push_back({"C30", prop_C30, 1000000, 5000000,
        "Random histories of up to 80 arm(n), restore, malloc, realloc and free calls against a countdown model, with all block contents tracked. Non-trivial: an allocation failed as told and a later one succeeded.", {}});
    v.push_back({"C31", prop_C31, 90000, 3000000,
        "Random histories of up to 60 hook(size), unhook and print calls (five formats, both streams, lengths around the buffer size), with the last four outputs, the call count, the real streams and the live "
        "buffers compared with a model after every call. Non-trivial: over four outputs while hooked.", {}});
    v.push_back({"C32", prop_C32, 600000, 2000000,
        "Random histories of up to 90 arming, restoring and calling steps on the seven file hooks; a second file with the same contents is used directly as the reference (3 %: items, lines and files up to 66000 bytes). Non-trivial: over two failed and over two passed calls.", {}});
    v.push_back({"C33", prop_C33, 1200000, 4000000,
        "Random histories of up to 90 configuration and use steps of the console and the channel double against plain models; random packet texts for checksumming. Non-trivial: over three bytes moved.",
        {{"capture-size-twice", probeCaptureTwice}}});
}
