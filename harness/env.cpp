#include "env.h"
#include <cerrno>
#include <fcntl.h>
#include <malloc.h>
#include <set>
#include <sys/mman.h>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));

namespace env {

/* ------------------------------------------------------------------ which allocations belong to the code under test */
static volatile int g_inside;       /* > 0 while the code under test runs */
Outside::Outside() : saved(g_inside) { g_inside = 0; }
Outside::~Outside() { g_inside = saved; }

static const size_t TABLE = 1u << 18, TOUCHED = 1u << 12;
struct Slot { const volatile void* p; size_t n; };
static Slot   g_table[TABLE];
static uint32_t g_touched[TOUCHED];       /* slots used since reset */
static size_t   g_touchedCount;
static size_t g_live, g_liveBytes;
static const volatile void* const TOMB = (const volatile void*)1;
static size_t g_tombs;
static std::set<const void*>* g_none;

static inline size_t hashPtr(const volatile void* p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46) & (TABLE - 1); }
static void onMalloc(const volatile void* p, size_t n)
{
    if (!g_inside || !p || g_live > TABLE / 2) return;
    size_t i = hashPtr(p);
    while (g_table[i].p && g_table[i].p != TOMB) i = (i + 1) & (TABLE - 1);
    if (g_table[i].p == TOMB) g_tombs--;
    else if (g_touchedCount < TOUCHED) g_touched[g_touchedCount++] = (uint32_t)i;
    else g_touchedCount = TOUCHED + 1;
    g_table[i].p = p;
    g_table[i].n = n;
    g_live++;
    g_liveBytes += n;
}
static void onFree(const volatile void* p)
{
    if (!p || !g_live) return;
    size_t i = hashPtr(p);
    while (g_table[i].p)
    {
        if (g_table[i].p == p)
        {
            g_table[i].p = TOMB;
            g_tombs++;
            g_live--;
            g_liveBytes -= g_table[i].n;
            return;
        }
        i = (i + 1) & (TABLE - 1);
    }
}
size_t sparseLive();
size_t liveBlocks() { return g_live + sparseLive(); }
size_t liveBytes() { return g_liveBytes; }

/* ------------------------------------------------------------------ allocation hooks */
size_t   allocCap = 8u << 20;
uint64_t allocCount, allocFailAt, allocFailed;
bool     allocFailAllAfter;

static bool refuse(size_t n)
{
    allocCount++;
    if (n > allocCap || (allocFailAt && (allocCount == allocFailAt || (allocFailAllAfter && allocCount > allocFailAt))))
    {
        allocFailed++;
        return true;
    }
    return false;
}
bool sparseBlocks;
static std::map<void*, size_t> g_sparse;
static void* sparseMalloc(size_t n)
{
    Outside o;
    static const size_t CHUNK = 2u << 20;
    static int fd = -1;
    if (fd < 0)
    {
        fd = memfd_create("sparse", MFD_CLOEXEC);
        if (fd < 0 || ftruncate(fd, (off_t)CHUNK)) return nullptr;
    }
    size_t total = (n + CHUNK - 1) / CHUNK * CHUNK;
    char* p = (char*)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == (char*)MAP_FAILED) return nullptr;
    for (size_t i = 0 ; i < total ; i += CHUNK)
        if (mmap(p + i, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(p, total); return nullptr; }
    g_sparse[p] = total;
    return p;
}
static void* envMalloc(size_t n)
{
    if (refuse(n)) return nullptr;
    return sparseBlocks && n > (1u << 20) ? sparseMalloc(n) : malloc(n);
}
/* Like any real allocator, and other than the sanitizer's, a block which already has the right size stays where it is. */
static void* envRealloc(void* p, size_t n)
{
    if (refuse(n)) return nullptr;
    if (p && n && malloc_usable_size(p) == n) return p;
    return realloc(p, n);
}
static void  envFree(void* p)
{
    if (!g_sparse.empty())
    {
        Outside o;
        auto it = g_sparse.find(p);
        if (it != g_sparse.end()) { munmap(p, it->second); g_sparse.erase(it); return; }
    }
    free(p);
}
size_t sparseLive() { return g_sparse.size(); }

/* ------------------------------------------------------------------ file hooks */
uint64_t  fileOps, fileFailAt;
FileFault fileFault;
bool      fileFaulted;
FileOp    fileFaultedOp;
size_t    fileOpens, fileCloses, fileBadCloses;
std::vector<OpRecord> opLog;
std::string fileFaultedName;
unsigned  fileFaultedOpen;
long      fileFaultedPos;
long      fileFaultedEnd;
struct OpenFile { std::string name; unsigned nth; bool exhausted = false; /* a read failed: the others will too, until it is repositioned */ };
static std::map<FILE*, OpenFile> g_open;
static std::map<std::string, unsigned> g_opened;

static bool fileFails(FileOp op, FILE* f, const char* name = "")
{
    Outside o;
    fileOps++;
    if (opLog.size() < 4096) opLog.push_back({op, name});
    if (!fileFailAt || fileOps != fileFailAt) return false;
    fileFaulted = true;
    fileFaultedOp = op;
    fileFaultedName = f ? g_open[f].name : name;
    fileFaultedOpen = f ? g_open[f].nth : 0;
    fileFaultedPos = fileFaultedEnd = f ? ftell(f) : 0;
    if (f && (op == OP_FREAD || op == OP_FGETS)) g_open[f].exhausted = true;
    if (f && (op == OP_FREAD || op == OP_FGETS)) f->_flags |= fileFault == FAULT_FAIL || fileFault == FAULT_SHORT ? 0x20 : 0x10;   /* glibc: error, end of file */
    return true;
}
static FILE* envFopen(const char* name, const char* mode)
{
    if (fileFails(OP_FOPEN, nullptr, name)) { errno = EACCES; return nullptr; }
    FILE* f = fopen(name, mode);
    if (f) { Outside o; fileOpens++; g_open[f] = {name, ++g_opened[name], false}; }
    return f;
}
static int envFclose(FILE* f)
{
    {
        Outside o;
        if (!g_open.erase(f)) { fileBadCloses++; return EOF; }
        fileCloses++;
    }
    return fclose(f);
}
static bool isOpen(FILE* f) { return g_open.count(f) != 0; }
static int envFseek(FILE* f, long off, int whence)
{
    if (!isOpen(f)) { fileBadCloses++; errno = EBADF; return -1; }
    if (fileFails(OP_FSEEK, f)) { errno = EIO; return -1; }
    g_open[f].exhausted = false;
    return fseek(f, off, whence);
}
static long envFtell(FILE* f)
{
    if (!isOpen(f)) { fileBadCloses++; errno = EBADF; return -1; }
    if (fileFails(OP_FTELL, f)) { errno = EIO; return -1; }
    return ftell(f);
}
static size_t envFread(void* p, size_t size, size_t n, FILE* f)
{
    if (!isOpen(f)) { fileBadCloses++; return 0; }
    if (fileFails(OP_FREAD, f))
    {
        size_t got = 0;
        if ((fileFault == FAULT_SHORT || fileFault == FAULT_SHORT_EOF) && size * n > 1)
            got = fread(p, 1, size * n / 2, f) / (size ? size : 1);
        fileFaultedEnd = fileFaultedPos + (long)(got * size);
        return got;
    }
    if (g_open[f].exhausted) return 0;
    return fread(p, size, n, f);
}
static char* envFgets(char* s, int n, FILE* f)
{
    if (!isOpen(f)) { fileBadCloses++; return nullptr; }
    if (fileFails(OP_FGETS, f) || g_open[f].exhausted) return nullptr;
    return fgets(s, n, f);
}
static size_t envFwrite(const void* p, size_t size, size_t n, FILE* f) { return fwrite(p, size, n, f); }
void   forgetOpens() { g_opened.clear(); }
size_t openFiles() { return g_open.size(); }
void   closeLeakedFiles() { for (auto& f : g_open) fclose(f.first); g_open.clear(); }

/* ------------------------------------------------------------------ standard streams */
std::string outText, errText;
static ssize_t captureWrite(void* cookie, const char* p, size_t n)
{
    Outside o;
    std::string* s = (std::string*)cookie;
    if (s->size() < 1000000) s->append(p, n);
    return (ssize_t)n;
}
static FILE *g_capOut, *g_capErr, *g_realOut, *g_realErr;
static void openCaptures()
{
    if (g_capOut) return;
    cookie_io_functions_t io = {nullptr, captureWrite, nullptr, nullptr};
    g_capOut = fopencookie(&outText, "w", io);
    g_capErr = fopencookie(&errText, "w", io);
    setvbuf(g_capOut, nullptr, _IONBF, 0);
    setvbuf(g_capErr, nullptr, _IONBF, 0);
    outText.reserve(8192);
    errText.reserve(8192);
}

/* ------------------------------------------------------------------ calling the code under test */
Result run(void (*fn)(void*), void* arg)
{
    static GuardResult g;
    GuardResult* pG = &g;
    g_realOut = stdout;
    g_realErr = stderr;
    stdout = g_capOut;
    stderr = g_capErr;
    g_inside = 1;
    guard_run(fn, arg, pG);
    g_inside = 0;
    stdout = g_realOut;
    stderr = g_realErr;
    Result r;
    r.threw = !pG->completed;
    r.code = pG->code;
    r.msg = pG->message;
    if (pG->unbalanced) pbt::fail("the list of active exception handlers was not restored (%s)", r.text().c_str());
    if (r.threw && r.code == noException) pbt::fail("control left a function by an exception, but no exception code is set");
    if (fileBadCloses) pbt::fail("a file was closed twice or used after it was closed");
    return r;
}

void reset()
{
    static bool hooked = false;
    if (!hooked)
    {
        hooked = true;
        __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
        openCaptures();
    }
    g_inside = 0;
    closeLeakedFiles();
    if (g_touchedCount > TOUCHED) memset(g_table, 0, sizeof(g_table));
    else for (size_t i = 0 ; i < g_touchedCount ; i++) g_table[g_touched[i]].p = nullptr;
    g_touchedCount = 0;
    g_live = g_liveBytes = g_tombs = 0;
    for (auto& b : g_sparse) munmap(b.first, b.second);
    g_sparse.clear();
    sparseBlocks = false;
    allocCap = 8u << 20;
    allocCount = allocFailAt = allocFailed = 0;
    allocFailAllAfter = false;
    fileOps = fileFailAt = 0;
    fileFault = FAULT_FAIL;
    fileFaulted = false;
    g_opened.clear();
    fileOpens = fileCloses = fileBadCloses = 0;
    opLog.clear();
    outText.clear();
    errText.clear();
    guard_reset();
}

/* ------------------------------------------------------------------ scratch files */
std::string path(const char* name) { return pbt::scratchDir() + "/" + name; }
void writeFile(const std::string& p, const std::string& content)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f || fwrite(content.data(), 1, content.size(), f) != content.size()) { perror("scratch file"); _exit(3); }
    fclose(f);
}
std::string readFile(const std::string& p)
{
    std::string s;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return s;
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) s.append(buf, n);
    fclose(f);
    return s;
}

/* ------------------------------------------------------------------ memory seen from outside */
IMemory* memInit()
{
    IMemory* volatile m = nullptr;
    IMemory* volatile* pm = &m;
    call([=] { *pm = MemorySim_Init(); });
    return m;
}
void memUninit(IMemory* mem) { call([=] { MemorySim_Uninit(mem); }); }

std::string memoryMapText(IMemory* mem)
{
    const char* volatile p = nullptr;
    const char* volatile* pp = &p;
    Result r = call([=] { *pp = MemorySim_GetMemoryMapXML(mem); });
    REQUIRE(!r.threw, "asking for the memory map raised %s", r.text().c_str());
    REQUIRE(p != nullptr, "the memory map is NULL");
    return std::string(p);      /* address sanitizer checks the terminating NUL */
}

std::vector<RegionInfo> parseMemoryMap(const std::string& xml)
{
    static const std::string head = "<?xml version=\"1.0\"?>"
        "<!DOCTYPE memory-map PUBLIC \"+//IDN gnu.org//DTD GDB Memory Map V1.0//EN\" \"http://sourceware.org/gdb/gdb-memory-map.dtd\">"
        "<memory-map>";
    static const std::string tail = "</memory-map>";
    std::vector<RegionInfo> out;
    REQUIRE(xml.compare(0, head.size(), head) == 0, "memory map has the wrong header: %s", pbt::quote(xml).c_str());
    size_t i = head.size();
    auto take = [&](const char* t) {
        size_t n = strlen(t);
        if (xml.compare(i, n, t) != 0) return false;
        i += n;
        return true;
    };
    auto hex = [&](uint32_t* p) {
        size_t n = 0;
        uint64_t v = 0;
        while (i < xml.size() && isxdigit((unsigned char)xml[i]) && n < 9)
        {
            v = v * 16 + (uint64_t)(isdigit((unsigned char)xml[i]) ? xml[i] - '0' : (xml[i] | 32) - 'a' + 10);
            i++; n++;
        }
        *p = (uint32_t)v;
        return n >= 1 && n <= 8;
    };
    while (!take(tail.c_str()))
    {
        RegionInfo r;
        bool ok = take("<memory type=\"");
        if (ok && take("flash")) r.flash = true;
        else if (ok && take("ram")) r.flash = false;
        else ok = false;
        ok = ok && take("\" start=\"0x") && hex(&r.start) && take("\" length=\"0x") && hex(&r.length) && take("\">");
        if (ok && r.flash) { take(" "); ok = take("<property name=\"blocksize\">1</property>"); }
        ok = ok && take("</memory>");
        REQUIRE(ok, "memory map is malformed at offset %zu of %zu: %s", i, xml.size(), pbt::quote(xml.substr(i > 60 ? i - 60 : 0), 160).c_str());
        out.push_back(r);
    }
    REQUIRE(i == xml.size(), "memory map has text after its end: %s", pbt::quote(xml.substr(i)).c_str());
    return out;
}
std::vector<RegionInfo> memoryMap(IMemory* mem) { return parseMemoryMap(memoryMapText(mem)); }
std::string describe(const std::vector<RegionInfo>& m)
{
    std::string s;
    for (auto& r : m) s += pbt::format("%s[%08x+%x] ", r.flash ? "flash" : "ram", r.start, r.length);
    return s.empty() ? "(none)" : s;
}
bool read8(IMemory* mem, uint32_t address, uint8_t* p)
{
    volatile uint8_t v = 0;
    volatile uint8_t* pv = &v;
    Result r = call([=] { *pv = IMemory_Read8(mem, address); });
    *p = v;
    if (r.threw) REQUIRE(r.code == busErrorException, "reading %08x raised %s instead of a bus error", address, r.text().c_str());
    return !r.threw;
}
bool readable(IMemory* mem, uint32_t address) { uint8_t b; return read8(mem, address, &b); }

void expectBytes(IMemory* mem, uint32_t address, const std::string& want, const char* what)
{
    size_t n = want.size();
    if (n > 96)
    {
        const uint8_t* volatile p = nullptr;
        const uint8_t* volatile* pp = &p;
        Result r = call([=] { *pp = (const uint8_t*)MemorySim_MapSimulatedAddressToHostAddressForRead(mem, address, (uint32_t)n); });
        REQUIRE(!r.threw, "%s: %zu bytes at %08x are not all readable: %s", what, n, address, r.text().c_str());
        const uint8_t* q = p;
        for (size_t i = 0 ; i < n ; i++)
            REQUIRE(q[i] == (uint8_t)want[i], "%s: byte at %08x (offset %zu of %zu) is %02x, expected %02x", what, (uint32_t)(address + i), i, n, q[i], (uint8_t)want[i]);
    }
    auto one = [&](size_t i) {
        uint8_t b;
        REQUIRE(read8(mem, (uint32_t)(address + i), &b), "%s: byte at %08x (offset %zu of %zu) is not readable", what, (uint32_t)(address + i), i, n);
        REQUIRE(b == (uint8_t)want[i], "%s: byte at %08x (offset %zu of %zu) is %02x, expected %02x", what, (uint32_t)(address + i), i, n, b, (uint8_t)want[i]);
    };
    if (n <= 96) for (size_t i = 0 ; i < n ; i++) one(i);
    else
    {
        for (size_t i = 0 ; i < 8 ; i++) { one(i); one(n - 1 - i); }
        for (size_t i = n / 13 ; i < n ; i += n / 13) one(i);
    }
}
void expectUnreadable(IMemory* mem, uint32_t address, const char* what)
{
    uint8_t b;
    REQUIRE(!read8(mem, address, &b), "%s: address %08x is readable (%02x)", what, address, b);
}

} /* namespace env */

/* ------------------------------------------------------------------ the hook variables of the code under test */
extern "C" {
FILE*  (*hook_fopen)(const char*, const char*) = env::envFopen;
int    (*hook_fclose)(FILE*) = env::envFclose;
size_t (*hook_fread)(void*, size_t, size_t, FILE*) = env::envFread;
size_t (*hook_fwrite)(const void*, size_t, size_t, FILE*) = env::envFwrite;
int    (*hook_fseek)(FILE*, long, int) = env::envFseek;
long   (*hook_ftell)(FILE*) = env::envFtell;
char*  (*hook_fgets)(char*, int, FILE*) = env::envFgets;
void*  (*hook_malloc)(size_t) = env::envMalloc;
void*  (*hook_realloc)(void*, size_t) = env::envRealloc;
void   (*hook_free)(void*) = env::envFree;
int    (*hook_printf)(const char*, ...) = printf;
int    (*hook_fprintf)(FILE*, const char*, ...) = fprintf;

/* What the code under test may call instead of the functions which have hooks (the driver renames the calls). */
void* env_calloc(size_t n, size_t each)
{
    size_t total;
    if (__builtin_mul_overflow(n, each, &total)) return nullptr;
    void* p = env::envMalloc(total);
    if (p) memset(p, 0, total);
    return p;
}
char* env_strdup(const char* s)
{
    char* p = (char*)env::envMalloc(strlen(s) + 1);
    return p ? strcpy(p, s) : nullptr;
}
int env_fgetc(FILE* f)
{
    unsigned char c;
    return env::envFread(&c, 1, 1, f) == 1 ? c : EOF;
}
int env_getc(FILE* f) { return env_fgetc(f); }
}
