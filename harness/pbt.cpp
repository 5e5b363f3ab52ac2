#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

/* ------------------------------------------------------------------ random numbers */
static uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
struct Rng
{
    uint64_t s;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

/* ------------------------------------------------------------------ shared memory of one executor */
static const size_t MAX_CHOICES = 1u << 18;
enum Status { ST_RUNNING = 0, ST_DONE = 1, ST_FAILED = 2, ST_HANG = 3 };
struct Shared
{
    volatile uint32_t status;
    volatile uint32_t stop;
    volatile uint64_t caseIndex;
    volatile uint64_t discarded;
    volatile uint32_t overrun;
    volatile uint32_t count;
    char              message[4096];
    char              notes[65536];
    uint64_t          choices[MAX_CHOICES];
};
static Shared* newShared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}

/* ------------------------------------------------------------------ dictionary */
static std::vector<uint32_t> g_dict;
static size_t                g_staticDict;
static std::vector<std::string> g_strings;
static uint32_t              g_pending[256];
static unsigned              g_pendingCount;

static void loadDict(const char* path)
{
    std::ifstream f(path ? path : "");
    std::string   line;
    std::set<uint32_t> s;
    while (std::getline(f, line))
    {
        if (line[0] == '"') { g_strings.push_back(line.substr(1)); continue; }
        uint32_t v = (uint32_t)strtoull(line.c_str(), nullptr, 0);
        for (int d = -1 ; d <= 1 ; d++) s.insert(v + (uint32_t)d);
    }
    g_dict.assign(s.begin(), s.end());
    g_staticDict = g_dict.size();
}

const std::vector<std::string>& sourceStrings() { return g_strings; }

/* ------------------------------------------------------------------ current case */
static Shared*                       g_sh;
static Rng                           g_rng;
static const std::vector<uint64_t>*  g_prefix;      /* replayed choices, then random (or zero) ones */
static bool                          g_zeroAfterPrefix;
static bool                          g_nontrivial;
static bool                          g_wantNote;
static std::string                   g_notes;
static std::vector<const char*>      g_caseLabels;
static std::string                   g_scratch;
static unsigned                      g_edgePct;     /* per case bias */

static uint64_t randomValue(uint64_t max, Kind kind)
{
    Rng& r = g_rng;
    if (kind == STRUCT || max == 0)
        return r.below(max == UINT64_MAX ? UINT64_MAX : max + 1);
    uint64_t roll = r.below(100);
    if (kind == BYTE)
    {
        if (roll < g_edgePct / 2)
        {
            static const uint8_t edges[] = {0, 1, 0x7f, 0x80, 0xff, '\n', '\r', '#', '$', '+', '-', 0x03, '}', '0', ':', '<', '>', ' ', 0xcc, 0x1a};
            uint8_t v = edges[r.below(sizeof(edges))];
            return v <= max ? v : max;
        }
        return r.below(max + 1);
    }
    if (roll < g_edgePct)
    {
        switch (r.below(7))
        {
        case 0: return 0;
        case 1: return max;
        case 2: return std::min<uint64_t>(max, r.below(9));
        case 3: return max - std::min<uint64_t>(max, r.below(9));
        case 4: { uint64_t v = 1ull << r.below(33); v += r.below(3); v -= 1; return v <= max ? v : r.below(max + 1); }
        default:
            if (!g_dict.empty())
            {
                uint64_t v = g_dict[r.below(g_dict.size())];
                if (v <= max) return v;
                v &= 0xff; if (v <= max) return v;
            }
            return r.below(max + 1);
        }
    }
    if (roll < g_edgePct + 15)
    {
        unsigned bits = (unsigned)r.below(33);
        uint64_t v = r.next() & ((1ull << bits) - 1);
        return v <= max ? v : v % (max + 1);
    }
    return r.below(max + 1);
}

uint64_t draw(uint64_t max, Kind kind)
{
    uint64_t v;
    uint32_t i = g_sh->count;
    if (i >= MAX_CHOICES) { g_sh->overrun = 1; throw Discard(); }
    if (g_prefix && i < g_prefix->size())
    {
        v = (*g_prefix)[i];
        if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
    }
    else if (g_zeroAfterPrefix)
        v = 0;
    else
        v = randomValue(max, kind);
    g_sh->choices[i] = v;
    g_sh->count = i + 1;
    return v;
}

uint32_t size(uint32_t max)
{
    if (max == 0) return 0;
    uint32_t mode = below(16);
    if (mode < 9)  return (uint32_t)draw(std::min<uint32_t>(max, 8));
    if (mode < 13) return (uint32_t)draw(std::min<uint32_t>(max, 64));
    if (mode < 15) return (uint32_t)draw(std::min<uint32_t>(max, 1024), VALUE);
    return (uint32_t)draw(max, VALUE);
}

static std::string rawBytes(size_t n);
std::string bytes(size_t n)
{
    std::string s = rawBytes(n);
    if (n >= 2 && chance(12))
    {
        /* A run of one value, as in erased flash. */
        static const unsigned char fill[] = {0xff, 0, 0xcc, 0xa5};
        unsigned k = below(6);
        char c = (char)(k < 2 ? 0xff : k < 5 ? fill[k - 1] : u8());
        size_t at = (size_t)draw(n - 1), len = chance(40) ? n - at : 1 + (size_t)draw(n - at - 1);
        memset(&s[at], c, len);
    }
    return s;
}

static std::string rawBytes(size_t n)
{
    std::string s(n, '\0');
    if (n <= 24 && !chance(10))
    {
        for (size_t i = 0 ; i < n ; i++) s[i] = (char)u8();
        return s;
    }
    uint64_t seed = draw(0xFFFFFFFFu);
    if (seed)
    {
        Rng r{seed};
        for (size_t i = 0 ; i < n ; i += 8)
        {
            uint64_t v = r.next();
            memcpy(&s[i], &v, std::min<size_t>(8, n - i));
        }
    }
    for (size_t k = 0 ; n && more(40, k, 8) ; k++)
        s[(size_t)draw(n - 1)] = (char)u8();
    return s;
}

size_t weighted(const std::vector<unsigned>& w)
{
    unsigned total = 0;
    for (unsigned x : w) total += x;
    unsigned v = below(total);
    for (size_t i = 0 ; i < w.size() ; i++)
    {
        if (v < w[i]) return i;
        v -= w[i];
    }
    return 0;
}

std::vector<unsigned> swarm(const std::vector<unsigned>& base)
{
    std::vector<unsigned> w = base;
    if (!chance(60)) return w;
    unsigned total = 0;
    for (auto& x : w)
    {
        switch (below(4)) { case 1: x = 0; break; case 2: x *= 4; break; default: break; }
        total += x;
    }
    return total ? w : base;
}

void label(const char* text) { g_caseLabels.push_back(text); }
void nontrivial() { g_nontrivial = true; }
bool wantNote() { return g_wantNote; }
void note(const char* fmt, ...)
{
    if (!g_wantNote || g_notes.size() > 20000) return;
    char buf[2048];
    va_list a; va_start(a, fmt); vsnprintf(buf, sizeof(buf), fmt, a); va_end(a);
    g_notes += buf; g_notes += '\n';
    if (g_sh) snprintf(g_sh->notes, sizeof(g_sh->notes), "%s", g_notes.c_str());
}
void fail(const char* fmt, ...)
{
    char buf[3000];
    va_list a; va_start(a, fmt); vsnprintf(buf, sizeof(buf), fmt, a); va_end(a);
    throw Failure{buf};
}
void discard() { throw Discard(); }
std::string format(const char* fmt, ...)
{
    char buf[4096];
    va_list a; va_start(a, fmt); int n = vsnprintf(buf, sizeof(buf), fmt, a); va_end(a);
    if (n < (int)sizeof(buf)) return buf;
    std::string s((size_t)n + 1, '\0');
    va_start(a, fmt); vsnprintf(&s[0], s.size(), fmt, a); va_end(a);
    s.pop_back();
    return s;
}
std::string hexdump(const void* p, size_t n, size_t maxBytes)
{
    std::string s;
    for (size_t i = 0 ; i < n && i < maxBytes ; i++) { char b[4]; snprintf(b, 4, "%02x", ((const uint8_t*)p)[i]); s += b; }
    if (n > maxBytes) s += "...";
    return s;
}
std::string quote(const std::string& t, size_t max)
{
    std::string s = "\"";
    for (size_t i = 0 ; i < t.size() && i < max ; i++)
    {
        unsigned char c = (unsigned char)t[i];
        if (c == '\n') s += "\\n"; else if (c == '\r') s += "\\r"; else if (c == '\t') s += "\\t";
        else if (c == '"' || c == '\\') { s += '\\'; s += (char)c; }
        else if (c < 32 || c > 126) { char b[6]; snprintf(b, 6, "\\x%02x", c); s += b; }
        else s += (char)c;
    }
    s += "\"";
    if (t.size() > max) s += format("...(%zu)", t.size());
    return s;
}
const std::string& scratchDir() { return g_scratch; }

} /* namespace pbt */

/* ------------------------------------------------------------------ coverage of the code under test */
static uint8_t* g_cov[64][2];
static unsigned g_covCount;
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_8bit_counters_init(uint8_t* start, uint8_t* stop)
{
    if (start == stop) return;
    for (unsigned i = 0 ; i < g_covCount ; i++) if (g_cov[i][0] == start) return;
    if (g_covCount < 64) { g_cov[g_covCount][0] = start; g_cov[g_covCount][1] = stop; g_covCount++; }
}
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

static uint8_t g_cmpSeen[1 << 16];
static inline __attribute__((no_sanitize("all"), always_inline)) void constCmp(uint64_t c, void* pc)
{
    uint32_t h = (uint32_t)((((uintptr_t)pc) * 0x9E3779B1u) ^ (uint32_t)c) & 0xFFFF;
    if (g_cmpSeen[h]) return;
    g_cmpSeen[h] = 1;
    if (pbt::g_pendingCount < 256) pbt::g_pending[pbt::g_pendingCount++] = (uint32_t)c;
}
extern "C" {
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t)   { constCmp(a, __builtin_return_address(0)); }
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { constCmp(a, __builtin_return_address(0)); }
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { constCmp(a, __builtin_return_address(0)); }
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { constCmp(a, __builtin_return_address(0)); }
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_switch(uint64_t, uint64_t*) {}
const char* __asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:max_malloc_fill_size=1048576:"
           "malloc_fill_byte=165:detect_stack_use_after_return=0:symbolize=0:handle_abort=1:handle_sigtrap=1:"
           "quarantine_size_mb=16:max_allocation_size_mb=256:print_summary=1:allow_user_segv_handler=1";
}
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=0"; }
}

namespace pbt {

static std::vector<uint8_t> g_virgin;
static size_t covSize()
{
    size_t n = 0;
    for (unsigned i = 0 ; i < g_covCount ; i++) n += (size_t)(g_cov[i][1] - g_cov[i][0]);
    return n;
}
static void covClear()
{
    for (unsigned i = 0 ; i < g_covCount ; i++) memset(g_cov[i][0], 0, (size_t)(g_cov[i][1] - g_cov[i][0]));
}
static bool covNew()
{
    bool   isNew = false;
    size_t k = 0;
    if (g_virgin.empty()) g_virgin.assign(covSize(), 0);
    for (unsigned i = 0 ; i < g_covCount ; i++)
        for (uint8_t* p = g_cov[i][0] ; p < g_cov[i][1] ; p++, k++)
            if (*p)
            {
                unsigned c = *p;
                uint8_t  b = c >= 128 ? 128 : c >= 32 ? 64 : c >= 16 ? 32 : c >= 8 ? 16 : c >= 4 ? 8 : c == 3 ? 4 : c == 2 ? 2 : 1;
                if (!(g_virgin[k] & b)) { g_virgin[k] |= b; isNew = true; }
            }
    return isNew;
}

/* ------------------------------------------------------------------ running one case */
static void onProf(int)
{
    if (g_sh) { g_sh->status = ST_HANG; snprintf(g_sh->message, sizeof(g_sh->message), "the case used up its processor time limit (hang)"); }
    _exit(77);
}
static void armTimer(int seconds)
{
    struct itimerval t;
    memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

/* 0 = held, 1 = failed, 2 = discarded */
static int runCase(const Property& prop, std::string* pMsg)
{
    g_sh->count = 0;
    g_sh->overrun = 0;
    g_sh->message[0] = 0;
    g_nontrivial = false;
    g_notes.clear();
    g_caseLabels.clear();
    try
    {
        prop.body();
    }
    catch (const Failure& f)
    {
        *pMsg = f.msg;
        return 1;
    }
    catch (const Discard&)
    {
        return 2;
    }
    return 0;
}

static uint64_t hashChoices(const uint64_t* p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0 ; i < n ; i++) h = mix(h ^ p[i]);
    return h;
}

struct Options
{
    std::string prop, tier = "quick", evidence, replayDir = "replays", replay, dict, knownFile, scratchRoot;
    uint64_t    seed = 1;
    uint64_t    cases = 0;
    unsigned    workers = 8;
    double      wall = 0;
    bool        verbose = false;
};
static Options g_opt;

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}

static void rmTree(const std::string& dir)
{
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (struct dirent* e = readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p);
        else unlink(p.c_str());
    }
    closedir(d);
    rmdir(dir.c_str());
}

struct Mutator
{
    std::vector<std::vector<uint64_t>> corpus;
    std::vector<uint64_t> current;

    void generate(uint64_t caseIndex)
    {
        Rng& r = g_rng;
        g_edgePct = 10 + (unsigned)r.below(50);
        g_zeroAfterPrefix = false;
        if (corpus.empty() || r.below(100) < 45)
        {
            g_prefix = nullptr;
            return;
        }
        /* Favour recent additions. */
        size_t idx = r.below(3) ? (size_t)r.below(corpus.size()) : corpus.size() - 1 - (size_t)r.below(std::min<size_t>(corpus.size(), 8));
        if (r.below(4))
        {
            /* Long ones are slow to run and there is less to learn from changing them. */
            size_t other = (size_t)r.below(corpus.size());
            if (corpus[other].size() < corpus[idx].size()) idx = other;
        }
        current = corpus[idx];
        unsigned edits = 1 + (unsigned)r.below(r.below(3) ? 3 : 10);
        for (unsigned e = 0 ; e < edits && !current.empty() ; e++)
        {
            size_t i = (size_t)r.below(current.size());
            switch (r.below(9))
            {
            case 0: current[i] = r.next() & 0xFFFFFFFF; break;
            case 1: current[i] = r.below(100); break;
            case 2: if (!g_dict.empty()) current[i] = g_dict[r.below(g_dict.size())]; break;
            case 3: current[i] += 1 + r.below(4); break;
            case 4: if (current[i]) current[i] -= 1; break;
            case 5: { size_t n = std::min<size_t>(current.size() - i, 1 + r.below(12)); current.erase(current.begin() + (long)i, current.begin() + (long)(i + n)); break; }
            case 6: { size_t n = std::min<size_t>(current.size() - i, 1 + r.below(24));
                      std::vector<uint64_t> block(current.begin() + (long)i, current.begin() + (long)(i + n));
                      size_t at = (size_t)r.below(current.size() + 1);
                      current.insert(current.begin() + (long)at, block.begin(), block.end()); break; }
            case 7: { const auto& o = corpus[r.below(corpus.size())]; if (o.empty()) break;
                      size_t j = (size_t)r.below(o.size()); current.resize(i); current.insert(current.end(), o.begin() + (long)j, o.end()); break; }
            case 8: current.resize(i); break;
            }
            if (current.size() > 60000) current.resize(60000);
        }
        g_prefix = &current;
    }
};

struct WorkerResult
{
    uint64_t evaluations = 0, nontrivial = 0, discarded = 0;
    std::vector<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t corpus = 0, edges = 0, edgesTotal = 0;
    bool     capped = false;
    std::vector<uint8_t> covered;
};

static void seedCase(const Property& prop, unsigned worker, uint64_t index)
{
    uint64_t h = mix(g_opt.seed * 1000003ull + worker * 7919ull);
    for (const char* p = prop.id ; *p ; p++) h = mix(h ^ (uint64_t)*p);
    g_rng.s = mix(h ^ (index * 0x9E3779B97F4A7C15ull));
}

static void writeResult(const std::string& path, const WorkerResult& r)
{
    std::ofstream f(path, std::ios::binary);
    f << r.evaluations << ' ' << r.nontrivial << ' ' << r.discarded << ' ' << r.corpus << ' ' << r.edges << ' ' << r.edgesTotal << ' ' << (r.capped ? 1 : 0) << '\n';
    f << r.labels.size() << '\n';
    for (auto& l : r.labels) f << l.second << ' ' << l.first << '\n';
    f << r.samples.size() << '\n';
    for (auto& s : r.samples) { f << s.size() << '\n'; f.write(s.data(), (long)s.size()); f << '\n'; }
    f << r.hashes.size() << '\n';
    f.write((const char*)r.hashes.data(), (long)(r.hashes.size() * 8));
    f << '\n' << r.covered.size() << '\n';
    f.write((const char*)r.covered.data(), (long)r.covered.size());
}
static bool readResult(const std::string& path, WorkerResult& r)
{
    std::ifstream f(path, std::ios::binary);
    if (!f) return false;
    size_t n; int capped; std::string line;
    f >> r.evaluations >> r.nontrivial >> r.discarded >> r.corpus >> r.edges >> r.edgesTotal >> capped;
    r.capped = capped;
    f >> n;
    for (size_t i = 0 ; i < n ; i++) { uint64_t c; f >> c; f.get(); std::getline(f, line); r.labels[line] += c; }
    f >> n; f.get();
    for (size_t i = 0 ; i < n ; i++) { size_t l; f >> l; f.get(); std::string s(l, 0); f.read(&s[0], (long)l); f.get(); r.samples.push_back(s); }
    f >> n; f.get();
    r.hashes.resize(n);
    f.read((char*)r.hashes.data(), (long)(n * 8));
    f.get();
    f >> n; f.get();
    r.covered.resize(n);
    f.read((char*)r.covered.data(), (long)n);
    return true;
}

static void setupChild(Shared* sh, const std::string& scratch, const std::string& log, bool devNullOut)
{
    g_sh = sh;
    g_scratch = scratch;
    mkdir(scratch.c_str(), 0700);
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    int nul = open("/dev/null", O_RDWR);
    if (nul >= 0) { dup2(nul, 0); if (devNullOut) dup2(nul, 1); close(nul); }
    signal(SIGPROF, onProf);
    signal(SIGPIPE, SIG_IGN);
}

/* Runs cases [0, upto) of one worker; stops at the first failure. */
static void workerLoop(const Property& prop, unsigned worker, uint64_t upto, double deadline, WorkerResult& res, bool collect)
{
    Mutator m;
    std::unordered_set<uint64_t> seen;
    size_t samplesWanted = worker == 0 ? 3 : 1;
    if (prop.workerInit) prop.workerInit();
    for (uint64_t i = 0 ; i < upto ; i++)
    {
        if (collect && ((i & 15) == 0) && (g_sh->stop || (deadline > 0 && now() > deadline))) { res.capped = !g_sh->stop; break; }
        g_sh->caseIndex = i;
        seedCase(prop, worker, i);
        m.generate(i);
        g_wantNote = collect && res.samples.size() < samplesWanted && i > 20;
        covClear();
        armTimer(20);
        std::string msg;
        int r = runCase(prop, &msg);
        if (r == 1)
        {
            snprintf(g_sh->message, sizeof(g_sh->message), "%s", msg.c_str());
            g_sh->status = ST_FAILED;
            return;
        }
        res.evaluations++;
        if (r == 2) { res.discarded++; continue; }
        for (const char* l : g_caseLabels) res.labels[l]++;
        if (g_nontrivial)
        {
            res.nontrivial++;
            seen.insert(hashChoices(g_sh->choices, g_sh->count));
            if (g_wantNote && !g_notes.empty()) res.samples.push_back(g_notes);
        }
        if (covNew() && g_sh->count < 20000)
            m.corpus.emplace_back(g_sh->choices, g_sh->choices + g_sh->count);
        while (g_pendingCount)
        {
            uint32_t v = g_pending[--g_pendingCount];
            if (g_dict.size() < g_staticDict + 2000) { g_dict.push_back(v); g_dict.push_back(v + 1); g_dict.push_back(v - 1); }
        }
    }
    armTimer(0);
    res.corpus = m.corpus.size();
    res.edgesTotal = covSize();
    res.covered.assign(g_virgin.size(), 0);
    for (size_t k = 0 ; k < g_virgin.size() ; k++) if (g_virgin[k]) { res.edges++; res.covered[k] = 1; }
    res.hashes.assign(seen.begin(), seen.end());
    g_sh->status = ST_DONE;
}

struct Outcome { int kind; /* 0 held, 1 failed, 2 crashed, 3 hang */ std::string msg; std::vector<uint64_t> choices; std::string notes; };

static std::string crashText(const std::string& log, int status)
{
    std::string text, keep;
    std::ifstream f(log);
    std::string line;
    int n = 0;
    while (std::getline(f, line) && n < 400)
    {
        n++;
        if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("SUMMARY") != std::string::npos || line.find("READ of size") != std::string::npos ||
            line.find("WRITE of size") != std::string::npos || line.find("Assertion") != std::string::npos)
            keep += line + "\n";
    }
    if (WIFSIGNALED(status)) text = format("the code under test crashed with signal %d\n", WTERMSIG(status));
    else text = format("the code under test ended the process (status %d; 99 = sanitizer report)\n", WEXITSTATUS(status));
    return text + keep.substr(0, 1500);
}

/* Run one choice sequence in a fresh child process. */
static Outcome execute(const Property& prop, Shared* sh, const std::vector<uint64_t>& choices, int cpuSeconds, bool notes)
{
    std::string scratch = g_opt.scratchRoot + "/x", log = g_opt.scratchRoot + "/x.log";
    sh->status = ST_RUNNING; sh->count = 0; sh->message[0] = 0; sh->notes[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        setupChild(sh, scratch, log, true);
        armTimer(cpuSeconds);
        g_prefix = &choices;
        g_zeroAfterPrefix = true;
        g_wantNote = notes;
        if (prop.workerInit) prop.workerInit();
        std::string msg;
        int r = runCase(prop, &msg);
        if (notes) snprintf(sh->notes, sizeof(sh->notes), "%s", g_notes.c_str());
        if (r == 1) { snprintf(sh->message, sizeof(sh->message), "%s", msg.c_str()); sh->status = ST_FAILED; }
        else sh->status = ST_DONE;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.choices.assign(sh->choices, sh->choices + std::min<uint32_t>((uint32_t)sh->count, (uint32_t)MAX_CHOICES));
    o.notes = sh->notes;
    if (sh->status == ST_FAILED) { o.kind = 1; o.msg = sh->message; }
    else if (sh->status == ST_HANG) { o.kind = 3; o.msg = sh->message; }
    else if (sh->status == ST_DONE && WIFEXITED(st) && WEXITSTATUS(st) == 0) o.kind = 0;
    else { o.kind = 2; o.msg = crashText(log, st); }
    return o;
}

static bool shorter(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static std::vector<uint64_t> shrink(const Property& prop, Shared* sh, std::vector<uint64_t> best, int kind)
{
    double   end = now() + 60;
    unsigned budget = kind == 3 ? 12 : 2500;
    int      cpu = kind == 3 ? 6 : 20;
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (budget == 0 || now() > end) return false;
        budget--;
        Outcome o = execute(prop, sh, c, cpu, false);
        if (o.kind == 0 || !shorter(o.choices, best)) return false;
        best = o.choices;
        return true;
    };
    bool improved = true;
    while (improved && budget && now() < end)
    {
        improved = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2) ; k >= 1 ; k = k > 8 ? k / 2 : k - 1)
            for (size_t i = best.size() ; i-- > 0 ;)
            {
                if (i + k > best.size()) continue;
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
                if (attempt(c)) improved = true;
                if (!budget || now() > end) break;
                if (k > 16) i = i > k / 2 ? i - k / 2 : 0;
            }
        for (size_t i = 0 ; i < best.size() && budget && now() < end ; i++)
        {
            if (best[i] == 0) continue;
            std::vector<uint64_t> c = best;
            c[i] = 0;
            if (attempt(c)) { improved = true; continue; }
            uint64_t lo = 0, hi = best[i];
            while (hi - lo > 1 && budget && now() < end)
            {
                uint64_t mid = lo + (hi - lo) / 2;
                if (i >= best.size()) break;
                c = best; c[i] = mid;
                if (attempt(c)) { improved = true; hi = mid; }
                else lo = mid;
            }
        }
    }
    return best;
}

static std::string jsonString(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

static void writeEvidence(const Property& prop, const WorkerResult& t, uint64_t distinct, int violations, double wall, const std::string& extra)
{
    if (g_opt.evidence.empty()) return;
    std::ofstream f(g_opt.evidence);
    f << "{\n \"property\": " << jsonString(prop.id) << ",\n \"tier\": " << jsonString(g_opt.tier) << ",\n \"seed\": " << g_opt.seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << t.evaluations
      << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"rule\": " << jsonString(prop.rule)
      << ",\n  \"discarded\": " << t.discarded << ",\n  \"coverage_guided_corpus\": " << t.corpus
      << ",\n  \"code_edges_covered\": " << t.edges << ",\n  \"code_edges_instrumented\": " << t.edgesTotal
      << ",\n  \"stopped_by_time_cap\": " << (t.capped ? "true" : "false") << ",\n  \"labels\": {";
    bool first = true;
    for (auto& l : t.labels) { f << (first ? "" : ",") << "\n   " << jsonString(l.first) << ": " << l.second; first = false; }
    f << "},\n  \"samples\": [";
    first = true;
    for (auto& s : t.samples) { f << (first ? "" : ",") << "\n   " << jsonString(s.substr(0, 1500)); first = false; }
    f << "]\n },\n \"assumptions\": [" << extra << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
}

static std::string writeReplay(const Property& prop, const std::string& body, uint64_t tag)
{
    mkdir(g_opt.replayDir.c_str(), 0755);
    std::string path = g_opt.replayDir + "/" + prop.id + "-" + format("%016llx", (unsigned long long)tag) + ".replay";
    std::ofstream f(path);
    f << body;
    return path;
}

static std::string replayBody(const Property& prop, const Outcome& o)
{
    std::ostringstream s;
    s << "property " << prop.id << "\nchoices";
    for (uint64_t c : o.choices) s << ' ' << c;
    s << "\n# " ;
    std::string t = o.msg + "\n" + o.notes;
    for (char c : t) { s << c; if (c == '\n') s << "# "; }
    s << "\n";
    return s.str();
}

static int replayFile(const Property& prop, const std::string& path, Shared* sh)
{
    std::ifstream f(path);
    std::string line, probe;
    std::vector<uint64_t> choices;
    long runWorker = -1; unsigned long long runCases = 0, runSeed = 1;
    while (std::getline(f, line))
    {
        std::istringstream s(line);
        std::string key;
        s >> key;
        if (key == "choices") { uint64_t v; while (s >> v) choices.push_back(v); }
        else if (key == "probe") s >> probe;
        else if (key == "run") s >> runSeed >> runWorker >> runCases;
    }
    Outcome o;
    if (!probe.empty())
    {
        for (auto& k : prop.known)
            if (probe == k.key) { Property p = prop; p.body = k.probe; o = execute(p, sh, {}, 20, true); }
    }
    else if (runWorker >= 0)
    {
        fflush(stdout);
        g_opt.seed = runSeed;
        sh->status = ST_RUNNING;
        pid_t pid = fork();
        if (pid == 0)
        {
            setupChild(sh, g_opt.scratchRoot + "/x", g_opt.scratchRoot + "/x.log", true);
            WorkerResult r;
            workerLoop(prop, (unsigned)runWorker, runCases, 0, r, false);
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        o.kind = sh->status == ST_DONE ? 0 : sh->status == ST_FAILED ? 1 : sh->status == ST_HANG ? 3 : 2;
        o.msg = o.kind == 2 ? crashText(g_opt.scratchRoot + "/x.log", st) : sh->message;
    }
    else
        o = execute(prop, sh, choices, 20, true);
    if (!o.notes.empty()) printf("%s\n", o.notes.c_str());
    if (o.kind == 0) { printf("replay: the property held\n"); return 0; }
    printf("%s\n", o.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", prop.id, path.c_str());
    return 1;
}

/* Does the known findings file list this property and key? Format: "known: property=<id> key=<key> <what fails>" */
static bool knownListed(const Property& prop, const char* key, std::string* pWhat)
{
    std::ifstream f(g_opt.knownFile);
    std::string line, want = std::string("known: property=") + prop.id + " key=" + key + " ";
    while (std::getline(f, line))
        if (line.compare(0, want.size(), want) == 0) { *pWhat = line.substr(want.size()); return true; }
    return false;
}

static int cleanupExit(int rc)
{
    fflush(stdout);
    rmTree(g_opt.scratchRoot);
    return rc;
}

int run(int argc, char** argv, const std::vector<Property>& props)
{
    for (int i = 1 ; i + 1 < argc ; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") g_opt.prop = v;
        else if (k == "--tier") g_opt.tier = v;
        else if (k == "--seed") g_opt.seed = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--evidence") g_opt.evidence = v;
        else if (k == "--replay-dir") g_opt.replayDir = v;
        else if (k == "--replay") g_opt.replay = v;
        else if (k == "--dict") g_opt.dict = v;
        else if (k == "--known") g_opt.knownFile = v;
        else if (k == "--cases") g_opt.cases = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--workers") g_opt.workers = (unsigned)atoi(v.c_str());
        else if (k == "--wall") g_opt.wall = atof(v.c_str());
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    const Property* pProp = nullptr;
    for (auto& p : props) if (g_opt.prop == p.id) pProp = &p;
    if (!pProp) { fprintf(stderr, "no such property: %s\n", g_opt.prop.c_str()); return 2; }
    const Property& prop = *pProp;

    char tmpl[64];
    snprintf(tmpl, sizeof(tmpl), "%s/pbtXXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
    if (!mkdtemp(tmpl)) { snprintf(tmpl, sizeof(tmpl), "/tmp/pbtXXXXXX"); if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } }
    g_opt.scratchRoot = tmpl;
    loadDict(g_opt.dict.c_str());

    Shared* xsh = newShared();
    if (!g_opt.replay.empty()) return cleanupExit(replayFile(prop, g_opt.replay, xsh));

    double start = now();
    std::string extra = jsonString("The mri debug monitor core and the CrashCatcher header come from /verif/shim (the submodules are empty here)");
    int knownCount = 0;

    /* Known findings are demonstrated by fixed inputs. */
    for (auto& k : prop.known)
    {
        Property p = prop;
        p.body = k.probe;
        Outcome o = execute(p, xsh, {}, 20, true);
        if (o.kind == 0) continue;
        std::string what;
        if (knownListed(prop, k.key, &what))
        {
            printf("KNOWN-FINDING: property=%s %s\n", prop.id, what.c_str());
            extra += ", " + jsonString("excluded from generation (known finding): " + what);
            knownCount++;
            continue;
        }
        std::string path = writeReplay(prop, std::string("property ") + prop.id + "\nprobe " + k.key + "\n# " + o.msg + "\n", 0);
        WorkerResult none;
        none.evaluations = 1; none.samples.push_back(std::string("fixed input ") + k.key);
        writeEvidence(prop, none, 1, 1, now() - start, extra);
        printf("%s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), prop.id, path.c_str());
        return cleanupExit(1);
    }

    uint64_t total = g_opt.cases ? g_opt.cases : g_opt.tier == "thorough" ? prop.thoroughCases : prop.quickCases;
    unsigned W = std::max(1u, g_opt.workers);
    double   wall = g_opt.wall > 0 ? g_opt.wall : g_opt.tier == "thorough" ? 780 : 150;
    double   deadline = start + wall;
    std::vector<Shared*> shs;
    std::vector<pid_t>   pids;
    for (unsigned w = 0 ; w < W ; w++) shs.push_back(newShared());
    fflush(stdout);
    for (unsigned w = 0 ; w < W ; w++)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            std::string base = g_opt.scratchRoot + format("/w%u", w);
            setupChild(shs[w], base, base + ".log", true);
            WorkerResult r;
            uint64_t n = total / W + (w < total % W ? 1 : 0);
            workerLoop(prop, w, n, deadline, r, true);
            writeResult(base + ".res", r);
            _exit(0);
        }
        pids.push_back(pid);
    }
    std::vector<int> status(W, 0);
    bool anyBad = false;
    for (unsigned left = W ; left ;)
    {
        int st;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) { if (errno == EINTR) continue; break; }
        for (unsigned w = 0 ; w < W ; w++)
            if (pids[w] == pid)
            {
                status[w] = st;
                left--;
                if (shs[w]->status != ST_DONE) { anyBad = true; for (auto s : shs) s->stop = 1; }
            }
    }

    WorkerResult t;
    std::unordered_set<uint64_t> distinct;
    for (unsigned w = 0 ; w < W ; w++)
    {
        WorkerResult r;
        if (!readResult(g_opt.scratchRoot + format("/w%u.res", w), r)) { t.evaluations += shs[w]->caseIndex; continue; }
        t.evaluations += r.evaluations; t.discarded += r.discarded; t.corpus += r.corpus;
        t.edgesTotal = std::max(t.edgesTotal, r.edgesTotal);
        if (t.covered.size() < r.covered.size()) t.covered.resize(r.covered.size());
        for (size_t k = 0 ; k < r.covered.size() ; k++) t.covered[k] |= r.covered[k];
        t.capped |= r.capped;
        for (auto& l : r.labels) t.labels[l.first] += l.second;
        for (auto& s : r.samples) if (t.samples.size() < 6) t.samples.push_back(s);
        distinct.insert(r.hashes.begin(), r.hashes.end());
    }
    for (uint8_t c : t.covered) t.edges += c;

    if (!anyBad)
    {
        double w = now() - start;
        writeEvidence(prop, t, distinct.size(), 0, w, extra);
        printf("%s %s: held on %llu cases (%zu distinct non-trivial, %llu discarded, %llu/%llu edges, %.1f s%s)\n", prop.id, g_opt.tier.c_str(),
               (unsigned long long)t.evaluations, distinct.size(), (unsigned long long)t.discarded,
               (unsigned long long)t.edges, (unsigned long long)t.edgesTotal, w, t.capped ? ", stopped by time cap" : "");
        return cleanupExit(0);
    }

    for (unsigned w = 0 ; w < W ; w++)
    {
        if (shs[w]->status == ST_DONE) continue;
        std::vector<uint64_t> choices(shs[w]->choices, shs[w]->choices + std::min<uint32_t>((uint32_t)shs[w]->count, (uint32_t)MAX_CHOICES));
        int kind = shs[w]->status == ST_FAILED ? 1 : shs[w]->status == ST_HANG ? 3 : 2;
        std::string msg = kind == 2 ? crashText(g_opt.scratchRoot + format("/w%u.log", w), status[w]) : std::string(shs[w]->message);
        fprintf(stderr, "worker %u, case %llu: %s\n", w, (unsigned long long)shs[w]->caseIndex, msg.c_str());
        auto fails3 = [&](const std::vector<uint64_t>& c, Outcome* pLast) {
            for (int k = 0 ; k < 3 ; k++) { *pLast = execute(prop, xsh, c, 20, k == 2); if (pLast->kind == 0) return false; }
            return true;
        };
        Outcome o;
        if (fails3(choices, &o))
        {
            std::vector<uint64_t> small = shrink(prop, xsh, choices, o.kind);
            Outcome o2;
            if (fails3(small, &o2)) o = o2;
            else fails3(choices, &o);
            o.choices = small.empty() && o2.kind == 0 ? choices : (o2.kind ? small : choices);
            std::string path = writeReplay(prop, replayBody(prop, o), hashChoices(o.choices.data(), o.choices.size()));
            if (t.samples.empty()) t.samples.push_back(o.notes + o.msg);
            writeEvidence(prop, t, distinct.size(), 1, now() - start, extra);
            printf("%s%s\nVIOLATION property=%s replay=%s\n", o.notes.c_str(), o.msg.c_str(), prop.id, path.c_str());
            return cleanupExit(1);
        }
        /* Not reproducible alone: does the same history of cases in one process reproduce it? */
        bool all = true;
        for (int k = 0 ; k < 3 && all ; k++)
        {
            fflush(stdout);
            xsh->status = ST_RUNNING;
            pid_t pid = fork();
            if (pid == 0)
            {
                setupChild(xsh, g_opt.scratchRoot + "/x", g_opt.scratchRoot + "/x.log", true);
                WorkerResult r;
                workerLoop(prop, w, shs[w]->caseIndex + 1, 0, r, false);
                _exit(0);
            }
            int st; waitpid(pid, &st, 0);
            if (xsh->status == ST_DONE) all = false;
        }
        if (all)
        {
            std::string path = writeReplay(prop, std::string("property ") + prop.id + format("\nrun %llu %u %llu\n# %s\n", (unsigned long long)g_opt.seed, w,
                                           (unsigned long long)shs[w]->caseIndex + 1, msg.c_str()), shs[w]->caseIndex);
            if (t.samples.empty()) t.samples.push_back(msg);
            writeEvidence(prop, t, distinct.size(), 1, now() - start, extra);
            printf("%s\n(needs the history of earlier cases in the same process)\nVIOLATION property=%s replay=%s\n", msg.c_str(), prop.id, path.c_str());
            return cleanupExit(1);
        }
        fprintf(stderr, "not reproducible: ignored\n");
    }
    t.labels["unreproducible failures ignored"]++;
    writeEvidence(prop, t, distinct.size(), 0, now() - start, extra);
    printf("%s: only unreproducible failures (see stderr); inconclusive, nothing reported\n", prop.id);
    return cleanupExit(0);
}

} /* namespace pbt */
