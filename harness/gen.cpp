#include "gen.h"
#include <algorithm>
#include <cinttypes>

using namespace pbt;

namespace gen {

static const uint32_t g_sentinel = 0xACCE55ED;

std::string le32(uint32_t v)
{
    char b[4] = {(char)v, (char)(v >> 8), (char)(v >> 16), (char)(v >> 24)};
    return std::string(b, 4);
}
static uint32_t rd32(const std::string& s, size_t i)
{
    return (uint32_t)(uint8_t)s[i] | (uint32_t)(uint8_t)s[i + 1] << 8 | (uint32_t)(uint8_t)s[i + 2] << 16 | (uint32_t)(uint8_t)s[i + 3] << 24;
}

/* ------------------------------------------------------------------ address layouts */
bool Layout::fits(uint64_t lo, uint64_t n) const
{
    if (lo + n > top) return false;
    for (auto& r : used)
    {
        if (n == 0 || r.hi == r.lo) { if (lo > r.lo && lo < r.hi) return false; if (r.lo > lo && r.lo < lo + n) return false; continue; }
        if (lo < r.hi && r.lo < lo + n) return false;
    }
    return true;
}

uint32_t special()
{
    static const uint32_t memories[] = {0x20000000, 0x20000000, 0x10000000, 0x1FFF8000, 0x08000000, 0x40000000, 0x22000000, 0x42000000, 0x60000000, 0xE0000000};
    /* ICTR, ACTLR, SysTick, NVIC, CPUID, ICSR, VTOR, AIRCR, SCR, CCR, SHPR, SHCSR, CFSR..AFSR, CPACR, MPU, DHCSR, DEMCR, STIR, FPCCR, FPCAR, FPDSCR, MVFR0 */
    static const uint32_t registers[] = {0xE000E004, 0xE000E008, 0xE000E010, 0xE000E100, 0xE000ED00, 0xE000ED04, 0xE000ED04, 0xE000ED08, 0xE000ED0C, 0xE000ED10, 0xE000ED14, 0xE000ED18, 0xE000ED24, 0xE000ED28,
        0xE000ED2C, 0xE000ED30, 0xE000ED34, 0xE000ED38, 0xE000ED3C, 0xE000ED88, 0xE000ED88, 0xE000ED90, 0xE000EDF0, 0xE000EDFC, 0xE000EF00, 0xE000EF34, 0xE000EF38, 0xE000EF3C, 0xE000EF40, 0xE0042000};
    return chance(50) ? memories[below(10)] + (chance(50) ? 0 : size(0x2000)) : registers[below(30)];
}

uint32_t lookalike(uint32_t a)
{
    switch (below(4))
    {
    case 0: return a ^ 1u << below(32);
    case 1: return (a & 0xF0000000) + 0x02000000 + ((a & 0xFFFFF) << 5) + 4 * below(8);
    case 2: return (a & 0x0FFFFFFF) | below(16) << 28;
    default: return (a & 0xF0000000) + ((a & 0x1FFFFFF) >> 5);
    }
}

uint32_t Layout::place(uint32_t n, uint32_t align)
{
    for (int tries = 0 ; tries < 6 ; tries++)
    {
        uint64_t a;
        if (!used.empty() && chance(55))
        {
            const Range& r = used[below((uint32_t)used.size())];
            uint32_t gap = chance(50) ? 0 : align * range(1, 9);
            if (chance(30)) { if (r.lo < (uint64_t)n + gap) continue; a = r.lo - n - gap; }
            else a = r.hi + gap;
        }
        else if (chance(25)) a = chance(25) ? 0 : (uint64_t)below(16) << 28;
        else if (chance(15)) a = top >= n ? top - n - (uint64_t)align * below(3) : 0;
        else if (chance(12)) { a = special(); if (n > 4 && chance(40)) a -= std::min<uint64_t>(a, align * below(std::min<uint32_t>(n / align, 64))); }
        else a = u32();
        a -= a % align;
        if (a <= 0xFFFFFFFFull && fits(a, n)) return (uint32_t)a;
    }
    /* First free place above a fixed base. */
    uint64_t a = 0x20000000;
    for (bool moved = true ; moved ;)
    {
        moved = false;
        for (auto& r : used)
            if (!(a + n <= r.lo || a >= r.hi) || (n == 0 && a > r.lo && a < r.hi)) { a = r.hi + (align - r.hi % align) % align; moved = true; }
        if (a + n > top) { a = 0x1000; if (!fits(a, n)) discard(); break; }
    }
    if (!fits(a, n)) discard();
    return (uint32_t)a;
}

std::vector<uint32_t> Layout::probes() const
{
    std::vector<uint32_t> v = {0, 0xFFFFFFFFu, 0xFFFFFFFCu, 0x20000000u, 0x10000000u};
    for (auto& r : used)
        for (int d = -4 ; d <= 3 ; d++)
        {
            if (r.lo + (uint64_t)(int64_t)d <= 0xFFFFFFFFull) v.push_back((uint32_t)(r.lo + (uint64_t)(int64_t)d));
            if (r.hi + (uint64_t)(int64_t)d <= 0xFFFFFFFFull) v.push_back((uint32_t)(r.hi + (uint64_t)(int64_t)d));
        }
    for (int i = 0 ; i < 2 && !used.empty() ; i++) v.push_back(lookalike((uint32_t)used[below((uint32_t)used.size())].lo));
    for (int i = 0 ; i < 3 ; i++) v.push_back(u32());
    return v;
}

/* ------------------------------------------------------------------ crash states */
static uint32_t regValue(uint32_t index, int style)
{
    switch (style)
    {
    case 0:  return 0x11111111u * (index % 15 + 1) + index;     /* recognisable */
    case 1:  return (uint32_t)draw(0xFFFFFFFFu);
    default: return u32();
    }
}

void registers(Crash& c)
{
    c.v2 = chance(30);
    c.flags = chance(80) ? below(2) : u32();
    int style = (int)below(3);
    for (uint32_t i = 0 ; i < TOTAL_REG_COUNT ; i++) c.R[i] = regValue(i, style);
    c.exceptionPSR = chance(50) ? below(16) : u32();
    for (uint32_t i = 0 ; i < TOTAL_FPREG_COUNT ; i++) c.FPR[i] = c.hasFP() ? regValue(i + 40, style) : 0;
}

Crash crash(Layout& layout, const CrashOptions& o)
{
    Crash c;
    registers(c);
    bool many = o.big && chance(1) && chance(8);
    uint32_t align = !o.words ? 1 : o.unaligned && chance(12) ? 1 : 4;
    if (o.words && align == 1) label("unaligned addresses");
    if (many) label("many regions");
    for (unsigned i = 0 ; many ? more(99, i, 300) : more(60, i, o.maxRegions) ; i++)
    {
        uint32_t n = many ? below(12) : size(o.maxSize);
        if (o.big && !many && chance(1) && chance(12)) { n = 65536 - 8 + (chance(50) ? below(16) : value(0, 100000)); if (chance(10)) { n = 1000000 + below(1000000); label("region over 1 MB"); } else label("region over 64 KB"); }
        if (i == 0 && n < o.minSize) n = o.minSize + n;
        if (!many && o.maxSize >= 256 && chance(8)) { n = 4; while (n * 2 <= o.maxSize && chance(85)) n *= 2; label("power of two region"); }
        if (o.words) n = (n + 3) & ~3u;
        if (n == 0 && !o.allowEmpty) n = o.words ? 4 : 1;
        Block b;
        b.start = layout.place(n, align);
        b.data = bytes(n);
        layout.add(b.start, n);
        c.regions.push_back(b);
    }
    return c;
}

std::string toBinary(const Crash& c)
{
    std::string s("cC", 2);
    s += (char)(c.v2 ? 2 : 3);
    s += (char)0;
    s += le32(c.flags);
    for (int i = 0 ; i < (c.v2 ? 17 : 19) ; i++) s += le32(c.R[i]);
    s += le32(c.exceptionPSR);
    if (c.hasFP()) for (int i = 0 ; i < TOTAL_FPREG_COUNT ; i++) s += le32(c.FPR[i]);
    for (auto& r : c.regions)
    {
        s += le32(r.start);
        s += le32(r.start + (uint32_t)r.data.size());
        s += r.data;
    }
    return s;
}

std::string plainHex(const std::string& b)
{
    std::string s;
    for (unsigned char ch : b) { s += "0123456789ABCDEF"[ch >> 4]; s += "0123456789ABCDEF"[ch & 15]; }
    return s;
}

std::string toHex(const std::string& b)
{
    static const char* const eols[] = {"\n", "\r\n", "\r", "\n\n", "\r\n\r\n", "\n\r"};
    unsigned caseStyle = below(4);                  /* upper, lower, per byte, by position */
    unsigned width = chance(70) ? (chance(50) ? 32 : 1 + size(100)) : 0;
    unsigned eol = below(6);
    /* Extra breaks at a few chosen digit positions. */
    std::vector<std::pair<size_t, unsigned>> extra;
    for (unsigned i = 0 ; more(55, i, 12) ; i++) extra.push_back({(size_t)draw(b.size() * 2), below(6)});
    std::string s;
    unsigned col = 0;
    for (size_t i = 0 ; i < b.size() * 2 ; i++)
    {
        for (auto& e : extra) if (e.first == i) s += eols[e.second];
        unsigned char ch = (unsigned char)b[i / 2];
        unsigned v = i & 1 ? ch & 15u : ch >> 4;
        bool lower = caseStyle == 1 || (caseStyle == 2 && ((i / 2) & 1)) || (caseStyle == 3 && (i * 7 + i / 5) % 3 == 0);
        s += (lower ? "0123456789abcdef" : "0123456789ABCDEF")[v];
        if (width && ++col == width) { s += eols[eol]; col = 0; }
    }
    for (auto& e : extra) if (e.first == b.size() * 2) s += eols[e.second];
    return s;
}

std::string describe(const Crash& c)
{
    std::string s = format("%s flags=%x psr=%x regions:", c.v2 ? "v2" : "v3", c.flags, c.exceptionPSR);
    for (auto& r : c.regions) s += format(" [%08x+%zx]", r.start, r.data.size());
    return s;
}

void fillContext(RegisterContext* p, uint32_t seed)
{
    memset(p, 0, sizeof(*p));
    uint32_t v = seed ? seed : 0;
    for (int i = 0 ; i < TOTAL_REG_COUNT ; i++) { p->R[i] = v; v = v * 1664525u + (seed ? 1013904223u : 0); }
    for (int i = 0 ; i < TOTAL_FPREG_COUNT ; i++) { p->FPR[i] = v; v = v * 1664525u + (seed ? 1013904223u : 0); }
    p->exceptionPSR = v;
    p->flags = 0;
}

void expectContext(const RegisterContext& got, const Crash& want, const RegisterContext& before, const char* what)
{
    REQUIRE(got.flags == want.flags, "%s: flags are %08x, expected %08x", what, got.flags, want.flags);
    for (int i = 0 ; i < TOTAL_REG_COUNT ; i++)
    {
        uint32_t w = i >= MSP && want.v2 ? 0xBAADBAADu : want.R[i];
        REQUIRE(got.R[i] == w, "%s: R[%d] is %08x, expected %08x", what, i, got.R[i], w);
    }
    REQUIRE(got.exceptionPSR == want.exceptionPSR, "%s: exception PSR is %08x, expected %08x", what, got.exceptionPSR, want.exceptionPSR);
    for (int i = 0 ; i < TOTAL_FPREG_COUNT ; i++)
    {
        uint32_t w = want.hasFP() ? want.FPR[i] : before.FPR[i];
        REQUIRE(got.FPR[i] == w, "%s: FPR[%d] is %08x, expected %08x", what, i, got.FPR[i], w);
    }
}

std::string describeContextDiff(const RegisterContext& a, const RegisterContext& b)
{
    std::string s;
    if (a.flags != b.flags) s += format("flags %08x/%08x ", a.flags, b.flags);
    for (int i = 0 ; i < TOTAL_REG_COUNT ; i++) if (a.R[i] != b.R[i]) s += format("R[%d] %08x/%08x ", i, a.R[i], b.R[i]);
    if (a.exceptionPSR != b.exceptionPSR) s += format("exceptionPSR %08x/%08x ", a.exceptionPSR, b.exceptionPSR);
    for (int i = 0 ; i < TOTAL_FPREG_COUNT ; i++) if (a.FPR[i] != b.FPR[i]) s += format("FPR[%d] %08x/%08x ", i, a.FPR[i], b.FPR[i]);
    return s;
}

/* ------------------------------------------------------------------ reference reader */
DumpMeaning readDump(const std::string& s)
{
    DumpMeaning m;
    size_t i = 0;
    auto bad = [&](const char* t) { m.code = fileFormatException; m.msg = t; };
    if (s.size() < 4) { bad("The dump file was too short to contain the 4-byte signature."); return m; }
    if (s.compare(0, 4, std::string("cC\3\0", 4)) == 0) m.crash.v2 = false;
    else if (s.compare(0, 4, std::string("cC\2\0", 4)) == 0) m.crash.v2 = true;
    else { bad("The dump file didn't start with the expected 4-byte signature."); return m; }
    i = 4;
    if (s.size() - i < 4) { bad("The dump file was too short to contain the flags."); return m; }
    m.crash.flags = rd32(s, i); i += 4; m.gotFlags = true;
    size_t n = m.crash.v2 ? 17 : 19;
    if (s.size() - i < n * 4) { bad("The dump file was too short to contain the integer registers."); return m; }
    for (size_t k = 0 ; k < n ; k++, i += 4) m.crash.R[k] = rd32(s, i);
    m.gotR = true;
    if (s.size() - i < 4) { bad("The dump file was too short to contain the exception PSR."); return m; }
    m.crash.exceptionPSR = rd32(s, i); i += 4; m.gotPSR = true;
    if (m.crash.hasFP())
    {
        if (s.size() - i < TOTAL_FPREG_COUNT * 4) { bad("The dump file was too short to contain the floating point registers."); return m; }
        for (size_t k = 0 ; k < TOTAL_FPREG_COUNT ; k++, i += 4) m.crash.FPR[k] = rd32(s, i);
        m.gotFPR = true;
    }
    while (i < s.size())
    {
        size_t left = s.size() - i;
        if (left == 4 && rd32(s, i) == g_sentinel)
        {
            m.code = stackOverflowException;
            m.msg = "The dump file ended with an indication that CrashCatcher detected a stack overflow.";
            return m;
        }
        if (left < 8) { bad("The dump file contained a truncated memory region header."); return m; }
        uint32_t start = rd32(s, i), end = rd32(s, i + 4), len = end - start;
        i += 8;
        if ((uint64_t)start + len > 0x100000000ull) m.overlaps = m.wraps = true;
        if (len > env::allocCap || s.size() - i < len)
        {
            m.tooBig = len > env::allocCap;
            m.failedStart = start;
            m.failedLen = len;
            /* What could be read of it is written over what was there. */
            for (auto& r : m.crash.regions)
                if (start < (uint64_t)r.start + r.data.size() && r.start < (uint64_t)start + len) m.overlaps = true;
            m.code = m.tooBig ? (int)outOfMemoryException : (int)fileFormatException;
            m.msg = format("The dump file failed to load RAM memory region at 0x%08X - 0x%08X.", start, end);
            return m;
        }
        uint64_t hi = (uint64_t)start + len;
        for (auto& r : m.crash.regions)
            if (start < (uint64_t)r.start + r.data.size() && r.start < hi) m.overlaps = true;
        m.crash.regions.push_back({start, s.substr(i, len)});
        i += len;
    }
    return m;
}

/* ------------------------------------------------------------------ GDB logs */
static std::string identifier()
{
    static const char first[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    std::string s(1, first[below(sizeof(first) - 1)]);
    for (unsigned i = 0 ; more(70, i, 12) ; i++)
    {
        static const char rest[] = "abcxyz0123456789_ABC$.";
        s += rest[below(sizeof(rest) - 1)];
    }
    return s;
}
static std::string typeName(int depth)
{
    std::string s = identifier();
    if (depth < 3 && chance(35))
    {
        s += '<';
        for (unsigned i = 0 ; i == 0 || more(35, i, 3) ; i++)
        {
            if (i) s += ", ";
            s += typeName(depth + 1);
            if (chance(20)) s += chance(50) ? "*" : " const&";
        }
        if (s[s.size() - 1] == '>' && chance(50)) s += ' ';
        s += '>';
    }
    if (depth < 3 && chance(25)) s += "::" + typeName(depth + 1);
    return s;
}
std::string symbolName(bool afterAddress)
{
    std::string s = typeName(0);
    if (afterAddress && chance(15))
    {
        static const char* const ops[] = {"operator->", "operator>", "operator<", "operator<<", "operator>>", "operator->*", "operator>=", "operator<=", "operator<=>",
                                          "operator()", "operator new", "operator,"};
        s += std::string("::") + ops[below(sizeof(ops) / sizeof(ops[0]))];
        if (chance(30)) s += "<" + typeName(2) + ">";
        label("operator symbol");
    }
    if (chance(30))
    {
        s += '(';
        for (unsigned i = 0 ; more(50, i, 3) ; i++) { if (i) s += ", "; s += typeName(1); }
        s += ')';
        if (chance(30)) s += " const";
        if (chance(10)) s += "::{lambda(int)#1}";
    }
    if (chance(20)) s = "vtable for " + s;
    if (chance(40)) s += format("+%u", value(1, 100000));
    return "<" + s + ">";
}

static std::string wordText(uint32_t v, const LogOptions& o)
{
    switch (o.decimal ? below(7) : 0)
    {
    case 6:  return format("%d", (int32_t)v);
    case 3:  return format("0x%x", v);
    case 4:  return format("%u", v);
    case 5:  return format("0x%08X", v);
    default: return format("0x%08x", v);
    }
}

static const char* const g_names[TOTAL_REG_COUNT] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12",
                                                     "sp", "lr", "pc", "xpsr", "msp", "psp"};
static std::string registerLine(int i, uint32_t v)
{
    std::string s = g_names[i];
    s.resize(15, ' ');
    switch (below(4))
    {
    case 0:  s += format("0x%x\t%u", v, v); break;
    case 1:  s += format("0x%x\t%d", v, (int32_t)v); break;
    case 2:  s += format("0x%08x          0x%08x <%s+12>", v, v, identifier().c_str()); break;
    default: s += format("%u", v); break;
    }
    return s;
}
static std::string floatLine(int i, uint32_t v)
{
    static const char* const vals[] = {"0", "1", "-1.5", "1.23456789e-38", "-nan(0x7fffff)", "inf", "-0"};
    if (i == FPSCR)
    {
        std::string s = "fpscr";
        s.resize(15, ' ');
        return s + (chance(50) ? format("0x%x\t%u", v, v) : format("%u", v));
    }
    std::string s = format("s%d", i);
    s.resize(15, ' ');
    s += vals[below(7)];
    s += chance(50) ? "\t" : std::string(range(1, 18), ' ');
    s += format("(raw 0x%08x)", v);
    return s;
}

Log toLog(const Crash& c, const LogOptions& o)
{
    Log log;
    /* Register lines, optionally with outdated values first, and possibly not all of them. */
    std::vector<std::string> regs, mem;
    bool subset = o.subset && chance(40);
    for (int i = 0 ; i < TOTAL_REG_COUNT ; i++)
    {
        if (subset && chance(30)) continue;
        log.hasR[i] = true;
    }
    bool fp = c.hasFP();
    for (int i = 0 ; fp && i < TOTAL_FPREG_COUNT ; i++)
    {
        if (subset && chance(30)) continue;
        log.hasF[i] = true;
        if (i <= S31) log.anyS = true;
    }
    std::vector<std::pair<int, bool>> order;            /* register number (FP + 100), final value? */
    for (int i = 0 ; i < TOTAL_REG_COUNT ; i++) if (log.hasR[i]) order.push_back({i, true});
    for (int i = 0 ; i < TOTAL_FPREG_COUNT ; i++) if (log.hasF[i]) order.push_back({100 + i, true});
    if (o.shuffle && chance(30))
        for (size_t i = order.size() ; i > 1 ; i--) std::swap(order[i - 1], order[below((uint32_t)i)]);
    if (o.repeats && !order.empty())
        for (unsigned k = 0 ; more(25, k, 4) ; k++)
        {
            size_t at = below((uint32_t)order.size());
            if (order[at].second) { auto e = std::make_pair(order[at].first, false); order.insert(order.begin() + (long)below((uint32_t)at + 1), e); }
        }
    for (auto& e : order)
    {
        int i = e.first;
        uint32_t v = i < 100 ? c.R[i] : c.FPR[i - 100];
        if (!e.second) v = chance(50) ? ~v : u32();
        regs.push_back(i < 100 ? registerLine(i, v) : floatLine(i - 100, v));
    }
    bool syms = o.symbols && chance(50);
    for (auto& r : c.regions)
    {
        size_t words = r.data.size() / 4, w = 0;
        while (w < words)
        {
            size_t n = std::min<size_t>(words - w, 4);
            if (o.shortLines && n > 1 && chance(15)) n = 1 + below((uint32_t)n);
            uint32_t a = r.start + (uint32_t)w * 4;
            std::string line = format(chance(90) ? "0x%08x" : "0x%08X", a);
            if (syms && chance(60)) line += " " + symbolName(true);
            line += ":";
            for (size_t k = 0 ; k < n ; k++)
            {
                line += chance(85) ? "\t" : std::string(range(1, 4), ' ');
                line += wordText(rd32(r.data, (w + k) * 4), o);
                if (syms && chance(12)) line += " " + symbolName(false);
            }
            if (chance(5)) line += chance(50) ? " " : "\t";
            if (line.size() > 1000) discard();
            mem.push_back(line);
            w += n;
        }
    }
    if (chance(30))
    {
        /* The two kinds mixed, each in its own order. */
        size_t a = 0, b = 0;
        while (a < regs.size() || b < mem.size())
        {
            bool reg = b >= mem.size() || (a < regs.size() && chance(50));
            for (unsigned k = 0 ; k == 0 || more(50, k, 6) ; k++)
            {
                if (reg ? a >= regs.size() : b >= mem.size()) break;
                log.lines.push_back(reg ? regs[a++] : mem[b++]);
            }
        }
        label("registers between memory lines");
    }
    else if (chance(50)) { log.lines = regs; log.lines.insert(log.lines.end(), mem.begin(), mem.end()); }
    else { log.lines = mem; log.lines.insert(log.lines.end(), regs.begin(), regs.end()); }
    return log;
}

static bool isKept(const std::string& name)
{
    bool kept = name == "fpscr";
    for (auto n : g_names) kept = kept || name == n;
    for (int k = 0 ; k < 32 ; k++) kept = kept || name == format("s%d", k);
    return kept;
}

std::string noiseLine()
{
    static const char* const fixed[] = {
        "", "(gdb) ", "(gdb) info registers", "(gdb) set height 0", "#0  0x0000014c in main () at main.cpp:12", "primask        0x0\t0", "control        0x4\t4",
        "d0             0\t(raw 0x0000000000000000)", "q0             {u8 = {0x0 <repeats 16 times>}}", "cpsr           0x61000000\t1627389952", "s32            1\t(raw 0x3f800000)",
        "r13            0x10007fe0\t268468192", "r1 0x5", "xpsr", "sp", "s0", "r0            0x1", "R0             0x1\t1", " r0             0x1", "rip            0x1\t1", "faultmask      0\t0",
        "basepri        0", "Program received signal SIGSEGV, Segmentation fault.", "warning: while parsing target memory map (at line 1)", "0x", "0x1000", "0x10000000", "0x10000000:",
        "0x1000000:\t0x00000001\t0x00000002", "0x100000000", "0X10000000:\t0x1", "10000000:\t0x1", "0xg0000000:\t0x1\t0x2\t0x3\t0x4", "The program is not being run.", "x/4wx $sp",
        "\x1b[32m0x10000000\x1b[0m:\t0x1", "msp=0x10000000", "fpscr0x1", "(raw 0x3f800000)", "<main+12>:", "---Type <return> to continue, or q <return> to quit---"};
    switch (below(11))
    {
    case 10:
    {
        /* Something the program has a string for. */
        if (sourceStrings().empty()) return "";
        std::string s = pick(sourceStrings());
        if (chance(50)) s += format("0x%x\t%d", u32(), below(1000));
        if (s.size() >= 15)
        {
            std::string field = s.substr(0, 15);
            while (!field.empty() && field.back() == ' ') field.pop_back();
            if (isKept(field)) return "(" + s;
        }
        if (s[0] == '0') return "(" + s;
        label("a word of the program");
        return s;
    }
    case 9:
    {
        /* An address without values: what follows it isn't a number. */
        static const char* const junk[] = {"?", "??", "<error: Cannot access memory at address 0x1000>", "(null)", "...", "x", "Error 5", "=> 0x1", "<repeats 3 times>", "Cannot", "-", "+", "value: 0x12",
                                           "--Type <RET> for more--", "\"text\"", "'a'", "{0x1, 0x2}", "nop", ".word 0x12345678", "$1 = 5", "ldr\tr0, [pc, #4]", "<main+4>:\tmov r0, r1", "\\0"};
        label("address without values");
        return format("0x%08x%s:%s%s", u32(), chance(30) ? (" " + symbolName(true)).c_str() : "", chance(70) ? "\t" : " ", junk[below(sizeof(junk) / sizeof(junk[0]))]);
    }
    case 7:
    {
        /* Almost a memory line: one character of the address isn't a hex digit. */
        static const char bad[] = "gGzZ/:@`G xoQ<.";
        std::string s = format("0x%08x:\t0x%08x\t0x%08x", u32(), u32(), u32());
        unsigned at = chance(70) ? 2 + below(8) : below(2);
        s[at] = bad[below(sizeof(bad) - 1)];
        if (s[0] == '0' && s[1] == 'x' && at == 1) s[1] = 'X';
        label("almost an address");
        return s;
    }
    case 8:
    {
        /* Almost a register line: one character of the 15 column name field is another one. */
        int i = (int)below(TOTAL_REG_COUNT + TOTAL_FPREG_COUNT);
        std::string s = i < TOTAL_REG_COUNT ? registerLine(i, u32()) : floatLine(i - TOTAL_REG_COUNT, u32());
        static const char other[] = "abmnpqxyRSLPX_-.:#\t";
        unsigned at = chance(60) ? below(5) : below(15);
        s[at] = other[below(sizeof(other) - 1)];
        label("almost a register");
        std::string field = s.substr(0, 15);
        while (!field.empty() && field.back() == ' ') field.pop_back();
        if (isKept(field)) return "(" + s;
        return s;
    }
    case 0: case 1: case 2: return fixed[below(sizeof(fixed) / sizeof(fixed[0]))];
    case 3: return format("0x%08x:\tCannot access memory at address 0x%x", u32(), u32());
    case 4: { uint32_t a = u32(); return format("0x%08x%s:", a, chance(50) ? (" " + symbolName(true)).c_str() : ""); }
    case 5:
    {
        /* Free text which cannot be mistaken for a record: starts with a character no record starts with. */
        std::string s = chance(50) ? "(" : "#";
        std::string b = bytes(chance(80) ? below(60) : below(1000));
        for (char ch : b) s += (ch == '\n' || ch == '\r') ? '?' : ch;
        return s;
    }
    default:
    {
        /* A register GDB shows which is not one of those kept. */
        static const char* const names[] = {"d", "q", "x", "v", "w", "rr", "ss", "r1_", "pcx", "lrx", "xpsr_", "s_"};
        std::string s = names[below(12)] + format("%u", below(32));
        s.resize(15, ' ');
        return s + format("0x%x\t%u", u32(), u32());
    }
    }
}

std::string joinLog(const std::vector<std::string>& lines, bool lastEol)
{
    std::string s;
    unsigned style = below(3);                          /* LF, CRLF, mixed */
    for (size_t i = 0 ; i < lines.size() ; i++)
    {
        s += lines[i];
        if (i + 1 == lines.size() && !lastEol) break;
        s += style == 1 || (style == 2 && (i % 3) == 1) ? "\r\n" : "\n";
    }
    return s;
}

} /* namespace gen */
