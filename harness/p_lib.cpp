/* C28, C29: exception handling and file sizes. */
#include "props.h"
#include "env.h"
#include "trycatch.h"
extern "C" {
extern FILE* (*hook_fopen)(const char*, const char*);
extern int   (*hook_fclose)(FILE*);
}
#include <deque>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace pbt;
using namespace env;

/* ------------------------------------------------------------------ C28 */
struct Event { int id, where, code; std::string msg; int handlers; };
static bool operator==(const Event& a, const Event& b) { return a.id == b.id && a.where == b.where && a.code == b.code && a.msg == b.msg && a.handlers == b.handlers; }
static std::vector<Event> g_got;
static size_t g_limit;
static void onTrace(int id, int where, int code, const char* message, int handlers)
{
    Outside o;
    if (g_got.size() < g_limit) g_got.push_back({id, where, code, message, handlers});
}

struct Program
{
    std::deque<TcNode> nodes;
    std::deque<std::string> texts;
    std::deque<std::vector<const TcNode*>> kids;
    int nextId = 1;
    unsigned depth = 0, count = 0, throws = 0, tries = 0, maxDepth = 0;

    TcNode* node(int kind, int code = 0, const std::string& text = "", const std::vector<const TcNode*>& k = {})
    {
        kids.push_back(k);
        texts.push_back(text);
        nodes.push_back({kind, nextId++, code, texts.back().c_str(), (int)k.size(), kids.back().empty() ? nullptr : kids.back().data()});
        count++;
        return &nodes.back();
    }
    static int code() { return chance(70) ? 1 + (int)below(31) : (int)value(1, 0x7FFFFFFF); }
    static std::string text()
    {
        if (chance(30)) return "";
        unsigned n = chance(20) ? 1015 + below(16) : chance(10) ? 1024 + below(4000) : below(40);
        std::string s(n, (char)('a' + below(26)));
        if (n && chance(30)) s[below(n)] = "%\n\x80\""[below(4)];
        return s;
    }
    const TcNode* statement(bool inTry, bool inHandler)
    {
        switch (weighted({6, 4, inTry ? 4u : 0u, inTry ? 4u : 0u, inTry && inHandler ? 4u : 0u, inTry && inHandler ? 2u : 0u, 1, depth < 6 ? 3u : 0u, 1, depth < 4 ? 1u : 0u}))
        {
        case 0:  return tryBlock();
        case 1:  return node(TC_MARK);
        case 2:  throws++; return node(TC_THROW, code());
        case 3:  throws++; return node(TC_THROW_MSG, code(), text());
        case 4:  throws++; return node(TC_RETHROW);
        case 5:  throws++; return node(TC_THROW_PENDING_MSG, 0, text());
        case 6:  return inHandler ? node(TC_MARK) : node(TC_CLEAR);
        case 7:  { depth++; const TcNode* b = sequence(inTry, inHandler, false); depth--; return node(TC_CALL, (int)below(6), "", {b}); }
        case 8:  return inHandler ? node(TC_MARK) : node(TC_NOTHROW);
        default: { depth++; const TcNode* b = sequence(inTry, inHandler, false); depth--; return node(TC_LOOP, (int)below(4), "", {b}); }
        }
    }
    /* A sequence of statements; a handler which is left normally has dealt with the exception and clears it. */
    const TcNode* sequence(bool inTry, bool inHandler, bool clearAtEnd)
    {
        std::vector<const TcNode*> v;
        bool fresh = inHandler;
        while (count < 60 && more(62, v.size(), 5))
        {
            v.push_back(statement(inTry, fresh && inHandler));
            int k = v.back()->kind;
            if (k != TC_MARK) fresh = false;        /* what was caught may not be pending any more */
        }
        if (clearAtEnd) v.push_back(node(chance(80) ? TC_CLEAR : TC_NOTHROW));
        return node(TC_SEQ, 0, "", v);
    }
    const TcNode* tryBlock()
    {
        bool outermost = openTries == 0;
        if (depth >= 7 || count > 60) return node(TC_MARK);
        depth++;
        tries++;
        if (depth > maxDepth) maxDepth = depth;
        openTries++;
        const TcNode* body = sequence(true, false, false);
        openTries--;
        int kind = (int)weighted({7, 2, outermost ? 1u : 0u});
        const TcNode* r;
        if (kind == 2)
            r = node(TC_TRY_AND_CATCH, 0, "", {body});
        else
        {
            /* An exception which was caught in the outermost block may stay pending. */
            const TcNode* handler = sequence(!outermost, true, !outermost || chance(50));
            r = node(kind == 1 ? TC_TRY_STATEMENT : TC_TRY, 0, "", {body, handler});
        }
        depth--;
        return r;
    }
    unsigned openTries = 0;
};

/* What the program means. */
struct Meaning
{
    int pending = 0, handlers;
    std::string msg;
    std::vector<Event> out;
    size_t limit;
    bool stopped = false;
    unsigned handled = 0, steps = 0;

    void mark(int id, int where) { if (out.size() < limit) out.push_back({id, where, pending, msg, handlers}); }
    void set(int code) { if (code > pending) pending = code; }
    /* Returns true if it was left by an exception. */
    bool exec(const TcNode* p)
    {
        if (++steps > 20000) { stopped = true; return false; }
        switch (p->kind)
        {
        case TC_SEQ:
            for (int i = 0 ; i < p->kidCount ; i++) if (exec(p->kids[i])) return true;
            return false;
        case TC_TRY: case TC_TRY_STATEMENT: case TC_TRY_AND_CATCH:
        {
            bool marks = p->kind == TC_TRY;
            handlers++;
            pending = 0;
            msg.clear();
            if (marks) mark(p->id, 1);
            bool thrown = exec(p->kids[0]);
            if (!thrown && marks) mark(p->id, 2);
            handlers--;
            if (thrown)
            {
                handled++;
                if (marks) mark(p->id, 3);
                if (p->kind != TC_TRY_AND_CATCH && exec(p->kids[1])) return true;
                if (marks) mark(p->id, 4);
            }
            mark(p->id, 5);
            return false;
        }
        case TC_THROW: mark(p->id, 0); set(p->code); return true;
        case TC_THROW_MSG: mark(p->id, 0); msg = (std::string(p->text) + format("/%d", p->id)).substr(0, 1023); set(p->code); return true;
        case TC_RETHROW: if (!pending) stopped = true; mark(p->id, 0); return true;
        case TC_THROW_PENDING_MSG: if (!pending) stopped = true; mark(p->id, 0); msg = std::string(p->text).substr(0, 1023); return true;
        case TC_CLEAR: case TC_NOTHROW: pending = 0; mark(p->id, 0); return false;
        case TC_MARK: mark(p->id, 0); return false;
        case TC_CALL: if (exec(p->kids[0])) return true; mark(p->id, 0); return false;
        case TC_LOOP:
            for (int n = 0 ; n < p->code ; n++) if (exec(p->kids[0])) return true;
            return false;
        }
        return false;
    }
};

static std::string show(const TcNode* p, int indent = 0)
{
    static const char* names[] = {"{", "try", "throw", "throw_msg", "rethrow", "clear", "mark", "call", "try", "try_and_catch", "nothrow", "throw_msg pending", "repeat"};
    std::string s = std::string((size_t)indent * 2, ' ') + format("%s #%d", names[p->kind], p->id);
    if (p->kind == TC_THROW || p->kind == TC_THROW_MSG || p->kind == TC_LOOP || p->kind == TC_CALL) s += format(" %d", p->code);
    if (p->text[0]) s += " " + quote(p->text, 20);
    s += "\n";
    for (int i = 0 ; i < p->kidCount ; i++) s += show(p->kids[i], indent + 1);
    return s;
}
static std::string show(const Event& e) { return format("step %d.%d with exception %d, message %s, %d active handlers", e.id, e.where, e.code, quote(e.msg, 60).c_str(), e.handlers); }

/* Handlers tell exceptions apart by their codes. */
static void expectCodesOfTheirOwn()
{
    static const struct { const char* name; int code; } all[] = {
#define X(N) {#N, N}
        X(noException), X(bufferOverrunException), X(invalidHexDigitException), X(invalidValueException), X(invalidArgumentException), X(undefinedException), X(unpredictableException),
        X(outOfMemoryException), X(busErrorException), X(alignmentException), X(bkptException), X(badResponseException), X(serialException), X(hardwareBreakpointException),
        X(hardwareWatchpointException), X(socketException), X(fileException), X(coverageException), X(elfFormatException), X(fileFormatException), X(stackOverflowException)
#undef X
    };
    size_t a = below(sizeof(all) / sizeof(all[0])), b = below(sizeof(all) / sizeof(all[0]));
    if (a != b) REQUIRE(all[a].code != all[b].code, "%s and %s have the same code, %d", all[a].name, all[b].name, all[a].code);
}

static void prop_C28()
{
    reset();
    if (chance(2)) expectCodesOfTheirOwn();
    Program prog;
    const TcNode* root;
    std::vector<const TcNode*> top;
    for (unsigned i = 0 ; i == 0 || more(50, i, 4) ; i++) top.push_back(prog.tryBlock());
    root = prog.node(TC_SEQ, 0, "", top);
    if (wantNote()) note("%s", show(root).c_str());
    Meaning m;
    m.limit = g_limit = 3000;
    m.handlers = 1;
    m.exec(root);
    if (m.stopped) discard();
    g_got.clear();
    tc_trace = onTrace;
    Result r = call([=] { tc_exec(root); });
    for (size_t i = 0 ; i < m.out.size() || i < g_got.size() ; i++)
    {
        REQUIRE(i < g_got.size(), "step %zu: expected %s, but nothing more happened (%s)", i, show(m.out[i]).c_str(), r.text().c_str());
        REQUIRE(i < m.out.size(), "step %zu: %s, but nothing more should have happened", i, show(g_got[i]).c_str());
        REQUIRE(g_got[i] == m.out[i], "step %zu: %s, expected %s", i, show(g_got[i]).c_str(), show(m.out[i]).c_str());
    }
    REQUIRE(!r.threw, "an exception which was caught escaped: %s", r.text().c_str());
    REQUIRE(guard_pendingCode() == m.pending, "exception code %d is pending afterwards, expected %d", guard_pendingCode(), m.pending);
    if (m.handled > 2) label("3+ exceptions handled");
    if (prog.maxDepth > 3) label("nested 4+ deep");
    if (m.handled > 0 && prog.tries > 1) nontrivial();
}

/* ------------------------------------------------------------------ C29 */
static void prop_C29()
{
    reset();
    std::string file = path("file");
    remove(file.c_str());
    if (chance(3))
    {
        /* Something of which the size cannot be told. */
        REQUIRE(mkfifo(file.c_str(), 0600) == 0, "mkfifo failed");
        FILE* f = hook_fopen(file.c_str(), "r+");
        if (!f) discard();
        volatile long size = 0;
        volatile long* ps = &size;
        Result r = call([=] { *ps = GetFileSize(f); });
        REQUIRE(r.threw && r.code == fileException, "the size of a pipe: %s (%ld) instead of a file exception", r.text().c_str(), size);
        REQUIRE(openFiles() == 1, "the file was closed");
        hook_fclose(f);
        remove(file.c_str());
        label("pipe");
        return;
    }
    uint64_t total;
    std::string content;
    bool sparse = chance(15);
    if (sparse)
    {
        total = chance(50) ? 0x7FFFFFF0ull + below(32) : chance(50) ? 0xFFFFFFF0ull + below(32) : draw(0x100000000000ull);
        writeFile(file, "start");
        if (truncate(file.c_str(), (off_t)total) != 0) discard();
        content = "start";
        content.resize(std::min<uint64_t>(total, 5));
        label("sparse, huge");
    }
    else
    {
        content = bytes(chance(5) ? 4090 + below(12) : size(chance(10) ? 70000 : 600));
        total = content.size();
        writeFile(file, content);
    }
    bool writing = chance(25);
    const char* mode = writing ? (chance(50) ? "r+b" : "a+b") : "rb";
    FILE* f = hook_fopen(file.c_str(), mode);
    REQUIRE(f != nullptr, "cannot open the file");
    /* Get the file into some state. */
    std::string did;
    bool wrote = false;
    for (unsigned i = 0 ; more(65, i, 6) ; i++)
    {
        /* Going from writing to reading takes a seek. */
        if (wrote && i + 1 < 6 && chance(60)) { fseek(f, 0, SEEK_CUR); wrote = false; }
        switch (below(writing ? 6 : 5))
        {
        case 0: { wrote = false; long to = (long)draw(total + 3); fseek(f, to, SEEK_SET); did += format(" seek %ld", to); break; }
        case 1: { if (wrote) break; char b[5000]; size_t n = size(sizeof(b)); size_t got = fread(b, 1, n, f); did += format(" read %zu of %zu", got, n); break; }
        case 2: { if (wrote) break; int c = getc(f); if (c != EOF && chance(50)) ungetc(c, f); did += " getc"; break; }
        case 3: wrote = false; fseek(f, 0, SEEK_END); getc(f); did += " end of file"; break;
        case 4: wrote = false; fseek(f, 0, SEEK_SET); did += " rewind"; break;
        default:
        {
            /* Written, but perhaps still in the buffer. */
            std::string s = bytes(1 + below(300));
            fseek(f, 0, SEEK_END);
            if (fwrite(s.data(), 1, s.size(), f) != s.size()) discard();
            total += s.size();
            wrote = true;
            if (!sparse) content += s;
            did += format(" append %zu", s.size());
            label("written to before");
            break;
        }
        }
    }
    note("file of %llu bytes, mode %s, then:%s", (unsigned long long)total, mode, did.c_str());
    if (chance(20))
    {
        uint64_t step = 1 + below(3);
        fileFailAt = fileOps + step;
        volatile long size = 0;
        volatile long* ps = &size;
        Result r = call([=] { *ps = GetFileSize(f); });
        fileFailAt = 0;
        static const char* names[] = {"seeking to the end", "telling the position", "seeking back"};
        /* Not all three steps need to be made by functions which can fail. */
        if (fileFaulted) REQUIRE(r.threw && r.code == fileException, "%s failed: %s (%ld) instead of a file exception", names[step - 1], r.text().c_str(), size);
        REQUIRE(openFiles() == 1, "the file was closed when %s failed", names[step - 1]);
        label("a step failed");
    }
    volatile long size = -2;
    volatile long* ps = &size;
    Result r = call([=] { *ps = GetFileSize(f); });
    REQUIRE(!r.threw, "getting the size of a file of %llu bytes raised %s", (unsigned long long)total, r.text().c_str());
    REQUIRE(size == (long)total, "the size of a file of %llu bytes is reported as %ld", (unsigned long long)total, size);
    REQUIRE(openFiles() == 1, "the file was closed");
    REQUIRE(ftell(f) == 0, "the file is left at %ld", ftell(f));
    std::string back(content.size() + (sparse ? 0 : 1), '\0');
    size_t got = fread(&back[0], 1, back.size(), f);
    REQUIRE(got == content.size() && back.compare(0, got, content) == 0, "%zu bytes could be read afterwards, expected %zu bytes from the start of the file", got, content.size());
    hook_fclose(f);
    struct stat st;
    REQUIRE(stat(file.c_str(), &st) == 0 && (uint64_t)st.st_size == total, "the file has another size afterwards");
    if (!sparse) REQUIRE(readFile(file) == content, "the file has other contents afterwards");
    remove(file.c_str());
    REQUIRE(liveBlocks() == 0, "%zu allocation(s) not released", liveBlocks());
    if (total == 0) label("empty");
    if (!did.empty() && total) nontrivial();
}

void addLibProps(std::vector<Property>& v)
{
    v.push_back({"C28", prop_C28, 1200000, 10000000,
        "Random programs of up to 60 nested try/catch blocks (three forms), throws with and without messages, rethrows, throws of the pending code, clears, calls and loops, run with the real macros and by an interpreter of "
        "their meaning; every step's exception code, message and number of active handlers is compared. Non-trivial: at least two blocks and one handled exception.", {}});
    v.push_back({"C29", prop_C29, 1200000, 2000000,
        "Files of 0 bytes to 16 TB (sparse), opened for reading or appending, sought, read, written and at end of file before the size is asked for, with each step failing now and then, and pipes. Non-trivial: not empty and used before.", {}});
}
