#include "client.h"
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ctime>
extern "C" {
#include "console.h"
#include <StandardIComm.h>
#include <mri.h>
void mriPlatform_setWaitForGdbConnect(int setting);
}
extern char** environ;

using namespace pbt;
using namespace env;

namespace client {

std::string frame(const std::string& payload, int badSum)
{
    unsigned sum = 0;
    for (unsigned char c : payload) sum += c;
    sum = (sum + (unsigned)badSum) & 0xFF;
    return "$" + payload + "#" + format("%02x", sum);
}
Step ask(const std::string& payload) { return Step{Step::REPLY, frame(payload), payload}; }

static int nibble(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
bool unhex(const std::string& s, std::string* out)
{
    out->clear();
    if (s.size() % 2) return false;
    for (size_t i = 0 ; i < s.size() ; i += 2)
    {
        int a = nibble(s[i]), b = nibble(s[i + 1]);
        if (a < 0 || b < 0) return false;
        *out += (char)(a << 4 | b);
    }
    return true;
}
std::string hexBytes(const std::string& s, bool anyCase)
{
    std::string o;
    for (unsigned char c : s) o += format("%02x", c);
    return anyCase ? scenario::anyCase(o) : o;
}
std::string escape(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '$' || c == '#' || c == '}' || c == '*') { o += '}'; o += (char)(c ^ 0x20); }
        else o += c;
    }
    return o;
}

void Client::start()
{
    next = 0;
    waiting = expectInitialStop;
    if (expectInitialStop) { replies.push_back(Reply()); }
}

std::string Client::react(const char* p, size_t n)
{
    in.append(p, n);
    std::string send;
    while (!in.empty() && error.empty())
    {
        char c = in[0];
        if (c == '+') { sawAck = true; in.erase(0, 1); continue; }
        if (c == '-')
        {
            in.erase(0, 1);
            naks++;
            if (waiting && next > 0 && steps[next - 1].kind == Step::NAK) { waiting = false; }
            else error = "the server did not accept a well-formed packet";
            continue;
        }
        if (c != '$') { error = "the server sent a byte outside of a packet: " + quote(in, 40); break; }
        size_t e = in.find('#');
        if (e == std::string::npos || e + 3 > in.size()) break;
        std::string payload = in.substr(1, e - 1), sum = in.substr(e + 1, 2);
        in.erase(0, e + 3);
        if (frame(payload).substr(payload.size() + 2) != sum) { error = "a packet has the wrong checksum: " + quote(payload); break; }
        if (!waiting || replies.empty() || (next > 0 && steps[next - 1].kind != Step::REPLY)) { error = "an unexpected packet: " + quote(payload); break; }
        Reply& r = replies.back();
        send += '+';
        std::string text;
        if (payload.size() % 2 == 1 && payload[0] == 'O' && unhex(payload.substr(1), &text))
        {
            r.console += text;
            r.consolePackets++;
        }
        else
        {
            r.payload = payload;
            r.complete = true;
            r.acked = sawAck || r.step < 0;
            waiting = false;
        }
    }
    if (!error.empty()) return "";
    if (!send.empty()) return send;
    if (waiting) return "";
    if (next >= steps.size()) return "";
    Step& s = steps[next++];
    sawAck = false;
    waiting = s.kind == Step::REPLY || s.kind == Step::NAK;
    if (s.kind == Step::REPLY) { replies.push_back(Reply()); replies.back().step = (int)next - 1; }
    return s.bytes;
}

/* ------------------------------------------------------------------ in process */
static Client*     g_client;
static std::string g_chunk, g_tail;
static size_t      g_seen;
static bool        g_tailSent;

static void onRead()
{
    Outside o;
    if (console_inPos < console_inSize) return;
    std::string s = g_client->react((const char*)console_out + g_seen, console_outSize - g_seen);
    console_outSize = g_seen = 0;
    if (s.empty() && !g_tailSent && g_client->finished()) { g_tailSent = true; s = g_tail; }
    if (s.empty()) { if (!g_client->finished() && g_client->error.empty()) g_client->stalled = true; }
    g_chunk = s;
    console_in = (const unsigned char*)g_chunk.data();
    console_inSize = g_chunk.size();
    console_inPos = 0;
}

void runInProcess(Client& c, RegisterContext* pContext, IMemory* pMemory, bool wait, const std::string& tail)
{
    console_reset();
    g_client = &c;
    g_seen = 0;
    g_tail = tail;
    g_tailSent = false;
    c.start();
    g_chunk = wait ? c.react("", 0) : "";
    console_in = (const unsigned char*)g_chunk.data();
    console_inSize = g_chunk.size();
    console_onRead = onRead;
    Result r = call([=] {
        IComm* pComm = StandardIComm_Init();
        mriPlatform_setWaitForGdbConnect(wait);
        mriPlatform_Init(pContext, pMemory);
        mriPlatform_Run(pComm);
    });
    c.react((const char*)console_out + g_seen, console_outSize - g_seen);
    console_onRead = nullptr;
    console_in = nullptr;
    console_inSize = console_inPos = 0;
    REQUIRE(r.threw, "the session ended while GDB was still connected");
    REQUIRE(r.code == fileException, "the end of the session was reported by %s instead of a file exception", r.text().c_str());
}

/* ------------------------------------------------------------------ the program itself */
static double seconds()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

ExeResult runProgram(const std::vector<std::string>& args, Client* pClient, const ExeOptions& opt)
{
    ExeResult res;
    const char* exe = getenv("CRASHDEBUG_EXE");
    int in[2], out[2], err[2];
    if (!exe || pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC) || pipe2(err, O_CLOEXEC)) { perror("pipe"); _exit(3); }
    std::vector<char*> argv;
    argv.push_back((char*)exe);
    for (auto& a : args) argv.push_back((char*)a.c_str());
    argv.push_back(nullptr);
    struct rlimit cpu = {3, 4}, space = {512u << 20, 512u << 20};
    pid_t pid = vfork();
    if (pid == 0)
    {
        dup2(in[0], 0);
        dup2(out[1], 1);
        dup2(err[1], 2);
        signal(SIGPIPE, SIG_IGN);       /* a hung up connection is then a failing write */
        setrlimit(RLIMIT_CPU, &cpu);
        setrlimit(RLIMIT_AS, &space);
        execve(exe, argv.data(), environ);
        _exit(126);
    }
    close(in[0]); close(out[1]); close(err[1]);
    if (pid < 0) { perror("vfork"); _exit(3); }
    res.started = true;
    signal(SIGPIPE, SIG_IGN);

    double end = seconds() + opt.seconds;
    bool   inOpen = true, outOpen = true, errOpen = true, tailSent = false;
    auto closeIn = [&] { if (inOpen) { close(in[1]); inOpen = false; } };
    std::string toSend;
    if (pClient) pClient->start();
    char buf[65536];
    while (outOpen || errOpen)
    {
        if (pClient && inOpen)
        {
            /* An acknowledgement and the next packet may go together: the program takes one after the other. */
            while (!pClient->waitingForServer() && !pClient->finished() && pClient->error.empty()) toSend += pClient->react("", 0);
            if (!tailSent && (pClient->finished() || !pClient->error.empty()))
            {
                tailSent = true;
                toSend += opt.tail;
                if (opt.hangUp && outOpen) { close(out[0]); outOpen = false; }
            }
            while (!toSend.empty())
            {
                ssize_t n = write(in[1], toSend.data(), toSend.size());     /* small enough never to block for long: the program reads as we write */
                if (n <= 0) { closeIn(); break; }
                toSend.erase(0, (size_t)n);
            }
            if ((tailSent && !opt.hangUp) || !pClient->error.empty()) closeIn();
        }
        else if (!pClient && !opt.holdInput) closeIn();
        struct pollfd fds[2];
        nfds_t n = 0;
        if (outOpen) fds[n++] = {out[0], POLLIN, 0};
        if (errOpen) fds[n++] = {err[0], POLLIN, 0};
        double left = end - seconds();
        if (left <= 0) { res.timedOut = true; break; }
        int k = poll(fds, n, (int)(left * 1000) + 1);
        if (k < 0 && errno == EINTR) continue;
        for (nfds_t i = 0 ; i < n ; i++)
        {
            if (!fds[i].revents) continue;
            ssize_t got = read(fds[i].fd, buf, sizeof(buf));
            if (got <= 0) { if (fds[i].fd == out[0]) outOpen = false; else errOpen = false; continue; }
            if (fds[i].fd == err[0]) { if (res.err.size() < 1000000) res.err.append(buf, (size_t)got); }
            else
            {
                if (res.out.size() < 1000000) res.out.append(buf, (size_t)got);
                if (pClient) toSend += pClient->react(buf, (size_t)got);
            }
        }
    }
    if (!opt.hangUp) closeIn();
    int st = 0;
    if (res.timedOut) kill(pid, SIGKILL);
    else
    {
        /* Output closed: it must be on its way out. */
        double until = seconds() + 10;
        while (waitpid(pid, &st, WNOHANG) == 0)
        {
            if (seconds() > until) { res.timedOut = true; kill(pid, SIGKILL); break; }
            usleep(500);
        }
        if (res.timedOut) waitpid(pid, &st, 0);
    }
    if (res.timedOut) waitpid(pid, &st, 0);
    closeIn();
    if (!opt.hangUp || outOpen) close(out[0]);
    close(err[0]);
    res.signalled = WIFSIGNALED(st) && !res.timedOut;
    res.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    res.status = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    return res;
}

/* ------------------------------------------------------------------ the model */
int signalFor(uint32_t exceptionPSR)
{
    switch (exceptionPSR & 0xFF)
    {
    case 2: return 2;
    case 3: case 4: return 11;
    case 5: return SIGBUS;
    case 6: return 4;
    case 12: return 5;
    default: return SIGSTOP;
    }
}

std::string hexValue(uint32_t v)
{
    std::string s = format("%x", v);
    return "0x" + (s.size() % 2 ? "0" + s : s);
}

std::string faultText(uint32_t exceptionPSR, const model::Memory& mem)
{
    auto get = [&](uint32_t a, uint32_t* p) {
        uint8_t b[4];
        if (!mem.read(a, 4, b)) return false;
        *p = b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24;
        return true;
    };
    uint32_t cfsr = 0, hfsr = 0, addr = 0;
    bool haveCfsr = get(0xE000ED28, &cfsr);
    std::string s;
    auto add = [&](bool on, const char* t) { if (on) s += std::string("\n    ") + t; };
    auto section = [&](const char* title, uint32_t status) { s += std::string("\n**") + title + "**\n  Status Register: " + hexValue(status); };
    auto address = [&](uint32_t a) { if (get(a, &addr)) s += "\n    Fault Address: " + hexValue(addr); };
    auto mpu = [&] {
        uint32_t v = cfsr & 0xFF;
        if (!haveCfsr || !v) return;
        section("MPU Fault", v);
        if (v & 0x80) address(0xE000ED34);
        add(v & 0x20, "FP Lazy Preservation");
        add(v & 0x10, "Stacking Error");
        add(v & 0x08, "Unstacking Error");
        add(v & 0x02, "Data Access");
        add(v & 0x01, "Instruction Fetch");
    };
    auto bus = [&] {
        uint32_t v = (cfsr >> 8) & 0xFF;
        if (!haveCfsr || !v) return;
        section("Bus Fault", v);
        if (v & 0x80) address(0xE000ED38);
        add(v & 0x20, "FP Lazy Preservation");
        add(v & 0x10, "Stacking Error");
        add(v & 0x08, "Unstacking Error");
        add(v & 0x04, "Imprecise Data Access");
        add(v & 0x02, "Precise Data Access");
        add(v & 0x01, "Instruction Prefetch");
    };
    auto usage = [&] {
        uint32_t v = cfsr >> 16;
        if (!haveCfsr || !v) return;
        section("Usage Fault", v);
        add(v & 0x200, "Divide by Zero");
        add(v & 0x100, "Unaligned Access");
        add(v & 0x08, "Coprocessor Access");
        add(v & 0x04, "Invalid Exception Return State");
        add(v & 0x02, "Invalid State");
        add(v & 0x01, "Undefined Instruction");
    };
    switch (exceptionPSR & 0xFF)
    {
    case 3:
        s += "\n**Hard Fault**";
        if (get(0xE000ED2C, &hfsr))
        {
            s += "\n  Status Register: " + hexValue(hfsr);
            add(hfsr & 0x80000000u, "Debug Event");
            add(hfsr & 2, "Vector Table Read");
            if (hfsr & 0x40000000u) { add(true, "Forced"); mpu(); bus(); usage(); }
        }
        break;
    case 4: mpu(); break;
    case 5: bus(); break;
    case 6: usage(); break;
    default: return "";
    }
    return s + "\n";
}

static std::string word(uint32_t v) { return format("%02x%02x%02x%02x", v & 0xFF, (v >> 8) & 0xFF, (v >> 16) & 0xFF, v >> 24); }
std::string Device::registers() const
{
    std::string s;
    for (int i = 0 ; i < TOTAL_REG_COUNT ; i++) s += word(ctx->R[i]);
    if (ctx->flags & CRASH_CATCHER_FLAGS_FLOATING_POINT) for (int i = 0 ; i < TOTAL_FPREG_COUNT ; i++) s += word(ctx->FPR[i]);
    return s;
}
int Device::signal() const { return signalFor(ctx->exceptionPSR); }
std::string Device::stop() const
{
    std::string s = format("T%02x", signal());
    for (int i = 12 ; i < 16 ; i++) s += format("%02x:", i) + word(ctx->R[i]) + ";";
    return s;
}
std::string Device::faultText() const { return client::faultText(ctx->exceptionPSR, *mem); }

std::string Device::readMemory(uint32_t address, uint32_t n) const
{
    std::string s;
    uint8_t b[4];
    if ((n == 2 && address % 2 == 0) || (n == 4 && address % 4 == 0))
    {
        if (!mem->read(address, n, b)) return MRI_ERROR_MEMORY_ACCESS_FAILURE;
        for (uint32_t i = 0 ; i < n ; i++) s += format("%02x", b[i]);
        return s;
    }
    for (uint32_t i = 0 ; i < n ; i++)
    {
        if (!mem->read(address + i, 1, b)) break;
        s += format("%02x", b[0]);
    }
    return s.empty() ? MRI_ERROR_MEMORY_ACCESS_FAILURE : s;
}

std::string Device::writeMemory(uint32_t address, const std::string& data)
{
    uint32_t n = (uint32_t)data.size();
    if ((n == 2 && address % 2 == 0) || (n == 4 && address % 4 == 0))
        return mem->write(address, n, (const uint8_t*)data.data()) ? "OK" : MRI_ERROR_MEMORY_ACCESS_FAILURE;
    for (uint32_t i = 0 ; i < n ; i++)
        if (!mem->write(address + i, 1, (const uint8_t*)&data[i])) return MRI_ERROR_MEMORY_ACCESS_FAILURE;
    return "OK";
}

} /* namespace client */
