/* C23: the standard I/O channel. */
#include "props.h"
#include "env.h"
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>
extern "C" {
#include "console.h"
#include <IComm.h>
#include <StandardIComm.h>
#include <platforms.h>
void mriPlatform_setWaitForGdbConnect(int setting);
}

using namespace pbt;
using namespace env;

static IComm* startComm()
{
    IComm* volatile p = nullptr;
    IComm* volatile* pp = &p;
    Result r = call([=] { *pp = StandardIComm_Init(); });
    REQUIRE(!r.threw && p, "starting the channel gave %s", r.text().c_str());
    return p;
}

/* What the debug monitor uses: the channel behind the platform's functions.  A short session tells the platform which channel it is,
   answered by this stand-in; from then on everything is handed to the channel under test. */
static IComm*      g_behind;
static const char* g_script;
static int  bridgeHas(IComm*) { return g_behind ? IComm_HasReceiveData(g_behind) : 0; }
static int  bridgeGet(IComm*) { return g_behind ? IComm_ReceiveChar(g_behind) : *g_script ? *g_script++ : '+'; }
static void bridgePut(IComm*, int c) { if (g_behind) IComm_SendChar(g_behind, c); }
static int  bridgeStop(IComm*) { return 1; }
static int  bridgeConnected(IComm*) { return g_behind ? IComm_IsGdbConnected(g_behind) : 1; }
static ICommVTable g_bridgeTable = {bridgeHas, bridgeGet, bridgePut, bridgeStop, bridgeConnected};
static IComm       g_bridge = {&g_bridgeTable};

static void bridge()
{
    static RegisterContext context;
    g_behind = nullptr;
    g_script = "+$c#63";
    IMemory* mem = memInit();
    Result r = call([=] {
        mriPlatform_setWaitForGdbConnect(1);
        mriPlatform_Init(&context, mem);
        mriPlatform_Run(&g_bridge);
    });
    REQUIRE(!r.threw, "a session which only resumes gave %s", r.text().c_str());
    memUninit(mem);
}

/* stdin and stdout of this process replaced by both ends of a connection to GDB. */
struct Wire
{
    int saved[2], gdbOut = -1, gdbIn = -1;
    Wire(bool sockets)
    {
        int a[2], b[2];
        fflush(stdout);
        if ((sockets ? socketpair(AF_UNIX, SOCK_STREAM, 0, a) : pipe(a)) || (sockets ? socketpair(AF_UNIX, SOCK_STREAM, 0, b) : pipe(b))) { perror("pipe"); abort(); }
        for (int i = 0 ; i < 2 ; i++) saved[i] = fcntl(i, F_DUPFD_CLOEXEC, 20);
        dup2(a[0], 0);
        dup2(b[1], 1);
        close(a[0]);
        close(b[1]);
        gdbOut = a[1];
        gdbIn = b[0];
        /* A byte which is missing is then an error instead of waiting for ever. */
        fcntl(0, F_SETFL, fcntl(0, F_GETFL) | O_NONBLOCK);
        fcntl(gdbIn, F_SETFL, fcntl(gdbIn, F_GETFL) | O_NONBLOCK);
    }
    ~Wire()
    {
        endInput();
        hangUp();
        for (int i = 0 ; i < 2 ; i++) { dup2(saved[i], i); close(saved[i]); }
        console_reset();
    }
    void arrive(const std::string& s) { if (write(gdbOut, s.data(), s.size()) != (ssize_t)s.size()) { perror("write"); abort(); } }
    void endInput() { if (gdbOut >= 0) close(gdbOut); gdbOut = -1; }
    void hangUp() { if (gdbIn >= 0) close(gdbIn); gdbIn = -1; }
    std::string taken()
    {
        std::string s;
        char b[256];
        ssize_t n;
        while (gdbIn >= 0 && (n = read(gdbIn, b, sizeof(b))) > 0) s.append(b, (size_t)n);
        return s;
    }
};

/* The same with the console of the program itself (main/MockDefaults.c) connected to a GDB which is played by the check. */
static void overPipes()
{
    bool bridged = chance(50);
    if (bridged) { bridge(); label("through the platform"); }
    label("console of the program");
    Wire wire(chance(50));
    console_real = 1;
    std::string pending, sent, seen;
    bool connected = false, ended = false, hung = false;
    unsigned got = 0, all = 0;
    IComm* comm = startComm();
    g_behind = comm;
    std::vector<unsigned> w = swarm({6, 6, 6, 6, 1, 6, 1, 1, 1, 1});
    for (unsigned i = 0 ; i < 2 || more(95, i, 60) ; i++)
    {
        bool p = bridged && chance(60);
        volatile int v = 0, code = 0;
        volatile int *pv = &v, *pcode = &code;
        IComm* c = comm;
        switch (weighted(w))
        {
        case 0: case 3:
        {
            bool ask = chance(50);
            Result r = call([=] {
                if (ask) *pv = p ? (int)Platform_CommHasReceiveData() : IComm_HasReceiveData(c);
                else *pv = p ? !Platform_CommIsWaitingForGdbToConnect() : IComm_IsGdbConnected(c);
                *pcode = guard_pendingCode();
            });
            note(ask ? "has data?" : "connected?");
            REQUIRE(!r.threw && !code, "asking for %s gave %s, exception code %d pending", ask ? "data" : "the connection", r.text().c_str(), code);
            bool avail = !pending.empty();
            if (!ask && connected) avail = true;
            else if (!avail && ended) break;      /* whether the end itself counts as data depends on the system */
            REQUIRE((v != 0) == avail, ask ? "data is%s reported to be available, but %zu byte(s) are" : "GDB is%s reported to be connected; %zu byte(s) are available", v ? "" : " not", pending.size());
            break;
        }
        case 1:
        {
            if (pending.empty() && !ended) break;
            Result r = call([=] { *pv = p ? Platform_CommReceiveChar() : IComm_ReceiveChar(c); });
            if (pending.empty())
            {
                note("receive: end");
                REQUIRE(r.threw && r.code == fileException, "reading at the end of the input gave %s instead of a file exception", r.text().c_str());
                break;
            }
            uint8_t expect = (uint8_t)pending[0];
            note("receive %02x", expect);
            REQUIRE(!r.threw, "receiving %02x raised %s", expect, r.text().c_str());
            REQUIRE((uint8_t)v == expect, "received %02x, expected %02x", (uint8_t)v, expect);
            pending.erase(0, 1);
            connected = true;
            got++;
            break;
        }
        case 2:
        {
            uint8_t b = u8();
            int     arg = chance(30) ? (int)(signed char)b : (int)b;
            Result r = call([=] { if (p) Platform_CommSendChar(arg); else IComm_SendChar(c, arg); });
            note("send %02x", b);
            if (hung) { REQUIRE(r.threw && r.code == fileException, "sending to a closed connection gave %s instead of a file exception", r.text().c_str()); break; }
            REQUIRE(!r.threw, "sending %02x raised %s", b, r.text().c_str());
            sent += (char)b;
            all++;
            break;
        }
        case 4:
            note("restart");
            if (chance(50)) call([=] { StandardIComm_Uninit(c); });
            comm = startComm();
            g_behind = comm;
            connected = false;
            break;
        case 5:
        {
            if (ended) break;
            std::string s = bytes(size(20));
            note("%zu byte(s) arrive: %s", s.size(), hexdump(s.data(), s.size()).c_str());
            wire.arrive(s);
            pending += s;
            break;
        }
        case 6:
            if (!chance(20)) break;
            note("end of input");
            wire.endInput();
            ended = true;
            break;
        case 7:
            if (!chance(20) || hung) break;
            note("output closed");
            seen += wire.taken();
            wire.hangUp();
            hung = true;
            break;
        case 9:
        {
            /* Every use of the input is an error for a while. */
            note("input unusable");
            int kept = fcntl(0, F_DUPFD_CLOEXEC, 20);
            close(0);
            Result r = call([=] {
                *pv = p ? (int)Platform_CommHasReceiveData() : IComm_HasReceiveData(c);
                *pv = (*pv ? 1 : 0) + 2 * ((p ? !Platform_CommIsWaitingForGdbToConnect() : IComm_IsGdbConnected(c)) ? 1 : 0);
                *pcode = guard_pendingCode();
            });
            Result rr = call([=] { (void)(p ? Platform_CommReceiveChar() : IComm_ReceiveChar(c)); });
            dup2(kept, 0);
            close(kept);
            REQUIRE(!r.threw && !code, "asking for data from an unusable input gave %s, exception code %d pending", r.text().c_str(), code);
            REQUIRE(!(v & 1), "data is reported to be available although the input can't be used");
            REQUIRE((v >> 1) == (int)connected, "GDB is%s reported to be connected while the input can't be used", v >> 1 ? "" : " not");
            REQUIRE(rr.threw && rr.code == fileException, "reading from an unusable input gave %s instead of a file exception", rr.text().c_str());
            label("console of the program fails");
            break;
        }
        default:
        {
            Result r = call([=] { *pv = IComm_ShouldStopRun(c); });
            REQUIRE(!r.threw && v == 0, "the channel asks for the run to stop");
            break;
        }
        }
        seen += wire.taken();
        REQUIRE(seen == sent, "GDB was sent %s, expected %s", hexdump(seen.data(), seen.size()).c_str(), hexdump(sent.data(), sent.size()).c_str());
    }
    /* What is left arrives as well. */
    while (!pending.empty())
    {
        volatile int v = 0;
        volatile int* pv = &v;
        IComm* c = comm;
        Result r = call([=] { *pv = IComm_ReceiveChar(c); });
        REQUIRE(!r.threw && (uint8_t)v == (uint8_t)pending[0], "receiving the rest gave %s, %02x instead of %02x", r.text().c_str(), (uint8_t)v, (uint8_t)pending[0]);
        pending.erase(0, 1);
        got++;
    }
    IComm* c = comm;
    call([=] { StandardIComm_Uninit(c); });
    REQUIRE(liveBlocks() == 0, "%zu block(s) still held", liveBlocks());
    if (got > 1 && all > 1) nontrivial();
}

static void prop_C23()
{
    reset();
    console_reset();
    if (chance(15)) { overPipes(); return; }
    bool platform = chance(50);
    if (platform) { bridge(); label("through the platform"); }
    std::string input = bytes(size(60)), sent;
    size_t read = 0;
    bool   connected = false;
    console_in = (const unsigned char*)input.data();
    console_inSize = input.size();
    console_inVisible = below((uint32_t)input.size() + 1);
    IComm* comm = startComm();
    g_behind = comm;
    std::vector<unsigned> w = swarm({6, 6, 6, 6, 2, 3, 2, 3});
    static const int codes[] = {fileException, fileException, busErrorException, bufferOverrunException, stackOverflowException};
    unsigned faults = 0, got = 0;
    for (unsigned i = 0 ; i < 2 || more(95, i, 60) ; i++)
    {
        int code = chance(15) ? codes[below(5)] : 0;
        bool p = platform && chance(60);
        /* What is pending from before must not matter, nor be there afterwards. */
        switch (weighted(w))
        {
        case 0:
        {
            console_failAvail = code;
            console_avail = chance(10) ? (int)range(1, 300) : -1;
            int avail = console_avail >= 0 ? console_avail : read < std::min(console_inVisible, input.size());
            volatile int v = 0, pending = 0;
            volatile int *pv = &v, *pp = &pending;
            Result r = call([=] { *pv = p ? (int)Platform_CommHasReceiveData() : IComm_HasReceiveData(comm); *pp = guard_pendingCode(); });
            note("has data? %s", code ? "console fails" : avail ? "yes" : "no");
            REQUIRE(!r.threw, "asking for data raised %s", r.text().c_str());
            REQUIRE((v != 0) == (!code && avail), "data is%s reported to be available, but %s", v ? "" : " not", code ? "the console failed" : avail ? "there is some" : "there is none");
            REQUIRE(!pending, "an exception code (%d) is pending after asking for data", pending);
            console_failAvail = 0;
            console_avail = -1;
            faults += code != 0;
            break;
        }
        case 1:
        {
            if (read >= input.size() && !code) { console_inEnd = chance(50) ? CONSOLE_END_THROW : CONSOLE_END_ZERO; }
            bool atEnd = read >= input.size();
            console_failRead = code;
            volatile int v = 0;
            volatile int* pv = &v;
            Result r = call([=] { *pv = p ? Platform_CommReceiveChar() : IComm_ReceiveChar(comm); });
            console_failRead = 0;
            int want = code ? code : atEnd && console_inEnd == CONSOLE_END_THROW ? (int)fileException : 0;
            note("receive: %s", want ? "console fails" : atEnd ? "end" : format("%02x", (uint8_t)input[read]).c_str());
            if (want)
            {
                REQUIRE(r.threw && r.code == want, "a failing read ended with %s instead of exception %d", r.text().c_str(), want);
                faults++;
                break;
            }
            REQUIRE(!r.threw, "receiving raised %s", r.text().c_str());
            uint8_t expect = atEnd ? 0 : (uint8_t)input[read];
            REQUIRE((uint8_t)v == expect, "received %02x, expected %02x (byte %zu)", (uint8_t)v, expect, read);
            if (!atEnd) read++;
            connected = true;
            got++;
            break;
        }
        case 2:
        {
            uint8_t b = u8();
            int     arg = chance(30) ? (int)(signed char)b : (int)b;
            console_failWrite = code;
            Result r = call([=] { if (p) Platform_CommSendChar(arg); else IComm_SendChar(comm, arg); });
            console_failWrite = 0;
            note("send %02x%s", b, code ? ": console fails" : "");
            if (code) { REQUIRE(r.threw && r.code == code, "a failing write ended with %s instead of exception %d", r.text().c_str(), code); faults++; }
            else { REQUIRE(!r.threw, "sending raised %s", r.text().c_str()); sent += (char)b; }
            break;
        }
        case 3:
        {
            console_failAvail = code;
            bool avail = !code && read < std::min(console_inVisible, input.size());
            volatile int v = 0, pending = 0;
            volatile int *pv = &v, *pp = &pending;
            Result r = call([=] { *pv = p ? !Platform_CommIsWaitingForGdbToConnect() : IComm_IsGdbConnected(comm); *pp = guard_pendingCode(); });
            console_failAvail = 0;
            note("connected? %d", connected || avail);
            REQUIRE(!r.threw, "asking for the connection raised %s", r.text().c_str());
            REQUIRE((v != 0) == (connected || avail), "GDB is%s reported to be connected, but %s", v ? "" : " not",
                    connected ? "a byte was received" : avail ? "data is available" : code ? "nothing was received and the console failed" : "nothing was received or is available");
            REQUIRE(!pending, "an exception code (%d) is pending after asking for the connection", pending);
            break;
        }
        case 4:
        {
            note("restart");
            if (chance(50)) { IComm* c = comm; call([=] { StandardIComm_Uninit(c); }); }
            comm = startComm();
            g_behind = comm;
            connected = false;
            break;
        }
        case 5:
            console_inVisible = std::min<size_t>(input.size(), console_inVisible + 1 + below(10));
            break;
        case 6:
            console_inVisible = std::min<size_t>(input.size(), std::max(read, (size_t)0));
            break;
        default:
        {
            volatile int v = 0;
            volatile int* pv = &v;
            Result r = call([=] { *pv = IComm_ShouldStopRun(comm); });
            REQUIRE(!r.threw && v == 0, "the channel asks for the run to stop");
            break;
        }
        }
        REQUIRE(console_inPos == read, "%zu bytes were taken from the console, expected %zu", console_inPos, read);
        REQUIRE(console_outSize == sent.size() && memcmp(console_out, sent.data(), sent.size()) == 0,
                "the console was sent %s, expected %s", hexdump(console_out, console_outSize).c_str(), hexdump(sent.data(), sent.size()).c_str());
    }
    IComm* c = comm;
    call([=] { StandardIComm_Uninit(c); });
    REQUIRE(liveBlocks() == 0, "%zu block(s) still held", liveBlocks());
    console_reset();
    if (faults) label("console failures");
    if (got > 1 && sent.size() > 1) nontrivial();
}

void addCommProps(std::vector<Property>& v)
{
    v.push_back({"C23", prop_C23, 6000000, 200000000,
        "Histories of up to 60 availability checks, receives, sends, connection checks, arrivals of data and new sessions over a model console holding 0-60 bytes of any value, 15% of the calls with a failing console; in half of the cases most calls are made through the platform functions which the debug monitor uses. In 15% of the cases the console is the one of the program itself with its stdin and stdout connected to pipes or sockets: bytes arrive in groups, the input ends, the output is closed. Non-trivial: more than one byte received and sent.", {}});
}
