/* A lock-step GDB remote protocol client, and a model of what a crashed device answers. */
#ifndef CLIENT_H_
#define CLIENT_H_
#include "scenario.h"

namespace client {

struct Step
{
    enum Kind { CONNECT, REPLY, NAK, NONE } kind;
    std::string bytes;              /* as sent, with framing */
    std::string text;               /* what was asked, for messages */
};
struct Reply
{
    int         step = -1;          /* index of the step it answers; -1: sent before anything was asked */
    std::string console;            /* text of the O packets before it */
    unsigned    consolePackets = 0;
    std::string payload;
    bool        complete = false;   /* the reply has arrived */
    bool        acked = false;      /* a + came before it */
};

std::string frame(const std::string& payload, int badSum = 0);
Step ask(const std::string& payload);

/* The client's side of the conversation; used in process and over pipes. */
struct Client
{
    std::vector<Step>  steps;
    bool               expectInitialStop = false;
    std::vector<Reply> replies;
    std::string        error;       /* protocol violation by the server */
    bool               stalled = false;
    unsigned           naks = 0;

    void start();
    /* Take what the server has sent.  Returns what the client sends now; "" when it has nothing (more) to say. */
    std::string react(const char* p, size_t n);
    bool finished() const { return next >= steps.size() && !waiting; }
    bool waitingForServer() const { return waiting; }

    size_t      next = 0;
    bool        waiting = false;
    std::string in;                 /* received and not yet used */
    bool        sawAck = false;
    std::string o;
    unsigned    oCount = 0;
};

/* Run a session in this process: StandardIComm, mriPlatform and the monitor core over the in-memory console.  The session must
   end by the file exception when the client has no more to say. */
void runInProcess(Client& c, RegisterContext* pContext, IMemory* pMemory, bool waitForConnect = true, const std::string& tail = "");

/* Run the program itself.  */
struct ExeResult
{
    bool        started = false, timedOut = false, signalled = false;
    int         status = 0, signal = 0;
    std::string out, err;           /* for runs without a session: all output */
};
struct ExeOptions
{
    bool   session = true;
    std::string tail;               /* sent at the end, before closing */
    bool   holdInput = false;       /* keep stdin open and silent: the program must end by itself */
    bool   hangUp = false;          /* at the end stop taking output, with stdin left open, and send the tail */
    double seconds = 25;
};
ExeResult runProgram(const std::vector<std::string>& args, Client* pClient, const ExeOptions& o);

/* The device as GDB should see it. */
struct Device
{
    RegisterContext* ctx;           /* expected registers */
    model::Memory*   mem;           /* expected memory */
    std::string registers() const;
    std::string stop() const;
    std::string faultText() const;
    int         signal() const;
    std::string features;           /* target.xml text, when known */
    std::string map;                /* memory map text, when known */
    std::string readMemory(uint32_t address, uint32_t n) const;
    std::string writeMemory(uint32_t address, const std::string& data);
};
std::string faultText(uint32_t exceptionPSR, const model::Memory& mem);
int         signalFor(uint32_t exceptionPSR);
std::string hexValue(uint32_t v);
std::string hexBytes(const std::string& s, bool anyCase = false);
std::string escape(const std::string& s);       /* X packet data */
bool        unhex(const std::string& s, std::string* out);

} /* namespace client */
#endif
