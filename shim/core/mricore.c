/* Stand-in for the mri debug-monitor core (empty submodule in this checkout), written from the observable behaviour
   of the core linked into the prebuilt bins/lin64/CrashDebug.  It owns the GDB remote packet protocol and calls the
   Platform_* functions which /repo/libCrashDebug/src/mriPlatform.c implements.  It is trusted, not under test. */
#include <mri.h>
#include <core.h>
#include <gdb_console.h>
#include <platforms.h>
#include <semihost.h>
#include <string.h>
#include "../mri/include/try_catch.h"

int __mriExceptionCode;

/* ---------------------------------------------------------------- Buffer */
static void fail(int code) { __mriExceptionCode = code; }
static void clear(void)    { __mriExceptionCode = noException; }

void Buffer_Init(Buffer* p, char* pStart, size_t size)
{
    p->pStart = pStart;
    p->pEnd = pStart + size;
    p->pCurrent = pStart;
}
void Buffer_Reset(Buffer* p)          { p->pCurrent = p->pStart; }
void Buffer_SetEndOfBuffer(Buffer* p) { p->pEnd = p->pCurrent; }
size_t Buffer_BytesLeft(Buffer* p)    { return p->pCurrent > p->pEnd ? 0 : (size_t)(p->pEnd - p->pCurrent); }
int Buffer_OverrunDetected(Buffer* p) { return p->pCurrent > p->pEnd; }
char* Buffer_GetArray(Buffer* p)      { return p->pStart; }
size_t Buffer_GetLength(Buffer* p)    { return (size_t)(p->pEnd - p->pStart); }

static int ensure(Buffer* p, size_t n)
{
    if (Buffer_BytesLeft(p) >= n && !Buffer_OverrunDetected(p))
        return 1;
    p->pCurrent = p->pEnd + 1;
    fail(bufferOverrunException);
    return 0;
}

void Buffer_WriteChar(Buffer* p, char c)
{
    clear();
    if (!ensure(p, 1))
        return;
    *p->pCurrent++ = c;
}

char Buffer_ReadChar(Buffer* p)
{
    clear();
    if (!ensure(p, 1))
        return 0;
    return *p->pCurrent++;
}

static const char g_hex[] = "0123456789abcdef";

void Buffer_WriteByteAsHex(Buffer* p, uint8_t byte)
{
    clear();
    if (!ensure(p, 2))
        return;
    *p->pCurrent++ = g_hex[byte >> 4];
    *p->pCurrent++ = g_hex[byte & 0xF];
}

static int hexVal(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

uint8_t Buffer_ReadByteAsHex(Buffer* p)
{
    int hi, lo;
    clear();
    if (!ensure(p, 2))
        return 0;
    hi = hexVal(p->pCurrent[0]);
    lo = hexVal(p->pCurrent[1]);
    if (hi < 0 || lo < 0)
    {
        fail(invalidHexDigitException);
        return 0;
    }
    p->pCurrent += 2;
    return (uint8_t)((hi << 4) | lo);
}

void Buffer_WriteSizedString(Buffer* p, const char* pString, size_t length)
{
    clear();
    if (!ensure(p, length))
        return;
    memcpy(p->pCurrent, pString, length);
    p->pCurrent += length;
}
void Buffer_WriteString(Buffer* p, const char* pString) { Buffer_WriteSizedString(p, pString, strlen(pString)); }

void Buffer_WriteUIntegerAsHex(Buffer* p, uint32_t value)
{
    int shift = 24;
    while (shift > 0 && (value >> shift) == 0)
        shift -= 8;
    for (; shift >= 0 ; shift -= 8)
    {
        Buffer_WriteByteAsHex(p, (uint8_t)(value >> shift));
        if (__mriExceptionCode)
            return;
    }
}

uint32_t Buffer_ReadUIntegerAsHex(Buffer* p)
{
    uint32_t value = 0;
    int      count = 0;
    clear();
    while (Buffer_BytesLeft(p) > 0 && !Buffer_OverrunDetected(p))
    {
        int v = hexVal(*p->pCurrent);
        if (v < 0)
            break;
        value = (value << 4) | (uint32_t)v;
        p->pCurrent++;
        count++;
    }
    if (count == 0)
        fail(invalidValueException);
    return value;
}

int Buffer_IsNextCharEqualTo(Buffer* p, char thisChar)
{
    if (Buffer_BytesLeft(p) == 0 || *p->pCurrent != thisChar)
        return 0;
    p->pCurrent++;
    return 1;
}

int Buffer_MatchesString(Buffer* p, const char* pString, size_t length)
{
    const char* pCurr = p->pCurrent;
    if (Buffer_BytesLeft(p) < length || memcmp(pCurr, pString, length) != 0)
        return 0;
    if (Buffer_BytesLeft(p) > length && pCurr[length] != ':')
        return 0;
    p->pCurrent += length;
    return 1;
}

/* ---------------------------------------------------------------- Core state */
#define FLAG_SUCCESSFUL_INIT 1
#define FLAG_FIRST_EXCEPTION 2

#define HANDLER_RETURN_RESUME_PROGRAM     1
#define HANDLER_RETURN_SKIP_SEND_RESPONSE 2

static struct
{
    Buffer   buffer;
    uint32_t flags;
    uint8_t  signalValue;
} g_mri;

void __mriInit(const char* pDebuggerParameters)
{
    Token tokens;
    memset(&g_mri, 0, sizeof(g_mri));
    memset(&tokens, 0, sizeof(tokens));
    Platform_Init(&tokens);
    g_mri.flags = FLAG_SUCCESSFUL_INIT | FLAG_FIRST_EXCEPTION;
}

int IsFirstException(void)    { return (g_mri.flags & FLAG_FIRST_EXCEPTION) != 0; }
int WasSuccessfullyInit(void) { return (g_mri.flags & FLAG_SUCCESSFUL_INIT) != 0; }

static void initBuffer(void)
{
    Buffer_Init(&g_mri.buffer, Platform_GetPacketBuffer(), Platform_GetPacketBufferSize());
}

/* ---------------------------------------------------------------- Packets */
static void packetGet(Buffer* p)
{
    char* pEnd = p->pEnd;
    for (;;)
    {
        char    c;
        uint8_t sum = 0;
        int     hi, lo;

        /* Find start of a packet. */
        do
        {
            c = (char)Platform_CommReceiveChar();
        } while (c != '$');
    restart:
        p->pEnd = pEnd;
        Buffer_Reset(p);
        sum = 0;
        c = (char)Platform_CommReceiveChar();
        while (Buffer_BytesLeft(p) > 0 && c != '$' && c != '#')
        {
            sum += (uint8_t)c;
            Buffer_WriteChar(p, c);
            c = (char)Platform_CommReceiveChar();
        }
        if (c == '$')
            goto restart;
        if (c != '#')
            continue;
        hi = hexVal((char)Platform_CommReceiveChar());
        lo = hexVal((char)Platform_CommReceiveChar());
        if (Platform_CommHasReceiveData())
            continue;
        if (hi < 0 || lo < 0 || ((hi << 4) | lo) != sum)
        {
            Platform_CommSendChar('-');
            continue;
        }
        Platform_CommSendChar('+');
        break;
    }
    Buffer_SetEndOfBuffer(p);
    Buffer_Reset(p);
}

static void packetSend(Buffer* p)
{
    char c;
    do
    {
        uint8_t sum = 0;
        char*   pCurr;
        Platform_CommSendChar('$');
        for (pCurr = p->pStart ; pCurr < p->pEnd ; pCurr++)
        {
            sum += (uint8_t)*pCurr;
            Platform_CommSendChar(*pCurr);
        }
        Platform_CommSendChar('#');
        Platform_CommSendChar(g_hex[sum >> 4]);
        Platform_CommSendChar(g_hex[sum & 0xF]);
        do
        {
            c = (char)Platform_CommReceiveChar();
        } while (c == 0x03);
    } while (c != '+' && c != '$');
}

static void prepareStringResponse(const char* pString)
{
    initBuffer();
    Buffer_WriteString(&g_mri.buffer, pString);
}

static void sendPacketToGdb(void)
{
    if (Buffer_OverrunDetected(&g_mri.buffer))
        prepareStringResponse(MRI_ERROR_BUFFER_OVERRUN);
    Buffer_SetEndOfBuffer(&g_mri.buffer);
    packetSend(&g_mri.buffer);
}

/* ---------------------------------------------------------------- Console */
static void sendConsoleOutput(const char* pString)
{
    initBuffer();
    Buffer_WriteChar(&g_mri.buffer, 'O');
    while (*pString)
        Buffer_WriteByteAsHex(&g_mri.buffer, (uint8_t)*pString++);
    if (!Buffer_OverrunDetected(&g_mri.buffer))
        sendPacketToGdb();
}

void WriteStringToGdbConsole(const char* pString) { sendConsoleOutput(pString); }

void WriteHexValueToGdbConsole(uint32_t value)
{
    Buffer buffer;
    char   text[16];
    Buffer_Init(&buffer, text, sizeof(text) - 1);
    Buffer_WriteString(&buffer, "0x");
    Buffer_WriteUIntegerAsHex(&buffer, value);
    *buffer.pCurrent = '\0';
    sendConsoleOutput(text);
}

/* ---------------------------------------------------------------- Commands */
static uint32_t send_T_StopResponse(void)
{
    initBuffer();
    Buffer_WriteChar(&g_mri.buffer, 'T');
    Buffer_WriteByteAsHex(&g_mri.buffer, g_mri.signalValue);
    Platform_WriteTResponseRegistersToBuffer(&g_mri.buffer);
    sendPacketToGdb();
    return HANDLER_RETURN_SKIP_SEND_RESPONSE;
}

static int parseTwo(Buffer* p, uint32_t* pFirst, uint32_t* pSecond)
{
    *pFirst = Buffer_ReadUIntegerAsHex(p);
    if (__mriExceptionCode || !Buffer_IsNextCharEqualTo(p, ','))
        return 0;
    *pSecond = Buffer_ReadUIntegerAsHex(p);
    return !__mriExceptionCode;
}

/* The real core hands the platform a pointer whose upper 32 bits are those of some unrelated address. */
static void* toPointer(uint32_t address)
{
    return (void*)(((uintptr_t)&g_mri & ~(uintptr_t)0xFFFFFFFFu) | address);
}

static uint32_t readMemory(uint32_t address, uint32_t size, Buffer* pOut)
{
    uint32_t i;
    if (size == 2 && (address & 1) == 0)
    {
        uint16_t v = Platform_MemRead16(toPointer(address));
        if (Platform_WasMemoryFaultEncountered())
            return 0;
        Buffer_WriteByteAsHex(pOut, (uint8_t)v);
        Buffer_WriteByteAsHex(pOut, (uint8_t)(v >> 8));
        return 2;
    }
    if (size == 4 && (address & 3) == 0)
    {
        uint32_t v = Platform_MemRead32(toPointer(address));
        if (Platform_WasMemoryFaultEncountered())
            return 0;
        for (i = 0 ; i < 4 ; i++)
            Buffer_WriteByteAsHex(pOut, (uint8_t)(v >> (8 * i)));
        return 4;
    }
    for (i = 0 ; i < size ; i++)
    {
        uint8_t v = Platform_MemRead8(toPointer(address + i));
        if (Platform_WasMemoryFaultEncountered())
            break;
        Buffer_WriteByteAsHex(pOut, v);
        if (Buffer_OverrunDetected(pOut))
            break;
    }
    return i;
}

static uint32_t handleMemoryRead(void)
{
    uint32_t address, length;
    if (!parseTwo(&g_mri.buffer, &address, &length))
    {
        prepareStringResponse(MRI_ERROR_INVALID_ARGUMENT);
        return 0;
    }
    initBuffer();
    if (readMemory(address, length, &g_mri.buffer) == 0)
        prepareStringResponse(MRI_ERROR_MEMORY_ACCESS_FAILURE);
    return 0;
}

static int readBinaryByte(Buffer* p, uint8_t* pByte)
{
    char c = Buffer_ReadChar(p);
    if (__mriExceptionCode)
        return 0;
    if (c == 0x7d)
    {
        c = Buffer_ReadChar(p) ^ 0x20;
        if (__mriExceptionCode)
            return 0;
    }
    *pByte = (uint8_t)c;
    return 1;
}

static int readHexByte(Buffer* p, uint8_t* pByte)
{
    *pByte = Buffer_ReadByteAsHex(p);
    return !__mriExceptionCode;
}

static int writeMemory(Buffer* p, uint32_t address, uint32_t size, int (*readByte)(Buffer*, uint8_t*))
{
    uint32_t i;
    if ((size == 2 && (address & 1) == 0) || (size == 4 && (address & 3) == 0))
    {
        uint32_t value = 0;
        for (i = 0 ; i < size ; i++)
        {
            uint8_t b;
            if (!readByte(p, &b))
                return 0;
            value |= (uint32_t)b << (8 * i);
        }
        if (size == 2)
            Platform_MemWrite16(toPointer(address), (uint16_t)value);
        else
            Platform_MemWrite32(toPointer(address), value);
        return !Platform_WasMemoryFaultEncountered();
    }
    for (i = 0 ; i < size ; i++)
    {
        uint8_t b;
        if (!readByte(p, &b))
            return 0;
        Platform_MemWrite8(toPointer(address + i), b);
        if (Platform_WasMemoryFaultEncountered())
            return 0;
    }
    return 1;
}

static uint32_t handleMemoryWrite(int (*readByte)(Buffer*, uint8_t*))
{
    Buffer*  p = &g_mri.buffer;
    uint32_t address, length;
    if (!parseTwo(p, &address, &length) || !Buffer_IsNextCharEqualTo(p, ':'))
    {
        prepareStringResponse(MRI_ERROR_INVALID_ARGUMENT);
        return 0;
    }
    if (writeMemory(p, address, length, readByte))
        prepareStringResponse("OK");
    else if (Buffer_OverrunDetected(p))
        prepareStringResponse(MRI_ERROR_BUFFER_OVERRUN);
    else
        prepareStringResponse(MRI_ERROR_MEMORY_ACCESS_FAILURE);
    return 0;
}

static uint32_t handleRegisterRead(void)
{
    initBuffer();
    Platform_CopyContextToBuffer(&g_mri.buffer);
    return 0;
}

static uint32_t handleRegisterWrite(void)
{
    Platform_CopyContextFromBuffer(&g_mri.buffer);
    if (Buffer_OverrunDetected(&g_mri.buffer))
        prepareStringResponse(MRI_ERROR_BUFFER_OVERRUN);
    else
        prepareStringResponse("OK");
    return 0;
}

static uint32_t handleResume(int skipSignal)
{
    Buffer* p = &g_mri.buffer;
    if (!Platform_WasProgramCounterModifiedByUser() &&
        Platform_TypeOfCurrentInstruction() == MRI_PLATFORM_INSTRUCTION_HARDCODED_BREAKPOINT)
        Platform_AdvanceProgramCounterToNextInstruction();
    if (skipSignal)
    {
        Buffer_ReadUIntegerAsHex(p);
        if (Buffer_BytesLeft(p) && Buffer_IsNextCharEqualTo(p, ';'))
        {
            uint32_t pc = Buffer_ReadUIntegerAsHex(p);
            if (!__mriExceptionCode)
                Platform_SetProgramCounter(pc);
        }
    }
    else if (Buffer_BytesLeft(p))
    {
        uint32_t pc = Buffer_ReadUIntegerAsHex(p);
        if (!__mriExceptionCode)
            Platform_SetProgramCounter(pc);
    }
    return HANDLER_RETURN_RESUME_PROGRAM | HANDLER_RETURN_SKIP_SEND_RESPONSE;
}

static uint32_t handleBreakpoint(int set)
{
    Buffer*  p = &g_mri.buffer;
    char     type = Buffer_ReadChar(p);
    uint32_t address, kind;
    if (__mriExceptionCode || !Buffer_IsNextCharEqualTo(p, ',') || !parseTwo(p, &address, &kind))
    {
        prepareStringResponse(MRI_ERROR_INVALID_ARGUMENT);
        return 0;
    }
    switch (type)
    {
    case '1':
        set ? Platform_SetHardwareBreakpoint(address, kind) : Platform_ClearHardwareBreakpoint(address, kind);
        break;
    case '2':
        set ? Platform_SetHardwareWatchpoint(address, kind, MRI_PLATFORM_WRITE_WATCHPOINT)
            : Platform_ClearHardwareWatchpoint(address, kind, MRI_PLATFORM_WRITE_WATCHPOINT);
        break;
    case '3':
        set ? Platform_SetHardwareWatchpoint(address, kind, MRI_PLATFORM_READ_WATCHPOINT)
            : Platform_ClearHardwareWatchpoint(address, kind, MRI_PLATFORM_READ_WATCHPOINT);
        break;
    case '4':
        set ? Platform_SetHardwareWatchpoint(address, kind, MRI_PLATFORM_READWRITE_WATCHPOINT)
            : Platform_ClearHardwareWatchpoint(address, kind, MRI_PLATFORM_READWRITE_WATCHPOINT);
        break;
    default:
        prepareStringResponse("");
        return 0;
    }
    prepareStringResponse("OK");
    return 0;
}

static uint32_t sendXferChunk(const char* pData, uint32_t totalSize, uint32_t offset, uint32_t length)
{
    size_t left;
    int    more = 1;
    if (offset > totalSize)
        offset = totalSize;
    initBuffer();
    left = Buffer_BytesLeft(&g_mri.buffer) - 1;
    if (length > left)
        length = (uint32_t)left;
    if (length >= totalSize - offset)
    {
        length = totalSize - offset;
        more = 0;
    }
    Buffer_WriteChar(&g_mri.buffer, more ? 'm' : 'l');
    Buffer_WriteSizedString(&g_mri.buffer, pData + offset, length);
    return 0;
}

static uint32_t handleQuery(void)
{
    static const char memoryMap[] = "memory-map:read::";
    static const char features[] = "features:read:target.xml:";
    Buffer*  p = &g_mri.buffer;
    uint32_t offset, length;
    const char* pXml;

    if (Buffer_MatchesString(p, "Supported", 9))
    {
        initBuffer();
        Buffer_WriteString(&g_mri.buffer, "qXfer:memory-map:read+;qXfer:features:read+;PacketSize=");
        Buffer_WriteUIntegerAsHex(&g_mri.buffer, Platform_GetPacketBufferSize());
        return 0;
    }
    if (Buffer_MatchesString(p, "Xfer", 4))
    {
        size_t left;
        Buffer_IsNextCharEqualTo(p, ':');
        left = Buffer_BytesLeft(p);
        if (left >= sizeof(memoryMap) - 1 && 0 == memcmp(p->pCurrent, memoryMap, sizeof(memoryMap) - 1))
        {
            p->pCurrent += sizeof(memoryMap) - 1;
            if (!parseTwo(p, &offset, &length))
            {
                prepareStringResponse(MRI_ERROR_INVALID_ARGUMENT);
                return 0;
            }
            /* The text first, then its size: the order in which the real core asks. */
            pXml = Platform_GetDeviceMemoryMapXml();
            return sendXferChunk(pXml, Platform_GetDeviceMemoryMapXmlSize(), offset, length);
        }
        if (left >= sizeof(features) - 1 && 0 == memcmp(p->pCurrent, features, sizeof(features) - 1))
        {
            p->pCurrent += sizeof(features) - 1;
            if (!parseTwo(p, &offset, &length))
            {
                prepareStringResponse(MRI_ERROR_INVALID_ARGUMENT);
                return 0;
            }
            pXml = Platform_GetTargetXml();
            return sendXferChunk(pXml, Platform_GetTargetXmlSize(), offset, length);
        }
        prepareStringResponse(MRI_ERROR_INVALID_ARGUMENT);
        return 0;
    }
    prepareStringResponse("");
    return 0;
}

static int handleGDBCommand(void)
{
    uint32_t result = 0;
    char     command;

    initBuffer();
    packetGet(&g_mri.buffer);
    command = Buffer_ReadChar(&g_mri.buffer);
    switch (command)
    {
    case '?': result = send_T_StopResponse(); break;
    case 'c': result = handleResume(0); break;
    case 'C': result = handleResume(1); break;
    case 'F': result = HANDLER_RETURN_RESUME_PROGRAM | HANDLER_RETURN_SKIP_SEND_RESPONSE; break;
    case 's': result = handleResume(0); break;
    case 'S': result = handleResume(1); break;
    case 'g': result = handleRegisterRead(); break;
    case 'G': result = handleRegisterWrite(); break;
    case 'm': result = handleMemoryRead(); break;
    case 'M': result = handleMemoryWrite(readHexByte); break;
    case 'X': result = handleMemoryWrite(readBinaryByte); break;
    case 'q': result = handleQuery(); break;
    case 'Z': result = handleBreakpoint(1); break;
    case 'z': result = handleBreakpoint(0); break;
    default:  prepareStringResponse(""); break;
    }
    if ((result & HANDLER_RETURN_SKIP_SEND_RESPONSE) == 0)
        sendPacketToGdb();
    return result & HANDLER_RETURN_RESUME_PROGRAM;
}

/* ---------------------------------------------------------------- Exceptions */
static void waitForGdb(void)
{
    for (;;)
    {
        int c;
        while (Platform_CommIsWaitingForGdbToConnect())
        {
        }
        c = Platform_CommReceiveChar();
        if (c == '+')
            return;
        Platform_CommWaitForReceiveDataToStop();
        Platform_CommPrepareToWaitForGdbConnection();
    }
}

void __mriDebugException(void)
{
    int waiting = (g_mri.flags & FLAG_FIRST_EXCEPTION) && Platform_CommShouldWaitForGdbConnect();
    int skip = 0;
    int wasSingleStepping = Platform_IsSingleStepping();

    if (Platform_CommCausedInterrupt() && !Platform_CommHasReceiveData())
    {
        Platform_CommClearInterrupt();
        return;
    }
    __mriPlatform_EnteringDebuggerHook();
    if (waiting)
        waitForGdb();
    Platform_EnteringDebugger();
    g_mri.signalValue = Platform_DetermineCauseOfException();
    if (g_mri.signalValue == 5 && Semihost_IsDebuggeeMakingSemihostCall())
        skip = Semihost_HandleSemihostRequest() && !wasSingleStepping;
    if (!skip)
    {
        if (!waiting)
        {
            Platform_DisplayFaultCauseToGdbConsole();
            send_T_StopResponse();
        }
        while (!handleGDBCommand())
        {
        }
    }
    Platform_LeavingDebugger();
    __mriPlatform_LeavingDebuggerHook();
    g_mri.flags &= ~(uint32_t)FLAG_FIRST_EXCEPTION;
}
