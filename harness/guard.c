/* Runs a function of the code under test the way the program does: inside one of its own try blocks. */
#include <string.h>
#include <try_catch.h>
#include "guard.h"

static int activeHandlers(void)
{
    int n = 0;
    ExceptionHandler* p = g_pExceptionHandlers;
    while (p && n < 100)
    {
        n++;
        p = p->pPrevious;
    }
    return n;
}

void guard_run(void (*fn)(void*), void* arg, GuardResult* pResult)
{
    void* volatile       top = g_pExceptionHandlers;
    GuardResult* volatile pRes = pResult;

    pRes->completed = 0;
    pRes->code = 0;
    pRes->message[0] = 0;
    pRes->unbalanced = 0;
    __try
    {
        fn(arg);
        pRes->completed = 1;
    }
    __catch
    {
    }
    if (g_pExceptionHandlers != top)
    {
        pRes->unbalanced = 1;
        g_pExceptionHandlers = (ExceptionHandler*)top;
    }
    if (!pRes->completed)
    {
        pRes->code = getExceptionCode();
        memcpy(pRes->message, g_exceptionMessage, sizeof(pRes->message));
        pRes->message[sizeof(pRes->message) - 1] = 0;
    }
    pRes->handlers = activeHandlers();
}

int guard_pendingCode(void) { return getExceptionCode(); }

void guard_reset(void)
{
    g_pExceptionHandlers = 0;
    g_exceptionCode = 0;
    g_exceptionMessage[0] = 0;
}
