/* Runs a program made of the exception handling constructs, with the macros of the code under test. */
#include <common.h>
#include "trycatch.h"

void (*tc_trace)(int id, int where, int code, const char* message, int handlers);

int tc_handlers(void)
{
    int n = 0;
    ExceptionHandler* p = g_pExceptionHandlers;
    for ( ; p && n < 100 ; p = p->pPrevious) n++;
    return n;
}

static void mark(int id, int where) { tc_trace(id, where, getExceptionCode(), getExceptionMessage(), tc_handlers()); }

static void doTry(const TcNode* p)
{
    __try
    {
        mark(p->id, 1);
        tc_exec(p->kids[0]);
        mark(p->id, 2);
    }
    __catch
    {
        mark(p->id, 3);
        tc_exec(p->kids[1]);
        mark(p->id, 4);
    }
    mark(p->id, 5);
}

static void doTryStatement(const TcNode* p)
{
    __try
        tc_exec(p->kids[0]);
    __catch
        tc_exec(p->kids[1]);
    mark(p->id, 5);
}

static void doTryAndCatch(const TcNode* p)
{
    __try_and_catch( tc_exec(p->kids[0]) );
    mark(p->id, 5);
}

static void doCall(const TcNode* p, int depth)
{
    volatile char frame[200];
    frame[0] = frame[199] = (char)depth;
    if (depth > 0)
        doCall(p, depth - 1);
    else
        tc_exec(p->kids[0]);
    if (frame[0] != frame[199])
        mark(p->id, 99);
}

static int doNoThrowAndReturn(int v) { __nothrow_and_return(v); }
static void doNoThrow(void) { __nothrow; }

static void doThrow(const TcNode* p) { __throw(p->code); }
static void doThrowMsg(const TcNode* p) { __throw_msg(p->code, "%s/%d", p->text, p->id); }

void tc_exec(const TcNode* p)
{
    int i;
    switch (p->kind)
    {
    case TC_SEQ:
        for (i = 0 ; i < p->kidCount ; i++)
            tc_exec(p->kids[i]);
        break;
    case TC_TRY: doTry(p); break;
    case TC_TRY_STATEMENT: doTryStatement(p); break;
    case TC_TRY_AND_CATCH: doTryAndCatch(p); break;
    case TC_THROW: mark(p->id, 0); doThrow(p); mark(p->id, 98); break;
    case TC_THROW_MSG: mark(p->id, 0); doThrowMsg(p); mark(p->id, 98); break;
    case TC_RETHROW: mark(p->id, 0); __rethrow; mark(p->id, 98); break;
    case TC_THROW_PENDING_MSG: mark(p->id, 0); __throw_msg(getExceptionCode(), "%s", p->text); mark(p->id, 98); break;
    case TC_CLEAR: clearExceptionCode(); mark(p->id, 0); break;
    case TC_MARK: mark(p->id, 0); break;
    case TC_CALL: doCall(p, p->code); mark(p->id, 0); break;
    case TC_LOOP:
    {
        volatile int n;
        for (n = 0 ; n < p->code ; n++)
            tc_exec(p->kids[0]);
        break;
    }
    case TC_NOTHROW:
        doNoThrow();
        if (doNoThrowAndReturn(p->id) != p->id) mark(p->id, 97);
        mark(p->id, 0);
        break;
    }
}
