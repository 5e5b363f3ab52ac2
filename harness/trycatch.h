#ifndef TRYCATCH_H_
#define TRYCATCH_H_
#ifdef __cplusplus
extern "C" {
#endif
enum { TC_SEQ, TC_TRY, TC_THROW, TC_THROW_MSG, TC_RETHROW, TC_CLEAR, TC_MARK, TC_CALL, TC_TRY_STATEMENT, TC_TRY_AND_CATCH, TC_NOTHROW, TC_THROW_PENDING_MSG, TC_LOOP };
typedef struct TcNode
{
    int                   kind;
    int                   id;
    int                   code;         /* exception, depth of calls, repetitions */
    const char*           text;
    int                   kidCount;
    const struct TcNode** kids;         /* SEQ: statements; TRY: body, handler; CALL, LOOP: what to do */
} TcNode;
void tc_exec(const TcNode* p);
/* Called at every step with what can be observed there. */
extern void (*tc_trace)(int id, int where, int code, const char* message, int handlers);
int tc_handlers(void);
#ifdef __cplusplus
}
#endif
#endif
