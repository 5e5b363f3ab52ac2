#ifndef GUARD_H_
#define GUARD_H_
#ifdef __cplusplus
extern "C" {
#endif
typedef struct GuardResult
{
    volatile int completed;     /* the function returned normally */
    volatile int code;          /* exception code if it did not */
    volatile int unbalanced;    /* the handler list was not what it was before */
    volatile int handlers;
    char         message[1024];
} GuardResult;
void guard_run(void (*fn)(void*), void* arg, GuardResult* pResult);
int  guard_pendingCode(void);
void guard_reset(void);
#ifdef __cplusplus
}
#endif
#endif
