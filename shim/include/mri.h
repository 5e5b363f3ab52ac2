#ifndef SHIM_MRI_H_
#define SHIM_MRI_H_
#ifdef __cplusplus
extern "C" {
#endif
void __mriInit(const char* pDebuggerParameters);
void __mriDebugException(void);
#ifdef __cplusplus
}
#endif
#define MRI_ERROR_INVALID_ARGUMENT       "E01"
#define MRI_ERROR_MEMORY_ACCESS_FAILURE  "E03"
#define MRI_ERROR_BUFFER_OVERRUN         "E04"
#define MRI_ERROR_NO_FREE_BREAKPOINT     "E05"
#endif
