#ifndef SHIM_MRI_SEMIHOST_H_
#define SHIM_MRI_SEMIHOST_H_
#ifdef __cplusplus
extern "C" {
#endif
int Semihost_IsDebuggeeMakingSemihostCall(void);
int Semihost_HandleSemihostRequest(void);
#ifdef __cplusplus
}
#endif
#endif
