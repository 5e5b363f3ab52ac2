#ifndef SHIM_MRI_CORE_H_
#define SHIM_MRI_CORE_H_
#include <buffer.h>
#ifdef __cplusplus
extern "C" {
#endif
int IsFirstException(void);
int WasSuccessfullyInit(void);
#ifdef __cplusplus
}
#endif
#endif
