#ifndef SHIM_MRI_GDB_CONSOLE_H_
#define SHIM_MRI_GDB_CONSOLE_H_
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void WriteStringToGdbConsole(const char* pString);
void WriteHexValueToGdbConsole(uint32_t value);
#ifdef __cplusplus
}
#endif
#endif
