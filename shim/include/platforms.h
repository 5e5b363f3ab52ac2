/* Stand-in for mri's platforms.h: what the mri core asks of a platform. */
#ifndef SHIM_MRI_PLATFORMS_H_
#define SHIM_MRI_PLATFORMS_H_
#include <stdint.h>
#include <buffer.h>
#include <token.h>

typedef enum
{
    MRI_PLATFORM_INSTRUCTION_OTHER = 0,
    MRI_PLATFORM_INSTRUCTION_MBED_SEMIHOST_CALL,
    MRI_PLATFORM_INSTRUCTION_NEWLIB_SEMIHOST_CALL,
    MRI_PLATFORM_INSTRUCTION_HARDCODED_BREAKPOINT
} PlatformInstructionType;

typedef enum
{
    MRI_PLATFORM_WRITE_WATCHPOINT = 0,
    MRI_PLATFORM_READ_WATCHPOINT,
    MRI_PLATFORM_READWRITE_WATCHPOINT
} PlatformWatchpointType;

typedef struct
{
    uint32_t parameter1;
    uint32_t parameter2;
    uint32_t parameter3;
    uint32_t parameter4;
} PlatformSemihostParameters;

#ifdef __cplusplus
extern "C" {
#endif
void        Platform_Init(Token* pParameterTokens);
char*       Platform_GetPacketBuffer(void);
uint32_t    Platform_GetPacketBufferSize(void);
void        Platform_EnteringDebugger(void);
void        Platform_LeavingDebugger(void);
uint32_t    Platform_MemRead32(const void* pv);
uint16_t    Platform_MemRead16(const void* pv);
uint8_t     Platform_MemRead8(const void* pv);
void        Platform_MemWrite32(void* pv, uint32_t value);
void        Platform_MemWrite16(void* pv, uint16_t value);
void        Platform_MemWrite8(void* pv, uint8_t value);
uint32_t    Platform_CommHasReceiveData(void);
int         Platform_CommReceiveChar(void);
void        Platform_CommSendChar(int character);
int         Platform_CommCausedInterrupt(void);
void        Platform_CommClearInterrupt(void);
int         Platform_CommShouldWaitForGdbConnect(void);
int         Platform_CommSharingWithApplication(void);
void        Platform_CommPrepareToWaitForGdbConnection(void);
int         Platform_CommIsWaitingForGdbToConnect(void);
void        Platform_CommWaitForReceiveDataToStop(void);
uint8_t     Platform_DetermineCauseOfException(void);
void        Platform_DisplayFaultCauseToGdbConsole(void);
void        Platform_EnableSingleStep(void);
void        Platform_DisableSingleStep(void);
int         Platform_IsSingleStepping(void);
void        Platform_SetProgramCounter(uint32_t newPC);
void        Platform_AdvanceProgramCounterToNextInstruction(void);
int         Platform_WasProgramCounterModifiedByUser(void);
int         Platform_WasMemoryFaultEncountered(void);
void        Platform_WriteTResponseRegistersToBuffer(Buffer* pBuffer);
void        Platform_CopyContextToBuffer(Buffer* pBuffer);
void        Platform_CopyContextFromBuffer(Buffer* pBuffer);
uint32_t    Platform_GetDeviceMemoryMapXmlSize(void);
const char* Platform_GetDeviceMemoryMapXml(void);
uint32_t    Platform_GetTargetXmlSize(void);
const char* Platform_GetTargetXml(void);
void        Platform_SetHardwareBreakpoint(uint32_t address, uint32_t kind);
void        Platform_ClearHardwareBreakpoint(uint32_t address, uint32_t kind);
void        Platform_SetHardwareWatchpoint(uint32_t address, uint32_t size, PlatformWatchpointType type);
void        Platform_ClearHardwareWatchpoint(uint32_t address, uint32_t size, PlatformWatchpointType type);
PlatformInstructionType    Platform_TypeOfCurrentInstruction(void);
PlatformSemihostParameters Platform_GetSemihostCallParameters(void);
void        Platform_SetSemihostCallReturnAndErrnoValues(int returnValue, int err);
void        __mriPlatform_EnteringDebuggerHook(void);
void        __mriPlatform_LeavingDebuggerHook(void);
#ifdef __cplusplus
}
#endif
#endif
