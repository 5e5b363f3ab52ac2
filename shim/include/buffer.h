/* Stand-in for mri's buffer.h. */
#ifndef SHIM_MRI_BUFFER_H_
#define SHIM_MRI_BUFFER_H_
#include <stddef.h>
#include <stdint.h>
typedef struct
{
    char* pStart;
    char* pEnd;
    char* pCurrent;
} Buffer;

#ifdef __cplusplus
extern "C" {
#endif
extern int __mriExceptionCode;
void     Buffer_Init(Buffer* pBuffer, char* pBufferStart, size_t bufferSize);
void     Buffer_Reset(Buffer* pBuffer);
void     Buffer_SetEndOfBuffer(Buffer* pBuffer);
size_t   Buffer_BytesLeft(Buffer* pBuffer);
int      Buffer_OverrunDetected(Buffer* pBuffer);
char*    Buffer_GetArray(Buffer* pBuffer);
size_t   Buffer_GetLength(Buffer* pBuffer);
void     Buffer_WriteChar(Buffer* pBuffer, char character);
char     Buffer_ReadChar(Buffer* pBuffer);
void     Buffer_WriteByteAsHex(Buffer* pBuffer, uint8_t byte);
uint8_t  Buffer_ReadByteAsHex(Buffer* pBuffer);
void     Buffer_WriteString(Buffer* pBuffer, const char* pString);
void     Buffer_WriteSizedString(Buffer* pBuffer, const char* pString, size_t length);
void     Buffer_WriteUIntegerAsHex(Buffer* pBuffer, uint32_t value);
uint32_t Buffer_ReadUIntegerAsHex(Buffer* pBuffer);
int      Buffer_IsNextCharEqualTo(Buffer* pBuffer, char thisChar);
int      Buffer_MatchesString(Buffer* pBuffer, const char* pString, size_t stringLength);
#ifdef __cplusplus
}
#endif
#endif
