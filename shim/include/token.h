#ifndef SHIM_MRI_TOKEN_H_
#define SHIM_MRI_TOKEN_H_
#include <stddef.h>
typedef struct
{
    const char* tokenPointers[10];
    const char* pTokenSeparators;
    size_t      tokenCount;
    char        copyOfString[64 + 1];
} Token;
#endif
