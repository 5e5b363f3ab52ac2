#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

#define CHECK(X) do { if (!(X)) { printf("line %d: %s\n", __LINE__, #X); exit(1); } } while (0)
/* The code of the exception which the expression throws, or 0. */
#define THROWN(X) ({ volatile int code_ = 0; __try { X; } __catch { code_ = getExceptionCode(); clearExceptionCode(); } code_; })

static inline void put32(uint8_t* p, uint32_t v)
{
    int i;
    for (i = 0; i < 4; i++)
        p[i] = v >> (8 * i);
}

static inline void writeFile(const char* name, const void* p, size_t n)
{
    FILE* f = fopen(name, "wb");
    if (!f || fwrite(p, 1, n, f) != n || fclose(f))
        exit(2);
}
