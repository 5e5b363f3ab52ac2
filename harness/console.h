#ifndef CONSOLE_DOUBLE_H_
#define CONSOLE_DOUBLE_H_
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { CONSOLE_END_THROW, CONSOLE_END_ZERO, CONSOLE_OUT_SIZE = 1 << 20 };
extern const unsigned char* console_in;
extern size_t               console_inSize, console_inPos, console_inVisible;
extern int                  console_inEnd;
extern unsigned char        console_out[CONSOLE_OUT_SIZE];
extern size_t               console_outSize;
extern int                  console_avail, console_failAvail, console_failRead, console_failWrite;
extern unsigned             console_calls[3];
extern void               (*console_onRead)(void);
extern int                  console_real;   /* use the functions of the program itself, on its stdin and stdout */
void console_reset(void);
#ifdef __cplusplus
}
#endif
#endif
