/* The console of the program, in memory. */
#include <stdint.h>
#include <Console.h>
#include "console.h"

const unsigned char* console_in;
size_t               console_inSize;
size_t               console_inPos;
size_t               console_inVisible = (size_t)-1;    /* bytes which have "arrived" */
int                  console_inEnd = CONSOLE_END_THROW;
unsigned char        console_out[CONSOLE_OUT_SIZE];
size_t               console_outSize;
int                  console_avail = -1;                /* >= 0: the availability reported */
int                  console_failAvail, console_failRead, console_failWrite;   /* exception code to throw, 0 = none */
unsigned             console_calls[3];
void               (*console_onRead)(void);
int                  console_real;

/* main/MockDefaults.c, compiled with its names changed. */
int  program_Console_HasStdInDataToRead(void);
int  program_Console_ReadStdIn(void);
void program_Console_WriteStdOut(int character);

void console_reset(void)
{
    console_in = 0;
    console_inSize = console_inPos = console_outSize = 0;
    console_inVisible = (size_t)-1;
    console_inEnd = CONSOLE_END_THROW;
    console_avail = -1;
    console_failAvail = console_failRead = console_failWrite = 0;
    console_calls[0] = console_calls[1] = console_calls[2] = 0;
    console_onRead = 0;
    console_real = 0;
}

static size_t visible(void) { return console_inVisible < console_inSize ? console_inVisible : console_inSize; }

int Console_HasStdInDataToRead(void)
{
    if (console_real)
        return program_Console_HasStdInDataToRead();
    console_calls[0]++;
    if (console_failAvail)
        __throw(console_failAvail);
    if (console_avail >= 0)
        return console_avail;
    return console_inPos < visible();
}

int Console_ReadStdIn(void)
{
    if (console_real)
        return program_Console_ReadStdIn();
    console_calls[1]++;
    if (console_failRead)
        __throw(console_failRead);
    if (console_onRead)
        console_onRead();
    if (console_inPos >= console_inSize)
    {
        if (console_inEnd == CONSOLE_END_ZERO)
            return 0;
        __throw(fileException);
    }
    return (char)console_in[console_inPos++];
}

void Console_WriteStdOut(int character)
{
    if (console_real)
    {
        program_Console_WriteStdOut(character);
        return;
    }
    console_calls[2]++;
    if (console_failWrite)
        __throw(console_failWrite);
    if (console_outSize < CONSOLE_OUT_SIZE)
        console_out[console_outSize++] = (unsigned char)character;
}
