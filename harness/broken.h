/* Command lines with something wrong with them. */
#ifndef BROKEN_H_
#define BROKEN_H_
#include "scenario.h"
struct Expected { int code; std::vector<std::string> parts; };      /* code 0: any */
struct Broken
{
    std::vector<std::string> args;
    std::vector<Expected>    want;              /* all that is wrong; any of it may be reported */
    bool                     unspecified = false;
};
Broken makeBroken();        /* writes the files, too */
#endif
