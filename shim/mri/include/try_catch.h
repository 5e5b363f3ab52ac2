/* Stand-in for mri/include/try_catch.h (the mri submodule is empty in this checkout).
   Only the exception codes are needed: CrashDebug asks for them alone with MRI_SKIP_TRY_CATCH_MACRO_DEFINES.
   Values match the prebuilt bins/lin64/CrashDebug. */
#ifndef SHIM_MRI_TRY_CATCH_H_
#define SHIM_MRI_TRY_CATCH_H_

#define noException                         0
#define bufferOverrunException              1
#define invalidHexDigitException            2
#define invalidValueException               3
#define invalidArgumentException            4
#define timeoutException                    5
#define invalidIndexException               6
#define notFoundException                   7
#define exceededHardwareResourcesException  8
#define invalidDecDigitException            9
#define memFaultException                   10
#define mriMaxException                     15

#endif
