/* Stand-in for mri/include/try_catch.h (the mri submodule is empty here): exception code constants only. The values
   were read from the DWARF macro information of /repo/bins/lin64/CrashDebug. */
#ifndef STUB_MRI_TRY_CATCH_H_
#define STUB_MRI_TRY_CATCH_H_
#define noException                         0
#define bufferOverrunException              1
#define invalidHexDigitException            2
#define invalidValueException               3
#define invalidArgumentException            4
#define timeoutException                    5
#define invalidIndexException               6
#define notFoundException                   7
#define exceededHardwareResourcesException  8
#define invalidDecDigitException            9
#define memFaultException                   10
#define mriMaxException                     15
#endif
