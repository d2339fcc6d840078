#ifndef STUB_CORE_H_
#define STUB_CORE_H_
#include <buffer.h>
int     __mriCore_WasSuccessfullyInit(void);
int     __mriCore_IsFirstException(void);
void    __mriDebugException(void);
#define WasSuccessfullyInit __mriCore_WasSuccessfullyInit
#define IsFirstException    __mriCore_IsFirstException
#endif
