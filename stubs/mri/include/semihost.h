#ifndef STUB_SEMIHOST_H_
#define STUB_SEMIHOST_H_
int __mriSemihost_IsDebuggeeMakingSemihostCall(void);
int __mriSemihost_HandleSemihostRequest(void);
#define Semihost_IsDebuggeeMakingSemihostCall __mriSemihost_IsDebuggeeMakingSemihostCall
#define Semihost_HandleSemihostRequest        __mriSemihost_HandleSemihostRequest
#endif
