#ifndef STUB_MRI_H_
#define STUB_MRI_H_
#define MRI_ERROR_INVALID_ARGUMENT      "E01"
#define MRI_ERROR_MEMORY_ACCESS_FAILURE "E03"
#define MRI_ERROR_BUFFER_OVERRUN        "E04"
#ifdef __cplusplus
extern "C"
{
#endif
void __mriInit(const char* pDebuggerParameters);
#ifdef __cplusplus
}
#endif
#endif
