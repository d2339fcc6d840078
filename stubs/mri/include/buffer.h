#ifndef STUB_BUFFER_H_
#define STUB_BUFFER_H_
#include <stddef.h>
#include <stdint.h>
typedef struct { char* pStart; char* pEnd; char* pCurrent; } Buffer;
void    __mriBuffer_Init(Buffer* pBuffer, char* pBufferStart, size_t bufferSize);
void    __mriBuffer_WriteChar(Buffer* pBuffer, char c);
char    __mriBuffer_ReadChar(Buffer* pBuffer);
void    __mriBuffer_WriteByteAsHex(Buffer* pBuffer, uint8_t byte);
uint8_t __mriBuffer_ReadByteAsHex(Buffer* pBuffer);
void    __mriBuffer_WriteString(Buffer* pBuffer, const char* pString);
#define Buffer_Init            __mriBuffer_Init
#define Buffer_WriteChar       __mriBuffer_WriteChar
#define Buffer_ReadChar        __mriBuffer_ReadChar
#define Buffer_WriteByteAsHex  __mriBuffer_WriteByteAsHex
#define Buffer_ReadByteAsHex   __mriBuffer_ReadByteAsHex
#define Buffer_WriteString     __mriBuffer_WriteString
#endif
