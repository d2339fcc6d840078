#ifndef STUB_TOKEN_H_
#define STUB_TOKEN_H_
#include <stddef.h>
typedef struct { size_t tokenCount; } Token;
#endif
