#ifndef STUB_POSIX4WIN_H_
#define STUB_POSIX4WIN_H_
#include <signal.h>
#endif
