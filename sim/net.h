#pragma once
#include <sys/types.h>
namespace dst {
bool netIs(int fd);
int netClose(int fd);
ssize_t netRecv(int fd, void* b, size_t n, int flags);
ssize_t netSend(int fd, const void* b, size_t n, int flags);
int netFcntl(int fd, int cmd, long arg);
}
