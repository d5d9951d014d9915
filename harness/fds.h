#pragma once
#include <fcntl.h>
inline int open_fds() {
  int n = 0;
  for (int i = 0; i < 512; i++) n += fcntl(i, F_GETFD) != -1;
  return n;
}
