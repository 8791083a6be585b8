#pragma once
#include "kernel.h"
namespace sim {
enum { VBASE = 5000 };
struct Inode;
struct VFd {
  enum Kind { SOCK, FILE_, DIR_ } kind = FILE_;
  int owner = 0;
  Inode* ino = nullptr;
  long long pos = 0;
  int flags = 0;
  std::string path;
};
std::map<int, VFd>& vfds();
int vfd_new(const VFd& v);
void sock_close(int fd);
bool hb_stuck();
}
extern "C" {
ssize_t sock_read(int fd, void* b, size_t n);
ssize_t sock_write(int fd, const void* b, size_t n);
}
