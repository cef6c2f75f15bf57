/* runs a program with exactly the environment given: envrun FILE PROGRAM ARGS,
 * FILE holds the entries, each ended by a NUL byte */
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
static char b[1 << 16], *e[4096];
int main(int argc, char **argv) {
  int fd = open(argv[1], O_RDONLY), k = 0;
  long n = read(fd, b, sizeof b - 1), i = 0;
  close(fd);
  while (i < n) { e[k++] = b + i; while (i < n && b[i]) ++i; ++i; }
  e[k] = 0;
  execve(argv[2], argv + 2, e);
  return 99;
}
