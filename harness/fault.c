// LD_PRELOAD fault injector for the command-line checks of C04.
// Counts the read or write calls on files below FAULT_PREFIX and makes the
// FAULT_N-th one (0-based) fail with FAULT_ERRNO (or, FAULT_ERRNO=0, transfer
// only half of the data). FAULT_STICKY=1: all later calls fail as well.
// Writes "<reads> <writes> <fired>" to FAULT_LOG at every counted call.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int ready, mode, err, sticky, logfd = -1;
static long n, reads, writes, fired;
static char prefix[PATH_MAX];
static size_t plen;

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *p = getenv("FAULT_PREFIX");
  if (!p) { mode = 0; plen = 0; return; }
  strncpy(prefix, p, sizeof prefix - 1);
  plen = strlen(prefix);
  const char *m = getenv("FAULT_MODE");
  mode = m ? m[0] : 0;  // 'r', 'w' or 'n' (only count)
  n = getenv("FAULT_N") ? atol(getenv("FAULT_N")) : -1;
  err = getenv("FAULT_ERRNO") ? atoi(getenv("FAULT_ERRNO")) : EIO;
  sticky = getenv("FAULT_STICKY") ? atoi(getenv("FAULT_STICKY")) : 0;
  const char *l = getenv("FAULT_LOG");
  if (l) logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_CLOEXEC, 0600);
}

static int ours(int fd) {
  init();
  if (!plen || fd <= 2 || fd == logfd) return 0;
  char link[64], path[PATH_MAX];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(link, path, sizeof path - 1);
  if (k <= 0) return 0;
  path[k] = 0;
  return strncmp(path, prefix, plen) == 0;
}

static void note(void) {
  if (logfd < 0) return;
  char b[80];
  int k = snprintf(b, sizeof b, "%ld %ld %ld\n", reads, writes, fired);
  syscall(SYS_pwrite64, logfd, b, (size_t)k, 0L);
}

// 0: go on, 1: fail with errno set, 2: transfer only a part
static int count(int fd, char kind) {
  if (!ours(fd)) return 0;
  long k = kind == 'r' ? reads++ : writes++;
  int r = 0;
  if (mode == kind && n >= 0 && (k == n || (sticky && k > n))) {
    fired++;
    if (err == 0) r = 2;
    else { errno = err; r = 1; }
  }
  int e = errno;
  note();
  errno = e;
  return r;
}

static size_t part(size_t len) { return len > 1 ? len / 2 : len; }

ssize_t read(int fd, void *b, size_t len) {
  int c = count(fd, 'r');
  if (c == 1) return -1;
  return syscall(SYS_read, fd, b, len);
}
ssize_t write(int fd, const void *b, size_t len) {
  int c = count(fd, 'w');
  if (c == 1) return -1;
  return syscall(SYS_write, fd, b, c == 2 ? part(len) : len);
}
ssize_t readv(int fd, const struct iovec *v, int k) {
  if (count(fd, 'r') == 1) return -1;
  return syscall(SYS_readv, fd, v, k);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (count(fd, 'w') == 1) return -1;
  return syscall(SYS_writev, fd, v, k);
}
ssize_t pread64(int fd, void *b, size_t len, off64_t o) {
  if (count(fd, 'r') == 1) return -1;
  return syscall(SYS_pread64, fd, b, len, o);
}
ssize_t pwrite64(int fd, const void *b, size_t len, off64_t o) {
  int c = count(fd, 'w');
  if (c == 1) return -1;
  return syscall(SYS_pwrite64, fd, b, c == 2 ? part(len) : len, o);
}
ssize_t pread(int fd, void *b, size_t len, off_t o) { return pread64(fd, b, len, o); }
ssize_t pwrite(int fd, const void *b, size_t len, off_t o) { return pwrite64(fd, b, len, o); }
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t len, unsigned f) {
  if (count(a, 'r') == 1 || count(b, 'w') == 1) return -1;
  return syscall(SYS_copy_file_range, a, ao, b, bo, len, f);
}
ssize_t sendfile64(int b, int a, off64_t *o, size_t len) {
  if (count(a, 'r') == 1 || count(b, 'w') == 1) return -1;
  return syscall(SYS_sendfile, b, a, o, len);
}
ssize_t sendfile(int b, int a, off_t *o, size_t len) { return sendfile64(b, a, o, len); }
int fsync(int fd) {
  if (count(fd, 'w') == 1) return -1;
  return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
  if (count(fd, 'w') == 1) return -1;
  return (int)syscall(SYS_fdatasync, fd);
}
