// LD_PRELOAD library for C23. Appends every path that was looked up and not
// found to PROBE_LOG, one per line.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static void note(const char *path) {
  int e = errno;
  const char *l = getenv("PROBE_LOG");
  if (e == ENOENT && l && path && *path && !strchr(path, '\n')) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (fd >= 0) {
      struct iovec v[2] = {{(void *)path, strlen(path)}, {"\n", 1}};
      if (writev(fd, v, 2) < 0) {}
      syscall(SYS_close, fd);
    }
  }
  errno = e;
}

#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
#define OPEN(name) int name(const char *path, int flags, ...) { MODE(flags) \
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode); if (fd < 0) note(path); return fd; }
#define OPENAT(name) int name(int dir, const char *path, int flags, ...) { MODE(flags) \
  int fd = (int)syscall(SYS_openat, dir, path, flags, mode); if (fd < 0 && dir == AT_FDCWD) note(path); return fd; }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)

#define STAT(name, T, call, no) int name(const char *path, struct T *st) { int r = (int)call; if (r < 0) note(path); return r; }
STAT(stat, stat, syscall(SYS_newfstatat, AT_FDCWD, path, st, 0), 0)
STAT(stat64, stat64, syscall(SYS_newfstatat, AT_FDCWD, path, st, 0), 0)
STAT(lstat, stat, syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW), 0)
STAT(lstat64, stat64, syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW), 0)

int statx(int dir, const char *path, int flags, unsigned mask, struct statx *st) {
  int r = (int)syscall(SYS_statx, dir, path, flags, mask, st);
  if (r < 0 && dir == AT_FDCWD) note(path);
  return r;
}
int access(const char *path, int mode) {
  int r = (int)syscall(SYS_faccessat, AT_FDCWD, path, mode);
  if (r < 0) note(path);
  return r;
}
int faccessat(int dir, const char *path, int mode, int flags) {
  int r = (int)(flags ? syscall(SYS_faccessat2, dir, path, mode, flags) : syscall(SYS_faccessat, dir, path, mode));
  if (r < 0 && dir == AT_FDCWD) note(path);
  return r;
}
