// LD_PRELOAD library for C25 and C17. Lets the monotonic clock run CLOCK_FACTOR
// times as fast and jump ahead ("CLOCK_JUMPS=<real seconds>:<seconds> ..."), and
// appends every file below CLOCK_PREFIX that has been written and
// closed (or moved there) to CLOCK_LOG: "<path length> <length>\n<path>\n<content>\n".
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static pthread_once_t once = PTHREAD_ONCE_INIT;
static double factor = 1;
static struct timespec base;
static double jump_at[16], jump_by[16];
static int jumps;
static char prefix[PATH_MAX], logname[PATH_MAX];
static size_t plen;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static void init(void) {
  const char *f = getenv("CLOCK_FACTOR"), *p = getenv("CLOCK_PREFIX"), *l = getenv("CLOCK_LOG");
  if (f) factor = atof(f);
  const char *j = getenv("CLOCK_JUMPS");
  int k;
  while (j && jumps < 16 && sscanf(j, " %lf:%lf%n", &jump_at[jumps], &jump_by[jumps], &k) == 2) { j += k; ++jumps; }
  if (p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); }
  if (l) strncpy(logname, l, sizeof logname - 1);
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &base);
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  pthread_once(&once, init);
  long r = syscall(SYS_clock_gettime, id, ts);
  if (r != 0) return -1;
  if (id == CLOCK_MONOTONIC || id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC_RAW) {
    double ns = (double)(ts->tv_sec - base.tv_sec) * 1e9 + (double)(ts->tv_nsec - base.tv_nsec);
    if (ns < 0) ns = 0;
    __int128 t = (__int128)(ns * factor) + base.tv_nsec;
    for (int i = 0; i < jumps; ++i)
      if (ns >= jump_at[i] * 1e9) t += (__int128)(jump_by[i] * 1e9);
    ts->tv_sec = base.tv_sec + (time_t)(t / 1000000000);
    ts->tv_nsec = (long)(t % 1000000000);
  }
  return 0;
}

static void record(const char *path) {
  if (!plen || !logname[0] || strncmp(path, prefix, plen) != 0) return;
  int (*real_close)(int) = dlsym(RTLD_NEXT, "close");
  pthread_mutex_lock(&lock);
  int in = (int)syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC);
  int out = (int)syscall(SYS_openat, AT_FDCWD, logname, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  if (in >= 0 && out >= 0) {
    struct stat st;
    fstat(in, &st);
    char *b = malloc((size_t)st.st_size + 1);
    ssize_t n = 0, k;
    while (n < st.st_size && (k = read(in, b + n, (size_t)(st.st_size - n))) > 0) n += k;
    dprintf(out, "%zu %zd\n%s\n", strlen(path), n, path);
    for (ssize_t w = 0; w < n;) {
      k = write(out, b + w, (size_t)(n - w));
      if (k <= 0) break;
      w += k;
    }
    if (write(out, "\n", 1) != 1) {}
    free(b);
  }
  if (in >= 0) real_close(in);
  if (out >= 0) real_close(out);
  pthread_mutex_unlock(&lock);
}

int close(int fd) {
  static int (*real)(int);
  if (!real) real = dlsym(RTLD_NEXT, "close");
  pthread_once(&once, init);
  char link[64], path[PATH_MAX];
  ssize_t k = -1;
  if (plen && fd > 2) {
    int fl = fcntl(fd, F_GETFL);
    if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY) {
      snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
      k = readlink(link, path, sizeof path - 1);
    }
  }
  int r = real(fd);
  if (k > 0) {
    path[k] = 0;
    record(path);
  }
  return r;
}

static void moved(const char *to) {
  char path[PATH_MAX];
  if (realpath(to, path)) record(path);
}

int rename(const char *a, const char *b) {
  int (*real)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
  pthread_once(&once, init);
  int r = real(a, b);
  if (r == 0) moved(b);
  return r;
}

int renameat2(int da, const char *a, int db, const char *b, unsigned fl) {
  int (*real)(int, const char *, int, const char *, unsigned) = dlsym(RTLD_NEXT, "renameat2");
  pthread_once(&once, init);
  int r = real(da, a, db, b, fl);
  if (r == 0 && db == AT_FDCWD) moved(b);
  return r;
}
