/* LD_PRELOAD: injects faults into calls on files below given directories and records them.

   FAULT_OUT   prefix of files that are written      FAULT_IN  prefix of files that are read
   FAULT_LOG   file for the record of all calls      FAULT_PLAN  at:kind,at:kind,...
   at counts the recorded calls from 1. Kinds: fail (EIO), full (ENOSPC, this and all later
   calls that need space), intr (EINTR), short (half of the bytes), zero (no bytes), eof (a read at the end),
   closed (as fail, and all later calls on the file fail) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static char *paths[MAXFD]; /* files that are observed */
static char mode[MAXFD];   /* 'w' or 'r' */
static char broken[MAXFD];
static const char *out, *in, *plan;
static int logfd = -1, count, full, ready;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;

static int (*r_open)(const char *, int, ...);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_read)(int, void *, size_t);
static int (*r_close)(int);

static void init(void) {
  if (ready) return;
  r_open = dlsym(RTLD_NEXT, "open64");
  r_write = dlsym(RTLD_NEXT, "write");
  r_writev = dlsym(RTLD_NEXT, "writev");
  r_pwrite = dlsym(RTLD_NEXT, "pwrite64");
  r_read = dlsym(RTLD_NEXT, "read");
  r_close = dlsym(RTLD_NEXT, "close");
  out = getenv("FAULT_OUT");
  in = getenv("FAULT_IN");
  plan = getenv("FAULT_PLAN");
  const char *l = getenv("FAULT_LOG");
  if (l) logfd = r_open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  ready = 1;
}

/* kind of the fault in the next call */
static const char *next(char *buf, size_t n) {
  ++count;
  buf[0] = 0;
  for (const char *p = plan; p && *p;) {
    char *e;
    long at = strtol(p, &e, 10);
    size_t k = 0;
    char kind[16];
    if (*e == ':') ++e;
    while (*e && *e != ',' && k + 1 < sizeof kind) kind[k++] = *e++;
    kind[k] = 0;
    if (at == count) snprintf(buf, n, "%s", kind);
    p = *e == ',' ? e + 1 : e;
  }
  return buf;
}

static void record(const char *op, const char *path, long long want, long long got) {
  char b[4600];
  int n = snprintf(b, sizeof b, "%s\t%lld\t%lld\t%s\n", op, want, got, path);
  if (logfd >= 0 && n > 0) r_write(logfd, b, n);
}

static int below(const char *dir, const char *path) { return dir && *dir && !strncmp(dir, path, strlen(dir)); }

static int fault(const char *kind, int fd, int writing) {
  if (writing && full) return ENOSPC;
  if (fd >= 0 && broken[fd]) return EIO;
  if (!strcmp(kind, "fail")) return EIO;
  if (!strcmp(kind, "closed")) {
    if (fd >= 0) broken[fd] = 1;
    return EIO;
  }
  if (writing && !strcmp(kind, "full")) {
    full = 1;
    return ENOSPC;
  }
  if (!strcmp(kind, "intr")) return EINTR;
  return 0;
}

static int do_open(const char *path, int flags, mode_t m) {
  init();
  int w = (flags & O_ACCMODE) != O_RDONLY && below(out, path);
  int r = (flags & O_ACCMODE) == O_RDONLY && !(flags & O_DIRECTORY) && below(in, path);
  if (!w && !r) return r_open(path, flags, m);
  pthread_mutex_lock(&mx);
  char k[16];
  next(k, sizeof k);
  int e = fault(k, -1, w), fd = -1;
  if (!e) {
    fd = r_open(path, flags, m);
    e = errno;
    if (fd >= MAXFD) abort();
    if (fd >= 0) {
      free(paths[fd]);
      paths[fd] = strdup(path);
      mode[fd] = w ? 'w' : 'r';
      broken[fd] = 0;
    }
  }
  record(w ? "create" : "open", path, 0, fd < 0 ? -e : 0);
  pthread_mutex_unlock(&mx);
  errno = e;
  return fd;
}

int open64(const char *path, int flags, ...) {
  va_list a;
  va_start(a, flags);
  mode_t m = flags & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0;
  va_end(a);
  return do_open(path, flags, m);
}
int open(const char *path, int flags, ...) {
  va_list a;
  va_start(a, flags);
  mode_t m = flags & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0;
  va_end(a);
  return do_open(path, flags, m);
}

static int observed(int fd, char m) { return fd >= 0 && fd < MAXFD && paths[fd] && mode[fd] == m; }

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off) {
  pthread_mutex_lock(&mx);
  char k[16];
  next(k, sizeof k);
  int e = fault(k, fd, 1);
  ssize_t res = -1;
  size_t m = n;
  if (!strcmp(k, "short")) m = n > 1 ? n / 2 : n;
  if (!strcmp(k, "zero")) m = 0;
  if (!e) {
    res = m == 0 ? 0 : off < 0 ? r_write(fd, buf, m) : r_pwrite(fd, buf, m, off);
    e = errno;
  }
  record("write", paths[fd], n, res < 0 ? -e : res);
  pthread_mutex_unlock(&mx);
  errno = e;
  return res;
}

ssize_t write(int fd, const void *buf, size_t n) {
  init();
  return observed(fd, 'w') ? do_write(fd, buf, n, -1) : r_write(fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) {
  init();
  return observed(fd, 'w') ? do_write(fd, buf, n, off) : r_pwrite(fd, buf, n, off);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  init();
  if (!observed(fd, 'w')) return r_writev(fd, v, n);
  /* writing less than asked for is allowed */
  for (int i = 0; i < n; ++i)
    if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}

ssize_t read(int fd, void *buf, size_t n) {
  init();
  if (!observed(fd, 'r')) return r_read(fd, buf, n);
  pthread_mutex_lock(&mx);
  char k[16];
  next(k, sizeof k);
  int e = fault(k, fd, 0);
  ssize_t res = -1;
  if (!e) {
    size_t m = !strcmp(k, "short") && n > 1 ? n / 2 : n;
    res = !strcmp(k, "eof") ? 0 : r_read(fd, buf, m);
    e = errno;
  }
  record("read", paths[fd], n, res < 0 ? -e : res);
  pthread_mutex_unlock(&mx);
  errno = e;
  return res;
}

int close(int fd) {
  init();
  pthread_mutex_lock(&mx);
  if (fd >= 0 && fd < MAXFD && paths[fd]) {
    record("close", paths[fd], 0, 0);
    free(paths[fd]);
    paths[fd] = NULL;
  }
  pthread_mutex_unlock(&mx);
  return r_close(fd);
}
