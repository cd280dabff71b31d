// LD_PRELOAD shim: records the storage I/O (and socket writes) of skyd and injects faults.
// Control and trace live in one mmap'ed file named by SKYFAULT_CTL.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <stddef.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/sysinfo.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define NTRACE 65536
#define MAXFD 4096
enum { OP_WRITE = 1, OP_FSYNC = 2, OP_OPEN = 4, OP_MKDIR = 8, OP_TRUNC = 16, OP_UNLINK = 32, OP_READ = 64, OP_RENAME = 128, OP_SEND = 256 };
enum { CL_GNS = 1, CL_MODEL = 2, CL_OTHER = 4, CL_SOCK = 8 };
enum { ACT_FAIL = 1, ACT_SHORT = 2, ACT_EINTR = 3, ACT_SHORTFAIL = 4, ACT_KILL = 5, ACT_KILLPART = 6, ACT_DELAY = 7, ACT_WRITTEN_FAIL = 8 };

struct ev { uint64_t t; uint32_t op, cls; int32_t fd, err; int64_t off, len; uint64_t ino; };
struct ctl {
  volatile int32_t armed, cls, op, action, err; int32_t pad;
  volatile int64_t skip, count, nbytes, seen, fired;
  volatile uint64_t ntrace;
  volatile int32_t trace_on, trace_cls; // trace filter
  volatile int64_t unused[4];
  struct ev trace[NTRACE];
};
static struct ctl *C;
static unsigned char fdcls[MAXFD];
static uint64_t fdino[MAXFD];
static ssize_t (*r_write)(int, const void *, size_t);
static int (*r_fsync)(int), (*r_fdatasync)(int);
static int (*r_open64)(const char *, int, ...), (*r_open)(const char *, int, ...);
static int (*r_close)(int);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_ftruncate64)(int, off64_t);
static int (*r_unlink)(const char *);

static uint64_t now(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000000ull + ts.tv_nsec; }

__attribute__((constructor)) static void init(void) {
  r_write = dlsym(RTLD_NEXT, "write"); r_fsync = dlsym(RTLD_NEXT, "fsync"); r_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
  r_open64 = dlsym(RTLD_NEXT, "open64"); r_open = dlsym(RTLD_NEXT, "open"); r_close = dlsym(RTLD_NEXT, "close");
  r_mkdir = dlsym(RTLD_NEXT, "mkdir"); r_ftruncate64 = dlsym(RTLD_NEXT, "ftruncate64"); r_unlink = dlsym(RTLD_NEXT, "unlink");
  const char *p = getenv("SKYFAULT_CTL");
  if (!p) return;
  int fd = r_open ? r_open(p, O_RDWR) : -1;
  if (fd < 0) return;
  void *m = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  r_close(fd);
  if (m != MAP_FAILED) C = m;
}
static int cls_of_path(const char *p) {
  size_t n = strlen(p);
  if (n >= 11 && !strcmp(p + n - 11, "gns.db-tlog")) return CL_GNS;
  if (n >= 9 && !strcmp(p + n - 9, ".db-btlog")) return CL_MODEL;
  if (strstr(p, "data/") == p || strstr(p, "/data/")) return CL_OTHER;
  return 0;
}
static void tr(uint32_t op, uint32_t cls, int fd, int64_t off, int64_t len, int err, uint64_t ino) {
  if (!C || !C->trace_on || !(cls & C->trace_cls)) return;
  uint64_t i = __atomic_fetch_add(&C->ntrace, 1, __ATOMIC_SEQ_CST);
  if (i >= NTRACE) return;
  struct ev *e = &C->trace[i];
  e->op = op; e->cls = cls; e->fd = fd; e->off = off; e->len = len; e->err = err; e->ino = ino;
  __atomic_store_n(&e->t, now(), __ATOMIC_RELEASE);
}
// 0: pass through, else the action to take
static int hit(uint32_t op, uint32_t cls) {
  if (!C || !C->armed || !(C->cls & cls) || !(C->op & op)) return 0;
  int64_t s = __atomic_fetch_add(&C->seen, 1, __ATOMIC_SEQ_CST);
  if (s < C->skip) return 0;
  if (C->count >= 0 && s >= C->skip + C->count) return 0;
  __atomic_fetch_add(&C->fired, 1, __ATOMIC_SEQ_CST);
  return C->action;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
static void dly(void) { struct timespec ts = { C->nbytes / 1000000, (C->nbytes % 1000000) * 1000 }; nanosleep(&ts, 0); }

static int opened(int fd, const char *path, int flags) {
  int c = cls_of_path(path);
  if (fd >= 0 && fd < MAXFD) {
    fdcls[fd] = c;
    if (c) { struct stat st; fdino[fd] = fstat(fd, &st) ? 0 : st.st_ino; }
    if (c) tr(OP_OPEN, c, fd, flags, 0, 0, fdino[fd]);
  }
  return fd;
}
#define OPENBODY(REAL) \
  mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  if (flags & O_CREAT) { int a = hit(OP_OPEN, cls_of_path(path)); \
    if (a == ACT_FAIL) { errno = C->err; return -1; } \
    if (a == ACT_KILL) { die(); } if (a == ACT_DELAY) { dly(); } } \
  return opened(REAL(path, flags, mode), path, flags);
int open(const char *path, int flags, ...) { OPENBODY(r_open) }
int open64(const char *path, int flags, ...) { OPENBODY(r_open64) }
int close(int fd) { if (fd >= 0 && fd < MAXFD) fdcls[fd] = 0; return r_close(fd); }
int mkdir(const char *path, mode_t mode) {
  int c = cls_of_path(path);
  if (c) { int a = hit(OP_MKDIR, c); if (a == ACT_FAIL) { errno = C->err; return -1; } if (a == ACT_KILL) die(); }
  int r = r_mkdir(path, mode);
  if (c) tr(OP_MKDIR, c, -1, 0, 0, r ? errno : 0, 0);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  int c = fd >= 0 && fd < MAXFD ? fdcls[fd] : 0;
  if (!(c & (CL_GNS | CL_MODEL))) return r_write(fd, b, n);
  int a = n ? hit(OP_WRITE, c) : 0;
  int64_t off = lseek(fd, 0, SEEK_CUR);
  size_t part = C ? (size_t)C->nbytes : 0;
  if (a && part >= n) part = n ? n - 1 : 0;
  switch (a) {
    case ACT_FAIL: tr(OP_WRITE, c, fd, off, 0, C->err, fdino[fd]); errno = C->err; return -1;
    case ACT_EINTR: errno = EINTR; return -1;
    case ACT_SHORT: if (part == 0) part = 1; n = part < n ? part : n; break;
    case ACT_SHORTFAIL:
      if (part) { ssize_t k = r_write(fd, b, part); tr(OP_WRITE, c, fd, off, k, 0, fdino[fd]); }
      // the caller sees a short write first; the next matching call fails
      C->action = ACT_FAIL;
      if (part) return part;
      errno = C->err; return -1;
    case ACT_WRITTEN_FAIL: { ssize_t k = r_write(fd, b, n); lseek(fd, off, SEEK_SET); (void)k; errno = C->err; return -1; }
    case ACT_KILL: die();
    case ACT_KILLPART: if (part) { ssize_t k = r_write(fd, b, part); (void)k; } die();
    case ACT_DELAY: dly(); break;
  }
  ssize_t r = r_write(fd, b, n);
  int e = errno;
  tr(OP_WRITE, c, fd, off, r, r < 0 ? e : 0, fdino[fd]);
  errno = e;
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  int c = fd >= 0 && fd < MAXFD ? fdcls[fd] : 0;
  if (!(c & (CL_GNS | CL_MODEL))) return syscall(SYS_writev, fd, v, n);
  for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); // a legal short writev
  return 0;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) {
  int c = fd >= 0 && fd < MAXFD ? fdcls[fd] : 0;
  if (!(c & (CL_GNS | CL_MODEL))) return syscall(SYS_pwrite64, fd, b, n, off);
  if (lseek(fd, off, SEEK_SET) < 0) return -1; // nobody mixes cursors on a journal
  return write(fd, b, n);
}
static int dosync(int fd, int (*real)(int)) {
  int c = fd >= 0 && fd < MAXFD ? fdcls[fd] : 0;
  if (!(c & (CL_GNS | CL_MODEL))) return real(fd);
  int a = hit(OP_FSYNC, c);
  int64_t off = lseek(fd, 0, SEEK_CUR);
  if (a == ACT_FAIL) { tr(OP_FSYNC, c, fd, off, 0, C->err, fdino[fd]); errno = C->err; return -1; }
  if (a == ACT_EINTR) { errno = EINTR; return -1; }
  if (a == ACT_KILL || a == ACT_KILLPART) die();
  if (a == ACT_DELAY) dly();
  int r = real(fd);
  int e = errno;
  tr(OP_FSYNC, c, fd, off, 0, r < 0 ? e : 0, fdino[fd]);
  errno = e;
  return r;
}
int fsync(int fd) { return dosync(fd, r_fsync); }
int fdatasync(int fd) { return dosync(fd, r_fdatasync); }
int ftruncate64(int fd, off64_t len) {
  int c = fd >= 0 && fd < MAXFD ? fdcls[fd] : 0;
  if (c & (CL_GNS | CL_MODEL)) {
    int a = hit(OP_TRUNC, c);
    if (a == ACT_FAIL) { errno = C->err; return -1; }
    tr(OP_TRUNC, c, fd, len, 0, 0, fdino[fd]);
  }
  return r_ftruncate64(fd, len);
}
int unlink(const char *path) {
  int c = cls_of_path(path);
  if (c) { int a = hit(OP_UNLINK, c); if (a == ACT_FAIL) { errno = C->err; return -1; } }
  return r_unlink(path);
}

// SKYV_FLOCK_DELAY: microseconds between opening the PID file and locking it
int flock(int fd, int op) {
  const char *e = getenv("SKYV_FLOCK_DELAY");
  if (e) { uint64_t u = strtoull(e, 0, 10); struct timespec ts = { u / 1000000, (u % 1000000) * 1000 }; nanosleep(&ts, 0); }
  return syscall(SYS_flock, fd, op);
}

// the free memory the server sees decides how many changes it holds back
int sysinfo(struct sysinfo *i) {
  int r = syscall(SYS_sysinfo, i);
  const char *e = getenv("SKYV_FREERAM");
  if (!r && e) { i->freeram = strtoull(e, 0, 10); i->mem_unit = 1; }
  return r;
}

// crc-64/xz for the python side
static uint64_t T[256];
uint64_t skyv_crc64(uint64_t crc, const unsigned char *p, size_t n) {
  if (!T[1]) for (int i = 0; i < 256; i++) { uint64_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xC96C5795D7870F42ull : c >> 1; T[i] = c; }
  crc = ~crc;
  while (n--) crc = T[(crc ^ *p++) & 255] ^ (crc >> 8);
  return ~crc;
}
uint64_t skyv_size(void) { return sizeof(struct ctl); }
uint64_t skyv_troff(void) { return offsetof(struct ctl, trace); }
