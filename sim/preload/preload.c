// C library I/O layer put under the library's real build script: every open,
// read, write and close of its files may fail, be cut short, be interrupted, or
// be the last thing the process does. Everything is decided by the environment:
//   SIMPRE_PLAN   call.class.nth.kind,...   call: 0 open 1 read 2 write 3 close 4 sync 5 other
//                 class: 1 metadata document, 2 output, 3 stdout/stderr, 0 any
//                 kind: e<errno> once, E<errno> for good, s<n> short, z end of file for good,
//                       o<n> at byte <nth> of the document: 0 end of file for good, else errno once,
//                       k killed before, K killed after, t<n> killed after n bytes
//   SIMPRE_FLOW   seed.max.eintr65536       random transfer sizes and interruptions
//   SIMPRE_ROOM   n                         the disk is full after n bytes of output
//   SIMPRE_LOG    file told what was injected
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

struct fault { int call, cls; long nth; char kind; long arg; };
static struct fault F[32];
static int nf, ready;
static long cnt[6][4];
static unsigned char cls_of[1024];
static int eof_now;
static uint64_t rng;
static long flow_max, flow_eintr, room = -1, written;
static const char *root, *logp;

static void say(const char *s) {
  if (!logp) return;
  int fd = syscall(SYS_open, logp, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { syscall(SYS_write, fd, s, strlen(s)); syscall(SYS_close, fd); }
}
static void init(void) {
  if (ready) return;
  ready = 1;
  root = getenv("SIMPRE_ROOT");
  logp = getenv("SIMPRE_LOG");
  const char *p = getenv("SIMPRE_PLAN");
  while (p && *p && nf < 32) {
    struct fault f = {0};
    int n = 0;
    if (sscanf(p, "%d.%d.%ld.%c%ld%n", &f.call, &f.cls, &f.nth, &f.kind, &f.arg, &n) < 4) break;
    F[nf++] = f;
    p = strchr(p, ',');
    if (p) p++;
  }
  p = getenv("SIMPRE_FLOW");
  unsigned long long s;
  if (p && sscanf(p, "%llu.%ld.%ld", &s, &flow_max, &flow_eintr) == 3) rng = s * 2 + 1; else flow_max = flow_eintr = 0;
  p = getenv("SIMPRE_ROOM");
  if (p) room = atol(p);
}
static uint64_t rnd(void) {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng * 0x9E3779B97F4A7C15ull >> 20;
}
static void end(void) {
  char b[200];
  static const char *nm[] = {"open", "read", "write", "close", "sync", "other"};
  for (int c = 0; c < 6; c++) for (int k = 1; k < 4; k++) if (cnt[c][k]) {
    snprintf(b, sizeof b, "count %s %d %ld\n", nm[c], k, cnt[c][k]);
    say(b);
  }
}
__attribute__((destructor)) static void fini(void) { end(); }
static void die(void) { say("kill\n"); end(); syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) ; }

static int classify(const char *path) {
  if (!path || !root) return 0;
  if (path[0] == '/' && strncmp(path, root, strlen(root))) return 0;
  size_t n = strlen(path);
  if (n > 4 && !strcmp(path + n - 4, ".xml")) return 1;
  return 2;
}
static int of(int fd) {
  if (fd == 1 || fd == 2) return 3;
  return fd >= 0 && fd < 1024 ? cls_of[fd] : 0;
}
// the fault that hits this call, if any
static struct fault *hit(int call, int cls) {
  static struct fault sticky_eof = {1, 1, 0, 'z', 0};
  long n = cnt[call][cls]++;
  if (call == 1 && eof_now && cls == 1) return &sticky_eof;
  for (int i = 0; i < nf; i++) {
    struct fault *f = &F[i];
    if (f->kind == 'o' || f->call != call || (f->cls && f->cls != cls)) continue;
    if (f->kind == '-') continue;
    if (n == f->nth || (n > f->nth && f->kind == 'E')) {
      char b[80];
      snprintf(b, sizeof b, "fault %d %c\n", call, f->kind);
      if (f->kind != 'k' && f->kind != 'K' && f->kind != 't') say(b);
      if (f->kind == 'z') eof_now = 1;
      if (f->kind == 'k') die();
      return f;
    }
  }
  return 0;
}

static long moved(int call, int cls, int fd, const void *buf, size_t n) {
  return call == 1 ? syscall(SYS_read, fd, buf, n) : syscall(SYS_write, fd, buf, n);
}
static long transfer(int call, int fd, const void *buf, size_t n) {
  init();
  int cls = of(fd);
  if (!cls || n == 0) return moved(call, cls, fd, buf, n);
  struct fault *f = hit(call, cls);
  if (!f && call == 1 && cls == 1) for (int i = 0; i < nf; i++) if (F[i].kind == 'o') {
    long pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    if (pos < F[i].nth) { if (pos + (long)n > F[i].nth) n = F[i].nth - pos; continue; }
    if (!F[i].arg) { say("fault 1 z\n"); eof_now = 1; return 0; }
    F[i].kind = '-';
    say("fault 1 e\n");
    errno = F[i].arg;
    return -1;
  }
  if (f) switch (f->kind) {
    case 'e': case 'E': errno = f->arg; return -1;
    case 'z': return 0;
    case 's': if ((size_t)f->arg < n) n = f->arg ? f->arg : 1; break;
    case 't': if ((size_t)f->arg < n) n = f->arg;
      if (n) moved(call, cls, fd, buf, n);
      die();
    case 'K': moved(call, cls, fd, buf, n); die();
  } else if (flow_max && cls < 3) {
    if ((long)(rnd() & 0xffff) < flow_eintr) { static int told; if (told++ < 3) say("eintr\n"); errno = EINTR; return -1; }
    size_t k = 1 + rnd() % flow_max;
    static int told;
    if (k < n) { n = k; if (told++ < 3) say("short\n"); }
  }
  if (call == 2 && cls == 2 && room >= 0) {
    if (written >= room) { say("full\n"); errno = ENOSPC; return -1; }
    if (written + (long)n > room) n = room - written;
  }
  long r = moved(call, cls, fd, buf, n);
  if (call == 2 && cls == 2 && r > 0) written += r;
  return r;
}
static int opened(const char *path, int dirfd, int flags, mode_t m) {
  init();
  int cls = classify(path);
  struct fault *f = 0;
  if (cls) {
    f = hit(0, cls);
    if (f && (f->kind == 'e' || f->kind == 'E')) { errno = f->arg; return -1; }
  }
  int fd = syscall(SYS_openat, dirfd, path, flags, m);
  if (f && (f->kind == 'K' || f->kind == 't')) die();
  if (fd >= 0 && fd < 1024) cls_of[fd] = cls;
  return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return opened(p, AT_FDCWD, flags, m); }
int open64(const char *p, int flags, ...) { MODE return opened(p, AT_FDCWD, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return opened(p, d, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return opened(p, d, flags, m); }
int creat(const char *p, mode_t m) { return opened(p, AT_FDCWD, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return opened(p, AT_FDCWD, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) { return transfer(1, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return transfer(2, fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  for (int i = 0; i < n; i++) if (v[i].iov_len) return transfer(1, fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  for (int i = 0; i < n; i++) if (v[i].iov_len) return transfer(2, fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
static ssize_t at(int call, int fd, const void *b, size_t n, off_t o) {
  off_t was = syscall(SYS_lseek, fd, 0, SEEK_CUR);
  syscall(SYS_lseek, fd, o, SEEK_SET);
  ssize_t r = transfer(call, fd, b, n);
  int e = errno;
  syscall(SYS_lseek, fd, was, SEEK_SET);
  errno = e;
  return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return at(1, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return at(1, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return at(2, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return at(2, fd, b, n, o); }
static int plain(int call, int fd, long nr) {
  init();
  int cls = of(fd);
  struct fault *f = cls ? hit(call, cls) : 0;
  if (call == 3 && fd >= 0 && fd < 1024 && fd > 2) cls_of[fd] = 0;
  long r = syscall(nr, fd);
  if (f && (f->kind == 'K' || f->kind == 't')) die();
  if (f && (f->kind == 'e' || f->kind == 'E')) { errno = f->arg; return -1; }
  return r;
}
int close(int fd) { return plain(3, fd, SYS_close); }
int fsync(int fd) { return plain(4, fd, SYS_fsync); }
int fdatasync(int fd) { return plain(4, fd, SYS_fdatasync); }
int rename(const char *a, const char *b) {
  init();
  int cls = classify(b);
  struct fault *f = cls ? hit(5, cls) : 0;
  if (f && (f->kind == 'e' || f->kind == 'E')) { errno = f->arg; return -1; }
  int r = syscall(SYS_rename, a, b);
  if (f && (f->kind == 'K' || f->kind == 't')) die();
  return r;
}
