// The storage seam: every file operation of the library on the scratch directory passes here.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace rt {
static char root[512];
static size_t rootlen = 0;
static bool simfd[4096];
static int kind = 0;
static uint64_t P = 0, Q = 0;
static uint64_t calls = 0, bytes = 0;
static bool fired = false;
static Rng frng(1);

void fs_root(const std::string &d) {
  snprintf(root, sizeof root, "%s", d.c_str());
  rootlen = d.size();
}
void fs_arm(int k, uint64_t p, uint64_t q) {
  kind = k; P = p; Q = q; calls = bytes = 0; fired = false;
  frng = Rng(mix(p, q));
}
bool fs_disarm() { bool f = kind && fired; kind = 0; fired = false; return f; }
static char only[512];
void fs_only(const std::string &p) { snprintf(only, sizeof only, "%s", p.c_str()); }
static bool ours(const char *p) { return rootlen && p && !strncmp(p, root, rootlen) && (!*only || !strcmp(p, only)); }
static bool ours(int fd) { return fd >= 0 && fd < 4096 && simfd[fd]; }
static void hit(Ctr c) {
  fired = true;
  count(c);
  log_event(0xF5000000ull + c);
}
[[noreturn]] static void crash() {
  hit(C_CRASH);
  result->ctr[C_STEPS] = result->ctr[C_STEPS];
  _exit(CRASH_EXIT);
}
// every mutating system call is a crash point: before it, or after it
static void crash_point() {
  if (kind == FF_CRASH_CALL && ++calls == P) crash();
}
static bool open_fault() {
  if (kind == FF_OPEN) { hit(C_OPEN_FAIL); errno = Q ? (int)Q : EACCES; return true; }
  return false;
}
// renaming, truncating, synchronising, removing
static bool meta_fault() {
  if (kind == FF_META && frng.chance(P % 2 ? 1000 : 500)) {
    static const int e[] = {EIO, ENOSPC, EXDEV, EACCES, EBUSY};
    hit(C_META);
    errno = e[Q % 5];
    return true;
  }
  return false;
}
static ssize_t do_write(int fd, const struct iovec *v, int n) {
  size_t len = 0;
  for (int i = 0; i < n; i++) len += v[i].iov_len;
  crash_point();
  size_t allow = len;
  switch (kind) {
  case FF_SHORT_W:
    if (len > 1 && frng.chance(600)) { allow = 1 + frng.below(len - 1); hit(C_WRITE_SHORT); }
    break;
  case FF_EINTR_W:
    if (frng.chance(400)) { hit(C_WRITE_EINTR); errno = EINTR; return -1; }
    break;
  case FF_ENOSPC:
    if (bytes + len > P) {
      allow = P > bytes ? P - bytes : 0;
      if (!allow && len) { hit(C_WRITE_ENOSPC); errno = ENOSPC; return -1; }
    }
    break;
  case FF_EIO_W:
    if (bytes + len > P) { hit(C_WRITE_EIO); errno = EIO; return -1; }
    break;
  case FF_CRASH_BYTES:
    if (bytes + len > P) allow = P > bytes ? P - bytes : 0;
    break;
  }
  size_t done = 0;
  for (int i = 0; i < n && done < allow; i++) {
    size_t k = v[i].iov_len < allow - done ? v[i].iov_len : allow - done;
    size_t o = 0;
    while (o < k) {
      ssize_t r = syscall(SYS_write, fd, (const char *)v[i].iov_base + o, k - o);
      if (r < 0) { if (errno == EINTR) continue; harness_error("the scratch directory cannot be written"); }
      o += (size_t)r;
    }
    done += k;
  }
  bytes += done;
  if (kind == FF_CRASH_BYTES && bytes >= P) crash();
  crash_point();
  return (ssize_t)done;
}
static ssize_t do_read(int fd, void *p, size_t len) {
  switch (kind) {
  case FF_SHORT_R:
    if (len > 1 && frng.chance(800)) { len = 1 + frng.below(len < 64 ? len - 1 : frng.chance(500) ? 63 : len - 1); hit(C_READ_SHORT); }
    break;
  case FF_EINTR_R:
    if (frng.chance(400)) { hit(C_READ_EINTR); errno = EINTR; return -1; }
    break;
  case FF_EIO_R:
    if (bytes >= P) { hit(C_READ_EIO); errno = EIO; return -1; }
    if (len > P - bytes) len = P - bytes;
    break;
  }
  ssize_t r = syscall(SYS_read, fd, p, len);
  if (r > 0) bytes += (uint64_t)r;
  return r;
}
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
} // namespace rt
using namespace rt;
#define REAL(name) ([]() { static auto f = rt::real<decltype(&::name)>(#name); return f; }())

static int open_impl(int dir, const char *p, int fl, mode_t m) {
  bool o = ours(p);
  if (o) {
    if (open_fault()) return -1;
    if (fl & (O_CREAT | O_TRUNC)) crash_point();
  }
  int fd = (int)syscall(SYS_openat, dir, p, fl, m);
  if (fd >= 0 && fd < 4096) simfd[fd] = o;
  if (o && fd >= 0 && (fl & (O_CREAT | O_TRUNC))) crash_point();
  return fd;
}
extern "C" {
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE return open_impl(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return open_impl(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return open_impl(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return open_impl(d, p, fl, m); }
int creat(const char *p, mode_t m) { return open_impl(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
// C streams of the library itself: glibc's own would write and read past the seam
static FILE *cookie_of_fd[4096];
static ssize_t ck_read(void *c, char *b, size_t n) {
  ssize_t r;
  do r = do_read((int)(intptr_t)c - 1, b, n); while (r < 0 && errno == EINTR); // few callers of C streams expect it
  return r;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
  size_t o = 0;
  while (o < n) {
    struct iovec v = {(void *)(b + o), n - o};
    ssize_t r = do_write((int)(intptr_t)c - 1, &v, 1);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) return (ssize_t)o; // less than asked for: the stream's error is set
    o += (size_t)r;
  }
  return (ssize_t)o;
}
static int ck_seek(void *c, off64_t *o, int w) {
  off_t r = lseek((int)(intptr_t)c - 1, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void *c) {
  int fd = (int)(intptr_t)c - 1;
  cookie_of_fd[fd] = nullptr;
  return close(fd);
}
static FILE *cookie_open(const char *p, const char *mode) {
  bool plus = strchr(mode, '+') != nullptr;
  int fl = *mode == 'r' ? (plus ? O_RDWR : O_RDONLY) : ((plus ? O_RDWR : O_WRONLY) | O_CREAT | (*mode == 'a' ? O_APPEND : O_TRUNC));
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = open_impl(AT_FDCWD, p, fl, 0666);
  if (fd < 0) return nullptr;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(intptr_t)(fd + 1), mode, io);
  if (f && fd < 4096) cookie_of_fd[fd] = f;
  return f;
}
static int cookie_fd(FILE *f) {
  for (int i = 0; i < 4096; i++) if (cookie_of_fd[i] == f) return i;
  return -1;
}
int fileno(FILE *f) noexcept {
  int fd = REAL(fileno)(f);
  if (fd < 0 && (fd = cookie_fd(f)) < 0) errno = EBADF;
  return fd;
}
static FILE *fopen_impl(const char *p, const char *mode, FILE *(*f)(const char *, const char *), void *pc) {
  bool o = ours(p);
  bool mut = strpbrk(mode, "wa+") != nullptr;
  if (o && lib_pc(pc)) return cookie_open(p, mode);
  if (o) {
    if (open_fault()) return nullptr;
    if (mut) crash_point();
  }
  FILE *r = f(p, mode);
  if (r && fileno(r) < 4096) simfd[fileno(r)] = o;
  if (o && r && mut) crash_point();
  return r;
}
FILE *fopen(const char *p, const char *m) { return fopen_impl(p, m, REAL(fopen), __builtin_return_address(0)); }
FILE *fopen64(const char *p, const char *m) { return fopen_impl(p, m, REAL(fopen64), __builtin_return_address(0)); }
static bool close_fault() {
  if (kind == FF_CLOSE) { hit(C_CLOSE_FAIL); return true; }
  return false;
}
int fclose(FILE *f) {
  if (cookie_fd(f) >= 0) return REAL(fclose)(f); // ends in ck_close
  int fd = fileno(f);
  bool o = ours(fd);
  if (o) { simfd[fd] = false; crash_point(); }
  int r = REAL(fclose)(f);
  if (o && close_fault()) { errno = EIO; return EOF; }
  return r;
}
int close(int fd) {
  bool o = ours(fd);
  if (o) { simfd[fd] = false; crash_point(); }
  int r = (int)syscall(SYS_close, fd);
  if (o && close_fault()) { errno = EIO; return -1; }
  return r;
}
ssize_t write(int fd, const void *p, size_t n) {
  if (!ours(fd)) return syscall(SYS_write, fd, p, n);
  struct iovec v = {(void *)p, n};
  return do_write(fd, &v, 1);
}
ssize_t writev(int fd, const struct iovec *v, int n) { return ours(fd) ? do_write(fd, v, n) : syscall(SYS_writev, fd, v, n); }
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) {
  if (!ours(fd)) return syscall(SYS_pwrite64, fd, p, n, o);
  off_t was = lseek(fd, 0, SEEK_CUR);
  lseek(fd, o, SEEK_SET);
  struct iovec v = {(void *)p, n};
  ssize_t r = do_write(fd, &v, 1);
  int e = errno;
  lseek(fd, was, SEEK_SET);
  errno = e;
  return r;
}
ssize_t read(int fd, void *p, size_t n) { return ours(fd) ? do_read(fd, p, n) : syscall(SYS_read, fd, p, n); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (!ours(fd)) return syscall(SYS_readv, fd, v, n);
  for (int i = 0; i < n; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
int fsync(int fd) {
  if (!ours(fd)) return (int)syscall(SYS_fsync, fd);
  crash_point();
  return meta_fault() ? -1 : 0;
}
int fdatasync(int fd) { return ours(fd) ? fsync(fd) : (int)syscall(SYS_fdatasync, fd); }
#define META(is_ours, call) \
  bool o = is_ours; \
  if (o) crash_point(); \
  int r = o && meta_fault() ? -1 : (int)(call); \
  if (o) crash_point(); \
  return r;
int rename(const char *a, const char *b) noexcept { META(ours(a) || ours(b), syscall(SYS_rename, a, b)) }
int renameat(int x, const char *a, int y, const char *b) noexcept { META(ours(a) || ours(b), syscall(SYS_renameat, x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) noexcept { META(ours(a) || ours(b), syscall(SYS_renameat2, x, a, y, b, f)) }
int link(const char *a, const char *b) noexcept { META(ours(a) || ours(b), syscall(SYS_link, a, b)) }
int symlink(const char *a, const char *b) noexcept { META(ours(b), syscall(SYS_symlink, a, b)) }
int unlink(const char *a) noexcept { META(ours(a), syscall(SYS_unlink, a)) }
int unlinkat(int d, const char *a, int f) noexcept { META(ours(a), syscall(SYS_unlinkat, d, a, f)) }
static long remove_any(const char *a) {
  long r = syscall(SYS_unlink, a);
  return r && errno == EISDIR ? syscall(SYS_rmdir, a) : r;
}
int remove(const char *a) noexcept { META(ours(a), remove_any(a)) }
int truncate(const char *a, off_t n) noexcept { META(ours(a), syscall(SYS_truncate, a, n)) }
int truncate64(const char *a, off64_t n) noexcept { META(ours(a), syscall(SYS_truncate, a, n)) }
int ftruncate(int fd, off_t n) noexcept { META(ours(fd), syscall(SYS_ftruncate, fd, n)) }
int ftruncate64(int fd, off64_t n) noexcept { META(ours(fd), syscall(SYS_ftruncate, fd, n)) }
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) { return pwrite(fd, p, n, o); }
static ssize_t read_at(int fd, void *p, size_t n, off64_t o) {
  if (!ours(fd)) return syscall(SYS_pread64, fd, p, n, o);
  off_t was = lseek(fd, 0, SEEK_CUR);
  lseek(fd, o, SEEK_SET);
  ssize_t r = do_read(fd, p, n);
  int e = errno;
  lseek(fd, was, SEEK_SET);
  errno = e;
  return r;
}
ssize_t pread(int fd, void *p, size_t n, off_t o) { return read_at(fd, p, n, o); }
ssize_t pread64(int fd, void *p, size_t n, off64_t o) { return read_at(fd, p, n, o); }
} // extern "C"
