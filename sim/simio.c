/* libsimio.so: the simulated-disk seam.
 *
 * LD_PRELOADed into a simulation worker.  Every libc file call the process makes on a path below a registered scratch root is
 *   (1) counted, per operation class,
 *   (2) optionally made to fail / be cut short according to an armed fault plan (exact op number => exactly repeatable), and
 *   (3) optionally logged with its data, so that the driver can rebuild the directory image that a crash at any point would leave.
 * Calls on any other path go straight through.  Nothing here reads a clock or a random source.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { C_OPEN = 0, C_READ, C_WRITE, C_TRUNC, C_SYNC, C_RENAME, C_UNLINK, C_LINK, C_MKDIR, C_CLOSE, NCLS };
enum { A_ERR = 0, A_SHORT = 1, A_EOF = 2 };
#define MAXFD 4096
#define MAXFAULT 64

typedef struct { int cls; long nth; int act; int err; long param; int sticky; long fired; char match[128]; } fault_t;
typedef struct { int cls; int flags; long off; long len; long res; unsigned long ino; char *p1; char *p2; unsigned char *data; } rec_t;

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char root[PATH_MAX];
static size_t rootlen = 0;
static int active = 0, logging = 0;
static long cnt[NCLS];
static fault_t faults[MAXFAULT];
static int nfaults = 0;
static long space_left = -1;            /* -1: unlimited; otherwise bytes of growth allowed before ENOSPC */
static long space_fired = 0;
static rec_t *recs = NULL; static long nrecs = 0, caprecs = 0;
static char *fdpath[MAXFD];
static unsigned long fdino[MAXFD];

#define REAL(name, ret, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static long simio_open_fds_(void) { long n = 0; for (int i = 0; i < MAXFD; i++) if (fdpath[i]) n++; return n; }

void simio_root(const char *r) {
  pthread_mutex_lock(&mu);
  rootlen = strlen(r); strncpy(root, r, sizeof root - 1);
  active = rootlen > 0;
  pthread_mutex_unlock(&mu);
}
static void clear_log(void) {
  for (long i = 0; i < nrecs; i++) { free(recs[i].p1); free(recs[i].p2); free(recs[i].data); }
  nrecs = 0;
}
void simio_reset(int log) {
  pthread_mutex_lock(&mu);
  memset(cnt, 0, sizeof cnt); nfaults = 0; space_left = -1; space_fired = 0; clear_log(); logging = log;
  pthread_mutex_unlock(&mu);
}
void simio_disarm(void) { pthread_mutex_lock(&mu); nfaults = 0; space_left = -1; pthread_mutex_unlock(&mu); }
int simio_arm(int cls, long nth, int act, int err, long param, int sticky, const char *match) {
  if (nfaults >= MAXFAULT) return -1;
  fault_t *f = &faults[nfaults];
  f->cls = cls; f->nth = nth; f->act = act; f->err = err; f->param = param; f->sticky = sticky; f->fired = 0;
  f->match[0] = 0; if (match) { strncpy(f->match, match, sizeof f->match - 1); f->match[sizeof f->match - 1] = 0; }
  return nfaults++;
}
void simio_space(long bytes) { space_left = bytes; space_fired = 0; }
long simio_space_fired(void) { return space_fired; }
long simio_fired(int i) { return i < nfaults ? faults[i].fired : 0; }
long simio_count(int cls) { return cnt[cls]; }
long simio_nrecs(void) { return nrecs; }
const rec_t *simio_rec(long i) { return i < nrecs ? &recs[i] : NULL; }
long simio_open_fds(void) { pthread_mutex_lock(&mu); long n = simio_open_fds_(); pthread_mutex_unlock(&mu); return n; }
int simio_version(void) { return 3; }

static int absolute(int dirfd, const char *path, char *out) {
  if (!path) return 0;
  if (path[0] == '/') { strncpy(out, path, PATH_MAX - 1); out[PATH_MAX - 1] = 0; return 1; }
  char base[PATH_MAX];
  if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
  else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, base, sizeof base - 1); if (n <= 0) return 0; base[n] = 0; }
  if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return 0;
  return 1;
}
static int tracked_path(int dirfd, const char *path, char *out) {
  if (!active) return 0;
  if (path && path[0] == '/' && strncmp(path, root, rootlen)) return 0;
  if (!absolute(dirfd, path, out)) return 0;
  return !strncmp(out, root, rootlen);
}
static int tracked_fd(int fd) { return active && fd >= 0 && fd < MAXFD && fdpath[fd]; }

static rec_t *add(int cls, int flags, long off, long len, long res, unsigned long ino, const char *p1, const char *p2, const void *data) {
  if (!logging) return NULL;
  if (nrecs == caprecs) { caprecs = caprecs ? caprecs * 2 : 256; recs = realloc(recs, caprecs * sizeof *recs); }
  rec_t *r = &recs[nrecs++];
  r->cls = cls; r->flags = flags; r->off = off; r->len = len; r->res = res; r->ino = ino;
  r->p1 = p1 ? strdup(p1) : NULL; r->p2 = p2 ? strdup(p2) : NULL; r->data = NULL;
  if (data && res > 0) { r->data = malloc(res); memcpy(r->data, data, res); }
  return r;
}
/* returns the armed fault for this op, if any; counts the op */
static fault_t *hit(int cls, const char *path) {
  cnt[cls]++;
  for (int i = 0; i < nfaults; i++) {
    fault_t *f = &faults[i];
    if (f->cls != cls) continue;
    if (f->match[0] && !(path && strstr(path, f->match))) continue;
    f->nth--;
    if (f->nth == 0 || (f->nth < 0 && f->sticky)) { f->fired++; return f; }
  }
  return NULL;
}
static void remember(int fd, const char *path, unsigned long ino) {
  if (fd < 0 || fd >= MAXFD) return;
  free(fdpath[fd]); fdpath[fd] = strdup(path); fdino[fd] = ino;
}
static void forget(int fd) { if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; } }

/* ---------------------------------------------------------------- open / close */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  REAL(openat, int, int, const char *, int, ...);
  char ap[PATH_MAX];
  if (!tracked_path(dirfd, path, ap)) {
    int fd = real_openat(dirfd, path, flags, mode);
    return fd;
  }
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_OPEN, ap);
  if (f && f->act == A_ERR) { int e = f->err; add(C_OPEN, flags, 0, 0, -1, 0, ap, NULL, NULL); pthread_mutex_unlock(&mu); errno = e; return -1; }
  struct stat st; int existed = stat(ap, &st) == 0;
  if (existed && S_ISDIR(st.st_mode)) { pthread_mutex_unlock(&mu); int fd = real_openat(dirfd, path, flags, mode);
    if (fd >= 0) { pthread_mutex_lock(&mu); remember(fd, ap, st.st_ino); pthread_mutex_unlock(&mu); } return fd; }
  if (!existed && (flags & O_CREAT) && space_left == 0) { /* a full disk can still create an empty inode on most filesystems */ }
  int fd = real_openat(dirfd, path, flags, mode); int e = errno;
  if (fd >= 0) {
    fstat(fd, &st); remember(fd, ap, st.st_ino);
    add(C_OPEN, flags, existed, 0, fd, st.st_ino, ap, NULL, NULL);
  }
  pthread_mutex_unlock(&mu); errno = e;
  return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
  REAL(close, int, int);
  if (!tracked_fd(fd)) return real_close(fd);
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_CLOSE, fdpath[fd]);
  add(C_CLOSE, 0, 0, 0, 0, fdino[fd], fdpath[fd], NULL, NULL);
  forget(fd);
  pthread_mutex_unlock(&mu);
  int r = real_close(fd);
  if (f && f->act == A_ERR) { errno = f->err; return -1; }
  return r;
}
int dup(int fd) { REAL(dup, int, int); int n = real_dup(fd); if (n >= 0 && tracked_fd(fd)) { pthread_mutex_lock(&mu); remember(n, fdpath[fd], fdino[fd]); pthread_mutex_unlock(&mu); } return n; }
int dup2(int fd, int to) { REAL(dup2, int, int, int); if (to != fd) forget(to); int n = real_dup2(fd, to); if (n >= 0 && n != fd && tracked_fd(fd)) { pthread_mutex_lock(&mu); remember(n, fdpath[fd], fdino[fd]); pthread_mutex_unlock(&mu); } return n; }
int dup3(int fd, int to, int fl) { REAL(dup3, int, int, int, int); forget(to); int n = real_dup3(fd, to, fl); if (n >= 0 && tracked_fd(fd)) { pthread_mutex_lock(&mu); remember(n, fdpath[fd], fdino[fd]); pthread_mutex_unlock(&mu); } return n; }

/* ---------------------------------------------------------------- read */
static int read_fault(int fd, size_t *len, ssize_t *ret) {
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_READ, fdpath[fd]);
  int rc = 0;
  if (f) {
    if (f->act == A_ERR) { errno = f->err; *ret = -1; rc = 1; }
    else if (f->act == A_EOF) { *ret = 0; rc = 1; }
    else if (f->act == A_SHORT && *len > 1) { size_t k = (size_t)f->param % *len; *len = k ? k : 1; }
  }
  pthread_mutex_unlock(&mu);
  return rc;
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(read, ssize_t, int, void *, size_t);
  ssize_t r; if (tracked_fd(fd) && read_fault(fd, &n, &r)) return r;
  return real_read(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  REAL(pread, ssize_t, int, void *, size_t, off_t);
  ssize_t r; if (tracked_fd(fd) && read_fault(fd, &n, &r)) return r;
  return real_pread(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  REAL(pread64, ssize_t, int, void *, size_t, off64_t);
  ssize_t r; if (tracked_fd(fd) && read_fault(fd, &n, &r)) return r;
  return real_pread64(fd, b, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  REAL(readv, ssize_t, int, const struct iovec *, int);
  if (tracked_fd(fd) && c > 0) { size_t n = v[0].iov_len; ssize_t r; if (read_fault(fd, &n, &r)) return r; if (n < v[0].iov_len) { return read(fd, v[0].iov_base, n); } }
  return real_readv(fd, v, c);
}
/* checked variants emitted by _FORTIFY_SOURCE */
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return read(fd, b, n); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t bl) { (void)bl; return pread(fd, b, n, o); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t bl) { (void)bl; return pread64(fd, b, n, o); }

/* ---------------------------------------------------------------- write */
static ssize_t do_write(int fd, const void *b, size_t n, long off, int positional) {
  REAL(write, ssize_t, int, const void *, size_t);
  REAL(pwrite64, ssize_t, int, const void *, size_t, off64_t);
  if (!tracked_fd(fd)) return positional ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_WRITE, fdpath[fd]);
  long pos = off;
  if (!positional) {
    int fl = fcntl(fd, F_GETFL); struct stat st; fstat(fd, &st);
    pos = (fl & O_APPEND) ? (long)st.st_size : (long)lseek(fd, 0, SEEK_CUR);
  }
  if (f && f->act == A_ERR) { int e = f->err; add(C_WRITE, 0, pos, n, -1, fdino[fd], fdpath[fd], NULL, NULL); pthread_mutex_unlock(&mu); errno = e; return -1; }
  if (f && f->act == A_SHORT && n > 1) { size_t k = (size_t)f->param % n; n = k ? k : 1; }
  struct stat st; fstat(fd, &st);
  if (space_left >= 0) {
    long grow = pos + (long)n - (long)st.st_size; if (grow < 0) grow = 0;
    if (grow > space_left) {
      long cut = grow - space_left; long m = (long)n - cut;
      space_fired++;
      if (m <= 0) { add(C_WRITE, 0, pos, n, -1, fdino[fd], fdpath[fd], NULL, NULL); pthread_mutex_unlock(&mu); errno = ENOSPC; return -1; }
      n = (size_t)m; grow = space_left;
    }
    space_left -= grow;
  }
  ssize_t r = positional ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
  int e = errno;
  add(C_WRITE, 0, pos, n, r, fdino[fd], fdpath[fd], NULL, b);
  pthread_mutex_unlock(&mu); errno = e;
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(writev, ssize_t, int, const struct iovec *, int);
  if (!tracked_fd(fd)) return real_writev(fd, v, c);
  size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
  char *buf = malloc(tot ? tot : 1); size_t p = 0;
  for (int i = 0; i < c; i++) { memcpy(buf + p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
  ssize_t r = do_write(fd, buf, tot, 0, 0); int e = errno; free(buf); errno = e; return r;
}
static int do_ftruncate(int fd, off64_t len) {
  REAL(ftruncate64, int, int, off64_t);
  if (!tracked_fd(fd)) return real_ftruncate64(fd, len);
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_TRUNC, fdpath[fd]);
  if (f && f->act == A_ERR) { int e = f->err; add(C_TRUNC, 0, len, 0, -1, fdino[fd], fdpath[fd], NULL, NULL); pthread_mutex_unlock(&mu); errno = e; return -1; }
  int r = real_ftruncate64(fd, len); int e = errno;
  add(C_TRUNC, 0, len, 0, r, fdino[fd], fdpath[fd], NULL, NULL);
  pthread_mutex_unlock(&mu); errno = e; return r;
}
int ftruncate(int fd, off_t len) { return do_ftruncate(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_ftruncate(fd, len); }
int posix_fallocate(int fd, off_t o, off_t l) { REAL(posix_fallocate, int, int, off_t, off_t); if (tracked_fd(fd)) return EOPNOTSUPP; return real_posix_fallocate(fd, o, l); }
int fallocate(int fd, int m, off_t o, off_t l) { REAL(fallocate, int, int, int, off_t, off_t); if (tracked_fd(fd)) { errno = EOPNOTSUPP; return -1; } return real_fallocate(fd, m, o, l); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { REAL(sendfile, ssize_t, int, int, off_t *, size_t); if (tracked_fd(o) || tracked_fd(i)) { errno = EINVAL; return -1; } return real_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(sendfile64, ssize_t, int, int, off64_t *, size_t); if (tracked_fd(o) || tracked_fd(i)) { errno = EINVAL; return -1; } return real_sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) { REAL(copy_file_range, ssize_t, int, off64_t *, int, off64_t *, size_t, unsigned); if (tracked_fd(o) || tracked_fd(i)) { errno = EINVAL; return -1; } return real_copy_file_range(i, oi, o, oo, n, f); }

/* ---------------------------------------------------------------- sync */
static int do_sync(int fd, int data) {
  REAL(fsync, int, int); REAL(fdatasync, int, int);
  if (!tracked_fd(fd)) return data ? real_fdatasync(fd) : real_fsync(fd);
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_SYNC, fdpath[fd]);
  struct stat st; int isdir = fstat(fd, &st) == 0 && S_ISDIR(st.st_mode);
  if (f && f->act == A_ERR) { int e = f->err; add(C_SYNC, isdir, 0, 0, -1, fdino[fd], fdpath[fd], NULL, NULL); pthread_mutex_unlock(&mu); errno = e; return -1; }
  add(C_SYNC, isdir, 0, 0, 0, fdino[fd], fdpath[fd], NULL, NULL);   /* the real disk need not be synced: durability is simulated */
  pthread_mutex_unlock(&mu);
  return 0;
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }

/* ---------------------------------------------------------------- namespace */
static int do_rename(int od, const char *a, int nd, const char *b, unsigned flags, int has_flags) {
  REAL(renameat, int, int, const char *, int, const char *); REAL(renameat2, int, int, const char *, int, const char *, unsigned);
  char pa[PATH_MAX], pb[PATH_MAX];
  int ta = tracked_path(od, a, pa), tb = tracked_path(nd, b, pb);
  if (!ta && !tb) return has_flags && flags ? real_renameat2(od, a, nd, b, flags) : real_renameat(od, a, nd, b);
  if (!ta) absolute(od, a, pa); if (!tb) absolute(nd, b, pb);
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_RENAME, pa);
  if (f && f->act == A_ERR) { int e = f->err; add(C_RENAME, 0, 0, 0, -1, 0, pa, pb, NULL); pthread_mutex_unlock(&mu); errno = e; return -1; }
  int r = has_flags && flags ? real_renameat2(od, a, nd, b, flags) : real_renameat(od, a, nd, b); int e = errno;
  add(C_RENAME, flags, 0, 0, r, 0, pa, pb, NULL);
  pthread_mutex_unlock(&mu); errno = e; return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0, 0); }
int renameat(int d, const char *a, int e, const char *b) { return do_rename(d, a, e, b, 0, 0); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return do_rename(d, a, e, b, f, 1); }

static int do_unlink(int d, const char *p, int flags) {
  REAL(unlinkat, int, int, const char *, int);
  char ap[PATH_MAX];
  if (!tracked_path(d, p, ap)) return real_unlinkat(d, p, flags);
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_UNLINK, ap);
  if (f && f->act == A_ERR) { int e = f->err; add(C_UNLINK, flags, 0, 0, -1, 0, ap, NULL, NULL); pthread_mutex_unlock(&mu); errno = e; return -1; }
  int r = real_unlinkat(d, p, flags); int e = errno;
  add(C_UNLINK, flags, 0, 0, r, 0, ap, NULL, NULL);
  pthread_mutex_unlock(&mu); errno = e; return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int link(const char *a, const char *b) {
  REAL(link, int, const char *, const char *);
  char pa[PATH_MAX], pb[PATH_MAX];
  if (!tracked_path(AT_FDCWD, a, pa) || !tracked_path(AT_FDCWD, b, pb)) return real_link(a, b);
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_LINK, pa);
  if (f && f->act == A_ERR) { int e = f->err; pthread_mutex_unlock(&mu); errno = e; return -1; }
  int r = real_link(a, b); int e = errno;
  add(C_LINK, 0, 0, 0, r, 0, pa, pb, NULL);
  pthread_mutex_unlock(&mu); errno = e; return r;
}
int mkdir(const char *p, mode_t m) {
  REAL(mkdir, int, const char *, mode_t);
  char ap[PATH_MAX];
  if (!tracked_path(AT_FDCWD, p, ap)) return real_mkdir(p, m);
  pthread_mutex_lock(&mu);
  fault_t *f = hit(C_MKDIR, ap);
  if (f && f->act == A_ERR) { int e = f->err; pthread_mutex_unlock(&mu); errno = e; return -1; }
  int r = real_mkdir(p, m); int e = errno;
  add(C_MKDIR, 0, 0, 0, r, 0, ap, NULL, NULL);
  pthread_mutex_unlock(&mu); errno = e; return r;
}
