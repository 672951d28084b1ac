/* The simulated operating system boundary of the asciidork CLI: an LD_PRELOAD seam over the
 * real binary. A plan file decides clock, randomness, the outcome of every file, pipe and
 * socket call, and what happens to the file tree between two calls; every call is logged.
 * Only calls made after the constructor are seen. One process, deterministic. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OPEN, STAT, REAL, READ, WRITE, DNS, CONNECT, SEND, RECV, NOPS };
static const char *NAMES[NOPS] = {"open", "stat", "realpath", "read", "write", "dns", "connect", "send", "recv"};
static int count[NOPS];

struct fault {
  int op, n;            /* n-th call of that kind, from 0; -1: from then on, every call */
  char act[12];         /* err | short | rename | grow */
  long arg;
  char a[512], b[512];
  struct fault *next;
};
static struct fault *faults;
static int logfd = -1, active;
static long long now_s, now_ns, mono_ns, mtime_s, step_s;
static int has_clock, has_mtime;
static uint64_t rnd = 1;
static char root[512];

#define MAXFD 256
static int sim_fd[MAXFD];       /* connection number + 1 */
static int conns;
static struct { char *data; long len, pos; long chunk; int err; } resp[32];
static int nresp;
static char reqbuf[MAXFD][2048];
static int reqlen[MAXFD];

static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

static void say(const char *fmt, ...) {
  if (logfd < 0) return;
  char b[1600];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  raw_write(logfd, b, n);
}

static char *slurp(const char *p, long *len) {
  int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) return NULL;
  long cap = 1 << 16, n = 0;
  char *b = malloc(cap + 1);
  for (;;) {
    long r = syscall(SYS_read, fd, b + n, cap - n);
    if (r <= 0) break;
    n += r;
    if (n == cap) { cap *= 2; b = realloc(b, cap + 1); }
  }
  syscall(SYS_close, fd);
  b[n] = 0;
  *len = n;
  return b;
}

__attribute__((constructor)) static void init(void) {
  const char *plan = getenv("SIM_PLAN"), *log = getenv("SIM_LOG");
  if (!plan || !log) return;
  logfd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
  /* keep the low descriptors as they would be without the simulator */
  int hi = fcntl(logfd, F_DUPFD_CLOEXEC, 200);
  if (hi >= 0) { syscall(SYS_close, logfd); logfd = hi; }
  long len;
  char *p = slurp(plan, &len);
  if (!p) return;
  for (char *save, *l = strtok_r(p, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
    char op[16], a[512], b[512];
    long x, y;
    if (sscanf(l, "clock %lld %lld", &now_s, &now_ns) == 2) { has_clock = 1; continue; }
    if (sscanf(l, "clockstep %lld", &step_s) == 1) continue;
    if (sscanf(l, "mtime %lld", &mtime_s) == 1) { has_mtime = 1; continue; }
    if (sscanf(l, "rand %ld", &x) == 1) { rnd = x; continue; }
    if (sscanf(l, "root %511s", root) == 1) continue;
    if (sscanf(l, "http %ld %ld %511s", &x, &y, a) == 3 && nresp < 32) {
      resp[nresp].chunk = x;
      resp[nresp].err = y;
      resp[nresp].data = slurp(a, &resp[nresp].len);
      nresp++;
      continue;
    }
    struct fault *f = calloc(1, sizeof *f);
    int n = sscanf(l, "%15s %d %11s %511s %511s", op, &f->n, f->act, a, b);
    if (n < 4) { free(f); continue; }
    f->op = -1;
    for (int i = 0; i < NOPS; i++) if (!strcmp(op, NAMES[i])) f->op = i;
    f->arg = atol(a);
    strcpy(f->a, a);
    if (n > 4) strcpy(f->b, b);
    f->next = faults;
    faults = f;
  }
  free(p);
  unsetenv("LD_PRELOAD"); /* child processes are not simulated */
  active = 1;
}

/* what the plan says about this call; file tree changes are carried out at once */
static struct fault *consult(int op) {
  int n = count[op]++;
  struct fault *hit = NULL;
  for (struct fault *f = faults; f; f = f->next) {
    if (f->op != op || !(f->n == n || (f->n < 0 && n >= -f->n - 1))) continue;
    if (!strcmp(f->act, "rename")) {
      syscall(SYS_renameat2, AT_FDCWD, f->a, AT_FDCWD, f->b, 2 /* RENAME_EXCHANGE */);
      say("!swap %s %s before %s#%d", f->a, f->b, NAMES[op], n);
    } else if (!strcmp(f->act, "resize")) {
      int fd = syscall(SYS_openat, AT_FDCWD, f->a, O_WRONLY | O_CLOEXEC, 0);
      if (fd >= 0) {
        long r = ftruncate(fd, atol(f->b));
        (void)r;
        syscall(SYS_close, fd);
      }
      say("!resize %s %s before %s#%d", f->a, f->b, NAMES[op], n);
    } else {
      hit = f;
      say("!%s#%d %s %ld", NAMES[op], n, f->act, f->arg);
    }
  }
  return hit;
}

static int fails(int op) {
  struct fault *f = consult(op);
  if (f && !strcmp(f->act, "err")) { errno = f->arg; return 1; }
  return 0;
}

#define NEXT(name) ({ static __typeof__(&name) fn; if (!fn) fn = dlsym(RTLD_NEXT, #name); fn; })

/* ---- files ---- */
static int sim_open(int dfd, const char *p, int flags, mode_t mode) {
  if (!active) return syscall(SYS_openat, dfd, p, flags, mode);
  if (fails(OPEN)) { int e = errno; say("open %s %s = -%d", p, (flags & O_ACCMODE) == O_RDONLY ? "r" : "w", e); errno = e; return -1; }
  int fd = syscall(SYS_openat, dfd, p, flags, mode);
  int e = errno;
  /* which file was it really? */
  char real[1024], link[64];
  real[0] = 0;
  if (fd >= 0) {
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    long n = syscall(SYS_readlinkat, AT_FDCWD, link, real, sizeof real - 1);
    real[n > 0 ? n : 0] = 0;
  }
  say("open %s %s = %s%s", p, (flags & O_ACCMODE) == O_RDONLY ? "r" : "w", fd >= 0 ? "" : "-", fd >= 0 ? real : strerrorname_np(e));
  errno = e;
  return fd;
}

int open64(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  return sim_open(AT_FDCWD, p, flags | O_LARGEFILE, m);
}
int open(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  return sim_open(AT_FDCWD, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  return sim_open(d, p, flags | O_LARGEFILE, m);
}
int openat(int d, const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  return sim_open(d, p, flags, m);
}

int statx(int d, const char *restrict p, int flags, unsigned mask, struct statx *restrict st) {
  if (!active) return syscall(SYS_statx, d, p, flags, mask, st);
  /* std probes for the call with null pointers, which the prototype rules out */
  const void *volatile vp = p, *volatile vs = st;
  if (!vp || !vs) return syscall(SYS_statx, d, p, flags, mask, st);
  if (fails(STAT)) { int e = errno; say("stat %s = -%d", *p ? p : "(fd)", e); errno = e; return -1; }
  int r = syscall(SYS_statx, d, p, flags, mask, st), e = errno;
  if (r == 0 && has_mtime && S_ISREG(st->stx_mode)) { st->stx_mtime.tv_sec = mtime_s; st->stx_mtime.tv_nsec = 0; }
  say("stat %s = %d", *p ? p : "(fd)", r);
  errno = e;
  return r;
}

char *realpath(const char *restrict p, char *restrict out) {
  char *r = NULL;
  if (active && fails(REAL)) { int e = errno; say("realpath %s = -%d", p, e); errno = e; return NULL; }
  r = NEXT(realpath)(p, out);
  int e = errno;
  if (active) say("realpath %s = %s", p, r ? r : "-");
  errno = e;
  return r;
}

/* standard streams by number, files by the path they really are; pipes to child processes and
   the like are not simulated (returns 0) */
static int name_fd(int fd, char *out, size_t cap) {
  if (fd >= 0 && fd <= 2) { snprintf(out, cap, "%d", fd); return 1; }
  char link[64];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  long n = syscall(SYS_readlinkat, AT_FDCWD, link, out, cap - 1);
  if (n <= 0 || out[0] != '/') return 0;
  out[n] = 0;
  return 1;
}

ssize_t read(int fd, void *b, size_t n) {
  char name[1024];
  if (!active || !name_fd(fd, name, sizeof name)) return syscall(SYS_read, fd, b, n);
  struct fault *f = consult(READ);
  ssize_t r;
  int e = 0;
  if (f && !strcmp(f->act, "err")) { r = -1; e = f->arg; }
  else {
    if (f && !strcmp(f->act, "short") && n > (size_t)f->arg) n = f->arg;
    r = syscall(SYS_read, fd, b, n);
    e = errno;
  }
  say("read %s = %zd", name, r);
  errno = e;
  return r;
}

ssize_t write(int fd, const void *b, size_t n) {
  char name[1024];
  if (!active || !name_fd(fd, name, sizeof name)) return raw_write(fd, b, n);
  struct fault *f = consult(WRITE);
  ssize_t r;
  int e = 0;
  if (f && !strcmp(f->act, "err")) { r = -1; e = f->arg; }
  else {
    if (f && !strcmp(f->act, "short") && n > (size_t)f->arg) n = f->arg;
    r = raw_write(fd, b, n);
    e = errno;
  }
  say("write %s = %zd", name, r);
  errno = e;
  return r;
}

ssize_t writev(int fd, const struct iovec *v, int n) {
  for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

ssize_t readv(int fd, const struct iovec *v, int n) {
  for (int i = 0; i < n; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

/* ---- time and randomness ---- */
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!active || !has_clock) return syscall(SYS_clock_gettime, c, t);
  mono_ns += 1000;
  if (c == CLOCK_REALTIME) { t->tv_sec = now_s; t->tv_nsec = now_ns; now_s += step_s; }
  else { t->tv_sec = 1000 + mono_ns / 1000000000; t->tv_nsec = mono_ns % 1000000000; }
  return 0;
}
time_t time(time_t *t) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned flags) {
  if (!active) return syscall(SYS_getrandom, b, n, flags);
  unsigned char *c = b;
  for (size_t i = 0; i < n; i++) {
    uint64_t z = rnd += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    c[i] = z >> 24;
  }
  return n;
}

/* ---- network: nothing ever leaves the process ---- */
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *hints, struct addrinfo **res) {
  if (!active) return EAI_FAIL;
  if (fails(DNS)) { say("dns %s = fail", node ? node : ""); return EAI_NONAME; }
  say("dns %s", node ? node : "");
  struct addrinfo h = {0};
  if (hints) h = *hints;
  h.ai_flags = AI_NUMERICHOST;
  h.ai_family = AF_INET;
  return NEXT(getaddrinfo)("127.0.0.1", svc, &h, res);
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (!active || (a->sa_family != AF_INET && a->sa_family != AF_INET6) || fd >= MAXFD) { errno = EACCES; return -1; }
  int port = ntohs(((const struct sockaddr_in *)a)->sin_port);
  if (fails(CONNECT)) { int e = errno; say("connect :%d = -%d", port, e); errno = e; return -1; }
  sim_fd[fd] = ++conns;
  reqlen[fd] = 0;
  say("connect :%d", port);
  return 0;
}
ssize_t send(int fd, const void *b, size_t n, int flags) {
  if (fd < 0 || fd >= MAXFD || !sim_fd[fd]) { errno = ENOTCONN; return -1; }
  struct fault *f = consult(SEND);
  if (f && !strcmp(f->act, "err")) { say("send = -%ld", f->arg); errno = f->arg; return -1; }
  if (f && !strcmp(f->act, "short") && n > (size_t)f->arg) n = f->arg;
  for (size_t i = 0; i < n && reqlen[fd] < 2047; i++) reqbuf[fd][reqlen[fd]++] = ((const char *)b)[i];
  reqbuf[fd][reqlen[fd]] = 0;
  if (strstr(reqbuf[fd], "\r\n\r\n")) {
    char line[512];
    snprintf(line, sizeof line, "%s", reqbuf[fd]);
    line[strcspn(line, "\r\n")] = 0;
    say("request %s", line);
    reqlen[fd] = 0;
  }
  return n;
}
ssize_t recv(int fd, void *b, size_t n, int flags) {
  if (fd < 0 || fd >= MAXFD || !sim_fd[fd]) { errno = ENOTCONN; return -1; }
  struct fault *f = consult(RECV);
  if (f && !strcmp(f->act, "err")) { say("recv = -%ld", f->arg); errno = f->arg; return -1; }
  int k = sim_fd[fd] - 1;
  if (k >= nresp) return 0;
  long left = resp[k].len - resp[k].pos;
  if (left == 0 && resp[k].err) { say("recv = -%d", resp[k].err); errno = resp[k].err; return -1; }
  if ((long)n > left) n = left;
  if (resp[k].chunk > 0 && (long)n > resp[k].chunk) n = resp[k].chunk;
  memcpy(b, resp[k].data + resp[k].pos, n);
  resp[k].pos += n;
  return n;
}
ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l) { return send(fd, b, n, flags); }
ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *l) { return recv(fd, b, n, flags); }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  struct sockaddr_in s = {.sin_family = AF_INET, .sin_port = htons(80)};
  s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s);
  *l = sizeof s;
  return 0;
}
