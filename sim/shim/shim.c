// Simulated operating system for one process of zk-regex (LD_PRELOAD).
// Everything the process asks of the disk, the clock, the random number generator, the allocator
// and the thread scheduler is answered here, from the plan in the shared image.
#define _GNU_SOURCE
#include "shim.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <link.h>
#include <ucontext.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define TLS static __thread __attribute__((tls_model("initial-exec")))

static struct image *im;
static int active;
/* How deep inside the simulator the thread is. The trap handler reads it: every change is a barrier. */
TLS volatile int depth;
#define ENTER() do { depth = depth + 1; __asm__ volatile("" ::: "memory"); } while (0)
#define LEAVE() do { __asm__ volatile("" ::: "memory"); depth = depth - 1; if (micro_left > 0 && !depth) single_step(); } while (0)
TLS int me;
TLS volatile int64_t micro_left;
TLS int micro_target;
static inline void single_step(void) { __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc"); }

// ---------------------------------------------------------------- raw system calls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void die(int code) { for (;;) RAW(SYS_exit_group, code); }

// ---------------------------------------------------------------- log, faults, scheduling points
static void mix(uint64_t v) {
  uint64_t h = im->loghash ^ v;
  h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  im->loghash = h;
}
static void logev(int op, int file, long res, uint64_t arg) {
  mix(((uint64_t)op << 56) ^ ((uint64_t)me << 48) ^ ((uint64_t)(uint16_t)file << 32) ^ (uint32_t)res);
  mix(arg);
  if (im->nlog < NLOG) {
    struct logent *e = &im->log[im->nlog++];
    e->op = op; e->thr = me; e->file = file; e->res = (int32_t)res; e->arg = arg;
  }
}
static void unsupported(const char *what) {
  im->unsupported = 1;
  strncpy(im->unsup, what, sizeof im->unsup - 1);
  die(96);
}
static void escape(const char *op, const char *path) {
  if (im->nesc < 8) {
    char *d = im->esc[im->nesc];
    size_t n = strlen(op);
    memcpy(d, op, n); d[n] = ' ';
    strncpy(d + n + 1, path, PATHLEN - n - 2);
  }
  im->nesc++;
}

struct thr { volatile int park; int state; void *on; uint64_t deadline; int timedout; int join; uint64_t since; pthread_t pt; void *(*fn)(void *); void *arg; int detached; };
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
static struct thr thr[MAXTHR];
static int nthr = 1;
static uint64_t next_preempt, next_hot, wait_seq, spin;
static uint64_t sched_rng;

static uint64_t rng_next(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static void futex_raw_wait(volatile int *a, int v) { RAW(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_raw_wake(volatile int *a) { RAW(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void give_to(int j) {
  int self = me;
  if (j == self) return;
  im->switches++;
  spin = 0;
  logev(200, 0, j, im->steps);
  __atomic_store_n(&thr[j].park, 1, __ATOMIC_SEQ_CST);
  futex_raw_wake(&thr[j].park);
}
static void wait_turn(void) {
  int self = me;
  while (!__atomic_load_n(&thr[self].park, __ATOMIC_SEQ_CST)) futex_raw_wait(&thr[self].park, 0);
  thr[self].park = 0;
}
static int runnable_other(uint32_t pick) {
  int c[MAXTHR], n = 0;
  for (int k = 1; k <= nthr; k++) { int j = (me + k) % nthr; if (j != me && thr[j].state == T_RUN) c[n++] = j; }
  if (!n) return -1;
  return c[pick % n];
}
static int choose_next(void) { // the current thread cannot run
  for (;;) {
    int j = runnable_other(im->sched_mode ? (uint32_t)(rng_next(&sched_rng) >> 33) : 0);
    if (j >= 0) return j;
    // nobody can run: jump the clock to the next deadline
    int b = -1;
    for (int k = 0; k < nthr; k++)
      if ((thr[k].state == T_FUTEX || thr[k].state == T_SLEEP) && thr[k].deadline != ~0ull && (b < 0 || thr[k].deadline < thr[b].deadline)) b = k;
    if (b < 0) { im->deadlock = 1; die(99); }
    if (im->clock_now < thr[b].deadline) { im->slept += thr[b].deadline - im->clock_now; im->clock_now = thr[b].deadline; }
    if (im->slept > 86400ull * 1000000000ull) { im->hang = 1; die(98); } // a day
    thr[b].timedout = thr[b].state == T_FUTEX;
    thr[b].state = T_RUN;
    if (b == me) return b;
  }
}
static void block(void) { // state of the current thread already says what it waits for
  im->wait_blocks++;
  int j = choose_next();
  if (j == me) return;
  give_to(j);
  wait_turn();
}
static void yield_to(uint32_t target) {
  int j = runnable_other(target);
  if (j < 0) return;
  give_to(j);
  wait_turn();
}
static void micro_arm(int64_t n, int target) {
  micro_left = n; micro_target = target; // starts when the simulator is left
}
static void sched_point(void) {
  im->steps++;
  if (next_preempt < im->npreempt && im->steps >= im->preempts[next_preempt].step) {
    struct preempt *p = &im->preempts[next_preempt++];
    if (nthr > 1) {
      if (p->micro) micro_arm(p->micro, p->target);
      else yield_to(p->target);
    }
  }
}
// A point where the thread meets the others: a file operation, a lock, an atomic or a static.
static void hot_point(void) {
  im->hot++;
  if (next_hot < im->nhot && im->hot >= im->hots[next_hot].step) {
    struct preempt *p = &im->hots[next_hot++];
    if (nthr > 1) {
      if (p->micro) micro_arm(p->micro, p->target);
      else yield_to(p->target);
    }
  }
  sched_point();
}
static void on_trap(int sig, siginfo_t *si, void *ctx) {
  ucontext_t *u = ctx;
  (void)sig; (void)si;
  // inside the simulator (which may have signals blocked) nothing is stepped; leaving it goes on
  if (micro_left <= 0 || depth) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
  im->micro_steps++;
  if (--micro_left > 0) return;
  u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
  int e = errno;
  ENTER();
  yield_to(micro_target);
  LEAVE();
  errno = e;
}

// Returns the fault that hits this operation, if any.
static struct fault *fault_for(int cls) {
  uint64_t n = ++im->opcount[cls];
  for (uint32_t i = 0; i < im->nfaults; i++) {
    struct fault *f = &im->faults[i];
    if (f->cls == (uint32_t)cls && n >= f->nth && n - f->nth < f->count) return f;
  }
  return 0;
}
// Several processes on one disk: each does as many file operations as it is given, then waits.
static int pin = -1, pout = -1;
static uint64_t slice;
static void pause_here(char why) {
  uint64_t n = 0;
  if (RAW(SYS_write, pout, &why, 1) != 1 || RAW(SYS_read, pin, &n, 8) != 8) die(93);
  slice = n;
}
static void crash(void) { im->crashed = 1; logev(201, 0, 0, 0); die(137); }
static uint64_t past_ops;          // operations of rounds before this one
static uint32_t next_move;
static void world_moves(uint64_t op);
static struct fault *op_begin(int cls) {
  if (pin >= 0) { if (!slice) pause_here('.'); slice--; }
  if (cls == CL_READ) sched_point(); else hot_point(); // definitions are read byte by byte
  uint64_t total = 0;
  for (int i = 0; i < NCLASS; i++) if (i != CL_ALLOC) total += im->opcount[i];
  if (total + past_ops > im->max_ops) { im->hang = 1; die(98); }
  if (next_move < im->nmoves) world_moves(total + past_ops + 1);
  im->clock_now += im->clock_step;
  struct fault *f = fault_for(cls);
  if (f) f->fired++;
  if (f && f->kind == FK_CRASH_BEFORE) crash();
  return f;
}
static void op_end(struct fault *f) { if (f && f->kind == FK_CRASH_AFTER) crash(); }

// ---------------------------------------------------------------- allocator
#define HEAP_SIZE (6ull << 30)
#define HEAP_AT 0x500000000000ull
static char *heap, *heap_end, *brk_;
static void *freel[512];
struct hdr { uint32_t cls, off; uint64_t size; };
static uint64_t class_size(int c) { return c < 64 ? (uint64_t)(c + 1) * 16 : (uint64_t)(4 + ((c - 64) & 3) + 1) << (8 + ((c - 64) >> 2)); }
static int class_of(uint64_t n) {
  if (n <= 1024) return n ? (int)((n + 15) / 16 - 1) : 0;
  int c = 64;
  while (class_size(c) < n) c++;
  return c;
}
static void heap_init(void) {
  long r = RAW(SYS_mmap, HEAP_AT, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r < 0 && r > -4096) die(97);
  heap = brk_ = (char *)r; heap_end = heap + HEAP_SIZE;
}
static void *alloc(uint64_t n, uint64_t align) {
  if (!heap) heap_init();
  if (n > (2ull << 30)) return 0;
  uint64_t want = align > 16 ? n + align : n;
  int c = class_of(want);
  char *p = freel[c];
  if (p) freel[c] = *(void **)p;
  else {
    uint64_t sz = class_size(c) + sizeof(struct hdr);
    if ((uint64_t)(heap_end - brk_) < sz) return 0;
    p = brk_ + sizeof(struct hdr); brk_ += sz;
  }
  struct hdr *h = (struct hdr *)p - 1;
  h->cls = c; h->off = 0; h->size = class_size(c);
  char *q = p;
  if (align > 16) {
    q = (char *)(((uintptr_t)p + align - 1) & ~(align - 1));
    if (q != p) { struct hdr *g = (struct hdr *)q - 1; g->cls = c; g->off = (uint32_t)(q - p); g->size = class_size(c) - (q - p); }
  }
  if (active) im->live += class_size(c);
  if (active && im->layout_salt) memset(q, (int)(im->layout_salt >> 8), n < 8192 ? n : 8192);
  return q;
}
static int ours(void *p) { return (char *)p >= heap && (char *)p < heap_end; }
static void dealloc(void *q) {
  if (!q || !ours(q)) return;
  struct hdr *h = (struct hdr *)q - 1;
  char *p = (char *)q - h->off;
  *(void **)p = freel[h->cls]; freel[h->cls] = p;
  if (active) im->live -= class_size(h->cls);
}
static int alloc_point(void) { // 1: the allocation fails
  if (!active || depth) return 0;
  ENTER();
  int e = errno;
  sched_point();
  uint64_t n = ++im->opcount[CL_ALLOC];
  int fail = 0;
  if (n > im->max_allocs) { im->hang = 1; die(98); }
  for (uint32_t i = 0; i < im->nfaults; i++) {
    struct fault *f = &im->faults[i];
    if (f->cls == CL_ALLOC && n >= f->nth && n - f->nth < f->count) {
      f->fired++;
      if (f->kind == FK_ERRNO) { fail = 1; logev(202, 0, 0, n); }
      else crash();
    }
  }
  errno = e;
  LEAVE();
  return fail;
}
EXPORT void *malloc(size_t n) {
  if (alloc_point()) { errno = ENOMEM; return 0; }
  ENTER(); void *p = alloc(n, 16); LEAVE();
  if (!p) errno = ENOMEM;
  return p;
}
EXPORT void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n) || alloc_point()) { errno = ENOMEM; return 0; }
  ENTER(); void *p = alloc(n, 16); if (p) memset(p, 0, n); LEAVE();
  if (!p) errno = ENOMEM;
  return p;
}
EXPORT void free(void *p) { ENTER(); dealloc(p); LEAVE(); }
EXPORT void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free(p); return 0; }
  if (alloc_point()) { errno = ENOMEM; return 0; }
  ENTER();
  void *q = 0;
  if (!ours(p)) { q = alloc(n, 16); if (q) memcpy(q, p, n); }
  else {
    uint64_t old = ((struct hdr *)p - 1)->size;
    if (old >= n && class_of(n) == class_of(old)) { LEAVE(); return p; }
    q = alloc(n, 16);
    if (q) { memcpy(q, p, old < n ? old : n); dealloc(p); }
  }
  LEAVE();
  if (!q) errno = ENOMEM;
  return q;
}
EXPORT int posix_memalign(void **out, size_t align, size_t n) {
  if (alloc_point()) return ENOMEM;
  ENTER(); void *p = alloc(n, align); LEAVE();
  if (!p) return ENOMEM;
  *out = p; return 0;
}
EXPORT void *aligned_alloc(size_t align, size_t n) { void *p = 0; int r = posix_memalign(&p, align, n); if (r) { errno = r; return 0; } return p; }
EXPORT void *memalign(size_t align, size_t n) { return aligned_alloc(align, n); }
EXPORT size_t malloc_usable_size(void *p) { return p && ours(p) ? ((struct hdr *)p - 1)->size : 0; }

// ---------------------------------------------------------------- disk
struct ofd { int used, refs, file, flags, kind; uint64_t pos; };   // kind 1 file, 2 dir, 3 urandom
#define NFD 1024
static struct ofd ofds[256];
static short fdmap[NFD]; // index + 1
static struct { int owner, ex; } locks[NFILES];

static char *fdata(int f) { return (char *)im + DATA_OFF + (uint64_t)im->files[f].extent * FILECAP; }
static int fd_ofd(int fd) { return fd >= 0 && fd < NFD && fdmap[fd] ? fdmap[fd] - 1 : -1; }

// Makes an absolute, normalised path. 0 if too long.
static int norm(const char *base, const char *path, char *out) {
  char tmp[2 * PATHLEN];
  size_t n = 0;
  if (path[0] != '/') { n = strlen(base); if (n >= PATHLEN) return 0; memcpy(tmp, base, n); tmp[n++] = '/'; }
  size_t m = strlen(path);
  if (n + m >= sizeof tmp) return 0;
  memcpy(tmp + n, path, m + 1);
  size_t o = 0;
  for (char *s = tmp; *s;) {
    while (*s == '/') s++;
    char *e = s;
    while (*e && *e != '/') e++;
    size_t l = e - s;
    if (!l) break;
    if (l == 1 && s[0] == '.') {}
    else if (l == 2 && s[0] == '.' && s[1] == '.') { while (o && out[o - 1] != '/') o--; if (o) o--; }
    else { if (o + l + 2 > PATHLEN) return 0; out[o++] = '/'; memcpy(out + o, s, l); o += l; }
    s = e;
  }
  if (!o) out[o++] = '/';
  out[o] = 0;
  return 1;
}
static int inside(const char *p) { size_t n = strlen(im->root); return !strncmp(p, im->root, n) && (p[n] == '/' || !p[n]); }
static int find(const char *p) {
  for (uint32_t i = 0; i < im->nfiles_used; i++)
    if (im->files[i].kind && !im->files[i].unlinked && !strcmp(im->files[i].path, p)) return i;
  return -1;
}
static int parent_ok(const char *p) { // 0 or errno
  char d[PATHLEN]; strcpy(d, p);
  char *s = strrchr(d, '/'); *s = 0;
  if (!inside(p)) return 0;
  int f = find(d);
  if (f < 0) return ENOENT;
  if (im->files[f].kind != 2) return ENOTDIR;
  return im->files[f].nowrite ? EACCES : 0;
}
static int mkfile(const char *p, int kind) {
  int f = -1;
  for (int i = 0; i < NFILES; i++) if (!im->files[i].kind) { f = i; break; }
  if (f < 0) unsupported("file table full");
  if ((uint32_t)f >= im->nfiles_used) im->nfiles_used = f + 1;
  struct file *x = &im->files[f];
  memset(x, 0, sizeof *x);
  strcpy(x->path, p);
  x->kind = kind; x->ino = ++im->nextino; x->outside = !inside(p); x->created = 1; x->touched = 1;
  if (kind == 1) {
    int e = -1;
    for (int i = 0; i < NFILES; i++) if (!im->extent_used[i]) { e = i; break; }
    if (e < 0) unsupported("extents");
    im->extent_used[e] = 1; x->extent = e;
  }
  return f;
}
static int opened(int f) { for (int i = 0; i < 256; i++) if (ofds[i].used && ofds[i].kind != 3 && ofds[i].file == f) return 1; return (im->files[f].holders & ~(1u << im->proc)) != 0; }
static void set_size(int f, uint64_t n) {
  struct file *x = &im->files[f];
  if (n > FILECAP) unsupported("file too large");
  if (n > x->size) memset(fdata(f) + x->size, 0, n - x->size);
  x->size = n; x->touched = 1;
}
static void drop(int f) {
  struct file *x = &im->files[f];
  if (x->kind == 1) im->extent_used[x->extent] = 0;
  x->kind = 0;
}
static void unlink_file(int f) { if (opened(f)) im->files[f].unlinked = 1; else drop(f); }
// What other programs do to the disk meanwhile.
static void world_moves(uint64_t op) {
  while (next_move < im->nmoves && im->moves[next_move].op <= op) {
    struct move *m = &im->moves[next_move++];
    int f = find(m->from), t = find(m->to);
    if (f < 0 || f == t) continue;
    if (t >= 0) unlink_file(t);
    strcpy(im->files[f].path, m->to);
    m->done = op;
    logev(203, f, 0, op);
  }
}
static uint64_t disk_used(void) { uint64_t t = 0; for (uint32_t i = 0; i < im->nfiles_used; i++) if (im->files[i].kind == 1) t += im->files[i].size; return t; }

// at-path resolution: 1 virtual (out filled), 0 real
static int special(const char *p) {
  if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) return 3;
  return 0;
}
static int resolve(int dirfd, const char *path, char *out) {
  const char *base = im->cwd;
  int o = fd_ofd(dirfd);
  if (!path[0]) return -3;
  if (dirfd != AT_FDCWD && path[0] != '/') {
    if (o < 0) return -1; // relative to a real directory
    base = im->files[ofds[o].file].path;
  }
  return norm(base, path, out) ? 1 : -2;
}
static int new_fd(int o) {
  int fd = (int)RAW(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
  if (fd < 0 || fd >= NFD) unsupported("descriptors");
  fdmap[fd] = o + 1; ofds[o].refs++;
  return fd;
}
static int new_ofd(int kind, int file, int flags) {
  for (int i = 0; i < 256; i++) if (!ofds[i].used) {
    ofds[i] = (struct ofd){1, 0, file, flags, kind, 0};
    if (kind != 3) im->files[file].holders |= 1u << im->proc;
    return i;
  }
  unsupported("open files");
  return -1;
}

static int do_open(int dirfd, const char *path, int flags, int mode) {
  if (!active || depth) return (int)ret(RAW(SYS_openat, dirfd, path, flags, mode));
  ENTER();
  char p[PATHLEN];
  int r = resolve(dirfd, path, p), res = -1, err = 0, f = -1;
  int acc = flags & O_ACCMODE, w = acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  struct fault *ft = 0;
  if (r == -1) { LEAVE(); return (int)ret(RAW(SYS_openat, dirfd, path, flags, mode)); }
  if (r < 0) { LEAVE(); errno = r == -3 ? ENOENT : ENAMETOOLONG; return -1; }
  f = find(p);
  if (special(p)) { res = new_fd(new_ofd(3, 0, flags)); goto out; }
  if (!inside(p) && f < 0 && (!w || !strncmp(p, "/dev/", 5))) { // reads of the real system pass through
    int fd = (int)RAW(SYS_openat, dirfd, path, flags, mode);
    LEAVE();
    return (int)ret(fd);
  }
  ft = op_begin(w ? CL_OPEN_W : CL_OPEN_R);
  f = find(p);
  if (ft && ft->kind == FK_ERRNO) { err = (int)ft->arg; goto out; }
  if ((flags & O_TMPFILE) == O_TMPFILE) { err = EOPNOTSUPP; goto out; }
  if (f < 0) {
    if (!(flags & O_CREAT)) { err = ENOENT; if (!inside(p)) escape("open", p); goto out; }
    if (path[strlen(path) - 1] == '/') { err = EISDIR; goto out; }
    if ((err = parent_ok(p))) goto out;
    f = mkfile(p, 1);
  } else {
    struct file *x = &im->files[f];
    if ((flags & O_CREAT) && (flags & O_EXCL)) { err = EEXIST; goto out; }
    if (x->kind == 2 && (w)) { err = EISDIR; goto out; }
    if (x->kind == 1 && ((flags & O_DIRECTORY) || path[strlen(path) - 1] == '/')) { err = ENOTDIR; goto out; }
    if (acc != O_WRONLY && x->noread) { err = EACCES; goto out; }
    if (acc != O_RDONLY && x->nowrite) { err = EACCES; goto out; }
    if ((flags & O_TRUNC) && x->kind == 1 && acc != O_RDONLY) set_size(f, 0);
  }
  res = new_fd(new_ofd(im->files[f].kind == 2 ? 2 : 1, f, flags));
  if (ft && ft->kind == FK_CRASH_INSIDE) crash();
out:
  logev(1 + w, f, res < 0 ? -err : 0, flags);
  op_end(ft);
  LEAVE();
  if (res < 0) errno = err;
  return res;
}
EXPORT int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, fl, m); }
EXPORT int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, fl, m); }
EXPORT int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(d, p, fl, m); }
EXPORT int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(d, p, fl, m); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static void wake_futex(void *a, int n);
static void ofd_put(int o) {
  if (--ofds[o].refs > 0) return;
  int f = ofds[o].file, k = ofds[o].kind;
  ofds[o].used = 0;
  if (k != 3) {
    int more = 0;
    for (int i = 0; i < 256; i++) if (ofds[i].used && ofds[i].kind != 3 && ofds[i].file == f) more = 1;
    if (!more) im->files[f].holders &= ~(1u << im->proc);
    if (locks[f].owner == o + 1) { locks[f].owner = 0; im->files[f].lockp = 0; wake_futex(&locks[f], MAXTHR); }
    if (im->files[f].unlinked && !opened(f)) drop(f);
  }
}
EXPORT int close(int fd) {
  if (!active || depth || fd_ofd(fd) < 0) return (int)ret(RAW(SYS_close, fd));
  ENTER();
  struct fault *ft = op_begin(CL_CLOSE);
  int o = fd_ofd(fd), err = 0;
  logev(3, ofds[o].file, 0, 0);
  fdmap[fd] = 0;
  RAW(SYS_close, fd);
  ofd_put(o);
  if (ft && ft->kind == FK_ERRNO) err = (int)ft->arg;
  op_end(ft);
  LEAVE();
  if (err) { errno = err; return -1; }
  return 0;
}
static uint64_t rnd_state;
static void fill_random(void *b, size_t n) {
  im->rand_calls++;
  unsigned char *p = b;
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(rng_next(&rnd_state) >> 24);
}
static ssize_t vread(int o, void *buf, size_t n, int64_t at) {
  if (ofds[o].kind == 3) { fill_random(buf, n); return n; }
  struct fault *ft = op_begin(CL_READ);
  int f = ofds[o].file;
  struct file *x = &im->files[f];
  long res;
  if (ofds[o].kind == 2) res = -EISDIR;
  else if ((ofds[o].flags & O_ACCMODE) == O_WRONLY) res = -EBADF;
  else if (ft && ft->kind == FK_ERRNO) res = -ft->arg;
  else {
    uint64_t pos = at >= 0 ? (uint64_t)at : ofds[o].pos;
    uint64_t m = pos < x->size ? x->size - pos : 0;
    if (m > n) m = n;
    if (ft && ft->kind == FK_ZERO) m = 0; // another program cut the file
    if (im->max_chunk_r && m > im->max_chunk_r) m = im->max_chunk_r;
    if (ft && ft->kind == FK_SHORT && m > 1) { uint64_t s = (uint64_t)ft->arg; if (s < 1) s = 1; if (m > s) m = s; }
    memcpy(buf, fdata(f) + pos, m);
    if (at < 0) ofds[o].pos += m;
    res = (long)m;
  }
  logev(4, f, res, n);
  op_end(ft);
  return res;
}
static ssize_t vwrite(int o, const void *buf, size_t n, int64_t at) {
  struct fault *ft = op_begin(CL_WRITE);
  int f = ofds[o].file;
  struct file *x = &im->files[f];
  long res;
  if (ofds[o].kind != 1 || (ofds[o].flags & O_ACCMODE) == O_RDONLY) res = -EBADF;
  else if (ft && ft->kind == FK_ERRNO) res = -ft->arg;
  else if (ft && ft->kind == FK_ZERO && n) res = 0;
  else {
    uint64_t pos = at >= 0 ? (uint64_t)at : (ofds[o].flags & O_APPEND) ? x->size : ofds[o].pos, m = n;
    if (im->max_chunk_w && m > im->max_chunk_w) m = im->max_chunk_w;
    if (ft && (ft->kind == FK_SHORT || ft->kind == FK_CRASH_INSIDE) && m > 1) {
      uint64_t s = (uint64_t)ft->arg % m; if (s < 1) s = 1;
      m = s;
    }
    int nospace = 0;
    if (im->capacity != ~0ull && pos + m > x->size) {
      uint64_t used = disk_used(), room = im->capacity > used ? im->capacity - used : 0;
      uint64_t grow = pos + m - x->size;
      if (grow > room) { uint64_t cut = grow - room; if (cut >= m) nospace = 1; else m -= cut; }
    }
    if (nospace && n) { res = -(long)im->capacity_errno; im->nospace++; }
    else {
      if (pos + m > FILECAP) unsupported("file too large");
      if (pos > x->size) memset(fdata(f) + x->size, 0, pos - x->size);
      memcpy(fdata(f) + pos, buf, m);
      if (pos + m > x->size) x->size = pos + m;
      x->touched = 1;
      if (at < 0) ofds[o].pos = pos + m;
      res = (long)m;
    }
    if (ft && ft->kind == FK_CRASH_INSIDE) crash();
  }
  logev(5, f, res, n);
  op_end(ft);
  return res;
}
static ssize_t std_write(int fd, const void *buf, size_t n) {
  struct fault *ft = op_begin(CL_STDIO);
  long res;
  if (ft && ft->kind == FK_ERRNO) res = -ft->arg;
  else if (ft && ft->kind == FK_ZERO && n) res = 0;
  else {
    uint64_t m = n;
    if (ft && ft->kind == FK_SHORT && m > 1) { m = (uint64_t)ft->arg % m; if (m < 1) m = 1; }
    uint32_t *l = &im->outlen[fd - 1];
    uint64_t c = m;
    if (*l + c > OUTCAP) c = OUTCAP - *l;
    memcpy(im->out[fd - 1] + *l, buf, c);
    *l += c;
    res = (long)m;
  }
  logev(6, fd, res, n);
  op_end(ft);
  return res;
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  int o = fd_ofd(fd);
  if (!active || depth || o < 0) return ret(RAW(SYS_read, fd, b, n));
  ENTER(); long r = vread(o, b, n, -1); LEAVE();
  return ret(r);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  int o = fd_ofd(fd);
  if (!active || depth || (o < 0 && fd != 1 && fd != 2)) return ret(RAW(SYS_write, fd, b, n));
  ENTER(); long r = o >= 0 ? vwrite(o, b, n, -1) : std_write(fd, b, n); LEAVE();
  return ret(r);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t at) {
  int o = fd_ofd(fd);
  if (!active || depth || o < 0) return ret(RAW(SYS_pread64, fd, b, n, at));
  ENTER(); long r = vread(o, b, n, at); LEAVE();
  return ret(r);
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t at) { return pread64(fd, b, n, at); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t at) {
  int o = fd_ofd(fd);
  if (!active || depth || o < 0) return ret(RAW(SYS_pwrite64, fd, b, n, at));
  ENTER(); long r = vwrite(o, b, n, at); LEAVE();
  return ret(r);
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { return pwrite64(fd, b, n, at); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  int o = fd_ofd(fd);
  if (!active || depth || o < 0) return ret(RAW(SYS_readv, fd, v, c));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  int o = fd_ofd(fd);
  if (!active || depth || (o < 0 && fd != 1 && fd != 2)) return ret(RAW(SYS_writev, fd, v, c));
  // one operation takes them all
  size_t k = 0, n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  if (n > FILECAP) n = FILECAP;
  ENTER();
  char *all = n ? (char *)RAW(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) : 0;
  for (int i = 0; i < c && k < n; i++) {
    size_t l = v[i].iov_len < n - k ? v[i].iov_len : n - k;
    memcpy(all + k, v[i].iov_base, l); k += l;
  }
  long r = o >= 0 ? vwrite(o, all, n, -1) : std_write(fd, all, n);
  if (n) RAW(SYS_munmap, all, n);
  LEAVE();
  return ret(r);
}
EXPORT off64_t lseek64(int fd, off64_t off, int wh) {
  int o = fd_ofd(fd);
  if (!active || depth || o < 0) return ret(RAW(SYS_lseek, fd, off, wh));
  ENTER();
  struct fault *ft = op_begin(CL_SEEK);
  int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)ofds[o].pos : (int64_t)im->files[ofds[o].file].size;
  long r = b + off < 0 ? -EINVAL : b + off;
  if (ft && ft->kind == FK_ERRNO) r = -ft->arg;
  if (r >= 0) ofds[o].pos = r;
  logev(7, ofds[o].file, r, wh);
  op_end(ft);
  LEAVE();
  return ret(r);
}
EXPORT off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
static int sync_fd(int fd, int nr) {
  int o = fd_ofd(fd);
  if (!active || depth || o < 0) return (int)ret(RAW(nr, fd));
  ENTER();
  struct fault *ft = op_begin(CL_SYNC);
  long r = ft && ft->kind == FK_ERRNO ? -ft->arg : 0;
  logev(8, ofds[o].file, r, 0);
  op_end(ft);
  LEAVE();
  return (int)ret(r);
}
EXPORT int fsync(int fd) { return sync_fd(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return sync_fd(fd, SYS_fdatasync); }
EXPORT int syncfs(int fd) { return sync_fd(fd, SYS_syncfs); }
EXPORT int ftruncate64(int fd, off64_t n) {
  int o = fd_ofd(fd);
  if (!active || depth || o < 0) return (int)ret(RAW(SYS_ftruncate, fd, n));
  ENTER();
  struct fault *ft = op_begin(CL_NS);
  long r = ft && ft->kind == FK_ERRNO ? -ft->arg : 0;
  if (!r && (ofds[o].kind != 1 || (ofds[o].flags & O_ACCMODE) == O_RDONLY)) r = -EINVAL;
  if (!r) set_size(ofds[o].file, n);
  logev(9, ofds[o].file, r, n);
  op_end(ft);
  LEAVE();
  return (int)ret(r);
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int fallocate64(int fd, int m, off64_t a, off64_t l) { (void)m; (void)a; (void)l; if (active && fd_ofd(fd) >= 0) { errno = EOPNOTSUPP; return -1; } return (int)ret(RAW(SYS_fallocate, fd, m, a, l)); }
EXPORT int fallocate(int fd, int m, off_t a, off_t l) { return fallocate64(fd, m, a, l); }
EXPORT int posix_fallocate64(int fd, off64_t a, off64_t l) { (void)a; (void)l; if (active && fd_ofd(fd) >= 0) return EOPNOTSUPP; return (int)-RAW(SYS_fallocate, fd, 0, a, l); }
EXPORT int posix_fadvise64(int fd, off64_t a, off64_t l, int x) { (void)fd; (void)a; (void)l; (void)x; return 0; }
EXPORT int posix_fadvise(int fd, off_t a, off_t l, int x) { (void)fd; (void)a; (void)l; (void)x; return 0; }

// ---------------------------------------------------------------- metadata
static uint64_t ambient(uint64_t what);
static void fill_stat(int f, struct stat *s) {
  struct file *x = &im->files[f];
  memset(s, 0, sizeof *s);
  s->st_mode = x->kind == 2 ? S_IFDIR | 0755 : S_IFREG | (x->nowrite ? 0444 : 0644);
  s->st_size = x->kind == 2 ? 4096 : x->size;
  s->st_ino = x->ino; s->st_dev = 77; s->st_nlink = x->unlinked ? 0 : 1; s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512;
  // written by this process: now; otherwise some time before it began, or whatever another clock said
  uint64_t t = im->clock0 + (x->touched ? im->clock_now : 0), a = ambient(100 + x->ino);
  if (a && !x->touched) t = a % 4 ? t - (a >> 8) % (t / 2 + 1) : t + (a >> 8) % 1000000000000ull;
  s->st_mtim.tv_sec = s->st_ctim.tv_sec = s->st_atim.tv_sec = t / 1000000000ull;
  s->st_mtim.tv_nsec = s->st_ctim.tv_nsec = s->st_atim.tv_nsec = t % 1000000000ull;
  if (a) {
    if (!x->unlinked) s->st_nlink += (a >> 3) % 3;
    s->st_uid = ambient(4) % 3 * 1000; s->st_gid = ambient(5) % 3 * 1000; s->st_dev += ambient(12) % 100;
    if (!(a & 4) && x->kind == 1) s->st_mode &= ~077;
  }
}
static long vstat(int dirfd, const char *path, int flags, struct stat *st, int *real) {
  *real = 0;
  char p[PATHLEN];
  int f;
  if ((!path || !path[0]) && (flags & AT_EMPTY_PATH)) {
    int o = fd_ofd(dirfd);
    if (o < 0 || ofds[o].kind == 3) { *real = 1; return 0; }
    f = ofds[o].file; p[0] = 0;
  } else {
    if (!path) return -EFAULT; // how the standard library finds out whether statx is there
    int r = resolve(dirfd, path, p);
    if (r == -1) { *real = 1; return 0; }
    if (r < 0) return r == -3 ? -ENOENT : -ENAMETOOLONG;
    f = find(p);
    if (f < 0 && !inside(p)) { *real = 1; return 0; }
  }
  struct fault *ft = op_begin(CL_STAT);
  if (p[0]) f = find(p);
  long r = f < 0 ? -ENOENT : 0;
  if (!r && p[0] && im->files[f].kind == 1 && path[strlen(path) - 1] == '/') r = -ENOTDIR;
  if (ft && ft->kind == FK_ERRNO) r = -ft->arg;
  if (!r && st) fill_stat(f, st);
  logev(10, f, r, 0);
  op_end(ft);
  return r;
}
static int gen_stat(int d, const char *p, struct stat *s, int fl) {
  if (!active || depth) return (int)ret(RAW(SYS_newfstatat, d, p, s, fl));
  ENTER(); int real; long r = vstat(d, p, fl, s, &real); if (real) r = RAW(SYS_newfstatat, d, p, s, fl); LEAVE();
  return (int)ret(r);
}
EXPORT int stat(const char *p, struct stat *s) { return gen_stat(AT_FDCWD, p, s, 0); }
EXPORT int stat64(const char *p, struct stat64 *s) { return gen_stat(AT_FDCWD, p, (struct stat *)s, 0); }
EXPORT int lstat(const char *p, struct stat *s) { return gen_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char *p, struct stat64 *s) { return gen_stat(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstat(int fd, struct stat *s) { return gen_stat(fd, "", s, AT_EMPTY_PATH); }
EXPORT int fstat64(int fd, struct stat64 *s) { return gen_stat(fd, "", (struct stat *)s, AT_EMPTY_PATH); }
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) { return gen_stat(d, p, s, fl); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) { return gen_stat(d, p, (struct stat *)s, fl); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *x) {
  if (!active || depth) return (int)ret(RAW(SYS_statx, d, p, fl, mask, x));
  ENTER();
  int real; struct stat s; long r = vstat(d, p, fl, &s, &real);
  if (real) r = RAW(SYS_statx, d, p, fl, mask, x);
  else if (!r) {
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS; x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_ino = s.st_ino; x->stx_nlink = s.st_nlink;
    x->stx_blksize = 4096; x->stx_blocks = s.st_blocks; x->stx_mtime.tv_sec = x->stx_ctime.tv_sec = x->stx_atime.tv_sec = s.st_mtim.tv_sec;
    x->stx_mtime.tv_nsec = x->stx_ctime.tv_nsec = x->stx_atime.tv_nsec = s.st_mtim.tv_nsec;
    x->stx_uid = s.st_uid; x->stx_gid = s.st_gid; x->stx_dev_minor = s.st_dev;
  }
  LEAVE();
  return (int)ret(r);
}
static int gen_access(int d, const char *p, int mode) {
  if (!active || depth) return (int)ret(RAW(SYS_faccessat, d, p, mode));
  ENTER();
  int real; struct stat s; long r = vstat(d, p, 0, &s, &real);
  if (real) r = RAW(SYS_faccessat, d, p, mode);
  else if (!r && (mode & W_OK) && !(s.st_mode & 0200)) r = -EACCES;
  LEAVE();
  return (int)ret(r);
}
EXPORT int access(const char *p, int m) { return gen_access(AT_FDCWD, p, m); }
EXPORT int faccessat(int d, const char *p, int m, int fl) { (void)fl; return gen_access(d, p, m); }

// namespace operations
#define NS_BEGIN(name, d, path) \
  char p[PATHLEN]; \
  ENTER(); \
  int rr = resolve(d, path, p); \
  if (rr < 0) { LEAVE(); errno = rr == -3 ? ENOENT : rr == -2 ? ENAMETOOLONG : EACCES; return -1; } \
  struct fault *ft = op_begin(CL_NS); \
  long r = ft && ft->kind == FK_ERRNO ? -ft->arg : 0; \
  int f = find(p); \
  if (!r && f < 0 && !inside(p)) { escape(name, p); r = -EACCES; }
#define NS_END(code) logev(code, f, r, 0); op_end(ft); LEAVE(); return (int)ret(r);
static int has_children(const char *p) {
  size_t n = strlen(p);
  for (uint32_t i = 0; i < im->nfiles_used; i++) if (im->files[i].kind && !im->files[i].unlinked && !strncmp(im->files[i].path, p, n) && im->files[i].path[n] == '/') return 1;
  return 0;
}
EXPORT int unlinkat(int d, const char *path, int flags) {
  if (!active || depth) return (int)ret(RAW(SYS_unlinkat, d, path, flags));
  NS_BEGIN("unlink", d, path)
  if (!r && f < 0) r = -ENOENT;
  if (!r && (flags & AT_REMOVEDIR)) { if (im->files[f].kind != 2) r = -ENOTDIR; else if (has_children(p)) r = -ENOTEMPTY; }
  if (!r && !(flags & AT_REMOVEDIR) && im->files[f].kind == 2) r = -EISDIR;
  if (!r) unlink_file(f);
  NS_END(11)
}
EXPORT int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
EXPORT int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int remove(const char *p) { int r = unlink(p); return r && errno == EISDIR ? rmdir(p) : r; }
EXPORT int mkdirat(int d, const char *path, mode_t m) {
  if (!active || depth) return (int)ret(RAW(SYS_mkdirat, d, path, m));
  NS_BEGIN("mkdir", d, path)
  if (!r && f >= 0) r = -EEXIST;
  if (!r) r = -parent_ok(p);
  if (!r) f = mkfile(p, 2);
  NS_END(12)
}
EXPORT int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
EXPORT int renameat2(int d, const char *path, int d2, const char *path2, unsigned flags) {
  if (!active || depth) return (int)ret(RAW(SYS_renameat2, d, path, d2, path2, flags));
  char q[PATHLEN];
  NS_BEGIN("rename", d, path)
  if (!r && !path2[0]) r = -ENOENT;
  if (!r && resolve(d2, path2, q) != 1) r = -EINVAL;
  if (!r && f < 0) r = -ENOENT;
  if (!r && !inside(q) && find(q) < 0) { escape("rename-to", q); r = -EACCES; }
  if (!r && flags & ~1u) r = -EINVAL;
  if (!r) r = -parent_ok(q);
  if (!r) {
    int g = find(q);
    if (g >= 0 && (flags & 1)) r = -EEXIST;
    else if (g >= 0 && im->files[g].kind == 2 && im->files[f].kind != 2) r = -EISDIR;
    else if (g >= 0 && im->files[g].kind != 2 && im->files[f].kind == 2) r = -ENOTDIR;
    else if (g >= 0 && g != f && im->files[g].kind == 2 && has_children(q)) r = -ENOTEMPTY;
    else if (g != f) {
      if (g >= 0) unlink_file(g);
      if (im->files[f].kind == 2) {
        size_t n = strlen(p);
        for (uint32_t i = 0; i < im->nfiles_used; i++) {
          struct file *x = &im->files[i];
          if (x->kind && (int)i != f && !strncmp(x->path, p, n) && x->path[n] == '/') {
            char t[2 * PATHLEN]; strcpy(t, q); strcat(t, x->path + n); t[PATHLEN - 1] = 0; strcpy(x->path, t);
          }
        }
      }
      strcpy(im->files[f].path, q); im->files[f].touched = 1; im->files[f].outside = !inside(q);
    }
  }
  NS_END(13)
}
EXPORT int renameat(int d, const char *p, int d2, const char *p2) { return renameat2(d, p, d2, p2, 0); }
EXPORT int rename(const char *p, const char *p2) { return renameat2(AT_FDCWD, p, AT_FDCWD, p2, 0); }
EXPORT int truncate64(const char *path, off64_t n) {
  if (!active || depth) return (int)ret(RAW(SYS_truncate, path, n));
  NS_BEGIN("truncate", AT_FDCWD, path)
  if (!r && f < 0) r = -ENOENT;
  if (!r) set_size(f, n);
  NS_END(14)
}
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
EXPORT int linkat(int d, const char *path, int d2, const char *path2, int fl) {
  if (!active || depth) return (int)ret(RAW(SYS_linkat, d, path, d2, path2, fl));
  char q[PATHLEN];
  NS_BEGIN("link", d, path)
  if (!r && f < 0) r = -ENOENT;
  if (!r && !path2[0]) r = -ENOENT;
  if (!r && resolve(d2, path2, q) != 1) r = -EINVAL;
  if (!r && !inside(q)) { escape("link-to", q); r = -EACCES; }
  if (!r && find(q) >= 0) r = -EEXIST;
  if (!r) r = -parent_ok(q);
  if (!r) { int g = mkfile(q, 1); set_size(g, im->files[f].size); memcpy(fdata(g), fdata(f), im->files[f].size); } // a copy: links are not modelled
  NS_END(15)
}
EXPORT int link(const char *p, const char *p2) { return linkat(AT_FDCWD, p, AT_FDCWD, p2, 0); }
EXPORT int symlinkat(const char *t, int d, const char *path) {
  if (!active || depth) return (int)ret(RAW(SYS_symlinkat, t, d, path));
  errno = EPERM; return -1;
}
EXPORT int symlink(const char *t, const char *p) { return symlinkat(t, AT_FDCWD, p); }
EXPORT ssize_t readlinkat(int d, const char *path, char *b, size_t n) {
  if (active && !depth) { char p[PATHLEN]; if (resolve(d, path, p) == 1 && inside(p)) { errno = find(p) < 0 ? ENOENT : EINVAL; return -1; } }
  return ret(RAW(SYS_readlinkat, d, path, b, n));
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
EXPORT int fchmodat(int d, const char *path, mode_t m, int fl) {
  if (!active || depth) return (int)ret(RAW(SYS_fchmodat, d, path, m, fl));
  NS_BEGIN("chmod", d, path)
  if (!r && f < 0) r = -ENOENT;
  if (!r) im->files[f].nowrite = !(m & 0200);
  NS_END(16)
}
EXPORT int chmod(const char *p, mode_t m) { return fchmodat(AT_FDCWD, p, m, 0); }
EXPORT int fchmod(int fd, mode_t m) { if (active && fd_ofd(fd) >= 0) return 0; return (int)ret(RAW(SYS_fchmod, fd, m)); }
EXPORT int fchown(int fd, uid_t u, gid_t g) { if (active && fd_ofd(fd) >= 0) return 0; return (int)ret(RAW(SYS_fchown, fd, u, g)); }
EXPORT int utimensat(int d, const char *path, const struct timespec *t, int fl) {
  if (!active || depth) return (int)ret(RAW(SYS_utimensat, d, path, t, fl));
  NS_BEGIN("utimens", d, path)
  if (!r && f < 0) r = -ENOENT;
  NS_END(17)
}
EXPORT int futimens(int fd, const struct timespec *t) { if (active && fd_ofd(fd) >= 0) return 0; return (int)ret(RAW(SYS_utimensat, fd, 0, t, 0)); }
EXPORT char *getcwd(char *b, size_t n) {
  if (!active || depth) { long r = RAW(SYS_getcwd, b, n); if (r < 0) { errno = (int)-r; return 0; } return b; }
  ENTER(); hot_point(); LEAVE();
  size_t l = strlen(im->cwd) + 1;
  if (!b) { if (n < l) n = l; b = malloc(n); if (!b) return 0; }
  if (n < l) { errno = ERANGE; return 0; }
  memcpy(b, im->cwd, l);
  return b;
}
EXPORT int chdir(const char *path) {
  if (!active || depth) return (int)ret(RAW(SYS_chdir, path));
  NS_BEGIN("chdir", AT_FDCWD, path)
  if (!r && f < 0) r = -ENOENT;
  if (!r && im->files[f].kind != 2) r = -ENOTDIR;
  if (!r) strcpy(im->cwd, p);
  NS_END(18)
}
EXPORT char *realpath(const char *path, char *out) {
  char p[PATHLEN];
  if (path && !path[0]) { errno = ENOENT; return 0; }
  if (!path || !norm(im ? im->cwd : "/", path, p)) { errno = ENAMETOOLONG; return 0; }
  if (active && inside(p) && find(p) < 0) { errno = ENOENT; return 0; }
  size_t n = strlen(p) + 1;
  if (!out) out = malloc(n);
  if (out) memcpy(out, p, n);
  return out;
}

// directory streams
struct vdir { int used, fd, file, next; struct dirent64 ent; };
static struct vdir dirs[16];
static int is_vdir(void *d) { return d >= (void *)dirs && d < (void *)(dirs + 16); }
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
static DIR *vopendir(int fd) {
  int o = fd_ofd(fd);
  for (int i = 0; i < 16; i++) if (!dirs[i].used) { dirs[i] = (struct vdir){.used = 1, .fd = fd, .file = ofds[o].file}; return (DIR *)&dirs[i]; }
  unsupported("directory streams");
  return 0;
}
EXPORT DIR *fdopendir(int fd) { if (!active || fd_ofd(fd) < 0) return REAL(fdopendir)(fd); return vopendir(fd); }
EXPORT DIR *opendir(const char *path) {
  if (!active || depth) return REAL(opendir)(path);
  char p[PATHLEN];
  if (resolve(AT_FDCWD, path, p) != 1) { errno = path[0] ? ENAMETOOLONG : ENOENT; return 0; }
  if (!inside(p) && find(p) < 0) return REAL(opendir)(path);
  int fd = do_open(AT_FDCWD, path, O_RDONLY | O_DIRECTORY, 0);
  return fd < 0 ? 0 : vopendir(fd);
}
EXPORT struct dirent64 *readdir64(DIR *d) {
  if (!is_vdir(d)) return REAL(readdir64)(d);
  struct vdir *v = (struct vdir *)d;
  ENTER();
  struct fault *ft = op_begin(CL_STAT);
  if (ft && ft->kind == FK_ERRNO) { LEAVE(); errno = (int)ft->arg; return 0; }
  const char *base = im->files[v->file].path; size_t n = strlen(base);
  struct dirent64 *r = 0;
  // entries come in an order that depends on the seed: real directories promise none
  while (v->next < 2 * NFILES && !r) {
    int k = v->next++;
    int i = (im->seed & 1) ? NFILES - 1 - (k % NFILES) : k % NFILES;
    if (k >= NFILES) break;
    struct file *x = &im->files[i];
    if (!x->kind || x->unlinked || strncmp(x->path, base, n) || x->path[n] != '/' || strchr(x->path + n + 1, '/')) continue;
    memset(&v->ent, 0, sizeof v->ent);
    v->ent.d_ino = x->ino; v->ent.d_type = x->kind == 2 ? DT_DIR : DT_REG; v->ent.d_reclen = sizeof v->ent;
    strncpy(v->ent.d_name, x->path + n + 1, 255);
    r = &v->ent;
  }
  op_end(ft);
  LEAVE();
  return r;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) { if (!is_vdir(d)) return REAL(closedir)(d); struct vdir *v = (struct vdir *)d; v->used = 0; return close(v->fd); }
EXPORT int dirfd(DIR *d) { if (!is_vdir(d)) return REAL(dirfd)(d); return ((struct vdir *)d)->fd; }

// descriptors
static int vdup(int fd, int min) {
  int o = fd_ofd(fd);
  int n = (int)RAW(SYS_fcntl, fd, F_DUPFD_CLOEXEC, min);
  if (n < 0) { errno = -n; return -1; }
  if (n >= NFD) unsupported("descriptors");
  fdmap[n] = o + 1; ofds[o].refs++;
  return n;
}
EXPORT int dup(int fd) { if (!active || fd_ofd(fd) < 0) return (int)ret(RAW(SYS_dup, fd)); return vdup(fd, 0); }
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
  int o = fd_ofd(fd);
  if (!active || o < 0) return (int)ret(RAW(SYS_fcntl, fd, cmd, arg));
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return vdup(fd, (int)arg);
  if (cmd == F_GETFL) return ofds[o].flags;
  if (cmd == F_GETFD) return FD_CLOEXEC;
  return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return fcntl64(fd, cmd, arg); }
EXPORT ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
  if (active && (fd_ofd(i) >= 0 || fd_ofd(o) >= 0)) { errno = ENOSYS; return -1; }
  return ret(RAW(SYS_copy_file_range, i, a, o, b, n, f));
}
EXPORT ssize_t sendfile64(int o, int i, off64_t *a, size_t n) {
  if (active && (fd_ofd(i) >= 0 || fd_ofd(o) >= 0)) { errno = ENOSYS; return -1; }
  return ret(RAW(SYS_sendfile, o, i, a, n));
}
EXPORT ssize_t sendfile(int o, int i, off_t *a, size_t n) { return sendfile64(o, i, a, n); }
EXPORT int flock(int fd, int op) {
  int o = fd_ofd(fd);
  if (!active || depth || o < 0) return (int)ret(RAW(SYS_flock, fd, op));
  ENTER();
  hot_point();
  if (pin >= 0) { if (!slice) pause_here('.'); slice--; }
  int f = ofds[o].file, r = 0;
  if ((op & ~LOCK_NB) == LOCK_UN) { if (locks[f].owner == o + 1) { locks[f].owner = 0; im->files[f].lockp = 0; wake_futex(&locks[f], MAXTHR); } }
  else while ((locks[f].owner && locks[f].owner != o + 1) || (im->files[f].lockp && im->files[f].lockp != im->proc + 1)) {
    if (op & LOCK_NB) { r = -EWOULDBLOCK; break; }
    if (im->files[f].lockp != im->proc + 1) { pause_here('B'); continue; }
    thr[me].state = T_FUTEX; thr[me].on = &locks[f]; thr[me].deadline = ~0ull; thr[me].since = ++wait_seq;
    block();
  }
  if (!r && (op & ~LOCK_NB) != LOCK_UN) { locks[f].owner = o + 1; im->files[f].lockp = im->proc + 1; }
  LEAVE();
  return (int)ret(r);
}

// ---------------------------------------------------------------- randomness, time, identity
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!active) return ret(RAW(SYS_getrandom, b, n, fl));
  fill_random(b, n);
  return n;
}
EXPORT int getentropy(void *b, size_t n) { if (!active) return (int)ret(RAW(SYS_getrandom, b, n, 0)) < 0 ? -1 : 0; fill_random(b, n); return 0; }
EXPORT pid_t getpid(void) { return active ? (pid_t)im->pid : (pid_t)RAW(SYS_getpid); }
EXPORT pid_t getppid(void) { return active ? (pid_t)(im->pid - 7) : (pid_t)RAW(SYS_getppid); }
EXPORT pid_t gettid(void) { return active ? (pid_t)im->pid + me : (pid_t)RAW(SYS_gettid); }
static uint64_t now(int clk) {
  im->clock_calls++;
  im->clock_now += im->clock_step;
  uint64_t t = im->clock_now;
  if (im->clock_jump_at && im->clock_calls >= im->clock_jump_at && (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE)) t += im->clock_jump;
  if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) t += im->clock0;
  return t;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
  if (!active) return (int)ret(RAW(SYS_clock_gettime, c, t));
  uint64_t n = now(c);
  t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(struct timeval *t, void *z) { (void)z; struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *o) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
static int sim_sleep(uint64_t until) {
  ENTER();
  hot_point();
  if (pin >= 0) pause_here('S'); // the others go on meanwhile
  thr[me].state = T_SLEEP; thr[me].deadline = until;
  block();
  LEAVE();
  return 0;
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *rem) {
  if (!active || depth) return (int)ret(RAW(SYS_nanosleep, t, rem));
  return sim_sleep(im->clock_now + t->tv_sec * 1000000000ull + t->tv_nsec);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
  if (!active || depth) return (int)-RAW(SYS_clock_nanosleep, c, fl, t, rem);
  uint64_t n = t->tv_sec * 1000000000ull + t->tv_nsec;
  if (fl & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) n -= im->clock0; } else n += im->clock_now;
  return sim_sleep(n);
}
EXPORT int sched_yield(void) {
  if (!active || depth) return 0;
  ENTER(); hot_point(); if (nthr > 1) yield_to(0); LEAVE();
  return 0;
}
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, 0); }

// ---------------------------------------------------------------- threads
static void wake_futex(void *a, int n) {
  while (n-- > 0) {
    int b = -1;
    for (int k = 0; k < nthr; k++) if (thr[k].state == T_FUTEX && thr[k].on == a && (b < 0 || thr[k].since < thr[b].since)) b = k;
    if (b < 0) return;
    thr[b].state = T_RUN; thr[b].timedout = 0;
  }
}
static long sim_futex(int *addr, int op, int val, const struct timespec *ts, int bitset) {
  (void)bitset;
  int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  ENTER();
  hot_point();
  long r = 0;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    im->futex_waits++;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) r = -EAGAIN;
    else {
      struct thr *t = &thr[me];
      t->state = T_FUTEX; t->on = addr; t->since = ++wait_seq; t->timedout = 0; t->deadline = ~0ull;
      if (ts) {
        uint64_t n = ts->tv_sec * 1000000000ull + ts->tv_nsec;
        if (cmd == FUTEX_WAIT) n += im->clock_now; else if (op & FUTEX_CLOCK_REALTIME) n -= im->clock0;
        t->deadline = n;
      }
      logev(20, 0, 0, 0);
      block();
      r = thr[me].timedout ? -ETIMEDOUT : 0;
    }
  } else if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int before = 0, after = 0;
    for (int k = 0; k < nthr; k++) before += thr[k].state == T_FUTEX && thr[k].on == addr;
    wake_futex(addr, val);
    for (int k = 0; k < nthr; k++) after += thr[k].state == T_FUTEX && thr[k].on == addr;
    r = before - after;
    logev(21, 0, r, 0);
  } else unsupported("futex operation");
  LEAVE();
  return r;
}
EXPORT long syscall(long n, ...) {
  va_list v; va_start(v, n);
  long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
  va_end(v);
  if (active && !depth) {
    if (n == SYS_futex) return ret(sim_futex((int *)a, (int)b, (int)c, (const struct timespec *)d, (int)f));
    if (n == SYS_getrandom) return getrandom((void *)a, b, (unsigned)c);
    if (n == SYS_gettid) return gettid();
    if (n == SYS_getpid) return getpid();
    if (n == SYS_statx) return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    if (n == SYS_renameat2) return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
    if (n == SYS_copy_file_range && (fd_ofd((int)a) >= 0 || fd_ofd((int)c) >= 0)) { errno = ENOSYS; return -1; }
  }
  return ret(raw6(n, a, b, c, d, e, f));
}

static pthread_key_t exit_key;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void thread_gone(void *v) {
  // runs after the destructors of thread locals; once more, to be behind other keys
  intptr_t round = (intptr_t)v;
  if (round < 3) { pthread_setspecific(exit_key, (void *)(round + 1)); return; }
  ENTER();
  thr[me].state = T_DONE;
  logev(23, 0, me, 0);
  for (int k = 0; k < nthr; k++) if (thr[k].state == T_JOIN && thr[k].join == me) thr[k].state = T_RUN;
  int j = choose_next();
  give_to(j);
  // the rest of the exit of this thread is invisible to the others
}
static void *thread_main(void *v) {
  int id = (int)(intptr_t)v;
  me = id;
  depth = 1;
  pthread_setspecific(exit_key, (void *)1);
  wait_turn();
  depth = 0;
  return thr[id].fn(thr[id].arg);
}
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!active) return real_create(out, at, fn, arg);
  ENTER();
  struct fault *ft = op_begin(CL_THREAD);
  if (ft && ft->kind == FK_ERRNO) { LEAVE(); return (int)ft->arg; }
  if (nthr >= MAXTHR) unsupported("threads");
  int id = nthr;
  thr[id] = (struct thr){.state = T_RUN, .fn = fn, .arg = arg};
  nthr++;
  int r = real_create(out, at, thread_main, (void *)(intptr_t)id);
  if (r) unsupported("pthread_create");
  thr[id].pt = *out;
  im->threads++;
  logev(22, 0, id, 0);
  LEAVE();
  return 0;
}
EXPORT int pthread_join(pthread_t t, void **res) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!active) return real_join(t, res);
  ENTER();
  hot_point();
  for (int k = 1; k < nthr; k++) if (thr[k].state != T_FREE && pthread_equal(thr[k].pt, t)) {
    while (thr[k].state != T_DONE) { thr[me].state = T_JOIN; thr[me].join = k; block(); }
    break;
  }
  int r = real_join(t, res);
  LEAVE();
  return r;
}

// ---------------------------------------------------------------- instrumented code
// The driver of C06 is compiled with calls at its atomic operations and at its loads and stores.
static char *static_lo, *static_hi, *relro_lo, *relro_hi;
static int find_statics(struct dl_phdr_info *i, size_t n, void *v) {
  (void)n; (void)v;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *h = &i->dlpi_phdr[k];
    char *a = (char *)i->dlpi_addr + h->p_vaddr;
    if (h->p_type == PT_LOAD && (h->p_flags & PF_W)) { if (!static_lo || a < static_lo) static_lo = a; if (a + h->p_memsz > static_hi) static_hi = a + h->p_memsz; }
    if (h->p_type == PT_GNU_RELRO) { relro_lo = a; relro_hi = a + h->p_memsz; }
  }
  return 1; // the first one is the program
}
static inline int is_static(const void *p) { const char *a = p; return a >= static_lo && a < static_hi && !(a >= relro_lo && a < relro_hi); }
TLS int near_static; // atomic operations still to come that may belong to what a static led to
static void touched_static(const void *p) {
  if (!active || depth || nthr < 2 || !is_static(p)) return;
  int e = errno;
  ENTER();
  im->statics++;
  near_static = 12;
  if (im->hot > 20000000) { im->hang = 1; die(98); }
  hot_point();
  LEAVE();
  errno = e;
}
static void atomic_point(const volatile void *p) {
  if (!active || depth || nthr < 2) return;
  int e = errno;
  ENTER();
  im->atomics++;
  if (im->hot > 20000000) { im->hang = 1; die(98); }
  // a thread that spins lets the others go on in the end
  if (++spin > 400) { spin = 0; yield_to(0); }
  // reference counts on the heap are many and say little; what a static leads to is shared
  if (is_static((const void *)p)) { near_static = 12; im->statics++; hot_point(); }
  else if (near_static > 0) { near_static--; hot_point(); }
  else sched_point();
  LEAVE();
  errno = e;
}
#define COV(n) \
  EXPORT void __sanitizer_cov_load##n(void *a) { touched_static(a); } \
  EXPORT void __sanitizer_cov_store##n(void *a) { touched_static(a); }
COV(1) COV(2) COV(4) COV(8) COV(16)
#define ATOMIC(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int o) { (void)o; atomic_point(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int o) { (void)o; atomic_point(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int o) { (void)o; atomic_point(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int o) { (void)o; atomic_point(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int o) { (void)o; atomic_point(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int o) { (void)o; atomic_point(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int o) { (void)o; atomic_point(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int o) { (void)o; atomic_point(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int o) { (void)o; atomic_point(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { (void)o; (void)f; atomic_point(a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int o) { (void)o; }
EXPORT void __tsan_init(void) {}

// ---------------------------------------------------------------- surroundings
// What a process can learn about the machine and the session it runs in.
extern char **environ;
static uint64_t ambient(uint64_t what) {
  if (!im->ambient) return 0;
  uint64_t s = im->ambient ^ (what * 0x9e3779b97f4a7c15ull);
  return rng_next(&s);
}
EXPORT char *getenv(const char *name) {
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  if (!active || !im->ambient || !strncmp(name, "RUST_", 5) || !strncmp(name, "LD_", 3)) return 0;
  static const char *values[] = {"1", "0", "", "true", "/sim/x", "C", "never", "-17", "65536"};
  uint64_t h = 0xcbf29ce484222325ull;
  for (const char *c = name; *c; c++) h = (h ^ (uint8_t)*c) * 0x100000001b3ull;
  h = ambient(h);
  return h % 3 ? (char *)values[(h >> 8) % (sizeof values / sizeof *values)] : 0;
}
EXPORT char *secure_getenv(const char *name) { return getenv(name); }
static int processors(void) { return im->ambient ? 1 + (int)(ambient(1) % (ambient(2) % 2 ? 3 : 200)) : 4; }
EXPORT int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
  if (!active) return (int)ret(RAW(SYS_sched_getaffinity, pid, size, set)) < 0 ? -1 : 0;
  memset(set, 0, size);
  for (int i = 0; i < processors() && i < (int)size * 8; i++) CPU_SET_S(i, size, set);
  return 0;
}
static long (*real_sysconf)(int);
EXPORT long sysconf(int what) {
  if (active && (what == _SC_NPROCESSORS_ONLN || what == _SC_NPROCESSORS_CONF)) return processors();
  if (active && (what == _SC_PHYS_PAGES || what == _SC_AVPHYS_PAGES)) return 1000000 + (long)(ambient(3) % 1000000);
  if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  return real_sysconf(what);
}
EXPORT uid_t getuid(void) { return active ? (uid_t)(ambient(4) % 3 * 1000) : (uid_t)RAW(SYS_getuid); }
EXPORT uid_t geteuid(void) { return active ? (uid_t)(ambient(4) % 3 * 1000) : (uid_t)RAW(SYS_geteuid); }
EXPORT gid_t getgid(void) { return active ? (gid_t)(ambient(5) % 3 * 1000) : (gid_t)RAW(SYS_getgid); }
EXPORT gid_t getegid(void) { return active ? (gid_t)(ambient(5) % 3 * 1000) : (gid_t)RAW(SYS_getegid); }
EXPORT int isatty(int fd) {
  if (active && fd >= 0 && fd < 3 && ambient(6 + fd) % 2) return 1;
  errno = ENOTTY;
  return 0;
}
EXPORT int gethostname(char *b, size_t n) {
  char name[24] = "host";
  if (active) { uint64_t h = ambient(10); for (int i = 0; i < (int)(h % 12); i++) name[4 + i] = 'a' + (char)(h >> (8 + i * 4)) % 16; }
  if (n) { strncpy(b, name, n); b[n - 1] = 0; }
  return 0;
}
EXPORT int getrusage(int who, struct rusage *u) {
  if (!active) return (int)ret(RAW(SYS_getrusage, who, u)) < 0 ? -1 : 0;
  memset(u, 0, sizeof *u);
  uint64_t t = now(CLOCK_MONOTONIC);
  u->ru_utime.tv_sec = t / 1000000000ull; u->ru_utime.tv_usec = t / 1000ull % 1000000ull;
  u->ru_maxrss = 5000 + ambient(11) % 100000;
  return 0;
}
EXPORT clock_t clock(void) { return active ? (clock_t)(now(CLOCK_MONOTONIC) / 1000) : 0; }

// ---------------------------------------------------------------- rounds
// The same faults again from here on; what the process holds.
EXPORT uint64_t zksim_round(uint64_t *fds, uint64_t *threads) {
  for (int i = 0; i < NCLASS; i++) { if (i != CL_ALLOC) past_ops += im->opcount[i]; im->opcount[i] = 0; }
  uint64_t n = 0;
  for (int i = 0; i < NFD; i++) if (fdmap[i]) n++;
  *fds = n;
  n = 0;
  for (int i = 0; i < nthr; i++) if (thr[i].state != T_DONE) n++;
  *threads = n;
  return im->live;
}

// ---------------------------------------------------------------- start
__attribute__((constructor)) static void start(void) {
  real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  char *s = getenv("ZKSIM_FD");
  if (!s) return;
  int fd = atoi(s);
  long r = RAW(SYS_mmap, 0x700000000000ull, IMAGE_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, 0);
  if (r < 0 && r > -4096) die(95);
  RAW(SYS_close, fd);
  im = (struct image *)r;
  if (im->magic != MAGIC) die(94);
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  pthread_key_create(&exit_key, thread_gone);
  char *shared = getenv("ZKSIM_DISK");
  if (shared) {
    int dfd = atoi(shared);
    r = RAW(SYS_mmap, (char *)im + DISK_OFF, IMAGE_SIZE - DISK_OFF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, dfd, DISK_OFF);
    if (r < 0 && r > -4096) die(95);
    RAW(SYS_close, dfd);
  }
  if (im->nprocs > 1) {
    // whoever plans the schedule is at the other end of these
    pin = (int)RAW(SYS_fcntl, 0, F_DUPFD_CLOEXEC, 500);
    pout = (int)RAW(SYS_fcntl, 1, F_DUPFD_CLOEXEC, 500);
    int null = (int)RAW(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
    if (pin < 0 || pout < 0 || null < 0) die(95);
    RAW(SYS_dup3, null, 0, 0); RAW(SYS_dup3, null, 1, 0);
    RAW(SYS_close, null);
  }
  unsetenv("ZKSIM_FD"); unsetenv("ZKSIM_DISK"); unsetenv("LD_PRELOAD"); unsetenv("ZKSIM_PAD");
  struct rlimit rl = {60, 65};
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  struct itimerval it = {{0, 0}, {400, 0}};
  setitimer(ITIMER_REAL, &it, 0);
  struct sigaction sa = {0};
  sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, 0);
  rnd_state = im->seed; sched_rng = im->seed ^ 0xabcdef;
  if (!heap) heap_init();
  if (im->layout_salt) brk_ += (im->layout_salt % 997) * 16 + ((im->layout_salt >> 20) % 61) * 4096;
  dl_iterate_phdr(find_statics, 0);
  thr[0].state = T_RUN;
  im->clock_now = 0;
  if (pin >= 0) pause_here('.');
  active = 1;
}
