#include "simfs.h"
#include "rt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/stat.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif

extern "C" void simfs_restorer();
__asm__(".text\n.globl simfs_restorer\n.p2align 4\nsimfs_restorer:\n mov $15,%rax\n syscall\n nop\n nop\n");

namespace simfs {
const char* kind_name[] = {"none", "error", "short-read", "premature-eof", "file-shrinks", "file-grows", "tail-zeroed", "errors-from-here-on", "short-reads-from-here-on"};
std::vector<Log> log;
static volatile char sel;
static bool on, avail;
struct File { char path[128]; char* data; size_t len, cap; };
static File files[16];
static int nfiles;
struct Fd { int file; long pos; bool open, dir; };
static Fd fds[64];
static const int FD0 = 900;
static Fault plan[64];
static int nplan, ncalls, nreads, nfired[K_NKINDS];
static Log raw_log[512];
static int nlog;

static long sysc(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static int leftover_file = -1;
// an older copy lies beside the file, above it and in the current directory
static bool is_leftover(const char* p) { return leftover_file >= 0 && strstr(p, "tokenizer.json"); }
static int lookup(const char* p) {
  for (int i = 0; i < nfiles; i++) if (i != leftover_file && !strcmp(files[i].path, p)) return i;
  return is_leftover(p) ? leftover_file : -1;
}
static bool is_virtual(const char* p) { return p && (!strncmp(p, "/simfs", 6) || is_leftover(p)); }
static bool is_dir(const char* p) {
  size_t n = strlen(p);
  while (n > 1 && p[n - 1] == '/') n--;
  if (n == 6) return true;
  for (int i = 0; i < nfiles; i++) if (!strncmp(files[i].path, p, n) && files[i].path[n] == '/') return true;
  return false;
}
static Fd* vfd(long fd) {
  if (fd < FD0 || fd >= FD0 + 64) return nullptr;
  Fd* f = &fds[fd - FD0];
  return f->open ? f : nullptr;
}
static void fill_stat(struct stat* st, int file) {
  memset(st, 0, sizeof *st);
  st->st_mode = file < 0 ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = file < 0 ? 4096 : (long)files[file].len;
  st->st_blksize = 4096;
  st->st_nlink = 1;
  st->st_ino = 100 + file;
}
static long do_stat(const char* p, struct stat* st) {
  int f = lookup(p);
  if (f >= 0) { fill_stat(st, f); return 0; }
  if (is_dir(p)) { fill_stat(st, -1); return 0; }
  return -ENOENT;
}
static void apply(int file, const Fault& f) {
  if (file < 0) { if (nfiles - (leftover_file >= 0) != 1) return; file = leftover_file == 0; }
  File& x = files[file];
  if (f.kind == K_SHRINK) { if ((size_t)f.arg < x.len) x.len = f.arg; }
  else if (f.kind == K_GROW) {
    for (long i = 0; i < f.arg && x.len < x.cap; i++) x.data[x.len++] = "{\"junk\":1}"[i % 10];
  } else if (f.kind == K_ZEROTAIL) {
    if ((size_t)f.arg < x.len) memset(x.data + f.arg, 0, x.len - f.arg);
  }
}
static void lim_min(long* lim, long n) { if (n < 1) n = 1; if (n < *lim) *lim = n; }
// returns true and sets r when a fault replaces the call
static bool faulted(long nr, int file, long* r, long* lim) {
  ncalls++;
  bool hit = false;
  for (int i = 0; i < nplan; i++) {
    const Fault& f = plan[i];
    bool on = f.kind == K_ERR_ON || f.kind == K_TRICKLE;
    if (on ? plan[i].at > ncalls : plan[i].at != ncalls) continue;
    switch (f.kind) {
      case K_ERR: *r = -f.arg; nfired[K_ERR]++; hit = true; break;
      case K_SHORT: if (nr == SYS_read || nr == SYS_pread64 || nr == SYS_readv) { lim_min(lim, f.arg); nfired[K_SHORT]++; } break;
      case K_ERR_ON: *r = -f.arg; nfired[K_ERR_ON]++; hit = true; break;
      case K_TRICKLE: if (nr == SYS_read || nr == SYS_pread64 || nr == SYS_readv) { lim_min(lim, f.arg); nfired[K_TRICKLE]++; } break;
      case K_EOF: if (nr == SYS_read || nr == SYS_pread64 || nr == SYS_readv) { *r = 0; nfired[K_EOF]++; hit = true; } break;
      default: apply(file, f); nfired[f.kind]++; break;
    }
  }
  return hit;
}
static long serve(long nr, long a, long b, long c, long d, long e, long f, bool* handled) {
  *handled = true;
  long r = 0, lim = 1l << 40;
  switch (nr) {
    case SYS_open: case SYS_openat: {
      const char* p = (const char*)(nr == SYS_open ? a : b);
      if (!is_virtual(p)) break;
      int file = lookup(p);
      if (faulted(nr, file, &r, &lim)) return r;
      if (file < 0) {
        if (!is_dir(p)) return -ENOENT;
      }
      for (int i = 0; i < 64; i++) if (!fds[i].open) { fds[i] = {file, 0, true, file < 0}; return FD0 + i; }
      return -EMFILE;
    }
    case SYS_close: {
      Fd* x = vfd(a);
      if (!x) break;
      int file = x->file;
      x->open = false;
      if (faulted(nr, file, &r, &lim)) return r;
      return 0;
    }
    case SYS_read: case SYS_pread64: case SYS_readv: {
      Fd* x = vfd(a);
      if (!x) break;
      if (faulted(nr, x->file, &r, &lim)) return r;
      if (x->dir) return -EISDIR;
      nreads++;
      File& fl = files[x->file];
      struct iovec one = {(void*)b, (size_t)c}, *iov = &one;
      int n = 1;
      if (nr == SYS_readv) { iov = (struct iovec*)b; n = (int)c; }
      long pos = nr == SYS_pread64 ? d : x->pos, got = 0;
      for (int i = 0; i < n; i++) {
        long k = (long)fl.len - pos;
        if (k < 0) k = 0;
        if (k > (long)iov[i].iov_len) k = iov[i].iov_len;
        if (got + k > lim) k = lim - got;
        memcpy(iov[i].iov_base, fl.data + pos, k);
        pos += k; got += k;
      }
      if (nr != SYS_pread64) x->pos = pos;
      return got;
    }
    case SYS_lseek: {
      Fd* x = vfd(a);
      if (!x) break;
      if (faulted(nr, x->file, &r, &lim)) return r;
      long base = c == SEEK_SET ? 0 : c == SEEK_CUR ? x->pos : x->dir ? 0x7fffffffffffffffl : (long)files[x->file].len;
      long np = x->dir && c == SEEK_END ? base : base + b;
      if (np < 0) return -EINVAL;
      return x->pos = np;
    }
    case SYS_fstat: {
      Fd* x = vfd(a);
      if (!x) break;
      if (faulted(nr, x->file, &r, &lim)) return r;
      fill_stat((struct stat*)b, x->dir ? -1 : x->file);
      return 0;
    }
    case SYS_newfstatat: {
      const char* p = (const char*)b;
      Fd* x = vfd(a);
      if (x && p && !*p) {
        if (faulted(nr, x->file, &r, &lim)) return r;
        fill_stat((struct stat*)c, x->dir ? -1 : x->file);
        return 0;
      }
      if (!is_virtual(p)) break;
      if (faulted(nr, lookup(p), &r, &lim)) return r;
      return do_stat(p, (struct stat*)c);
    }
    case SYS_stat: case SYS_lstat: {
      const char* p = (const char*)a;
      if (!is_virtual(p)) break;
      if (faulted(nr, lookup(p), &r, &lim)) return r;
      return do_stat(p, (struct stat*)b);
    }
    case SYS_statx: {
      const char* p = (const char*)b;
      Fd* x = vfd(a);
      struct stat s;
      if (x && p && !*p) {
        if (faulted(nr, x->file, &r, &lim)) return r;
        fill_stat(&s, x->dir ? -1 : x->file);
      } else {
        if (!is_virtual(p)) break;
        if (faulted(nr, lookup(p), &r, &lim)) return r;
        r = do_stat(p, &s);
        if (r < 0) return r;
      }
      struct statx* o = (struct statx*)e;
      memset(o, 0, sizeof *o);
      o->stx_mask = STATX_BASIC_STATS;
      o->stx_mode = s.st_mode; o->stx_size = s.st_size; o->stx_blksize = 4096; o->stx_nlink = 1; o->stx_ino = s.st_ino;
      return 0;
    }
    case SYS_access: case SYS_faccessat: case 439: {
      const char* p = (const char*)(nr == SYS_access ? a : b);
      if (!is_virtual(p)) break;
      if (faulted(nr, lookup(p), &r, &lim)) return r;
      return lookup(p) >= 0 || is_dir(p) ? 0 : -ENOENT;
    }
    case SYS_mmap: {
      Fd* x = (d & MAP_ANONYMOUS) ? nullptr : vfd(e);
      if (!x) break;
      if (faulted(nr, x->file, &r, &lim)) return r;
      long m = sysc(SYS_mmap, a, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (m < 0) return m;
      File& fl = files[x->file];
      for (long i = 0; i < b && f + i < (long)fl.len; i++) ((char*)m)[i] = fl.data[f + i];
      sysc(SYS_mprotect, m, b, c, 0, 0, 0);
      return m;
    }
    case SYS_ioctl: case SYS_fcntl: case SYS_fadvise64: case SYS_flock: {
      Fd* x = vfd(a);
      if (!x) break;
      if (nr == SYS_ioctl) return -ENOTTY;
      return 0;
    }
    default: break;
  }
  *handled = false;
  return 0;
}
static void handler(int, siginfo_t*, void* u) {
  sel = 0;
  ucontext_t* c = (ucontext_t*)u;
  greg_t* g = c->uc_mcontext.gregs;
  long nr = g[REG_RAX];
  bool h;
  int f0 = 0;
  for (int i = 0; i < K_NKINDS; i++) f0 += nfired[i];
  long r = serve(nr, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9], &h);
  if (h) {
    int f1 = 0;
    for (int i = 0; i < K_NKINDS; i++) f1 += nfired[i];
    if (nlog < 512) raw_log[nlog++] = {(int)nr, r, f1 - f0};
  } else {
    r = sysc(nr, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
  }
  g[REG_RAX] = r;
  if (on) sel = 1;
}
struct ksigaction { void* h; unsigned long flags; void* restorer; unsigned long mask; };
bool init() {
  ksigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.h = (void*)handler;
  sa.flags = SA_SIGINFO | 0x04000000 /* SA_RESTORER */ | SA_NODEFER;
  sa.restorer = (void*)simfs_restorer;
  if (sysc(SYS_rt_sigaction, SIGSYS, (long)&sa, 0, 8, 0, 0)) return false;
  if (sysc(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 1, (long)simfs_restorer, 16, (long)&sel, 0)) return false;
  sysc(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 0, 0, 0, 0, 0);
  avail = true;
  return true;
}
void clear() {
  for (int i = 0; i < nfiles; i++) delete[] files[i].data;
  nfiles = 0;
  leftover_file = -1;
}
void put(const std::string& path, const std::string& data) {
  int i = nfiles - 1;
  while (i >= 0 && strcmp(files[i].path, path.c_str())) i--;
  if (i < 0) { i = nfiles++; files[i].data = nullptr; }
  else delete[] files[i].data;
  File& f = files[i];
  snprintf(f.path, sizeof f.path, "%s", path.c_str());
  f.cap = data.size() + 4096;
  f.data = new char[f.cap];
  f.len = data.size();
  memcpy(f.data, data.data(), data.size());
}
void leftover(const std::string& data) {
  put("an older copy", data);
  leftover_file = 0;
  while (strcmp(files[leftover_file].path, "an older copy")) leftover_file++;
}
void begin(const std::vector<Fault>& p) {
  nplan = (int)(p.size() < 64 ? p.size() : 64);
  for (int i = 0; i < nplan; i++) plan[i] = p[i];
  ncalls = nreads = nlog = 0;
  memset(nfired, 0, sizeof nfired);
  // the dispatch is per thread and not inherited over fork
  sysc(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 1, (long)simfs_restorer, 16, (long)&sel, 0);
  on = true;
  sel = 1;
}
void end() {
  on = false;
  sel = 0;
  sysc(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 0, 0, 0, 0, 0);
  log.assign(raw_log, raw_log + nlog);
}
int calls() { return ncalls; }
int reads() { return nreads; }
int fired(int k) { return nfired[k]; }
int open_handles() { int n = 0; for (auto& f : fds) n += f.open; return n; }
void reset_handles() { for (auto& f : fds) f.open = false; }
}  // namespace simfs
