#include "rt.h"

#include <dlfcn.h>
#include <execinfo.h>
#include <errno.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unwind.h>
#include <wchar.h>

#include <new>

#define INL static inline __attribute__((always_inline))
#define unlikely(x) __builtin_expect(!!(x), 0)
#define likely(x) __builtin_expect(!!(x), 1)
#define PC() ((uintptr_t)__builtin_return_address(0))

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __data_start, _end;
}

namespace rt {

static const uintptr_t ARENA = 0x100000000000ull;
static const uintptr_t ARENA_SZ = 1ull << 30;
static const uintptr_t STATE = 0x110000000000ull;   // ARENA_SZ / 8
static const uintptr_t SHADOW = 0x120000000000ull;  // ARENA_SZ / 8 * 32
static const uintptr_t GSHADOW = 0x130000000000ull;
static uintptr_t GLB, GLB_SZ;
static uint64_t heap_limit = 700ull << 20;
static bool heap_strict;   // reaching the limit is a violation

SharedOut* out;
void (*flip_cb)(int);
int reuse_mode;
static Ambient amb;
static Stats st;
static bool run_on;        // inside begin_run..end
static bool race_on;
static int last_tid_multi; // >1 threads exist

struct Tls {
  int in_sut;
  int tid;
  int64_t countdown;
  uint64_t ev;
  OpCtl* op;
  uint64_t op_ev0;
  int depth;
  uintptr_t stk[256];
  int guard_depth;
  struct { void (*d)(void*); void* o; } ex[64];
  int nex;
};
static __thread Tls tls;

uint64_t rnd(uint64_t* s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// ------------------------------------------------------------------ threads
enum TState { T_NONE, T_RUN, T_BLOCK, T_SLEEP, T_DONE };
struct Thr {
  int state;
  volatile int go;
  const void* on;      // blocked on
  int why;
  uint64_t wake_at;    // for sleeps / timed waits (0: none)
  bool timed_out;
  uint32_t vc[MAXT];
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool sut_thread;
  bool detached;
  uint64_t prio;
  uint64_t ev;         // copy of tls.ev at the last switch
};
static Thr thr[MAXT];
static int nthr = 1;
static int cur = 0;
static SchedCfg sc;
static uint64_t srng;
static bool multi;     // scheduling active
static uint64_t clock_jump;
static uint64_t clock_rng;
static int64_t wall_off;
static uint64_t pct_points[16];
static int npct;
static uint64_t pct_low;
static int64_t base_count; // bookkeeping of pending countdown
static uint64_t quantum_start;
static int replay_pos[MAXT];
static uint64_t entropy_state;

INL long sysc(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

static uint64_t total_events() {
  uint64_t t = 0;
  for (int i = 0; i < nthr; i++) t += (i == tls.tid) ? tls.ev : thr[i].ev;
  return t;
}
uint64_t step() { return total_events(); }
uint64_t sim_now() { return amb.clock0 + clock_jump + total_events() * 3; }
int self() { return tls.tid; }
bool in_sut() { return tls.in_sut != 0; }

static void hash_in(uint64_t v) {
  if (!out) return;
  uint64_t h = out->sched_hash;
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  out->sched_hash = h * 0x100000001b3ull;
}

// ------------------------------------------------------------------ reports
static int take_stack(uint64_t* pcs, uintptr_t top) {
  int n = 0;
  if (top) pcs[n++] = top;
  for (int i = tls.depth - 1; i >= 0 && n < 24; i--)
    if (i < 256) pcs[n++] = tls.stk[i];
  return n;
}

static void publish() {
  st.events = total_events();
  st.sim_ns = sim_now() - amb.clock0;
  if (out) out->st = st;
}

static uintptr_t rep_pc;
static bool show_stack;  // TSIM_STACK=1: native backtrace of a violation, on stderr
void violation(const char* kind, const char* fmt, ...) {
  tls.in_sut = 0;
  if (show_stack) {
    void* f[64];
    backtrace_symbols_fd(f, backtrace(f, 64), 2);
  }
  if (out && !out->violated) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(out->msg, sizeof out->msg, fmt, ap);
    va_end(ap);
    snprintf(out->kind, sizeof out->kind, "%s", kind);
    out->npcs[0] = take_stack(out->pcs[0], rep_pc);
    out->violated = 1;
    publish();
  }
  sysc(SYS_exit_group, 77);
  __builtin_unreachable();
}
#define VIOL(pc, ...) (rep_pc = (pc), violation(__VA_ARGS__))

// ------------------------------------------------------------------ heap
struct Hdr {                 // 64 bytes before the user block
  uint64_t magic;
  uint64_t size;
  Hdr *prev, *next;          // live list
  uint32_t seq;
  uint32_t cls;
  uint32_t off;              // from block start to Hdr
  uint32_t kind;             // 1 operator new, 2 malloc
  uintptr_t pc;
  uint64_t canary;
};
static const uint64_t MAGIC_LIVE = 0x51ab1e00c0ffee01ull, MAGIC_DEAD = 0xdeadbeefdeadbeefull;
static const uint64_t CANARY = 0x5ca1ab1e0ddba11ull;
static uintptr_t bump, arena_hi;
static Hdr live_head;
static uint64_t live_b, live_n;
static uint32_t seq_ctr;
static const int NCLS = 200;
struct FreeList { Hdr *head, *tail; uint64_t bytes; };
static FreeList fl[NCLS];
static uint64_t free_bytes;

uint64_t live_bytes() { return live_b; }
uint64_t live_blocks() { return live_n; }
uint32_t alloc_seq() { return seq_ctr; }

INL bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
INL uint8_t* state_of(uintptr_t a) { return (uint8_t*)(STATE + ((a - ARENA) >> 3)); }
INL uint64_t* shadow_of(uintptr_t a) {
  if (in_arena(a)) return (uint64_t*)(SHADOW + ((a - ARENA) >> 3) * 32);
  return (uint64_t*)(GSHADOW + ((a - GLB) >> 3) * 32);
}

static size_t cls_size(size_t n, uint32_t* cls) {
  // total block size (header + user + right redzone), by class
  n = (n + 15) & ~(size_t)15;
  if (n <= 1024) { *cls = n / 16; return n; }
  int c = 65;
  size_t s = 1280;
  while (s < n) { s += s / 4; s = (s + 63) & ~(size_t)63; c++; }
  *cls = c < NCLS ? c : NCLS - 1;
  return s;
}

static void sync_purge(uintptr_t a, size_t n);
static uint64_t syncs_in_heap;

static void* arena_alloc(size_t n, size_t align, uint32_t kind, uintptr_t pc) {
  if (n > heap_limit || live_b + n > heap_limit) {
    if (heap_strict) VIOL(pc, "memory-exhausted", "the call holds %llu bytes and wants %llu more", (unsigned long long)live_b, (unsigned long long)n);
    return nullptr;
  }
  uint32_t cls;
  size_t extra = align > 16 ? align : 0;
  size_t tot = cls_size(sizeof(Hdr) + ((n + 15) & ~(size_t)15) + 16 + extra, &cls);
  uintptr_t blk = 0;
  if (reuse_mode && fl[cls].head && !extra && (reuse_mode == 1 || fl[cls].bytes > tot * 64)) {
    Hdr* h = fl[cls].head;
    if (cls < 65 || h->off + sizeof(Hdr) > 0) {
      fl[cls].head = h->next;
      if (!h->next) fl[cls].tail = nullptr;
      fl[cls].bytes -= tot;
      free_bytes -= tot;
      blk = (uintptr_t)h - h->off;
    }
  }
  if (!blk) {
    if (bump + tot > ARENA + ARENA_SZ) return nullptr;
    if (!reuse_mode && bump > ARENA + ARENA_SZ / 4) reuse_mode = 2;   // a long run: from here on freed memory comes back, late
    blk = bump;
    bump += tot;
    if (bump > arena_hi) arena_hi = bump;
  }
  uintptr_t user = blk + sizeof(Hdr);
  if (extra) user = (user + align - 1) & ~(uintptr_t)(align - 1);
  Hdr* h = (Hdr*)(user - sizeof(Hdr));
  h->magic = MAGIC_LIVE;
  h->size = n;
  h->seq = ++seq_ctr;
  h->cls = cls;
  h->off = (uint32_t)((uintptr_t)h - blk);
  h->kind = kind;
  h->pc = pc;
  h->canary = CANARY;
  h->prev = live_head.prev;
  h->next = &live_head;
  live_head.prev->next = h;
  live_head.prev = h;
  live_b += n;
  live_n++;
  memset((void*)user, amb.fill, n);
  size_t pad = ((n + 15) & ~(size_t)15) + 16 - n;
  memset((void*)(user + n), 0x5C, pad);
  // addressability
  memset(state_of(blk), 0xFA, (user - blk) >> 3);
  uint8_t* s = state_of(user);
  memset(s, 8, n >> 3);
  s += n >> 3;
  if (n & 7) *s++ = n & 7;
  memset(s, 0xFA, (size_t)(state_of(user + n + pad) - s));
  if (race_on) {
    uint64_t* sh = shadow_of(user);
    size_t gran = (n + 7) >> 3;
    if (kind == 1 && multi) {
      uint64_t v = ((uint64_t)thr[tls.tid].vc[tls.tid] << 32) | ((uint64_t)tls.tid << 24) | (0xFFull << 16) | (1u << 8) | 4;
      for (size_t i = 0; i < gran; i++) { sh[4 * i] = v; sh[4 * i + 1] = sh[4 * i + 2] = sh[4 * i + 3] = 0; }
    } else {
      memset(sh, 0, gran * 32);
    }
  }
  return (void*)user;
}

static void bad_free(uintptr_t a, uintptr_t pc) {
  uint8_t s = *state_of(a);
  VIOL(pc, "memory-error", s == 0xFD ? "double free of heap block" : "free of an address that is not a heap block");
}

static void race_check_free(uintptr_t a, size_t n, uintptr_t pc);

static void arena_free(void* p, uint32_t kind, uintptr_t pc) {
  uintptr_t a = (uintptr_t)p;
  Hdr* h = (Hdr*)(a - sizeof(Hdr));
  if ((a & 15) || *state_of((uintptr_t)h) == 0xFD || *state_of((uintptr_t)h) == 0 || h->magic != MAGIC_LIVE) bad_free(a, pc);
  size_t n = h->size;
  if (h->canary != CANARY) VIOL(pc, "memory-error", "heap underflow: bytes before a block were overwritten");
  size_t pad = ((n + 15) & ~(size_t)15) + 16 - n;
  for (size_t i = 0; i < pad; i++)
    if (((uint8_t*)a)[n + i] != 0x5C) VIOL(pc, "memory-error", "heap overflow: bytes behind a block of %zu bytes were overwritten (offset %zu)", n, n + i);
  if (race_on && multi && tls.in_sut && kind == 1) race_check_free(a, n, pc);
  if (syncs_in_heap) sync_purge(a, n);
  h->prev->next = h->next;
  h->next->prev = h->prev;
  live_b -= n;
  live_n--;
  h->magic = MAGIC_DEAD;
  memset((void*)a, 0xDD, n);
  memset(state_of((uintptr_t)h), 0xFD, (sizeof(Hdr) + n + pad) >> 3);
  if (reuse_mode) {
    uint32_t c = h->cls;
    h->next = nullptr;
    uint32_t cc;
    size_t tot = cls_size(sizeof(Hdr) + ((n + 15) & ~(size_t)15) + 16, &cc);
    if (cc == c && h->off == 0) {
      if (reuse_mode == 1) {
        h->next = fl[c].head;
        fl[c].head = h;
        if (!fl[c].tail) fl[c].tail = h;
      } else {
        if (fl[c].tail) fl[c].tail->next = h; else fl[c].head = h;
        fl[c].tail = h;
      }
      fl[c].bytes += tot;
      free_bytes += tot;
    }
  }
}

void check_heap() {
  for (Hdr* h = live_head.next; h != &live_head; h = h->next) {
    uintptr_t a = (uintptr_t)h + sizeof(Hdr);
    size_t n = h->size, pad = ((n + 15) & ~(size_t)15) + 16 - n;
    if (h->canary != CANARY || h->magic != MAGIC_LIVE) violation("memory-error", "heap underflow: bytes before a block were overwritten");
    for (size_t i = 0; i < pad; i++)
      if (((uint8_t*)a)[n + i] != 0x5C) violation("memory-error", "heap overflow: bytes behind a block of %zu bytes were overwritten (offset %zu)", n, n + i);
  }
}

int leaked_since(uint32_t seq, char* buf, size_t n, uint64_t* pcs, int* npcs) {
  int k = 0;
  size_t o = 0;
  if (buf && n) buf[0] = 0;
  for (Hdr* h = live_head.prev; h != &live_head; h = h->prev) {
    if (h->seq <= seq) continue;
    k++;
    if (buf && k <= 4) o += snprintf(buf + o, o < n ? n - o : 0, "%s%lu bytes", k > 1 ? ", " : "", (unsigned long)h->size);
    if (pcs && npcs && *npcs < 8) pcs[(*npcs)++] = h->pc;
  }
  return k;
}

// ICU's regular-expression engine (libicui18n) does not survive every failed
// allocation (it crashes or matches differently), so no fault is injected below
// it; allocations of the rest of ICU are.
static uintptr_t icuuc_lo, icuuc_hi, i18n_lo, i18n_hi, exe_lo, exe_hi;
static int find_libs(struct dl_phdr_info* i, size_t, void*) {
  uintptr_t lo = ~(uintptr_t)0, hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    if (i->dlpi_phdr[k].p_type != PT_LOAD) continue;
    uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
    if (a < lo) lo = a;
    if (b > hi) hi = b;
  }
  if (!i->dlpi_name || !*i->dlpi_name) { if (!exe_hi) exe_lo = lo, exe_hi = hi; }
  else if (strstr(i->dlpi_name, "libicuuc.")) icuuc_lo = lo, icuuc_hi = hi;
  else if (strstr(i->dlpi_name, "libicui18n.")) i18n_lo = lo, i18n_hi = hi;
  return 0;
}
static _Unwind_Reason_Code walk_step(struct _Unwind_Context* c, void* p) {
  uintptr_t ip = _Unwind_GetIP(c);
  int* r = (int*)p;
  if (ip - i18n_lo < i18n_hi - i18n_lo) { *r = 1; return _URC_END_OF_STACK; }
  if (++r[1] > 4 && ip - exe_lo < exe_hi - exe_lo) return _URC_END_OF_STACK;
  return r[1] > 60 ? _URC_END_OF_STACK : _URC_NO_REASON;
}
static bool exempt(uintptr_t pc) {
  if (pc - i18n_lo < i18n_hi - i18n_lo) return true;
  if (pc - icuuc_lo >= icuuc_hi - icuuc_lo) return false;
  int r[2] = {0, 0};
  int s = tls.in_sut;
  tls.in_sut = 0;
  _Unwind_Backtrace(walk_step, r);
  tls.in_sut = s;
  return r[0];
}

static bool alloc_fails(uintptr_t pc) {
  OpCtl* c = tls.op;
  if (!c || exempt(pc)) return false;
  uint32_t i = ++c->allocs;
  st.allocs++;
  bool f = false;
  switch (c->fault.mode) {
    case AF_ONCE: f = i == c->fault.nth; break;
    case AF_FROM: f = i >= c->fault.nth; break;
    case AF_BURST: f = i >= c->fault.nth && i < c->fault.nth + c->fault.arg; break;
    case AF_EVERY: f = c->fault.arg && i >= c->fault.nth && (i - c->fault.nth) % c->fault.arg == 0; break;
  }
  if (f) { c->fired++; st.alloc_faults++; }
  return f;
}

static void sched_hint();

static void* do_alloc(size_t n, size_t align, uint32_t kind, uintptr_t pc) {
  if (!tls.in_sut) {
    return align > 16 ? __libc_memalign(align, n) : __libc_malloc(n ? n : 1);
  }
  if (alloc_fails(pc)) return nullptr;
  return arena_alloc(n, align, kind, pc);
}
static void do_free(void* p, uint32_t kind, uintptr_t pc) {
  if (!p) return;
  if (in_arena((uintptr_t)p)) arena_free(p, kind, pc);
  else __libc_free(p);
}

}  // namespace rt
using namespace rt;

static void* must(size_t n, size_t al, uintptr_t pc) {
  void* p = do_alloc(n, al, 1, pc);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return must(n, 0, PC()); }
void* operator new[](size_t n) { return must(n, 0, PC()); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 0, 1, PC()); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 0, 1, PC()); }
void* operator new(size_t n, std::align_val_t a) { return must(n, (size_t)a, PC()); }
void* operator new[](size_t n, std::align_val_t a) { return must(n, (size_t)a, PC()); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, (size_t)a, 1, PC()); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, (size_t)a, 1, PC()); }
void operator delete(void* p) noexcept { do_free(p, 1, PC()); }
void operator delete[](void* p) noexcept { do_free(p, 1, PC()); }
void operator delete(void* p, size_t) noexcept { do_free(p, 1, PC()); }
void operator delete[](void* p, size_t) noexcept { do_free(p, 1, PC()); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p, 1, PC()); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, 1, PC()); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p, 1, PC()); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p, 1, PC()); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p, 1, PC()); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, 1, PC()); }

extern "C" {
void* malloc(size_t n) {
  void* p = do_alloc(n, 0, 2, PC());
  if (!p) errno = ENOMEM;
  return p;
}
void free(void* p) { do_free(p, 2, PC()); }
void* calloc(size_t a, size_t b) {
  if (!tls.in_sut) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = do_alloc(n, 0, 2, PC());
  if (p) memset(p, 0, n); else errno = ENOMEM;
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) {
    p = do_alloc(n, 0, 2, PC());
    if (!p) errno = ENOMEM;
    return p;
  }
  if (!in_arena((uintptr_t)p)) {
    if (!tls.in_sut) return __libc_realloc(p, n);
    // grown inside the code under test: stays outside the arena
    if (alloc_fails(PC())) { errno = ENOMEM; return nullptr; }
    return __libc_realloc(p, n);
  }
  int s = tls.in_sut;
  if (s && alloc_fails(PC())) { errno = ENOMEM; return nullptr; }
  Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
  if (h->magic != MAGIC_LIVE) bad_free((uintptr_t)p, PC());
  void* q = arena_alloc(n, 0, 2, PC());
  if (!q) { errno = ENOMEM; return nullptr; }
  memcpy(q, p, h->size < n ? h->size : n);
  arena_free(p, 2, PC());
  return q;
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al, 2, PC()); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al, 2, PC()); }
int posix_memalign(void** r, size_t al, size_t n) {
  void* p = do_alloc(n, al, 2, PC());
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void* valloc(size_t n) { return do_alloc(n, 4096, 2, PC()); }
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  if (in_arena((uintptr_t)p)) return ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size;
  return 0;
}
}

namespace rt {
// ------------------------------------------------------------------ sync objects
struct Sync {
  uintptr_t addr;
  int owner;        // -1 none
  int count;
  int readers;
  uint32_t rdby;    // bit set of reading threads
  int once;         // 0 no, 1 running, 2 done
  uint64_t seq;     // condvar signals
  uint32_t vc[MAXT];
};
static const int NSYNC = 8192;
static Sync syncs[NSYNC];
static Sync fence_sync;

static Sync* sync_find(const void* p, bool create) {
  uintptr_t a = (uintptr_t)p;
  uint32_t i = (uint32_t)((a >> 2) * 2654435761u) % NSYNC;
  for (int k = 0; k < NSYNC; k++, i = (i + 1) % NSYNC) {
    if (syncs[i].addr == a) return &syncs[i];
    if (!syncs[i].addr) {
      if (!create) return nullptr;
      memset(&syncs[i], 0, sizeof(Sync));
      syncs[i].addr = a;
      syncs[i].owner = -1;
      if (in_arena(a)) syncs_in_heap++;
      return &syncs[i];
    }
  }
  return &fence_sync;
}
static void sync_reset(const void* p) {
  Sync* s = sync_find(p, false);
  if (!s) return;
  uintptr_t a = s->addr;
  memset(s, 0, sizeof *s);
  s->addr = a;
  s->owner = -1;
}
static void sync_purge(uintptr_t a, size_t n) {
  for (int i = 0; i < NSYNC; i++)
    if (syncs[i].addr - a < n && syncs[i].addr) {
      uintptr_t x = syncs[i].addr;
      memset(&syncs[i], 0, sizeof(Sync));
      syncs[i].addr = x;
      syncs[i].owner = -1;
    }
}
INL void acq(Sync* s) {
  uint32_t* v = thr[tls.tid].vc;
  for (int i = 0; i < MAXT; i++) if (s->vc[i] > v[i]) v[i] = s->vc[i];
}
INL void rel(Sync* s, bool replace = false) {
  uint32_t* v = thr[tls.tid].vc;
  for (int i = 0; i < MAXT; i++) if (replace || v[i] > s->vc[i]) s->vc[i] = v[i];
  v[tls.tid]++;
}

// ------------------------------------------------------------------ scheduler
static void futex_wait(volatile int* p) {
  while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) sysc(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void futex_wake(volatile int* p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  sysc(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1);
}

static void record(int from, int to, bool forced, uint64_t ev) {
  st.switches++;
  hash_in(((uint64_t)from << 56) ^ ((uint64_t)to << 48) ^ ev);
  if (out && out->nsw < MAXSW) {
    Switch& s = out->sw[out->nsw++];
    s.tid = from; s.to = to; s.forced = forced; s.ev = ev;
  }
}

static void set_countdown() {
  // next decision of the current thread
  int64_t c = 1ll << 40;
  if (multi) {
    switch (sc.strategy) {
      case S_RW: {
        uint64_t r = rnd(&srng) >> 11;
        double u = (r + 1) / 9007199254740993.0;
        c = 1 + (int64_t)(-__builtin_log(u) * sc.gap);
        break;
      }
      case S_CONFLICT: {
        uint64_t r = rnd(&srng) >> 11;
        double u = (r + 1) / 9007199254740993.0;
        c = 1 + (int64_t)(-__builtin_log(u) * sc.gap * 50.0);
        break;
      }
      case S_PCT: {
        uint64_t t = total_events();
        uint64_t best = ~0ull;
        for (int i = 0; i < npct; i++) if (pct_points[i] > t && pct_points[i] < best) best = pct_points[i];
        c = best == ~0ull ? (1ll << 40) : (int64_t)(best - t);
        break;
      }
      case S_REPLAY: {
        c = 1ll << 40;
        for (int i = 0; i < sc.nreplay; i++) {
          const Switch& s = sc.replay[i];
          if (s.tid == tls.tid && !s.forced && s.ev > tls.ev) { c = (int64_t)(s.ev - tls.ev); break; }
        }
        break;
      }
      default: break;
    }
    if (sc.strategy != S_REPLAY && c > 400000) c = 400000;  // fairness quantum
  }
  if (!multi)
    for (int i = 0; i < sc.nflips; i++)
      if (sc.flip_ev[i] > tls.ev && (int64_t)(sc.flip_ev[i] - tls.ev) < c) c = (int64_t)(sc.flip_ev[i] - tls.ev);
  if (c > 50000000) c = 50000000;   // look at the cap now and then
  tls.countdown = c;
}

static bool runnable(int i) { return thr[i].state == T_RUN; }

static int pick(bool include_self) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nthr; i++)
    if (runnable(i) && (include_self || i != tls.tid)) c[n++] = i;
  if (!n) return -1;
  if (sc.strategy == S_PCT) {
    int b = c[0];
    for (int i = 1; i < n; i++) if (thr[c[i]].prio > thr[b].prio) b = c[i];
    return b;
  }
  if (sc.strategy == S_REPLAY) return c[0];
  return c[rnd(&srng) % n];
}

static void go_to(int n, bool forced) {
  int me = tls.tid;
  if (n == me) return;
  thr[me].ev = tls.ev;
  record(me, n, forced, tls.ev);
  cur = n;
  bool done = thr[me].state == T_DONE;
  futex_wake(&thr[n].go);
  if (!done) {
    futex_wait(&thr[me].go);
    set_countdown();
  }
}

static void check_cap() {
  if (total_events() > sc.cap) violation("no-progress", "a call did not return within %llu memory accesses", (unsigned long long)sc.cap);
}

static void maybe_flip() {
  for (int i = 0; i < sc.nflips; i++)
    if (sc.flip_ev[i] == tls.ev && flip_cb) {
      st.flips++;
      int s = tls.in_sut;
      OpCtl* o = tls.op;
      tls.in_sut = 0;
      tls.op = nullptr;
      flip_cb(i);
      tls.in_sut = s;
      tls.op = o;
    }
}

// the countdown reached zero
static __attribute__((noinline)) void decide() {
  check_cap();
  if (!multi) { maybe_flip(); set_countdown(); return; }
  if (sc.strategy == S_REPLAY) {
    for (int i = 0; i < sc.nreplay; i++) {
      const Switch& s = sc.replay[i];
      if (s.tid == tls.tid && !s.forced && s.ev == tls.ev) {
        set_countdown();
        if (s.to < nthr && s.to != tls.tid && runnable(s.to)) { st.decisions++; go_to(s.to, false); }
        return;
      }
    }
    set_countdown();
    return;
  }
  st.decisions++;
  if (sc.strategy == S_PCT) {
    uint64_t t = total_events();
    bool pt = false;
    for (int i = 0; i < npct; i++) if (pct_points[i] && pct_points[i] <= t) { pct_points[i] = 0; pt = true; }
    thr[tls.tid].prio = pct_low--;   // change point, or fairness
    (void)pt;
  }
  int n = pick(true);
  set_countdown();
  if (n >= 0 && n != tls.tid) go_to(n, false);
}

// a voluntary scheduling point (lock operation, yield, conflicting access)
static void yield_point(int num, int den) {
  if (!multi || !tls.in_sut) return;
  if (sc.strategy == S_REPLAY || sc.strategy == S_SEQ) return;
  if (sc.strategy == S_PCT) return;
  if ((int)(rnd(&srng) % den) < num) { tls.countdown = 1; }
}

static void describe_blocked(char* b, size_t n) {
  size_t o = 0;
  static const char* why[] = {"?", "mutex", "rwlock", "condition variable", "static initialisation", "once", "join", "semaphore", "future"};
  for (int i = 0; i < nthr && o < n; i++)
    if (thr[i].state == T_BLOCK) o += snprintf(b + o, n - o, " T%d waits for a %s;", i, why[thr[i].why]);
}

// the current thread cannot go on
static void must_switch() {
  check_cap();
  for (;;) {
    int n = -1;
    if (sc.strategy == S_REPLAY) {
      for (int i = 0; i < sc.nreplay; i++) {
        const Switch& s = sc.replay[i];
        if (s.tid == tls.tid && s.forced && s.ev == tls.ev && s.to < nthr && runnable(s.to)) { n = s.to; break; }
      }
    }
    if (n < 0) n = pick(true);
    if (n >= 0) {
      if (n == tls.tid) { set_countdown(); return; }
      go_to(n, true);
      return;
    }
    // nobody is runnable: let simulated time pass to the next timer
    int w = -1;
    for (int i = 0; i < nthr; i++)
      if ((thr[i].state == T_SLEEP || thr[i].state == T_BLOCK) && thr[i].wake_at && (w < 0 || thr[i].wake_at < thr[w].wake_at)) w = i;
    if (w < 0) {
      char b[512];
      describe_blocked(b, sizeof b);
      violation("deadlock", "no thread can run:%s", b);
    }
    uint64_t now = sim_now();
    if (thr[w].wake_at > now) clock_jump += thr[w].wake_at - now;
    thr[w].timed_out = thr[w].state == T_BLOCK;
    thr[w].wake_at = 0;
    thr[w].state = T_RUN;
    if (w == tls.tid) { set_countdown(); return; }
  }
}

static void block_on(const void* o, int why, uint64_t wake_at = 0) {
  Thr& t = thr[tls.tid];
  t.on = o;
  t.why = why;
  t.wake_at = wake_at;
  t.timed_out = false;
  t.state = T_BLOCK;
  tls.ev++;
  st.mutex_blocks++;
  if (!multi) {
    if (wake_at) { uint64_t now = sim_now(); if (wake_at > now) clock_jump += wake_at - now; t.timed_out = true; t.wake_at = 0; t.state = T_RUN; return; }
    static const char* why_s[] = {"?", "mutex", "rwlock", "condition variable", "static initialisation", "once", "join", "semaphore", "future"};
    violation("deadlock", "the only thread waits for a %s for ever", why_s[why]);
  }
  must_switch();
  t.on = nullptr;
}
static void wake_all(const void* o) {
  for (int i = 0; i < nthr; i++)
    if (thr[i].state == T_BLOCK && thr[i].on == o) { thr[i].state = T_RUN; thr[i].wake_at = 0; }
}

static void sync_event(uintptr_t a, uint64_t code) {
  st.sync_ops++;
  if (multi && tls.in_sut) {
    hash_in(code * 31 + tls.tid);
    int m = sc.strategy == S_SYNC ? 1 : 0;
    if (m) yield_point(1, 2);
    else if (sc.strategy == S_CONFLICT) yield_point(1, 3);
    else yield_point(1, 20);
    if (tls.countdown <= 1) { tls.countdown = 0; tls.ev++; decide(); }
    else { tls.ev++; if (--tls.countdown <= 0) decide(); }
  } else if (tls.in_sut) {
    tls.ev++;
  }
}

// ------------------------------------------------------------------ accesses
static const char* heap_state(uintptr_t a) {
  uint8_t s = *state_of(a);
  if (s == 0xFD) return "freed heap memory";
  if (s == 0) return "memory that was never allocated";
  return "memory outside a heap block";
}

static __attribute__((noinline)) void bad_access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  // describe the neighbouring block
  char d[160] = "";
  uintptr_t g = a & ~7ull;
  for (int k = 0; k < 64 && g > ARENA + sizeof(Hdr); k++, g -= 8) {
    Hdr* h = (Hdr*)(g - sizeof(Hdr));
    if ((g & 15) == 0 && in_arena((uintptr_t)h) && (h->magic == MAGIC_LIVE || h->magic == MAGIC_DEAD) && h->canary == CANARY) {
      snprintf(d, sizeof d, " (offset %ld of a block of %lu bytes)", (long)(a - g), (unsigned long)h->size);
      break;
    }
  }
  VIOL(pc, "memory-error", "%s of %zu bytes of %s%s", w ? "write" : "read", n, heap_state(a), d);
}

INL void check_state(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  uint8_t* s = state_of(a);
  unsigned off = a & 7;
  if (likely(off + n <= 8)) {
    if (unlikely(*s > 8 || off + n > *s)) bad_access(a, n, w, pc);
    return;
  }
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    uint8_t v = *state_of(g);
    unsigned hi = e - g < 8 ? (unsigned)(e - g) : 8;
    if (unlikely(v > 8 || hi > v)) bad_access(g < a ? a : g, n, w, pc);
  }
}

static __attribute__((noinline)) void race_report(uintptr_t a, uint64_t s, bool w, bool atomic, uintptr_t pc, const char* how) {
  int ot = (s >> 24) & 0xFF;
  bool ow = (s >> 8) & 1;
  const char* where = in_arena(a) ? "heap" : "static";
  if (out) {
    // stack of the other thread is gone: only its identity is known
    out->npcs[1] = 0;
  }
  VIOL(pc, "data-race", "%s%s of %s memory by thread %d is unordered with %s by thread %d%s", atomic ? "atomic " : "", w ? "write" : "read", where,
       tls.tid, (s & 4) ? "the allocation" : ow ? "a write" : "a read", ot, how);
}

INL bool conflict_peek(uint64_t* sh, unsigned mask, bool w) {
  for (int i = 0; i < 4; i++) {
    uint64_t s = sh[i];
    if (s && (int)((s >> 24) & 0xFF) != tls.tid && ((s >> 16) & mask) && (w || ((s >> 8) & 1))) return true;
  }
  return false;
}

INL void race_granule(uintptr_t a, unsigned mask, bool w, bool atomic, uintptr_t pc) {
  uint64_t* sh = shadow_of(a);
  if (multi && sc.strategy == S_CONFLICT && conflict_peek(sh, mask, w)) {
    st.conflicts++;
    if (rnd(&srng) % 4 == 0) tls.countdown = 1;  // switch before the next access
  }
  const uint32_t* vc = thr[tls.tid].vc;
  uint64_t me = ((uint64_t)vc[tls.tid] << 32) | ((uint64_t)tls.tid << 24) | ((uint64_t)mask << 16) | ((uint64_t)w << 8) | ((uint64_t)atomic << 1);
  int slot = -1, empty = -1;
  for (int i = 0; i < 4; i++) {
    uint64_t s = sh[i];
    if (s == me) return;
    if (!s) { if (empty < 0) empty = i; continue; }
    unsigned om = (s >> 16) & 0xFF;
    int ot = (s >> 24) & 0xFF;
    bool ow = (s >> 8) & 1, oa = (s >> 1) & 1;
    uint32_t oc = s >> 32;
    if (ot == tls.tid) {
      if ((om & ~mask) == 0 && (w || !ow) && (!atomic || oa)) slot = i;
      continue;
    }
    if (!(om & mask)) continue;
    if (oc > vc[ot]) {
      if ((w || ow) && !(atomic && oa)) race_report(a, s, w, atomic, pc, "");
    } else if ((om & ~mask) == 0 && (w || !ow) && slot < 0) {
      slot = i;
    }
  }
  if (slot < 0) slot = empty;
  if (slot < 0) slot = tls.ev & 3;
  sh[slot] = me;
}

static void race_check_free(uintptr_t a, size_t n, uintptr_t pc) {
  const uint32_t* vc = thr[tls.tid].vc;
  if (n > 65536) n = 65536;
  for (uintptr_t g = a; g < a + n; g += 8) {
    uint64_t* sh = shadow_of(g);
    for (int i = 0; i < 4; i++) {
      uint64_t s = sh[i];
      int ot = (s >> 24) & 0xFF;
      if (s && ot != tls.tid && (uint32_t)(s >> 32) > vc[ot]) race_report(g, s, true, false, pc, " (the block is being freed)");
    }
  }
}

static __attribute__((noinline)) void race_range(uintptr_t a, size_t n, bool w, bool atomic, uintptr_t pc) {
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    unsigned lo = g < a ? (unsigned)(a - g) : 0;
    unsigned hi = e - g < 8 ? (unsigned)(e - g) : 8;
    race_granule(g, ((1u << hi) - 1) & ~((1u << lo) - 1), w, atomic, pc);
  }
}

INL void access(uintptr_t a, size_t n, bool w, uintptr_t pc, bool atomic = false) {
  if (!tls.in_sut) return;
  tls.ev++;
  if (unlikely(--tls.countdown <= 0)) decide();
  if (likely(a - ARENA < ARENA_SZ)) {
    check_state(a, n, w, pc);
  } else if (!(a - GLB < GLB_SZ)) {
    return;
  }
  if (race_on && multi) {
    unsigned off = a & 7;
    if (likely(off + n <= 8)) race_granule(a & ~7ull, (((1u << n) - 1) << off) & 0xFF, w, atomic, pc);
    else race_range(a, n, w, atomic, pc);
  }
}
static void access_range(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!tls.in_sut || !n) return;
  tls.ev++;
  if (unlikely(--tls.countdown <= 0)) decide();
  if (a - ARENA < ARENA_SZ) check_state(a, n, w, pc);
  else if (!(a - GLB < GLB_SZ)) return;
  if (race_on && multi) race_range(a, n, w, false, pc);
}
void set_race(bool on) { race_on = on; }
void set_cap(uint64_t n) { sc.cap = n; }
void extend_cap(uint64_t n) { sc.cap += n; }
void set_memory(uint64_t bytes) { heap_limit = bytes; heap_strict = true; }
}  // namespace rt

// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
void __tsan_init() {}
static bool stack_fill;
__attribute__((noinline)) static void fill_below() {
  char b[1536];
  memset(b, amb.fill, sizeof b);
  __asm__ volatile("" : : "r"(b) : "memory");
}
void __tsan_func_entry(void* pc) {
  if (unlikely(stack_fill)) fill_below();
  int d = tls.depth++;
  if (d < 256 && d >= 0) tls.stk[d] = (uintptr_t)pc;
}
void __tsan_func_exit() { if (tls.depth > 0) tls.depth--; if (unlikely(stack_fill)) fill_below(); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, PC()); } \
  void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, PC()); } \
  void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, PC()); } \
  void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, PC()); } \
  void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC()); } \
  void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC()); } \
  void __tsan_read_write##n(void* a) { access((uintptr_t)a, n, true, PC()); } \
  void __tsan_unaligned_read_write##n(void* a) { access((uintptr_t)a, n, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { (void)v; access((uintptr_t)a, 8, true, PC()); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC()); }
void __tsan_read_range(void* a, size_t n) { access_range((uintptr_t)a, n, false, PC()); }
void __tsan_write_range(void* a, size_t n) { access_range((uintptr_t)a, n, true, PC()); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  access_range((uintptr_t)s, n, false, PC());
  access_range((uintptr_t)d, n, true, PC());
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  access_range((uintptr_t)s, n, false, PC());
  access_range((uintptr_t)d, n, true, PC());
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  access_range((uintptr_t)d, n, true, PC());
  return memset(d, c, n);
}
// library calls the compiler leaves alone (linked with --wrap)
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  access_range((uintptr_t)a, n, false, PC());
  access_range((uintptr_t)b, n, false, PC());
  return __real_memcmp(a, b, n);
}
int __real_bcmp(const void*, const void*, size_t);
int __wrap_bcmp(const void* a, const void* b, size_t n) {
  access_range((uintptr_t)a, n, false, PC());
  access_range((uintptr_t)b, n, false, PC());
  return __real_bcmp(a, b, n);
}
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* a) {
  size_t n = __real_strlen(a);
  access_range((uintptr_t)a, n + 1, false, PC());
  return n;
}
void* __real_memchr(const void*, int, size_t);
void* __wrap_memchr(const void* a, int c, size_t n) {
  void* r = __real_memchr(a, c, n);
  access_range((uintptr_t)a, r ? (size_t)((const char*)r - (const char*)a) + 1 : n, false, PC());
  return r;
}
wchar_t* __real_wmemcpy(wchar_t*, const wchar_t*, size_t);
wchar_t* __wrap_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) {
  access_range((uintptr_t)s, n * sizeof(wchar_t), false, PC());
  access_range((uintptr_t)d, n * sizeof(wchar_t), true, PC());
  return __real_wmemcpy(d, s, n);
}
wchar_t* __real_wmemmove(wchar_t*, const wchar_t*, size_t);
wchar_t* __wrap_wmemmove(wchar_t* d, const wchar_t* s, size_t n) {
  access_range((uintptr_t)s, n * sizeof(wchar_t), false, PC());
  access_range((uintptr_t)d, n * sizeof(wchar_t), true, PC());
  return __real_wmemmove(d, s, n);
}
int __real_wmemcmp(const wchar_t*, const wchar_t*, size_t);
int __wrap_wmemcmp(const wchar_t* d, const wchar_t* s, size_t n) {
  access_range((uintptr_t)s, n * sizeof(wchar_t), false, PC());
  access_range((uintptr_t)d, n * sizeof(wchar_t), false, PC());
  return __real_wmemcmp(d, s, n);
}
size_t __real_wcslen(const wchar_t*);
size_t __wrap_wcslen(const wchar_t* a) {
  size_t n = __real_wcslen(a);
  access_range((uintptr_t)a, (n + 1) * sizeof(wchar_t), false, PC());
  return n;
}

// ---- atomics
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void at_pre(const volatile void* a, size_t n, bool w, uintptr_t pc) {
  sync_event((uintptr_t)a, 7);
  access((uintptr_t)a, n, w, pc, true);
}
static void at_post(const volatile void* a, int mo, bool r, bool w) {
  if (!tls.in_sut || !multi) return;
  Sync* s = sync_find((const void*)a, true);
  if (r && is_acq(mo)) acq(s);
  if (w && is_rel(mo)) rel(s);
}
#define ATOMIC(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int mo) { \
    at_pre(a, sizeof(T), false, PC()); T v = *a; at_post(a, mo, true, false); return v; } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { \
    at_pre(a, sizeof(T), true, PC()); at_post(a, mo, false, true); *a = v; } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { \
    at_pre(a, sizeof(T), true, PC()); T o = *a; at_post(a, mo, true, true); *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { \
    at_pre(a, sizeof(T), true, PC()); T o = *a; at_post(a, mo, true, true); *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { \
    at_pre(a, sizeof(T), true, PC()); T o = *a; at_post(a, mo, true, true); *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { \
    at_pre(a, sizeof(T), true, PC()); T o = *a; at_post(a, mo, true, true); *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { \
    at_pre(a, sizeof(T), true, PC()); T o = *a; at_post(a, mo, true, true); *a = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { \
    at_pre(a, sizeof(T), true, PC()); T o = *a; at_post(a, mo, true, true); *a = o ^ v; return o; } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int mo) { \
    at_pre(a, sizeof(T), true, PC()); T o = *a; at_post(a, mo, true, true); *a = ~(o & v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    at_pre(a, sizeof(T), true, PC()); T o = *a; \
    if (o == *c) { at_post(a, mo, true, true); *a = v; return 1; } \
    at_post(a, fmo, true, false); *c = o; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
    return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
    T e = c; __tsan_atomic##n##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) {
  if (!tls.in_sut || !multi) return;
  if (is_acq(mo)) acq(&fence_sync);
  if (is_rel(mo)) rel(&fence_sync);
}
void __tsan_atomic_signal_fence(int) {}

// ---- static initialisation
int __cxa_guard_acquire(uint64_t* g) {
  sync_event((uintptr_t)g, 3);
  volatile uint8_t* b = (volatile uint8_t*)g;
  for (;;) {
    Sync* s = tls.in_sut ? sync_find(g, true) : nullptr;
    if (b[0]) { if (s && multi) acq(s); return 0; }
    if (!b[1]) { if (s && multi) acq(s); b[1] = 1; b[2] = (uint8_t)tls.tid; tls.guard_depth++; st.static_inits++; return 1; }
    if (b[2] == (uint8_t)tls.tid && tls.in_sut) violation("deadlock", "recursive initialisation of a function-local static");
    if (!tls.in_sut) abort();
    block_on(g, 4);
  }
}
void __cxa_guard_release(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  if (multi) rel(sync_find(g, true));
  b[1] = 0;
  b[0] = 1;
  if (tls.guard_depth) tls.guard_depth--;
  wake_all(g);
  sync_event((uintptr_t)g, 4);
}
void __cxa_guard_abort(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  if (multi) rel(sync_find(g, true));
  b[1] = 0;
  if (tls.guard_depth) tls.guard_depth--;
  wake_all(g);
  sync_event((uintptr_t)g, 4);
}

// ---- mutexes
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int lock_mutex(pthread_mutex_t* m, bool try_, uint64_t until, uintptr_t pc) {
  sync_event((uintptr_t)m, 1);
  if (tls.in_sut && in_arena((uintptr_t)m)) check_state((uintptr_t)m, 8, true, pc);
  for (;;) {
    Sync* s = sync_find(m, true);
    if (s->owner < 0) {
      s->owner = tls.tid;
      s->count = 1;
      if (multi) acq(s);
      return 0;
    }
    if (s->owner == tls.tid) {
      if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
      if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (try_) return EBUSY;
    block_on(m, 1, until);
    if (thr[tls.tid].timed_out) { thr[tls.tid].timed_out = false; return ETIMEDOUT; }
  }
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  if (a) m->__data.__kind = *(const int*)a & 3;
  sync_reset(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { sync_reset(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { return lock_mutex(m, false, 0, PC()); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lock_mutex(m, true, 0, PC()); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  return lock_mutex(m, false, t->tv_sec * 1000000000ull + t->tv_nsec, PC());
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  return lock_mutex(m, false, t->tv_sec * 1000000000ull + t->tv_nsec, PC());
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  Sync* s = sync_find(m, true);
  if (s->owner != tls.tid) {
    if (tls.in_sut) violation("lock-misuse", "a mutex is unlocked by a thread that does not hold it");
    return EPERM;
  }
  if (--s->count > 0) return 0;
  if (multi) rel(s);
  s->owner = -1;
  wake_all(m);
  sync_event((uintptr_t)m, 2);
  return 0;
}
// ---- read-write locks
static int lock_rw(void* m, bool wr, bool try_, uint64_t until) {
  sync_event((uintptr_t)m, 5);
  for (;;) {
    Sync* s = sync_find(m, true);
    if (wr ? (s->owner < 0 && s->readers == 0) : s->owner < 0) {
      if (wr) s->owner = tls.tid; else { s->readers++; s->rdby |= 1u << tls.tid; }
      if (multi) acq(s);
      return 0;
    }
    if (s->owner == tls.tid) return EDEADLK;
    if (try_) return EBUSY;
    block_on(m, 2, until);
    if (thr[tls.tid].timed_out) { thr[tls.tid].timed_out = false; return ETIMEDOUT; }
  }
}
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { memset(m, 0, sizeof *m); sync_reset(m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m) { sync_reset(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lock_rw(m, false, false, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return lock_rw(m, false, true, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lock_rw(m, true, false, 0); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return lock_rw(m, true, true, 0); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) { return lock_rw(m, false, false, t->tv_sec * 1000000000ull + t->tv_nsec); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) { return lock_rw(m, true, false, t->tv_sec * 1000000000ull + t->tv_nsec); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t, const struct timespec* t) { return lock_rw(m, false, false, t->tv_sec * 1000000000ull + t->tv_nsec); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t, const struct timespec* t) { return lock_rw(m, true, false, t->tv_sec * 1000000000ull + t->tv_nsec); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  Sync* s = sync_find(m, true);
  if (s->owner == tls.tid) { if (multi) rel(s); s->owner = -1; }
  else if (s->readers > 0 && (s->rdby >> tls.tid & 1)) { if (multi) rel(s); if (--s->readers == 0) s->rdby = 0; }
  else {
    if (tls.in_sut) violation("lock-misuse", "a read-write lock is released by a thread that does not hold it");
    return EPERM;
  }
  wake_all(m);
  sync_event((uintptr_t)m, 6);
  return 0;
}
// ---- condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t until) {
  Sync* s = sync_find(m, true);
  if (s->owner != tls.tid && tls.in_sut) violation("lock-misuse", "a condition wait without holding the mutex");
  int cnt = s->count;
  if (multi) rel(s);
  s->owner = -1;
  s->count = 0;
  wake_all(m);
  block_on(c, 3, until);
  bool to = thr[tls.tid].timed_out;
  thr[tls.tid].timed_out = false;
  Sync* cs = sync_find(c, true);
  if (multi) acq(cs);
  lock_mutex(m, false, 0, 0);
  s = sync_find(m, true);
  s->count = cnt;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); sync_reset(c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { sync_reset(c); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, t->tv_sec * 1000000000ull + t->tv_nsec); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return cond_wait(c, m, t->tv_sec * 1000000000ull + t->tv_nsec); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (multi) rel(sync_find(c, true));
  int w[MAXT], n = 0;
  for (int i = 0; i < nthr; i++) if (thr[i].state == T_BLOCK && thr[i].on == c) w[n++] = i;
  if (n) { int k = w[0]; thr[k].state = T_RUN; thr[k].wake_at = 0; }
  sync_event((uintptr_t)c, 8);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (multi) rel(sync_find(c, true));
  wake_all(c);
  sync_event((uintptr_t)c, 9);
  return 0;
}
// ---- once
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  sync_event((uintptr_t)o, 10);
  for (;;) {
    Sync* s = sync_find(o, true);
    if (*o == 2) { if (multi) acq(s); return 0; }
    if (s->once == 0) {
      s->once = 1;
      s->owner = tls.tid;
      if (multi) acq(s);
      try { fn(); } catch (...) {
        s = sync_find(o, true);
        if (multi) rel(s);
        s->once = 0; s->owner = -1; wake_all(o);
        throw;
      }
      s = sync_find(o, true);
      s->once = 2; s->owner = -1;
      *o = 2;
      if (multi) rel(s);
      wake_all(o);
      return 0;
    }
    if (s->owner == tls.tid) violation("deadlock", "recursive one-time initialisation");
    block_on(o, 5);
  }
}
// ---- spin locks and semaphores
int pthread_spin_init(pthread_spinlock_t* l, int) { *(int*)l = 0; sync_reset((void*)l); return 0; }
int pthread_spin_destroy(pthread_spinlock_t* l) { sync_reset((void*)l); return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) {
  sync_event((uintptr_t)l, 1);
  for (;;) {
    Sync* s = sync_find((void*)l, true);
    if (s->owner < 0) { s->owner = tls.tid; if (multi) acq(s); return 0; }
    block_on((void*)l, 1);
  }
}
int pthread_spin_trylock(pthread_spinlock_t* l) {
  sync_event((uintptr_t)l, 1);
  Sync* s = sync_find((void*)l, true);
  if (s->owner < 0) { s->owner = tls.tid; if (multi) acq(s); return 0; }
  return EBUSY;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
  Sync* s = sync_find((void*)l, true);
  if (multi) rel(s);
  s->owner = -1;
  wake_all((void*)l);
  sync_event((uintptr_t)l, 2);
  return 0;
}
int sem_init(sem_t* m, int, unsigned v) { sync_reset(m); sync_find(m, true)->count = (int)v; return 0; }
int sem_destroy(sem_t* m) { sync_reset(m); return 0; }
int sem_wait(sem_t* m) {
  sync_event((uintptr_t)m, 11);
  for (;;) {
    Sync* s = sync_find(m, true);
    if (s->count > 0) { s->count--; if (multi) acq(s); return 0; }
    block_on(m, 7);
  }
}
int sem_trywait(sem_t* m) {
  Sync* s = sync_find(m, true);
  if (s->count > 0) { s->count--; if (multi) acq(s); return 0; }
  errno = EAGAIN;
  return -1;
}
int sem_post(sem_t* m) {
  Sync* s = sync_find(m, true);
  if (multi) rel(s);
  s->count++;
  wake_all(m);
  return 0;
}

// ---- time, entropy
static void ts_set(struct timespec* t, uint64_t n) { t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; }
int clock_gettime(clockid_t c, struct timespec* t) {
  if (!tls.in_sut) return (int)syscall(SYS_clock_gettime, c, t);
  st.clock_reads++;
  clock_jump += 1000;
  uint64_t x = amb.clock ? rnd(&clock_rng) : 0;
  if (amb.clock == 2) clock_jump += 1000000ull + x % 20000000000ull;
  else if (amb.clock && (x & 7) == 0) clock_jump += 1ull << (10 + (x >> 8) % 33);
  if (amb.clock == 3 && (x & 24) == 8) wall_off = (int64_t)((x >> 16) % 200000000000000ull) - 100000000000000ll;
  ts_set(t, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? sim_now() + wall_off : sim_now());
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* o) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
clock_t clock() {
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec * 1000000 + t.tv_nsec / 1000;
}
static void sim_sleep(uint64_t ns) {
  if (!multi) { clock_jump += ns; return; }
  Thr& t = thr[tls.tid];
  t.wake_at = sim_now() + ns + 1;
  t.state = T_SLEEP;
  tls.ev++;
  must_switch();
}
int nanosleep(const struct timespec* q, struct timespec*) {
  if (!tls.in_sut) return (int)syscall(SYS_nanosleep, q, nullptr);
  sim_sleep(q->tv_sec * 1000000000ull + q->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* q, struct timespec* r) {
  if (!tls.in_sut) return (int)syscall(SYS_clock_nanosleep, c, fl, q, r);
  uint64_t n = q->tv_sec * 1000000000ull + q->tv_nsec;
  if (fl & TIMER_ABSTIME) { uint64_t now = sim_now(); n = n > now ? n - now : 0; }
  sim_sleep(n);
  return 0;
}
int usleep(useconds_t us) {
  if (!tls.in_sut) { struct timespec q = {us / 1000000, (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &q, nullptr); }
  sim_sleep(us * 1000ull);
  return 0;
}
unsigned sleep(unsigned s) {
  if (!tls.in_sut) { struct timespec q = {(time_t)s, 0}; syscall(SYS_nanosleep, &q, nullptr); return 0; }
  sim_sleep(s * 1000000000ull);
  return 0;
}
int sched_yield() {
  if (tls.in_sut && multi && sc.strategy != S_REPLAY) {
    if (sc.strategy == S_PCT) thr[tls.tid].prio = pct_low--;
    tls.countdown = 0;
    tls.ev++;
    st.sync_ops++;
    int n = pick(false);
    set_countdown();
    if (n >= 0) go_to(n, false);
  } else if (tls.in_sut && multi) {
    tls.ev++;
    if (--tls.countdown <= 0) decide();
  }
  return 0;
}
static uint64_t entropy() { st.entropy_reads++; return rnd(&entropy_state); }
ssize_t getrandom(void* b, size_t n, unsigned) {
  for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = (uint8_t)entropy();
  return (ssize_t)n;
}
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
uint32_t arc4random() { return (uint32_t)entropy(); }
int rand() { return (int)(entropy() & 0x7fffffff); }
long random() { return (long)(entropy() & 0x7fffffff); }
long lrand48() { return (long)(entropy() & 0x7fffffff); }
double drand48() { return (double)(entropy() >> 11) / 9007199254740992.0; }
static char* real_getenv(const char* n) {
  size_t l = strlen(n);
  if (environ && l) for (char** e = environ; *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return nullptr;
}
char* getenv(const char* n) {
  if (!tls.in_sut) return real_getenv(n);
  // variables with which an operator reconfigures simdjson or ICU themselves
  if (!strncmp(n, "SIMDJSON_", 9) || !strncmp(n, "ICU_", 4)) return nullptr;
  st.env_reads++;
  static char one[] = "1", zero[] = "0", tr[] = "tr_TR.UTF-8";
  return amb.env == 0 ? nullptr : amb.env == 1 ? one : amb.env == 2 ? zero : tr;
}
char* secure_getenv(const char* n) { return getenv(n); }
// the machine
static const int cores[] = {8, 1, 2, 64};
long __sysconf(int);
long sysconf(int k) {
  if (!tls.in_sut) return __sysconf(k);
  if (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) { st.env_reads++; return cores[amb.machine & 3]; }
  if (k == _SC_AVPHYS_PAGES || k == _SC_PHYS_PAGES) { st.env_reads++; return 16384l << (4 * (amb.machine & 3)); }
  return __sysconf(k);
}
int get_nprocs() { return tls.in_sut ? (int)sysconf(_SC_NPROCESSORS_ONLN) : (int)__sysconf(_SC_NPROCESSORS_ONLN); }
int get_nprocs_conf() { return get_nprocs(); }
int sched_getcpu() { st.env_reads++; return (int)(entropy() % cores[amb.machine & 3]); }
pid_t getpid() { return tls.in_sut ? (st.env_reads++, 2 + 4242 * (int)amb.machine) : (pid_t)syscall(SYS_getpid); }
pid_t getppid() { return tls.in_sut ? (st.env_reads++, 1 + 77 * (int)amb.machine) : (pid_t)syscall(SYS_getppid); }
pid_t gettid() { return tls.in_sut ? (st.env_reads++, 2 + 4242 * (int)amb.machine + tls.tid) : (pid_t)syscall(SYS_gettid); }

// ---- thread-exit destructors (run while the thread still holds the baton)
int __cxa_thread_atexit(void (*d)(void*), void* o, void*) {
  if (tls.nex < 64) { tls.ex[tls.nex].d = d; tls.ex[tls.nex].o = o; tls.nex++; }
  return 0;
}
int __cxa_thread_atexit_impl(void (*d)(void*), void* o, void* h) { return __cxa_thread_atexit(d, o, h); }

// ---- threads started by the code under test
static void alt_stack() {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_size = 65536;
  ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
}
static uintptr_t main_stack;
static void on_crash(int sig, siginfo_t* si, void*) {
  const char* n = sig == SIGSEGV ? "segmentation fault" : sig == SIGBUS ? "bus error" : sig == SIGFPE ? "arithmetic exception" : sig == SIGILL ? "illegal instruction" : "abort";
  if (!tls.in_sut) { rep_pc = 0; violation("harness-crash", "%s in the harness (address %p)", n, si->si_addr); }
  rep_pc = 0;
  uintptr_t a = (uintptr_t)si->si_addr;
  if (sig == SIGSEGV && main_stack && !tls.tid && a < main_stack && a > main_stack - (9u << 20)) violation("crash", "the stack is exhausted");
  violation("crash", "%s", n);
}
static void* tramp(void* p) {
  int id = (int)(intptr_t)p;
  memset(&tls, 0, sizeof tls);
  tls.tid = id;
  futex_wait(&thr[id].go);
  tls.in_sut = thr[id].sut_thread;
  set_countdown();
  OpCtl ctl;
  if (thr[id].sut_thread) tls.op = &ctl;
  alt_stack();
  thr[id].ret = thr[id].fn(thr[id].arg);
  if (tls.nex) {
    tls.in_sut = 1;
    while (tls.nex > 0) { tls.nex--; tls.ex[tls.nex].d(tls.ex[tls.nex].o); }
  }
  tls.in_sut = 0;
  tls.op = nullptr;
  thr[id].vc[id]++;
  thr[id].state = T_DONE;
  wake_all(&thr[id]);
  thr[id].ev = tls.ev;
  // hand over without coming back
  int n = -1;
  if (sc.strategy == S_REPLAY) {
    for (int i = 0; i < sc.nreplay; i++) {
      const Switch& s = sc.replay[i];
      if (s.tid == id && s.forced && s.ev == tls.ev && s.to < nthr && runnable(s.to)) { n = s.to; break; }
    }
  }
  if (n < 0) n = pick(false);
  if (n < 0) must_switch(); else go_to(n, true);
  return nullptr;
}
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static create_t real_create;
static int new_thread(void* (*fn)(void*), void* arg, bool sut) {
  if (nthr >= MAXT) return -1;
  int id = nthr++;
  Thr& t = thr[id];
  memset((void*)&t, 0, sizeof t);
  t.state = T_RUN;
  t.fn = fn;
  t.arg = arg;
  t.sut_thread = sut;
  t.prio = 1000 + rnd(&srng) % 1000000;
  memcpy(t.vc, thr[tls.tid].vc, sizeof t.vc);
  t.vc[id] = 1;
  thr[tls.tid].vc[tls.tid]++;
  st.threads++;
  int s = tls.in_sut;
  tls.in_sut = 0;
  int r = real_create(&t.real, nullptr, tramp, (void*)(intptr_t)id);
  tls.in_sut = s;
  if (r) { nthr--; return -1; }
  return id;
}
int pthread_create(pthread_t* o, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!real_create) real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  if (!run_on) return real_create(o, a, fn, arg);
  if (tls.in_sut && alloc_fails(PC())) return EAGAIN;
  if (!multi) {  // first thread of a single-threaded run: start scheduling
    multi = true;
    thr[tls.tid].state = T_RUN;
    set_countdown();
  }
  int id = new_thread(fn, arg, tls.in_sut != 0);
  if (id < 0) return EAGAIN;
  *o = thr[id].real;
  sync_event((uintptr_t)&thr[id], 12);
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  int id = -1;
  for (int i = 1; i < nthr; i++) if (thr[i].real == p && thr[i].state != T_NONE) id = i;
  if (id < 0) {
    static int (*rj)(pthread_t, void**);
    if (!rj) rj = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
    return rj(p, ret);
  }
  while (thr[id].state != T_DONE) block_on(&thr[id], 6);
  for (int i = 0; i < MAXT; i++) if (thr[id].vc[i] > thr[tls.tid].vc[i]) thr[tls.tid].vc[i] = thr[id].vc[i];
  if (ret) *ret = thr[id].ret;
  return 0;
}
int pthread_detach(pthread_t) { return 0; }
// std::future's wait (libstdc++)
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool has_to, long s, long ns) {
  while (*a == v) {
    block_on(a, 8, has_to ? s * 1000000000ull + ns + 1 : 0);
    if (thr[tls.tid].timed_out) { thr[tls.tid].timed_out = false; return false; }
  }
  if (multi) acq(sync_find(a, true));
  return true;
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void* t, unsigned* a, unsigned v, bool h, long s, long ns) {
  return _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(t, a, v, h, s, ns);
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(void*, unsigned* a) {
  if (multi) rel(sync_find(a, true));
  wake_all(a);
}
// std::random_device (libstdc++)
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {}
void _ZNSt13random_device7_M_finiEv(void*) {}
unsigned _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)entropy(); }
double _ZNKSt13random_device13_M_getentropyEv(const void*) { return 32; }
}  // extern "C"

namespace rt {
// ------------------------------------------------------------------ control
static void map_at(uintptr_t a, size_t n) {
  void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)a) { fprintf(stderr, "simulator: cannot map %zx at %zx\n", n, (size_t)a); _exit(3); }
  madvise(p, n, MADV_NOHUGEPAGE);
}
void init() {
  show_stack = getenv("TSIM_STACK") != nullptr;
  dl_iterate_phdr(find_libs, nullptr);
  GLB = (uintptr_t)&__data_start & ~7ull;
  GLB_SZ = (uintptr_t)&_end - GLB;
  map_at(ARENA, ARENA_SZ);
  map_at(STATE, ARENA_SZ / 8);
  map_at(SHADOW, ARENA_SZ * 4);
  map_at(GSHADOW, (GLB_SZ + 4096) * 4);
  live_head.next = live_head.prev = &live_head;
  bump = ARENA + 4096;
  real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  thr[0].state = T_RUN;
  thr[0].vc[0] = 1;
}
void begin_run(SharedOut* o, const Ambient& a) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
  for (int g : sg) sigaction(g, &sa, nullptr);
  alt_stack();
  main_stack = (uintptr_t)__builtin_frame_address(0);
  out = o;
  amb = a;
  reuse_mode = a.reuse;
  stack_fill = a.stack;
  bump = ARENA + 4096 + (a.shift & ~15u);
  entropy_state = a.entropy;
  clock_rng = a.entropy ^ 0x5DEECE66D;
  wall_off = 0;
  memset(&st, 0, sizeof st);
  memset((void*)&sc, 0, sizeof sc);
  sc.cap = 400000000;
  sc.gap = 1000;
  srng = 1;
  run_on = true;
  multi = false;
  race_on = false;
  tls.ev = 0;
  clock_jump = 0;
  set_countdown();
}
void end_run() { publish(); }

void enter(OpCtl* c) {
  c->allocs = c->fired = 0;
  tls.op = c;
  tls.op_ev0 = tls.ev;
  tls.depth = 0;
  static const int left[] = {0, ERANGE, ENOMEM, EINTR};   // by whatever the caller did before
  errno = left[amb.machine & 3];
  tls.in_sut = 1;
}
void leave() {
  tls.in_sut = 0;
  if (tls.op) tls.op->events = tls.ev - tls.op_ev0;
  tls.op = nullptr;
  tls.depth = 0;
}
Pause::Pause() { saved = tls.in_sut; tls.in_sut = 0; }
Pause::~Pause() { tls.in_sut = saved; }

struct Start { ThreadFn fn; void* arg; };
static void* start_tramp(void* p) {
  Start* s = (Start*)p;
  s->fn(s->arg);
  return nullptr;
}
void run_threads(const SchedCfg& cfg, int n, ThreadFn fn, void** args) {
  sc = cfg;
  srng = cfg.seed * 0x9e3779b97f4a7c15ull + 77;
  npct = 0;
  pct_low = 500;
  race_on = cfg.race;
  if (n == 0) { set_countdown(); return; }
  multi = true;
  if (cfg.strategy == S_PCT) {
    npct = cfg.pct_depth < 16 ? cfg.pct_depth : 15;
    for (int i = 0; i < npct; i++) pct_points[i] = 1 + rnd(&srng) % (cfg.est_events + 1);
  }
  Start s[MAXT];
  int ids[MAXT];
  for (int i = 0; i < n; i++) {
    s[i] = {fn, args[i]};
    ids[i] = new_thread(start_tramp, &s[i], false);
    if (ids[i] < 0) { fprintf(stderr, "simulator: cannot start thread\n"); _exit(3); }
  }
  for (int i = 0; i < n; i++) {
    while (thr[ids[i]].state != T_DONE) {
      Thr& t = thr[tls.tid];
      t.on = &thr[ids[i]];
      t.why = 6;
      t.wake_at = 0;
      t.state = T_BLOCK;
      must_switch();
      t.on = nullptr;
    }
    for (int k = 0; k < MAXT; k++) if (thr[ids[i]].vc[k] > thr[tls.tid].vc[k]) thr[tls.tid].vc[k] = thr[ids[i]].vc[k];
  }
  multi = false;
  sc.strategy = S_SEQ;
  sc.nflips = 0;
  set_countdown();
}

__attribute__((noinline)) void dirty_stack(uint8_t v) {
  volatile uint8_t b[65536];
  for (size_t i = 0; i < sizeof b; i++) b[i] = v;
  __asm__ volatile("" : : "r"(b) : "memory");
}
}  // namespace rt
