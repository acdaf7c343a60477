// Simulator runtime: owns memory, threads, locks, clocks, entropy and memory
// accesses of the code under test (compiled with -fsanitize=thread, linked
// against this runtime instead of ThreadSanitizer's).
#pragma once
#include <stddef.h>
#include <stdint.h>

namespace rt {

enum { MAXT = 16, MAXSW = 20000 };

// ---------------------------------------------------------------- ambient
struct Ambient {
  uint8_t fill = 0xA5;      // contents of fresh memory
  uint8_t reuse = 0;        // 0: no reuse, 1: LIFO reuse, 2: FIFO reuse
  uint32_t shift = 0;       // heap displacement, multiple of 16
  uint64_t clock0 = 1700000000ull * 1000000000ull;
  uint64_t entropy = 1;     // seed of getrandom, random_device, rand, ...
  uint8_t env = 0;          // what getenv answers: 0 nothing, 1 "1", 2 "0", 3 "tr_TR.UTF-8"
  uint8_t clock = 0;        // 0: steady, 1: the machine stalls now and then, 2: it is very slow, 3: the wall clock is set back and forth
  uint8_t machine = 0;      // cores, process number, memory, errno left behind: 0: one core ... 3
  uint8_t stack = 0;        // 1: the stack below a function is filled when it is entered and left
};

// ---------------------------------------------------------------- faults
enum AllocMode { AF_NONE = 0, AF_ONCE = 1, AF_FROM = 2, AF_BURST = 3, AF_EVERY = 4 };
struct AllocFault {
  int mode = AF_NONE;
  uint32_t nth = 0;   // 1-based index of the allocation in the operation
  uint32_t arg = 0;   // burst length / period
};

// ---------------------------------------------------------------- scheduling
enum Strategy { S_SEQ = 0, S_RW = 1, S_PCT = 2, S_CONFLICT = 3, S_SYNC = 4, S_REPLAY = 5 };
struct Switch { uint8_t tid; uint8_t to; uint8_t forced; uint64_t ev; };
struct SchedCfg {
  int strategy = S_SEQ;
  uint64_t seed = 1;
  uint32_t gap = 100;        // mean number of accesses between decisions
  uint32_t pct_depth = 3;
  uint64_t est_events = 100000;
  bool race = true;          // happens-before race detection on
  uint64_t cap = 400000000;  // accesses after which a run counts as stuck
  const Switch* replay = nullptr;
  int nreplay = 0;
  const uint64_t* flip_ev = nullptr;  // accesses at which flip_cb is called
  int nflips = 0;
};

struct Stats {
  uint64_t events, switches, decisions, allocs, alloc_faults, sync_ops, conflicts,
      threads, static_inits, clock_reads, entropy_reads, env_reads, mutex_blocks, flips, sim_ns;
};

struct SharedOut {            // MAP_SHARED result buffer of one run
  volatile uint32_t progress[8];
  volatile int violated;
  char kind[64];
  char msg[2048];
  uint64_t pcs[2][24];
  int npcs[2];
  Stats st;
  uint64_t sched_hash;
  int nsw;
  Switch sw[MAXSW];
  volatile size_t len;
  char data[64 << 20];
};

void init();                          // once, before anything else
void begin_run(SharedOut* out, const Ambient& a);  // in the child
extern SharedOut* out;
void end_run();                       // publish statistics

// report a violation and end the process
[[noreturn]] void violation(const char* kind, const char* fmt, ...);

// enter and leave the code under test on this thread
struct OpCtl {
  AllocFault fault;
  uint32_t allocs = 0;        // out: allocations made
  uint32_t fired = 0;         // out: allocations failed
  uint64_t events = 0;        // out: accesses made
};
void enter(OpCtl* c);
void leave();
struct Pause {                // back to the harness inside the code under test
  int saved; Pause(); ~Pause();
};
bool in_sut();

// threads
typedef void (*ThreadFn)(void*);
void run_threads(const SchedCfg& cfg, int n, ThreadFn fn, void** args);
int self();
uint64_t step();                      // global event sequence number
extern void (*flip_cb)(int i);        // called at flip points

// heap
uint64_t live_bytes();
uint64_t live_blocks();
uint32_t alloc_seq();
// describes the blocks allocated after seq that are still live
int leaked_since(uint32_t seq, char* buf, size_t n, uint64_t* pcs, int* npcs);
void check_heap();                    // redzones of all live blocks
void set_race(bool on);
void set_cap(uint64_t n);
void extend_cap(uint64_t n);
// no call has a reason to hold more than this
void set_memory(uint64_t bytes);
extern int reuse_mode;

uint64_t rnd(uint64_t* s);            // splitmix64
uint64_t sim_now();
void dirty_stack(uint8_t v);
}  // namespace rt
