// Cases (one simulated run each), their execution and their text form.
#pragma once
#include <stdint.h>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "rt.h"
#include "simfs.h"

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) { rt::rnd(&s); }
  uint64_t next() { return rt::rnd(&s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  bool p(int num, int den) { return (int)below(den) < num; }
  template <class V> auto& pick(V& v) { return v[below(v.size())]; }
};

struct Tok { std::string content; bool single = false, lstrip = false, rstrip = false, normalized = false, special = false; };

enum OpKind { O_LOAD, O_ENCODE, O_DECODE, O_ADD, O_ADDSP, O_DESTROY, O_MOVE, O_BULK, O_PROBE, O_LOCALE };
extern const char* op_name[];

struct Op {
  int kind = O_ENCODE;
  int tok = 0;                    // tokenizer slot
  int arg = 0;                    // LOAD: config; MOVE: target slot; BULK: count; PROBE: ids
  bool flag = true;               // special tokens
  bool by_path = false;
  std::vector<uint32_t> text;
  std::vector<int> ids;
  std::vector<Tok> toks;
  rt::AllocFault fault;
  int jnth = 0, jmode = 0;        // failing call of the JVM
};

struct Case {
  std::string prop;
  uint64_t seed = 0;
  std::vector<std::string> cfgs;
  std::vector<Op> prelude;
  std::vector<std::vector<Op>> threads;
  rt::SchedCfg sched;
  std::vector<rt::Switch> replay;   // when sched.strategy == S_REPLAY
  rt::Ambient amb;
  std::vector<simfs::Fault> fs;
  std::vector<std::pair<uint64_t, int>> flips;   // access, locale
  std::map<std::string, std::string> par;        // property-specific
  long num(const char* k, long d = 0) const { auto i = par.find(k); return i == par.end() ? d : atol(i->second.c_str()); }
  void set(const char* k, long v) { par[k] = std::to_string(v); }
};

std::string to_text(const Case& c);
bool from_text(const std::string& t, Case* c);
std::string describe(const Op& o);

// ---- result of one forked execution
struct Run {
  bool violated = false;
  std::string kind, msg;
  std::vector<uint64_t> pcs;
  std::vector<std::string> res;     // results, in order of emission
  rt::Stats st{};
  uint64_t hash = 0;
  std::vector<rt::Switch> sw;
  bool infra = false;               // the simulator itself failed
  std::vector<uint32_t> progress;
};
// forks; body runs in the child with runtime initialised (begin_run done)
Run fork_run(const Case& c, const std::function<void()>& body, int wall_s = 60);
// called in the child to add a result
void emit(const std::string& s, bool whole = false);
void emit_at(const std::string& tag, const std::string& s);

// ---- totals over a worker
struct Totals {
  uint64_t cases = 0, runs = 0, ref_runs = 0, events = 0, switches = 0, decisions = 0, allocs = 0, alloc_faults = 0, sync_ops = 0,
           conflicts = 0, threads = 0, static_inits = 0, mutex_blocks = 0, flips = 0, sim_ns = 0, ops = 0, loads = 0;
  std::map<std::string, uint64_t> counters;
  std::vector<uint64_t> hashes;
};
extern Totals tot;

// ---- executing operations on the code under test (world.cpp)
struct Slots;
Slots* new_slots();
std::string do_op(Slots* s, const Case& c, const Op& o, rt::OpCtl* ctl);  // result text
std::string u8(const std::vector<uint32_t>& t);
void warm_up();                     // ICU, iostreams, libc

// ---- verdict of a case
struct Verdict {
  bool violated = false;
  bool infra = false;
  std::string kind, msg;
  std::vector<uint64_t> pcs;
  uint64_t hash = 0;                // of everything observed
  std::vector<rt::Switch> sw;       // schedule of the failing run
  uint64_t nontrivial = 0;          // key of the behaviour class explored (0: trivial)
  std::vector<std::string> notes;
};
void fold(Verdict* v, const Run& r);   // takes over a violation

struct Check {
  const char* id;
  int quick, thorough;              // number of cases
  std::function<Case(uint64_t seed, int index, bool thorough)> gen;
  std::function<Verdict(const Case&)> exec;
  bool schedules;                   // minimise switches
};
extern std::vector<Check> checks;

// ---- generation
struct Profile {
  std::string json;
  std::vector<std::vector<uint32_t>> words;
  int nids = 0;                     // ids 0..nids-1 are in the vocabulary
  std::vector<std::string> vocab;   // token of each id
  std::string prefix, suffix;       // BPE affixes
  std::string alpha;                // letters the vocabulary has
  std::string family;
  bool bpe = false, dropout = false;
};
struct GenOpt { bool dropout = false; bool layout = true; bool added = true; int family = -1; int big = 0; };
Profile gen_profile(Rng& r, const GenOpt& o = GenOpt());
Profile gen_twin(Rng& r, Profile p);
std::vector<uint32_t> gen_text(Rng& r, const Profile& p, int maxwords = 8);
void lengthen(Rng& r, const Profile& p, Op* o, int max);
std::vector<uint32_t> vary_text(Rng& r, const Profile& p, std::vector<uint32_t> t);
std::vector<int> gen_ids(Rng& r, const Profile& p, int extra);
std::vector<Tok> gen_toks(Rng& r, const Profile& p, int maxn = 3);
std::vector<uint32_t> w(const char* utf8);

// ---- shared by the checks
std::string key_of(const Op& o);
Op op_load(int tok, int cfg, bool by_path = false);
Op op_encode(int tok, const std::vector<uint32_t>& t, bool flag = true);
Op op_decode(int tok, const std::vector<int>& ids, bool flag = true);
Op op_simple(int kind, int tok, int arg = 0);
// runs ops one after another in a process of their own
Run run_seq(const Case& c, const std::vector<Op>& ops, const rt::Ambient* amb = nullptr, bool whole = false);
void fail(Verdict* v, const char* kind, const std::string& msg);
std::string clip(const std::string& s, size_t n = 300);
void leak_cycles(const Case& c, int n, const std::function<void()>& cycle);
rt::AllocFault gen_fault(Rng& r, uint32_t max);
rt::Ambient gen_ambient(Rng& r);
Op gen_op(Rng& r, const Profile& p, int tok, bool adds);
void count_ops(const std::vector<Op>& v);
void mismatch(Verdict* v, const char* kind, const std::string& where, const std::string& got, const std::string& want);
void gen_sched(Rng& r, Case* c);
rt::SchedCfg sched_of(const Case& c, uint64_t est);
std::map<std::string, std::string> tagged(const Run& r);
std::vector<Op> gen_pool(Rng& r, const Profile& p, int tok, int n);
void jni_checks(std::vector<Check>* out);
void locale_init();
int locale_count();
void locale_apply(int i, bool icu = false);
const char* locale_name(int i);
extern float (*draw_hook)(float);
