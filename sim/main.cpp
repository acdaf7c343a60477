// tsim run <property> <tier> <seed> <worker> <workers> <budget-s> <out>
// tsim replay <file>      tsim minimize <in> <out> <budget-s>
// tsim list               tsim gen <property> <tier> <seed> <index>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>
#include "world.h"

float (*draw_hook)(float);
// called by the code under test (TOKENIZERS_SIM) with every random draw of BPE dropout
float tokenizers_sim_draw(float real) {
  rt::Pause p;
  return draw_hook ? draw_hook(real) : real;
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static const Check* find(const std::string& id) {
  for (auto& k : checks) if (id == k.id) return &k;
  return nullptr;
}
static void save(const std::string& path, const std::string& s) {
  std::ofstream f(path, std::ios::binary);
  f << s;
}
static std::string verdict_json(const Verdict& v) {
  std::string s = "{\"violated\":" + std::string(v.violated ? "true" : "false") + ",\"infra\":" + (v.infra ? "true" : "false") + ",\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"hash\":\"" + std::to_string(v.hash) + "\",\"pcs\":[";
  for (size_t i = 0; i < v.pcs.size(); i++) s += (i ? "," : "") + std::to_string(v.pcs[i]);
  return s + "]}";
}

// ------------------------------------------------------------------ minimise
struct Mini {
  const Check* k;
  std::string kind;
  double end;
  Case best;
  Verdict bv;
  int tries = 0;
  bool late() { return now() > end; }
  bool attempt(const Case& c, bool reseed) {
    if (late()) return false;
    tries++;
    Verdict v = k->exec(c);
    if (v.violated && !v.infra && v.kind == kind) { best = c; bv = v; return true; }
    if (!reseed || !k->schedules || c.sched.strategy == rt::S_REPLAY || v.infra) return false;
    Case d = c;
    Rng r(c.seed + tries);
    for (int i = 0; i < 10 && !late(); i++) {
      static const int st[] = {rt::S_RW, rt::S_PCT, rt::S_CONFLICT, rt::S_SYNC, rt::S_CONFLICT};
      static const uint32_t gaps[] = {15, 60, 250, 1000};
      d.sched.strategy = st[r.below(5)];
      d.sched.gap = gaps[r.below(4)];
      d.sched.seed = r.next() >> 8;
      tries++;
      v = k->exec(d);
      if (v.violated && !v.infra && v.kind == kind) { best = d; bv = v; return true; }
    }
    return false;
  }
  // drop elements of a list, chunks first
  template <class G> void list(G get, size_t keep, bool reseed) {
    for (size_t chunk = std::max<size_t>(1, get(best).size() / 2); chunk >= 1 && !late(); chunk /= 2) {
      for (size_t i = get(best).size(); i > keep && !late();) {
        size_t a = i > chunk ? i - chunk : 0;
        if (a < keep) a = keep;
        Case c = best;
        auto& v = get(c);
        v.erase(v.begin() + a, v.begin() + i);
        attempt(c, reseed);
        i = a;
        if (i > get(best).size()) i = get(best).size();
      }
      if (chunk == 1) break;
    }
  }
  long in_msg(const char* what) {
    size_t p = bv.msg.find(what);
    return p == std::string::npos ? -1 : atol(bv.msg.c_str() + p + strlen(what));
  }
  void run() {
    // the one fault, cut or configuration that matters
    long n;
    if ((n = in_msg("(number ")) > 0 && !best.num("nth")) { Case c = best; c.set("nth", n); attempt(c, false); }
    if ((n = in_msg("cut at byte ")) >= 0 && best.par.count("from")) { Case c = best; c.set("from", n); c.set("to", n); attempt(c, false); }
    if ((n = in_msg("[configuration ")) >= 0 && n < (long)best.cfgs.size() && best.cfgs.size() > 1 && best.prop == "C08") { Case c = best; c.cfgs.assign(1, best.cfgs[n]); attempt(c, false); }
    for (const char* p : {"cycles", "cold", "warm", "max"})
      for (long x : {0L, 1L, 4L}) { if (best.num(p) > x) { Case c = best; c.set(p, x); if (attempt(c, false)) break; } }
    if (best.num("kind") == 1 || best.num("kind") == 2) for (const char* p : {"calls"}) while (best.num(p) > 50 && !late()) { Case c = best; c.set(p, best.num(p) / 2); if (!attempt(c, false)) break; }
    if (best.par.count("variants")) for (long i = 0; i < best.num("variants") && !best.par.count("only"); i++) { Case c = best; c.set("only", i); attempt(c, false); }
    // structure
    for (int round = 0; round < 2 && !late(); round++) {
      list([](Case& c) -> std::vector<std::vector<Op>>& { return c.threads; }, 1, true);
      list([](Case& c) -> std::vector<Op>& { return c.prelude; }, best.prelude.empty() ? 0 : 1, true);
      for (size_t t = 0; t < best.threads.size() && !late(); t++)
        list([t](Case& c) -> std::vector<Op>& { return c.threads[t]; }, 0, true);
      list([](Case& c) -> std::vector<simfs::Fault>& { return c.fs; }, best.fs.size() ? 1 : 0, false);
      list([](Case& c) -> std::vector<std::pair<uint64_t, int>>& { return c.flips; }, 0, false);
    }
    // arguments
    for (size_t t = 0; t < best.threads.size(); t++)
      for (size_t i = 0; i < best.threads[t].size() && !late(); i++) {
        if (best.threads[t][i].fault.mode) { Case c = best; c.threads[t][i].fault = rt::AllocFault(); attempt(c, false); }
        list([t, i](Case& c) -> std::vector<uint32_t>& { return c.threads[t][i].text; }, 0, false);
        list([t, i](Case& c) -> std::vector<int>& { return c.threads[t][i].ids; }, 0, false);
        list([t, i](Case& c) -> std::vector<Tok>& { return c.threads[t][i].toks; }, 0, false);
      }
    { Case c = best; c.amb = rt::Ambient(); attempt(c, false); }
    if (best.prop == "C08" && best.cfgs.size() == 1 && !late()) {   // what can be left out of the configuration
      for (size_t chunk = best.cfgs[0].size() / 2; chunk >= 8 && !late(); chunk /= 2)
        for (size_t a = 0; a + chunk <= best.cfgs[0].size() && !late();) {
          Case c = best;
          c.cfgs[0].erase(a, chunk);
          if (!attempt(c, false)) a += chunk;
        }
    }
    // schedule
    if (k->schedules && !late() && !bv.sw.empty() && bv.sw.size() < (size_t)rt::MAXSW) {
      Case c = best;
      c.replay = bv.sw;
      c.sched.strategy = rt::S_REPLAY;
      if (attempt(c, false)) list([](Case& c) -> std::vector<rt::Switch>& { return c.replay; }, 0, false);
    }
  }
};

int main(int argc, char** argv) {
  if (!getenv("TSIM_STARTED")) {
    setenv("TSIM_STARTED", "1", 1);
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n > 0) {
      exe[n] = 0;
      std::string d(exe);
      setenv("LOCPATH", (d.substr(0, d.rfind('/')) + "/locale").c_str(), 1);
      for (const char* v : {"LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "LC_NUMERIC"}) unsetenv(v);
      int p = personality(0xffffffff);
      if (p != -1) personality(p | ADDR_NO_RANDOMIZE);
      execv(exe, argv);
    }
  }
  rt::init();
  bool fs = simfs::init();
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") {
    for (auto& k : checks) printf("%s %d %d\n", k.id, k.quick, k.thorough);
    printf("simulated file system %s\n", fs ? "available" : "unavailable");
    locale_init();
    for (int i = 0; i < locale_count(); i++) printf("locale %s\n", locale_name(i));
    return 0;
  }
  warm_up();
  locale_init();
  if (!fs) { fprintf(stderr, "no simulated file system here (syscall user dispatch)\n"); }
  if (cmd == "gen" && argc > 5) {
    const Check* k = find(argv[2]);
    if (!k) return 2;
    Case c = k->gen(strtoull(argv[4], nullptr, 10), atoi(argv[5]), !strcmp(argv[3], "thorough"));
    c.prop = k->id;
    c.seed = strtoull(argv[4], nullptr, 10);
    printf("%s", to_text(c).c_str());
    return 0;
  }
  if (cmd == "replay" || cmd == "minimize") {
    std::ifstream f(argv[2], std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    Case c;
    if (!f || !from_text(ss.str(), &c)) { fprintf(stderr, "unreadable case\n"); return 2; }
    const Check* k = find(c.prop);
    if (!k) return 2;
    Verdict v = k->exec(c);
    if (cmd == "replay") {
      printf("%s\n", verdict_json(v).c_str());
      return v.infra ? 2 : v.violated ? 1 : 0;
    }
    if (!v.violated || v.infra) { printf("%s\n", verdict_json(v).c_str()); return 2; }
    Mini m;
    m.k = k;
    m.kind = v.kind;
    m.end = now() + atof(argv[4]);
    m.best = c;
    m.bv = v;
    m.run();
    save(argv[3], to_text(m.best));
    printf("%s\n", verdict_json(m.bv).c_str());
    return 1;
  }
  if (cmd != "run" || argc < 9) return 2;
  const Check* k = find(argv[2]);
  if (!k) return 2;
  bool thorough = !strcmp(argv[3], "thorough");
  uint64_t seed = strtoull(argv[4], nullptr, 10);
  int w = atoi(argv[5]), nw = atoi(argv[6]);
  double end = now() + atof(argv[7]);
  std::string out = argv[8];
  int n = thorough ? k->thorough : k->quick;
  std::set<uint64_t> seen;
  std::string viol, infra, samples;
  int ns = 0, repeats = 0;
  double t0 = now();
  int done = 0;
  for (int i = w; i < n && now() < end; i += nw) {
    Case c = k->gen(seed, i, thorough);
    c.prop = k->id;
    c.seed = seed * 1000003 + i;
    Verdict v = k->exec(c);
    done++;
    tot.cases++;
    bool twice = (i / nw) % 40 == 7 || v.violated;
    if (twice && !v.infra) {
      Verdict v2 = k->exec(c);
      repeats++;
      if (v2.violated != v.violated || (v.kind != v2.kind) || (!v.violated && v.hash != v2.hash)) {
        v.infra = true;
        v.msg = "two executions of one case differ: " + v.msg + " / " + v2.msg;
      }
    }
    if (v.infra) {
      save(out + ".infra", to_text(c));
      infra = v.msg + " (index " + std::to_string(i) + ")";
      break;
    }
    if (v.violated) {
      save(out + ".case", to_text(c));
      viol = verdict_json(v);
      printf("index %d %s\n", i, viol.c_str());
      break;
    }
    if (v.nontrivial) seen.insert(v.nontrivial);
    if (ns < 2 && v.nontrivial && done % 3 == 0) {
      std::string s;
      for (auto& p : c.prelude) s += describe(p) + "; ";
      for (size_t t = 0; t < c.threads.size(); t++) { s += "[T" + std::to_string(t + 1) + ": "; for (auto& p : c.threads[t]) s += describe(p) + "; "; s += "] "; }
      samples += (ns ? "," : "") + js(clip("seed " + std::to_string(c.seed) + ": " + s, 900));
      ns++;
    }
  }
  std::ostringstream o;
  o << "{\"cases\":" << tot.cases << ",\"runs\":" << tot.runs << ",\"ref_runs\":" << tot.ref_runs << ",\"events\":" << tot.events << ",\"switches\":" << tot.switches << ",\"decisions\":" << tot.decisions
    << ",\"allocs\":" << tot.allocs << ",\"alloc_faults\":" << tot.alloc_faults << ",\"sync_ops\":" << tot.sync_ops << ",\"conflicts\":" << tot.conflicts << ",\"threads\":" << tot.threads << ",\"static_inits\":" << tot.static_inits
    << ",\"mutex_blocks\":" << tot.mutex_blocks << ",\"flips\":" << tot.flips << ",\"sim_ns\":" << tot.sim_ns << ",\"ops\":" << tot.ops << ",\"loads\":" << tot.loads << ",\"repeats\":" << repeats << ",\"wall\":" << now() - t0
    << ",\"planned\":" << n << ",\"counters\":{";
  bool first = true;
  for (auto& x : tot.counters) { o << (first ? "" : ",") << js(x.first) << ":" << x.second; first = false; }
  o << "},\"samples\":[" << samples << "],\"hashes\":[";
  first = true;
  for (auto h : seen) { o << (first ? "" : ",") << "\"" << h << "\""; first = false; }
  o << "],\"violation\":" << (viol.empty() ? "null" : viol) << ",\"infra\":" << (infra.empty() ? "null" : js(infra)) << "}\n";
  save(out, o.str());
  return !infra.empty() ? 2 : viol.empty() ? 0 : 1;
}
