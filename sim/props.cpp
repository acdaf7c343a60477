// The checks: what is generated, run, and compared, property by property.
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <set>
#include "world.h"

std::string clip(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + " bytes)"; }
std::string key_of(const Op& o) {
  Op x = o;
  x.fault = rt::AllocFault();
  x.jnth = 0;
  return describe(x) + (x.flag ? "+" : "-");
}
Op op_load(int tok, int cfg, bool by_path) { Op o; o.kind = O_LOAD; o.tok = tok; o.arg = cfg; o.by_path = by_path; return o; }
Op op_encode(int tok, const std::vector<uint32_t>& t, bool flag) { Op o; o.kind = O_ENCODE; o.tok = tok; o.text = t; o.flag = flag; return o; }
Op op_decode(int tok, const std::vector<int>& ids, bool flag) { Op o; o.kind = O_DECODE; o.tok = tok; o.ids = ids; o.flag = flag; return o; }
Op op_simple(int kind, int tok, int arg) { Op o; o.kind = kind; o.tok = tok; o.arg = arg; return o; }
void fail(Verdict* v, const char* kind, const std::string& msg) {
  if (v->violated) return;
  v->violated = true;
  v->kind = kind;
  v->msg = msg;
}
void count_ops(const std::vector<Op>& v) { for (auto& o : v) { tot.ops++; if (o.kind == O_LOAD) tot.loads++; } }

Run run_seq(const Case& c, const std::vector<Op>& ops, const rt::Ambient* amb, bool whole) {
  Case d;
  d.cfgs = c.cfgs;
  d.amb = amb ? *amb : c.amb;
  count_ops(ops);
  tot.ref_runs++;
  return fork_run(d, [&] {
    Slots* s = new_slots();
    for (auto& o : ops) emit(do_op(s, d, o, nullptr), whole);
    rt::check_heap();
  });
}

// ------------------------------------------------------------ generators
Op gen_op(Rng& r, const Profile& p, int tok, bool adds) {
  int k = (int)r.below(adds ? 12 : 10);
  if (k < 7) return op_encode(tok, gen_text(r, p, r.p(1, 8) ? 24 : 6), r.p(3, 4));
  if (k < 10) return op_decode(tok, gen_ids(r, p, r.p(1, 6) ? 6 : 0), r.p(2, 3));
  Op o = op_simple(r.p(1, 2) ? O_ADD : O_ADDSP, tok);
  o.toks = gen_toks(r, p);
  return o;
}
// an operation near another: same words, same ids, slightly different
Op vary_op(Rng& r, const Profile& p, Op o) {
  if (o.kind == O_ENCODE) { if (r.p(1, 5)) o.flag = !o.flag; else o.text = vary_text(r, p, o.text); }
  else if (o.kind == O_DECODE) {
    int k = (int)r.below(5);
    if (k == 0) o.flag = !o.flag;
    else if (k == 1 && !o.ids.empty()) o.ids.pop_back();
    else if (k == 2 && !o.ids.empty()) o.ids[r.below(o.ids.size())] = (int)r.below(p.nids);
    else if (k == 3 && o.ids.size() > 1) std::swap(o.ids[r.below(o.ids.size())], o.ids[r.below(o.ids.size())]);
    else o.ids.push_back((int)r.below(p.nids));
  }
  return o;
}
// operations that have much in common
std::vector<Op> gen_pool(Rng& r, const Profile& p, int tok, int n) {
  std::vector<Op> v;
  for (int i = 0; i < n; i++) v.push_back(i && r.p(1, 2) ? vary_op(r, p, r.pick(v)) : gen_op(r, p, tok, false));
  return v;
}
rt::AllocFault gen_fault(Rng& r, uint32_t max) {
  rt::AllocFault f;
  int k = (int)r.below(8);
  f.mode = k < 4 ? rt::AF_ONCE : k < 6 ? rt::AF_FROM : k < 7 ? rt::AF_BURST : rt::AF_EVERY;
  f.nth = 1 + (uint32_t)r.below(max);
  if (r.p(1, 3)) f.nth = 1 + (uint32_t)r.below(12);
  f.arg = 2 + (uint32_t)r.below(6);
  return f;
}
rt::Ambient gen_ambient(Rng& r) {
  rt::Ambient a;
  static const uint8_t fills[] = {0x00, 0xFF, 0xA5, 0x01, 0x7F, 0x20};
  a.fill = fills[r.below(6)];
  a.reuse = (uint8_t)r.below(3);
  a.shift = (uint32_t)r.below(4096) * 16;
  a.clock0 = (1000000000ull + r.below(4000000000ull)) * 1000000000ull + r.below(1000000000);
  a.entropy = r.next();
  a.env = (uint8_t)r.below(4);
  a.clock = (uint8_t)r.below(4);
  a.machine = (uint8_t)r.below(4);
  return a;
}
void gen_sched(Rng& r, Case* c) {
  auto& s = c->sched;
  int k = (int)r.below(10);
  s.strategy = k < 3 ? rt::S_RW : k < 5 ? rt::S_PCT : k < 8 ? rt::S_CONFLICT : rt::S_SYNC;
  s.seed = r.next() >> 8;
  static const uint32_t gaps[] = {15, 60, 250, 1000, 4000};
  s.gap = gaps[r.below(5)];
  s.pct_depth = 2 + (uint32_t)r.below(6);
  s.est_events = 0;
}
rt::SchedCfg sched_of(const Case& c, uint64_t est) {
  rt::SchedCfg s = c.sched;
  if (!s.est_events) s.est_events = est ? est : 100000;
  if (s.strategy == rt::S_REPLAY) { s.replay = c.replay.data(); s.nreplay = (int)c.replay.size(); }
  return s;
}

struct TArg { Slots* s; const Case* c; int t; };
static void thread_body(void* a) {
  TArg* x = (TArg*)a;
  auto& ops = x->c->threads[x->t];
  for (size_t i = 0; i < ops.size(); i++) {
    std::string r = do_op(x->s, *x->c, ops[i], nullptr);
    emit(std::to_string(x->t) + "." + std::to_string(i) + "\x01" + r);
    rt::out->progress[x->t & 7] = (uint32_t)i + 1;
  }
}
static void run_case_threads(Slots* s, const Case& c, uint64_t est) {
  TArg a[rt::MAXT];
  void* p[rt::MAXT];
  int n = (int)c.threads.size();
  for (int i = 0; i < n; i++) { a[i] = {s, &c, i}; p[i] = &a[i]; }
  rt::run_threads(sched_of(c, est), n, thread_body, p);
}
std::map<std::string, std::string> tagged(const Run& r) {
  std::map<std::string, std::string> m;
  for (auto& x : r.res) {
    size_t p = x.find('\x01');
    if (p != std::string::npos) m[x.substr(0, p)] = x.substr(p + 1);
  }
  return m;
}
static void infra(Verdict* v, const std::string& m) { v->infra = true; v->msg = m; }
// the result a faulted operation may give
static bool faulted_ok(const std::string& got, const std::string& want) { return got == want || got.compare(0, 2, "X:") == 0; }
void mismatch(Verdict* v, const char* kind, const std::string& where, const std::string& got, const std::string& want) {
  fail(v, kind, where + ": got " + clip(got,1500) + " instead of " + clip(want,1500));
}

// ------------------------------------------------------------ C01
typedef std::vector<uint32_t> U;
static Case gen_C01(uint64_t seed, int index, bool) {
  Rng r(seed * 1000003 + index);
  Case c;
  GenOpt o;
  bool full = index % 64 == 5;
  o.dropout = !full && r.p(1, 10);
  if (full) o.family = r.p(1, 4) ? 1 : r.p(1, 2) ? 2 : 4;
  Profile p = gen_profile(r, o);
  c.cfgs = {p.json};
  c.set("dropout", p.dropout);
  c.prelude.push_back(op_load(0, 0));
  if (r.p(1, 4)) { Op a = op_simple(O_ADD, 0); a.toks = gen_toks(r, p); c.prelude.push_back(a); }
  int n = r.p(1, 2) ? 2 : r.range(3, 5);
  // operations come from a small pool, so that threads work on the same words
  std::vector<Op> pool = gen_pool(r, p, 0, r.range(2, 6));
  if (r.p(1, 3)) c.prelude.push_back(r.pick(pool));
  Op hot, cold;
  if (full) {   // whatever is remembered of words is full, or about to be
    hot = op_simple(O_BULK, 0, r.p(1, 2) ? r.range(10005, 10400) : 10000 - r.range(0, 60));
    hot.text = {(uint32_t)r.below(1000)};
    for (auto x : w(p.alpha.c_str())) hot.text.push_back(x);
    c.prelude.push_back(hot);
    cold = hot;
    hot.arg = r.range(10, 60);
    cold.arg = r.range(1, 12);
    cold.ids = {1000000 + r.range(0, 1000)};
    if (n > 3) n = 3;
  }
  for (int t = 0; t < n; t++) {
    c.threads.emplace_back();
    int k = r.range(1, n > 3 ? 3 : 4);
    for (int i = 0; i < k; i++) c.threads[t].push_back(!full || r.p(1, 5) ? r.pick(pool) : r.p(2, 3) ? hot : cold);
  }
  if (index % 12 == 7) {   // one failure after another, on every thread
    for (auto& th : c.threads) {
      while (th.size() < 6) th.push_back(r.pick(pool));
      for (auto& x : th) if (r.p(2, 3)) x.fault = gen_fault(r, r.p(1, 2) ? 300 : 80);
    }
  } else if (r.p(1, 4)) { auto& th = r.pick(c.threads); r.pick(th).fault = gen_fault(r, 300); }
  gen_sched(r, &c);
  c.amb = gen_ambient(r);
  return c;
}
static Verdict exec_C01(const Case& c) {
  Verdict v;
  std::map<std::string, std::string> want;
  uint64_t est = 0;
  std::vector<Op> loads, all;
  for (auto& o : c.prelude) if (o.kind != O_ENCODE && o.kind != O_DECODE && o.kind != O_BULK) loads.push_back(o);
  for (auto& t : c.threads) for (auto& o : t) all.push_back(o);
  for (auto& o : all) {
    std::string k = key_of(o);
    if (want.count(k)) continue;
    std::vector<Op> seq = loads;
    seq.push_back(o);
    seq.back().fault = rt::AllocFault();
    Run r = run_seq(c, seq);
    fold(&v, r);
    if (v.violated || v.infra) return v;
    want[k] = r.res.back();
    est += r.st.events;
  }
  for (auto& t : c.threads) count_ops(t);
  Run r = fork_run(c, [&] {
    Slots* s = new_slots();
    for (auto& o : c.prelude) emit(do_op(s, c, o, nullptr));
    rt::set_race(true);
    run_case_threads(s, c, est);
    // afterwards the tokenizer still works
    for (auto& th : c.threads) { if (th.empty()) break; Op o = th.back(); o.fault = rt::AllocFault(); emit("after\x01" + do_op(s, c, o, nullptr)); break; }
    rt::check_heap();
    do_op(s, c, op_simple(O_DESTROY, 0), nullptr);
    rt::check_heap();
  });
  fold(&v, r);
  v.sw = r.sw;
  v.nontrivial = r.st.switches > 1 ? r.hash : 0;
  if (v.violated || v.infra) return v;
  auto got = tagged(r);
  for (size_t t = 0; t < c.threads.size(); t++)
    for (size_t i = 0; i < c.threads[t].size(); i++) {
      const Op& o = c.threads[t][i];
      std::string g = got[std::to_string(t) + "." + std::to_string(i)], w = want[key_of(o)];
      std::string at = "thread " + std::to_string(t + 1) + " call " + std::to_string(i + 1) + " (" + clip(describe(o), 200) + ")";
      if (o.fault.mode ? !faulted_ok(g, w) : g != w) mismatch(&v, "wrong-result", at, g, w);
    }
  if (!c.threads.empty() && !c.threads[0].empty() && got["after"] != want[key_of(c.threads[0].back())])
    mismatch(&v, "wrong-result", "the first call made after all threads finished (" + clip(describe(c.threads[0].back()), 200) + ")", got["after"], want[key_of(c.threads[0].back())]);
  return v;
}

// ------------------------------------------------------------ C02
// lineage: slots 2k and 2k+1 (a tokenizer and where it is moved to)
static Case gen_C02(uint64_t seed, int index, bool) {
  Rng r(seed * 1000003 + index + 7);
  Case c;
  int n = r.range(2, 4);
  std::vector<Profile> ps;
  Profile first;
  uint64_t shared = r.next();
  for (int i = 0; i < n; i++) {
    GenOpt o;
    Rng q(r.p(1, 3) ? shared : r.next());
    if (i && r.p(1, 2)) o.family = first.bpe ? (first.family == "bytelevel-bpe" ? 1 : 2) : 0;
    Profile p = i && r.p(1, index % 4 == 1 ? 2 : 4) ? gen_twin(r, r.pick(ps)) : gen_profile(q, o);
    if (!i) first = p;
    ps.push_back(p);
    c.cfgs.push_back(p.json);
  }
  std::vector<std::vector<Op>> lin(n);
  // what several of them are asked
  std::vector<Op> common;
  for (int i = 0; i < 3; i++) common.push_back(gen_op(r, r.pick(ps), 0, false));
  { Op a = op_simple(r.p(1, 2) ? O_ADD : O_ADDSP, 0); a.toks = gen_toks(r, r.pick(ps)); for (int i = 0; i < 2; i++) { Tok t; t.content = r.pick(r.pick(ps).vocab); t.normalized = r.p(1, 2); a.toks.push_back(t); } common.push_back(a); }
  bool alike = r.p(1, 2);
  for (int i = 0; i < n; i++) {
    int cur = 2 * i;
    auto& L = lin[i];
    L.push_back(op_load(cur, i));
    int k = r.range(1, 5);
    for (int j = 0; j < k; j++) {
      int what = (int)r.below(12);
      if (what == 0) { int to = cur ^ 1; L.push_back(op_simple(O_MOVE, cur, to)); cur = to; }
      else if (what == 1) L.push_back(op_load(cur, (int)r.below(n)));
      else if (what == 2) { L.push_back(op_simple(O_DESTROY, cur)); L.push_back(op_load(cur, i)); }
      else if (alike && r.p(1, 2)) { Op o = r.pick(common); o.tok = cur; L.push_back(o); }
      else {
        const Profile& p = r.p(1, 4) && ps[i].bpe == first.bpe ? first : ps[i];
        L.push_back(gen_op(r, p, cur, true));
      }
    }
    if (r.p(1, 4)) L.push_back(op_simple(O_PROBE, cur, std::min(ps[i].nids, 60) + 4));
    if (r.p(1, 2)) L.push_back(op_simple(O_DESTROY, cur));
  }
  c.set("lineages", n);
  bool after = false;
  if (index % 32 == 3) {   // many tokenizers live at the same time
    int m = r.range(9, 31);
    std::vector<Op> l, asked;
    for (int i = 0; i < m; i++) l.push_back(op_load(2 * i, i % n));
    for (int j = r.range(1, 2); j > 0; j--) asked.push_back(r.p(1, 3) ? gen_op(r, ps[0], 0, true) : r.pick(common));
    for (int j = 0; j < 2; j++) {
      bool back = r.p(1, 3);
      for (auto o : asked)
        for (int i = 0; i < m; i++) { o.tok = 2 * (back ? m - 1 - i : i); l.push_back(o); }
      if (!j) for (int i = 0; i < m; i++) if (r.p(1, 6)) { l.push_back(op_simple(O_DESTROY, 2 * i)); l.push_back(op_load(2 * i, (int)r.below(n))); }
    }
    c.set("lineages", m);
    c.threads.push_back(l);
  } else if (index % 4 == 1) {   // one thread asks two or three of them the same things in turn
    std::vector<std::string> both;
    for (auto& x : ps[0].vocab) if (std::find(ps[1].vocab.begin(), ps[1].vocab.end(), x) != ps[1].vocab.end()) both.push_back(x);
    int m = std::min(n, r.range(2, 3));
    std::vector<Op> l;
    for (int i = 0; i < m; i++) l.push_back(op_load(2 * i, i));
    int k = r.range(2, 6);
    for (int j = 0; j < k; j++) {
      Op o;
      if (r.p(1, 2)) {
        o = op_simple(r.p(1, 2) ? O_ADD : O_ADDSP, 0);
        if (!both.empty()) for (int q = r.range(1, 2); q > 0; q--) { Tok t; t.content = r.pick(both); t.normalized = r.p(1, 2); o.toks.push_back(t); }
        else o.toks = gen_toks(r, ps[0]);
      } else o = r.p(1, 3) ? r.pick(common) : gen_op(r, ps[r.below(m)], 0, true);
      for (int i = 0; i < m; i++) { o.tok = 2 * i; l.push_back(o); }
    }
    for (int i = 0; i < m; i++) l.push_back(op_simple(O_PROBE, 2 * i, std::min(ps[i].nids, 60) + 4));
    c.threads.push_back(l);
  } else if (index % 4 == 2) {   // one thread uses one after the other, each where the last one was
    Profile p = ps[0];
    std::vector<Op> asked;
    for (int j = r.range(1, 4); j > 0; j--) asked.push_back(r.p(1, 4) ? op_decode(0, {(int)r.below(p.nids)}, r.p(1, 2)) : r.p(1, 4) ? r.pick(common) : gen_op(r, p, 0, true));
    std::vector<Op> l;
    for (int i = 0; i < n; i++) {
      if (i && r.p(2, 3)) c.cfgs[i] = gen_twin(r, p).json;
      l.push_back(op_load(2 * i, i));
      if (i && r.p(1, 2)) std::reverse(asked.begin(), asked.end());
      for (auto o : asked) { o.tok = 2 * i; l.push_back(o); }
      if (r.p(1, 4)) l.push_back(op_simple(O_PROBE, 2 * i, std::min(p.nids, 60) + 4));
      l.push_back(op_simple(O_DESTROY, 2 * i));
    }
    c.threads.push_back(l);
    after = true;
  } else if (r.p(1, 4)) {        // one thread, interleaved by hand
    c.threads.emplace_back();
    std::vector<size_t> pos(n, 0);
    for (;;) {
      std::vector<int> live;
      for (int i = 0; i < n; i++) if (pos[i] < lin[i].size()) live.push_back(i);
      if (live.empty()) break;
      int i = r.pick(live);
      c.threads[0].push_back(lin[i][pos[i]++]);
    }
  } else {
    for (auto& l : lin) c.threads.push_back(l);
  }
  if (r.p(1, 6)) { auto& th = r.pick(c.threads); Op& o = r.pick(th); if (o.kind == O_ENCODE || o.kind == O_DECODE) o.fault = gen_fault(r, 300); }
  gen_sched(r, &c);
  c.amb = gen_ambient(r);
  if (after) c.amb.reuse = 1;
  return c;
}
static Verdict exec_C02(const Case& c) {
  Verdict v;
  uint64_t est = 0;
  std::map<std::string, std::string> want;
  std::map<int, std::vector<std::pair<size_t, size_t>>> lin;
  for (size_t t = 0; t < c.threads.size(); t++)
    for (size_t i = 0; i < c.threads[t].size(); i++) lin[c.threads[t][i].tok / 2].push_back({t, i});
  for (auto& l : lin) {
    std::vector<Op> seq;
    for (auto& x : l.second) seq.push_back(c.threads[x.first][x.second]);
    Run r = run_seq(c, seq);
    fold(&v, r);
    if (v.violated || v.infra) return v;
    for (size_t i = 0; i < seq.size(); i++) want[std::to_string(l.second[i].first) + "." + std::to_string(l.second[i].second)] = r.res[i];
    est += r.st.events;
  }
  for (auto& t : c.threads) count_ops(t);
  Run r = fork_run(c, [&] {
    Slots* s = new_slots();
    run_case_threads(s, c, est);
    rt::check_heap();
  });
  fold(&v, r);
  v.sw = r.sw;
  v.nontrivial = r.st.switches > 1 || c.threads.size() == 1 ? r.hash : 0;
  if (v.violated || v.infra) return v;
  auto got = tagged(r);
  for (auto& w : want) {
    size_t t = atoi(w.first.c_str()), i = atoi(w.first.c_str() + w.first.find('.') + 1);
    const Op& o = c.threads[t][i];
    const std::string& g = got[w.first];
    bool ok = o.fault.mode ? faulted_ok(g, w.second) || w.second[0] == 'X' : g == w.second;
    if (!ok) mismatch(&v, "wrong-result", "thread " + std::to_string(t + 1) + " call " + std::to_string(i + 1) + " (" + clip(describe(o), 200) + ") next to other tokenizers", g, w.second);
  }
  return v;
}

// ------------------------------------------------------------ C03
static Case gen_C03(uint64_t seed, int index, bool thorough) {
  Rng r(seed * 1000003 + index + 11);
  Case c;
  GenOpt go;
  go.dropout = r.p(1, 8);
  Profile p = gen_profile(r, go);
  c.cfgs = {p.json};
  int cur = 0;
  std::vector<Op> ops{op_load(0, 0)};
  int n = r.range(6, 16);
  bool bulk = index % (thorough ? 12 : 24) == 3;
  std::vector<Op> pool = gen_pool(r, p, 0, 5);
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(20);
    Op o;
    if (k < 10) o = r.pick(pool);
    else if (k < 14) o = gen_op(r, p, 0, false);
    else if (k < 16) { o = op_simple(r.p(1, 2) ? O_ADD : O_ADDSP, 0); o.toks = gen_toks(r, p); }
    else if (k < 17) { o = op_simple(O_MOVE, cur, cur ^ 1); }
    else if (k < 18) { o = r.pick(pool); o.fault = gen_fault(r, 300); }
    else if (k < 19) { o = op_decode(0, {p.nids + 50, -3}); }
    else { o = op_encode(0, gen_text(r, p)); if (o.text.size()) o.text[r.below(o.text.size())] = 0xD800 + (uint32_t)r.below(16); }
    o.tok = cur;
    if (o.kind == O_MOVE) cur ^= 1;
    if (r.p(1, 300)) lengthen(r, p, &o, 4000);
    ops.push_back(o);
  }
  if (bulk) {
    Op o = op_simple(O_BULK, cur, thorough ? r.range(9000, 24000) : r.range(10100, 12500));
    o.text = {(uint32_t)r.below(1000)};
    for (auto x : w(p.alpha.c_str())) o.text.push_back(x);
    ops.push_back(o);
    for (int i = 0; i < 3; i++) { Op q = r.pick(pool); q.tok = cur; ops.push_back(q); }
    Op q = op_encode(cur, gen_text(r, p));
    ops.push_back(q);
    // words of the bulk call again, old and new
    Op o2 = op_simple(O_BULK, cur, 60);
    o2.text = o.text;
    ops.push_back(o2);
  }
  c.threads.push_back(ops);
  c.amb = gen_ambient(r);
  return c;
}
static Verdict exec_C03(const Case& c) {
  Verdict v;
  const auto& ops = c.threads[0];
  Run r = run_seq(c, ops);
  fold(&v, r);
  v.nontrivial = v.hash;
  if (v.violated || v.infra) return v;
  std::vector<Op> past;
  std::map<std::string, std::string> memo;
  int at = -1;     // the slot that has the tokenizer
  for (size_t i = 0; i < ops.size(); i++) {
    Op o = ops[i];
    if (o.kind == O_LOAD) at = o.tok;
    if (o.tok != at) continue;
    if (o.kind == O_MOVE) at = o.arg;
    if (o.kind == O_LOAD) { past.clear(); memo.clear(); }
    o.tok = 0;
    if (o.kind == O_LOAD || o.kind == O_ADD || o.kind == O_ADDSP) past.push_back(o);
    if (o.kind == O_MOVE) continue;
    if (o.kind == O_BULK && o.arg > 2000) continue;
    rt::AllocFault f = o.fault;
    o.fault = rt::AllocFault();
    std::string k = std::to_string(past.size()) + key_of(o);
    if (!memo.count(k)) {
      std::vector<Op> seq = past;
      if (o.kind == O_ENCODE || o.kind == O_DECODE || o.kind == O_BULK) seq.push_back(o);
      Run q = run_seq(c, seq);
      fold(&v, q);
      if (v.violated || v.infra) return v;
      memo[k] = q.res.back();
    }
    const std::string& want = memo[k];
    if (f.mode ? !(faulted_ok(r.res[i], want)) : r.res[i] != want)
      mismatch(&v, "wrong-result", "call " + std::to_string(i + 1) + " (" + clip(describe(ops[i]), 200) + ") after the calls before it", r.res[i], want);
  }
  return v;
}

// ------------------------------------------------------------ C04
static Case gen_C04(uint64_t seed, int index, bool thorough) {
  Rng r(seed * 1000003 + index + 13);
  Case c;
  GenOpt go;
  if (r.p(1, 3)) go.family = r.p(1, 2) ? 3 : 5;
  go.dropout = r.p(1, 12);
  Profile p = gen_profile(r, go);
  c.cfgs = {p.json};
  c.prelude.push_back(op_load(0, 0));
  if (r.p(1, 3)) { Op a = op_simple(O_ADD, 0); a.toks = gen_toks(r, p); c.prelude.push_back(a); }
  bool longer = r.p(1, 5);    // longer than what ICU keeps without allocating
  Op o = longer ? op_encode(0, gen_text(r, p, 16), r.p(3, 4)) : r.p(4, 5) ? op_encode(0, gen_text(r, p, 5), r.p(3, 4)) : op_decode(0, gen_ids(r, p, 0), r.p(1, 2));
  if (r.p(1, 3)) c.prelude.push_back(gen_op(r, p, 0, false));
  c.threads.push_back({o, gen_op(r, p, 0, false)});
  int k = (int)r.below(8);
  c.set("mode", k < 4 ? rt::AF_ONCE : k < 6 ? rt::AF_FROM : k < 7 ? rt::AF_BURST : rt::AF_EVERY);
  c.set("arg", r.range(2, 6));
  c.set("offset", (long)r.below(100000));
  c.set("cold", thorough ? 40 : 14);
  c.set("warm", thorough ? 1000 : longer ? 90 : 150);
  c.set("cycles", thorough ? 20 : 7);
  c.amb = gen_ambient(r);
  return c;
}
// allocations to fail: at most n of 1..total, spread, from par "offset" on; or the one in par "nth"
static std::vector<uint32_t> spread(const Case& c, uint32_t total, long n, uint32_t salt) {
  std::vector<uint32_t> o;
  if (c.num("nth")) { o.push_back((uint32_t)c.num("nth")); return o; }
  if (!total || n <= 0) return o;
  if (total <= n) { for (uint32_t i = 1; i <= total; i++) o.push_back(i); return o; }
  Rng r(c.num("offset") + salt);
  std::set<uint32_t> s;
  while ((long)s.size() < n) {
    uint32_t end = (uint32_t)r.below(total < 40 ? total : 40);   // the first and the last stages are the short ones
    int k = (int)r.below(6);
    s.insert(k == 0 ? 1 + end : k == 1 ? total - end : 1 + (uint32_t)r.below(total));
  }
  o.assign(s.begin(), s.end());
  return o;
}
static rt::AllocFault fault_of(const Case& c, uint32_t nth) {
  rt::AllocFault f;
  f.mode = (int)c.num("mode", rt::AF_ONCE);
  f.nth = nth;
  f.arg = (uint32_t)c.num("arg", 2);
  return f;
}
static std::string fault_text(const rt::AllocFault& f) {
  static const char* m[] = {"", "one allocation", "every allocation from", "a burst of allocations", "every n-th allocation"};
  return std::string(m[f.mode]) + " (number " + std::to_string(f.nth) + (f.mode == rt::AF_BURST || f.mode == rt::AF_EVERY ? ", " + std::to_string(f.arg) : "") + ") failing";
}
// leak: the same cycle of operations keeps more memory every time
void leak_cycles(const Case& c, int n, const std::function<void()>& cycle) {
  uint64_t live[8];
  uint32_t seq[9];
  for (int i = 0; i < n && i < 8; i++) { seq[i] = rt::alloc_seq(); cycle(); live[i] = rt::live_bytes(); }
  if (live[n - 1] > live[n - 2] && live[n - 2] > live[n - 3]) {
    char b[512] = "";
    rt::leaked_since(seq[n - 1], b, sizeof b, rt::out->pcs[0], (int*)&rt::out->npcs[0]);
    rt::violation("leak", "%llu bytes more are held after each repetition of the same calls: %s", (unsigned long long)(live[n - 1] - live[n - 2]), b);
  }
}
static Verdict exec_C04(const Case& c) {
  Verdict v;
  if (c.threads.empty() || c.threads[0].size() < 2) return v;
  const Op op = c.threads[0][0], op2 = c.threads[0][1];
  uint32_t total = 0;
  std::string want, want2;
  {
    Run r = fork_run(c, [&] {
      Slots* s = new_slots();
      for (auto& o : c.prelude) do_op(s, c, o, nullptr);
      rt::OpCtl ctl;
      emit(do_op(s, c, op, &ctl));
      emit(do_op(s, c, op2, nullptr));
      emit(std::to_string(ctl.allocs));
    });
    fold(&v, r);
    if (v.violated || v.infra) return v;
    want = r.res[0];
    want2 = r.res[1];
    total = (uint32_t)atoi(r.res[2].c_str());
  }
  // every failure in one process, warm
  auto nths = spread(c, total, c.num("warm"), 1);
  Run r = fork_run(c, [&] {
    Slots* s = new_slots();
    for (auto& o : c.prelude) do_op(s, c, o, nullptr);
    int k = 0;
    for (auto n : nths) {
      Op x = op;
      x.fault = fault_of(c, n);
      emit(do_op(s, c, x, nullptr));
      emit(++k % 8 == 0 || nths.size() < 8 ? do_op(s, c, k % 16 ? op : op2, nullptr) : std::string());
    }
    rt::check_heap();
  });
  fold(&v, r);
  if (v.violated || v.infra) { if (!r.res.empty()) v.msg += " [failing allocation of step " + std::to_string(r.res.size() / 2 + 1) + "]"; return v; }
  uint64_t thrown = 0;
  for (size_t i = 0; i < nths.size(); i++) {
    auto f = fault_of(c, nths[i]);
    if (!faulted_ok(r.res[2 * i], want)) { mismatch(&v, "wrong-result", describe(op) + " with " + fault_text(f), r.res[2 * i], want); return v; }
    if (r.res[2 * i][0] == 'X') thrown++;
    int k = (int)i + 1;
    if (!r.res[2 * i + 1].empty()) {
      const std::string& w = k % 16 ? want : want2;
      if (r.res[2 * i + 1] != w) { mismatch(&v, "wrong-result-later", describe(k % 16 ? op : op2) + " after calls with " + fault_text(f), r.res[2 * i + 1], w); return v; }
    }
  }
  // fresh tokenizers
  for (auto n : spread(c, total, c.num("cold"), 2)) {
    Op x = op;
    x.fault = fault_of(c, n);
    Run q = fork_run(c, [&] {
      Slots* s = new_slots();
      for (auto& o : c.prelude) do_op(s, c, o, nullptr);
      emit(do_op(s, c, x, nullptr));
      emit(do_op(s, c, op, nullptr));
      emit(do_op(s, c, op2, nullptr));
      rt::check_heap();
      do_op(s, c, op_simple(O_DESTROY, 0), nullptr);
    });
    fold(&v, q);
    if (v.violated || v.infra) { v.msg += " [" + fault_text(x.fault) + "]"; return v; }
    if (!faulted_ok(q.res[0], want)) { mismatch(&v, "wrong-result", describe(op) + " with " + fault_text(x.fault), q.res[0], want); return v; }
    if (q.res[1] != want) { mismatch(&v, "wrong-result-later", describe(op) + " after a call with " + fault_text(x.fault), q.res[1], want); return v; }
    if (q.res[2] != want2) { mismatch(&v, "wrong-result-later", describe(op2) + " after a call with " + fault_text(x.fault), q.res[2], want2); return v; }
    if (q.res[0][0] == 'X') thrown++;
  }
  // leaks
  for (auto n : spread(c, total, c.num("cycles"), 3)) {
    Op x = op;
    x.fault = fault_of(c, n);
    Run q = fork_run(c, [&] {
      Slots* s = new_slots();
      leak_cycles(c, 5, [&] {
        for (auto& o : c.prelude) do_op(s, c, o, nullptr);
        do_op(s, c, x, nullptr);
        do_op(s, c, op_simple(O_DESTROY, 0), nullptr);
      });
      for (auto& o : c.prelude) do_op(s, c, o, nullptr);
      do_op(s, c, op, nullptr);
      leak_cycles(c, 5, [&] { do_op(s, c, x, nullptr); });
    });
    fold(&v, q);
    if (v.violated || v.infra) { v.msg += " [" + fault_text(x.fault) + "]"; return v; }
  }
  tot.counters["failures reported as exceptions"] += thrown;
  v.nontrivial = thrown ? v.hash : 0;
  return v;
}

// ------------------------------------------------------------ fingerprints
static std::vector<Op> probes(Rng& r, const Profile& p, int slot, int more = 0) {
  std::vector<Op> o;
  o.push_back(op_simple(O_PROBE, slot, p.nids + 14 + more));
  o.push_back(op_encode(slot, gen_text(r, p)));
  o.push_back(op_encode(slot, gen_text(r, p), false));
  auto x = w("<x1> a <extra> <new>");
  auto t = gen_text(r, p, 3);
  t.push_back(' ');
  t.insert(t.end(), x.begin(), x.end());
  o.push_back(op_encode(slot, t));
  o.push_back(op_decode(slot, gen_ids(r, p, 6)));
  o.push_back(op_decode(slot, gen_ids(r, p, 0), false));
  return o;
}
static std::string finger(Slots* s, const Case& c, const std::vector<Op>& pr) {
  std::string f;
  for (auto& o : pr) { f += do_op(s, c, o, nullptr); f += '\n'; }
  return f;
}

// ------------------------------------------------------------ C05
static Case gen_C05(uint64_t seed, int index, bool thorough) {
  Rng r(seed * 1000003 + index + 17);
  Case c;
  GenOpt o;
  o.family = r.p(1, 2) ? 0 : 3;
  bool ids = r.p(4, 5);
  if (!ids) o.family = -1;
  Profile p = gen_profile(r, o);
  c.cfgs = {p.json};
  c.set("ids", ids);
  c.set("nids", p.nids);
  c.prelude.push_back(op_load(0, 0));
  c.threads.emplace_back();
  int n = r.range(1, 5);
  for (int i = 0; i < n; i++) {
    Op a = op_simple(r.p(1, 2) ? O_ADD : O_ADDSP, 0);
    a.toks = gen_toks(r, p, i + 1 == n ? 4 : 3);
    c.threads[0].push_back(a);
    if (r.p(1, 4)) c.threads[0].push_back(gen_op(r, p, 0, false));
  }
  int added = 0;
  for (auto& o : c.threads[0]) added += (int)o.toks.size();
  c.threads.push_back(probes(r, p, 0, added));
  c.set("mode", r.p(2, 3) ? rt::AF_ONCE : r.p(2, 3) ? rt::AF_FROM : rt::AF_BURST);
  c.set("arg", r.range(2, 6));
  c.set("offset", (long)r.below(100000));
  c.set("max", thorough ? 400 : 60);
  c.amb = gen_ambient(r);
  return c;
}
static std::vector<std::string> parse_probe(const std::string& s) {   // R:len:text,...
  std::vector<std::string> o;
  size_t p = 2;
  while (p < s.size()) {
    if (s[p] == '-') { o.push_back("\x01none"); p += 2; continue; }
    size_t q = s.find(':', p);
    if (q == std::string::npos) break;
    size_t n = strtoul(s.c_str() + p, nullptr, 10);
    if (q + 1 + n > s.size()) break;
    o.push_back(s.substr(q + 1, n));
    p = q + 1 + n + 1;
  }
  return o;
}
static Verdict exec_C05(const Case& c) {
  Verdict v;
  if (c.threads.size() < 2 || c.threads[0].empty()) return v;
  const auto& hist = c.threads[0];
  const auto& pr = c.threads[1];
  // the same history without failures
  uint32_t total = 0;
  Run ref = fork_run(c, [&] {
    Slots* s = new_slots();
    for (auto& o : c.prelude) do_op(s, c, o, nullptr);
    rt::OpCtl ctl;
    for (auto& o : hist) { emit(do_op(s, c, o, &ctl)); emit(finger(s, c, pr)); emit(pr.empty() ? std::string() : do_op(s, c, pr[0], nullptr), true); if (&o == &hist.back()) emit(std::to_string(ctl.allocs)); }
  });
  fold(&v, ref);
  if (v.violated || v.infra) return v;
  total = (uint32_t)atoi(ref.res.back().c_str());
  // ids, against a model: a token keeps the id it got
  if (c.num("ids") && !pr.empty() && pr[0].kind == O_PROBE) {
    std::map<std::string, int> id;
    for (size_t i = 0; i < hist.size(); i++) {
      auto tk = parse_probe(ref.res[3 * i + 2]);
      if (hist[i].kind == O_ADD || hist[i].kind == O_ADDSP)
        for (auto& t : hist[i].toks) if (!t.content.empty() && !id.count(t.content)) {
          int found = -1;
          for (size_t k = 0; k < tk.size(); k++) if (tk[k] == t.content) { found = (int)k; break; }
          if (found < 0 || found >= (int)tk.size()) { fail(&v, "lost-id", "no id decodes to the added token " + t.content + " after call " + std::to_string(i + 1)); return v; }
          id[t.content] = found;
        }
      std::map<int, std::string> back;
      for (auto& e : id) {
        if (back.count(e.second)) { fail(&v, "shared-id", "tokens " + e.first + " and " + back[e.second] + " share the id " + std::to_string(e.second)); return v; }
        back[e.second] = e.first;
        if (tk[e.second] != e.first) { fail(&v, "changed-id", "id " + std::to_string(e.second) + " was given to the token " + e.first + " and decodes to " + tk[e.second] + " after call " + std::to_string(i + 1)); return v; }
      }
      if (ref.res[3 * i][0] == 'R' && (hist[i].kind == O_ADD || hist[i].kind == O_ADDSP)) {
        int n = 0;
        for (auto& t : hist[i].toks) n += !t.content.empty();
        if (ref.res[3 * i] != "R:" + std::to_string(n)) { fail(&v, "wrong-count", "call " + std::to_string(i + 1) + " returned " + ref.res[3 * i] + " for " + std::to_string(n) + " tokens"); return v; }
      }
    }
  }
  // failures in the last addition
  size_t last = hist.size();
  while (last-- > 0) if (hist[last].kind == O_ADD || hist[last].kind == O_ADDSP) break;
  if (last >= hist.size()) return v;
  auto nths = spread(c, total, c.num("max"), 1);
  uint64_t thrown = 0;
  size_t step = 6;
  for (size_t b = 0; b < nths.size(); b += step) {
    size_t e = std::min(nths.size(), b + step);
    Run q = fork_run(c, [&] {
      Slots* s = new_slots();
      for (auto& o : c.prelude) do_op(s, c, o, nullptr);
      for (size_t i = 0; i < last; i++) do_op(s, c, hist[i], nullptr);
      emit(finger(s, c, pr));
      for (size_t i = b; i < e; i++) {
        Op x = hist[last];
        x.fault = fault_of(c, nths[i]);
        rt::OpCtl ctl;
        std::string res = do_op(s, c, x, &ctl);
        emit(res);
        emit(finger(s, c, pr));
        if (res[0] != 'X') { emit(ctl.fired ? "fired" : "not fired"); return; }
      }
      emit(do_op(s, c, hist[last], nullptr));
      emit(finger(s, c, pr));
      rt::check_heap();
    });
    fold(&v, q);
    if (v.violated || v.infra) return v;
    const std::string& before = q.res[0];
    const std::string& after = ref.res[3 * last + 1];
    const std::string& count = ref.res[3 * last];
    if (last && before != ref.res[3 * last - 2]) { infra(&v, "two runs of one history differ"); return v; }
    size_t k = 1;
    bool done = false;
    for (size_t i = b; i < e && !done; i++, k += 2) {
      std::string at = describe(hist[last]) + " with " + fault_text(fault_of(c, nths[i]));
      if (q.res[k][0] == 'X') {
        thrown++;
        if (q.res[k + 1] != before) { fail(&v, "half-done", at + " threw, and the tokenizer changed: " + clip(q.res[k + 1]) + " instead of " + clip(before)); return v; }
      } else {
        if (q.res[k] != count) { mismatch(&v, "wrong-result", at, q.res[k], count); return v; }
        if (q.res[k + 1] != after) { mismatch(&v, "wrong-result-later", "behaviour after " + at, q.res[k + 1], after); return v; }
        done = true;
      }
    }
    if (!done) {
      if (q.res[k] != count) { mismatch(&v, "wrong-retry", "repeating " + describe(hist[last]) + " after it ran out of memory", q.res[k], count); return v; }
      if (q.res[k + 1] != after) { mismatch(&v, "wrong-retry", "behaviour after repeating " + describe(hist[last]), q.res[k + 1], after); return v; }
    }
  }
  // leaks of failed additions
  for (auto n : spread(c, total, 4, 5)) {
    Run q = fork_run(c, [&] {
      Slots* s = new_slots();
      leak_cycles(c, 5, [&] {
        for (auto& o : c.prelude) do_op(s, c, o, nullptr);
        Op x = hist[last];
        x.fault = fault_of(c, n);
        do_op(s, c, x, nullptr);
        do_op(s, c, op_simple(O_DESTROY, 0), nullptr);
      });
    });
    fold(&v, q);
    if (v.violated || v.infra) return v;
  }
  tot.counters["failed additions"] += thrown;
  v.nontrivial = thrown ? v.hash : 0;
  return v;
}

// ------------------------------------------------------------ C06
// leading blanks, so that the size is a multiple of what is read at once
static void align(Rng& r, std::string* json) {
  static const size_t unit[] = {256, 512, 1024, 4096, 4096, 8192, 16384, 65536};
  size_t u = unit[r.below(8)], n = (json->size() + u - 1) / u * u;
  json->insert(0, n - json->size(), r.p(1, 2) ? ' ' : '\n');
}
static Case gen_C06(uint64_t seed, int index, bool thorough) {
  Rng r(seed * 1000003 + index + 19);
  Case c;
  GenOpt go;
  if (r.p(1, 8)) go.big = r.range(400, r.p(1, 4) ? 8000 : 3000);
  Profile p = gen_profile(r, go);
  if (r.p(1, 4)) align(r, &p.json);
  if (r.p(1, 5)) p.json += std::string(r.range(1, 3) * 4096, ' ');   // more than one read
  c.cfgs = {p.json};
  c.set("nids", p.nids);
  c.threads.push_back(probes(r, p, 0));
  c.set("alloc", r.p(1, 3));
  c.set("bystring", r.p(1, 3));
  c.set("mode", r.p(2, 3) ? rt::AF_ONCE : r.p(2, 3) ? rt::AF_FROM : rt::AF_BURST);
  c.set("arg", r.range(2, 6));
  c.set("offset", (long)r.below(100000));
  c.set("max", thorough ? 300 : 45);
  c.set("multi", r.p(1, 2));
  if (r.p(1, 2)) {   // another configuration was loaded before, from elsewhere or from the same path
    Profile q = gen_profile(r);
    c.cfgs.push_back(q.json);
    c.set("prior", 1 + (long)r.below(4));
  } else if (r.p(1, 2)) {   // an older version lies around: tokenizer.json.bak, ../tokenizer.json and the like
    Profile q = gen_profile(r);
    c.cfgs.push_back(q.json);
    c.set("old", 1);
  }
  c.amb = gen_ambient(r);
  return c;
}
// 1, 2: from another path (2: destroyed again); 3, 4: from the same path
static std::string prior06(Slots* s, const Case& c) {
  long k = c.cfgs.size() > 1 ? c.num("prior") : 0;
  if (c.cfgs.size() > 1 && c.num("old")) simfs::leftover(c.cfgs[1]);
  if (!k) return "";
  std::string path = std::string("/simfs/cfg") + (k < 3 ? "1" : "0") + "/tokenizer.json";
  simfs::put(path, c.cfgs[1]);
  simfs::begin({});
  std::string r = do_op(s, c, op_load(1, k < 3 ? 1 : 0, true), nullptr);
  simfs::end();
  if (k == 2 || k == 4) { do_op(s, c, op_simple(O_DESTROY, 1), nullptr); return ""; }
  return r;
}
static std::string prior_finger(Slots* s, const Case& c, std::vector<Op> pr) {
  long k = c.cfgs.size() > 1 ? c.num("prior") : 0;
  if (k != 1 && k != 3) return "";
  for (auto& o : pr) o.tok = 1;
  return finger(s, c, pr);
}
static Op load06(const Case& c) { return op_load(0, 0, !(c.num("alloc") && c.num("bystring"))); }
static Verdict exec_C06(const Case& c) {
  Verdict v;
  if (c.threads.empty()) return v;
  const auto& pr = c.threads[0];
  const std::string path = "/simfs/cfg0/tokenizer.json";
  uint32_t total = 0;
  int calls = 0;
  Op ld = load06(c);
  Run ref = fork_run(c, [&] {
    Slots* s = new_slots();
    simfs::put(path, c.cfgs[0]);
    rt::OpCtl ctl;
    simfs::begin({});
    std::string r = do_op(s, c, ld, &ctl);
    simfs::end();
    emit(r);
    emit(finger(s, c, pr));
    emit(std::to_string(ctl.allocs));
    emit(std::to_string(simfs::calls()));
    emit(std::to_string(simfs::open_handles()));
    std::string k;
    for (auto& l : simfs::log) k += std::to_string(l.nr) + ",";
    emit(k);
  });
  fold(&v, ref);
  if (v.violated || v.infra) return v;
  if (ref.res[0] != "R:loaded") { fail(&v, "intact-refused", "no fault at all, and loading an intact configuration gives " + ref.res[0]); return v; }
  if (ref.res[4] != "0") { fail(&v, "handle-leak", "a successful load leaves " + ref.res[4] + " file handles open"); return v; }
  total = (uint32_t)atoi(ref.res[2].c_str());
  calls = atoi(ref.res[3].c_str());
  std::vector<int> nrs;
  for (const char* p = ref.res[5].c_str(); *p; p = strchr(p, ',') + 1) nrs.push_back(atoi(p));
  // plans
  struct Plan { std::vector<simfs::Fault> fs; rt::AllocFault af; };
  std::vector<Plan> plans;
  if (!c.fs.empty()) { Plan p; p.fs = c.fs; plans.push_back(p); }
  else if (c.num("nth") || c.num("alloc")) {
    for (auto n : spread(c, total, c.num("max"), 1)) { Plan p; p.af = fault_of(c, n); plans.push_back(p); }
  } else {
    Rng r(c.num("offset"));
    static const int errs[] = {5 /*EIO*/, 4 /*EINTR*/, 12 /*ENOMEM*/, 24 /*EMFILE*/, 13 /*EACCES*/, 2 /*ENOENT*/, 11 /*EAGAIN*/};
    long size = (long)c.cfgs[0].size();
    std::vector<simfs::Fault> all;
    for (int i = 1; i <= calls; i++)
      for (int k = 1; k < simfs::K_NKINDS; k++) {
        simfs::Fault f{i, k, 0};
        if (k == simfs::K_ERR) f.arg = errs[r.below(7)];
        else if (k == simfs::K_SHORT) f.arg = r.p(1, 2) ? 1 + (long)r.below(16) : 1 + (long)r.below(size);
        else if (k == simfs::K_ERR_ON) { do f.arg = errs[r.below(7)]; while (f.arg == 4); }   // libstdc++ itself tries again on EINTR, for ever
        else if (k == simfs::K_TRICKLE) f.arg = 1 + (long)r.below(size) / 4;
        else if (k == simfs::K_SHRINK || k == simfs::K_ZEROTAIL) f.arg = r.p(1, 4) ? (long)r.below(size) / 512 * 512 : (long)r.below(size);
        else if (k == simfs::K_GROW) f.arg = 1 + (long)r.below(200);
        all.push_back(f);
      }
    long max = c.num("max");
    for (auto& f : all) {
      Plan p;
      p.fs.push_back(f);
      if (c.num("multi") && r.p(1, 2)) { p.fs.push_back(all[r.below(all.size())]); if (p.fs[1].at == f.at) p.fs.pop_back(); }
      plans.push_back(p);
    }
    while ((long)plans.size() > max) plans.erase(plans.begin() + r.below(plans.size()));
  }
  uint64_t hit = 0;
  for (auto& p : plans) {
    Op x = ld;
    x.fault = p.af;
    tot.loads += 6;
    int kinds[simfs::K_NKINDS] = {};
    Run q = fork_run(c, [&] {
      Slots* s = new_slots();
      prior06(s, c);
      std::string before = prior_finger(s, c, pr);
      simfs::put(path, c.cfgs[0]);
      simfs::begin(p.fs);
      rt::OpCtl ctl;
      std::string r = do_op(s, c, x, &ctl);
      simfs::end();
      emit(r);
      emit(std::to_string(simfs::open_handles()));
      emit(r[0] == 'R' ? finger(s, c, pr) : std::string());
      std::string k;
      for (int i = 0; i < simfs::K_NKINDS; i++) k += std::to_string(simfs::fired(i)) + ",";
      k += std::to_string(ctl.fired);
      emit(k);
      // the faults stop
      simfs::put(path, c.cfgs[0]);
      simfs::begin({});
      emit(do_op(s, c, ld, nullptr));
      simfs::end();
      emit(finger(s, c, pr));
      emit(before);
      emit(prior_finger(s, c, pr));
      do_op(s, c, op_simple(O_DESTROY, 0), nullptr);
      rt::check_heap();
      leak_cycles(c, 4, [&] {
        simfs::put(path, c.cfgs[0]);
        simfs::begin(p.fs);
        do_op(s, c, x, nullptr);
        simfs::end();
        do_op(s, c, op_simple(O_DESTROY, 0), nullptr);
      });
    });
    fold(&v, q);
    std::string what = "loading";
    for (auto& f : p.fs) what += std::string(", system call ") + std::to_string(f.at) + (f.at <= (int)nrs.size() ? " (number " + std::to_string(nrs[f.at - 1]) + ")" : "") + ": " + simfs::kind_name[f.kind] + " " + std::to_string(f.arg);
    if (p.af.mode) what += " with " + fault_text(p.af);
    if (v.violated || v.infra) { v.msg += " [" + what + "]"; return v; }
    if (q.res[0] != "R:loaded" && q.res[0][0] != 'X') { fail(&v, "wrong-result", what + ": " + q.res[0]); return v; }
    if (q.res[1] != "0") { fail(&v, "handle-leak", what + " leaves " + q.res[1] + " file handles open"); return v; }
    if (q.res[0][0] == 'R' && q.res[2] != ref.res[1]) { fail(&v, "partial-tokenizer", what + " succeeds with a tokenizer that differs: " + clip(q.res[2]) + " instead of " + clip(ref.res[1])); return v; }
    if (q.res[4] != "R:loaded") { fail(&v, "no-recovery", "loading the intact file after " + what + ": " + q.res[4]); return v; }
    if (q.res[5] != ref.res[1]) { fail(&v, "no-recovery", "a tokenizer loaded after " + what + " differs: " + clip(q.res[5]) + " instead of " + clip(ref.res[1])); return v; }
    if (q.res[6] != q.res[7]) { fail(&v, "other-tokenizer", "a tokenizer loaded before " + what + " differs afterwards: " + clip(q.res[7]) + " instead of " + clip(q.res[6])); return v; }
    const char* s = q.res[3].c_str();
    for (int i = 0; i < simfs::K_NKINDS; i++) { kinds[i] = atoi(s); s = strchr(s, ',') + 1; if (i && kinds[i]) { tot.counters[std::string("fs fault ") + simfs::kind_name[i]] += kinds[i]; hit++; } }
    if (atoi(s)) hit++;
    if (q.res[0][0] == 'X') tot.counters["loads refused"]++; else tot.counters["loads completed in spite of a fault"]++;
  }
  v.nontrivial = hit ? v.hash : 0;
  return v;
}

// ------------------------------------------------------------ C07
static Case gen_C07(uint64_t seed, int index, bool thorough) {
  Rng r(seed * 1000003 + index + 23);
  Case c;
  GenOpt go;
  if (r.p(1, 12)) go.big = r.range(400, r.p(1, 3) ? 8000 : 2000);
  Profile p = gen_profile(r, go);
  // trailing whitespace is not the document
  while (!p.json.empty() && p.json.back() != '}') p.json.pop_back();
  if (r.p(1, 6)) align(r, &p.json);
  // the order of the keys is free: what is cut off differs
  c.cfgs = {p.json};
  c.set("fill", r.range(0, 2));
  c.set("by_path", r.p(1, 2));
  long n = (long)p.json.size() - 1, k = thorough ? n + 1 : 220;
  long a = r.below(2) ? n - k : (long)r.below(n);
  if (a < 0 || thorough) a = 0;
  if (r.p(1, 5)) { a = 0; }
  c.set("from", a);
  c.set("to", std::min(n, a + k));
  if (go.big || r.p(1, 8)) {   // cut where a block ends, or next to it
    static const long unit[] = {64, 256, 512, 1024, 4096, 4096, 16384, 65536};
    long u = unit[r.below(8)];
    while (u > 64 && u > n) u /= 4;
    long count = n / u + 1;
    if (!thorough && count > 60) count = 60;
    c.set("step", u);
    c.set("from", std::max(0l, n / u * u - (count - 1) * u + r.range(-1, 1)));
    c.set("to", n);
  } else if (n > 20000 && c.num("to") - c.num("from") > 60) c.set("from", c.num("to") - 60);
  c.amb = gen_ambient(r);
  return c;
}
static std::string torn(const Case& c, long cut) {
  std::string s = c.cfgs[0].substr(0, cut);
  long f = c.num("fill");
  if (f == 1) s += std::string(c.cfgs[0].size() - cut, '\0');
  if (f == 2) s += std::string(c.cfgs[0].size() - cut, ' ');
  return s;
}
static Verdict exec_C07(const Case& c) {
  Verdict v;
  long a = c.num("from"), b = c.num("to");
  long step = c.par.count("step") ? c.num("step") : 1;
  if (step < 1) step = 1;
  bool path = c.num("by_path");
  static const char* how[] = {"missing", "zeroed", "blank"};
  Case d = c;
  d.cfgs.assign(1, "");
  Run r = fork_run(c, [&] {
    Slots* s = new_slots();
    for (long i = a; i <= b; i += step) {
      d.cfgs[0] = torn(c, i);
      if (path) { simfs::put("/simfs/cfg0/tokenizer.json", d.cfgs[0]); simfs::begin({}); }
      std::string r = do_op(s, d, op_load(0, 0, path), nullptr);
      if (path) simfs::end();
      emit(r);
      if (r[0] == 'R') break;
    }
    rt::check_heap();
    d.cfgs[0] = c.cfgs[0];
    std::string r = do_op(s, d, op_load(0, 0, false), nullptr);
    if (r[0] != 'R') rt::violation("harness-crash", "the intact configuration does not load: %s", r.c_str());
  });
  fold(&v, r);
  tot.loads += (uint64_t)r.res.size();
  tot.counters["torn configurations"] += r.res.size();
  if (v.violated || v.infra) { v.msg += " [cut at byte " + std::to_string(a + step * (long)r.res.size()) + "]"; return v; }
  for (size_t i = 0; i < r.res.size(); i++)
    if (r.res[i][0] != 'X') {
      long cut = a + step * (long)i;
      fail(&v, "torn-accepted", "a configuration cut at byte " + std::to_string(cut) + " of " + std::to_string(c.cfgs[0].size()) + " with the rest " + how[c.num("fill")] + (path ? ", from a file," : "") +
                                    " gives " + r.res[i] + " (the end that is there: ..." + clip(c.cfgs[0].substr(cut < 60 ? 0 : cut - 60, cut < 60 ? cut : 60)) + ")");
      return v;
    }
  v.nontrivial = v.hash;
  return v;
}

// ------------------------------------------------------------ C08
static std::string corrupt(Rng& r, std::string s, std::string* what) {
  int n = r.p(2, 3) ? 1 : r.range(2, 4);
  for (int i = 0; i < n; i++) {
    size_t z = s.size();
    if (!z) break;
    size_t at = r.below(z);
    int k = (int)r.below(20);
    auto num = [&](size_t* b, size_t* e) {   // a number near at
      size_t q = at;
      for (size_t t = 0; t < z; t++, q = (q + 1) % z)
        if (isdigit((unsigned char)s[q]) && q && (s[q - 1] == ':' || s[q - 1] == '[' || s[q - 1] == ' ')) {
          *b = q; *e = q;
          while (*e < z && (isdigit((unsigned char)s[*e]) || s[*e] == '.')) ++*e;
          return true;
        }
      return false;
    };
    if (k < 2) { s[at] ^= (char)(1 << r.below(8)); *what += "flip@" + std::to_string(at) + " "; }
    else if (k < 3) { s[at] = (char)r.below(256); *what += "byte@" + std::to_string(at) + " "; }
    else if (k < 6) {
      size_t b, e;
      static const char* nums[] = {"0", "-1", "1", "2147483647", "-2147483648", "4294967296", "9223372036854775807", "1e3", "null", "99", "100000", "true", "\"x\"", "[]"};
      if (num(&b, &e)) { std::string x = nums[r.below(14)]; s.replace(b, e - b, x); *what += "number@" + std::to_string(b) + "=" + x + " "; }
    }
    else if (k < 8) {   // a word: true, false, null, or a string's text
      static const char* from[] = {"true", "false", "null", "Right", "Left", "LongestFirst", "OnlyFirst", "Fixed", "NFD", "NFC", "Removed", "Isolated", "\\\\s+", "\\\\p{P}", "[CLS]", "[UNK]", "##", "A", "Sequence", "WordPiece", "BPE", "ByteLevel"};
      static const char* to[] = {"null", "true", "false", "\"\"", "0", "(", "[", "\\\\", "", "x", "{}", "[]", "\\u0000", "Sequence", "NFKD", "\xC3\xA9"};
      std::string f = from[r.below(22)], t = to[r.below(16)];
      size_t p = s.find(f, at);
      if (p == std::string::npos) p = s.find(f);
      if (p != std::string::npos) { s.replace(p, f.size(), t); *what += "word " + f + "@" + std::to_string(p) + "=" + t + " "; }
    }
    else if (k < 9) { size_t l = 1 + r.below(r.p(1, 2) ? 4 : 120); s.erase(at, l); *what += "drop@" + std::to_string(at) + "+" + std::to_string(l) + " "; }
    else if (k < 10) { size_t l = 1 + r.below(r.p(1, 2) ? 4 : 120); std::string x = s.substr(at, l); s.insert(r.p(1, 2) ? at : r.below(z), x); *what += "duplicate@" + std::to_string(at) + "+" + std::to_string(l) + " "; }
    else if (k >= 12 && k < 14) {   // one value where another was: what two parts of the file say about each other no longer agrees
      auto value = [&](size_t from, size_t* b, size_t* e) {
        size_t q = from % z;
        for (size_t t = 0; t < z; t++, q = (q + 1) % z) if (q && (s[q - 1] == ':' || s[q - 1] == '[' || s[q - 1] == ',' || s[q - 1] == ' ') && (s[q] == '"' || s[q] == '{' || s[q] == '[' || isalnum((unsigned char)s[q]))) break;
        *b = q;
        int d = 0;
        bool str = false;
        for (; q < z; q++) {
          if (str) { if (s[q] == '\\') q++; else if (s[q] == '"') { str = false; if (!d) { q++; break; } } continue; }
          if (s[q] == '"') str = true;
          else if (s[q] == '{' || s[q] == '[') d++;
          else if (s[q] == '}' || s[q] == ']') { if (!d) break; if (!--d) { q++; break; } }
          else if (!d && (s[q] == ',' || s[q] == ' ' || s[q] == '\n')) break;
        }
        *e = q;
        return *e > *b && *e - *b < 3000;
      };
      size_t a, b, x, y;
      if (value(at, &a, &b) && value(r.below(z), &x, &y) && (b <= x || y <= a)) {
        std::string v = s.substr(x, y - x);
        if (k == 12) s.replace(a, b - a, v);
        else { std::string u = s.substr(a, b - a); if (a < x) { s.replace(x, y - x, u); s.replace(a, b - a, v); } else { s.replace(a, b - a, v); s.replace(x, y - x, u); } }
        *what += (k == 12 ? "value@" : "exchange@") + std::to_string(a) + "<-" + std::to_string(x) + " ";
      }
    }
    else if (k == 14) {   // an empty list, object or string
      static const char* open[] = {"[", "{", "\""};
      static const char* close[] = {"]", "}", "\""};
      int q = (int)r.below(3);
      size_t a = s.find(open[q], at), b = a == std::string::npos ? a : s.find(close[q], a + 1);
      if (b != std::string::npos && b - a < 3000) { s.erase(a + 1, b - a - 1); *what += "empty@" + std::to_string(a) + " "; }
    }
    else if (k == 15) {   // a member goes missing, or has another name
      size_t a = s.find("\":", at);
      if (a != std::string::npos) {
        size_t q = s.rfind('"', a - 1);
        if (q != std::string::npos) { if (r.p(1, 2)) s.insert(q + 1, "x"); else { static const char* keys[] = {"id", "ids", "tokens", "type", "type_id", "vocab", "merges", "pattern", "content", "strategy", "single", "special_tokens", "Sequence", "SpecialToken", "String", "Regex"}; s.replace(q + 1, a - q - 1, keys[r.below(16)]); } *what += "key@" + std::to_string(q) + " "; }
      }
    }
    else if (k >= 18) {   // a setting gets the value of another, or one next to it
      static const char* keys[] = {"\"max_length\"", "\"stride\"", "\"Fixed\"", "\"pad_to_multiple_of\"", "\"max_input_chars_per_word\"", "\"pad_id\"", "\"type_id\"", "\"ids\"", "\"id\"", "\"strip_left\""};
      int first = (int)r.below(r.p(1, 2) ? 4 : 10);
      std::vector<std::array<size_t, 2>> at2;
      for (int j = 0; j < 10; j++) {
        size_t a = s.find(keys[(first + j) % 10]), b = a == std::string::npos ? a : s.find(':', a), q = b == std::string::npos ? b : s.find_first_of("-0123456789nt,}", b);
        if (q == std::string::npos || s[q] == ',' || s[q] == '}') continue;
        at2.push_back({q, s.find_first_of(",}] \n", q)});
      }
      if (!at2.empty() && at2[0][1] != std::string::npos) {
        auto other = r.pick(at2);
        std::string x = s.substr(other[0], std::min(other[1], s.size()) - other[0]);
        if (r.p(1, 3)) x = std::to_string(r.range(-1, 6));
        else if (r.p(1, 3)) x = std::to_string(atol(x.c_str()) + r.range(-1, 1));
        s.replace(at2[0][0], at2[0][1] - at2[0][0], x);
        *what += "setting@" + std::to_string(at2[0][0]) + "=" + x + " ";
      }
    }
    else if (k >= 16) {   // lists that belong together no longer have the same length
      static const char* lists[] = {"\"ids\"", "\"tokens\"", "\"single\"", "\"pair\"", "\"special_tokens\""};
      std::string key = lists[r.p(2, 3) ? r.below(2) : r.below(5)];
      size_t p = s.find(key, at);
      if (p == std::string::npos) p = s.find(key);
      size_t a = p == std::string::npos ? p : s.find('[', p), b = a == std::string::npos ? a : s.find_first_of(",]", a);
      if (b != std::string::npos && b - a < 200) {
        std::string e = s.substr(a + 1, b - a - 1);
        if (r.p(1, 4)) s.erase(a + 1, b - a - (s[b] == ']'));
        else { std::string x; for (int j = r.range(1, r.p(1, 4) ? 20 : 3); j > 0; j--) x += e + ","; s.insert(a + 1, x); }
        *what += "list " + key + "@" + std::to_string(a) + " ";
      }
    }
    else if (k < 11) { size_t l = 1 + r.below(64); for (size_t j = at; j < z && j < at + l; j++) s[j] = r.p(1, 2) ? 0 : (char)0xFF; *what += "block@" + std::to_string(at) + " "; }
    else { // an entry of a list or object twice or not at all
      size_t p = s.find(',', at), q = p == std::string::npos ? p : s.find(',', p + 1);
      if (q != std::string::npos && q - p < 400) { if (r.p(1, 2)) s.erase(p, q - p); else s.insert(p, s.substr(p, q - p)); *what += "entry@" + std::to_string(p) + " "; }
    }
  }
  return s;
}
static Case gen_C08(uint64_t seed, int index, bool) {
  Rng r(seed * 1000003 + index + 29);
  Case c;
  Profile p = gen_profile(r);
  std::string what;
  int n = 6;
  for (int i = 0; i < n; i++) { std::string x; c.cfgs.push_back(corrupt(r, p.json, &x)); what += (i ? "; " : "") + x; }
  c.par["what"] = what;
  c.set("by_path", r.p(1, 3));
  std::vector<Op> ops;
  for (int i = 0; i < 3; i++) ops.push_back(op_encode(0, gen_text(r, p), r.p(1, 2)));
  for (int i = 0; i < 2; i++) ops.push_back(op_decode(0, gen_ids(r, p, 3), r.p(1, 2)));
  Op a = op_simple(r.p(1, 2) ? O_ADD : O_ADDSP, 0);
  a.toks = gen_toks(r, p);
  ops.insert(ops.begin() + r.below(ops.size()), a);
  c.threads.push_back(ops);
  c.amb = gen_ambient(r);
  return c;
}
// no number in the text that gives a reason to use much memory
static bool small_numbers(const std::string& s) {
  for (size_t i = 0; i < s.size(); i++) {
    size_t b = i;
    while (i < s.size() && isdigit((unsigned char)s[i])) i++;
    if (i - b > 3) return false;
  }
  return true;
}
static Verdict exec_C08(const Case& c) {
  Verdict v;
  bool path = c.num("by_path");
  uint64_t loaded = 0;
  for (size_t k = 0; k < c.cfgs.size(); k++) {
    tot.counters["corrupted configurations"]++;
    tot.loads++;
    bool small = small_numbers(c.cfgs[k]);
    Run r = fork_run(c, [&] {
      Slots* s = new_slots();
      if (small) rt::set_memory(300ull << 20);
      if (path) { simfs::put("/simfs/cfg" + std::to_string(k) + "/tokenizer.json", c.cfgs[k]); simfs::begin({}); }
      std::string x = do_op(s, c, op_load(0, (int)k, path), nullptr);
      if (path) simfs::end();
      emit(x);
      if (x[0] == 'R') {
        if (!c.threads.empty()) for (auto& o : c.threads[0]) emit(do_op(s, c, o, nullptr));
        emit(do_op(s, c, op_simple(O_DESTROY, 0), nullptr));
      }
      rt::check_heap();
    });
    fold(&v, r);
    if (v.infra) return v;
    if (!v.violated) {
      for (auto& x : r.res) if (x[0] == 'N') fail(&v, "foreign-exception", x);
      if (r.res[0][0] == 'R') { loaded++; tot.counters["corrupted configurations that load"]++; }
    }
    if (v.violated) { v.msg += " [configuration " + std::to_string(k) + (r.res.empty() ? ", while loading" : ", after " + std::to_string(r.res.size()) + " calls") + "]"; return v; }
  }
  v.nontrivial = v.hash;
  return v;
}

// ------------------------------------------------------------ C09
static Case gen_C09(uint64_t seed, int index, bool) {
  Rng r(seed * 1000003 + index + 31);
  Case c;
  GenOpt go;
  go.dropout = r.p(1, 6);
  Profile p = gen_profile(r, go);
  // text in which locales differ
  for (const char* x : {"I", "i\xC4\xB1", "\xC4\xB0", "\xC3\x84" "a", "a\xC2\xA0" "b", "a\xE3\x80\x80" "b", "\xC3\x80", "\xD0\x90\xD0\xB0", "\xC2\x85" "a", "a\xE2\x80\x83" "b", "\xCE\xA3\xCE\xB1", "12,5", "1.5"})
    if (p.family != "bytelevel-bpe" || (unsigned char)x[0] < 128) p.words.push_back(w(x));
  c.cfgs = {p.json};
  std::vector<Op> ops{op_load(0, 0)};
  int n = r.range(3, 7);
  for (int i = 0; i < n; i++) ops.push_back(gen_op(r, p, 0, true));
  // locale changes between calls
  std::vector<Op> with{op_simple(O_LOCALE, 0, (int)r.below(locale_count()))};
  for (auto& o : ops) { with.push_back(o); if (r.p(1, 3)) with.push_back(op_simple(O_LOCALE, 0, (int)r.below(locale_count()))); }
  c.threads.push_back(with);
  if (r.p(1, 2)) {
    int k = r.range(1, 4);
    for (int i = 0; i < k; i++) c.flips.push_back({1 + r.below(60000), (int)r.below(locale_count())});
    std::sort(c.flips.begin(), c.flips.end());
  }
  c.set("icu", r.p(1, 2));
  c.amb = gen_ambient(r);
  return c;
}
static const Case* flip_case;
static void on_flip(int i) { locale_apply(flip_case->flips[i].second); }
static Verdict exec_C09(const Case& c) {
  Verdict v;
  std::vector<Op> plain;
  for (auto& o : c.threads[0]) if (o.kind != O_LOCALE) plain.push_back(o);
  Run ref = run_seq(c, plain);
  fold(&v, ref);
  if (v.violated || v.infra) return v;
  count_ops(plain);
  std::vector<uint64_t> ev;
  for (auto& f : c.flips) ev.push_back(f.first);
  Run r = fork_run(c, [&] {
    Slots* s = new_slots();
    flip_case = &c;
    rt::flip_cb = on_flip;
    rt::SchedCfg sc;
    sc.race = false;
    sc.flip_ev = ev.data();
    sc.nflips = (int)ev.size();
    rt::run_threads(sc, 0, nullptr, nullptr);
    for (auto& o : c.threads[0]) {
      if (o.kind == O_LOCALE) { locale_apply(o.arg, c.num("icu")); continue; }
      emit(do_op(s, c, o, nullptr));
    }
  });
  fold(&v, r);
  if (v.violated || v.infra) return v;
  size_t k = 0;
  int loc = 0;
  for (auto& o : c.threads[0]) {
    if (o.kind == O_LOCALE) { loc = o.arg; tot.counters[std::string("locale ") + locale_name(loc)]++; continue; }
    if (r.res[k] != ref.res[k]) mismatch(&v, "locale-dependent", describe(o) + " under locale " + locale_name(loc) + (c.flips.empty() ? "" : " and changes during calls"), r.res[k], ref.res[k]);
    k++;
  }
  v.nontrivial = v.hash;
  return v;
}

// ------------------------------------------------------------ C11
static Case gen_C11(uint64_t seed, int index, bool thorough) {
  Rng r(seed * 1000003 + index + 37);
  Case c;
  GenOpt o;
  o.family = index % 5;
  Profile p = gen_profile(r, o);
  // words that a replacement makes the same would not fill what remembers 10,000
  for (int i = 0; i < 200 && p.bpe && p.json.find("Replace") != std::string::npos; i++) p = gen_profile(r, o);
  c.cfgs = {p.json};
  c.set("kind", (index + index / 8) % 4);
  c.set("words", thorough ? 20000 : 11000);
  // where a text is not cut into words, each text is a word, to be remembered as one
  auto has = [&](const char* x) { return p.json.find(x) != std::string::npos; };
  bool whole = o.family == 1 || (p.bpe && (has("\"pre_tokenizer\":null") || has("\"pre_tokenizer\": null") || has("{\"String\":\" \"}")));
  c.set("whole", whole);
  if (whole) c.set("words", 3500);
  c.set("calls", thorough ? 3000 : 400);
  c.set("seed", (long)r.below(1000));
  c.par["alpha"] = p.alpha;
  std::vector<Op> ops;
  for (int i = 0; i < 5; i++) ops.push_back(gen_op(r, p, 0, false));
  c.threads.push_back(ops);
  c.amb = gen_ambient(r);
  c.amb.reuse = 1;
  return c;
}
static Verdict exec_C11(const Case& c) {
  Verdict v;
  int kind = (int)c.num("kind");
  Run r = fork_run(c, [&] {
    Slots* s = new_slots();
    rt::set_cap(20000000000ull);
    // what is left of a tokenizer that has done little
    auto small = [&] {
      do_op(s, c, op_load(0, 0), nullptr);
      for (auto& o : c.threads[0]) do_op(s, c, o, nullptr);
      Op o = op_simple(O_BULK, 0, 80);
      o.by_path = c.num("whole");
      o.text = w(("0" + (c.par.count("alpha") ? c.par.at("alpha") : std::string("abc"))).c_str());
      o.ids = {1000000};
      do_op(s, c, o, nullptr);
      do_op(s, c, op_simple(O_DESTROY, 0), nullptr);
    };
    for (int i = 0; i < 2; i++) small();
    const uint64_t left = rt::live_bytes();
    uint32_t since = rt::alloc_seq();
    emit(do_op(s, c, op_load(0, 0), nullptr));
    auto grow = [&](const char* what, int rounds, uint64_t floor, const std::function<void(int)>& round) {
      std::vector<uint64_t> l;
      uint32_t seq = 0;
      for (int i = 0; i < rounds; i++) { seq = rt::alloc_seq(); round(i); l.push_back(rt::live_bytes()); }
      bool all = true;
      for (int i = rounds - 2; i < rounds; i++) if (l[i] < l[i - 1] + floor) all = false;
      if (all) {
        char b[400] = "";
        rt::leaked_since(seq, b, sizeof b, rt::out->pcs[0], (int*)&rt::out->npcs[0]);
        rt::violation("unbounded-memory", "%s: the tokenizer holds %llu, then %llu, then %llu bytes; newest: %s", what, (unsigned long long)l[rounds - 3], (unsigned long long)l[rounds - 2], (unsigned long long)l[rounds - 1], b);
      }
      emit(std::to_string(l.back()));
    };
    long n = c.num("words"), calls = c.num("calls");
    std::string alpha = c.par.count("alpha") ? c.par.at("alpha") : "abc";
    if (kind == 0) {
      Op o = op_simple(O_BULK, 0, (int)n);
      o.by_path = c.num("whole");
      o.text = w(("0" + alpha).c_str());
      grow("encoding ever new words", c.num("whole") ? 5 : 3, (uint64_t)n * 2, [&](int i) {
        o.text[0] = (uint32_t)(c.num("seed") + i);
        o.ids = {(int)(i * n)};   // each round has words of its own
        emit(do_op(s, c, o, nullptr));
      });
    } else if (kind == 1) {
      Rng g(c.num("seed"));
      grow("calls that run out of memory", 4, (uint64_t)calls / 4, [&](int i) {
        for (long k = 0; k < calls; k++) { Op o = c.threads[0][k % c.threads[0].size()]; o.fault = gen_fault(g, 250); do_op(s, c, o, nullptr); }
      });
    } else if (kind == 2) {
      grow("repeating the same calls", 4, (uint64_t)calls, [&](int) {
        for (long k = 0; k < calls; k++) do_op(s, c, c.threads[0][k % c.threads[0].size()], nullptr);
      });
    } else {
      Rng g(c.num("seed"));
      if (c.num("whole")) {
        Op o = op_simple(O_BULK, 0, (int)n * 3);
        o.by_path = true;
        o.text = w(("0" + alpha).c_str());
        do_op(s, c, o, nullptr);
      }
      // ever new texts and ids, of a few words (what is remembered of words is not in question here)
      grow("calls with different texts and ids", 4, (uint64_t)calls * 8, [&](int) {
        for (long k = 0; k < calls * 2; k++) {
          Op o = c.threads[0][k % c.threads[0].size()];
          if (o.kind == O_ENCODE) { std::vector<uint32_t> t; for (int j = 0; j < 12; j++) t.push_back(j % 5 == 4 ? ' ' : (uint32_t)alpha[g.below(3)]); if (g.p(1, 4)) t[g.p(1, 2) ? 0 : 11] = g.p(1, 2) ? 0xD800 : 0x110000; o.text = t; }
          else if (o.kind == O_DECODE) for (auto& id : o.ids) id = (int)g.below(1000000) * (g.p(1, 4) ? -1000 : 1);
          if (g.p(1, 6)) o.fault = gen_fault(g, 250);
          do_op(s, c, o, nullptr);
        }
      });
    }
    emit(do_op(s, c, op_simple(O_DESTROY, 0), nullptr));
    if (rt::live_bytes() > left + 20000) {
      char b[400] = "";
      rt::leaked_since(since, b, sizeof b, rt::out->pcs[0], (int*)&rt::out->npcs[0]);
      rt::violation("not-released", "%llu bytes are held when tokenizers that did little are gone, and %llu when one that did much is gone too: %s", (unsigned long long)left, (unsigned long long)rt::live_bytes(), b);
    }
    leak_cycles(c, 4, [&] {
      do_op(s, c, op_load(0, 0), nullptr);
      for (auto& o : c.threads[0]) do_op(s, c, o, nullptr);
      do_op(s, c, op_simple(O_DESTROY, 0), nullptr);
    });
    rt::check_heap();
  }, 240);
  fold(&v, r);
  static const char* names[] = {"histories of ever new words", "histories of failing calls", "histories of repeated calls", "histories of varied calls"};
  tot.counters[names[kind]]++;
  v.nontrivial = v.hash;
  return v;
}

// ------------------------------------------------------------ C13
static Case gen_C13(uint64_t seed, int index, bool) {
  Rng r(seed * 1000003 + index + 41);
  Case c;
  Profile p = gen_profile(r);
  c.cfgs = {p.json};
  std::vector<Op> ops{op_load(0, 0)};
  int n = r.range(3, 9);
  for (int i = 0; i < n; i++) ops.push_back(gen_op(r, p, 0, true));
  if (r.p(1, 16)) lengthen(r, p, &ops.back(), 4000);
  ops.push_back(op_simple(O_PROBE, 0, p.nids + 8));
  c.threads.push_back(ops);
  c.set("variants", 5);
  c.amb.stack = 1;
  c.set("vseed", (long)(r.next() >> 20));
  return c;
}
static Verdict exec_C13(const Case& c) {
  Verdict v;
  Run ref = run_seq(c, c.threads[0]);
  fold(&v, ref);
  if (v.violated || v.infra) return v;
  int only = (int)c.num("only", -1);
  for (int k = 0; k < c.num("variants"); k++) {
    if (only >= 0 && k != only) continue;
    Rng r(c.num("vseed") + k * 7919);
    rt::Ambient a = gen_ambient(r);
    bool thread = r.p(1, 2);
    Case d = c;
    d.amb = a;
    d.amb.stack = c.amb.stack;
    d.sched = rt::SchedCfg();
    Run q = fork_run(d, [&] {
      Slots* s = new_slots();
      if (thread) run_case_threads(s, d, 0);
      else for (auto& o : d.threads[0]) emit("0.0\x01" + do_op(s, d, o, nullptr));
      rt::check_heap();
    });
    fold(&v, q);
    if (v.violated || v.infra) return v;
    tot.counters["machine states compared"]++;
    for (size_t i = 0; i < c.threads[0].size(); i++) {
      std::string g = q.res[i].substr(q.res[i].find('\x01') + 1);
      if (g != ref.res[i]) {
        char b[300];
        snprintf(b, sizeof b, " (memory filled with %02x, reuse %d, heap displaced by %u, clock %llu (mode %d), entropy %llu, environment %d, %s thread)", a.fill, a.reuse, a.shift, (unsigned long long)(a.clock0 / 1000000000ull), a.clock,
                 (unsigned long long)a.entropy, a.env, thread ? "another" : "the main");
        mismatch(&v, "nondeterministic", "call " + std::to_string(i + 1) + " (" + clip(describe(c.threads[0][i]), 200) + ")" + b, g, ref.res[i]);
        return v;
      }
    }
  }
  v.nontrivial = v.hash;
  return v;
}

// ------------------------------------------------------------ C10
// draws: a script of values; after its end, values from par "dseed"
static std::vector<float> script;
static size_t script_pos;
static uint64_t script_rng;
static uint64_t draws;
static int draw_mode;
static float next_draw(float real) {
  draws++;
  switch (draw_mode) {
    case 0: return real;
    case 1: return 0.99999994f;
    case 2: return 0.0f;
  }
  if (script_pos < script.size()) return script[script_pos++];
  uint64_t x = rt::rnd(&script_rng);
  int k = x & 7;
  if (k == 0) return 0.0f;
  if (k == 1) return 0.99999994f;
  return (float)((x >> 20) & 0xFFFFFF) / 16777216.0f;
}
static std::string json_string(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; o += ch; }
  return o + "\"";
}
struct BpeCase { std::vector<std::string> vocab; std::string prefix, suffix; };
static Case gen_C10(uint64_t seed, int index, bool) {
  Rng r(seed * 1000003 + index + 43);
  Case c;
  static const char* alphas[] = {"ab", "abc", "abcdef", "xyz12"};
  std::string al = alphas[r.below(4)];
  std::string pfx = r.p(1, 4) ? "##" : "", sfx = r.p(1, 4) ? "</w>" : "";
  if (!pfx.empty() && !sfx.empty() && r.p(1, 2)) sfx = "";
  std::vector<std::string> vocab;
  auto add = [&](const std::string& t) { if (std::find(vocab.begin(), vocab.end(), t) == vocab.end()) vocab.push_back(t); };
  if (r.p(1, 2)) add("[UNK]");
  for (char ch : al) {
    std::string s(1, ch);
    add(s);
    if (!pfx.empty()) add(pfx + s);
    if (!sfx.empty()) { add(s + sfx); if (!pfx.empty()) add(pfx + s + sfx); }
  }
  // merges of what is there, only such that the merged text is the joined text
  std::vector<std::string> merges;
  int nm = r.range(1, 24);
  for (int i = 0; i < nm * 3 && (int)merges.size() < nm; i++) {
    std::string a = r.pick(vocab), b = r.pick(vocab);
    if (a == "[UNK]" || b == "[UNK]") continue;
    if (!sfx.empty() && a.size() > sfx.size() && a.compare(a.size() - sfx.size(), sfx.size(), sfx) == 0) continue;
    if (!pfx.empty() && b.compare(0, pfx.size(), pfx) != 0) continue;
    if (pfx.empty() == false && b.size() <= pfx.size()) continue;
    std::string n = a + b.substr(pfx.size());
    if (n.size() > 24) continue;
    std::string m = a + " " + b;
    if (std::find(merges.begin(), merges.end(), m) != merges.end()) continue;
    merges.push_back(m);
    add(n);
  }
  // a token that grows character by character to a length that matters
  std::string chain;
  if (index % 100 == 31 && pfx.empty() && sfx.empty()) {
    static const int lens[] = {130, 258, 258, 520};
    chain = std::string(1, al[0]);
    for (int i = lens[r.below(4)]; i > 0; i--) { std::string b(1, al[r.below(al.size())]); merges.push_back(chain + " " + b); chain += b; add(chain); }
  }
  std::string vj = "{", mj = "[";
  for (size_t i = 0; i < vocab.size(); i++) { if (i) vj += ","; vj += json_string(vocab[i]) + ":" + std::to_string(i); }
  for (size_t i = 0; i < merges.size(); i++) { if (i) mj += ","; mj += json_string(merges[i]); }
  static const char* rate[] = {"0.5", "0.1", "0.9", "0.01", "1.0", "0.3"};
  const char* dr = rate[r.below(6)];
  for (int k = 0; k < 2; k++) {
    std::string model = std::string("{\"type\":\"BPE\",\"dropout\":") + (k ? "null" : dr) + ",\"unk_token\":" + (vocab[0] == "[UNK]" ? "\"[UNK]\"" : "null") + ",\"continuing_subword_prefix\":" +
                        (pfx.empty() ? "null" : json_string(pfx)) + ",\"end_of_word_suffix\":" + (sfx.empty() ? "null" : json_string(sfx)) +
                        ",\"fuse_unk\":false,\"byte_fallback\":false,\"ignore_merges\":false,\"vocab\":" + vj + "},\"merges\":" + mj + "]}";
    c.cfgs.push_back("{\"truncation\":null,\"padding\":null,\"added_tokens\":null,\"normalizer\":null,\"pre_tokenizer\":{\"type\":\"Split\",\"pattern\":{\"Regex\":\"\\\\s+\"},\"behavior\":\"Removed\",\"invert\":false},"
                     "\"model\":" + model + ",\"decoder\":null,\"post_processor\":null}");
  }
  for (size_t i = 0; i < vocab.size(); i++) c.par["v" + std::to_string(i)] = vocab[i];
  c.set("nvocab", (long)vocab.size());
  c.par["prefix"] = pfx;
  c.par["suffix"] = sfx;
  c.set("dseed", (long)(r.next() >> 20));
  std::vector<Op> ops;
  int n = r.range(2, 6);
  for (int i = 0; i < n; i++) {
    std::vector<uint32_t> t;
    int nw = r.range(1, 4);
    for (int j = 0; j < nw; j++) {
      if (j) t.push_back(' ');
      int len = r.p(1, 12) ? r.range(20, 60) : r.p(1, 60) ? r.range(250, 900) : r.range(1, 10);
      if (index % 400 == 7 && !i && !j) len = r.range(33000, 70000);
      if (!chain.empty() && r.p(1, 2)) { for (char x : chain) t.push_back((uint32_t)(unsigned char)x); len = r.range(0, 3); }
      for (int k = 0; k < len; k++) t.push_back((uint32_t)(unsigned char)al[r.below(al.size())]);
    }
    ops.push_back(op_encode(0, t));
  }
  c.threads.push_back(ops);
  c.amb = gen_ambient(r);
  return c;
}
// what an encoding says: ids|type_ids|tokens|words|offsets|...
struct Parsed { std::vector<int> ids; std::vector<std::string> toks; std::vector<int> words; std::vector<std::pair<int, int>> offs; };
static bool parse_enc(const std::string& s, Parsed* p) {
  const char* q = s.c_str() + 2;
  auto ints = [&](std::vector<int>* v) { while (*q && *q != '|') { v->push_back((int)strtol(q, (char**)&q, 10)); if (*q == ',') q++; } if (*q) q++; };
  std::vector<int> types;
  ints(&p->ids);
  ints(&types);
  while (*q && *q != '|') { size_t n = strtoul(q, (char**)&q, 10); q++; p->toks.emplace_back(q, n); q += n + 1; }
  if (*q) q++;
  while (*q && *q != '|') { if (*q == '-' && q[1] == ',') { p->words.push_back(-1); q += 2; } else { p->words.push_back((int)strtol(q, (char**)&q, 10)); q++; } }
  if (*q) q++;
  while (*q && *q != '|') { int a = (int)strtol(q, (char**)&q, 10); q++; int b = (int)strtol(q, (char**)&q, 10); q++; p->offs.push_back({a, b}); }
  return true;
}
static std::string check_seg(const Case& c, const Op& o, const std::string& res, bool singles) {
  if (res.compare(0, 2, "R:")) return "the call gave " + clip(res);
  Parsed p;
  parse_enc(res, &p);
  std::string pfx = c.par.at("prefix"), sfx = c.par.at("suffix");
  std::vector<std::string> words{""};
  for (auto ch : o.text) { if (ch == ' ') words.push_back(""); else words.back() += (char)ch; }
  words.erase(std::remove(words.begin(), words.end(), ""), words.end());   // blanks in a row, or at an end
  if (p.ids.size() != p.toks.size() || p.ids.size() != p.words.size() || p.ids.size() != p.offs.size()) return "arrays of different lengths";
  size_t k = 0;
  for (size_t i = 0; i < words.size(); i++) {
    std::string got;
    size_t first = k;
    while (k < p.ids.size() && p.words[k] == (int)i) {
      auto it = c.par.find("v" + std::to_string(p.ids[k]));
      if (it == c.par.end()) return "id " + std::to_string(p.ids[k]) + " is not in the vocabulary";
      if (it->second != p.toks[k]) return "id " + std::to_string(p.ids[k]) + " comes with the text " + p.toks[k] + " instead of " + it->second;
      std::string t = p.toks[k];
      bool last = k + 1 >= p.ids.size() || p.words[k + 1] != (int)i;
      if (k != first && !pfx.empty()) { if (t.compare(0, pfx.size(), pfx)) return "the token " + t + " continues a word without the prefix"; t = t.substr(pfx.size()); }
      if (last && !sfx.empty()) { if (t.size() < sfx.size() || t.compare(t.size() - sfx.size(), sfx.size(), sfx)) return "the token " + t + " ends a word without the suffix"; t.resize(t.size() - sfx.size()); }
      if (singles && t.size() != 1) return "all merges are dropped and there is a token " + t;
      got += t;
      k++;
    }
    if (got != words[i]) return "the word " + words[i] + " is split into tokens that spell " + got;
  }
  if (k != p.ids.size()) return "there are more tokens than the words need";
  return "";
}
static Verdict exec_C10(const Case& c) {
  Verdict v;
  const auto& ops = c.threads[0];
  std::vector<Op> plain{op_load(0, 1)};
  for (auto& o : ops) plain.push_back(o);
  Run ref = run_seq(c, plain, nullptr, true);
  fold(&v, ref);
  if (v.violated || v.infra) return v;
  static const char* modes[] = {"the library's own random values", "no merge dropped", "every merge dropped", "scripted values", "scripted values", "scripted values", "what is dropped changing from call to call"};
  count_ops(ops);
  bool threw = false;
  for (int m = 0; m < 7; m++) {
    bool one = c.par.count("m") && c.num("m") != m;
    if (one) continue;
    bool always = c.cfgs[0].find("\"dropout\":1.0") != std::string::npos;
    if (m == 1 && always) continue;
    // m == 6: the calls again and again, each with its own policy
    std::vector<std::pair<size_t, int>> todo;
    uint64_t pick = (uint64_t)c.num("dseed") + 5;
    for (int k = 0; k < (m == 6 ? 3 : 1); k++)
      for (size_t i = 0; i < ops.size(); i++) todo.push_back({i, m < 6 ? (m > 3 ? 3 : m) : 1 + (int)(rt::rnd(&pick) >> 9) % 3});
    Run r = fork_run(c, [&] {
      script.clear();
      script_pos = 0;
      script_rng = (uint64_t)c.num("dseed") + m * 977;
      draws = 0;
      draw_hook = next_draw;
      Slots* s = new_slots();
      emit(do_op(s, c, op_load(0, 0), nullptr));
      for (auto& t : todo) { draw_mode = t.second; emit(do_op(s, c, ops[t.first], nullptr), true); }
      rt::check_heap();
      emit(std::to_string(draws));
    });
    fold(&v, r);
    if (v.violated || v.infra) { v.msg += std::string(" [") + modes[m] + "]"; return v; }
    if (r.res[0] != "R:loaded") { infra(&v, "the configuration does not load: " + r.res[0]); return v; }
    tot.counters["draws"] += (uint64_t)atol(r.res.back().c_str());
    threw |= atol(r.res.back().c_str()) > 0;
    for (size_t k = 0; k < todo.size(); k++) {
      size_t i = todo[k].first;
      const std::string& got = r.res[k + 1];
      std::string bad = check_seg(c, ops[i], got, todo[k].second == 2);
      if (bad.empty() && todo[k].second == 1 && !always && got != ref.res[i + 1]) bad = "no merge is dropped and the result differs from that without dropout: " + clip(got) + " instead of " + clip(ref.res[i + 1]);
      if (!bad.empty()) { fail(&v, "bad-segmentation", clip(describe(ops[i]), 400) + " with " + modes[m] + ": " + bad); return v; }
    }
  }
  v.nontrivial = threw ? v.hash : 0;
  return v;
}

// ------------------------------------------------------------ C14
// what arrives in a call is damaged: any code units, any ids, any bytes
static std::vector<uint32_t> hostile_text(Rng& r, const Profile& p) {
  static const uint32_t odd[] = {0, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0xFFFE, 0xFFFF, 0xFEFF, 0x202E, 0x200D, 0x300, 0x345, 0x1D15E, 0xFB2C, 0xFDFA, 0x3A9, 0x130,
                                 0x7F, 0x80, 0x85, 0xA0, 0xAD, 0x2028, 0x3000, 0x1F1E6, 0x1F468, 0xE0001, 0xFFFFFF80u, 0xFFFFFFC3u, 0x2581, 0x120, 0xAC00, 0x1100, 0x11A8};
  U t = gen_text(r, p, r.p(1, 6) ? 20 : 5);
  int k = r.range(1, 5);
  for (int i = 0; i < k; i++) {
    size_t at = r.below(t.size() + 1);
    switch (r.below(10)) {
      case 0: case 1: if (t.size()) t[r.below(t.size())] ^= 1u << r.below(32); break;
      case 2: case 3: t.insert(t.begin() + at, odd[r.below(sizeof odd / sizeof *odd)]); break;
      case 4: if (t.size()) t[r.below(t.size())] = odd[r.below(sizeof odd / sizeof *odd)]; break;
      case 5: t.insert(t.begin() + at, (uint32_t)r.next()); break;
      case 6: { uint32_t x = r.p(1, 2) ? odd[r.below(sizeof odd / sizeof *odd)] : (uint32_t)r.below(0x3000); t.insert(t.begin() + at, r.range(2, r.p(1, 6) ? 300 : 12), x); break; }
      case 7: { int n = r.range(1, 12); for (int j = 0; j < n; j++) t.insert(t.begin() + at, (uint32_t)r.below(r.p(1, 2) ? 0x250 : 0x11000)); break; }
      case 8: { U u = w(r.pick(p.vocab).c_str()); t.insert(t.begin() + at, u.begin(), u.end()); break; }
      default: if (t.size() > 1) t.erase(t.begin() + r.below(t.size())); break;
    }
  }
  return t;
}
static std::vector<int> hostile_ids(Rng& r, const Profile& p) {
  std::vector<int> v = gen_ids(r, p, 3);
  static const int odd[] = {-1, -2, INT32_MAX, INT32_MIN, INT32_MIN + 1, 65536, 1 << 24, -65536, 1 << 30};
  int k = r.range(1, 4);
  for (int i = 0; i < k; i++) {
    size_t at = r.below(v.size() + 1);
    switch (r.below(6)) {
      case 0: v.insert(v.begin() + at, odd[r.below(9)]); break;
      case 1: if (v.size()) v[r.below(v.size())] ^= (int)(1u << r.below(32)); break;
      case 2: v.insert(v.begin() + at, p.nids + r.range(-2, 3)); break;
      case 3: v.insert(v.begin() + at, (int)r.next()); break;
      case 4: v.insert(v.begin() + at, r.range(1, 60), r.range(0, p.nids)); break;
      default: if (r.p(1, 4)) v.clear(); break;
    }
  }
  return v;
}
static std::vector<Tok> hostile_toks(Rng& r, const Profile& p) {
  std::vector<Tok> v = gen_toks(r, p, 4);
  static const char* odd[] = {"\xFF", "\xC3", "\xE2\x82", "\xED\xA0\x80", "\xF5\x80\x80\x80", "\xC0\x80", "\x80\x80", " ", "\t", "a b", "\xEF\xBB\xBF", "\xCC\x81", "(", "[", "\\", "a*", ""};
  for (auto& t : v) {
    switch (r.below(7)) {
      case 0: t.content = odd[r.below(17)]; break;
      case 1: t.content += odd[r.below(17)]; break;
      case 2: t.content = odd[r.below(17)] + t.content; break;
      case 3: if (t.content.size()) t.content[r.below(t.content.size())] = (char)r.below(256); break;
      case 4: { std::string x; for (int j = r.range(1, r.p(1, 5) ? 200 : 8); j > 0; j--) x += (char)r.below(256); t.content = x; break; }
      case 5: t.content = r.pick(p.vocab); break;
      default: t.content.insert(r.below(t.content.size() + 1), 1, '\0'); break;
    }
  }
  return v;
}
static Case gen_C14(uint64_t seed, int index, bool) {
  Rng r(seed * 1000003 + index + 61);
  Case c;
  GenOpt go;
  go.dropout = r.p(1, 12);
  Profile p = gen_profile(r, go);
  c.cfgs = {p.json};
  std::vector<Op> bad, good;
  int n = r.range(3, 8);
  bool adds = r.p(1, 2);
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(12);
    Op o;
    if (k < 6) o = op_encode(0, hostile_text(r, p), r.p(3, 4));
    else if (k < 9 || !adds) o = op_decode(0, hostile_ids(r, p), r.p(1, 2));
    else { o = op_simple(r.p(1, 2) ? O_ADD : O_ADDSP, 0); o.toks = hostile_toks(r, p); }
    if (r.p(1, 6)) o.fault = gen_fault(r, 300);
    bad.push_back(o);
  }
  if (r.p(1, 8)) lengthen(r, p, &bad[r.below(bad.size())], 30000);
  if (index % 350 == 77) {   // one word longer than anybody expects
    std::vector<uint32_t> al;
    for (auto& t : p.vocab) if (t.size() == 1 && islower((unsigned char)t[0])) al.push_back((uint32_t)t[0]);
    if (al.empty()) al.push_back('a');
    std::vector<uint32_t> t;
    for (int k = r.range(33000, 40000); k > 0; k--) t.push_back(r.pick(al));
    bad.resize(1);
    bad[0] = op_encode(0, t);
  }
  for (int i = r.range(1, 3); i > 0; i--) good.push_back(gen_op(r, p, 0, false));
  c.threads = {bad, good};
  c.set("together", !adds && r.p(1, 2));
  if (!adds && r.p(1, 4)) { std::vector<Op> more; for (int i = r.range(1, 3); i > 0; i--) more.push_back(op_encode(0, hostile_text(r, p), r.p(3, 4))); c.threads.push_back(more); }
  gen_sched(r, &c);
  c.amb = gen_ambient(r);
  c.amb.stack = r.p(1, 4);
  c.set("stack_kb", 512);
  c.set("vseed", (long)(r.next() >> 20));
  return c;
}
static Verdict exec_C14(const Case& c) {
  Verdict v;
  if (c.threads.size() < 2) return v;
  const auto &bad = c.threads[0], &good = c.threads[1];
  tot.counters["calls with damaged arguments"] += bad.size();
  count_ops(bad);
  // with: each damaged call and then one ordinary call; without: the ordinary calls and the additions
  auto play = [&](const Case& d, bool with) {
    return fork_run(d, [&] {
      Slots* s = new_slots();
      rt::set_memory(500ull << 20);
      do_op(s, d, op_load(0, 0), nullptr);
      for (size_t i = 0; i < bad.size(); i++) {
        bool add = bad[i].kind == O_ADD || bad[i].kind == O_ADDSP;
        emit(with || add ? do_op(s, d, bad[i], nullptr) : "");
        emit(good.empty() ? "" : do_op(s, d, good[i % good.size()], nullptr));
      }
      rt::check_heap();
      do_op(s, d, op_simple(O_DESTROY, 0), nullptr);
      rt::check_heap();
    });
  };
  Run a = play(c, true);
  fold(&v, a);
  if (v.violated || v.infra) { if (v.violated) v.msg += " [in call " + std::to_string(a.res.size() + 1) + ": " + clip(describe(bad[std::min(a.res.size() / 2, bad.size() - 1)])) + "]"; return v; }
  v.nontrivial = v.hash;
  for (size_t i = 0; i < a.res.size(); i++) {
    if (a.res[i][0] == 'N') { fail(&v, "foreign-exception", clip(describe(bad[i / 2])) + ": " + a.res[i]); return v; }
    if (a.res[i][0] == 'X' && !(i & 1)) tot.counters["damaged calls that throw"]++;
  }
  Run b = play(c, false);
  fold(&v, b);
  if (v.violated || v.infra) return v;
  for (size_t i = 1; i < a.res.size(); i += 2)
    if (a.res[i] != b.res[i]) { mismatch(&v, "wrong-result-later", clip(describe(good[i / 2 % good.size()]), 200) + " after " + clip(describe(bad[i / 2]), 200), a.res[i], b.res[i]); return v; }
  Rng g(c.num("vseed"));
  Case d = c;
  d.amb = gen_ambient(g);
  d.amb.stack = c.amb.stack;
  Run e = play(d, true);
  fold(&v, e);
  if (v.violated || v.infra) return v;
  for (size_t i = 0; i < a.res.size(); i++)
    if (a.res[i] != e.res[i] && !bad[i / 2].fault.mode) { mismatch(&v, "nondeterministic", clip(describe(i & 1 ? good[i / 2 % good.size()] : bad[i / 2]), 200) + " in another state of memory", e.res[i], a.res[i]); return v; }
  if (!c.num("together") || good.empty()) return v;
  for (auto& o : bad) if (o.kind == O_ADD || o.kind == O_ADDSP) return v;
  tot.counters["damaged calls next to ordinary ones"]++;
  Run t = fork_run(c, [&] {
    Slots* s = new_slots();
    do_op(s, c, op_load(0, 0), nullptr);
    rt::set_race(true);
    run_case_threads(s, c, a.st.events);
    rt::check_heap();
    do_op(s, c, op_simple(O_DESTROY, 0), nullptr);
    rt::check_heap();
  });
  fold(&v, t);
  v.sw = t.sw;
  if (v.violated || v.infra) return v;
  auto got = tagged(t);
  for (auto& x : got) if (x.second[0] == 'N') { fail(&v, "foreign-exception", x.second); return v; }
  Run q = run_seq(c, [&] { std::vector<Op> l{op_load(0, 0)}; l.insert(l.end(), good.begin(), good.end()); return l; }());
  fold(&v, q);
  if (v.violated || v.infra) return v;
  for (size_t i = 0; i < good.size(); i++)
    if (got["1." + std::to_string(i)] != q.res[i + 1]) { mismatch(&v, "wrong-result", clip(describe(good[i]), 200) + " while another thread's call has damaged arguments", got["1." + std::to_string(i)], q.res[i + 1]); return v; }
  return v;
}

// ------------------------------------------------------------ list
std::vector<Check> checks;
static struct Reg {
  Reg() {
    checks.push_back({"C01", 5000, 60000, gen_C01, exec_C01, true});
    checks.push_back({"C02", 5000, 40000, gen_C02, exec_C02, true});
    checks.push_back({"C03", 700, 24000, gen_C03, exec_C03, false});
    checks.push_back({"C04", 900, 9000, gen_C04, exec_C04, false});
    checks.push_back({"C05", 900, 9000, gen_C05, exec_C05, false});
    checks.push_back({"C06", 180, 3600, gen_C06, exec_C06, false});
    checks.push_back({"C07", 8000, 8000, gen_C07, exec_C07, false});
    checks.push_back({"C08", 20000, 120000, gen_C08, exec_C08, false});
    checks.push_back({"C09", 16000, 80000, gen_C09, exec_C09, false});
    checks.push_back({"C10", 16000, 80000, gen_C10, exec_C10, false});
    checks.push_back({"C11", 44, 400, gen_C11, exec_C11, false});
    checks.push_back({"C13", 5000, 36000, gen_C13, exec_C13, false});
    checks.push_back({"C14", 4000, 60000, gen_C14, exec_C14, true});
    jni_checks(&checks);
  }
} reg;
