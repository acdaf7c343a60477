#include "world.h"

#include <errno.h>
#include <locale.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cxxabi.h>
#include <simdjson.h>
#include <unicode/locid.h>
#include <unicode/normlzr.h>
#include <unicode/regex.h>
#include <unicode/unistr.h>
#include <codecvt>
#include <iostream>
#include <locale>
#include <memory>
#include <regex>
#include <sstream>

#include "tokenizers/tokenizer.h"

const char* op_name[] = {"load", "encode", "decode", "add", "addspecial", "destroy", "move", "bulk", "probe", "locale"};
Totals tot;

// ------------------------------------------------------------------ text form
static std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o = "x";
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
static std::string unhex(const std::string& s) {
  std::string o;
  for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return o;
}
static std::string esc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c == 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
std::string u8(const std::vector<uint32_t>& t) {
  std::string o;
  for (uint32_t c : t) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | (c >> 18 & 7)); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  }
  return o;
}
std::vector<uint32_t> w(const char* s) {
  std::vector<uint32_t> o;
  const unsigned char* p = (const unsigned char*)s;
  while (*p) {
    uint32_t c = *p++;
    int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
    if (n) { c &= 0x3F >> n; while (n--) c = c << 6 | (*p++ & 63); }
    o.push_back(c);
  }
  return o;
}
std::string describe(const Op& o) {
  std::string s = op_name[o.kind];
  s += " tok=" + std::to_string(o.tok);
  switch (o.kind) {
    case O_LOAD: s += " config=" + std::to_string(o.arg) + (o.by_path ? " by path" : ""); break;
    case O_ENCODE: s += " text=" + esc(u8(o.text)) + (o.flag ? "" : " without special tokens"); break;
    case O_DECODE: { s += " ids="; for (int i : o.ids) s += std::to_string(i) + ","; if (!o.flag) s += " keeping special tokens"; break; }
    case O_ADD: case O_ADDSP: for (auto& t : o.toks) s += " " + esc(t.content) + (t.special ? "!" : ""); break;
    case O_MOVE: s += " to=" + std::to_string(o.arg); break;
    default: s += " " + std::to_string(o.arg) + (o.kind == O_BULK && o.ids.size() ? " words from " + std::to_string(o.ids[0]) : "");
  }
  if (o.fault.mode) s += " alloc-fault(mode " + std::to_string(o.fault.mode) + " at " + std::to_string(o.fault.nth) + ")";
  if (o.jnth) s += " JVM call " + std::to_string(o.jnth) + (o.jmode ? " returning null" : " failing");
  return s;
}
static void put_op(std::ostringstream& o, const char* pre, const Op& p) {
  o << pre << " " << p.kind << " " << p.tok << " " << p.arg << " " << p.flag << " " << p.by_path << " " << p.fault.mode << " " << p.fault.nth << " "
    << p.fault.arg << " " << p.jnth << " " << p.jmode << " " << p.text.size();
  for (auto c : p.text) o << " " << c;
  o << " " << p.ids.size();
  for (auto c : p.ids) o << " " << c;
  o << " " << p.toks.size();
  for (auto& t : p.toks) o << " " << hex(t.content) << " " << t.single << t.lstrip << t.rstrip << t.normalized << t.special;
  o << "\n";
}
std::string to_text(const Case& c) {
  std::ostringstream o;
  o.imbue(std::locale::classic());
  o << "property " << c.prop << "\nseed " << c.seed << "\n";
  o << "ambient " << (int)c.amb.fill << " " << (int)c.amb.reuse << " " << c.amb.shift << " " << c.amb.clock0 << " " << c.amb.entropy << " " << (int)c.amb.env + 256 * c.amb.stack + 65536 * c.amb.clock + 16777216 * c.amb.machine << "\n";
  for (size_t i = 0; i < c.cfgs.size(); i++) o << "config " << hex(c.cfgs[i]) << "\n# config " << i << ": " << esc(c.cfgs[i]) << "\n";
  for (auto& p : c.par) o << "par " << p.first << " " << hex(p.second) << "\n";
  for (auto& p : c.prelude) { o << "# " << describe(p) << "\n"; put_op(o, "prelude", p); }
  for (size_t t = 0; t < c.threads.size(); t++) {
    o << "thread\n";
    for (auto& p : c.threads[t]) { o << "#   T" << t + 1 << ": " << describe(p) << "\n"; put_op(o, "op", p); }
  }
  o << "sched " << c.sched.strategy << " " << c.sched.seed << " " << c.sched.gap << " " << c.sched.pct_depth << " " << c.sched.est_events << " "
    << c.sched.race << " " << c.sched.cap << "\n";
  for (auto& s : c.replay) o << "switch " << (int)s.tid << " " << s.ev << " " << (int)s.to << " " << (int)s.forced << "\n";
  for (auto& f : c.fs) o << "# call " << f.at << ": " << simfs::kind_name[f.kind] << " " << f.arg << "\nfs " << f.at << " " << f.kind << " " << f.arg << "\n";
  for (auto& f : c.flips) o << "flip " << f.first << " " << f.second << "\n";
  return o.str();
}
static Op get_op(std::istringstream& i) {
  Op p;
  size_t n;
  i >> p.kind >> p.tok >> p.arg >> p.flag >> p.by_path >> p.fault.mode >> p.fault.nth >> p.fault.arg >> p.jnth >> p.jmode >> n;
  p.text.resize(n); for (auto& c : p.text) i >> c;
  i >> n; p.ids.resize(n); for (auto& c : p.ids) i >> c;
  i >> n; p.toks.resize(n);
  for (auto& t : p.toks) {
    std::string h, f;
    i >> h >> f;
    t.content = unhex(h);
    t.single = f[0] == '1'; t.lstrip = f[1] == '1'; t.rstrip = f[2] == '1'; t.normalized = f[3] == '1'; t.special = f[4] == '1';
  }
  return p;
}
bool from_text(const std::string& t, Case* c) {
  std::istringstream in(t);
  in.imbue(std::locale::classic());
  std::string line;
  *c = Case();
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream i(line);
    i.imbue(std::locale::classic());
    std::string k;
    i >> k;
    if (k == "property") i >> c->prop;
    else if (k == "seed") i >> c->seed;
    else if (k == "ambient") { int f, r, e; i >> f >> r >> c->amb.shift >> c->amb.clock0 >> c->amb.entropy >> e; c->amb.fill = f; c->amb.reuse = r; c->amb.env = e & 255; c->amb.stack = (uint8_t)(e >> 8); c->amb.clock = (uint8_t)(e >> 16); c->amb.machine = (uint8_t)(e >> 24); }
    else if (k == "config") { std::string h; i >> h; c->cfgs.push_back(unhex(h)); }
    else if (k == "par") { std::string a, h; i >> a >> h; c->par[a] = unhex(h); }
    else if (k == "prelude") c->prelude.push_back(get_op(i));
    else if (k == "thread") c->threads.emplace_back();
    else if (k == "op") c->threads.back().push_back(get_op(i));
    else if (k == "sched") i >> c->sched.strategy >> c->sched.seed >> c->sched.gap >> c->sched.pct_depth >> c->sched.est_events >> c->sched.race >> c->sched.cap;
    else if (k == "switch") { int a, b, f; uint64_t e; i >> a >> e >> b >> f; rt::Switch s; s.tid = a; s.ev = e; s.to = b; s.forced = f; c->replay.push_back(s); }
    else if (k == "fs") { simfs::Fault f; i >> f.at >> f.kind >> f.arg; c->fs.push_back(f); }
    else if (k == "flip") { uint64_t e; int l; i >> e >> l; c->flips.push_back({e, l}); }
    else return false;
  }
  return !c->prop.empty();
}

// ------------------------------------------------------------------ forked runs
static rt::SharedOut* shared() {
  static rt::SharedOut* s;
  if (!s) s = (rt::SharedOut*)mmap(nullptr, sizeof(rt::SharedOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return s;
}
void emit(const std::string& full, bool whole) {
  rt::SharedOut* o = rt::out;
  std::string s = full;
  size_t tag = s.size() && (isdigit((unsigned char)s[0]) || !s.compare(0, 6, "after\x01")) ? s.find('\x01') : s.npos;
  tag = tag == s.npos ? 0 : tag + 1;
  if (s.size() - tag > 20000 && !whole)   // a digest will do
    s = s.substr(0, tag + 500) + "... " + std::to_string(full.size() - tag) + " bytes, hash " + std::to_string(std::hash<std::string>()(full.substr(tag)));
  if (o->len + s.size() + 8 > sizeof o->data) rt::violation("harness-crash", "result buffer is full");
  uint32_t n = (uint32_t)s.size();
  memcpy(o->data + o->len, &n, 4);
  memcpy(o->data + o->len + 4, s.data(), n);
  o->len = o->len + 4 + n;
}
static void on_terminate() {
  const char* n = "";
  std::type_info* t = abi::__cxa_current_exception_type();
  if (t) n = t->name();
  rt::violation("terminate", "std::terminate was called (exception type %s)", n);
}
Run fork_run(const Case& c, const std::function<void()>& body, int wall_s) {
  rt::SharedOut* o = shared();
  memset((void*)o, 0, offsetof(rt::SharedOut, sw));
  o->nsw = 0;
  o->len = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    std::set_terminate(on_terminate);
    struct rlimit rl = {(rlim_t)wall_s, (rlim_t)wall_s + 5};
    setrlimit(RLIMIT_CPU, &rl);
    if (long kb = c.num("stack_kb")) {   // threads of other systems have less than Linux gives its first one
      struct rlimit sl = {(rlim_t)kb << 10, (rlim_t)kb << 10};
      setrlimit(RLIMIT_STACK, &sl);
    }
    rt::begin_run(o, c.amb);
    try { body(); }
    catch (const std::exception& e) { rt::violation("harness-crash", "exception in the harness: %s", e.what()); }
    rt::end_run();
    syscall(SYS_exit_group, 0);
  }
  Run r;
  if (pid < 0) { r.infra = true; r.msg = "fork failed"; return r; }
  int fd = (int)syscall(SYS_pidfd_open, pid, 0);
  bool late = false;
  if (fd >= 0) {
    struct pollfd pf = {fd, POLLIN, 0};
    int k;
    do { k = poll(&pf, 1, wall_s * 6000); } while (k < 0 && errno == EINTR);
    if (k == 0) { kill(pid, SIGKILL); late = true; }
    close(fd);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  tot.runs++;
  r.st = o->st;
  r.hash = o->sched_hash;
  r.sw.assign(o->sw, o->sw + o->nsw);
  for (int i = 0; i < 8; i++) r.progress.push_back((uint32_t)o->progress[i]);
  size_t p = 0;
  while (p + 4 <= o->len) {
    uint32_t n;
    memcpy(&n, o->data + p, 4);
    r.res.emplace_back(o->data + p + 4, n);
    p += 4 + n;
  }
  if (o->violated) {
    r.violated = true;
    r.kind = o->kind;
    r.msg = o->msg;
    r.pcs.assign(o->pcs[0], o->pcs[0] + o->npcs[0]);
    if (r.kind == "harness-crash") r.infra = true;
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) {
    r.violated = true;
    r.kind = "no-progress";
    r.msg = "a call did not return within " + std::to_string(wall_s) + " s of processor time";
  } else if (late) {
    r.infra = true;
    r.msg = "a run took more than " + std::to_string(wall_s * 6) + " s";
  } else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    r.violated = true;
    r.kind = "crash";
    r.msg = WIFSIGNALED(st) ? "the process died by signal " + std::to_string(WTERMSIG(st)) : "the process exited with status " + std::to_string(WEXITSTATUS(st));
  }
  for (auto& x : r.res) r.hash = (r.hash ^ std::hash<std::string>()(x)) * 0x100000001b3ull;
  r.hash = (r.hash ^ r.st.events) * 0x100000001b3ull;
  tot.events += r.st.events; tot.switches += r.st.switches; tot.decisions += r.st.decisions; tot.allocs += r.st.allocs;
  tot.alloc_faults += r.st.alloc_faults; tot.sync_ops += r.st.sync_ops; tot.conflicts += r.st.conflicts; tot.threads += r.st.threads;
  tot.static_inits += r.st.static_inits; tot.mutex_blocks += r.st.mutex_blocks; tot.flips += r.st.flips; tot.sim_ns += r.st.sim_ns;
  return r;
}
void fold(Verdict* v, const Run& r) {
  v->hash = (v->hash ^ r.hash) * 0x9e3779b97f4a7c15ull;
  if (r.infra) { v->infra = true; v->msg = r.msg; }
  if (r.violated && !v->violated) {
    v->violated = true;
    v->kind = r.kind;
    v->msg = r.msg;
    v->pcs = r.pcs;
  }
}

// ------------------------------------------------------------------ operations
struct Slots { Tokenizer* t[64] = {}; };
Slots* new_slots() { return new Slots; }

static void app(std::string& o, const std::vector<int>& v) {
  for (int x : v) { o += std::to_string(x); o += ','; }
  o += '|';
}
static void ser(std::string& o, const Encoding& e, int depth = 0) {
  app(o, e.ids);
  app(o, e.type_ids);
  for (auto& t : e.tokens) { o += std::to_string(t.size()); o += ':'; o += t; o += ','; }
  o += '|';
  for (auto& x : e.words) { o += x.has_value() ? std::to_string(*x) : "-"; o += ','; }
  o += '|';
  for (auto& x : e.offsets) { o += std::to_string(x.first) + "-" + std::to_string(x.second) + ","; }
  o += '|';
  app(o, e.special_tokens_mask);
  app(o, e.attention_mask);
  o += "{";
  if (depth < 3) for (auto& x : e.overflowing) ser(o, x, depth + 1);
  o += "}";
}
static std::string exname(const std::exception& e) {
  int st;
  char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
  std::string s = d ? d : typeid(e).name();
  free(d);
  return s;
}
// whichever way of moving there is
template <class T> static void move_to(T** to, T*& from) {
  if constexpr (std::is_move_assignable<T>::value) {
    if (*to) { **to = std::move(*from); delete from; return; }
  }
  if constexpr (std::is_move_constructible<T>::value) {
    T* t = new T(std::move(*from));
    delete *to;
    *to = t;
    delete from;
  } else {
    delete *to;
    *to = from;
  }
}

std::string do_op(Slots* s, const Case& c, const Op& o, rt::OpCtl* ctl) {
  rt::OpCtl local;
  if (!ctl) ctl = &local;
  ctl->fault = o.fault;
  std::string r;
  if (o.kind == O_LOCALE) return "R:";
  if (o.kind != O_LOAD && o.kind != O_DESTROY && !s->t[o.tok]) return "R:no tokenizer";
  // arguments belong to the caller: built outside the code under test
  std::wstring text(o.text.begin(), o.text.end());
  std::vector<AddedToken> toks;
  for (auto& t : o.toks) toks.push_back(AddedToken(0, t.content, t.single, t.lstrip, t.rstrip, t.normalized, t.special));
  std::string path, cfg;
  if (o.kind == O_LOAD) {
    if (o.by_path) path = "/simfs/cfg" + std::to_string(o.arg);
    else cfg = c.cfgs[o.arg];
  }
  if (text.size() > 2000) rt::extend_cap(40ull * text.size() * text.size());   // some normalisers need time in the square of the length
  rt::dirty_stack(c.amb.fill);
  try {
    switch (o.kind) {
      case O_LOAD: {
        Tokenizer* old = s->t[o.tok];
        s->t[o.tok] = nullptr;
        if (old) { rt::OpCtl x; rt::enter(&x); delete old; rt::leave(); }
        ctl->fault = o.fault;
        rt::enter(ctl);
        Tokenizer* n = new Tokenizer(path, cfg);
        rt::leave();
        s->t[o.tok] = n;
        r = "R:loaded";
        break;
      }
      case O_ENCODE: {
        rt::enter(ctl);
        Encoding e = s->t[o.tok]->encode(text, o.flag);
        rt::leave();
        r = "R:";
        ser(r, e);
        break;
      }
      case O_DECODE: {
        rt::enter(ctl);
        std::string d = s->t[o.tok]->decode(o.ids, o.flag);
        rt::leave();
        r = "R:" + d;
        break;
      }
      case O_ADD: case O_ADDSP: {
        rt::enter(ctl);
        int n = o.kind == O_ADD ? s->t[o.tok]->add_tokens(toks) : s->t[o.tok]->add_special_tokens(toks);
        rt::leave();
        r = "R:" + std::to_string(n);
        break;
      }
      case O_DESTROY: {
        rt::enter(ctl);
        delete s->t[o.tok];
        rt::leave();
        s->t[o.tok] = nullptr;
        r = "R:";
        break;
      }
      case O_MOVE: {
        if (o.arg == o.tok) { r = "R:"; break; }
        rt::enter(ctl);
        move_to(&s->t[o.arg], s->t[o.tok]);
        rt::leave();
        s->t[o.tok] = nullptr;
        r = "R:";
        break;
      }
      case O_PROBE: {   // which token does each id decode to?
        for (int i = 0; i < o.arg; i++) {
          std::vector<int> one{i};
          try {
            rt::enter(ctl);
            std::string d = s->t[o.tok]->decode(one, false);
            rt::leave();
            r += std::to_string(d.size()) + ":" + d + ",";
          } catch (const std::exception& e) { rt::leave(); r += "-,"; }
        }
        r = "R:" + r;
        break;
      }
      case O_BULK: {    // arg distinct words, through encode, in batches; ids: number of the first word
        uint64_t h = 0;
        Rng g(o.text.size() ? o.text[0] : 1);
        int done = 0;
        std::wstring base(text.begin() + (text.empty() ? 0 : 1), text.end());
        if (base.empty()) base = L"ab";
        while (done < o.arg) {
          std::wstring t;
          for (int k = 0; k < (o.by_path ? 1 : 40) && done < o.arg; k++, done++) {
            uint64_t x = 1 + done + (o.ids.empty() ? 0 : o.ids[0]);
            if (k) t += L' ';
            int len = 3 + (int)(g.next() % 3);
            for (int j = 0; j < len || x; j++) { t += base[x % base.size()]; x /= base.size(); }
          }
          rt::enter(ctl);
          Encoding e = s->t[o.tok]->encode(t, o.flag);
          rt::leave();
          for (int i : e.ids) h = h * 1000003 + i;
          for (auto& q : e.offsets) h = h * 1000003 + q.first * 31 + q.second;
          ctl->fault = rt::AllocFault();
        }
        r = "R:" + std::to_string(h);
        break;
      }
    }
  } catch (const std::exception& e) {
    rt::leave();
    r = "X:" + exname(e);
  } catch (...) {
    rt::leave();
    r = "N:an exception not derived from std::exception";
  }
  return r;
}

void warm_up() {
  // ICU and the C++ library initialise themselves lazily; they are trusted and
  // their one-time work is done before any simulated run.
  UErrorCode st = U_ZERO_ERROR;
  const char* pats[] = {"\\s+", "\\p{P}", "\\p{L}+|\\p{N}+|[^\\s\\p{L}\\p{N}]+", "\\w+|\\d+|\\b.", "[[:alpha:]]", "(?i)a", "\\S+", "[a-z]+", "\\p{Lu}\\p{Ll}", "\\X", "\\h\\v\\R"};
  icu::UnicodeString u = icu::UnicodeString::fromUTF8("Hello, wörld 123 \xE4\xBD\xA0\xE5\xA5\xBD \xF0\x9F\x98\x80 \xCC\x81");
  for (auto p : pats) {
    st = U_ZERO_ERROR;
    std::unique_ptr<icu::RegexPattern> rp(icu::RegexPattern::compile(icu::UnicodeString::fromUTF8(p), 0, st));
    if (U_FAILURE(st)) continue;
    std::unique_ptr<icu::RegexMatcher> m(rp->matcher(u, st));
    while (m->find(st)) {}
  }
  for (auto m : {UNORM_NFC, UNORM_NFD, UNORM_NFKC, UNORM_NFKD}) {
    icu::UnicodeString r;
    st = U_ZERO_ERROR;
    icu::Normalizer::normalize(u, m, 0, r, st);
    icu::UnicodeString lc(u);
    lc.toLower(icu::Locale::getRoot()); lc.foldCase(); lc.toUpper(icu::Locale::getRoot());
  }
  simdjson::ondemand::parser jp;
  simdjson::padded_string js = simdjson::padded_string(std::string("{\"a\": [1, \"b\", true]}"));
  simdjson::ondemand::document jd;
  if (!jp.iterate(js).get(jd)) (void)jd.is_null();
  u_isUWhiteSpace(0x20); u_hasBinaryProperty(0x20, UCHAR_WHITE_SPACE); u_charType(0x301); u_iscntrl(7); u_isspace(32);
  std::regex r1("\\w$"), r2("^\\w"), r3("\\s*$"), r4("^\\s*");
  std::smatch sm;
  std::string s = "ab  ";
  std::regex_search(s, sm, r1);
  std::regex_search(s, sm, r3);
  std::wregex w1(L"[a-z]\\d\\s\\w");
  std::wsmatch wm;
  std::wstring ws = L"a1 b";
  std::regex_search(ws, wm, w1);
  std::wstring_convert<std::codecvt_utf8<wchar_t>> cv;
  cv.to_bytes(L"a");
  std::ostringstream os;
  os << 1 << " " << 1.5 << std::hex << 12;
  std::istringstream is("a b");
  std::string a;
  is >> a;
  (void)std::to_string(12);
}
