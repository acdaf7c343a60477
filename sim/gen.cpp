// Seeded generation of configurations, texts, ids and tokens.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <map>
#include <set>
#include "world.h"

typedef std::vector<uint32_t> U;

static std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string ju(const U& u) { return js(u8(u)); }

// layout: the same document written differently
struct Fmt { std::string sp, nl; };

struct Doc {
  std::vector<std::pair<std::string, std::string>> top;
  std::string str(Rng& r, bool layout) {
    std::string a = "{", b = ":", c = ",", e = "}";
    if (layout && r.p(1, 2)) { a = "{\n  "; b = ": "; c = ",\n  "; e = "\n}"; if (r.p(1, 2)) e += "\n"; }
    if (layout && r.p(1, 3)) for (size_t i = top.size(); i > 1; i--) std::swap(top[i - 1], top[r.below(i)]);
    std::string o = a;
    for (size_t i = 0; i < top.size(); i++) { if (i) o += c; o += js(top[i].first) + b + top[i].second; }
    return o + e;
  }
};

static std::string added(Rng& r, int id, const std::string& c, bool special, bool single, bool l, bool rr, bool norm, bool sparse) {
  auto B = [](bool x) { return x ? "true" : "false"; };
  if (sparse) {   // keys left out
    std::string o = "{\"id\":" + std::to_string(id) + ",\"content\":" + js(c);
    const char* keys[] = {"single_word", "lstrip", "rstrip", "normalized", "special"};
    bool v[] = {single, l, rr, norm, special};
    for (int i = 0; i < 5; i++) if (r.p(1, 2)) o += std::string(",\"") + keys[i] + "\":" + B(v[i]);
    return o + "}";
  }
  return "{\"id\":" + std::to_string(id) + ",\"content\":" + js(c) + ",\"single_word\":" + B(single) + ",\"lstrip\":" + B(l) + ",\"rstrip\":" + B(rr) +
         ",\"normalized\":" + B(norm) + ",\"special\":" + B(special) + "}";
}

static std::vector<U> letters(Rng& r, const char* set, int n, int lo, int hi) {
  std::vector<U> o;
  U al = w(set);
  for (int i = 0; i < n; i++) {
    U x;
    int len = r.range(lo, hi);
    for (int j = 0; j < len; j++) x.push_back(r.pick(al));
    o.push_back(x);
  }
  return o;
}

static std::string with(const char* type, const std::string& rest = "") { return std::string("{\"type\":") + js(type) + (rest.empty() ? "" : "," + rest) + "}"; }

static std::string gen_truncation(Rng& r) {
  if (r.p(2, 3)) return "null";
  int ml = r.range(2, 9), st = r.range(0, ml - 1);
  if (r.p(1, 2)) st = 0;
  static const char* dir[] = {"Right", "Left"};
  static const char* str[] = {"LongestFirst", "OnlyFirst", "LongestFirst", "OnlySecond"};
  return std::string("{\"direction\":") + js(dir[r.below(2)]) + ",\"max_length\":" + std::to_string(ml) + ",\"strategy\":" + js(str[r.below(4)]) + ",\"stride\":" +
         std::to_string(st) + "}";
}
static std::string gen_padding(Rng& r) {
  if (r.p(2, 3)) return "null";
  std::string strat = r.p(1, 2) ? "\"BatchLongest\"" : "{\"Fixed\":" + std::to_string(r.range(1, 14)) + "}";
  return std::string("{\"strategy\":") + strat + ",\"direction\":" + (r.p(1, 2) ? "\"Right\"" : "\"Left\"") + ",\"pad_to_multiple_of\":" +
         (r.p(1, 2) ? "null" : std::to_string(r.range(2, 8))) + ",\"pad_id\":" + (r.p(3, 4) ? "0" : std::to_string(r.range(1, 6))) + ",\"pad_type_id\":" + std::to_string(r.range(0, 1)) +
         ",\"pad_token\":" + (r.p(3, 4) ? "\"[PAD]\"" : r.p(1, 2) ? "\"<a-rather-long-padding-token>\"" : "\"\"") + "}";
}
static std::string gen_template(Rng& r, int cls, int sep) {
  auto sp = [](const char* n, int t) { return std::string("{\"SpecialToken\":{\"id\":") + js(n) + ",\"type_id\":" + std::to_string(t) + "}}"; };
  auto sq = [](const char* n, int t) { return std::string("{\"Sequence\":{\"id\":") + js(n) + ",\"type_id\":" + std::to_string(t) + "}}"; };
  int ta = r.range(0, 1), tc = r.p(1, 6), shape = (int)r.below(12);
  std::string s = "\"single\":[" + sp("[CLS]", tc) + "," + sq("A", ta) + "," + sp("[SEP]", ta) + "]";
  if (shape == 0) s = "\"single\":[" + sq("A", ta) + "," + sp("[SEP]", 0) + "]";
  if (shape == 1) s = "\"single\":[" + sp("[CLS]", tc) + "," + sq("A", ta) + "]";
  if (shape == 2) s = "\"single\":[" + sp("[CLS]", 0) + "," + sp("[SEP]", tc) + "," + sq("A", ta) + "," + sp("[SEP]", 0) + "," + sp("[CLS]", ta) + "]";
  s += ",\"pair\":[" + sp("[CLS]", 0) + "," + sq("A", 0) + "," + sp("[SEP]", 0) + "," + sq("B", 1) + "," + sp("[SEP]", 1) + "]";
  std::string two = r.p(1, 10) ? std::to_string(cls) + "," + std::to_string(sep) : std::to_string(cls), twot = two.find(',') != std::string::npos ? "\"[CLS]\",\"[SEP]\"" : "\"[CLS]\"";
  s += ",\"special_tokens\":{\"[CLS]\":{\"id\":\"[CLS]\",\"ids\":[" + two + "],\"tokens\":[" + twot + "]},\"[SEP]\":{\"id\":\"[SEP]\",\"ids\":[" +
       std::to_string(sep) + "],\"tokens\":[\"[SEP]\"]}}";
  return with("TemplateProcessing", s);
}

static const char* kSpecials[] = {"[PAD]", "[UNK]", "[CLS]", "[SEP]", "[MASK]"};

struct Vocab {
  std::vector<std::string> toks;
  std::set<std::string> have;
  int add(const std::string& t) {
    if (t.empty() || have.count(t)) { for (size_t i = 0; i < toks.size(); i++) if (toks[i] == t) return (int)i; return -1; }
    have.insert(t);
    toks.push_back(t);
    return (int)toks.size() - 1;
  }
  std::string json(Rng& r) {
    std::vector<int> ord(toks.size());
    for (size_t i = 0; i < ord.size(); i++) ord[i] = (int)i;
    if (r.p(1, 2)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    std::string o = "{";
    for (size_t i = 0; i < ord.size(); i++) { if (i) o += ","; o += js(toks[ord[i]]) + ":" + std::to_string(ord[i]); }
    return o + "}";
  }
};

static std::string bert_norm(Rng& r) {
  auto B = [&](int n) { return std::string(r.p(n, 4) ? "true" : "false"); };
  return with("BertNormalizer", "\"clean_text\":" + B(3) + ",\"handle_chinese_chars\":" + B(3) + ",\"strip_accents\":" + (r.p(1, 2) ? "null" : B(2)) + ",\"lowercase\":" + B(3));
}
static std::string seq(const char* key, const std::vector<std::string>& v) {
  std::string o = std::string("\"") + key + "\":[";
  for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i]; }
  return with("Sequence", o + "]");
}
static std::string split(const char* re, const char* beh, bool invert = false) {
  return with("Split", std::string("\"pattern\":{\"Regex\":") + js(re) + "},\"behavior\":" + js(beh) + ",\"invert\":" + (invert ? "true" : "false"));
}
static std::string any_split(Rng& r) {
  static const char* res[] = {"\\p{P}", "[abc]+", "a", "\\d", "(?<=[.,!])", "[^\\s]", "e|a", "(?i)[a-e]{2}", "\\p{L}+|\\p{N}+|[^\\s\\p{L}\\p{N}]+", "[\\p{P}\\p{S}]|[a-b]{1,3}(?=[c-z])"};
  static const char* beh[] = {"Isolated", "Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"};
  return split(res[r.below(10)], beh[r.below(6)], r.p(1, 6));
}
static std::string replace(Rng& r) {
  static const char* from[] = {"z", "a", "ab", "e", " ", "aa", "ea", ".", "x", "a-rather-long-pattern", "``", "\xC3\xA9", "b", "a+", "(a|b)+", "[^z]*", "(e", "\\"};
  static const char* to[] = {"a", "b", "", "e", "ab", " ", "zz", "a-rather-long-replacement e", "\xC3\xA9", "eab", "."};
  int i = (int)r.below(18), k = (int)r.below(11);
  return with("Replace", std::string("\"pattern\":{\"String\":") + js(from[i]) + "},\"content\":" + js(to[k]));
}
static std::string prepend(Rng& r) {
  static const char* s[] = {"a", "\xE2\x96\x81", "e ", "a-rather-long-prefix ", "", "ab"};
  return with("Prepend", std::string("\"prepend\":") + js(s[r.below(6)]));
}
static std::string byte_level(Rng& r) {
  return with("ByteLevel", std::string("\"add_prefix_space\":") + (r.p(1, 2) ? "true" : "false") + ",\"trim_offsets\":" + (r.p(3, 4) ? "true" : "false") + ",\"use_regex\":" + (r.p(2, 3) ? "true" : "false"));
}
// words in which normalisation, case and width matter
static const char* kOdd[] = {"e\xCC\x81", "\xEF\xAC\x81", "\xE2\x84\xAA" "a", "\xED\x95\x9C", "\xE1\x84\x92\xE1\x85\xA1\xE1\x86\xAB", "\xEF\xBD\x81\xEF\xBD\x82", "\xF0\x9F\x98\x80", "a\xF0\x9F\x98\x80" "b",
                             "\xC4\xB0", "\xC3\x9F", "a\xC2\xA0" "b", "\xE2\x80\x8B", "\xE2\x84\xAB", "\xEF\xBF\xBD", "\x01" "a", "a\xCC\x8A\xCC\x81", "\xF0\x9D\x94\x9E", "\xE3\x80\x80", "\xC3\x85" "e\xCC\x81" "a\xCC\x88"};

Profile gen_profile(Rng& r, const GenOpt& o) {
  Profile p;
  int fam = o.family >= 0 ? o.family : (int)r.below(r.p(1, 2) ? 6 : 5);
  if (o.dropout && fam != 1 && fam != 2 && fam != 4) fam = 1 + (int)r.below(2) * (r.p(1, 2) ? 1 : 3);
  static const char* names[] = {"bert-wordpiece", "bytelevel-bpe", "split-bpe", "sequence-wordpiece", "affix-bpe", "bytelevel-wordpiece"};
  p.family = names[fam];
  Doc d;
  Vocab v;
  std::string model, norm = "null", pre = "null", post = "null", dec = "null";
  bool specials_first = r.p(3, 4);
  std::vector<std::string> sp(kSpecials, kSpecials + 5);
  if (specials_first) for (auto& s : sp) v.add(s);
  const char* alpha[] = {"abcde", "abcdefgh", "eainost", "xyzi"};
  const char* al = alpha[r.below(4)];
  U A = w(al);
  p.alpha = al;
  std::vector<U> base = letters(r, al, r.range(4, 9), 1, 6);

  int filler = o.big ? o.big : r.p(1, 14) ? r.range(40, 400) : 0;
  for (int i = 0; i < filler / 2; i++) v.add("zy" + std::to_string(i * 7919 % 100003));
  if (fam == 0 || fam == 3 || fam == 5) {
    for (auto c : A) { v.add(u8({c})); v.add("##" + u8({c})); }
    for (const char* x : {"1", "2", ".", ",", "!", "'", "-", "?"}) v.add(x);
    for (const char* x : {"\xE4\xBD\xA0", "\xE5\xA5\xBD", "\xC3\xA9"}) if (r.p(2, 3)) v.add(x);
    v.add("##1");
    if (fam == 3 || r.p(1, 4)) for (const char* x : {"k", "K", "##k", "fi", "##fi", "\xC3\xA5", "\xC3\x85", "##\xC3\xA9", "\xED\x95\x9C", "a\xCC\x8A", "e\xCC\x81", "##\xCC\x81", "\xF0\x9F\x98\x80", "##\xF0\x9F\x98\x80"}) if (r.p(2, 3)) v.add(x);
    if (fam == 5) {
      v.add("\xC4\xA0");
      for (auto c : A) v.add("\xC4\xA0" + u8({c}));
      for (const char* x : {"\xC4\xA0\xC3\x83", "\xC3\x83", "##\xC2\xA9", "\xC4\xA0\xC4\xA0", "##\xC4\xA0", "\xC4\xA0" "1", "\xC4\x8A", "\xC4\xA0."}) if (r.p(1, 2)) v.add(x);
    }
    for (auto& b : base) {
      if (b.size() > 1 && r.p(3, 4)) {
        int k = r.range(1, (int)b.size());
        v.add(u8(U(b.begin(), b.begin() + k)));
        if (fam == 5) v.add("\xC4\xA0" + u8(U(b.begin(), b.begin() + k)));
        if (k < (int)b.size()) v.add("##" + u8(U(b.begin() + k, b.end())));
      }
    }
    if (!specials_first) for (auto& s : sp) v.add(s);
    for (int i = 0; i < filler - filler / 2; i++) v.add("yz" + std::to_string(i * 7919 % 100003));
    bool cased = r.p(1, 3);   // letters beyond ASCII that have two cases and no accent to strip
    if (cased)
      for (const char* x : {"\xCF\x89", "\xC3\xB8", "\xD0\xB6", "\xC3\xBE", "\xCE\xA9", "\xD0\x96"}) if (r.p(2, 3)) { v.add(x); v.add(std::string("##") + x); }
    int mx = r.p(3, 4) ? 100 : r.range(2, 8);
    model = with("WordPiece", "\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":" + std::to_string(mx) + ",\"vocab\":" + v.json(r));
    p.words = base;
    for (const char* x : {"1", "12", ".", "!", "a.b", "\xC3\xA9", "\xC3\x89" "a", "\xC3\xBC", "\xE4\xBD\xA0\xE5\xA5\xBD", "zq", "A", "Ea", "I", "i", "don't", "a-b"}) p.words.push_back(w(x));
    for (auto x : kOdd) if (r.p(1, fam == 3 ? 2 : 5)) p.words.push_back(w(x));
    if (cased)
      for (const char* x : {"\xCE\xA9", "\xCE\xA9\xCE\xA9\xCF\x89\xCE\xA9", "\xD0\x96\xD0\x96", "\xC3\x98" "a\xC3\x98", "\xC3\x9E\xCF\x89\xD0\x96", "\xD0\x96\xC3\x98\xD0\x96\xC3\x98\xCE\xA9\xCE\xA9\xC3\x9E\xC3\x98"}) if (r.p(2, 3)) p.words.push_back(w(x));
    if (fam == 0) {
      norm = r.p(1, 6) ? "null" : bert_norm(r);
      pre = with("BertPreTokenizer");
    } else if (fam == 5) {
      norm = r.p(1, 2) ? "null" : r.p(1, 2) ? bert_norm(r) : r.p(1, 2) ? prepend(r) : replace(r);
      for (const char* x : {"\xC4\xA0" "a", "\xC4\xA0", "a\xC4\xA0", "\n"}) if (r.p(1, 2)) p.words.push_back(w(x));
      pre = byte_level(r);
      int shape = (int)r.below(4);
      if (shape == 0) pre = seq("pretokenizers", {split("\\s", "Isolated"), pre});
      if (shape == 1) pre = r.p(1, 2) ? "null" : any_split(r);
    } else {
      std::vector<std::string> ns;
      static const char* nf[] = {"NFD", "NFC", "NFKC", "NFKD"};
      int k = r.range(1, 3);
      bool stripped = false;
      for (int i = 0; i < k; i++) {
        switch (r.below(7)) {
          case 0: ns.push_back(with(nf[r.below(4)])); break;
          case 1: if (!stripped) ns.push_back(with("Strip", std::string("\"strip_left\":") + (r.p(3, 4) ? "true" : "false") + ",\"strip_right\":" + (r.p(3, 4) ? "true" : "false"))); stripped = true; break;
          case 2: ns.push_back(with("StripAccents")); break;
          case 3: ns.push_back(bert_norm(r)); break;
          case 4: ns.push_back(with("Lowercase")); break;
          default: ns.push_back(r.p(1, 5) ? prepend(r) : replace(r)); break;
        }
      }
      norm = r.p(1, 4) ? ns[0] : seq("normalizers", ns);
      pre = r.p(1, 3) ? split("\\s+", "Removed") : seq("pretokenizers", {split("\\s+", "Removed"), r.p(1, 3) ? split("\\p{P}", "Isolated") : r.p(1, 2) ? any_split(r) : with("BertPreTokenizer")});
      if (r.p(1, 12)) pre = any_split(r);
    }
    post = r.p(1, 8) ? "null" : gen_template(r, v.add("[CLS]"), v.add("[SEP]"));
    if (fam == 5) {
      int k = (int)r.below(6);
      if (k < 3) post = byte_level(r);
      else if (k < 5) post = k == 3 ? seq("processors", {byte_level(r), post == "null" ? byte_level(r) : post}) : seq("processors", {post == "null" ? byte_level(r) : post, byte_level(r)});
    }
    if (fam == 5 && r.p(2, 3)) dec = with("ByteLevel", "\"add_prefix_space\":true");
    else dec = with("WordPiece", std::string("\"prefix\":\"##\",\"cleanup\":") + (r.p(1, 2) ? "true" : "false"));
  } else {
    p.bpe = true;
    bool bl = fam == 1;
    std::string pfx = fam == 4 && r.p(1, 2) ? "##" : "", sfx = fam == 4 && (pfx.empty() || r.p(1, 3)) ? "</w>" : "";
    p.prefix = pfx; p.suffix = sfx;
    U chars = A;
    for (auto c : w("12.,!'-")) chars.push_back(c);
    if (bl) {
      v.add("\xC4\xA0");
      if (r.p(1, 2)) for (const char* x : {"\xC3\x83", "\xC2\xA9", "\xC3\x83\xC2\xA9", "\xC3\xB0", "\xC3\xB0\xC5\x81", "\xC4\xBA", "\xC4\xA2", "\xC3\xA2\xC4\xA2", "\xC4\xA0\xC3\x83"}) if (r.p(1, 2)) v.add(x);
    }
    for (auto c : chars) {
      v.add(u8({c}));
      if (!pfx.empty()) v.add(pfx + u8({c}));
      if (!sfx.empty()) { v.add(u8({c}) + sfx); if (!pfx.empty()) v.add(pfx + u8({c}) + sfx); }
    }
    // merges that build the base words
    std::vector<std::string> merges;
    std::set<std::string> mh;
    for (auto& b : base) {
      if (b.size() < 2) continue;
      std::vector<std::string> parts;
      for (size_t i = 0; i < b.size(); i++) {
        std::string s = u8({b[i]});
        if (i && !pfx.empty()) s = pfx + s;
        if (i + 1 == b.size() && !sfx.empty()) s += sfx;
        parts.push_back(s);
      }
      if (bl && r.p(1, 2)) parts.insert(parts.begin(), "\xC4\xA0");
      int k = r.range(1, (int)parts.size());
      while (parts.size() > 1 && k-- > 0) {
        size_t i = r.below(parts.size() - 1);
        std::string l = parts[i], q = parts[i + 1];
        std::string n = l + (pfx.empty() ? q : q.substr(pfx.size()));
        if (n.size() > 40) break;
        if (mh.insert(l + " " + q).second) merges.push_back(l + " " + q);
        v.add(n);
        parts[i] = n;
        parts.erase(parts.begin() + i + 1);
      }
    }
    if (!specials_first) for (auto& s : sp) v.add(s);
    for (int i = 0; i < filler - filler / 2; i++) v.add("yz" + std::to_string(i * 7919 % 100003));
    std::string mj = "[";
    for (size_t i = 0; i < merges.size(); i++) { if (i) mj += ","; mj += js(merges[i]); }
    mj += "]";
    p.dropout = o.dropout;
    static const char* drops[] = {"0.1", "0.5", "0.9", "0.25"};
    bool unk = !o.dropout && r.p(2, 3);
    model = with("BPE", std::string("\"dropout\":") + (o.dropout ? drops[r.below(4)] : r.p(1, 2) ? "null" : "0.0") + ",\"unk_token\":" + (unk ? "\"[UNK]\"" : "null") +
                            ",\"continuing_subword_prefix\":" + (pfx.empty() ? "null" : js(pfx)) + ",\"end_of_word_suffix\":" + (sfx.empty() ? "null" : js(sfx)) +
                            ",\"fuse_unk\":" + (r.p(1, 2) ? "true" : "false") + ",\"byte_fallback\":" + (r.p(1, 6) ? "true" : "false") +
                            ",\"ignore_merges\":" + (!o.dropout && r.p(1, 4) ? "true" : "false") + ",\"vocab\":" + v.json(r) + ",\"merges\":" + mj);
    p.words = base;
    if (bl) {
      pre = with("ByteLevel", std::string("\"add_prefix_space\":") + (r.p(1, 2) ? "true" : "false") + ",\"trim_offsets\":true,\"use_regex\":" + (r.p(2, 3) ? "true" : "false"));
      if (r.p(1, 4)) pre = seq("pretokenizers", {split("\\s", "Isolated"), pre});
      std::string bp = with("ByteLevel", std::string("\"add_prefix_space\":") + (r.p(1, 2) ? "true" : "false") + ",\"trim_offsets\":" + (r.p(1, 2) ? "true" : "false") + ",\"use_regex\":true");
      int k = (int)r.below(4);
      post = k == 0 ? "null" : k == 1 ? bp : k == 2 ? r.p(2, 3) ? seq("processors", {bp, gen_template(r, v.add("[CLS]"), v.add("[SEP]"))}) : seq("processors", {gen_template(r, v.add("[CLS]"), v.add("[SEP]")), bp}) : gen_template(r, v.add("[CLS]"), v.add("[SEP]"));
      dec = r.p(3, 4) ? with("ByteLevel", "\"add_prefix_space\":true,\"trim_offsets\":true,\"use_regex\":true") : seq("decoders", {with("ByteLevel", "\"add_prefix_space\":true")});
      for (const char* x : {"1", "12", "a.", "!", "it's", "zq", "A", "I'll", "a-b", "B1"}) p.words.push_back(w(x));
    } else {
      static const char* res[] = {"\\s+", "\\s+|(?=\\p{P})", "[ \\t]+"};
      pre = split(res[r.below(3)], "Removed");
      if (r.p(1, 3)) pre = seq("pretokenizers", {pre, r.p(1, 2) ? split("\\p{P}", "Isolated") : any_split(r)});
      if (r.p(1, 16)) pre = "null";
      if (r.p(1, 3)) norm = prepend(r);
      else if (r.p(1, 4)) norm = replace(r);
      else if (r.p(1, 4)) { static const char* nf[] = {"NFD", "NFC", "NFKC", "NFKD", "StripAccents"}; norm = with(nf[r.below(5)]); }
      else if (r.p(1, 3)) norm = bert_norm(r);
      post = r.p(1, 2) ? "null" : gen_template(r, v.add("[CLS]"), v.add("[SEP]"));
      dec = r.p(1, 2) ? with("WordPiece", "\"prefix\":\"##\",\"cleanup\":false") : with("ByteLevel", "\"add_prefix_space\":true");
      for (const char* x : {"1", "12", "a.", "!", "zq", "A", "\xC3\xA9", "a-b"}) p.words.push_back(w(x));
      for (auto x : kOdd) if (r.p(1, 4)) p.words.push_back(w(x));
    }
  }
  p.nids = (int)v.toks.size();
  p.vocab = v.toks;
  // added tokens: the specials, and sometimes others
  std::string at = "[";
  int n = 0;
  bool many = r.p(1, 12), sparse = r.p(1, 8);
  for (size_t i = 0; i < v.toks.size(); i++) {
    bool s = std::find(sp.begin(), sp.end(), v.toks[i]) != sp.end();
    bool extra = !s && o.added && r.p(1, many ? 3 : 20) && v.toks[i].size() > 1 && v.toks[i][0] >= 'a' && v.toks[i][0] <= 'z';
    if (!s && !extra) continue;
    if (n++) at += ",";
    at += added(r, (int)i, v.toks[i], s, r.p(1, 6), r.p(1, 6), r.p(1, 6), extra ? r.p(1, 2) : r.p(1, 12), sparse);
  }
  if (o.added && r.p(1, 4)) { if (n++) at += ","; at += added(r, p.nids, "<extra>", false, false, r.p(1, 3), r.p(1, 3), r.p(1, 2), sparse); }
  at += "]";
  d.top = {{"version", "\"1.0\""}, {"truncation", gen_truncation(r)}, {"padding", gen_padding(r)}, {"added_tokens", at}, {"normalizer", norm},
           {"pre_tokenizer", pre}, {"post_processor", post}, {"decoder", dec}, {"model", model}};
  p.json = d.str(r, o.layout);
  for (auto& s : {"[MASK]", "[SEP]", "[PAD]"}) p.words.push_back(w(s));
  return p;
}

// a configuration that is nearly another one
static size_t string_end(const std::string& j, size_t i) { for (i++; i < j.size() && j[i] != '"'; i++) if (j[i] == '\\') i++; return i; }
Profile gen_twin(Rng& r, Profile p) {
  int n = r.p(2, 3) ? 1 : 2;
  while (n-- > 0) {
    std::string& j = p.json;
    struct At { int kind; size_t a, b; };
    std::map<int, std::vector<At>> at;   // by kind, so that a vocabulary does not drown the rest
    std::string key;
    bool vocab = false, merges = false;
    for (size_t i = 0; i < j.size(); i++) {
      char ch = j[i];
      if (ch == '"') {
        size_t e = string_end(j, i);
        std::string s = j.substr(i + 1, e - i - 1);
        size_t k = e + 1;
        while (k < j.size() && (j[k] == ' ' || j[k] == '\n')) k++;
        bool is_key = k < j.size() && j[k] == ':';
        if (is_key) {
          key = s;
          if (vocab) at[1].push_back({1, i + 1, e});
          if (s == "vocab" && !vocab) vocab = true;
          if (s == "merges") merges = true;
        } else if (merges) at[2].push_back({2, i, e + 1});
        else if (key == "Regex") at[3].push_back({3, i + 1, e});
        else if (key == "String" || key == "content" || key == "prepend" || key == "pad_token" || key == "prefix" || key == "unk_token") at[4 + (key == "content")].push_back({4, i + 1, e});
        i = e;
      } else if (ch == '}' && vocab) vocab = false;
      else if (ch == ']' && merges) merges = false;
      else if (j.compare(i, 4, "true") == 0) at[6].push_back({6, i, i + 4});
      else if (j.compare(i, 5, "false") == 0) at[6].push_back({6, i, i + 5});
      else if (ch >= '0' && ch <= '9' && i && j[i - 1] != '.') {
        size_t e = i;
        while (e < j.size() && j[e] >= '0' && j[e] <= '9') e++;
        if (!(e < j.size() && j[e] == '.')) at[vocab ? 7 : 8].push_back({vocab ? 7 : 8, i, e});
        i = e - 1;
      }
    }
    if (at.empty()) return p;
    auto it = at.begin();
    std::advance(it, r.below(at.size()));
    auto& l = it->second;
    At x = r.pick(l);
    auto put = [&](const At& q, const std::string& s) { j.replace(q.a, q.b - q.a, s); };
    std::string cur = j.substr(x.a, x.b - x.a);
    switch (x.kind) {
      case 1: case 7: case 2: {   // two tokens, ids or merges exchanged
        At y = r.pick(l);
        if (x.a == y.a) { if (x.kind == 1) put(x, cur + "q"); break; }
        if (x.a > y.a) std::swap(x, y);
        std::string a = j.substr(x.a, x.b - x.a), b = j.substr(y.a, y.b - y.a);
        put(y, a);
        put(x, b);
        break;
      }
      case 3: { static const char* alt[] = {"|a", "|e", "|[bc]", "|\\\\d"}; put(x, cur + alt[r.below(4)]); break; }
      case 4: { static const char* more[] = {"a", "e", "#", " "}; put(x, !cur.empty() && cur.back() != '\\' && (cur.back() & 0x80) == 0 && r.p(1, 3) && cur.size() > 1 && cur.find('\\') == std::string::npos ? cur.substr(0, cur.size() - 1) : cur + more[r.below(4)]); break; }
      case 6: put(x, cur == "true" ? "false" : "true"); break;
      case 8: { long v = atol(cur.c_str()); put(x, std::to_string(v > 0 && r.p(1, 2) ? v - 1 : v + 1)); break; }
    }
  }
  return p;
}

std::vector<uint32_t> gen_text(Rng& r, const Profile& p, int maxwords) {
  U t;
  int n = r.range(1, maxwords);
  int odd = (int)r.below(80);
  if (odd < 2) n = 0;
  if (odd == 2) { t.assign(r.range(1, 4), ' '); n = 0; }
  if (odd == 3) { t.push_back(' '); }
  if (odd >= 4 && odd < 8 && maxwords > 4) n = r.range(10, 30);
  // one word of the whole of the text
  bool glued = odd >= 8 && odd < 12;
  if (glued && maxwords > 4) n = r.range(3, 24);
  for (int i = 0; i < n; i++) {
    if (i && !glued) t.push_back(r.p(1, 15) ? '\t' : ' ');
    if (!glued && r.p(1, 30)) t.push_back(' ');
    U x = r.pick(p.words);
    if (r.p(1, 6)) { U y = r.pick(p.words); x.insert(x.end(), y.begin(), y.end()); }
    if (r.p(1, 12)) x.push_back(r.p(1, 2) ? '.' : ',');
    t.insert(t.end(), x.begin(), x.end());
  }
  if (odd == 12) t.push_back(' ');
  return t;
}

// the same call with an argument of up to max units
void lengthen(Rng& r, const Profile& p, Op* o, int max) {
  size_t n = r.range(max / 10, max);
  if (o->kind == O_ENCODE) {
    U t = o->text, unit = t;
    if (r.p(1, 4) && t.size()) unit = {t[r.below(t.size())]};
    else if (r.p(1, 4)) unit = {' ', 'a'};
    else if (r.p(1, 2)) { U al = w(p.alpha.c_str()); unit = {r.pick(al)}; }
    bool pure = r.p(1, 2);
    // without a blank some stages are quadratic in the length
    bool blank = std::find(unit.begin(), unit.end(), ' ') != unit.end();
    if (!blank && r.p(1, 2)) unit.push_back(' '), blank = true;
    if (!blank && p.bpe) n = std::min<size_t>(n, 3000);
    if (unit.empty()) return;
    U big;
    while (big.size() < n) {
      if (!pure && r.p(1, 3)) { U x = gen_text(r, p, 4); x.push_back(' '); big.insert(big.end(), x.begin(), x.end()); }
      big.insert(big.end(), unit.begin(), unit.end());
    }
    t.insert(t.begin() + r.below(t.size() + 1), big.begin(), big.end());
    o->text = t;
  } else if (o->kind == O_DECODE) {
    while (o->ids.size() < n) o->ids.push_back((int)r.below(p.nids));
  }
}

// a text that is nearly another one
std::vector<uint32_t> vary_text(Rng& r, const Profile& p, std::vector<uint32_t> t) {
  std::vector<std::pair<size_t, size_t>> ws;
  for (size_t i = 0; i < t.size();) {
    while (i < t.size() && t[i] == ' ') i++;
    size_t a = i;
    while (i < t.size() && t[i] != ' ') i++;
    if (i > a) ws.push_back({a, i});
  }
  switch (r.below(8)) {
    case 0: { U x = r.pick(p.words); t.push_back(' '); t.insert(t.end(), x.begin(), x.end()); break; }
    case 1: { U x = r.pick(p.words); x.push_back(' '); t.insert(t.begin(), x.begin(), x.end()); break; }
    case 2: if (!t.empty()) t.resize(r.below(t.size())); break;
    case 3: if (!t.empty()) t[r.below(t.size())] = r.pick(r.pick(p.words)); break;
    case 4: if (!t.empty()) t.back() = r.pick(r.pick(p.words)); break;
    case 5: if (ws.size() > 1) {   // two words exchanged
      auto a = r.pick(ws), b = r.pick(ws);
      if (a.first > b.first) std::swap(a, b);
      if (a.first == b.first) break;
      U x(t.begin() + a.first, t.begin() + a.second), y(t.begin() + b.first, t.begin() + b.second), mid(t.begin() + a.second, t.begin() + b.first);
      U o(t.begin(), t.begin() + a.first);
      for (auto* q : {&y, &mid, &x}) o.insert(o.end(), q->begin(), q->end());
      o.insert(o.end(), t.begin() + b.second, t.end());
      t = o;
    } break;
    case 6: for (auto& c : t) if (r.p(1, 6)) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } break;
    default: { U x = t; if (t.size() < 60) { if (r.p(1, 2)) t.push_back(' '); t.insert(t.end(), x.begin(), x.end()); } break; }
  }
  return t;
}

std::vector<int> gen_ids(Rng& r, const Profile& p, int extra) {
  std::vector<int> o;
  int n = r.p(1, 30) ? r.range(20, 60) : r.range(0, 8);
  for (int i = 0; i < n; i++) o.push_back(extra && r.p(1, 4) ? p.nids + (int)r.below(extra) : (int)r.below(p.nids));
  return o;
}

std::vector<Tok> gen_toks(Rng& r, const Profile& p, int maxn) {
  std::vector<Tok> o;
  static const char* names[] = {"<extra>", "<x1>", "<x2>", "<new>", "[NEW]", "<x1>", "qq", "<y>", "<z1>", "<z2>", "<longer-token-with-many-bytes>", "\xC3\xA9\xC3\xA9"};
  int n = r.range(1, maxn);
  if (r.p(1, 16)) n += r.range(4, 16);
  for (int i = 0; i < n; i++) {
    Tok t;
    if (r.p(1, 4)) t.content = u8(r.pick(p.words));
    else if (r.p(1, 12) && !p.vocab.empty()) t.content = p.vocab[r.below(p.vocab.size())];
    else if (r.p(1, 6)) t.content = kSpecials[r.below(5)];
    else if (r.p(1, 5)) t.content = "<n" + std::to_string(r.below(30)) + ">";
    else t.content = names[r.below(sizeof names / sizeof *names)];
    if (r.p(1, 25)) t.content = "";
    t.single = r.p(1, 6); t.lstrip = r.p(1, 6); t.rstrip = r.p(1, 6); t.normalized = r.p(1, 2); t.special = r.p(1, 3);
    o.push_back(t);
  }
  return o;
}
