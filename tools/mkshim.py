#!/usr/bin/env python3
"""Writes the two patched system headers the harness compiles /repo with.

simdjson.h       the installed 3.6.4 plus ondemand::field::escaped_key(), which
                 /repo calls and which newer releases have (the raw key text
                 between the quotes), and a check of the one allocation whose
                 failure simdjson overlooks.
bits/basic_string.tcc
                 without the extern template instantiations of basic_string, so
                 that string code is compiled - and instrumented - with /repo.
"""
import os, re, sys

def simdjson(src):
    decl = "  simdjson_inline raw_json_string key() const noexcept;\n"
    n = src.count(decl)
    assert n > 0
    src = src.replace(decl, decl + "  simdjson_inline std::string_view escaped_key() const noexcept;\n")
    rdecl = "  simdjson_inline simdjson_result<std::string_view> unescaped_key(bool allow_replacement = false) noexcept;\n"
    assert src.count(rdecl) == n
    src = src.replace(rdecl, rdecl + "  simdjson_inline simdjson_result<std::string_view> escaped_key() noexcept;\n")
    d = "simdjson_inline raw_json_string field::key() const noexcept {"
    assert src.count(d) == n
    body = """simdjson_inline std::string_view field::escaped_key() const noexcept {
  const char *b = reinterpret_cast<const char *>(first.buf);
  const char *e = b;
  while (*e != '"') { e += (*e == '\\\\') ? 2 : 1; }
  return std::string_view(b, static_cast<size_t>(e - b));
}

"""
    src = src.replace(d, body + d)
    pat = re.compile(r"simdjson_inline simdjson_result<std::string_view> simdjson_result<(\w+)::ondemand::field>::unescaped_key\(bool allow_replacement\) noexcept \{")
    assert len(pat.findall(src)) == n
    src = pat.sub(lambda m: "simdjson_inline simdjson_result<std::string_view> simdjson_result<%s::ondemand::field>::escaped_key() noexcept {\n  if (error()) { return error(); }\n  return first.escaped_key();\n}\n" % m.group(1) + m.group(0), src)
    # simdjson itself does not notice when this allocation fails
    a = "  string_buf.reset(new (std::nothrow) uint8_t[string_capacity]);\n"
    assert src.count(a) == n
    src = src.replace(a, a + "  if (!string_buf) { return MEMALLOC; }\n")
    return src

def tcc(src):
    for t in ("char", "wchar_t"):
        s = "  extern template class basic_string<%s>;\n" % t
        assert s in src
        src = src.replace(s, "")
    # operator>>, getline and friends stay in libstdc++; these two build strings
    return src

def main(out):
    os.makedirs(out + "/bits", exist_ok=True)
    todo = [("/usr/include/simdjson.h", "simdjson.h", simdjson)]
    import glob
    g = sorted(glob.glob("/usr/include/c++/*/bits/basic_string.tcc"))[-1]
    todo.append((g, "bits/basic_string.tcc", tcc))
    for src, dst, fn in todo:
        new = fn(open(src).read())
        p = os.path.join(out, dst)
        if not os.path.exists(p) or open(p).read() != new:
            open(p, "w").write(new)

if __name__ == "__main__":
    main(sys.argv[1])
