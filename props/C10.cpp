// The error position points at the offending token.
#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C10";

// One text: the position lies within the token that cannot continue it. Two texts: the second one is the first behind
// a valid statement, or in another layout, in which the position is shifted by that alone.
std::string check(const Case& c) {
  const ref::Result x = ref::parse(c.args[0]);
  hsql::SQLParserResult a, b;
  bool returned = hsql::SQLParser::parse(c.args[0], &a);
  std::string d = judge(c.args[0], x, a, returned, A_POS);
  if (!d.empty() || c.args.size() < 2) return d;
  const ref::Result y = ref::parse(c.args[1]);
  returned = hsql::SQLParser::parse(c.args[1], &b);
  d = judge(c.args[1], y, b, returned, A_POS);
  if (!d.empty()) return d;
  if (a.isValid() || b.isValid() || x.grey || y.grey) return "";
  // Offset within the offending token (or the last one, at the end of the text) must be the same.
  auto offset = [](const std::string& s, const ref::Result& r, hsql::SQLParserResult& p, long* out) {
    size_t start = 0;
    for (int l = 0; l < p.errorLine(); ++l) {
      start = s.find('\n', start);
      if (start == std::string::npos) return false;
      ++start;
    }
    if (r.semantic || r.toks[r.err_tok].kind == ref::K_EOF) {
      // Semantic errors and the end of the text: only the token that is meant is compared.
      const size_t pos = start + size_t(p.errorColumn());
      long n = 0;
      for (size_t i = 0; i < r.toks.size(); ++i)
        if (r.toks[i].beg <= pos) n = long(i);
      *out = n - long(r.err_tok);
      if (!r.semantic) *out = 0;
      return true;
    }
    *out = long(start) + p.errorColumn() - long(r.toks[r.err_tok].beg);
    return true;
  };
  long p = 0, q = 0;
  if (!offset(c.args[0], x, a, &p)) return "error line beyond the text";
  if (!offset(c.args[1], y, b, &q)) return "error line beyond the text";
  auto spelling = [](const std::string& s, const ref::Result& r) { return s.substr(r.toks[r.err_tok].beg, r.toks[r.err_tok].end - r.toks[r.err_tok].beg); };
  if (spelling(c.args[0], x) != spelling(c.args[1], y)) return "";  // the layout is inside of the malformed token
  if (x.semantic != y.semantic || (x.toks[x.err_tok].kind != y.toks[y.err_tok].kind)) return "";
  if (p != q)
    return "the error position moved from " + std::to_string(a.errorLine()) + ":" + std::to_string(a.errorColumn()) + " to " + std::to_string(b.errorLine()) + ":" + std::to_string(b.errorColumn()) +
           ", which is not the layout's shift";
  return "";
}

static const Tokens kSeps = {"  ", "\n", "\t", "\r\n", "\n\n", "-- c\n", "--\n\n", "\n -- x\n  ", "\r", " --\xc3\xa4\n\t", "\f", "\v", " --\xff\t\xe2\x82\xac\r\n", "\n\t\t"};
static const Tokens kBefore = {"SELECT a;", "SELECT a;\n", "SELECT 'x\ny';", "SELECT 'x''\n\ny' ; ", "-- c\n", "\n\n", "   ", "SELECT a -- d\n;\n", "SELECT \"q\", 'a\n b' FROM t;\t", "\r\n", "SELECT 1;SELECT 2;\n", "SELECT CURRENT_ROW,\nb;",
                               "SELECT f ( a ) OVER ( ROWS CURRENT\nROW ) ;", "CREATE TABLE t ( a CHARACTER\n\nVARYING ( 3 ) );", "SELECT '';", "SELECT '\xc3\xa4\xe2\x82\xac';", "SELECT \"\xf0\x9f\x98\x80\xff\" ;",
                               "SELECT '\t', \"\t\x80\";", "SELECT 'a\r\nb''\xc3\xa4';", "SELECT \"a''b\", 'c\"d' ;\t", "SELECT 1.50, .5, 5., 0x;"};

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  Tokens bytes;
  for (int c = 0; c < 256; ++c) bytes.push_back(std::string(1, char(c)));
  strings(e, bytes, 1 + deep, run("bytes"));
  strings(e, bytes, 1, [&](const std::string& s) {
    for (const char* p : {"SELECT % a", "SELECT a\n%", "SELECT 'x\n' % FROM", "SELECT \"a\" %", "%\n", "-- c\n %", "SELECT a FROM t %", "SELECT 1%", "SELECT\n\n a %%", "INSERT INTO t VALUES (%"}) {
      std::string x = p;
      for (size_t i = x.find('%'); i != std::string::npos; i = x.find('%', i + 1)) x.replace(i, 1, s);
      e.run(Case("bytes", x));
    }
  });
  trie(e, "", alphabet(), 3 + deep, run("all tokens"));
  for (const char* p : {"SELECT 'a\nb' ,\n", "-- c\nSELECT a\nFROM t", "SELECT a;\n\nSELECT b\tWHERE", "SELECT f ( a ) OVER ( ROWS CURRENT\nROW ) AS"}) trie(e, p, alphabet(), 3, run("behind several lines"));
  const Tokens pieces = {"a", "'x'", "'\xc3\xa4'", "\"\xe2\x82\xac\"", "--\xc3\xa4\n", "\xff", "\f", "", "'x\ny'", "\n", "--c\n", " ", "\t", ",", "(", "\"q\"", "$", "'", "\"", ";", "SELECT", "\r", "CURRENT\nROW", "1.5", "99999999999999999999"};
  strings(e, pieces, 4 + deep, [&](const std::string& s) { e.run(Case("characters", "SELECT " + s)); });

  GenOptions o;
  o.extra = true;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.extra = false;
    for (auto& t : bases(ALL_KINDS, o, full && !deep ? 0 : 1)) {
      size_t n = 0, quick = 0;
      mutate(t, alphabet(), [&](const Tokens& m) {
        if (!e.mine()) return;
        const std::string base = join(m);
        e.run(Case("changed derivations", base));
        if (!deep && ++quick % 4) return;
        // In turn over the separators, so that every separator meets every position.
        e.run(Case("changed derivations", base, join(m, kSeps[n % kSeps.size()].c_str())));
        e.run(Case("changed derivations", base, kBefore[n % kBefore.size()] + base));
        ++n;
      });
    }
    // A few changes in every layout.
    for (auto& t : bases(ALL_KINDS, o, 0)) {
      mutate(t, {"$", "FROM", ")", "'s\nt'", "'", "1", "AND", "\"a b\""}, [&](const Tokens& m) {
        if (!e.mine()) return;
        const std::string base = join(m);
        for (auto& sep : kSeps) {
          for (size_t g = 1; g < m.size(); ++g) {
            std::string s;
            for (size_t i = 0; i < m.size(); ++i) s += (i == 0 ? "" : i == g ? sep : " ") + m[i];
            e.run(Case("one gap", base, s));
          }
          for (auto& b : kBefore) e.run(Case("preceding text", base, b + join(m, sep.c_str())));
          e.run(Case("preceding text", base, base + sep));
        }
        for (auto& b : kBefore)
          for (auto& b2 : kBefore)
            if (deep || &b == &b2 || (&b - &kBefore[0] + &b2 - &kBefore[0]) % 4 == 0) e.run(Case("preceding text", base, b + b2 + base));
      });
    }
  }
  contradictions(e, 3 + deep, [&](const std::string& s) { e.run(Case("contradictions", s)); });
  for (auto& t : constructs(ALL_KINDS)) {
    if (!e.mine()) continue;
    size_t n = 0;
    mutate(t, deep ? alphabet() : Tokens{"a", "1", "'s'", "SELECT", "FROM", "(", ")", ",", ";", "?", "=", "AND", "NULL", "INT", "AS", "JOIN", "ON", "$", "'", "NOT", "IF", "WITH", "ORDER", "UNION"}, [&](const Tokens& m) {
      const std::string base = join(m);
      e.run(Case("changed constructs", base));
      e.run(Case("changed constructs", base, join(m, kSeps[n % kSeps.size()].c_str())));
      e.run(Case("changed constructs", base, kBefore[n % kBefore.size()] + base));
      ++n;
    });
    substitute(t, [&](const Tokens& m) { e.run(Case("changed constructs", join(m) + " ) a")); });
    substitute_lengths(t, {30, 31, 32, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513}, [&](const Tokens& m) {
      e.run(Case("changed constructs", join(m) + " ) a"));
      e.run(Case("changed constructs", join(m) + " $"));
    });
  }
  // Long lines and many lines.
  for (size_t n : {1, 2, 9, 10, 11, 63, 64, 65, 79, 80, 81, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 16384, 32767, 32768, 65535, 65536, 70000, 100000}) {
    if (!e.mine()) continue;
    std::string stmts, list = "SELECT a";
    for (size_t i = 0; i < n && n <= 10000; ++i) {
      stmts += "SELECT a;\n";
      list += ", a";
    }
    for (const std::string& err : {"SELECT a FROM WHERE", "SELECT $", "SELECT", "SELECT 'x", "SELECT a b c", "SELECT (\n\n a ))"}) {
      e.run(Case("long texts", err, std::string(n, '\n') + err));
      e.run(Case("long texts", err, std::string(n, ' ') + err));
      e.run(Case("long texts", err, "--" + std::string(n, 'c') + "\n" + err));
      e.run(Case("long texts", err, "SELECT '" + std::string(n, 's') + "'; " + err));
      e.run(Case("long texts", err, "SELECT '" + std::string(n, '\n') + "'; " + err));
      e.run(Case("long texts", err, "SELECT '" + std::string(n, '\xc3') + "'; " + err));
      e.run(Case("long texts", err, "SELECT a" + std::string(n, '\t') + "; " + err));
      e.run(Case("long texts", err, "SELECT a" + std::string(n, '\r') + "; " + err));
      e.run(Case("long texts", err, "SELECT a" + std::string(n, ' ') + "; " + err));
      e.run(Case("long texts", err, "SELECT " + std::string(n, 'i') + "; " + err));
      e.run(Case("long texts", err, "SELECT \"" + std::string(n, 'q') + "\"; " + err));
      if (n <= 10000) e.run(Case("long texts", err, stmts + err));
      e.run(Case("long texts", err, "SELECT 1." + std::string(n, '0') + "; " + err));
    }
    if (n <= 10000) e.run(Case("long texts", list + " FROM FROM"));
  }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) {
    if (phase == kDeep) return;
    e.run(Case(phase, s));
    e.run(Case(phase, s + " ) a"));
    e.run(Case(phase, s + "\n$"));
  });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["contradictions"] = contradictions_bounds(3 + thorough);
  b["changed derivations"] = "every single-token change (176 spellings) of derivations with 1 (full profile, quick: 0) non-default choices, each (quick: every fourth) also with one of 14 separators throughout and behind one of 21 texts";
  b["changed constructs"] = "a text of each of " + std::to_string(constructs(~0u).size()) + " constructs with every single-token change (" + (thorough ? "176" : "24") + " spellings), plain, with one of 14 separators and behind one of 21 texts; every name, number and string replaced by 79, 80, 69 others and by 17 lengths in front of an error";
  b["layouts"] = "8 changes of 28 texts with every separator in every gap, and behind every one and two of 21 preceding texts";
  b["long texts"] = "lines, columns, strings, names, comments, statements of 39 sizes up to 100000";
  b["all tokens"] = thorough ? "up to 4 tokens" : "up to 3 tokens";
}
