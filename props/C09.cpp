// A parse result is all or nothing, and all entry points agree.
#include <cstring>

#include "aspects.h"
#include "constants.h"
#include "explore.h"
#include "families.h"

const char* const kProperty = "C09";

using hsql::SQLParser;
using hsql::SQLParserResult;

std::string check(const Case& c) {
  const std::string& text = c.args[0];
  SQLParserResult a;
  const bool ra = SQLParser::parse(text, &a);
  std::string d = all_or_nothing(a, ra);
  if (!d.empty()) return "parse: " + d;
  const std::string expected = impl::dump(a);
  Engine::outcome(expected);

  SQLParserResult b;
  d = all_or_nothing(b, SQLParser::parseSQLString(text, &b));
  if (!d.empty()) return "parseSQLString(string): " + d;
  if (impl::dump(b) != expected) return "parseSQLString(string) differs from parse\nexpected " + expected + "\ngot " + impl::dump(b);

  SQLParserResult p;
  const std::string cut = text.substr(0, text.find('\0'));  // what a C string can pass
  d = all_or_nothing(p, SQLParser::parseSQLString(cut.c_str(), &p));
  if (!d.empty()) return "parseSQLString(char*): " + d;
  if (cut.size() == text.size()) {
    if (impl::dump(p) != expected) return "parseSQLString(char*) differs from parse\nexpected " + expected + "\ngot " + impl::dump(p);
  } else {
    SQLParserResult q;
    SQLParser::parse(cut, &q);
    if (impl::dump(p) != impl::dump(q)) return "parseSQLString(char*) differs from parse\nexpected " + impl::dump(q) + "\ngot " + impl::dump(p);
  }

  // Into results that were used and reset: after a valid and after an invalid text.
  for (const char* earlier : {"SELECT ?, a FROM t; DELETE FROM u", "SELECT a FROM t WHERE ? = 'x"}) {
    SQLParserResult r;
    SQLParser::parse(earlier, &r);
    r.reset();
    d = all_or_nothing(r, SQLParser::parse(text, &r));
    if (!d.empty()) return "parse into a reset result: " + d;
    if (impl::dump(r) != expected) return "parse into a reset result differs\nexpected " + expected + "\ngot " + impl::dump(r);
  }
  // Into a result that still holds statements: what it says is about the last text, whose statements come last.
  for (const char* earlier : {"SELECT a", "SELECT ?, a FROM t; DELETE FROM u", "SELECT a; SELECT b; DROP TABLE c"}) {
    if (text.size() > 100000) break;
    SQLParserResult r;
    SQLParser::parse(earlier, &r);
    const size_t before = r.size();
    if (!SQLParser::parse(text, &r)) return "parse into a used result: returned false";
    if (r.isValid() != a.isValid()) return std::string("parse into a result that holds statements: it is ") + (a.isValid() ? "not " : "") + "valid";
    const std::string got = r.errorMsg() ? r.errorMsg() : "(none)", want = a.errorMsg() ? a.errorMsg() : "(none)";
    if (got != want || r.errorLine() != a.errorLine() || r.errorColumn() != a.errorColumn())
      return "parse into a result that holds statements: another error\nexpected " + want + " " + std::to_string(a.errorLine()) + ":" + std::to_string(a.errorColumn()) + "\ngot " + got + " " + std::to_string(r.errorLine()) + ":" + std::to_string(r.errorColumn());
    if (!a.isValid()) continue;
    if (r.size() != before + a.size()) return "parse into a result that holds " + std::to_string(before) + " statements: it holds " + std::to_string(r.size()) + " then";
    std::string x, y;
    for (size_t i = 0; i < a.size(); ++i) {
      x += impl::dump(a.getStatement(i)) + "\n";
      y += impl::dump(r.getStatement(before + i)) + "\n";
    }
    if (x != y) return "parse into a result that holds statements: others are added\nexpected " + x + "\ngot " + y;
  }
  return "";
}

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  Tokens bytes;
  for (int c = 0; c < 256; ++c) bytes.push_back(std::string(1, char(c)));
  strings(e, bytes, 2, run("bytes"));
  for (int c = 0; c < 256; ++c) {
    if (!e.mine()) continue;
    for (const char* p : {"SELECT a", "SELECT ?; SELECT ?", "SELECT 'x", "SELECT 1.", "DELETE FROM t WHERE ?"})
      for (size_t at = 0; at <= strlen(p); ++at) e.run(Case("byte inserted", std::string(p).insert(at, 1, char(c))));
  }
  trie(e, "", alphabet(), 3, run("all tokens"));
  if (deep) trie(e, "", alphabet(), 4, run("all tokens"));
  // Errors in each statement of a list, with placeholders and statements before them.
  const Tokens stmts = {"SELECT ?", "SELECT a", "DELETE FROM t WHERE ?", "DROP TABLE t", "INSERT INTO t VALUES ( ? )", "CREATE TABLE t ( a INT NULL NOT NULL )", "COPY t FROM 'a' ( ENCODING 'x' , ENCODING 'y' )", "SELECT INTERVAL 'x'",
                        "SELECT DATE 'x'", "CREATE TABLE t FROM CSV FILE 'x'", "SELECT", "SELECT 99999999999999999999", "SELECT 'x", "$", ";", ")", "( SELECT ? )", "-- c\n", "EXECUTE p ( ? )", "COPY t FROM 'f' WHERE ?", "SELECT ? ?", "\n"};
  trie(e, "", stmts, 1, run("statement lists"));
  for (auto& x : stmts)
    for (auto& y : stmts) {
      if (!e.mine()) continue;
      for (const char* sep : {";", " ; ", " ", ";;"}) {
        e.run(Case("statement lists", x + sep + y));
        for (auto& z : stmts) {
          e.run(Case("statement lists", x + sep + y + sep + z));
          if (deep)
            for (auto& w : stmts) e.run(Case("statement lists", x + sep + y + sep + z + sep + w));
        }
      }
    }
  // Texts of every size class.
  for (auto& f : families()) {
    if (!e.mine()) continue;
    for (size_t n : family_sizes(f.nested ? 1000 : deep ? 100000 : 2000, deep ? 70 : 20)) {
      e.run(Case("families", f.text(n)));
      if (n > 1000) e.run(Case("families", f.text(n) + " FROM FROM"));
    }
  }
  for (size_t n : {255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 131072, 200000, 262144, 1048576}) {
    for (const char* end : {"", "FROM t", "FROM", "$", "'", "; SELECT ?", ";", ")"}) {
      if (!e.mine()) continue;
      e.run(Case("long texts", "SELECT a" + std::string(n, ' ') + end));
      e.run(Case("long texts", "SELECT a --" + std::string(n, 'c') + "\n" + end));
      e.run(Case("long texts", "SELECT '" + std::string(n, 's') + "' " + end));
      e.run(Case("long texts", std::string(n, '\n') + "SELECT a " + end));
      e.run(Case("long texts", "SELECT a" + std::string(n, 'b') + " " + end));
      e.run(Case("long texts", "SELECT \"" + std::string(n, 'q') + "\" " + end));
    }
  }
  for (const char* s : {"SELECT a", "SELECT 'x", "SELECT a FROM", "DELETE FROM t WHERE ?"})
    for (size_t n : {size_t(1) << 23, (size_t(1) << 24) - 9, size_t(1) << 24}) {
      if (!e.mine()) continue;
      e.run(Case("long texts", s + std::string(n, ' ')));
      e.run(Case("long texts", "--" + std::string(n, ' ') + "\n" + s));
    }
  contradictions(e, 3 + deep, run("contradictions"));
  for (auto& t : constructs(ALL_KINDS)) {
    if (!e.mine()) continue;
    std::string s;
    for (size_t p = 0; p < t.size(); ++p) {
      s += (p ? " " : "") + t[p];
      for (const char* z : {"", ";", " $", " ,", " )", " a", " 1", " '"}) e.run(Case("constructs", s + z));
    }
    substitute(t, [&](const Tokens& m) { e.run(Case("constructs", join(m))); });
    for (const char* other : {"SELECT ?", "DROP TABLE t", "SELECT FROM"}) {
      e.run(Case("constructs", s + ";" + other));
      e.run(Case("constructs", std::string(other) + ";" + s));
    }
  }
  GenOptions o;
  o.params = true;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (auto& t : bases(ALL_KINDS, o, full && !deep ? 0 : 1)) {
      if (!e.mine()) continue;
      mutate(t, deep ? alphabet() : Tokens{"a", "1", "'s'", "SELECT", "FROM", "(", ")", ",", ";", "?", "=", "AND", "NULL", "INT", "AS", "JOIN", "ON", "$", "'", "NOT", "IF", "WITH", "ORDER", "UNION"},
             [&](const Tokens& m) {
               e.run(Case("changed derivations", join(m)));
             });
      const std::string s = join(t);
      for (size_t p = 0; p < s.size(); ++p) e.run(Case("truncated derivations", "SELECT ?; " + s.substr(0, p)));
    }
    sentences(e, ALL_KINDS, o, full && !deep ? 1 : 2, [&](const Tokens& t) { e.run(Case("derivations", join(t) + ";" + join(t))); });
  }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) {
    e.run(Case(phase, s));
    e.run(Case(phase, s + ";"));
  });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["contradictions"] = contradictions_bounds(3 + thorough);
  b["texts"] = thorough ? "all texts of up to 2 bytes, all token sequences up to 4, all lists of up to 4 of 22 statements and errors, every single-token change of all derivations with 1 non-default choice"
                        : "all texts of up to 2 bytes, all token sequences up to 3, all lists of up to 3 of 22 statements and errors, single-token changes (24 spellings) of derivations with 1 (full profile 0) non-default choices, every truncation";
  b["long texts"] = "white space, comments, strings and names of 21 sizes up to 1048576 bytes, behind or in front of 8 endings; every family of lists up to 2000 (thorough: 100000) items and of nestings up to 1000 levels";
  b["constructs"] = "a text of each of " + std::to_string(constructs(~0u).size()) + " constructs, cut behind every token with 8 endings, with every name, number and string replaced by 79, 80 and 69 others, in lists with 3 statements";
  b["entry points"] = "parse, parseSQLString(string), parseSQLString(char*), parse into a result reset after a valid and after an invalid text, parse into a result that holds 1, 2 and 3 statements (texts up to 100000 bytes)";
}
