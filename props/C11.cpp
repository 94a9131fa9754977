// No input causes an invalid memory access or a leak. Built with AddressSanitizer and UndefinedBehaviorSanitizer, which
// end the process at an invalid access; the balance of allocations is checked around every call.
#include <fcntl.h>
#include <unistd.h>

#include <cstring>
#include <iostream>

#include "aspects.h"
#include "balance.h"
#include "constants.h"
#include "explore.h"
#include "families.h"
#include "util/sqlhelper.h"

const char* const kProperty = "C11";

using hsql::SQLParser;
using hsql::SQLParserResult;
using blocks::balance;
using blocks::leak;

namespace {

struct Null : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

}  // namespace

// args: text, "p" to print as well.
std::string check(const Case& c) {
  const std::string& text = c.args[0];
  const bool print = c.args.size() < 2 || c.args[1] == "p";
  static Null null;
  std::streambuf* out = std::cout.rdbuf(&null);
  bool valid = false;
  size_t size = 0;
  int line = 0, column = 0;
  long n = balance([&] {
    SQLParserResult r;
    SQLParser::parse(text, &r);
    valid = r.isValid();
    size = r.size();
    line = r.errorLine();
    column = r.errorColumn();
    if (print)
      for (auto* s : r.getStatements()) hsql::printStatementInfo(s);
  });
  std::string d;
  if (n) d = leak(n, valid ? "parse of a valid text" : "parse of an invalid text");
  if (d.empty() && (n = balance([&] {
         std::vector<int16_t> tokens;
         SQLParser::tokenize(text, &tokens);
       })))
    d = leak(n, "tokenize");
  // A result that goes on to be used: the next parse, a move, a reset, and a released statement.
  if (d.empty() && c.args.size() > 2 && (n = balance([&] {
         SQLParserResult r;
         SQLParser::parse(text, &r);
         SQLParserResult m(std::move(r));
         r.reset();
         SQLParser::parse(text, &r);
         r = std::move(m);
         for (auto* s : r.releaseStatements()) delete s;
         r.reset();
         SQLParser::parse(text, &r);
       })))
    d = leak(n, "parse, move, release and parse again");
  std::cout.rdbuf(out);
  Engine::outcome(valid ? "valid " + std::to_string(size) + " " + text : "invalid " + std::to_string(line) + ":" + std::to_string(column));
  return d;
}

void explore(Engine& e) {
  // What printing with other means than std::cout produces is of no interest here.
  const int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  Tokens bytes;
  for (int c = 0; c < 256; ++c) bytes.push_back(std::string(1, char(c)));
  strings(e, bytes, 2, run("bytes"));
  const Tokens chars = {"a", "1", ".", "'", "\"", "-", "\n", " ", "\xff", std::string(1, '\0'), ";", "(", "$", "9223372036854775808", "SELECT ", "*"};
  strings(e, chars, 4 + deep, run("characters"));
  strings(e, chars, 3 + deep, [&](const std::string& s) {
    for (const char* p : {"SELECT ", "SELECT a, 'x", "PREPARE p FROM ", "SELECT a;"}) e.run(Case("characters", p + s));
  });
  trie(e, "", alphabet(), 3 + deep, run("all tokens"));

  GenOptions o;
  o.extra = false;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    // Every derivation, with everything a result can go through; then cut at every token and followed by something that
    // cannot stand there, with every type of semantic value as the last read token.
    sentences(e, ALL_KINDS, o, deep ? 2 : full ? 1 : 2, [&](const Tokens& t) { e.run(Case("derivations", std::vector<std::string>{join(t), "p", "all"})); });
    size_t unit = 0;
    for (auto& t : bases(ALL_KINDS, o, full && !deep ? 1 : 1 + deep)) {
      if (unit++ % e.shards != e.shard) continue;
      std::string s;
      for (size_t p = 0; p < t.size(); ++p) {
        for (const char* z : {"", " $", " a $", " 's' $", " 1 $", " 1.5 $", " \"q\" \"q\"", " ) a", " ( ", " ; ;", " , $", " SELECT a"}) e.run(Case("cut derivations", s + z));
        s += (p ? " " : "") + t[p];
      }
      e.run(Case("cut derivations", s + " $"));
      e.run(Case("cut derivations", s + "; $"));
      e.run(Case("cut derivations", "SELECT ?, 'x'; " + s + " ; SELECT FROM"));
    }
    for (auto& t : bases(ALL_KINDS, o, deep ? 1 : 0)) {
      if (unit++ % e.shards != e.shard) continue;
      mutate(t, alphabet(), [&](const Tokens& m) { e.run(Case("changed derivations", join(m))); });
      substitute(t, [&](const Tokens& m) { e.run(Case("unusual names and values", join(m))); });
      const std::string s = join(t);
      for (size_t p = 0; p <= s.size(); ++p) {
        e.run(Case("cut at every byte", s.substr(0, p)));
        e.run(Case("cut at every byte", s.substr(p)));
        for (const std::string& x : {std::string(1, '\0'), std::string("'"), std::string("\""), std::string("--"), std::string("\xff"), std::string("?"), std::string(";")}) e.run(Case("byte inserted", std::string(s).insert(p, x)));
      }
    }
  }
  contradictions(e, 3, [&](const std::string& s) { e.run(Case("contradictions", s, "p")); });
  for (auto& t : constructs(ALL_KINDS)) {
    if (!e.mine()) continue;
    e.run(Case("constructs", std::vector<std::string>{join(t), "p", "all"}));
    std::string s;
    for (size_t p = 0; p < t.size(); ++p) {
      s += (p ? " " : "") + t[p];
      for (const char* z : {"", " $", " a $", " ) a", " SELECT a"}) e.run(Case("cut constructs", s + z));
    }
  }
  changed_constructs(e, ALL_KINDS, [&](const Tokens& m) {
    e.run(Case("constructs", join(m), "p"));
    e.run(Case("constructs", join(m) + " $"));
  });
  // Errors that the grammar's actions raise, at all places of a list.
  const Tokens stmts = {"SELECT ?", "INSERT INTO t ( a ) VALUES ( ? )", "CREATE TABLE t ( a INT NULL NOT NULL )", "CREATE TABLE t ( a INT PRIMARY KEY NULL , b INT )", "CREATE TABLE t ( a INT NOT NULL UNIQUE NULL REFERENCES u ( a ) )",
                        "COPY t FROM 'a' ( ENCODING 'x' , ENCODING 'y' )", "COPY t TO 'a' ( FORMAT CSV , FORMAT TBL )", "COPY s.t TO 'a' ( FORMAT CSV , DELIMITER 'a' , DELIMITER 'b' )", "COPY t FROM 'a' ( FORMAT x )", "COPY t FROM 'a' ( y 'x' )",
                        "COPY ( SELECT a ) TO 'a' ( FORMAT TBL , NULL 'x' )", "COPY t FROM 'a' ( DELIMITER 'x' , FORMAT TBL )", "COPY t FROM 'f' ( FORMAT CSV , DELIMITER ',' , QUOTE '\"' , NULL '' ) WHERE a", "SELECT INTERVAL 'x'",
                        "SELECT INTERVAL '1 foo' , a", "SELECT INTERVAL '1 day x'", "SELECT a , DATE 'x'", "SELECT INTERVAL '99999999999999999999 days'", "CREATE TABLE t FROM CSV FILE 'x'", "CREATE TABLE IF NOT EXISTS t FROM TBL FILE 'x'",
                        "IMPORT FROM CSV FILE 'x' INTO t", "SELECT 99999999999999999999", "SELECT 'x", "$", ")", "PREPARE p FROM 'SELECT ?'", "EXECUTE p ( ? , 'x' )", "SHOW COLUMNS t", "DROP TABLE IF EXISTS s.t",
                        "WITH x AS ( SELECT a ) SELECT b , ( SELECT ? ) FROM x JOIN y USING ( a , b ) FOR UPDATE OF x , y", "ALTER TABLE t DROP COLUMN c"};
  for (auto& x : stmts)
    for (auto& y : stmts) {
      if (!e.mine()) continue;
      for (const char* sep : {";", " ", ";;"}) {
        e.run(Case("errors in lists", x + sep + y));
        for (auto& z : stmts) e.run(Case("errors in lists", x + sep + y + sep + z));
      }
    }
  for (auto& f : families()) {
    const std::string name = std::string(f.nested ? "deep " : "") + f.name;
    auto sizes = family_sizes(deep ? 70000 : 10001, deep ? 260 : 40);
    if (!deep && !f.nested) sizes.insert(sizes.end(), {32769, 65537});
    for (size_t n : sizes) {
      if (!e.mine()) continue;
      const std::string s = f.text(n);
      e.run(Case("sizes", s, n <= 520 ? "p" : "-"));
      if (n <= 40 || n % 2) {
        e.run(Case("sizes", s + " $", "-"));
        for (size_t k = 1; k <= 5; ++k) e.run(Case("sizes", s.substr(0, s.size() * k / 6), "-"));
      }
    }
  }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) {
    e.run(Case(phase, s, s.size() < 5000 ? "p" : "-"));
    e.run(Case(phase, s + " $", "-"));
  });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["contradictions"] = contradictions_bounds(3);
  b["cut derivations"] = std::string("all derivations with up to ") + (thorough ? "2" : "1") + " non-default choices (two profiles), cut at every token and followed by each of 12 endings";
  b["derivations"] = "all derivations with up to 2 (full profile, quick: 1) non-default choices: parsed, printed, tokenized, moved, released, parsed again";
  b["changed derivations"] = std::string("every single-token change (176 spellings) of derivations with ") + (thorough ? "up to 1" : "0") + " non-default choices; cut at every byte; 7 byte strings inserted at every byte";
  b["constructs"] = changed_constructs_bounds() + "; cut behind every token";
  b["errors in lists"] = "all pairs and triples of 31 statements with 3 separators";
  b["sizes"] = std::string("every family at every size 0..") + (thorough ? "260" : "40") + " and the surroundings of powers up to " + (thorough ? "70000" : "10001, and 32769 and 65537") + ", whole and cut at 5 places";
}
