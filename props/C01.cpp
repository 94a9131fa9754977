// A text is accepted exactly when all of it is SQL of the dialect.
#include <cstring>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C01";

std::string check(const Case& c) { return compare(c.args[0], A_VALID | (strcmp(c.phase, kDeep) ? 0 : A_DEEP)); }

// Keywords that start or structure statements; deeper texts over these.
static const Tokens kSelect = {"SELECT", "a", "1", "'s'", "*", ",", "(", ")", "FROM", "WHERE", "=", "AS", ".", "JOIN", "ON", ";", "?", "-"};
static const Tokens kDdl = {"CREATE", "TABLE", "VIEW", "INDEX", "DROP", "IF", "NOT", "EXISTS", "a", ".", "(", ")", ",", "INT", "VARCHAR", "1",
                            "PRIMARY KEY", "UNIQUE", "NULL", "REFERENCES", "FOREIGN KEY", "ON", "AS", "SELECT", "ALTER", "COLUMN", ";"};
static const Tokens kOther = {"INSERT", "INTO", "VALUES", "UPDATE", "SET", "=", "DELETE", "TRUNCATE", "FROM", "WHERE", "a", "1", "'s'", "(", ")",
                              ",", "COPY", "IMPORT", "CSV", "FILE", "TO", "WITH", "FORMAT", "NULL", "DELIMITER", "HINT", ";", "SELECT"};
static const Tokens kSession = {"PREPARE", "EXECUTE", "DEALLOCATE", "SHOW", "TABLES", "COLUMNS", "DESCRIBE", "BEGIN", "COMMIT", "ROLLBACK",
                                "TRANSACTION", "a", "1", "'s'", "FROM", "(", ")", ",", ".", "-", "NULL", "TRUE", ";", "WITH", "HINT"};

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };

  // Characters: every short text, and every character in every gap of one text of each kind.
  {
    Tokens bytes;
    for (int c = 0; c < 256; ++c) bytes.push_back(std::string(1, char(c)));
    strings(e, bytes, 2, run("bytes"));
    GenOptions o;
    std::vector<Tokens> base = bases(ALL_KINDS, o, 0);
    o.full = true;
    for (auto& t : bases(ALL_KINDS, o, 0)) base.push_back(t);
    for (auto& t : base) {
      if (!e.mine()) continue;
      const std::string s = join(t);
      for (size_t p = 0; p <= s.size(); ++p) {
        for (auto& b : bytes) {
          std::string x = s;
          e.run(Case("byte inserted", x.insert(p, b)));
          x = s;
          if (p < s.size()) e.run(Case("byte replaced", x.replace(p, 1, b)));
        }
        e.run(Case("truncated", s.substr(0, p)));
        if (p < s.size()) {
          std::string x = s;
          e.run(Case("byte removed", x.erase(p, 1)));
        }
      }
    }
  }
  {
    const Tokens chars = {"a", "1", "0", ".", "'", "\"", "-", "\n", " ", "|", "=", "<", "!", "e", "_", ";", "$", "\\", std::string(1, '\0'), "*", ":"};
    for (const char* prefix : {"SELECT ", "SELECT a ", "SELECT a, ", "SELECT 1; "})
      strings(e, chars, 4 + deep, [&, prefix](const std::string& s) { e.run(Case("characters", prefix + s)); });
  }

  {
    // Bytes in front of, between and behind statements: all pairs, and triples of the ones that some program treats specially.
    Tokens bytes, special;
    for (int c = 0; c < 256; ++c) bytes.push_back(std::string(1, char(c)));
    for (int c : {0x00, 0x01, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x1a, 0x1b, 0x20, 0x21, 0x22, 0x23, 0x24, 0x27, 0x28, 0x2a, 0x2b, 0x2d, 0x2f, 0x31, 0x3b, 0x40, 0x5c, 0x60, 0x61, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xbb, 0xbf, 0xc2, 0xe2, 0xe3, 0xef, 0xf0, 0xfe, 0xff})
      special.push_back(std::string(1, char(c)));
    auto around = [&](const std::string& s) {
      e.run(Case("bytes around", s + "SELECT a"));
      e.run(Case("bytes around", "SELECT a" + s));
      e.run(Case("bytes around", "SELECT a;" + s));
      e.run(Case("bytes around", "SELECT a;" + s + "SELECT b"));
      e.run(Case("bytes around", "SELECT" + s + "a"));
      e.run(Case("bytes around", "SELECT a FROM t;" + s + "\n"));
    };
    strings(e, bytes, 2, around);
    strings(e, special, 3, around);
    for (const char* w : {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xe2\x80\x8b", "\xc2\xa0", "\xe3\x80\x80", "/* c */", "/*", "*/", "//", "// c\n", "# c\n", "#!sql\n", "\\g", "\\G", "GO", "go\n", "EXPLAIN", "EXPLAIN ANALYZE", "EOF", "\\.", "\\q", "\x04", "\x1a", "\xe2\x80\x98",
                          "\xe2\x80\x9c", "{", "}", "BEGIN;", "END", "END;", "COMMIT;", "SET x = 1;", "USE t;", "\r\n", "\\\n", "--", "--\n", "-- c", "---", "- -", "VALUES ( 1 )", "TABLE t", "VACUUM", "quit", "exit", "help", "?", ";", ";;", "'", "''", "\"", "\"\""})
      for (const char* sep : {"", " ", "\n", ";"}) {
        if (!e.mine()) continue;
        around(std::string(w) + sep);
        around(std::string(sep) + w);
        around(std::string(sep) + w + sep);
      }
  }
  // Texts of every size.
  sizes(e, ~0u, 30, e.thorough ? 70000 : 4097, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
  for (size_t n : {16384, 32768, 65536, 100000, 131072, 262144, 1 << 20, 1 << 24}) {
    if (!e.mine()) continue;
    for (size_t m : {n - 9, n - 8, n - 1, n, n + 1}) {
      e.run(Case("long texts", "SELECT a" + std::string(m, ' ')));
      e.run(Case("long texts", "SELECT a" + std::string(m, ' ') + "FROM"));
      e.run(Case("long texts", "SELECT '" + std::string(m, 's') + "' , b c d"));
      e.run(Case("long texts", std::string(m, '\n') + "SELECT a; SELECT $"));
    }
  }

  // Tokens.
  trie(e, "", alphabet(), 4 + 2 * deep, run("all tokens"));
  trie(e, "SELECT a FROM t", alphabet(), 3, run("after FROM"));
  trie(e, "SELECT a FROM t WHERE a", alphabet(), 3, run("after WHERE"));
  trie(e, "SELECT", alphabet(), 3, run("after SELECT"));
  trie(e, "SELECT a UNION SELECT b", alphabet(), 3, run("after UNION"));
  trie(e, "CREATE TABLE t ( a INT", alphabet(), 3, run("after column"));
  trie(e, "COPY t FROM 's' (", alphabet(), 3, run("after COPY"));
  trie(e, "SELECT f ( a ) OVER (", alphabet(), 3, run("after OVER"));
  trie(e, "", kSelect, 7 + deep, run("SELECT tokens"));
  trie(e, "", kDdl, 9 + deep, run("DDL tokens"));
  trie(e, "", kOther, 7 + deep, run("DML tokens"));
  trie(e, "", kSession, 8 + 2 * deep, run("session tokens"));

  contradictions(e, 4 + deep, [&](const std::string& s) { e.run(Case("contradictions", s)); });
  // Constructs: with other names, numbers and strings, and single-token changes of them.
  changed_constructs(e, ALL_KINDS, [&](const Tokens& t) { e.run(Case("changed constructs", join(t))); });
  for (auto& t : constructs(ALL_KINDS))
    if (e.mine()) mutate(t, alphabet(), [&](const Tokens& m) { e.run(Case("changed constructs", join(m))); });

  // Derivations, and single-token changes of them.
  GenOptions o;
  o.extra = true;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    sentences(e, ALL_KINDS, o, full && !e.thorough ? 1 : 2, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
    if (e.thorough && !full) sentences(e, ALL_KINDS & ~(1u << G_SELECT), o, 3, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
    o.extra = false;
    for (auto& t : bases(ALL_KINDS, o, full && !e.thorough ? 0 : 1)) {
      if (e.mine()) mutate(t, alphabet(), [&](const Tokens& m) { e.run(Case("changed derivations", join(m))); });
    }
  }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["bytes"] = "every text of 0-2 bytes; every byte inserted at, put in place of, or removed from every position of 28 texts (two of each statement kind)";
  b["bytes around"] = "all strings of up to 2 bytes, all strings of up to 3 of 42 special bytes and 53 words in front of, between and behind statements";
  b["sizes"] = thorough ? "every family of lists with 0..30 and surroundings of powers up to 70000, of nestings up to 1000" : "every family of lists with 0..30 and surroundings of powers up to 4097, of nestings up to 300; texts of up to 16 MiB";
  b["characters"] = std::string("every string of up to ") + (thorough ? "5" : "4") + " characters of 21 classes after 4 prefixes";
  b["tokens"] = std::string("every token sequence over the whole alphabet (") + std::to_string(alphabet().size()) + " spellings) up to length " +
                (thorough ? "6" : "4") + " and 3 more tokens in 7 contexts; reduced alphabets up to length " + (thorough ? "8 to 10" : "7 to 9") +
                "; not continued behind the first token that cannot continue the text";
  b["contradictions"] = contradictions_bounds(4 + thorough);
  b["changed constructs"] = "single-token changes; " + changed_constructs_bounds();
  b["derivations"] = thorough ? "up to 2 non-default choices in minimal and full profile, 3 for the minimal profile without SELECT" : "up to 2 non-default choices in the minimal profile, 1 in the full profile";
  b["changed derivations"] = thorough ? "every single-token change of all derivations with 1 non-default choice" : "every single-token change of all derivations with 1 (full profile: 0) non-default choices";
}
