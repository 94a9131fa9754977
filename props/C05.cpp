// Data, import/export, prepare and session statements are faithful.
#include <cstring>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C05";

std::string check(const Case& c) { return compare(c.args[0], A_TREE | (strcmp(c.phase, kDeep) ? 0 : A_DEEP)); }

static const unsigned kKinds = 1u << G_INSERT | 1u << G_UPDATE | 1u << G_DELETE | 1u << G_IMPORT | 1u << G_EXPORT | 1u << G_PREPARE | 1u << G_EXECUTE | 1u << G_SHOW | 1u << G_TRANSACTION;
static const Tokens kOptions = {"FORMAT CSV", "FORMAT tbl", "FORMAT BINARY", "FORMAT bin", "FORMAT xyz", "ENCODING 'e'", "ENCODING 'f'", "DELIMITER '1'", "delimiter '2'", "NULL '3'", "null ''",
                                "QUOTE '4'", "quote 'x'", "quotes '5'", ",", ")"};
static const Tokens kHints = {"WITH HINT (", "a", "b (", "1", "'s'", "NULL", "TRUE", "2.5", "- 3", "DATE '2020-02-29'", "4 DAYS", "INTERVAL '5 years'", "CAST ( 6 AS TEXT )", "- 7.5", "c", "?", ",", ")", "* "};
static const Tokens kParts = {"INSERT INTO", "UPDATE", "DELETE FROM", "TRUNCATE", "COPY", "IMPORT FROM", "EXECUTE", "PREPARE", "SHOW TABLES", "SHOW COLUMNS", "DESCRIBE", "BEGIN", "COMMIT", "ROLLBACK",
                              "TRANSACTION", "t", "s . u", "( a )", "( a , b )", "VALUES ( 1 )", "VALUES ( 'x' , NULL , - 2 )", "SELECT c", "( SELECT c )", "SET d = e", ", f = g + 1", "WHERE h",
                              "TO 'i'", "FROM 'j'", "CSV FILE 'k'", "binary FILE 'l'", "INTO", "WITH", "( FORMAT CSV )", "( NULL 'm' , ENCODING 'n' )", "( )", "( 1 , 's' )", "WITH HINT ( o )"};

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  sizes(e, kKinds, 40, e.thorough ? 70000 : 4097, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
  contradictions(e, 4 + deep, run("contradictions"));
  variations(e, kKinds, [&](const Tokens& m) { e.run(Case("unusual names and values", join(m))); });
  GenOptions o;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.extra = true;
    sentences(e, kKinds, o, 2, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
    o.extra = false;
    if (!full || deep) sentences(e, kKinds, o, 3, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
  }
  // Hints on every kind.
  o.full = false;
  for (auto& t : bases(ALL_KINDS, o, 1)) {
    if (!e.mine()) continue;
    for (const char* h : {" WITH HINT ( h )", " WITH HINT ( h , g ( 1 , 'x' , NULL ) )", " WITH HINT ( )", " WITH HINT ( h ) WITH HINT ( i )"}) e.run(Case("hints", join(t) + h));
  }
  trie(e, "COPY t FROM 'f' (", kOptions, 8 + deep, run("options"));
  trie(e, "COPY t TO 'f' WITH (", kOptions, 8, run("options"));
  trie(e, "COPY ( SELECT a ) TO 'f' (", kOptions, 6, run("options"));
  trie(e, "COPY t FROM 'f' WITH (", kOptions, 6, run("options"), " WHERE b");
  trie(e, "EXECUTE p", kHints, 5 + deep, run("hint sequences"));
  trie(e, "INSERT INTO t VALUES (", kHints, 5, run("value sequences"));
  trie(e, "EXECUTE p (", kHints, 5, run("argument sequences"));
  trie(e, "", kParts, 6 + deep, run("statement parts"));
  for (const char* p : {"INSERT INTO", "UPDATE t SET", "DELETE", "TRUNCATE", "COPY", "IMPORT", "PREPARE", "EXECUTE", "SHOW", "BEGIN", "DESCRIBE", "COPY t TO 's' (", "INSERT INTO t VALUES ("})
    trie(e, p, alphabet(), 3 + deep, run("all tokens"));
  // What the sources themselves distinguish.
  constants(e, kKinds, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["contradictions"] = contradictions_bounds(4 + thorough);
  b["derivations"] = thorough ? "up to 3 non-default choices in minimal and full profile" : "up to 3 non-default choices in the minimal profile, 2 in the full profile";
  b["sequences"] = thorough ? "9 of 16 COPY option parts, 6 of 19 hint parts, 7 of 37 statement parts" : "8 of 16 COPY option parts, 5 of 19 hint parts, 6 of 37 statement parts";
  b["sizes"] = std::string("the families of repetitions of these statements at 0..40 and around powers up to ") + (thorough ? "70000" : "4097") + ", of nestings up to 300";
  b["unusual names and values"] = variations_bounds(thorough);
}
