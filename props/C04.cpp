// DDL statements are represented faithfully.
#include <cstring>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C04";

std::string check(const Case& c) { return compare(c.args[0], A_TREE | (strcmp(c.phase, kDeep) ? 0 : A_DEEP)); }

static const unsigned kKinds = 1u << G_CREATE_TABLE | 1u << G_CREATE_OTHER | 1u << G_DROP | 1u << G_ALTER;
static const Tokens kElements = {"a INT", "b VARCHAR ( 5 )", "c DECIMAL ( 6 , 7 )", "\"D d\" TIME ( 8 )", "NULL", "NOT NULL", "PRIMARY KEY", "UNIQUE", "REFERENCES r", "REFERENCES s . r ( k )",
                                 "REFERENCES r ( k , l )", ",", "PRIMARY KEY ( e )", "PRIMARY KEY ( e , f )", "UNIQUE ( g )", "UNIQUE ( g , h , i )", "FOREIGN KEY ( j ) REFERENCES x",
                                 "FOREIGN KEY ( j , m ) REFERENCES y . x ( n , o )", ")", ") WITH HINT ( z )"};
static const Tokens kTypes = {"INT", "INTEGER", "LONG", "BIGINT", "SMALLINT", "DOUBLE", "FLOAT", "REAL", "TEXT", "BOOLEAN", "DATE", "DATETIME", "TIMESTAMP", "TIME", "DECIMAL", "CHAR", "VARCHAR",
                              "CHARACTER VARYING", "CHARACTER  VARYING", "( 1 )", "( 0 )", "( 2 , 3 )", "( 3 , 0 )", "( 64 )", "( 2147483648 )", "( 9223372036854775807 )", "NOT NULL", "NULL", "b"};
static const Tokens kHeads = {"CREATE", "DROP", "ALTER", "DEALLOCATE", "TABLE", "VIEW", "INDEX", "PREPARE", "COLUMN", "SCHEMA", "IF EXISTS", "IF NOT EXISTS", "a", "s . b", "\"c d\"", "ON", "( e )",
                              "( e , f )", "( e INT )", "AS", "SELECT g", "( SELECT g )", "FROM TBL FILE 'h'", "FROM tbl FILE ''", "FROM CSV FILE 'h'", "WITH HINT ( i )", "UNIQUE"};

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  sizes(e, kKinds, 40, e.thorough ? 70000 : 4097, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
  contradictions(e, 4 + deep, run("contradictions"));
  variations(e, kKinds, [&](const Tokens& m) { e.run(Case("unusual names and values", join(m))); });
  GenOptions o;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.extra = true;
    sentences(e, kKinds, o, 2, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
    o.extra = false;
    sentences(e, kKinds, o, 3 + deep, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
  }
  trie(e, "CREATE TABLE t (", kElements, 6 + deep, run("column and constraint sequences"));
  // Every multiset order of the constraints of one column.
  trie(e, "CREATE TABLE t ( a INT", Tokens(kElements.begin() + 4, kElements.begin() + 11), 5 + deep, run("column constraints"), " )");
  trie(e, "CREATE TABLE t ( a", kTypes, 4 + deep, run("column types"), " )");
  trie(e, "SELECT CAST ( x AS", kTypes, 3, run("cast types"), " )");
  trie(e, "", kHeads, 6 + deep, run("statement heads"));
  trie(e, "CREATE TABLE t (", alphabet(), 4 + deep, run("all tokens"));
  trie(e, "CREATE", alphabet(), 4 + deep, run("all tokens"));
  trie(e, "DROP", alphabet(), 5, run("all tokens"));
  trie(e, "ALTER TABLE", alphabet(), 5, run("all tokens"));
  // What the sources themselves distinguish.
  constants(e, kKinds, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["contradictions"] = contradictions_bounds(4 + thorough);
  b["derivations"] = thorough ? "up to 4 non-default choices in minimal and full profile" : "up to 3 non-default choices in minimal and full profile";
  b["sequences"] = thorough ? "7 of 20 column and constraint parts, 6 constraints of one column, 5 of 29 type parts, 7 of 27 statement parts" : "6 of 20 column and constraint parts, 5 constraints of one column, 4 of 29 type parts, 6 of 27 statement parts";
  b["sizes"] = std::string("the families of repetitions of these statements at 0..40 and around powers up to ") + (thorough ? "70000" : "4097") + ", of nestings up to 300";
  b["unusual names and values"] = variations_bounds(thorough);
}
