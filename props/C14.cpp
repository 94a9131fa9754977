// Statement lists are split in order and string lengths tile the text.
#include <cstring>
#include <algorithm>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C14";

// args: the whole text, then the texts of its statements (for the comparison with parsing them alone).
std::string check(const Case& c) {
  std::string d = compare(c.args[0], A_VALID | A_LENGTH | A_TREE | (strcmp(c.phase, kDeep) ? 0 : A_DEEP));
  if (!d.empty() || c.args.size() < 2) return d;
  hsql::SQLParserResult all;
  hsql::SQLParser::parse(c.args[0], &all);
  if (!all.isValid() || all.size() != c.args.size() - 1) return std::to_string(c.args.size() - 1) + " statements written, " + std::to_string(all.size()) + " returned";
  for (size_t i = 0; i < all.size(); ++i) {
    hsql::SQLParserResult alone;
    hsql::SQLParser::parse(c.args[i + 1], &alone);
    if (!alone.isValid() || alone.size() != 1) return "statement " + std::to_string(i) + " alone is not one statement";
    if (all.parameters().empty() && impl::dump(alone.getStatement(0)) != impl::dump(all.getStatement(i)))
      return "statement " + std::to_string(i) + " differs from the same statement alone\nexpected " + impl::dump(alone.getStatement(0)) + "\ngot " + impl::dump(all.getStatement(i));
  }
  return "";
}

static const Tokens kSeps = {";", " ; ", ";\n", "\n;\n", ";\t", "; -- c ; d\n", " -- ;\n;", ";--\n--\n", ";\r\n", "\t;\t"};
static const Tokens kStarts = {"", " ", "\n\n", "-- c;\n", "\t", "--\n--\n "};
static const Tokens kEnds = {"", ";", " ;", "; ", ";\n", "\n", " ", "; -- c", ";-- c\n", "-- ;", "\n;\n-- d\n", ";\r\n", "\t"};

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  GenOptions o;
  std::vector<std::string> one;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (auto& t : bases(ALL_KINDS, o, 0)) one.push_back(join(t));
  }
  for (const char* s : {"SELECT ';', \"a;b\"", "SELECT 'x\ny;'", "SELECT a -- ;\n", "BEGIN", "SHOW TABLES", "SELECT '' || ''", "( SELECT a )", "SELECT \"\xc3\xa4;\"", "COMMIT", "EXECUTE p", "SELECT 1 UNION SELECT 2",
                        "SELECT a FROM t WITH HINT ( h )", "DROP TABLE t", "INSERT INTO t VALUES ( 1 )", "SELECT INTERVAL '3 days'", "SELECT -9223372036854775808", "SELECT f ( a ) OVER ( ROWS CURRENT ROW )"})
    one.push_back(s);
  // Single statements with every start and end; all pairs; triples with every separator.
  for (auto& s : one) {
    if (!e.mine()) continue;
    for (auto& a : kStarts)
      for (auto& z : kEnds) e.run(Case("single statements", std::vector<std::string>{a + s + z, s}));
  }
  for (auto& x : one)
    for (auto& y : one) {
      if (!e.mine()) continue;
      for (auto& sep : kSeps) {
        e.run(Case("pairs", std::vector<std::string>{x + sep + y, x, y}));
        e.run(Case("pairs", std::vector<std::string>{x + sep + y + ";", x, y}));
      }
      for (auto& a : kStarts)
        for (auto& z : kEnds) e.run(Case("pairs", std::vector<std::string>{a + x + ";" + y + z, x, y}));
    }
  const size_t step = deep ? 1 : 3;
  for (size_t x = 0; x < one.size(); x += step)
    for (size_t y = 0; y < one.size(); y += step)
      for (size_t z = 0; z < one.size(); z += step) {
        if (!e.mine()) continue;
        const auto &s = one[x], &t = one[y], &u = one[z];
        e.run(Case("triples", std::vector<std::string>{s + ";" + t + ";" + u, s, t, u}));
        e.run(Case("triples", std::vector<std::string>{s + " ;\n" + t + ";" + u + ";\n", s, t, u}));
      }
  // Longer lists: all of 4 and 5 (thorough: 6) short statements.
  static const Tokens brief = {"BEGIN", "ROLLBACK", "SHOW TABLES", "SHOW COLUMNS t", "SELECT a", "SELECT 'x;'", "DROP TABLE t", "DELETE FROM t", "EXECUTE p", "( SELECT 1 )", "INSERT INTO t VALUES ( 1 )", "UPDATE t SET a = 1", "CREATE VIEW v AS SELECT a", "ALTER TABLE t DROP COLUMN a", "DEALLOCATE PREPARE p", "COPY t TO 'f'", "IMPORT FROM TBL FILE 'f' INTO t", "PREPARE p FROM 'x'"};
  std::vector<std::string> chosen(1);
  std::function<void(size_t, size_t)> longer = [&](size_t n, size_t of) {
    if (chosen.size() == n + 1) {
      if (!e.mine()) return;
      std::string s;
      for (size_t i = 1; i < chosen.size(); ++i) s += (i > 1 ? ";" : "") + chosen[i];
      chosen[0] = s;
      e.run(Case("longer lists", chosen));
      if (n == 4 || deep) {
        chosen[0] += "\n;\n";
        e.run(Case("longer lists", chosen));
      }
      return;
    }
    for (size_t i = 0; i < of; ++i) {
      chosen.push_back(brief[i]);
      longer(n, of);
      chosen.pop_back();
    }
  };
  longer(4, brief.size());
  longer(5, deep ? brief.size() : 8);
  if (deep) longer(6, 8);
  // Every derivation between two others.
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.extra = !full;
    sentences(e, ALL_KINDS, o, deep || !full ? 2 : 1, [&](const Tokens& t) {
      const std::string s = join(t);
      if (!ref::parse(s).valid || ref::parse(s).grey) return;
      e.run(Case("derivations in lists", std::vector<std::string>{"SELECT a;" + s + "\n; " + s + " ;SHOW TABLES;", "SELECT a", s, s, "SHOW TABLES"}));
    });
  }
  for (auto& t : constructs(ALL_KINDS)) {
    if (!e.mine() || std::find(t.begin(), t.end(), ";") != t.end()) continue;
    const std::string s = join(t);
    if (!ref::parse(s).valid || ref::parse(s).grey) continue;
    for (auto& x : one) {
      e.run(Case("constructs in lists", std::vector<std::string>{x + ";" + s, x, s}));
      e.run(Case("constructs in lists", std::vector<std::string>{s + " ;\n" + x + "; ", s, x}));
    }
  }
  contradictions(e, 2 + deep, [&](const std::string& s) { e.run(Case("contradictions", s + "; " + s + " ;")); });
  changed_constructs(e, ALL_KINDS, [&](const Tokens& m) { e.run(Case("unusual names and values", join(m) + ";" + join(m) + ";")); });
  // Texts that are not such lists.
  const Tokens parts = {"SELECT a", "BEGIN", ";", " ", "\n", "-- c\n", "SELECT ';'", "DROP TABLE t", "-- ;", "SELECT ?", ";;", "\r"};
  strings(e, parts, 5 + deep, [&](const std::string& s) { e.run(Case("parts", s)); });
  // Long lists, long statements, long gaps.
  for (size_t n = 1; n <= 130; ++n) {
    if (!e.mine()) continue;
    std::string s;
    std::vector<std::string> args(1);
    for (size_t i = 0; i < n; ++i) {
      args.push_back(one[(i * 7 + n) % one.size()]);
      s += args.back() + kSeps[i % kSeps.size()];
    }
    args[0] = s;
    e.run(Case("long lists", args));
    e.run(Case("long lists", std::string(n, ' ') + "SELECT a;" + std::string(n, '\n') + "SELECT b" + std::string(n, '\t') + ";" + std::string(n, '\r')));
    e.run(Case("long lists", "SELECT '" + std::string(n, ';') + "';SELECT \"" + std::string(n, 'x') + "\";--" + std::string(n, ';')));
  }
  for (size_t n : {255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 100000, 131072}) {
    if (!e.mine()) continue;
    std::string s;
    for (size_t i = 0; i < n; ++i) s += "SELECT a" + std::to_string(i % 10) + (i % 2 ? "; " : " ;\n");
    e.run(Case("long lists", s));
    e.run(Case("long lists", std::string(n, ' ') + "SELECT a;" + std::string(n, '\n') + "SELECT b" + std::string(n, '\t') + ";" + std::string(n, '\r')));
    e.run(Case("long lists", "SELECT '" + std::string(n, ';') + "';SELECT \"" + std::string(n, 'x') + "\";--" + std::string(n, ';')));
    e.run(Case("long lists", "SELECT " + std::string(n, '1').substr(0, 18) + ";SELECT 'x';" + "SELECT " + std::string(n, 'i')));
  }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) {
    e.run(Case(phase, s));
    e.run(Case(phase, "SELECT a;" + s + "\n;SELECT b;"));
  });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["contradictions"] = contradictions_bounds(2 + thorough);
  b["lists"] = std::string("all pairs of 45 statements with 10 separators, 6 starts and 13 ends; ") + (thorough ? "all triples; " : "triples of every third; ") + "all lists of 4 of 18 short statements, and of 5 (thorough: 6) of 8; every derivation with up to 2 (full profile, quick: 1) non-default choices within a list";
  b["unusual names and values"] = changed_constructs_bounds();
  b["parts"] = thorough ? "all strings of up to 6 of 12 parts" : "all strings of up to 5 of 12 parts";
  b["long lists"] = "1..130 statements of changing kinds, up to 131072; gaps and strings of 1..130 and up to 131072 bytes";
}
