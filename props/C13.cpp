// parameters() lists the ? placeholders in written order.
#include <cstring>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C13";

std::string check(const Case& c) { return compare(c.args[0], A_VALID | A_PARAMS | (strcmp(c.phase, kDeep) ? 0 : A_DEEP)); }

static bool is_name(const std::string& w) { return w[0] == 'n' && w.size() > 1 && w[1] >= '0' && w[1] <= '9'; }

// Every subset of the places of the text that can hold a placeholder (all subsets up to a number of places, then all
// with at most three and all without at most two).
static void subsets(Engine& e, const Tokens& base, size_t most) {
  Tokens t = base;
  std::vector<size_t> places;
  const std::string b = join(base);
  if (!ref::parse(b).valid) return;
  for (size_t p = 0; p < base.size(); ++p) {
    const std::string& w = base[p];
    if (!(is_name(w) || (w[0] >= '0' && w[0] <= '9') || w[0] == '\'' || w == "?" || w == "NULL" || w == "TRUE" || w == "*")) continue;
    t[p] = "?";
    if (ref::parse(join(t)).valid) places.push_back(p);
    t[p] = w;
  }
  const size_t n = places.size();
  auto run = [&](const std::vector<bool>& in) {
    Tokens x = base;
    for (size_t i = 0; i < n; ++i) {
      if (in[i])
        x[places[i]] = "?";
      else if (x[places[i]] == "?")
        x[places[i]] = "a";
    }
    e.run(Case("placeholder subsets", join(x)));
  };
  if (n <= most) {
    for (size_t m = 0; m < (size_t(1) << n); ++m) {
      std::vector<bool> in(n);
      for (size_t i = 0; i < n; ++i) in[i] = m >> i & 1;
      run(in);
    }
    return;
  }
  std::vector<bool> in(n), out(n, true);
  run(in);
  run(out);
  for (size_t i = 0; i < n; ++i) {
    in[i] = true;
    out[i] = false;
    run(in);
    run(out);
    for (size_t j = i + 1; j < n; ++j) {
      in[j] = true;
      out[j] = false;
      run(in);
      run(out);
      for (size_t k = j + 1; k < n; ++k) {
        in[k] = true;
        run(in);
        in[k] = false;
      }
      in[j] = false;
      out[j] = true;
    }
    in[i] = false;
    out[i] = true;
  }
}

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  GenOptions o;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.params = false;
    for (auto& t : bases(ALL_KINDS, o, 1))
      if (e.mine()) subsets(e, t, 8 + size_t(deep) * 4);
    o.params = true;
    sentences(e, ALL_KINDS, o, 2, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
  }
  o.full = false;
  o.params = false;
  sentences(e, ALL_KINDS, o, 2, [&](const Tokens& t) { subsets(e, t, 5); });
  if (deep) {
    o.params = true;
    sentences(e, ALL_KINDS, o, 3, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
  }
  // Every construct with placeholders in place of its names, numbers and strings.
  for (auto& t : constructs(ALL_KINDS))
    if (e.mine()) subsets(e, t, 8 + size_t(deep) * 4);
  // The same with other names, numbers, strings, of other lengths: a placeholder in each place, and in all of them.
  const std::vector<size_t> lengths = {1, 2, 8, 16, 63, 64, 255, 256, 1000};
  auto rest = [&](const Tokens& base) {
    if (!ref::parse(join(base)).valid) return;
    Tokens t = base, all = base;
    auto vary = [&](const Tokens& x) {
      auto f = [&](const Tokens& m) { e.run(Case("placeholders among others", join(m))); };
      substitute(x, f);
      if (deep) substitute_pairs(x, f);
      substitute_lengths(x, lengths, f);
    };
    size_t places = 0;
    for (size_t p = 0; p < base.size(); ++p) {
      const std::string& w = base[p];
      if (!(is_name(w) || (w[0] >= '0' && w[0] <= '9') || w[0] == '\'' || w == "?" || w == "NULL" || w == "TRUE")) continue;
      t[p] = "?";
      if (ref::parse(join(t)).valid) {
        ++places;
        all[p] = "?";
        vary(t);
      }
      t[p] = w;
    }
    if (places > 1) vary(all);
  };
  for (auto& t : constructs(ALL_KINDS))
    if (e.mine()) rest(t);
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (auto& t : bases(ALL_KINDS, o, full && !deep ? 0 : 1))
      if (e.mine()) rest(t);
  }
  o.params = true;
  o.full = false;
  for (auto& base : bases(ALL_KINDS, o, 1)) {
    if (!e.mine()) continue;
    substitute_operands(base, deep ? 7 : 0, [&](const Tokens& m) {
      e.run(Case("operands", join(m)));
      for (size_t p = 0; p < m.size(); ++p)  // a placeholder in each place of the operand
        if (m[p].size() == 1 && m[p] >= "a" && m[p] <= "z") {
          Tokens x = m;
          x[p] = "?";
          e.run(Case("operands", join(x)));
        }
    });
  }
  // Where the parser builds its lists in another order than the text: every arrangement of parts with placeholders.
  const Tokens clauses = {"SELECT ?", "SELECT ? , a , ?", "SELECT TOP 1 ?", "FROM ( SELECT ? ) x", ", ( SELECT ? FROM u WHERE ? ) y", "FROM t", "JOIN u ON ? = ?", "LEFT JOIN ( SELECT ? ) z ON ?", "WHERE ?", "WHERE ? IN ( ? , ? )", "GROUP BY ?",
                          "HAVING ?", "ORDER BY ? , ?", "LIMIT ?", "OFFSET ?", "UNION", "WITH w AS ( SELECT ? )", "( SELECT ? ORDER BY ? LIMIT ? )", "; ", "WITH HINT ( h ( ? , ? ) )", "FOR UPDATE"};
  trie(e, "", clauses, 6 + deep, run("clause sequences"));
  const Tokens exprs = {"?", "a", "- ?", "NOT ?", "+ ?", "AND ?", "IN ( ? , a , ? )", "IN ( SELECT ? )", "BETWEEN ? AND ?", "CASE", "WHEN ?", "THEN ?", "ELSE ?", "END", "f ( ? , ? )", "OVER ( PARTITION BY ? ORDER BY ? )", "CAST ( ? AS INT )",
                        "ARRAY [ ? , ? ]", "[ 1 ]", "EXISTS ( SELECT ? )", "EXTRACT ( DAY FROM ? )", "( ? )", "( SELECT ? )", ",", "AS x", "LIKE ?", "IS NULL"};
  trie(e, "SELECT", exprs, 5 + deep, run("expression sequences"));
  const Tokens stmts = {"SELECT ?", "SELECT ?, ?", "INSERT INTO t VALUES ( ? , ? )", "INSERT INTO t SELECT ?", "UPDATE t SET a = ? , b = ? WHERE ?", "DELETE FROM t WHERE ?", "EXECUTE p ( ? , - 1 , ? )", "SELECT a", "COPY t FROM 'x' WHERE ?",
                        "COPY ( SELECT ? ) TO 'x'", "CREATE VIEW v AS SELECT ?", "CREATE TABLE t AS SELECT ?", "PREPARE p FROM 'SELECT ?'", "DROP TABLE t WITH HINT ( h ( ? ) )", "SELECT 1 UNION SELECT ?", "SELECT '?', \"?\" -- ?\n",
                        "BEGIN WITH HINT ( h ( ? ) )", "SHOW TABLES"};
  for (auto& x : stmts)
    for (auto& y : stmts) {
      if (!e.mine()) continue;
      e.run(Case("statement lists", x + ";" + y));
      for (auto& z : stmts) {
        e.run(Case("statement lists", x + "; " + y + " ;\n" + z + ";"));
        for (auto& w : stmts)
          if (deep || (x != w && y != z)) e.run(Case("statement lists", x + ";" + y + ";" + z + ";" + w));
      }
    }
  // Every derivation with placeholders, and every construct with one in each place, in front of and behind each of them.
  auto beside = [&](const std::string& b) {
    for (const std::string& x : stmts) {
      e.run(Case("statement pairs", x + ";" + b));
      e.run(Case("statement pairs", b + ";" + x));
    }
  };
  o.params = true;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (auto& t : bases(ALL_KINDS, o, full && !deep ? 0 : 1))
      if (e.mine()) beside(join(t));
  }
  for (auto& t : constructs(ALL_KINDS)) {
    if (!e.mine()) continue;
    Tokens x = t;
    for (size_t p = 0; p < t.size(); ++p) {
      if (!(is_name(t[p]) || (t[p][0] >= '0' && t[p][0] <= '9') || t[p][0] == '\'' || t[p] == "NULL" || t[p] == "TRUE")) continue;
      x[p] = "?";
      if (ref::parse(join(x)).valid) beside(join(x));
      x[p] = t[p];
    }
  }
  for (const char* b : {"SELECT ? AS x", "SELECT ? AS x , ? AS y FROM t", "SELECT ? x", "SELECT a AS x , ? AS x"})
    if (e.mine()) beside(b);
  const Tokens marks = {"?", "'?'", "\"?\"", "'", "\"", "--?\n", "--", "\n", ",", "a", " ", "'?''?'", "(", ")"};
  strings(e, marks, 5 + deep, [&](const std::string& s) { e.run(Case("marks", "SELECT " + s)); });
  for (int n = 0; n <= 130; ++n) {
    if (!e.mine()) continue;
    std::string list, values, sum, in, stmt, nest, cases = "CASE", set;
    for (int i = 0; i < n; ++i) {
      list += i ? ", ?" : "?";
      sum += i ? " + ?" : "?";
      stmt += "SELECT ?;";
      cases += " WHEN ? THEN ?";
      set += i ? " , c = ?" : "c = ?";
    }
    for (const std::string& s : {"SELECT " + list, "SELECT " + sum, stmt, "SELECT a FROM t WHERE a IN ( " + list + " )", "INSERT INTO t VALUES ( " + list + " )", "SELECT f ( " + list + " )", "SELECT a ORDER BY " + list,
                                 "SELECT a GROUP BY " + list, "SELECT " + cases + " ELSE ? END", "UPDATE t SET " + set + " WHERE ?", "EXECUTE p ( " + list + " )", "SELECT a WITH HINT ( h ( " + list + " ) )"})
      if (n || s == stmt) e.run(Case("many placeholders", s));
  }
  for (size_t n : {255, 256, 257, 500, 1000, 1023, 1024, 1025}) {
    if (!e.mine()) continue;
    std::string s = "SELECT ?";
    for (size_t i = 1; i < n; ++i) s += i % 3 ? ", ?" : ", ? + ?";
    e.run(Case("many placeholders", s + " FROM t WHERE ?"));
  }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) {
    e.run(Case(phase, s));
    e.run(Case(phase, "SELECT ?;" + s + "\n; SELECT ?"));
    // Placeholders in the place of the first names.
    std::string x = s;
    for (size_t p = 0, n = 0; p < x.size() && n < 2; ++p)
      if (x[p] == 'n' && p + 1 < x.size() && isdigit(static_cast<unsigned char>(x[p + 1])) && (p == 0 || x[p - 1] == ' ')) {
        size_t q = p + 1;
        while (q < x.size() && isdigit(static_cast<unsigned char>(x[q]))) ++q;
        x.replace(p, q - p, "?");
        ++n;
        e.run(Case(phase, x));
      }
  });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["placeholder subsets"] = std::string("every subset of the places of derivations with 1 non-default choice (all subsets up to ") + (thorough ? "12" : "8") + " places, beyond that all of at most 3 and all but at most 2); with 2 choices in the minimal profile (up to 5 places)";
  b["placeholders among others"] = std::string("a placeholder in each place, and in all, of constructs and derivations with 1 non-default choice") + (thorough ? "" : " (full profile: 0)") + ", with every other name, number and string replaced by unusual ones" + (thorough ? ", pairs by near-equal ones," : "") + " and given 9 lengths up to 1000";
  b["operands"] = "every leaf of the derivations with 1 non-default choice and placeholders replaced by 61 forms of operands, each with a placeholder in each of its places";
  b["sequences"] = thorough ? "7 of 21 clauses, 6 of 27 expression parts, lists of 4 of 18 statements, 6 of 14 marks" : "6 of 21 clauses, 5 of 27 expression parts, lists of up to 4 of 18 statements, 5 of 14 marks";
  b["many placeholders"] = "0..130 in 12 lists, up to 1025";
}
