#include "families.h"

#include "gen.h"

#include <pthread.h>

#include <algorithm>
#include <set>

static std::string num(size_t i) { return std::to_string(i); }
// item(0) sep item(1) sep ... item(n-1)
static std::string rep(size_t n, const std::function<std::string(size_t)>& item, const char* sep = ", ") {
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    if (i) s += sep;
    s += item(i);
  }
  return s;
}
static std::string rep(size_t n, const std::string& item, const char* sep = ", ") {
  return rep(n, [&](size_t) { return item; }, sep);
}
static std::string name(size_t i) { return "c" + num(i); }
// open ... open core close ... close
static std::string nest(size_t n, const std::string& open, const std::string& core, const std::string& close) {
  std::string s;
  for (size_t i = 0; i < n; ++i) s += open;
  s += core;
  for (size_t i = 0; i < n; ++i) s += close;
  return s;
}

const std::vector<Family>& families() {
  using S = size_t;
  static const std::vector<Family> f = [] {
    std::vector<Family> v;
    auto list = [&](const char* n, std::function<std::string(S)> t) { v.push_back({n, false, std::move(t)}); };
    auto deep = [&](const char* n, std::function<std::string(S)> t) { v.push_back({n, true, std::move(t)}); };
    // Lists (number of items; one item at least where the dialect needs one).
    list("select list", [](S n) { return "SELECT " + rep(n + 1, name) + " FROM t"; });
    list("select list with aliases", [](S n) { return "SELECT " + rep(n + 1, [](S i) { return name(i) + (i % 2 ? " AS a" : " b") + num(i); }); });
    list("select list of literals", [](S n) {
      return "SELECT " + rep(n + 1, [](S i) {
               switch (i % 6) {
                 case 0: return num(i);
                 case 1: return "'s" + num(i) + "'";
                 case 2: return num(i) + ".5";
                 case 3: return "t." + name(i);
                 case 4: return std::string("NULL");
                 default: return "\"Q " + num(i) + "\"";
               }
             });
    });
    list("cross product", [](S n) { return "SELECT * FROM " + rep(n + 1, name); });
    list("cross product with aliases", [](S n) { return "SELECT * FROM " + rep(n + 1, [](S i) { return "s." + name(i) + (i % 2 ? " AS x" : " y") + num(i); }) + " WHERE a"; });
    list("joins", [](S n) { return "SELECT * FROM t" + rep(n, [](S i) { return " JOIN " + name(i) + " ON a = " + num(i); }, ""); });
    list("joins of all kinds", [](S n) {
      static const char* k[] = {" LEFT JOIN ", " RIGHT OUTER JOIN ", " FULL JOIN ", " INNER JOIN ", " NATURAL JOIN ", " JOIN ", " CROSS JOIN "};
      return "SELECT * FROM t" + rep(n, [&](S i) {
               return k[i % 7] + name(i) + (i % 7 == 4 ? "" : i % 7 == 5 ? " USING ( u, v )" : " ON a = b");
             }, "");
    });
    list("conjunction", [](S n) { return "SELECT * FROM t WHERE " + rep(n + 1, [](S i) { return name(i) + " = " + num(i); }, " AND "); });
    list("disjunction", [](S n) { return "SELECT * FROM t WHERE " + rep(n + 1, name, " OR "); });
    list("and or", [](S n) { return "SELECT * FROM t WHERE a" + rep(n, [](S i) { return (i % 3 == 2 ? " OR " : " AND ") + name(i); }, ""); });
    list("sum", [](S n) { return "SELECT " + rep(n + 1, name, " + "); });
    list("mixed arithmetic", [](S n) {
      static const char* k[] = {" + ", " * ", " - ", " / ", " % ", " - - ", " ^ "};
      return "SELECT a" + rep(n, [&](S i) { return k[i % 7] + name(i); }, "");
    });
    list("concatenation", [](S n) { return "SELECT " + rep(n + 1, [](S i) { return "'" + num(i) + "'"; }, " || "); });
    list("null tests", [](S n) { return "SELECT a" + rep(n, [](S i) { return i % 2 ? " IS NOT NULL" : " IS NULL"; }, ""); });
    list("array accesses", [](S n) { return "SELECT a" + rep(n, [](S i) { return "[" + num(i) + "]"; }, ""); });
    list("arguments", [](S n) { return n ? "SELECT f ( " + rep(n, name) + " )" : std::string("SELECT f ( )"); });
    list("distinct arguments", [](S n) { return "SELECT f ( DISTINCT " + rep(n + 1, name) + " ) OVER ( )"; });
    list("partitions", [](S n) { return "SELECT f ( a ) OVER ( PARTITION BY " + rep(n + 1, name) + " ORDER BY d ROWS 1 PRECEDING )"; });
    list("window order", [](S n) { return "SELECT f ( a ) OVER ( ORDER BY " + rep(n + 1, [](S i) { return name(i) + (i % 2 ? " DESC" : ""); }) + " )"; });
    list("case branches", [](S n) { return "SELECT CASE" + rep(n + 1, [](S i) { return " WHEN " + name(i) + " THEN " + num(i); }, "") + " ELSE z END"; });
    list("case branches with operand", [](S n) { return "SELECT CASE a" + rep(n + 1, [](S i) { return " WHEN " + num(i) + " THEN " + name(i); }, "") + " END AS x, b"; });
    list("in list", [](S n) { return "SELECT a IN ( " + rep(n + 1, num) + " )"; });
    list("not in list", [](S n) { return "DELETE FROM t WHERE a NOT IN ( " + rep(n + 1, name) + " )"; });
    list("array", [](S n) { return "SELECT ARRAY [ " + rep(n + 1, name) + " ]"; });
    list("group by", [](S n) { return "SELECT a FROM t GROUP BY " + rep(n + 1, name) + " HAVING b"; });
    list("order by", [](S n) {
      return "SELECT a FROM t ORDER BY " + rep(n + 1, [](S i) { return name(i) + (i % 3 == 1 ? " DESC" : i % 3 == 2 ? " ASC NULLS LAST" : ""); }) + " LIMIT 1";
    });
    list("with", [](S n) { return "WITH " + rep(n + 1, [](S i) { return name(i) + " AS ( SELECT " + num(i) + " )"; }) + " SELECT a"; });
    list("lockings", [](S n) { return "SELECT a FROM t" + rep(n, [](S i) { return " FOR UPDATE OF " + name(i) + (i % 2 ? " NOWAIT" : ""); }, ""); });
    list("locked tables", [](S n) { return "SELECT a FROM t FOR SHARE OF " + rep(n + 1, name) + " SKIP LOCKED"; });
    list("using", [](S n) { return "SELECT a FROM t JOIN u USING ( " + rep(n + 1, name) + " )"; });
    list("alias columns", [](S n) { return "SELECT a FROM t AS x ( " + rep(n + 1, name) + " )"; });
    list("hints", [](S n) { return "SELECT a FROM t WITH HINT ( " + rep(n + 1, [](S i) { return i % 2 ? name(i) : name(i) + " ( " + num(i) + ", 'x' )"; }) + " )"; });
    list("hint arguments", [](S n) { return "SELECT a FROM t WITH HINT ( h ( " + rep(n + 1, num) + " ) )"; });
    list("values", [](S n) { return "INSERT INTO t VALUES ( " + rep(n + 1, num) + " )"; });
    list("mixed values", [](S n) {
      return "INSERT INTO t VALUES ( " + rep(n + 1, [](S i) {
               switch (i % 7) {
                 case 0: return "'" + num(i) + "'";
                 case 1: return "- " + num(i);
                 case 2: return num(i) + ".25";
                 case 3: return std::string("NULL");
                 case 4: return std::string("TRUE");
                 case 5: return std::string("DATE '2020-01-01'");
                 default: return num(i) + " DAYS";
               }
             }) + " )";
    });
    list("insert columns", [](S n) { return "INSERT INTO t ( " + rep(n + 1, name) + " ) VALUES ( 1 )"; });
    list("insert columns and values", [](S n) { return "INSERT INTO t ( " + rep(n + 1, name) + " ) VALUES ( " + rep(n + 1, num) + " )"; });
    list("update", [](S n) { return "UPDATE t SET " + rep(n + 1, [](S i) { return name(i) + " = " + num(i); }) + " WHERE a"; });
    list("execute", [](S n) { return n ? "EXECUTE p ( " + rep(n, num) + " )" : std::string("EXECUTE p"); });
    list("columns", [](S n) { return "CREATE TABLE t ( " + rep(n + 1, [](S i) { return name(i) + (i % 3 == 0 ? " INT" : i % 3 == 1 ? " VARCHAR ( " + num(i) + " ) NOT NULL" : " DECIMAL ( " + num(i) + ", 2 )"); }) + " )"; });
    list("table constraints", [](S n) {
      return "CREATE TABLE t ( a INT" + rep(n, [](S i) { return i % 3 == 0 ? ", UNIQUE ( " + name(i) + " )" : i % 3 == 1 ? ", PRIMARY KEY ( " + name(i) + ", x )" : ", FOREIGN KEY ( " + name(i) + " ) REFERENCES r ( " + name(i) + " )"; }, "") + " )";
    });
    list("column references", [](S n) { return "CREATE TABLE t ( a INT" + rep(n, [](S i) { return " REFERENCES r" + num(i) + " ( " + name(i) + " )"; }, "") + " )"; });
    list("constraint columns", [](S n) { return "CREATE TABLE t ( a INT, UNIQUE ( " + rep(n + 1, name) + " ) )"; });
    list("foreign key columns", [](S n) { return "CREATE TABLE t ( a INT, FOREIGN KEY ( " + rep(n + 1, name) + " ) REFERENCES r ( " + rep(n + 1, name) + " ) )"; });
    list("index columns", [](S n) { return "CREATE INDEX i ON t ( " + rep(n + 1, name) + " )"; });
    list("view columns", [](S n) { return "CREATE VIEW v ( " + rep(n + 1, name) + " ) AS SELECT a"; });
    list("statements", [](S n) { return rep(n + 1, [](S i) { return "SELECT " + name(i); }, "; "); });
    list("statements of all kinds", [](S n) {
      static const char* k[] = {"SELECT a", "INSERT INTO t VALUES ( 1 )", "DROP TABLE t", "BEGIN", "SHOW TABLES", "UPDATE t SET a = 1", "DELETE FROM t", "EXECUTE p", "CREATE TABLE t ( a INT )", "PREPARE p FROM 'x'", "COPY t TO 'f'"};
      return rep(n + 1, [&](S i) { return std::string(k[i % 11]); }, ";\n") + ";";
    });
    list("placeholders", [](S n) { return "SELECT " + rep(n + 1, "?"); });
    list("placeholder values", [](S n) { return "INSERT INTO t VALUES ( " + rep(n + 1, "?") + " )"; });
    list("statements with placeholders", [](S n) { return rep(n + 1, "DELETE FROM t WHERE a = ?", "; "); });
    list("betweens", [](S n) { return "SELECT * FROM t WHERE " + rep(n + 1, [](S i) { return name(i) + " BETWEEN 1 AND " + num(i); }, " AND "); });
    list("sub-selects side by side", [](S n) { return "SELECT " + rep(n + 1, [](S i) { return "( SELECT " + name(i) + " FROM t )"; }); });
    list("functions side by side", [](S n) { return "SELECT " + rep(n + 1, [](S i) { return "f" + num(i) + " ( a, 1 )"; }, " + "); });
    list("exists side by side", [](S n) { return "SELECT a WHERE " + rep(n + 1, "EXISTS ( SELECT b )", " AND "); });
    // Lengths.
    list("name length", [](S n) { return "SELECT a" + std::string(n, 'x') + " FROM t" + std::string(n, '_'); });
    list("quoted name length", [](S n) { return "SELECT \"a" + std::string(n, ' ') + "\" AS \"b" + std::string(n, '\xc3') + "\""; });
    list("string length", [](S n) { return "SELECT '" + std::string(n, 's') + "', '" + std::string(n, '\n') + "'"; });
    list("quotes in a string", [](S n) { return "SELECT '" + rep(n, "''", "") + "', 'a" + rep(n, "''b", "") + "'"; });
    list("file name length", [](S n) { return "IMPORT FROM CSV FILE '" + std::string(n, 'f') + "' INTO t"; });
    list("query length", [](S n) { return "PREPARE p FROM 'SELECT " + std::string(n, 'q') + "'"; });
    list("leading zeros", [](S n) { return "SELECT " + std::string(n, '0') + "42, " + std::string(n, '0') + "1.5"; });
    list("decimal places", [](S n) { return "SELECT 1." + std::string(n, '3') + ", ." + std::string(n, '0') + "7"; });
    list("digits before the point", [](S n) { return "SELECT " + std::string(std::min<S>(n, 300) + 1, '9') + ".0"; });
    list("white space", [](S n) { return "SELECT" + std::string(n + 1, ' ') + "a" + std::string(n, '\n') + ", b" + std::string(n, '\t') + ";" + std::string(n, '\r'); });
    list("comment length", [](S n) { return "SELECT a --" + std::string(n, 'c') + "\n, b --" + std::string(n, '-') + "\n;--" + std::string(n, '\''); });
    list("comments", [](S n) { return "SELECT a" + rep(n, "-- c\n", "") + ", b " + rep(n, "--\n", " ") + ";" + rep(n, "-- ;\n", ""); });
    list("line length before an error", [](S n) { return "SELECT " + rep(n + 1, name) + " FROM FROM"; });
    list("lines before an error", [](S n) { return "SELECT " + rep(n + 1, name, ",\n") + " FROM\nFROM"; });
    list("statements before an error", [](S n) { return rep(n + 1, "SELECT ?", ";") + "; SELECT FROM"; });
    // Nestings.
    deep("parentheses", [](S n) { return "SELECT " + nest(n, "( ", "a", " )"); });
    deep("parentheses around a sum", [](S n) { return "SELECT " + nest(n, "( ", "a + b", " )") + " * c"; });
    deep("sum in parentheses", [](S n) { return "SELECT " + nest(n, "( a + ", "b", " )"); });
    deep("difference in parentheses", [](S n) { return "SELECT " + nest(n, "( ", "b", " - a )"); });
    deep("minus", [](S n) { return "SELECT " + nest(n, "- ", "a", ""); });
    deep("not", [](S n) { return "SELECT " + nest(n, "NOT ", "a", ""); });
    deep("not in parentheses", [](S n) { return "SELECT " + nest(n, "NOT ( ", "a", " )"); });
    deep("functions", [](S n) { return "SELECT " + nest(n, "f ( ", "a", " )"); });
    deep("functions with arguments", [](S n) { return "SELECT " + nest(n, "f ( b, ", "a", ", c )"); });
    deep("casts", [](S n) { return "SELECT " + nest(n, "CAST ( ", "a", " AS INT )"); });
    deep("extracts", [](S n) { return "SELECT " + nest(n, "EXTRACT ( DAY FROM ", "a", " )"); });
    deep("arrays", [](S n) { return "SELECT " + nest(n, "ARRAY [ ", "a", " ]"); });
    deep("case operand", [](S n) { return "SELECT " + nest(n, "CASE ", "a", " WHEN b THEN c END"); });
    deep("case condition", [](S n) { return "SELECT " + nest(n, "CASE WHEN ", "a", " THEN b ELSE c END"); });
    deep("case result", [](S n) { return "SELECT " + nest(n, "CASE WHEN b THEN ", "a", " END"); });
    deep("case else", [](S n) { return "SELECT " + nest(n, "CASE WHEN b THEN c ELSE ", "a", " END"); });
    deep("in", [](S n) { return "SELECT " + nest(n, "b IN ( ", "a", " )"); });
    deep("sub-select in expression", [](S n) { return "SELECT " + nest(n, "( SELECT ", "a", " )"); });
    deep("sub-select in where", [](S n) { return "SELECT a FROM t WHERE " + nest(n, "b = ( SELECT c FROM u WHERE ", "d", " )"); });
    deep("sub-select in from", [](S n) { return "SELECT a FROM " + nest(n, "( SELECT b FROM ", "t", " ) x"); });
    deep("exists", [](S n) { return "SELECT a WHERE " + nest(n, "EXISTS ( SELECT b WHERE ", "c", " )"); });
    deep("in select", [](S n) { return "SELECT a WHERE " + nest(n, "b IN ( SELECT c WHERE ", "d", " )"); });
    deep("unions", [](S n) { return "SELECT a" + rep(n, [](S i) { return " UNION SELECT " + name(i); }, ""); });
    deep("set operations", [](S n) {
      static const char* k[] = {" UNION ALL ", " INTERSECT ", " EXCEPT ", " UNION ", " INTERSECT ALL ", " EXCEPT ALL "};
      return "SELECT a FROM t" + rep(n, [&](S i) { return k[i % 6] + ("SELECT " + name(i)); }, "") + " ORDER BY z LIMIT 3";
    });
    deep("unions in parentheses", [](S n) { return nest(n, "( ", "SELECT a", " UNION SELECT b )") + " UNION SELECT c"; });
    deep("unions in parentheses on the right", [](S n) { return nest(n, "SELECT b UNION ( ", "SELECT a", " )"); });
    deep("with", [](S n) { return nest(n, "WITH w AS ( ", "SELECT a", " ) SELECT b"); });
    deep("nested joins", [](S n) { return "SELECT a FROM t" + rep(n, " JOIN u", "") + rep(n, " ON b", ""); });
    deep("joins in sub-selects", [](S n) { return "SELECT a FROM " + nest(n, "t JOIN ( SELECT b FROM ", "u", " ) x ON c"); });
    deep("comparisons in parentheses", [](S n) { return "SELECT " + nest(n, "( b = ", "a", " )"); });
    deep("between", [](S n) { return "SELECT " + nest(n, "( b BETWEEN 1 AND ", "a", " )"); });
    deep("windows", [](S n) { return "SELECT " + nest(n, "f ( a ) OVER ( PARTITION BY ", "b", " )"); });
    deep("window order", [](S n) { return "SELECT " + nest(n, "f ( a ) OVER ( ORDER BY ", "b", " DESC )"); });
    deep("array index of parentheses", [](S n) { return "SELECT " + nest(n, "( ", "a", " [ 1 ] )"); });
    deep("limits", [](S n) { return nest(n, "SELECT a LIMIT ( ", "SELECT b", " )"); });
    deep("casts in values", [](S n) { return "INSERT INTO t VALUES ( " + nest(n, "CAST ( ", "1", " AS INT )") + " )"; });
    deep("sub-selects of statements", [](S n) { return "INSERT INTO t SELECT a FROM " + nest(n, "( SELECT b FROM ", "t", " ) x"); });
    deep("exponents", [](S n) { return "SELECT " + rep(n + 1, name, " ^ "); });
    deep("null tests of not", [](S n) { return "SELECT " + nest(n, "NOT ", "a", " IS NULL"); });
    return v;
  }();
  return f;
}

unsigned family_kinds(const Family& f) {
  const std::string s = f.text(11);
  auto bit = [](GenKind k) { return 1u << k; };
  unsigned r = 0;
  auto add = [&](const char* word, unsigned kinds) {
    if (s.find(word) != std::string::npos) r |= kinds;
  };
  add("SELECT", bit(G_SELECT));
  add("CREATE TABLE", bit(G_CREATE_TABLE));
  add("CREATE INDEX", bit(G_CREATE_OTHER));
  add("CREATE VIEW", bit(G_CREATE_OTHER));
  add("INSERT", bit(G_INSERT));
  add("UPDATE t", bit(G_UPDATE));
  add("DELETE", bit(G_DELETE));
  add("COPY", bit(G_IMPORT) | bit(G_EXPORT));
  add("IMPORT", bit(G_IMPORT));
  add("PREPARE", bit(G_PREPARE));
  add("EXECUTE", bit(G_EXECUTE));
  add("DROP", bit(G_DROP));
  return r;
}

const Family* family(const std::string& n) {
  const bool nested = n.compare(0, 5, "deep ") == 0;
  for (auto& f : families())
    if (f.nested == nested && f.name == (nested ? n.substr(5) : n)) return &f;
  return nullptr;
}

std::vector<size_t> family_sizes(size_t most, size_t dense) {
  std::set<size_t> s;
  for (size_t i = 0; i <= dense; ++i) s.insert(i);
  for (size_t p = 64; p <= most; p *= 2)
    for (size_t d : {p - 2, p - 1, p, p + 1}) s.insert(d);
  for (size_t p = 100; p <= most; p *= 10)
    for (size_t d : {p - 2, p - 1, p, p + 1, 2 * p, 5 * p}) s.insert(d);
  std::vector<size_t> r;
  for (size_t x : s)
    if (x <= most) r.push_back(x);
  return r;
}

void on_big_stack(const std::function<void()>& f) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, size_t(1) << 30);
  pthread_t t;
  auto run = [](void* p) -> void* {
    (*static_cast<const std::function<void()>*>(p))();
    return nullptr;
  };
  if (pthread_create(&t, &a, run, const_cast<std::function<void()>*>(&f)) == 0) pthread_join(t, nullptr);
  pthread_attr_destroy(&a);
}
