#include "explore.h"

#include <cstring>

#include "families.h"
#include "ref.h"

const Tokens& alphabet() {
  static const Tokens t = [] {
    Tokens r = {"a", "b", "\"q\"", "1", "2", "0", "1.5", "'s'", "'2020-01-01'", "'1 day'", "CSV", "TBL", "DELIMITER"};
    for (int k = ref::K_ADD; k < ref::K_END_OF_KINDS; ++k) r.push_back(ref::keyword_name(k));
    for (const char* s : {"NULLS FIRST", "NULLS LAST", "CURRENT ROW", "CHARACTER VARYING", "==", "!=", "<>", "<=", ">=",
                          "||", "!", "$", "'", "\"", "#", "&", "@", "\\", "`", "~", "\x80"})
      r.push_back(s);
    for (char c : std::string("+-/:*,.()<>=;?%^[]{}|_")) r.push_back(std::string(1, c));
    return r;
  }();
  return t;
}

void sentences(Engine& e, unsigned kinds, GenOptions o, int bound, const TokensFn& f) {
  for (int k = 0; k < G_KINDS; ++k) {
    if (!(kinds >> k & 1)) continue;
    o.kind = GenKind(k);
    enumerate(o, bound, e.shard, e.shards, [&](const Tokens& t) {
      if (!e.stop()) f(t);
    });
  }
}

std::vector<Tokens> bases(unsigned kinds, GenOptions o, int bound) {
  std::vector<Tokens> r;
  for (int k = 0; k < G_KINDS; ++k) {
    if (!(kinds >> k & 1)) continue;
    o.kind = GenKind(k);
    enumerate(o, bound, 0, 1, [&](const Tokens& t) { r.push_back(t); });
  }
  return r;
}

void trie(Engine& e, const std::string& prefix, const Tokens& tokens, int depth, const TextFn& f,
          const std::string& suffix) {
  std::function<void(const std::string&, int)> visit = [&](const std::string& text, int d) {
    for (auto& t : tokens) {
      if (e.stop()) return;
      const bool unit = d == 1 || depth == 1;
      if (unit && d < 2 && !e.mine()) continue;
      std::string s = text;
      if (!s.empty() && s.back() != '(' && s.back() != ' ') s += ' ';
      s += t;
      if (d > 0 || depth == 1 || e.mine()) f(suffix.empty() ? s : s + suffix);
      if (d + 1 >= depth) continue;
      if (ref::continuable(s)) visit(s, d + 1);
    }
  };
  visit(prefix, 0);
}

void mutate(const Tokens& base, const Tokens& tokens, const TokensFn& f) {
  Tokens t = base;
  f(t);
  for (size_t p = 0; p < base.size(); ++p) {
    t = base;
    t.erase(t.begin() + long(p));
    f(t);
    t = base;
    t.insert(t.begin() + long(p), base[p]);
    f(t);
    if (p + 1 < base.size()) {
      t = base;
      std::swap(t[p], t[p + 1]);
      f(t);
    }
    f(Tokens(base.begin(), base.begin() + long(p)));
    t = base;
    for (auto& a : tokens) {
      t[p] = a;
      f(t);
    }
    t = base;
    t.insert(t.begin() + long(p), "");
    for (auto& a : tokens) {
      t[p] = a;
      f(t);
    }
  }
  t = base;
  t.push_back("");
  for (auto& a : tokens) {
    t.back() = a;
    f(t);
  }
}

namespace {

enum Class { OTHER, NAME, NUMBER, STRING };
Class class_of(const std::string& w) {
  if (w[0] == 'n' && w.size() > 1 && w[1] >= '0' && w[1] <= '9') return NAME;
  if (w[0] == '"' && w.size() > 2) return NAME;
  if (w[0] >= '0' && w[0] <= '9') return NUMBER;
  if (w[0] == '\'') return STRING;
  return OTHER;
}

const Tokens& unusual(Class c) {
  static const Tokens names = {"a",          "A",        "_dummy",  "\"select\"", "\"a b\"", "\" \"", "\"a\"\"b\"", "N0",
                               "x_1_y_2",    "\"x.y\"",  "\"*\"",   "\"?\"",      "\"--\"",  "\"'\"",
                               std::string(64, 'n'), std::string(300, 'm'), "\"" + std::string(257, 'Q') + "\"", "\"\xc3\xa4\xff\"",
                               // What functions, tables and columns are often called, and words that are not reserved.
                               "COUNT", "count", "MIN", "max", "SUM", "AVG", "COALESCE", "NOW", "SUBSTR", "ROUND", "ABS", "ROW_NUMBER", "id", "ID", "name", "user", "rowid", "dual", "public", "tmp", "test",
                               "information_schema", "tables", "value", "year_", "true_", "nulls", "first", "last", "csv", "tbl", "bin", "format", "key_", "\"a \"", "\" a\"", "\"A\"", "\"NULL\"", "\"null\"", "\"TRUE\"",
                               "\"_\"", "\"_a\"", "\"$1\"", "\"?column?\"", "\"0\"", "\"1\"", "\"1a\"", "\"-\"", "\"%\"", "\"%s%n\"", "\"/\"", "\"\\\"", "\"\n\"", "\"\t\"", "\"\r\"", "\";\"", "\"(\"", "\".\"", "\"a.b.c\"", "\"#t\"", "\"$\"", "\"@\"", "z9", "a__", "e1", "x"};
  static const Tokens numbers = {"0", "1", "00", "007", "2147483647", "2147483648", "4294967296", "9223372036854775807",
                                 "9223372036854775808", "1.0", "'1'", "-1", "255", "256", "65536", "2", "3", "4", "5", "6", "7", "8", "9", "10", "12", "15", "16", "17", "18", "19", "20", "24", "31", "32", "33",
                                 "38", "39", "60", "63", "64", "65", "99", "100", "101", "127", "128", "129", "254", "257", "365", "511", "512", "999", "1000", "1001", "1023", "1024", "1025", "4095", "4096",
                                 "32767", "32768", "65534", "65535", "99999", "100000", "999999", "1000000", "16777215", "16777216", "16777217", "2147483646", "4294967295", "4294967297", "9007199254740991",
                                 "9007199254740992", "9007199254740993", "9223372036854775806", "0.0", "0.5", "1.5", "99.99", "0.1", "1000000.0", "123456789.123456789", "-0", "-9223372036854775808"};
  static const Tokens strs = {"''", "''''", "'a''b'", "' '", "'\"'", "';'", "'--'", "'?'", "'\n'", "'0'", "'NULL'", "'csv'",
                              "'2020-02-29'", "'1 year'", "'" + std::string(300, 's') + "'", "'\\'", "'\xc3\xa4\xff'", "1", "a",
                              "'x.csv'", "'x.CSV'", "'f.tbl'", "'f.bin'", "'.csv'", "'/'", "'a/b.csv'", "'/a/b c.tbl'", "'UTF-8'", "'utf8'", "'Dialect'", "'SELECT a;'", "'SELECT ?'", "';SELECT a'",
                              "' a'", "'a '", "'\t'", "'\r\n'", "','", "'|'", "'\\t'", "'\\n'", "'a,b'", "'%'", "'_'", "'%s%n'", "'null'", "'true'", "'1.5'", "'-1'", "'1e5'", "'1970-01-01'",
                              "'0001-01-01'", "'9999-12-31'", "'2021-02-29'", "'1900-02-29'", "'2000-02-29'", "'2020-1-1'", "'0 days'", "'1 day'", "'2 years'", "'12 months'", "'999 seconds'",
                              "'''a'''", "'a'''", "'''a'", "'\"a\"'", "'A'", "'\x01'", "'\x7f'", "'\x80'"};
  static const Tokens none;
  return c == NAME ? names : c == NUMBER ? numbers : c == STRING ? strs : none;
}

}  // namespace

const Tokens& unusual_names() { return unusual(NAME); }

void substitute(const Tokens& base, const TokensFn& f) {
  std::vector<size_t> name_at;
  Tokens t = base;
  for (size_t p = 0; p < base.size(); ++p) {
    const Class c = class_of(base[p]);
    if (c == NAME) name_at.push_back(p);
    for (auto& x : unusual(c)) {
      t[p] = x;
      f(t);
    }
    t[p] = base[p];
  }
  for (size_t i = 0; i < name_at.size(); ++i) {
    for (size_t j = i + 1; j < name_at.size(); ++j) {
      t[name_at[j]] = base[name_at[i]];
      f(t);
      t[name_at[j]] = base[name_at[j]];
    }
  }
}

void substitute_pairs(const Tokens& base, const TokensFn& f, size_t equal) {
  using Pairs = std::vector<std::pair<std::string, std::string>>;
  static const Pairs names = {{"a", "a"}, {"a", "A"}, {"A", "a"}, {"a", "\"a\""}, {"a", "\"a \""}, {"ab", "a"}, {"a", "ab"}, {"\"\xc3\xa4\"", "\"\xc3\x84\""}, {"b", "a"}, {"\" \"", "\"  \""}};
  static const Pairs numbers = [] {
    Pairs r;
    for (const char* x : {"0", "1", "2", "100", "256", "4294967297"})
      for (const char* y : {"0", "1", "2", "100", "256", "4294967297"}) r.emplace_back(x, y);
    return r;
  }();
  static const Pairs strs = [] {
    Pairs r;
    for (const char* x : {"''", "'a'", "'A'", "'a '", "'''", "';'"})
      for (const char* y : {"''", "'a'", "'A'", "'a '", "'b'"}) r.emplace_back(x, y);
    return r;
  }();
  Tokens t = base;
  for (size_t i = 0; i < base.size(); ++i) {
    const Class c = class_of(base[i]);
    if (c == OTHER) continue;
    for (size_t j = i + 1; j < base.size(); ++j) {
      if (class_of(base[j]) != c) continue;
      for (auto& x : c == NAME ? names : c == NUMBER ? numbers : strs) {
        t[i] = x.first;
        t[j] = x.second;
        f(t);
      }
      t[j] = base[j];
    }
    t[i] = base[i];
  }
  // Every way in which the names equal one another (all of them alike, or all but one, where there are many); the same
  // for the strings and the numbers.
  for (const Class c : {NAME, STRING, NUMBER}) {
    std::vector<size_t> places;
    for (size_t i = 0; i < base.size(); ++i)
      if (class_of(base[i]) == c) places.push_back(i);
    if (places.size() < 3) continue;
    auto word = [&](size_t n) { return c == NAME ? std::string(1, char('a' + n)) : c == STRING ? "'" + std::string(1, char('a' + n)) + "'" : std::to_string(n + 7); };
    t = base;
    if (places.size() <= equal) {
      std::function<void(size_t, size_t)> fill = [&](size_t i, size_t used) {
        if (i == places.size()) return f(t);
        for (size_t n = 0; n <= used; ++n) {
          t[places[i]] = word(n);
          fill(i + 1, std::max(used, n + 1));
        }
      };
      fill(0, 0);
      continue;
    }
    for (size_t i : places) t[i] = word(0);
    f(t);
    for (size_t i : places) {
      t[i] = base[i];
      f(t);
      t[i] = word(0);
    }
  }
}

// n bytes of letters beyond ASCII.
static std::string letters(size_t n) {
  std::string s(n % 2, 'a');
  while (s.size() < n) s += "\xc3\xa4";
  return s;
}

void substitute_lengths(const Tokens& base, const std::vector<size_t>& lengths, const TokensFn& f) {
  Tokens t = base;
  for (size_t p = 0; p < base.size(); ++p) {
    const Class c = class_of(base[p]);
    for (size_t n : lengths) {
      if (n == 0 && c != STRING) continue;
      if (c == NAME) {
        t[p] = std::string(n, 'n');
        f(t);
        t[p] = "\"" + std::string(n, ' ') + "\"";
        f(t);
        t[p] = "\"" + letters(n) + "\"";
        f(t);
      } else if (c == STRING) {
        t[p] = "'" + std::string(n, 's') + "'";
        f(t);
        t[p] = "'" + letters(n) + "'";
        f(t);
      } else if (c == NUMBER && n <= 400) {
        t[p] = std::string(n - 1, '0') + "7";
        f(t);
        if (n < 20) {
          t[p] = "1" + std::string(n - 1, '0');
          f(t);
        }
      }
    }
    t[p] = base[p];
  }
}

const Tokens& operand_forms() {
  static const Tokens r = {"a", "1", "'s'", "NULL", "TRUE", "( a + b )", "f ( a )", "- a", "?", "1.5", "( SELECT a )", "t . a", "( a AND b )", "NOT a",  // the most different ones first
                           "0", "2", "FALSE", "''", "0.0", "- 1", "-9223372036854775808", "DATE '2020-01-31'", "INTERVAL '7' DAY", "INTERVAL '8 days'", "3 DAYS", "*", "t . *", "f ( )", "s . f ( a )", "f ( DISTINCT a )",
                           "f ( a ) OVER ( )", "COUNT ( * )", "( a )", "( 1 )", "( a = b )", "( NOT a )", "( a OR b )", "( a || b )", "( a - b )", "( - 1 )", "( a ^ b )", "( a IS NULL )", "EXISTS ( SELECT a )", "CASE WHEN a THEN b END",
                           "CASE a WHEN b THEN c ELSE d END", "EXTRACT ( DAY FROM a )", "CAST ( a AS INT )", "CAST ( '1' AS DATE )", "ARRAY [ a , b ]", "a [ 1 ]", "a IN ( b )", "( a IN ( SELECT b ) )", "( a NOT IN ( b , c ) )",
                           "a BETWEEN b AND c", "( a BETWEEN b AND c )", "a LIKE 'x%'", "a IS NULL", "A", "\"a\"", "( SELECT a FROM b ORDER BY c LIMIT 1 )", "TRUE = TRUE"};
  return r;
}

void substitute_operands(const Tokens& base, size_t pairs, const TokensFn& f) {
  const Tokens& forms = operand_forms();
  Tokens t = base;
  for (size_t i = 0; i < base.size(); ++i) {
    if (class_of(base[i]) == OTHER) continue;
    for (auto& x : forms) {
      t[i] = x;
      f(t);
    }
    for (size_t j = i + 1; j < base.size() && pairs; ++j) {
      if (class_of(base[j]) == OTHER) continue;
      for (size_t x = 0; x < pairs && x < forms.size(); ++x)
        for (size_t y = 0; y < pairs && y < forms.size(); ++y) {
          t[i] = forms[x];
          t[j] = forms[y];
          f(t);
        }
      t[j] = base[j];
    }
    t[i] = base[i];
  }
}

void nest_parts(const Tokens& base, size_t longest, const TokensFn& f) {
  if (base.size() > 60) return;
  const std::string whole = join(base);
  auto with = [](const Tokens& t, size_t i, size_t j) { return join(Tokens(t.begin() + long(i), t.begin() + long(j))); };
  for (size_t i = 0; i < base.size(); ++i)
    for (size_t j = i + 2; j <= base.size() && j - i <= longest; ++j) {
      const std::string part = with(base, i, j);
      if (!ref::parse("SELECT a IN ( " + part + " )").valid) continue;
      Tokens t = base;
      for (size_t p = i; p < j; ++p) {
        if (class_of(base[p]) == OTHER) continue;
        for (const std::string& once : {part, "( " + part + " )", "( " + part + " ) AS x"}) {
          t[p] = once;
          if (!ref::parse(join(t)).valid) continue;
          f(t);
          // And the part inside of itself inside of itself.
          Tokens u(base.begin() + long(i), base.begin() + long(j));
          u[p - i] = once;
          t[p] = once[0] == '(' && part != once ? "( " + join(u) + once.substr(once.rfind(')') - 1) : join(u);
          f(t);
        }
        t[p] = base[p];
      }
    }
}

void repeat_parts(const Tokens& base, size_t longest, const std::vector<size_t>& times, const TokensFn& f) {
  auto repeated = [](const Tokens& t, size_t i, size_t j, size_t n) {
    Tokens r(t.begin(), t.begin() + long(i));
    for (; n; --n) r.insert(r.end(), t.begin() + long(i), t.begin() + long(j));
    r.insert(r.end(), t.begin() + long(j), t.end());
    return r;
  };
  if (base.size() > 60 || !ref::parse(join(base)).valid) return;
  std::vector<std::pair<size_t, size_t>> parts;
  for (size_t i = 0; i < base.size(); ++i)
    for (size_t j = i + 1; j <= base.size() && j - i <= longest; ++j)
      if (ref::parse(join(repeated(base, i, j, 2))).valid && ref::parse(join(repeated(base, i, j, 3))).valid) parts.emplace_back(i, j);
  for (auto& p : parts) {
    // Set operations nest to the right, and the parser's stack is limited (which the deep sizes are about).
    const bool nests = std::any_of(base.begin() + long(p.first), base.begin() + long(p.second), [](const std::string& t) { return t == "UNION" || t == "INTERSECT" || t == "EXCEPT"; });
    for (size_t n : times)
      if (n <= 9 || !nests) f(repeated(base, p.first, p.second, n));
  }
  for (auto& p : parts)
    for (auto& q : parts)
      if (p.second <= q.first)
        for (size_t n : {2, 3})
          for (size_t m : {2, 3}) f(repeated(repeated(base, q.first, q.second, m), p.first, p.second, n));
}

// One text for every construct that is more than one choice away from the default derivations.
std::vector<Tokens> constructs(unsigned kinds) {
  std::vector<Tokens> r;
  auto add = [&](const std::string& s) {
    Tokens t;
    size_t names = 0, numbers = 0, strs = 0;
    for (size_t p = 0; p < s.size();) {
      size_t q = s.find(' ', p);
      if (q == std::string::npos) q = s.size();
      std::string w = s.substr(p, q - p);
      if (w == "N") w = "n" + std::to_string(names++);
      if (w == "I") w = std::to_string(11 + numbers++);
      if (w == "S") w = "'s" + std::to_string(strs++) + "'";
      t.push_back(w);
      p = q + 1;
    }
    r.push_back(t);
  };
  if (kinds & 1u << G_SELECT) {
    for (const char* x : {"N ( DISTINCT N )", "N ( DISTINCT N , N )", "N . N ( N )", "N . N ( DISTINCT N )", "N ( * )", "N ( N . * )", "N ( N AS N , N N )", "N ( N ( N ( N ) ) )", "N ( I , S , N )", "N ( N ) OVER ( )",
                          "N ( N ) OVER ( PARTITION BY N , N ORDER BY N , N DESC )", "N ( ) OVER ( ORDER BY N NULLS FIRST )", "N ( N ) OVER ( ROWS I PRECEDING )", "N ( N ) OVER ( RANGE I FOLLOWING )",
                          "N ( N ) OVER ( GROUPS BETWEEN I PRECEDING AND I FOLLOWING )", "N ( N ) OVER ( ROWS BETWEEN I PRECEDING AND I PRECEDING )", "N ( N ) OVER ( ORDER BY N RANGE BETWEEN I FOLLOWING AND I FOLLOWING )",
                          "N ( N ) OVER ( PARTITION BY N ROWS BETWEEN UNBOUNDED PRECEDING AND I FOLLOWING )", "N ( N ) OVER ( ROWS BETWEEN I PRECEDING AND UNBOUNDED FOLLOWING )", "N . N ( DISTINCT N , N ) OVER ( PARTITION BY N ORDER BY N GROUPS I PRECEDING ) AS N",
                          "N BETWEEN N AND N", "N NOT IN ( N , N , N )", "N IN ( I , I , I )", "N IN ( S , S )", "N BETWEEN I AND I", "N BETWEEN S AND S", "NOT N BETWEEN - I AND I", "N LIKE S", "N NOT LIKE S", "N ILIKE S", "S LIKE N", "S || S || N",
                          "I + I", "I - I", "I * I", "I / I", "I % I", "I ^ I", "I = I", "I < I", "I <= I", "I > I", "I >= I", "I != I", "S = S", "S < S", "N + I", "I * N", "N = N AND N = N", "N = N OR N = N", "N = I AND N = I", "N = I OR N = I", "N AND N AND N", "N OR N OR N",
                          "- I", "- - I", "- N . N", "- ( I )", "NOT N", "NOT ( N AND N )", "N IS NULL", "N . N IS NOT NULL", "( N )", "( I )", "( S )", "( N . N )", "N [ I ]", "N . N [ I ]", "N [ I ] [ I ]", "ARRAY [ N , N , N ]", "ARRAY [ I , I ]", "ARRAY [ S , S ] [ I ]",
                          "CASE N WHEN I THEN I WHEN I THEN I ELSE I END", "CASE WHEN N = I THEN S WHEN N = I THEN S ELSE S END", "CASE N WHEN N THEN N WHEN N THEN N ELSE N END", "CASE WHEN N THEN N WHEN N THEN N END", "CASE WHEN N THEN I END", "CASE I WHEN I THEN S END",
                          "CAST ( N AS VARCHAR ( I ) )", "CAST ( S AS CHAR ( I ) )", "CAST ( I AS DECIMAL ( I , I ) )", "CAST ( N AS DECIMAL ( I ) )", "CAST ( N AS TIME ( I ) )", "CAST ( S AS DATE )", "CAST ( CAST ( I AS INT ) AS TEXT )",
                          "EXTRACT ( YEAR FROM N )", "EXTRACT ( MONTH FROM N . N )", "I DAYS", "- I MONTH", "INTERVAL S DAY", "INTERVAL '11' YEAR", "DATE S", "DATE '2020-01-31'", "N - I DAYS", "N + INTERVAL '11 months'", "I YEAR + I MONTHS",
                          "( SELECT N FROM N WHERE N = I )", "EXISTS ( SELECT N FROM N )", "NOT EXISTS ( SELECT I )", "N IN ( SELECT N FROM N WHERE N )", "N NOT IN ( SELECT I )", "N . * , N . *", "* , N", "N . N AS N", "N . N N", "N AS N , N AS N", "I AS N", "S AS N", "NULL AS N", "TRUE AS N",
                          "( SELECT N ) AS N", "N + N AS N", "I , I , I", "S , S , S", "1.5 , 2.5", "? AS N , ?", "N , N , N , N", "N ( N ) , N ( N )", "N ( N ) AS N , N ( N ) OVER ( ) AS N"})
      add(std::string("SELECT ") + x);
    // What the order by, limit and locking of all places take, in full.
    for (const char* o : {"N NULLS FIRST", "N NULLS LAST", "N ASC NULLS FIRST", "N ASC NULLS LAST", "N DESC NULLS FIRST", "N DESC NULLS LAST"})
      for (const char* x : {"SELECT N FROM N ORDER BY %", "SELECT N ORDER BY % , N LIMIT I OFFSET I", "SELECT N ( N ) OVER ( PARTITION BY N ORDER BY % , N DESC ROWS I PRECEDING )", "SELECT N FROM N UNION ( SELECT N FROM N ORDER BY N ) ORDER BY %",
                            "SELECT N FROM ( SELECT N ORDER BY % ) AS N", "SELECT EXISTS ( SELECT N ORDER BY % )", "WITH N AS ( SELECT N ORDER BY % LIMIT I ) SELECT N"}) {
        std::string text = x;
        add(text.replace(text.find('%'), 1, o));
      }
    for (const char* x : {"SELECT N FROM N , N , N", "SELECT N FROM N . N N , N . N AS N", "SELECT N FROM N AS N ( N , N ) , N AS N ( N )", "SELECT N FROM ( SELECT N FROM N ) N , ( SELECT I ) AS N ( N )", "SELECT N FROM N JOIN N ON N . N = N . N", "SELECT N FROM N AS N LEFT JOIN N . N AS N ON N . N = N . N WHERE N = I",
                          "SELECT N FROM N JOIN N USING ( N , N ) JOIN N USING ( N )", "SELECT N FROM N NATURAL JOIN N NATURAL JOIN N", "SELECT N FROM N CROSS JOIN N", "SELECT N FROM N JOIN N ON I = I JOIN N ON N = N", "SELECT N FROM N FULL JOIN ( SELECT N FROM N ) AS N ON N", "SELECT N FROM ( SELECT N FROM N ) AS N JOIN N ON N",
                          "SELECT DISTINCT N , N FROM N", "SELECT TOP I N FROM N", "SELECT TOP I DISTINCT N", "SELECT N GROUP BY N , N HAVING N = I ORDER BY N , N DESC NULLS LAST LIMIT I OFFSET I", "SELECT N FROM N ORDER BY I , I DESC", "SELECT N FROM N GROUP BY I , I", "SELECT N LIMIT I OFFSET I",
                          "SELECT N OFFSET I", "SELECT N LIMIT ALL OFFSET I", "SELECT N UNION SELECT N", "SELECT N FROM N UNION ALL SELECT N FROM N", "SELECT I UNION SELECT I EXCEPT SELECT I", "( SELECT N ORDER BY N LIMIT I ) INTERSECT ( SELECT N ORDER BY N LIMIT I OFFSET I ) ORDER BY N LIMIT I OFFSET I",
                          "SELECT N FROM N UNION SELECT N FROM N INTERSECT ALL SELECT N FROM N ORDER BY I LIMIT I", "WITH N AS ( SELECT N FROM N ) , N AS ( SELECT I ) SELECT N FROM N , N", "WITH N AS ( SELECT I UNION SELECT I ) SELECT N FROM N WHERE N = I LIMIT I", "SELECT N FROM N FOR UPDATE OF N , N NOWAIT FOR SHARE OF N",
                          "SELECT N FROM N FOR KEY SHARE OF N SKIP LOCKED FOR NO KEY UPDATE OF N , N", "SELECT N FROM N WITH HINT ( N , N ( I , S , NULL ) )", "SELECT N ; SELECT N ; SELECT N", "SELECT I ; SELECT I", "SELECT ? , N FROM N WHERE N = ? LIMIT ?",
                          "SELECT * FROM N AS N ( N , N , N )", "SELECT * FROM ( SELECT I ) AS N ( N , N , N )", "SELECT * FROM N JOIN N USING ( N , N , N )", "SELECT * GROUP BY N , N , N ORDER BY N , N , N", "SELECT * FROM N FOR UPDATE OF N , N , N",
                          "SELECT N ( * ) OVER ( PARTITION BY N , N , N ORDER BY N , N , N )", "SELECT * FROM N , N , N , N , N", "WITH N AS ( SELECT * FROM N ) , N AS ( SELECT * FROM N ) , N AS ( SELECT * FROM N ) SELECT *", "SELECT N . N , N . N FROM N , N"})
      add(x);
  }
  auto other = [&](unsigned kind, std::initializer_list<const char*> list) {
    if (kinds & kind)
      for (auto* x : list) add(x);
  };
  other(1u << G_CREATE_TABLE, {"CREATE TABLE N . N ( N VARCHAR ( I ) , N CHAR ( I ) , N DECIMAL ( I , I ) , N DECIMAL ( I , I ) , N TIME ( I ) )", "CREATE TABLE IF NOT EXISTS N . N ( N INT NOT NULL , N INT NULL , N INT UNIQUE , N INT PRIMARY KEY )",
                               "CREATE TABLE N ( N INT REFERENCES N . N ( N , N ) REFERENCES N ( N ) , N INT REFERENCES N )", "CREATE TABLE N ( N INT , N INT , PRIMARY KEY ( N , N ) , UNIQUE ( N , N ) , FOREIGN KEY ( N , N ) REFERENCES N . N ( N , N ) , FOREIGN KEY ( N ) REFERENCES N )",
                               "CREATE TABLE N ( UNIQUE ( N ) , N INT , PRIMARY KEY ( N ) , N TEXT NOT NULL UNIQUE PRIMARY KEY )", "CREATE TABLE N AS SELECT N , N FROM N . N WHERE N = I", "CREATE TABLE N . N FROM TBL FILE S", "CREATE TABLE IF NOT EXISTS N FROM TBL FILE S",
                               "CREATE TABLE N ( N DECIMAL ( I ) , N DECIMAL , N BIGINT , N DOUBLE )", "CREATE TABLE N ( N INT ) ; CREATE TABLE N ( N INT )"});
  other(1u << G_CREATE_OTHER, {"CREATE VIEW N . N ( N , N , N ) AS SELECT N , N FROM N", "CREATE VIEW IF NOT EXISTS N AS SELECT I , S", "CREATE INDEX N ON N . N ( N , N , N )", "CREATE INDEX IF NOT EXISTS N ON N ( N )", "CREATE INDEX ON N ( N , N )"});
  other(1u << G_DROP, {"DROP TABLE N . N", "DROP TABLE IF EXISTS N . N", "DROP VIEW IF EXISTS N", "DROP VIEW N", "DROP INDEX IF EXISTS N", "DEALLOCATE PREPARE N", "DROP VIEW N . N ; DROP TABLE N . N"});
  other(1u << G_ALTER, {"ALTER TABLE N . N DROP COLUMN N", "ALTER TABLE IF EXISTS N DROP COLUMN IF EXISTS N", "ALTER TABLE IF EXISTS N . N DROP COLUMN IF EXISTS N"});
  other(1u << G_INSERT, {"INSERT INTO N . N ( N , N , N ) VALUES ( I , S , NULL )", "INSERT INTO N VALUES ( I , I , I , - I , S , S , TRUE , 1.5 )", "INSERT INTO N ( N , N ) SELECT N , N FROM N WHERE N = I", "INSERT INTO N . N SELECT * FROM N", "INSERT INTO N VALUES ( CAST ( S AS INT ) , CAST ( I AS VARCHAR ( I ) ) , I DAYS )",
                         "INSERT INTO N VALUES ( S , S )", "INSERT INTO N ( N ) VALUES ( I ) ; INSERT INTO N ( N ) VALUES ( I )"});
  other(1u << G_UPDATE, {"UPDATE N . N SET N = I , N = I , N = N + I WHERE N = I", "UPDATE N SET N = S , N = S", "UPDATE N SET N = N , N = N WHERE N AND N", "UPDATE N SET N = NULL WHERE N IS NULL", "UPDATE N SET N = ( SELECT N FROM N ) WHERE N IN ( I , I )"});
  other(1u << G_DELETE, {"DELETE FROM N . N WHERE N = I AND N = S", "DELETE FROM N", "TRUNCATE N . N", "TRUNCATE N", "DELETE FROM N WHERE TRUE", "DELETE FROM N WHERE I", "DELETE FROM N . N WHERE N IN ( SELECT N FROM N )"});
  other(1u << G_IMPORT, {"IMPORT FROM CSV FILE S INTO N . N", "IMPORT FROM TBL FILE S INTO N", "COPY N . N FROM S WITH ( FORMAT CSV , DELIMITER S , NULL S , QUOTE S , ENCODING S ) WHERE N = I", "COPY N FROM S", "COPY N FROM S WHERE N = S", "COPY N FROM S ( ENCODING S )", "COPY N FROM S ( QUOTE S , NULL S )"});
  other(1u << G_EXPORT, {"COPY N . N TO S WITH ( FORMAT TBL , ENCODING S )", "COPY N TO S", "COPY N TO S ( DELIMITER S , QUOTE S , NULL S , ENCODING S )", "COPY ( SELECT N , N FROM N WHERE N = I ) TO S ( FORMAT BINARY )", "COPY ( SELECT N ) TO S", "COPY ( SELECT N FROM N WHERE N = I ORDER BY N LIMIT I OFFSET I ) TO S ( FORMAT CSV , ENCODING S )"});
  other(1u << G_PREPARE, {"PREPARE N FROM S", "PREPARE N FROM S ; PREPARE N FROM S"});
  other(1u << G_EXECUTE, {"EXECUTE N ( I , S , NULL , - I , TRUE )", "EXECUTE N ( I , I )", "EXECUTE N ( S , S )", "EXECUTE N", "EXECUTE N ( )", "EXECUTE N ( I ) WITH HINT ( N , N ( I , S ) , N ( NULL ) )"});
  other(1u << G_SHOW, {"SHOW COLUMNS N . N", "DESCRIBE N . N", "DESCRIBE N", "SHOW COLUMNS N", "SHOW TABLES ; SHOW COLUMNS N"});
  other(1u << G_TRANSACTION, {"BEGIN ; COMMIT ; ROLLBACK", "BEGIN TRANSACTION ; SELECT N ; COMMIT TRANSACTION", "ROLLBACK TRANSACTION WITH HINT ( N )"});
  return r;
}

void changed_constructs(Engine& e, unsigned kinds, const TokensFn& f) {
  for (auto& t : constructs(kinds)) {
    if (!e.mine()) continue;
    f(t);
    substitute(t, f);
    substitute_operands(t, e.thorough ? 7 : 0, f);
    nest_parts(t, 24, f);
    substitute_lengths(t, {0, 1, 2, 14, 15, 16, 17, 22, 23, 31, 32, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025}, f);
    repeat_parts(t, 6, {2, 3, 4, 5, 6, 8, 9, 16, 17, 33}, f);
  }
}
std::string changed_constructs_bounds() {
  return "a text of each of " + std::to_string(constructs(~0u).size()) + " constructs, with every name, number and string replaced by 79, 80 and 69 others, by 61 forms of operands and by 28 lengths, every part of up to 6 tokens that can be repeated up to 33 times as often, and pairs of them 2 and 3 times";
}

void variations(Engine& e, unsigned kinds, const TokensFn& f) {
  static const std::vector<size_t> few = family_sizes(1025, 70), many = family_sizes(e.thorough ? 70000 : 9000, 300);
  for (auto& t : constructs(kinds)) {
    if (e.mine()) {
      f(t);
      substitute(t, f);
      substitute_pairs(t, f, 7);
      substitute_operands(t, 0, f);
      substitute_lengths(t, few, f);
      repeat_parts(t, 6, {2, 3, 4, 5, 6, 8, 9, 16, 17, 33, 65}, f);
    }
    if (e.mine()) substitute_operands(t, e.thorough ? 20 : 7, f);
    if (e.mine()) nest_parts(t, 30, f);
  }
  for (auto& t : bases(kinds, GenOptions(), 2)) {
    if (e.stop()) return;
    if (e.mine()) substitute_operands(t, 0, f);
    if (t.size() < 20 && e.mine()) nest_parts(t, 20, f);
  }
  for (int full = 0; full < 2; ++full) {
    GenOptions o;
    o.full = full;
    for (auto& t : bases(kinds, o, 0)) {
      if (e.mine()) substitute_lengths(t, many, f);
      if (e.mine()) substitute_operands(t, e.thorough ? 60 : 14, f);
    }
    for (auto& t : bases(kinds, o, 1 + (e.thorough && !full))) {
      if (e.stop()) return;
      if (!e.mine()) continue;
      substitute(t, f);
      substitute_pairs(t, f);
      substitute_operands(t, 0, f);
      repeat_parts(t, 4, {3, 5, 9}, f);
    }
    if (e.thorough)
      for (auto& t : bases(kinds, o, 1)) {
        if (e.mine()) substitute_lengths(t, few, f);
        if (e.mine()) substitute_operands(t, 14, f);
      }
  }
}

const char* const kDeep = "deep sizes";

void sizes(Engine& e, unsigned kinds, size_t dense, size_t most, const std::function<void(const char*, const std::string&)>& f) {
  for (auto& x : families()) {
    if (kinds != ~0u && !(kinds & family_kinds(x))) continue;
    for (size_t n : family_sizes(x.nested ? std::min<size_t>(most, 300) : most, dense)) {
      if (!e.mine()) continue;
      f(x.nested && n > 10 ? kDeep : "sizes", x.text(n));
    }
  }
}

std::string variations_bounds(bool thorough) {
  return "a text of each of " + std::to_string(constructs(~0u).size()) + " constructs (those of the statements at hand) and derivations with up to " + std::string() + (thorough ? "2 (full profile: 1)" : "1") +
         " non-default choices, with every name, number and string replaced by 79, 80 and 69 unusual ones and by 60 forms of operands, and every pair of names, numbers, strings by 10, 36, 30 pairs that are equal, differ in case or spaces, "
         "or are in falling order; the default derivations with every pair of leaves replaced by all pairs of " +
         (thorough ? "60" : "14") + " operand forms, and with names, strings and numbers of every length 0..300 and the surroundings of powers up to " + (thorough ? "70000" : "9000") + "; every part of up to 6 tokens that can be repeated up to 65 times as often";
}

static void strings_from(const std::string& s, const Tokens& a, int length, const TextFn& f) {
  f(s);
  if (length == 0) return;
  for (auto& x : a) strings_from(s + x, a, length - 1, f);
}
void strings(const Tokens& a, int length, const TextFn& f) { strings_from("", a, length, f); }

void strings(Engine& e, const Tokens& a, int length, const TextFn& f) {
  if (length < 2) {
    strings(a, length, [&](const std::string& s) {
      if (e.mine()) f(s);
    });
    return;
  }
  if (e.mine()) f("");
  for (auto& x : a) {
    if (e.mine()) f(x);
    for (auto& y : a)
      if (e.mine()) strings_from(x + y, a, length - 2, f);
  }
}

void contradictions(Engine& e, int depth, const TextFn& f) {
  const Tokens constraints = {"NULL", "NOT NULL", "PRIMARY KEY", "UNIQUE", "REFERENCES u", "REFERENCES u ( b )", "REFERENCES s . u ( b , c )", ", b INT", ", PRIMARY KEY ( a )", ", UNIQUE ( a , b )", ", FOREIGN KEY ( a ) REFERENCES u"};
  auto sequences = [&](auto& self, const Tokens& parts, const std::string& s, const std::string& between, const std::string& end, int n) -> void {
    for (auto& p : parts) {
      const std::string x = s + " " + p;
      f(x + end);
      if (n > 1) self(self, parts, x + between, between, end, n - 1);
    }
  };
  for (auto& c : constraints)
    for (auto& d : constraints) {
      if (!e.mine()) continue;
      const std::string s = "CREATE TABLE t ( a INT " + c;
      if (c == d) f(s + " )");
      f(s + " " + d + " )");
      sequences(sequences, constraints, s + " " + d, "", " )", depth - 1);
    }
  const Tokens options = {"FORMAT CSV", "FORMAT TBL", "FORMAT BIN", "ENCODING 'x'", "ENCODING 'y'", "ENCODING ''", "DELIMITER 'x'", "DELIMITER 'y'", "DELIMITER ''", "NULL 'x'", "NULL 'y'", "NULL ''", "QUOTE 'x'", "QUOTE 'y'", "QUOTE ''"};
  for (const char* head : {"COPY t FROM 'f' (", "COPY t TO 'f.csv' WITH (", "COPY ( SELECT a ) TO 'f' (", "COPY t FROM 'f.tbl' ("})
    for (auto& o : options) {
      if (!e.mine()) continue;
      const std::string s = std::string(head) + " " + o;
      f(s + " )");
      sequences(sequences, options, s + " ,", " ,", " )", depth - 1);
    }
}

std::string contradictions_bounds(int depth) { return "sequences of up to " + std::to_string(depth + 1) + " of 11 constraints, and of up to " + std::to_string(depth) + " of 15 options in 4 COPY statements"; }

// A clause by clause alphabet: every subset and order of clauses, in the dialect's order or not.
static const Tokens kClauses = {"SELECT a", "SELECT DISTINCT a", "SELECT TOP 3 a", "FROM t", ", u AS x", "( SELECT b FROM v ) s", "WHERE c", "GROUP BY d, e", "HAVING f",
                                "ORDER BY g", "ORDER BY g DESC NULLS LAST, h", "LIMIT 4", "OFFSET 5", "LIMIT ALL", "UNION", "UNION ALL", "INTERSECT", "EXCEPT",
                                "( SELECT i FROM w ORDER BY j LIMIT 6 )", "WITH k AS ( SELECT l )", "FOR UPDATE", "FOR SHARE OF m NOWAIT", "WITH HINT ( n )"};
static const Tokens kTables = {"t", "u", "s . v", "( SELECT a FROM w )", "( SELECT b )", "AS x", "y", "AS z ( p , q )", "JOIN", "LEFT JOIN", "RIGHT OUTER JOIN", "FULL JOIN",
                               "INNER JOIN", "CROSS JOIN", "NATURAL JOIN", "OUTER JOIN", "ON c", "ON d = e", "USING ( f )", "USING ( f , g )", ",", "WHERE h"};
static const Tokens kSets = {"SELECT a", "SELECT b FROM t", "( SELECT c )", "( SELECT d ORDER BY e LIMIT 1 )", "( SELECT f UNION SELECT g )", "UNION", "UNION ALL", "INTERSECT",
                             "INTERSECT ALL", "EXCEPT", "EXCEPT ALL", "ORDER BY h", "LIMIT 2", "OFFSET 3", "FOR UPDATE"};
static const Tokens kShapes = {"SELECT a", "( SELECT b FROM t GROUP BY b ORDER BY b )", "( SELECT c FROM t WHERE d GROUP BY c , e HAVING f LIMIT 1 )", "( WITH w AS ( SELECT g ) SELECT h FROM w OFFSET 2 )", "( SELECT DISTINCT i FROM u , v FOR UPDATE )", "( SELECT j UNION SELECT k ORDER BY l LIMIT 3 )",
                               "FROM", "x", "WHERE m", "GROUP BY n HAVING o", "UNION", "INTERSECT ALL", "EXCEPT", "ORDER BY p DESC , q", "LIMIT 4", "OFFSET 5"};

void select_sequences(Engine& e, int depth, const std::function<TextFn(const char*)>& run) {
  trie(e, "", kClauses, depth, run("clause sequences"));
  trie(e, "SELECT a FROM", kTables, depth, run("table sequences"));
  trie(e, "", kSets, depth + 1, run("set operation sequences"));
  trie(e, "", kShapes, depth, run("sequences of sub-selects"));
  trie(e, "SELECT * FROM ( SELECT a FROM b", kClauses, depth - 2, run("clauses of a sub-select"), " ) x");
  trie(e, "WITH w AS ( SELECT z ) ( SELECT a", kClauses, depth < 6 ? depth - 1 : 4, run("clauses behind parentheses"));
}
std::string select_sequences_bounds(int depth) {
  return "all sequences of up to " + std::to_string(depth) + " of " + std::to_string(kClauses.size()) + " clauses, " + std::to_string(depth) + " of " + std::to_string(kTables.size()) + " FROM parts, " + std::to_string(depth + 1) + " of " + std::to_string(kSets.size()) +
         " set operation parts, " + std::to_string(depth) + " of " + std::to_string(kShapes.size()) + " sub-selects and clauses";
}
