// Expressions are grouped by the dialect's precedence and associativity.
#include <cstring>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C03";

std::string check(const Case& c) { return compare(c.args[0], A_TREE | (strcmp(c.phase, kDeep) ? 0 : A_DEEP)); }

// Operators with their operands: every sequence is an expression or a syntax error.
static const Tokens kInfix = {"a", "b", "+", "-", "*", "/", "%", "^", "||", "=", "==", "!=", "<>", "<", "<=", ">", ">=", "LIKE", "NOT LIKE", "ILIKE", "AND", "OR",
                              "NOT", "IS NULL", "IS NOT NULL", "ISNULL", "BETWEEN", "IN ( c )", "NOT IN ( c , d )", "[ 1 ]", "(", ")"};
static const Tokens kPostfixed = {"+ b", "- b", "* b", "/ b", "% b", "^ b", "|| b", "= b", "== b", "!= b", "<> b", "< b", "<= b", "> b", ">= b", "LIKE b", "NOT LIKE b",
                                  "ILIKE b", "AND b", "OR b", "AND NOT b", "OR NOT b", "IS NULL", "IS NOT NULL", "ISNULL", "BETWEEN b AND c", "BETWEEN - b AND c + d",
                                  "IN ( c )", "NOT IN ( c , d )", "IN ( SELECT e )", "NOT IN ( SELECT e )", "[ 1 ]", "- - b", "* - b", "= NOT b"};
static const Tokens kSmall = {"a", "-", "+", "*", "^", "=", "<", "AND", "OR", "NOT", "IS NULL", "IN ( c )", "BETWEEN", "[ 1 ]", "||", "LIKE"};
static const Tokens kCalls = {"f (", "s . g (", "DISTINCT", "a", "*", ",", ")", "AS x", "OVER (", "PARTITION BY b", "ORDER BY c", "ORDER BY c DESC , d", "ROWS", "RANGE BETWEEN",
                              "GROUPS", "UNBOUNDED PRECEDING", "2 PRECEDING", "CURRENT ROW", "3 FOLLOWING", "UNBOUNDED FOLLOWING", "AND", "+"};
static const Tokens kCases = {"CASE", "WHEN", "THEN", "ELSE", "END", "a", "=", "AND", "NULL", "(", ")"};
static const Tokens kForms = {"CAST (", "AS INT", "AS VARCHAR ( 5 )", "AS DECIMAL ( 6 , 7 )", "EXTRACT (", "YEAR", "SECOND", "MONTHS", "FROM", "ARRAY [", "]", "[", "1", "a", "t . a", "t . *", "*",
                              ",", ")", "(", "EXISTS (", "NOT", "SELECT b", "INTERVAL '3 days'", "INTERVAL '4'", "DAY", "DATE '2020-01-31'", "-", "?", "'s'", "2.5", "TRUE", "FALSE", "NULL"};

// Every construct over all combinations of operands of every kind.
static void operand_matrix(Engine& e) {
  const Tokens& all = operand_forms();
  const Tokens binary = {"+", "-", "*", "/", "%", "^", "||", "=", "==", "!=", "<>", "<", "<=", ">", ">=", "LIKE", "NOT LIKE", "ILIKE", "AND", "OR"};
  auto run = [&](const std::string& s) { e.run(Case("operand kinds", "SELECT " + s)); };
  const size_t some = e.thorough ? 24 : 11, four = e.thorough ? 16 : 9;
  for (auto& x : all) {
    if (!e.mine()) continue;
    for (const char* s : {"-", "- -", "NOT", "NOT NOT", "DISTINCT", "- ("}) run(std::string(s) + " " + x + (s[2] == '(' ? " )" : ""));
    for (const char* s : {"IS NULL", "IS NOT NULL", "ISNULL", "[ 0 ]", "[ 1 ]", "[ 2147483648 ]", "[ 1 ] [ 2 ]", "AS x", "x", "AS \"select\"", "IS NULL IS NULL", "AS x , a AS x"}) run(x + " " + s);
    for (const char* u : {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR"}) run(std::string("EXTRACT ( ") + u + " FROM " + x + " )");
    for (const char* u : {"INT", "INTEGER", "BIGINT", "LONG", "SMALLINT", "DOUBLE", "FLOAT", "REAL", "TEXT", "BOOLEAN", "DATE", "DATETIME", "TIMESTAMP", "TIME", "TIME ( 3 )", "DECIMAL", "DECIMAL ( 4 )", "DECIMAL ( 4 , 5 )",
                          "DECIMAL ( 5 , 5 )", "DECIMAL ( 0 , 0 )", "CHAR ( 1 )", "CHAR ( 0 )", "VARCHAR ( 6 )", "VARCHAR ( 255 )", "VARCHAR ( 4294967296 )", "CHARACTER VARYING ( 7 )"})
      run("CAST ( " + x + " AS " + u + " )");
  }
  for (auto& x : all)
    for (auto& y : all) {
      if (!e.mine()) continue;
      for (auto& o : binary) run(x + " " + o + " " + y);
      for (const char* s : {"f ( # , @ )", "f ( DISTINCT # , @ )", "s . f ( # AS p , @ q )", "ARRAY [ # , @ ]", "# IN ( @ )", "# NOT IN ( @ )", "# IN ( SELECT @ )", "# , @", "f ( a ) OVER ( PARTITION BY # ORDER BY @ )",
                            "f ( a ) OVER ( ORDER BY # DESC , @ NULLS LAST )", "f ( # ) OVER ( PARTITION BY @ )", "f ( a ) OVER ( PARTITION BY # , @ ROWS 0 PRECEDING )", "CASE WHEN # THEN @ END", "a WHERE # GROUP BY @", "a GROUP BY # , @",
                            "a GROUP BY # HAVING @", "a ORDER BY # , @ DESC", "a LIMIT # OFFSET @", "a FROM t JOIN u ON # = @", "a FROM t WHERE ( # ) = ( @ )", "( # ) [ 1 ] = @", "NOT # = @", "- # + @", "EXISTS ( SELECT # ) AND @"}) {
        std::string t;
        for (const char* c = s; *c; ++c) t += *c == '#' ? x : *c == '@' ? y : std::string(1, *c);
        run(t);
      }
      for (auto& z : all)
        if (e.thorough || &z - &all[0] < 20) {
          run(x + " BETWEEN " + y + " AND " + z);
          run(x + " IN ( " + y + " , " + z + " )");
          run("CASE WHEN " + x + " THEN " + y + " ELSE " + z + " END");
          run("CASE " + x + " WHEN " + y + " THEN " + z + " END");
        }
    }
  for (size_t x = 0; x < some; ++x)
    for (size_t y = 0; y < some; ++y)
      for (size_t z = 0; z < some; ++z) {
        if (!e.mine()) continue;
        for (auto& o : binary)
          for (auto& p : binary) {
            run(all[x] + " " + o + " " + all[y] + " " + p + " " + all[z]);
            run(all[x] + " " + o + " ( " + all[y] + " " + p + " " + all[z] + " )");
          }
        for (size_t w = 0; w < four; ++w) {
          const std::string X = all[x] + " ", Y = all[y] + " ", Z = all[z] + " ", W = all[w] + " ";
          run("CASE " + X + "WHEN " + Y + "THEN " + Z + "ELSE " + W + "END");
          run("CASE WHEN " + X + "THEN " + Y + "WHEN " + Z + "THEN " + W + "END");
          run(X + "NOT IN ( " + Y + ", " + Z + ", " + W + ")");
          run("f ( " + X + ", " + Y + ", " + Z + ", " + W + ")");
          run(X + "BETWEEN " + Y + "AND " + Z + "AND " + W);
          run(X + "BETWEEN " + Y + "AND " + Z + "+ " + W);
          run(X + "OR " + Y + "BETWEEN " + Z + "AND " + W);
        }
      }
}

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  const std::string sel = "SELECT ";
  for (const char* first : {"SELECT a", "SELECT - a", "SELECT NOT a", "SELECT ( a )"})
    trie(e, first, kPostfixed, 3 + (deep && first[7] == 'a'), run("operator sequences"));
  trie(e, "SELECT", kInfix, 5, run("operator tokens"));
  if (deep) trie(e, "SELECT", kInfix, 6, run("operator tokens"));
  trie(e, "SELECT", kSmall, 7 + deep, run("short operator tokens"));
  trie(e, "SELECT", kCalls, 7 + deep, run("function calls"));
  trie(e, "SELECT f ( a ) OVER (", kCalls, 7, run("window frames"));
  trie(e, "SELECT", kCases, 8 + deep, run("CASE expressions"));
  trie(e, "SELECT", kForms, 5 + deep, run("special forms"));
  operand_matrix(e);
  // The same operators in every place that takes an expression.
  for (auto ctx : {std::pair<const char*, const char*>{"SELECT a FROM t WHERE", ""}, {"SELECT a FROM t GROUP BY b HAVING", ""}, {"SELECT a ORDER BY", " DESC"}, {"SELECT a FROM t JOIN u ON", ""},
                   {"SELECT a LIMIT", ""}, {"SELECT f (", " )"}, {"SELECT ( ", " )"}, {"SELECT a IN (", " )"}, {"SELECT CASE WHEN", " THEN x END"}, {"UPDATE t SET c =", ""},
                   {"DELETE FROM t WHERE", ""}, {"SELECT ARRAY [", " ]"}, {"SELECT CAST (", " AS INT )"}, {"SELECT EXTRACT ( DAY FROM", " )"}, {"SELECT x BETWEEN", " AND y"},
                   {"SELECT x BETWEEN y AND", ""}, {"SELECT a GROUP BY", ""}, {"SELECT EXISTS ( SELECT a WHERE", " )"}, {"SELECT CASE", " WHEN 1 THEN 2 END"}})
    trie(e, std::string(ctx.first) + " a", kPostfixed, 2, run("contexts"), ctx.second);
  GenOptions o;
  o.extra = true;
  sentences(e, 1u << G_SELECT | 1u << G_UPDATE, o, 2, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
  o.extra = false;
  if (deep) sentences(e, 1u << G_SELECT | 1u << G_UPDATE, o, 3, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
  sizes(e, ~0u, 40, e.thorough ? 70000 : 4097, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
  variations(e, 1u << G_SELECT | 1u << G_UPDATE, [&](const Tokens& m) { e.run(Case("unusual names and values", join(m))); });
  // What the sources themselves distinguish.
  constants(e, 1u << G_SELECT | 1u << G_UPDATE, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["operator sequences"] = thorough ? "all chains of up to 4 of 35 operators behind an operand, 3 behind -, NOT and parentheses" : "all chains of up to 3 of 35 operators behind 4 first operands";
  b["operator tokens"] = thorough ? "all sequences of up to 6 of 32 operator tokens; up to 8 of 16" : "all sequences of up to 5 of 32 operator tokens; up to 7 of 16";
  b["function calls, window frames, CASE, special forms"] = thorough ? "all sequences of up to 8, 7, 9 and 6 tokens" : "all sequences of up to 7, 7, 8 and 5 tokens";
  b["operand kinds"] = thorough ? "all pairs of 61 operands for 20 operators and 24 other constructs, all triples for BETWEEN, IN and CASE; all triples of 24 for all pairs of operators in both groupings; all quadruples of 24 (last: 16) for 7 constructs"
                                : "all pairs of 61 operands for 20 operators and 24 other constructs, all triples (last: 20) for BETWEEN, IN and CASE; all triples of 11 for all pairs of operators in both groupings; all quadruples of 11 (last: 9) for 7 constructs";
  b["contexts"] = "all chains of up to 2 operators in 19 places that take an expression";
  b["sizes"] = std::string("the families of repetitions of these statements at 0..40 and around powers up to ") + (thorough ? "70000" : "4097") + ", of nestings up to 300";
  b["unusual names and values"] = variations_bounds(thorough);
  b["derivations"] = thorough ? "SELECT and UPDATE with up to 3 non-default choices" : "SELECT and UPDATE with up to 2 non-default choices";
}
