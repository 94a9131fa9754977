#include "gen.h"

namespace {

struct Gen {
  const GenOptions& o;
  Choices& c;
  Tokens out;
  int names = 0, numbers = 0, strings = 0;
  int level = 0;  // nesting of selects

  Gen(const GenOptions& opts, Choices& choices) : o(opts), c(choices) {}

  int choose(int n) { return c.choose(n); }
  // Optional part: its default is presence in the outermost statement of the full profile.
  bool opt() {
    const int v = choose(2);
    return (o.full && level == 0) ? !v : v;
  }
  void t(const char* words) {  // space separated tokens
    std::string w;
    for (const char* p = words;; ++p) {
      if (*p == ' ' || !*p) {
        if (!w.empty()) out.push_back(w);
        w.clear();
        if (!*p) return;
      } else {
        w += *p;
      }
    }
  }
  void raw(const std::string& s) { out.push_back(s); }
  void name() { raw("n" + std::to_string(names++)); }
  void number() { raw(std::to_string(11 + numbers++)); }
  void string() { raw("'s" + std::to_string(strings++) + "'"); }
  void ident() {  // occasionally quoted
    switch (choose(o.extra ? 3 : 2)) {
      case 0: name(); return;
      case 1: raw("\"Q" + std::to_string(names++) + " q\""); return;
      default: raw("N_" + std::to_string(names++) + "x"); return;
    }
  }
  void list(const std::function<void()>& item, int more = 2) {  // 1 .. 1+more items
    item();
    for (int i = 0; i < more; ++i) {
      if (!choose(2)) return;
      t(",");
      item();
    }
  }
  void list_full(const std::function<void()>& item) {  // two items by default in the full profile
    item();
    if (opt()) {
      t(",");
      item();
    }
    list_tail(item);
  }
  void list_tail(const std::function<void()>& item) {
    if (choose(2)) {
      t(",");
      item();
    }
  }
  void parens_idents() {
    t("(");
    list([&] { name(); });
    t(")");
  }
  void table_name() {
    if (choose(2)) {
      name();
      t(".");
    }
    ident();
  }

  void column_type() {
    switch (choose(23)) {
      case 0: t("INT"); return;
      case 1: t("BIGINT"); return;
      case 2: t("BOOLEAN"); return;
      case 3: t("CHAR ("); number(); t(")"); return;
      case 4: raw("CHARACTER VARYING"); t("("); number(); t(")"); return;
      case 5: t("DATE"); return;
      case 6: t("DATETIME"); return;
      case 7: t("DECIMAL"); return;
      case 8: t("DECIMAL ("); number(); t(")"); return;
      case 9: t("DECIMAL ("); number(); t(","); number(); t(")"); return;
      case 10: t("DOUBLE"); return;
      case 11: t("FLOAT"); return;
      case 12: t("INTEGER"); return;
      case 13: t("LONG"); return;
      case 14: t("REAL"); return;
      case 15: t("SMALLINT"); return;
      case 16: t("TEXT"); return;
      case 17: t("TIME"); return;
      case 18: t("TIME ("); number(); t(")"); return;
      case 19: t("TIMESTAMP"); return;
      case 20: t("VARCHAR ("); number(); t(")"); return;
      case 21: t("DECIMAL ( 0 , 0 )"); return;
      case 22: t("VARCHAR ( 0 )"); return;
    }
  }

  static const char* unit(int i) {
    static const char* u[] = {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR",
                              "SECONDS", "MINUTES", "HOURS", "DAYS", "MONTHS", "YEARS"};
    return u[i];
  }

  void extended_literal() {
    switch (choose(18)) {
      case 0: number(); return;
      case 1: string(); return;
      case 2: t("TRUE"); return;
      case 3: t("FALSE"); return;
      case 4: t("NULL"); return;
      case 5: raw("1.5"); return;
      case 6: t("-"); number(); return;
      case 7: t("- 2.25"); return;
      case 8: t("DATE '2020-01-31'"); return;
      case 9: number(); t(unit(choose(12))); return;
      case 10: t("INTERVAL"); raw("'7'"); t(unit(choose(6))); return;
      case 11: t("INTERVAL"); raw("'8 months'"); return;
      case 12: t("-"); number(); t("DAYS"); return;
      case 13: t("- INTERVAL"); raw("'9 hours'"); return;
      case 14: t("CAST ("); extended_literal(); t("AS"); column_type(); t(")"); return;
      case 15: t("CAST ( - 1 AS DOUBLE )"); return;
      case 16: raw("-9223372036854775808"); return;
      case 17: raw("9223372036854775807"); return;
    }
  }

  // Expressions.
  enum { LEAVES = 57 };
  void expr() { expr(choose(o.extra ? LEAVES + 6 : LEAVES)); }
  void leaf() {
    if (o.params)
      t("?");
    else
      name();
  }
  void expr(int kind) {
    static const char* binary[] = {"+", "-", "*", "/", "%", "^", "||", "=", "==", "!=", "<>", "<", "<=", ">", ">=",
                                   "LIKE", "ILIKE", "NOT LIKE", "AND", "OR"};
    if (kind >= 30 && kind < 50) {
      leaf();
      t(binary[kind - 30]);
      expr();
      return;
    }
    switch (kind) {
      case 0: leaf(); return;
      case 1: number(); return;
      case 2: string(); return;
      case 3: raw("3.25"); return;
      case 4: if (o.params) name(); else t("?"); return;
      case 5: t("NULL"); return;
      case 6: t("TRUE"); return;
      case 7: t("FALSE"); return;
      case 8: t("*"); return;
      case 9: name(); t("."); name(); return;
      case 10: name(); t(". *"); return;
      case 11: t("DATE '2020-01-31'"); return;
      case 12: number(); t(unit(choose(12))); return;
      case 13: t("INTERVAL"); raw("'7'"); t(unit(choose(6))); return;
      case 14: t("INTERVAL"); raw("'8 days'"); return;
      case 15: t("("); expr(); t(")"); return;
      case 16: t("-"); expr(); return;
      case 17: t("NOT"); expr(); return;
      case 18: expr(); t("IS NULL"); return;
      case 19: expr(); t("IS NOT NULL"); return;
      case 20: expr(); t("ISNULL"); return;
      case 21: leaf(); t("BETWEEN"); expr_arg(); t("AND"); expr_arg(); return;
      case 22: leaf(); t("IN ("); list([&] { expr(); }); t(")"); return;
      case 23: leaf(); t("NOT IN ("); list([&] { expr(); }, 1); t(")"); return;
      case 24: leaf(); if (choose(2)) t("NOT"); t("IN ("); select_no_paren(); t(")"); return;
      case 25: if (choose(2)) t("NOT"); t("EXISTS ("); select_no_paren(); t(")"); return;
      case 26: t("("); select_no_paren(); t(")"); return;
      case 27: case_expr(); return;
      case 28: function(); return;
      case 29: t("EXTRACT ("); t(unit(choose(6))); t("FROM"); expr(); t(")"); return;
      case 50: t("CAST ("); expr(); t("AS"); column_type(); t(")"); return;
      case 51: t("ARRAY ["); list([&] { alias_expr(); }); t("]"); return;
      case 52: expr(); t("["); number(); t("]"); return;
      case 53: expr_arg(); t("AND"); expr_arg(); t("OR"); expr_arg(); return;
      case 54: leaf(); t("OR"); expr_arg(); t("AND"); expr_arg(); return;
      case 55: t("NOT NOT"); leaf(); return;
      case 56: leaf(); t("+"); expr_arg(); t("* - "); expr_arg(); return;
      case 57: raw("\"q Q\""); return;
      case 58: raw("'it''s --x ; ?'"); return;
      case 59: raw("''"); return;
      case 60: raw("0"); return;
      case 61: raw("0.0"); return;
      case 62: raw("-9223372036854775808"); return;
    }
  }
  void expr_arg() { expr(); }
  void alias_expr() {
    expr();
    switch (choose(3)) {
      case 1: t("AS"); ident(); break;
      case 2: ident(); break;
    }
  }
  void case_expr() {
    t("CASE");
    if (choose(2)) expr();
    auto when = [&] {
      t("WHEN");
      expr();
      t("THEN");
      expr();
    };
    when();
    if (choose(2)) when();
    if (choose(2)) when();
    if (choose(2)) {
      t("ELSE");
      expr();
    }
    t("END");
  }
  void bound() {
    switch (choose(5)) {
      case 0: t("UNBOUNDED PRECEDING"); return;
      case 1: number(); t("PRECEDING"); return;
      case 2: raw("CURRENT ROW"); return;
      case 3: number(); t("FOLLOWING"); return;
      case 4: t("UNBOUNDED FOLLOWING"); return;
    }
  }
  void function() {
    if (choose(2)) {
      name();
      t(".");
    }
    ident();
    t("(");
    if (!choose(2)) {
      if (choose(2)) t("DISTINCT");
      list([&] { alias_expr(); });
    }
    t(")");
    if (choose(2)) window();
  }
  void window() {
    t("OVER (");
    if (choose(2)) {
      t("PARTITION BY");
      list([&] { expr(); }, 1);
    }
    if (choose(2)) order(false);
    switch (choose(7)) {
      case 1: t("ROWS"); bound(); break;
      case 2: t("RANGE"); bound(); break;
      case 3: t("GROUPS"); bound(); break;
      case 4: t("ROWS BETWEEN"); bound(); t("AND"); bound(); break;
      case 5: t("RANGE BETWEEN"); bound(); t("AND"); bound(); break;
      case 6: t("GROUPS BETWEEN"); bound(); t("AND"); bound(); break;
    }
    t(")");
  }

  // Select.
  void order(bool full) {
    t("ORDER BY");
    auto item = [&] {
      expr();
      switch (choose(3)) {
        case 1: t("ASC"); break;
        case 2: t("DESC"); break;
      }
      switch (choose(3)) {
        case 1: t("NULLS FIRST"); break;
        case 2: t("NULLS LAST"); break;
      }
    };
    if (full)
      list_full(item);
    else
      list(item, 1);
  }
  void opt_order() {
    if (opt()) order(o.full && level == 0);
  }
  void opt_limit() {
    const bool full = o.full && level == 0;
    const int v = choose(6);
    switch (full ? (v == 0 ? 3 : v == 3 ? 0 : v) : v) {
      case 0: return;
      case 1: t("LIMIT"); expr(); return;
      case 2: t("OFFSET"); expr(); return;
      case 3: t("LIMIT"); expr(); t("OFFSET"); expr(); return;
      case 4: t("LIMIT ALL"); return;
      case 5: t("LIMIT ALL OFFSET"); expr(); return;
    }
  }
  void lock() {
    switch (choose(4)) {
      case 0: t("FOR UPDATE"); break;
      case 1: t("FOR NO KEY UPDATE"); break;
      case 2: t("FOR SHARE"); break;
      case 3: t("FOR KEY SHARE"); break;
    }
    if (opt()) {
      t("OF");
      list([&] { name(); });
    }
    switch (choose(3)) {
      case 1: t("NOWAIT"); break;
      case 2: t("SKIP LOCKED"); break;
    }
  }
  void opt_locks() {
    if (!opt()) return;
    lock();
    if (choose(2)) lock();
  }
  void table_alias() {
    const bool full = o.full && level == 0;
    const int v = choose(4);
    switch (full ? (v == 0 ? 1 : v == 1 ? 0 : v) : v) {
      case 0: return;
      case 1: t("AS"); name(); return;
      case 2: name(); return;
      case 3: t("AS"); name(); parens_idents(); return;
    }
  }
  void nonjoin() {
    if (choose(2)) {
      t("(");
      ++level;
      select_statement();
      --level;
      t(")");
    } else {
      table_name();
    }
    table_alias();
  }
  void table_ref() {
    nonjoin();
    static const char* joins[] = {"JOIN", "INNER JOIN", "LEFT JOIN", "LEFT OUTER JOIN", "RIGHT JOIN",
                                  "RIGHT OUTER JOIN", "FULL JOIN", "FULL OUTER JOIN", "OUTER JOIN", "CROSS JOIN"};
    for (int n = 0; n < 2; ++n) {
      const int v = choose(n == 0 ? 14 : 12);
      if (v == 0) return;
      if (v == 1) {
        t("NATURAL JOIN");
        nonjoin();
        continue;
      }
      if (v == 12) {  // nested on the right
        t("JOIN");
        nonjoin();
        t("LEFT JOIN");
        nonjoin();
        t("ON");
        expr();
        t("ON");
        expr();
        continue;
      }
      if (v == 13) {
        t("JOIN");
        nonjoin();
        t("NATURAL JOIN");
        nonjoin();
        t("USING");
        parens_idents();
        continue;
      }
      t(joins[v - 2]);
      nonjoin();
      if (choose(2)) {
        t("USING");
        parens_idents();
      } else {
        t("ON");
        expr();
      }
    }
  }
  void select_clause() {
    t("SELECT");
    if (choose(2)) {
      t("TOP");
      number();
    }
    if (opt()) t("DISTINCT");
    list_full([&] { alias_expr(); });
    if (opt()) {
      t("FROM");
      list_full([&] { table_ref(); });
    }
    if (opt()) {
      t("WHERE");
      expr();
    }
    if (opt()) {
      t("GROUP BY");
      list_full([&] { alias_expr(); });
      if (opt()) {
        t("HAVING");
        expr();
      }
    }
  }
  bool set_operator() {
    switch (choose(7)) {
      case 1: t("UNION"); return true;
      case 2: t("UNION ALL"); return true;
      case 3: t("INTERSECT"); return true;
      case 4: t("INTERSECT ALL"); return true;
      case 5: t("EXCEPT"); return true;
      case 6: t("EXCEPT ALL"); return true;
    }
    return false;
  }
  void select_within_set() {
    if (choose(2)) {
      t("(");
      select_no_paren();
      t(")");
      return;
    }
    ++level;
    select_clause();
    if (set_operator()) select_within_set();
    --level;
  }
  // An inner select; its clauses are absent by default.
  void select_no_paren() {
    ++level;
    select_body();
    --level;
  }
  void select_body() {
    select_clause();
    if (set_operator()) select_within_set();
    opt_order();
    opt_limit();
    opt_locks();
  }
  void select_statement() {
    if (opt()) {
      t("WITH");
      list(
          [&] {
            name();
            t("AS (");
            if (choose(2)) {
              t("(");
              select_no_paren();
              t(")");
            } else {
              select_no_paren();
            }
            t(")");
          },
          1);
    }
    if (choose(2)) {
      t("(");
      select_no_paren();
      t(")");
      if (set_operator()) {
        select_within_set();
        opt_order();
        opt_limit();
      }
      return;
    }
    select_body();
  }

  // Other statements.
  void references() {
    t("REFERENCES");
    table_name();
    if (choose(2)) parens_idents();
  }
  void column_constraint() {
    switch (choose(5)) {
      case 0: t("NOT NULL"); return;
      case 1: t("PRIMARY KEY"); return;
      case 2: t("UNIQUE"); return;
      case 3: t("NULL"); return;
      case 4: references(); return;
    }
  }
  void table_element() {
    switch (choose(4)) {
      case 0:
        ident();
        column_type();
        if (opt()) {
          column_constraint();
          if (choose(2)) {
            column_constraint();
            if (choose(2)) column_constraint();
          }
        }
        return;
      case 1: t("PRIMARY KEY"); parens_idents(); return;
      case 2: t("UNIQUE"); parens_idents(); return;
      case 3: t("FOREIGN KEY"); parens_idents(); references(); return;
    }
  }
  void if_not_exists() {
    if (opt()) t("IF NOT EXISTS");
  }
  void if_exists() {
    if (opt()) t("IF EXISTS");
  }
  void file_type() {
    static const char* types[] = {"CSV", "TBL", "BINARY", "BIN", "csv", "Tbl", "bIn"};
    raw(types[choose(7)]);
  }
  void copy_option() {
    switch (choose(5)) {
      case 0: t("FORMAT"); file_type(); return;
      case 1: t("ENCODING"); string(); return;
      case 2: raw(choose(2) ? "delimiter" : "DELIMITER"); string(); return;
      case 3: t("NULL"); string(); return;
      case 4: raw(choose(2) ? "Quote" : "QUOTE"); string(); return;
    }
  }
  void copy_options() {
    if (!opt()) return;
    if (!choose(2)) t("WITH");
    t("(");
    copy_option();
    for (int n = 0; n < 4; ++n) {
      if (!choose(2)) break;
      t(",");
      copy_option();
    }
    t(")");
  }
  void hints() {
    if (!opt()) return;
    t("WITH HINT (");
    list([&] {
      ident();
      if (choose(2)) {
        t("(");
        list([&] { extended_literal(); });
        t(")");
      }
    });
    t(")");
  }
  void opt_where() {
    if (opt()) {
      t("WHERE");
      expr();
    }
  }
  void statement() {
    switch (o.kind) {
      case G_SELECT:
        select_statement();
        hints();
        return;
      case G_CREATE_TABLE:
        t("CREATE TABLE");
        if_not_exists();
        table_name();
        switch (choose(3)) {
          case 0:
            t("(");
            list([&] { table_element(); }, 3);
            t(")");
            break;
          case 1:
            t("AS");
            select_nested();
            break;
          case 2:
            t("FROM");
            raw(choose(2) ? "tBL" : "TBL");
            t("FILE");
            string();
            break;
        }
        hints();
        return;
      case G_CREATE_OTHER:
        t("CREATE");
        if (choose(2)) {
          t("INDEX");
          if_not_exists();
          if (opt()) ident();
          t("ON");
          table_name();
          parens_idents();
        } else {
          t("VIEW");
          if_not_exists();
          table_name();
          if (opt()) parens_idents();
          t("AS");
          select_nested();
        }
        hints();
        return;
      case G_DROP:
        switch (choose(4)) {
          case 0: t("DROP TABLE"); if_exists(); table_name(); break;
          case 1: t("DROP VIEW"); if_exists(); table_name(); break;
          case 2: t("DROP INDEX"); if_exists(); ident(); break;
          case 3: t("DEALLOCATE PREPARE"); ident(); break;
        }
        hints();
        return;
      case G_ALTER:
        t("ALTER TABLE");
        if_exists();
        table_name();
        t("DROP COLUMN");
        if_exists();
        ident();
        hints();
        return;
      case G_INSERT:
        t("INSERT INTO");
        table_name();
        if (opt()) parens_idents();
        if (choose(2)) {
          select_no_paren();
        } else {
          t("VALUES (");
          list([&] { extended_literal(); });
          t(")");
        }
        hints();
        return;
      case G_UPDATE:
        t("UPDATE");
        table_name();
        t("SET");
        list_full([&] {
          ident();
          t("=");
          expr();
        });
        opt_where();
        hints();
        return;
      case G_DELETE:
        if (choose(2)) {
          t("TRUNCATE");
          table_name();
        } else {
          t("DELETE FROM");
          table_name();
          opt_where();
        }
        hints();
        return;
      case G_IMPORT:
        if (choose(2)) {
          t("IMPORT FROM");
          file_type();
          t("FILE");
          string();
          t("INTO");
          table_name();
        } else {
          t("COPY");
          table_name();
          t("FROM");
          string();
          copy_options();
          opt_where();
        }
        return;
      case G_EXPORT:
        t("COPY");
        if (choose(2)) {
          t("(");
          select_no_paren();
          t(")");
        } else {
          table_name();
        }
        t("TO");
        string();
        copy_options();
        return;
      case G_PREPARE:
        t("PREPARE");
        ident();
        t("FROM");
        string();
        hints();
        return;
      case G_EXECUTE:
        t("EXECUTE");
        ident();
        switch (choose(3)) {
          case 1: t("( )"); break;
          case 2:
            t("(");
            list([&] { extended_literal(); });
            t(")");
            break;
        }
        hints();
        return;
      case G_SHOW:
        switch (choose(3)) {
          case 0: t("SHOW TABLES"); return;
          case 1: t("SHOW COLUMNS"); table_name(); return;
          case 2: t("DESCRIBE"); table_name(); return;
        }
        return;
      case G_TRANSACTION:
        switch (choose(3)) {
          case 0: t("BEGIN"); break;
          case 1: t("COMMIT"); break;
          case 2: t("ROLLBACK"); break;
        }
        if (opt()) t("TRANSACTION");
        hints();
        return;
      case G_KINDS:
        return;
    }
  }
  void select_nested() {
    ++level;
    select_statement();
    --level;
  }
};

}  // namespace

Tokens generate(const GenOptions& o, Choices& c) {
  Gen g(o, c);
  g.statement();
  return std::move(g.out);
}

size_t enumerate(const GenOptions& o, int bound, size_t shard, size_t shards,
                 const std::function<void(const Tokens&)>& f) {
  size_t visited = 0, units = 0;
  std::function<void(std::vector<int>, int, bool)> visit = [&](std::vector<int> prefix, int cost, bool mine) {
    // Derivations with two non-default answers, and all derived from them, are one unit of work.
    if (!mine && cost == std::min(bound, 2)) {
      if (units++ % shards != shard) return;
      mine = true;
    }
    Choices c;
    c.prefix = std::move(prefix);
    Tokens toks = generate(o, c);
    if (mine || units++ % shards == shard) {
      ++visited;
      f(toks);
    }
    if (cost >= bound) return;
    const size_t start = c.prefix.size();
    std::vector<int> next = c.prefix;
    for (size_t p = start; p < c.log.size(); ++p) {
      next.push_back(0);
      for (int v = 1; v < c.log[p].second; ++v) {
        next[p] = v;
        visit(next, cost + 1, mine);
      }
      next[p] = 0;
    }
  };
  visit({}, 0, false);
  return visited;
}

std::string join(const Tokens& t, const char* sep) {
  std::string s;
  for (size_t i = 0; i < t.size(); ++i) {
    if (i) s += sep;
    s += t[i];
  }
  return s;
}
