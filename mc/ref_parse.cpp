// Recursive-descent / precedence-climbing reference parser of the dialect.
#include "ref.h"

#include <cstring>
#include <deque>

namespace ref {

struct Arena {
  std::deque<Expr> exprs;
  std::deque<Select> selects;
  std::deque<Table> tables;
  std::deque<Window> windows;
  std::deque<Limit> limits;
  std::deque<Stmt> stmts;
};

namespace {

struct Fail {
  size_t tok;
  bool semantic;
  std::string why;  // what a message about it has to mention, separated by bars
};

std::string lower(const std::string& s) {
  std::string r = s;
  for (char& c : r)
    if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
  return r;
}

bool c_space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool c_digit(char c) { return c >= '0' && c <= '9'; }

struct Parser {
  const std::vector<Tok>& t;
  Arena& a;
  size_t i = 0;
  size_t params = 0;
  bool grey = false;

  Parser(const std::vector<Tok>& toks, Arena& arena) : t(toks), a(arena) {}

  // ---- tokens
  int k() const { return t[i].kind; }
  int k1(size_t n = 1) const { return i + n < t.size() ? t[i + n].kind : int(K_EOF); }
  [[noreturn]] void syntax() const { throw Fail{i, false, ""}; }
  bool lenient = false;  // go on behind contradictory parts
  void semantic(const std::string& why) const {
    if (!lenient) throw Fail{i, true, why};
  }
  const Tok& expect(int kind) {
    if (k() != kind) syntax();
    return t[i++];
  }
  bool accept(int kind) {
    if (k() != kind) return false;
    ++i;
    return true;
  }
  std::string ident() { return expect(K_IDENT).str; }
  std::string string() { return expect(K_STRING).str; }

  Expr* node(const char* type) {
    a.exprs.emplace_back();
    a.exprs.back().type = type;
    return &a.exprs.back();
  }
  Expr* op1(const char* op, Expr* x) {
    Expr* e = node("Operator");
    e->op = op;
    e->e1 = x;
    return e;
  }
  Expr* op2(const char* op, Expr* x, Expr* y) {
    Expr* e = op1(op, x);
    e->e2 = y;
    return e;
  }

  std::vector<std::string> idents() {  // '(' already consumed
    std::vector<std::string> v;
    do v.push_back(ident());
    while (accept(','));
    expect(')');
    return v;
  }

  // ---- literals
  static const char* field(int kind, bool plural_allowed) {
    switch (kind) {
      case K_SECOND: return "SECOND";
      case K_MINUTE: return "MINUTE";
      case K_HOUR: return "HOUR";
      case K_DAY: return "DAY";
      case K_MONTH: return "MONTH";
      case K_YEAR: return "YEAR";
    }
    if (!plural_allowed) return nullptr;
    switch (kind) {
      case K_SECONDS: return "SECOND";
      case K_MINUTES: return "MINUTE";
      case K_HOURS: return "HOUR";
      case K_DAYS: return "DAY";
      case K_MONTHS: return "MONTH";
      case K_YEARS: return "YEAR";
    }
    return nullptr;
  }

  // [white space] [sign] digits; returns the position behind it, npos if there is no 64-bit number.
  static size_t duration(const std::string& s, int64_t* out) {
    size_t p = 0;
    while (p < s.size() && c_space(s[p])) ++p;
    bool neg = false;
    if (p < s.size() && (s[p] == '-' || s[p] == '+')) neg = s[p++] == '-';
    if (p >= s.size() || !c_digit(s[p])) return std::string::npos;
    unsigned __int128 v = 0;
    const unsigned __int128 limit = (unsigned __int128)INT64_MAX + (neg ? 1 : 0);
    while (p < s.size() && c_digit(s[p])) {
      v = v * 10 + unsigned(s[p++] - '0');
      if (v > limit) return std::string::npos;
    }
    *out = neg ? int64_t(-(__int128)v) : int64_t(v);
    return p;
  }

  Expr* interval_string() {  // INTERVAL consumed
    const std::string s = string();
    int64_t v = 0;
    size_t p = duration(s, &v);
    if (const char* f = field(k(), false)) {
      ++i;
      if (p != s.size()) semantic("interval");
      Expr* e = node("LiteralInterval");
      e->ival = v;
      e->field = f;
      return e;
    }
    if (p == std::string::npos) semantic("interval");
    if (p > s.size()) p = s.size();
    while (p < s.size() && c_space(s[p])) ++p;
    const std::string unit = lower(s.substr(p));
    static const char* kUnits[6] = {"second", "minute", "hour", "day", "month", "year"};
    static const char* kFields[6] = {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR"};
    for (int u = 0; u < 6; ++u) {
      if (unit == kUnits[u] || unit == std::string(kUnits[u]) + "s") {
        Expr* e = node("LiteralInterval");
        e->ival = v;
        e->field = kFields[u];
        return e;
      }
    }
    semantic("interval");
    return node("LiteralInterval");
  }

  Expr* date_string() {  // DATE consumed
    const std::string s = string();
    // digits{1,4} - digits{1,2} - digits{1,2}
    size_t p = 0;
    auto number = [&](size_t max) {
      size_t q = p;
      while (q < s.size() && c_digit(s[q]) && q - p < max) ++q;
      bool ok = q > p;
      p = q;
      return ok;
    };
    bool ok = number(4) && p < s.size() && s[p++] == '-' && number(2) && p < s.size() && s[p++] == '-' && number(2) &&
              p == s.size();
    if (!ok) {
      // The implementation also takes signs and white space in front of the numbers; leave that open.
      if (s.find_first_of(" \t\n\v\f\r+") != std::string::npos || s.find("--") != std::string::npos || s[0] == '-') grey = true;
      semantic("date");
    }
    Expr* e = node("LiteralDate");
    e->name = s;
    return e;
  }

  Expr* int_literal() {
    Expr* e = node("LiteralInt");
    e->ival = expect(K_INTVAL).ival;
    return e;
  }

  bool at_literal() const {
    switch (k()) {
      case K_STRING: case K_TRUE: case K_FALSE: case K_FLOATVAL: case K_INTVAL: case K_NULL: case K_DATE: case K_INTERVAL:
      case '?':
        return true;
    }
    return false;
  }

  Expr* number_or_interval() {
    if (k() == K_INTVAL) {
      Expr* e = int_literal();
      if (const char* f = field(k(), true)) {
        ++i;
        e->type = "LiteralInterval";
        e->field = f;
      }
      return e;
    }
    if (k() == K_FLOATVAL) {
      Expr* e = node("LiteralFloat");
      e->fval = t[i++].fval;
      return e;
    }
    expect(K_INTERVAL);
    return interval_string();
  }

  Expr* literal() {
    Expr* e;
    switch (k()) {
      case K_STRING:
        e = node("LiteralString");
        e->name = string();
        return e;
      case K_TRUE:
      case K_FALSE:
        e = node("LiteralInt");
        e->is_bool = true;
        e->ival = k() == K_TRUE;
        ++i;
        return e;
      case K_NULL:
        ++i;
        return node("LiteralNull");
      case K_DATE:
        ++i;
        return date_string();
      case '?':
        ++i;
        e = node("Parameter");
        e->ival = int64_t(params++);
        return e;
      default:
        return number_or_interval();
    }
  }

  Expr* extended_literal() {
    if (accept('-')) return op1("UnaryMinus", number_or_interval());
    if (!at_literal()) syntax();
    if (k() == '?') {
      ++i;
      semantic("?|literal");
      return node("Parameter");
    }
    return literal();
  }
  Expr* casted_extended_literal() {
    if (!accept(K_CAST)) return extended_literal();
    expect('(');
    Expr* e = node("Cast");
    e->e1 = extended_literal();
    expect(K_AS);
    e->col = column_type();
    expect(')');
    return e;
  }
  std::vector<Expr*> extended_literals() {
    std::vector<Expr*> v;
    do v.push_back(casted_extended_literal());
    while (accept(','));
    return v;
  }

  ColType column_type() {
    ColType c;
    auto length = [&] {
      expect('(');
      c.length = expect(K_INTVAL).ival;
      expect(')');
    };
    const int kind = k();
    switch (kind) {
      case K_BIGINT: c.type = "BIGINT"; break;
      case K_BOOLEAN: c.type = "BOOLEAN"; break;
      case K_CHAR: c.type = "CHAR"; break;
      case K_CHARACTER_VARYING: case K_VARCHAR: c.type = "VARCHAR"; break;
      case K_DATE: c.type = "DATE"; break;
      case K_DATETIME: case K_TIMESTAMP: c.type = "DATETIME"; break;
      case K_DECIMAL: c.type = "DECIMAL"; break;
      case K_DOUBLE: c.type = "DOUBLE"; break;
      case K_FLOAT: c.type = "FLOAT"; break;
      case K_INT: case K_INTEGER: c.type = "INT"; break;
      case K_LONG: c.type = "LONG"; break;
      case K_REAL: c.type = "REAL"; break;
      case K_SMALLINT: c.type = "SMALLINT"; break;
      case K_TEXT: c.type = "TEXT"; break;
      case K_TIME: c.type = "TIME"; break;
      default: syntax();
    }
    ++i;
    if (kind == K_CHAR || kind == K_CHARACTER_VARYING || kind == K_VARCHAR) length();
    if (kind == K_TIME && accept('(')) {
      c.precision = expect(K_INTVAL).ival;
      expect(')');
    }
    if (kind == K_DECIMAL && accept('(')) {
      c.precision = expect(K_INTVAL).ival;
      if (accept(',')) c.scale = expect(K_INTVAL).ival;
      expect(')');
    }
    return c;
  }

  // ---- expressions
  // Precedence levels: OR 1, AND 2, NOT 3, equality and LIKE 5 (nonassoc), order 6 (nonassoc), ISNULL 8, IS 9, + - 10,
  // * / % 11, ^ 12, || 13, [ ] 15.
  static int binary_level(int kind, const char** op) {
    switch (kind) {
      case '=': case K_EQEQ: *op = "Equals"; return 5;
      case K_NE: *op = "NotEquals"; return 5;
      case K_LIKE: *op = "Like"; return 5;
      case K_ILIKE: *op = "ILike"; return 5;
      case '<': *op = "Less"; return 6;
      case '>': *op = "Greater"; return 6;
      case K_LE: *op = "LessEq"; return 6;
      case K_GE: *op = "GreaterEq"; return 6;
      case '+': *op = "Plus"; return 10;
      case '-': *op = "Minus"; return 10;
      case '*': *op = "Asterisk"; return 11;
      case '/': *op = "Slash"; return 11;
      case '%': *op = "Percentage"; return 11;
      case '^': *op = "Caret"; return 12;
      case K_CONCAT: *op = "Concat"; return 13;
    }
    return 0;
  }

  // `chain`: this operand starts an expression, so NOT IN may follow (left to the caller).
  Expr* operand(int min, bool chain = false) {
    Expr* left = primary();
    for (;;) {
      const int kind = k();
      const char* op = nullptr;
      if (int p = binary_level(kind, &op)) {
        if (p < min) return left;
        if (p == min) {
          if (p == 5 || p == 6) syntax();  // these do not associate
          return left;
        }
        ++i;
        Expr* right = operand(p);
        left = op2(op, left, right);
        continue;
      }
      if (kind == '[') {
        ++i;
        const int64_t index = expect(K_INTVAL).ival;
        expect(']');
        Expr* e = node("ArrayIndex");
        e->e1 = left;
        e->ival = index;
        left = e;
        continue;
      }
      if (kind == K_ISNULL && min < 8) {
        ++i;
        left = op1("IsNull", left);
        continue;
      }
      if (kind == K_IS && min < 9) {
        ++i;
        bool no = accept(K_NOT);
        expect(K_NULL);
        left = op1("IsNull", left);
        if (no) left = op1("Not", left);
        continue;
      }
      if (kind == K_NOT && min <= 3) {
        if (k1() == K_LIKE) {
          i += 2;
          Expr* right = operand(5);
          left = op2("NotLike", left, right);
          continue;
        }
        if (k1() == K_IN && chain) return left;
        ++i;
        syntax();
      }
      return left;
    }
  }

  // Expression without AND and OR.
  Expr* condition() {
    size_t nots = 0;
    while (accept(K_NOT)) ++nots;
    if (k() == K_EXISTS && nots <= 1) {
      ++i;
      expect('(');
      Expr* e = node("Operator");
      e->op = "Exists";
      e->select = select_no_paren();
      expect(')');
      return nots ? op1("Not", e) : e;
    }
    Expr* x = operand(nots ? 3 : 0, true);
    if (k() == K_BETWEEN) {
      ++i;
      Expr* e = node("Operator");
      e->op = "Between";
      e->e1 = x;
      e->has_list = true;
      e->list.push_back(operand(0));
      expect(K_AND);
      e->list.push_back(operand(2));
      x = e;
    } else if (k() == K_IN || k() == K_NOT) {
      const bool no = accept(K_NOT);
      expect(K_IN);
      expect('(');
      Expr* e = node("Operator");
      e->op = "In";
      e->e1 = x;
      if (k() == K_SELECT) {
        e->select = select_no_paren();
      } else {
        e->has_list = true;
        e->list = expr_list();
      }
      expect(')');
      x = no ? op1("Not", e) : e;
    }
    while (nots--) x = op1("Not", x);
    return x;
  }
  Expr* conjunction() {
    Expr* x = condition();
    while (accept(K_AND)) {
      Expr* y = condition();
      x = op2("And", x, y);
    }
    return x;
  }
  Expr* expr() {
    Expr* x = conjunction();
    while (accept(K_OR)) {
      Expr* y = conjunction();
      x = op2("Or", x, y);
    }
    return x;
  }

  Str opt_alias() {
    if (accept(K_AS)) return Str(ident());
    if (k() == K_IDENT) return Str(ident());
    return Str();
  }
  std::vector<Expr*> expr_list() {
    std::vector<Expr*> v;
    do {
      Expr* e = expr();
      Str alias = opt_alias();
      if (alias.set) e->alias = alias;
      v.push_back(e);
    } while (accept(','));
    return v;
  }

  Expr* primary() {
    Expr* e;
    switch (k()) {
      case '(':
        ++i;
        if (k() == K_SELECT) {
          e = node("Select");
          e->select = select_no_paren();
        } else {
          e = expr();
        }
        expect(')');
        return e;
      case '-':
        ++i;
        return op1("UnaryMinus", operand(10));
      case K_NOT:
        ++i;
        return op1("Not", operand(3));
      case '*':
        ++i;
        return node("Star");
      case K_IDENT: {
        std::string first = ident();
        if (k() == '.') {
          ++i;
          if (accept('*')) {
            e = node("Star");
            e->table = Str(first);
            return e;
          }
          std::string second = ident();
          if (k() == '(') {
            e = function(second);
            e->schema = Str(first);
            return e;
          }
          e = node("ColumnRef");
          e->name = Str(second);
          e->table = Str(first);
          return e;
        }
        if (k() == '(') return function(first);
        e = node("ColumnRef");
        e->name = Str(first);
        return e;
      }
      case K_CASE: {
        ++i;
        e = node("Operator");
        e->op = "Case";
        e->has_list = true;
        if (k() != K_WHEN) e->e1 = expr();
        if (k() != K_WHEN) syntax();
        while (accept(K_WHEN)) {
          Expr* when = expr();
          expect(K_THEN);
          Expr* then = expr();
          e->list.push_back(op2("CaseListElement", when, then));
        }
        if (accept(K_ELSE)) e->e2 = expr();
        expect(K_END);
        return e;
      }
      case K_EXTRACT: {
        ++i;
        expect('(');
        e = node("Extract");
        e->field = field(k(), false);
        if (!e->field) syntax();
        ++i;
        expect(K_FROM);
        e->e1 = expr();
        expect(')');
        return e;
      }
      case K_CAST:
        ++i;
        expect('(');
        e = node("Cast");
        e->e1 = expr();
        expect(K_AS);
        e->col = column_type();
        expect(')');
        return e;
      case K_ARRAY:
        ++i;
        expect('[');
        e = node("Array");
        e->has_list = true;
        e->list = expr_list();
        expect(']');
        return e;
    }
    if (at_literal()) return literal();
    syntax();
  }

  Bound bound() {
    Bound b;
    if (accept(K_CURRENT_ROW)) {
      b.type = "CurrentRow";
      return b;
    }
    if (k() == K_INTVAL) {
      b.offset = t[i++].ival;
    } else {
      expect(K_UNBOUNDED);
      b.unbounded = true;
    }
    if (accept(K_PRECEDING)) {
      b.type = "Preceding";
    } else {
      expect(K_FOLLOWING);
      b.type = "Following";
    }
    return b;
  }

  Expr* function(const std::string& name) {  // at '('
    Expr* e = node("FunctionRef");
    e->name = Str(name);
    e->has_list = true;
    expect('(');
    if (!accept(')')) {
      e->distinct = accept(K_DISTINCT);
      e->list = expr_list();
      expect(')');
    }
    if (accept(K_OVER)) {
      expect('(');
      a.windows.emplace_back();
      Window* w = &a.windows.back();
      e->window = w;
      if (accept(K_PARTITION)) {
        expect(K_BY);
        w->has_part = true;
        w->part = expr_list();
      }
      w->has_order = opt_order(w->order);
      w->start.type = "Preceding";
      w->start.unbounded = true;
      w->end.type = "CurrentRow";
      if (k() == K_RANGE || k() == K_ROWS || k() == K_GROUPS) {
        w->frame = keyword_name(k());
        ++i;
        if (accept(K_BETWEEN)) {
          w->start = bound();
          expect(K_AND);
          w->end = bound();
        } else {
          w->start = bound();
        }
      }
      expect(')');
    }
    return e;
  }

  // ---- select
  bool opt_order(std::vector<OrderBy>& out) {
    if (!accept(K_ORDER)) return false;
    expect(K_BY);
    do {
      OrderBy o;
      o.expr = expr();
      if (accept(K_DESC))
        o.desc = true;
      else
        accept(K_ASC);
      if (k() == K_IDENT) {
        const std::string first = lower(ident());
        const std::string second = lower(ident());
        if (first == "nulls" && second == "first")
          o.nulls = 1;
        else if (first == "nulls" && second == "last")
          o.nulls = 2;
        else
          semantic("nulls");
      }
      out.push_back(o);
    } while (accept(','));
    return true;
  }
  Limit* new_limit() {
    a.limits.emplace_back();
    return &a.limits.back();
  }
  Limit* opt_limit() {
    if (accept(K_LIMIT)) {
      Limit* l = new_limit();
      if (!accept(K_ALL)) l->limit = expr();
      if (accept(K_OFFSET)) l->offset = expr();
      return l;
    }
    if (accept(K_OFFSET)) {
      Limit* l = new_limit();
      l->offset = expr();
      return l;
    }
    return nullptr;
  }
  bool opt_locks(std::vector<Locking>& out) {
    bool any = false;
    while (accept(K_FOR)) {
      any = true;
      Locking l;
      if (accept(K_UPDATE)) {
        l.mode = "ForUpdate";
      } else if (accept(K_SHARE)) {
        l.mode = "ForShare";
      } else if (accept(K_NO)) {
        expect(K_KEY);
        expect(K_UPDATE);
        l.mode = "ForNoKeyUpdate";
      } else {
        expect(K_KEY);
        expect(K_SHARE);
        l.mode = "ForKeyShare";
      }
      if (accept(K_OF)) {
        l.has_tables = true;
        do l.tables.push_back(ident());
        while (accept(','));
      }
      if (accept(K_NOWAIT)) {
        l.wait = "NoWait";
      } else if (accept(K_SKIP)) {
        expect(K_LOCKED);
        l.wait = "SkipLocked";
      }
      out.push_back(l);
    }
    return any;
  }

  Select* select_clause() {
    expect(K_SELECT);
    a.selects.emplace_back();
    Select* s = &a.selects.back();
    if (accept(K_TOP)) {
      s->limit = new_limit();
      s->limit->limit = int_literal();
    }
    s->distinct = accept(K_DISTINCT);
    s->list = expr_list();
    if (accept(K_FROM)) s->from = table_ref();
    if (accept(K_WHERE)) s->where = expr();
    if (accept(K_GROUP)) {
      expect(K_BY);
      s->has_group = true;
      s->group = expr_list();
      if (accept(K_HAVING)) s->having = expr();
    }
    return s;
  }
  bool set_operator(SetOp* op) {
    switch (k()) {
      case K_UNION: op->type = "Union"; break;
      case K_INTERSECT: op->type = "Intersect"; break;
      case K_EXCEPT: op->type = "Except"; break;
      default: return false;
    }
    ++i;
    op->all = accept(K_ALL);
    return true;
  }
  Select* select_within_set() {
    if (k() == '(') return select_with_paren();
    Select* s = select_clause();
    SetOp op;
    if (set_operator(&op)) {
      op.nested = select_within_set();
      s->has_setops = true;
      s->setops.push_back(op);
    }
    return s;
  }
  Select* select_no_paren() {
    Select* s = select_clause();
    SetOp op;
    if (set_operator(&op)) {
      op.nested = select_within_set();
      op.has_order = opt_order(op.order);
      op.limit = opt_limit();
      s->has_setops = true;
      s->setops.push_back(op);
    } else {
      s->has_order = opt_order(s->order);
      if (Limit* l = opt_limit()) s->limit = l;
    }
    s->has_lock = opt_locks(s->locks);
    return s;
  }
  Select* select_with_paren() {
    expect('(');
    Select* s = k() == '(' ? select_with_paren() : select_no_paren();
    expect(')');
    return s;
  }
  Select* select_statement() {
    std::vector<With> with;
    bool has_with = false;
    if (accept(K_WITH)) {
      has_with = true;
      do {
        With w;
        w.alias = ident();
        expect(K_AS);
        w.select = select_with_paren();
        with.push_back(w);
      } while (accept(','));
    }
    Select* s;
    if (k() == '(') {
      s = select_with_paren();
      SetOp op;
      if (set_operator(&op)) {
        op.nested = select_within_set();
        op.has_order = opt_order(op.order);
        op.limit = opt_limit();
        s->has_setops = true;
        s->setops.push_back(op);
      }
    } else {
      s = select_no_paren();
    }
    s->has_with = has_with;
    s->with = with;
    return s;
  }

  // ---- tables
  Table* new_table(Table::T type) {
    a.tables.emplace_back();
    a.tables.back().t = type;
    return &a.tables.back();
  }
  void table_name(Str* schema, Str* name) {
    *name = Str(ident());
    if (accept('.')) {
      *schema = *name;
      *name = Str(ident());
    }
  }
  Alias opt_table_alias() {
    Alias al;
    if (accept(K_AS)) {
      al.set = true;
      al.name = ident();
      if (accept('(')) {
        al.has_cols = true;
        al.cols = idents();
      }
    } else if (k() == K_IDENT) {
      al.set = true;
      al.name = ident();
    }
    return al;
  }
  Table* nonjoin() {
    Table* x;
    if (accept('(')) {
      x = new_table(Table::Sel);
      x->select = select_statement();
      expect(')');
    } else {
      x = new_table(Table::Name);
      table_name(&x->schema, &x->name);
    }
    x->alias = opt_table_alias();
    return x;
  }
  Table* table_ref_atomic() {
    Table* left = nonjoin();
    for (;;) {
      const char* type = nullptr;
      switch (k()) {
        case K_NATURAL: type = "Natural"; ++i; break;
        case K_INNER: type = "Inner"; ++i; break;
        case K_JOIN: type = "Inner"; break;
        case K_CROSS: type = "Cross"; ++i; break;
        case K_OUTER: type = "Full"; ++i; break;
        case K_LEFT: type = "Left"; ++i; accept(K_OUTER); break;
        case K_RIGHT: type = "Right"; ++i; accept(K_OUTER); break;
        case K_FULL: type = "Full"; ++i; accept(K_OUTER); break;
      }
      if (!type) return left;
      expect(K_JOIN);
      Table* x = new_table(Table::Join);
      x->join = type;
      x->left = left;
      if (!strcmp(type, "Natural")) {
        x->right = nonjoin();
      } else {
        x->right = table_ref_atomic();
        if (accept(K_ON)) {
          x->cond = expr();
        } else {
          expect(K_USING);
          expect('(');
          x->has_using = true;
          x->using_cols = idents();
        }
      }
      left = x;
    }
  }
  Table* table_ref() {
    Table* first = table_ref_atomic();
    if (k() != ',') return first;
    Table* x = new_table(Table::Cross);
    x->list.push_back(first);
    while (accept(',')) x->list.push_back(table_ref_atomic());
    return x;
  }

  // ---- statements
  Stmt* new_stmt(Stmt::T type, const char* sub = "") {
    a.stmts.emplace_back();
    a.stmts.back().t = type;
    a.stmts.back().sub = sub;
    return &a.stmts.back();
  }
  bool opt_if_not_exists() {
    if (!accept(K_IF)) return false;
    expect(K_NOT);
    expect(K_EXISTS);
    return true;
  }
  bool opt_if_exists() {
    if (!accept(K_IF)) return false;
    expect(K_EXISTS);
    return true;
  }
  bool opt_columns(std::vector<std::string>& cols) {
    if (!accept('(')) return false;
    cols = idents();
    return true;
  }

  const char* file_type() {
    const std::string s = lower(ident());
    if (s == "csv") return "csv";
    if (s == "tbl") return "tbl";
    if (s == "binary" || s == "bin") return "binary";
    semantic("file type|unknown");
    return "csv";
  }
  Copy copy_options() {
    Copy c;
    bool has_format = false, has_encoding = false;
    if (k() == K_WITH) {
      ++i;
      if (k() != '(') syntax();
    }
    if (!accept('(')) return c;
    do {
      if (accept(K_FORMAT)) {
        const char* f = file_type();
        if (has_format) semantic("file type|once");
        if (c.has_csv && strcmp(f, "csv")) semantic("csv|only");
        has_format = true;
        c.format = f;
      } else if (accept(K_ENCODING)) {
        std::string s = string();
        if (has_encoding) semantic("encoding|once");
        has_encoding = true;
        c.encoding = Str(s);
      } else {
        Str* slot = &c.quote;
        if (accept(K_NULL)) {
          slot = &c.null;
          Str v(string());
          csv(c, has_format, slot, v);
        } else {
          const std::string name = lower(ident());
          Str v(string());
          if (name == "delimiter")
            slot = &c.delimiter;
          else if (name == "quote")
            slot = &c.quote;
          else
            semantic("csv option|unknown");
          csv(c, has_format, slot, v);
        }
      }
    } while (accept(','));
    expect(')');
    return c;
  }
  void csv(Copy& c, bool has_format, Str* slot, const Str& v) {
    if (has_format && strcmp(c.format, "csv")) semantic("csv|only");
    if (slot->set) semantic("csv option|once");
    c.has_csv = true;
    *slot = v;
  }

  Refs references() {  // REFERENCES consumed
    Refs r;
    Str name;
    table_name(&r.schema, &name);
    r.table = name.v;
    r.has_cols = opt_columns(r.cols);
    return r;
  }

  void table_elements(Stmt* s) {
    s->has_defs = true;
    do {
      if (k() == K_IDENT) {
        ColDef c;
        c.name = ident();
        c.type = column_type();
        for (bool more = true; more;) {
          switch (k()) {
            case K_PRIMARY: ++i; expect(K_KEY); c.pk = true; break;
            case K_UNIQUE: ++i; c.unique = true; break;
            case K_NULL: ++i; c.null = true; break;
            case K_NOT: ++i; expect(K_NULL); c.not_null = true; break;
            case K_REFERENCES: ++i; c.fk = true; c.refs.push_back(references()); break;
            default: more = false;
          }
        }
        c.nullable = !c.not_null && !c.pk;
        if (c.null && !c.nullable) semantic("nullability|" + c.name);
        s->coldefs.push_back(c);
      } else {
        TabCon c;
        switch (k()) {
          case K_PRIMARY: ++i; expect(K_KEY); c.type = "PrimaryKey"; break;
          case K_UNIQUE: ++i; c.type = "Unique"; break;
          case K_FOREIGN: ++i; expect(K_KEY); c.type = "ForeignKey"; break;
          default: syntax();
        }
        expect('(');
        c.cols = idents();
        if (!strcmp(c.type, "ForeignKey")) {
          expect(K_REFERENCES);
          c.has_refs = true;
          c.refs = references();
        }
        s->tabcons.push_back(c);
      }
    } while (accept(','));
    expect(')');
  }

  void opt_hints(Stmt* s) {
    if (!accept(K_WITH)) return;
    expect(K_HINT);
    expect('(');
    s->has_hints = true;
    do {
      Expr* e = node("Hint");
      e->name = Str(ident());
      if (accept('(')) {
        e->has_list = true;
        e->list = extended_literals();
        expect(')');
      }
      s->hints.push_back(e);
    } while (accept(','));
    expect(')');
  }

  Stmt* statement() {
    Stmt* s;
    switch (k()) {
      case K_SELECT: case K_WITH: case '(':
        s = new_stmt(Stmt::SelectS);
        s->select = select_statement();
        opt_hints(s);
        return s;
      case K_PREPARE:
        ++i;
        s = new_stmt(Stmt::Prepare);
        s->name = Str(ident());
        expect(K_FROM);
        s->query = Str(string());
        opt_hints(s);
        return s;
      case K_EXECUTE:
        ++i;
        s = new_stmt(Stmt::Execute);
        s->name = Str(ident());
        if (accept('(')) {
          if (!accept(')')) {
            s->has_values = true;
            s->values = extended_literals();
            expect(')');
          }
        }
        opt_hints(s);
        return s;
      case K_BEGIN: case K_COMMIT: case K_ROLLBACK:
        s = new_stmt(Stmt::Transaction, k() == K_BEGIN ? "Begin" : k() == K_COMMIT ? "Commit" : "Rollback");
        ++i;
        accept(K_TRANSACTION);
        opt_hints(s);
        return s;
      case K_SHOW:
        ++i;
        if (accept(K_TABLES)) return new_stmt(Stmt::Show, "Tables");
        expect(K_COLUMNS);
        s = new_stmt(Stmt::Show, "Columns");
        table_name(&s->schema, &s->name);
        return s;
      case K_DESCRIBE:
        ++i;
        s = new_stmt(Stmt::Show, "Columns");
        table_name(&s->schema, &s->name);
        return s;
      case K_IMPORT:
        ++i;
        s = new_stmt(Stmt::Import);
        expect(K_FROM);
        s->copy.format = file_type();
        expect(K_FILE);
        s->file = Str(string());
        expect(K_INTO);
        table_name(&s->schema, &s->name);
        return s;
      case K_COPY: {
        ++i;
        s = new_stmt(Stmt::Export);
        if (k() == '(') {
          s->select = select_with_paren();
          expect(K_TO);
        } else {
          table_name(&s->schema, &s->name);
          if (accept(K_FROM))
            s->t = Stmt::Import;
          else
            expect(K_TO);
        }
        s->file = Str(string());
        s->copy = copy_options();
        if (s->t == Stmt::Import && accept(K_WHERE)) s->where = expr();
        return s;
      }
      case K_CREATE:
        s = create();
        opt_hints(s);
        return s;
      case K_INSERT:
        ++i;
        s = new_stmt(Stmt::Insert, "Values");
        expect(K_INTO);
        table_name(&s->schema, &s->name);
        s->has_cols = opt_columns(s->cols);
        if (accept(K_VALUES)) {
          expect('(');
          s->has_values = true;
          s->values = extended_literals();
          expect(')');
        } else {
          s->sub = "Select";
          s->select = select_no_paren();
        }
        opt_hints(s);
        return s;
      case K_UPDATE:
        ++i;
        s = new_stmt(Stmt::Update);
        table_name(&s->schema, &s->name);
        expect(K_SET);
        do {
          std::string col = ident();
          expect('=');
          Expr* e = expr();
          s->sets.emplace_back(col, e);
        } while (accept(','));
        if (accept(K_WHERE)) s->where = expr();
        opt_hints(s);
        return s;
      case K_DELETE:
        ++i;
        s = new_stmt(Stmt::Delete);
        expect(K_FROM);
        table_name(&s->schema, &s->name);
        if (accept(K_WHERE)) s->where = expr();
        opt_hints(s);
        return s;
      case K_TRUNCATE:
        ++i;
        s = new_stmt(Stmt::Delete);
        table_name(&s->schema, &s->name);
        opt_hints(s);
        return s;
      case K_DROP:
        ++i;
        s = new_stmt(Stmt::Drop);
        switch (k()) {
          case K_TABLE: s->sub = "Table"; break;
          case K_VIEW: s->sub = "View"; break;
          case K_INDEX: s->sub = "Index"; break;
          default: syntax();
        }
        {
          const bool index = k() == K_INDEX;
          ++i;
          s->flag = opt_if_exists();
          if (index)
            s->name2 = Str(ident());
          else
            table_name(&s->schema, &s->name);
        }
        opt_hints(s);
        return s;
      case K_DEALLOCATE:
        ++i;
        expect(K_PREPARE);
        s = new_stmt(Stmt::Drop, "PreparedStatement");
        s->name = Str(ident());
        opt_hints(s);
        return s;
      case K_ALTER:
        ++i;
        expect(K_TABLE);
        s = new_stmt(Stmt::Alter);
        s->flag = opt_if_exists();
        table_name(&s->schema, &s->name);
        expect(K_DROP);
        expect(K_COLUMN);
        s->flag2 = opt_if_exists();
        s->name2 = Str(ident());
        opt_hints(s);
        return s;
    }
    syntax();
  }

  Stmt* create() {
    ++i;
    Stmt* s = new_stmt(Stmt::Create);
    if (accept(K_TABLE)) {
      s->sub = "Table";
      s->flag = opt_if_not_exists();
      table_name(&s->schema, &s->name);
      if (accept(K_FROM)) {
        s->sub = "TableFromTbl";
        std::string type = lower(ident());
        expect(K_FILE);
        s->file = Str(string());
        if (type != "tbl") semantic("file type|unknown");
      } else if (accept(K_AS)) {
        s->select = select_statement();
      } else {
        expect('(');
        table_elements(s);
      }
      return s;
    }
    if (accept(K_INDEX)) {
      s->sub = "Index";
      s->flag = opt_if_not_exists();
      if (k() == K_IDENT) s->name2 = Str(ident());
      expect(K_ON);
      table_name(&s->schema, &s->name);
      expect('(');
      s->has_cols = true;
      s->cols = idents();
      return s;
    }
    expect(K_VIEW);
    s->sub = "View";
    s->flag = opt_if_not_exists();
    table_name(&s->schema, &s->name);
    s->has_cols = opt_columns(s->cols);
    expect(K_AS);
    s->select = select_statement();
    return s;
  }
};

}  // namespace

static void statements(Parser& p, Result& r) {
  for (;;) {
    const size_t first = p.i;
    Stmt* s = p.statement();
    s->first_tok = first;
    s->end_tok = p.i;
    r.stmts.push_back(s);
    if (!p.accept(';')) break;
    s->semicolon = true;
    if (p.k() == K_EOF) break;
  }
  if (p.k() != K_EOF) p.syntax();
}

Result parse(std::string_view text) {
  Result r;
  r.toks = lex(text);
  r.arena = std::make_shared<Arena>();
  Parser p(r.toks, *r.arena);
  try {
    statements(p, r);
    r.valid = true;
    r.params = p.params;
  } catch (const Fail& f) {
    r.stmts.clear();
    r.err_tok = f.tok;
    r.semantic = f.semantic;
    r.why = f.why;
    r.grey = p.grey;
  }
  return r;
}

bool continuable(std::string_view text) {
  Result r;
  const size_t t = syntax_error(text, r);
  return t == r.toks.size() || r.toks[t].kind == K_EOF;
}

size_t syntax_error(std::string_view text, Result& r) {
  r.toks = lex(text);
  r.arena = std::make_shared<Arena>();
  Parser p(r.toks, *r.arena);
  p.lenient = true;
  try {
    statements(p, r);
    return r.toks.size();
  } catch (const Fail& f) {
    return f.tok;
  }
}

}  // namespace ref
