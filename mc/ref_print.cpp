// What the printing helper shows for a model statement: one item per line, indented by the depth of its nesting.
#include <sstream>
#include <cstring>

#include "ref.h"

namespace ref {
namespace {

struct P {
  std::string o;

  void line(size_t depth, const std::string& s) {
    o.append(depth, '\t');
    o += s;
    o += '\n';
  }
  void integer(size_t depth, int64_t v) { line(depth, std::to_string(v) + "  "); }

  static std::string op(const char* name) {
    static const char* kOps[][2] = {{"Between", "BETWEEN"}, {"Case", "CASE"}, {"CaseListElement", "CASE LIST ELEMENT"},
                                    {"Plus", "+"}, {"Minus", "-"}, {"Asterisk", "*"}, {"Slash", "/"}, {"Percentage", "%"},
                                    {"Caret", "^"}, {"Equals", "="}, {"NotEquals", "!="}, {"Less", "<"}, {"LessEq", "<="},
                                    {"Greater", ">"}, {"GreaterEq", ">="}, {"Like", "LIKE"}, {"NotLike", "NOT LIKE"},
                                    {"ILike", "ILIKE"}, {"And", "AND"}, {"Or", "OR"}, {"In", "IN"}, {"Concat", "CONCAT"},
                                    {"Not", "NOT"}, {"UnaryMinus", "-"}, {"IsNull", "IS NULL"}, {"Exists", "EXISTS"}};
    for (auto& x : kOps)
      if (!strcmp(x[0], name)) return x[1];
    return "?";
  }
  static std::string type(const ColType& c) {
    std::string s = c.type;
    if (s == "CHAR" || s == "VARCHAR") s += "(" + std::to_string(c.length) + ")";
    return s;
  }

  void exprs(size_t d, const std::vector<Expr*>& v) {
    for (auto* e : v) expr(d, e);
  }
  void expr(size_t d, const Expr* e) {
    if (!e) return;
    const std::string t = e->type;
    if (t == "Star") {
      line(d, "*");
    } else if (t == "ColumnRef") {
      line(d, e->name.v);
      if (e->table.set) {
        line(d + 1, "Table:");
        line(d + 2, e->table.v);
      }
    } else if (t == "LiteralFloat") {
      std::ostringstream s;
      s << e->fval;
      line(d, s.str());
    } else if (t == "LiteralInt" || t == "Parameter") {
      integer(d, e->ival);
    } else if (t == "LiteralString" || t == "LiteralDate") {
      line(d, e->name.v);
    } else if (t == "LiteralNull") {
      line(d, "NULL");
    } else if (t == "LiteralInterval") {
      line(d, "INTERVAL");
      integer(d + 1, e->ival);
      line(d + 1, e->field);
    } else if (t == "FunctionRef") {
      line(d, e->name.v);
      exprs(d + 1, e->list);
      if (const Window* w = e->window) {
        line(d + 1, "OVER");
        if (w->has_part) {
          line(d + 2, "PARTITION BY");
          exprs(d + 3, w->part);
        }
        if (w->has_order) {
          line(d + 2, "ORDER BY");
          order(d + 3, w->order);
        }
        line(d + 2, std::string(w->frame) + " BETWEEN " + bound(w->start) + " AND " + bound(w->end));
      }
    } else if (t == "Extract") {
      line(d, "EXTRACT");
      line(d + 1, e->field);
      expr(d + 1, e->e1);
    } else if (t == "Cast") {
      line(d, "CAST");
      line(d + 1, type(e->col));
      expr(d + 1, e->e1);
    } else if (t == "Operator") {
      line(d, op(e->op));
      expr(d + 1, e->e1);
      exprs(d + 1, e->list);
      expr(d + 1, e->e2);
      if (e->select) select(d + 1, e->select);
    } else if (t == "Select") {
      select(d, e->select);
    } else if (t == "Array") {
      exprs(d + 1, e->list);
    } else if (t == "ArrayIndex") {
      expr(d + 1, e->e1);
      integer(d, e->ival);
    }
    if (e->alias.set) {
      line(d + 1, "Alias");
      line(d + 2, e->alias.v);
    }
  }
  static std::string bound(const Bound& b) {
    if (!strcmp(b.type, "CurrentRow")) return "CURRENT ROW";
    std::string s = b.unbounded ? "UNBOUNDED" : std::to_string(b.offset);
    return s + (strcmp(b.type, "Preceding") ? " FOLLOWING" : " PRECEDING");
  }
  void order(size_t d, const std::vector<OrderBy>& v) {
    for (auto& x : v) {
      expr(d, x.expr);
      line(d, x.desc ? "descending" : "ascending");
    }
  }
  void table(size_t d, const Table* t) {
    switch (t->t) {
      case Table::Name:
        line(d, t->name.v);
        if (t->schema.set) {
          line(d + 1, "Schema");
          line(d + 2, t->schema.v);
        }
        break;
      case Table::Sel:
        select(d, t->select);
        break;
      case Table::Join:
        line(d, "Join Table");
        line(d + 1, "Left");
        table(d + 2, t->left);
        line(d + 1, "Right");
        table(d + 2, t->right);
        line(d + 1, "Join Condition");
        expr(d + 2, t->cond);
        break;
      case Table::Cross:
        for (auto* x : t->list) table(d, x);
        break;
    }
    if (t->alias.set) {
      line(d + 1, "Alias");
      line(d + 2, t->alias.name);
      for (auto& c : t->alias.cols) line(d + 3, c);
    }
  }
  void select(size_t d, const Select* s) {
    line(d, "SelectStatement");
    line(d + 1, "Fields:");
    exprs(d + 2, s->list);
    if (s->from) {
      line(d + 1, "Sources:");
      table(d + 2, s->from);
    }
    if (s->where) {
      line(d + 1, "Search Conditions:");
      expr(d + 2, s->where);
    }
    if (s->has_group) {
      line(d + 1, "GroupBy:");
      exprs(d + 2, s->group);
      if (s->having) {
        line(d + 1, "Having:");
        expr(d + 2, s->having);
      }
    }
    if (s->has_lock) {
      line(d + 1, "Lock Info:");
      for (auto& l : s->locks) {
        line(d + 2, "Type");
        const std::string m = l.mode;
        line(d + 3, m == "ForUpdate"        ? "FOR UPDATE"
                    : m == "ForNoKeyUpdate" ? "FOR NO KEY UPDATE"
                    : m == "ForShare"       ? "FOR SHARE"
                                            : "FOR KEY SHARE");
        if (l.has_tables) {
          line(d + 2, "Target tables:");
          for (auto& x : l.tables) line(d + 3, x);
        }
        if (strcmp(l.wait, "none")) {
          line(d + 2, "Waiting policy: ");
          line(d + 3, strcmp(l.wait, "NoWait") ? "SKIP LOCKED" : "NOWAIT");
        }
      }
    }
    for (auto& x : s->setops) {
      line(d + 1, std::string(x.type) + ":");
      select(d + 2, x.nested);
      if (x.has_order) {
        line(d + 1, "SetResultOrderBy:");
        order(d + 2, x.order);
      }
      if (x.limit && x.limit->limit) {
        line(d + 1, "SetResultLimit:");
        expr(d + 2, x.limit->limit);
      }
      if (x.limit && x.limit->offset) {
        line(d + 1, "SetResultOffset:");
        expr(d + 2, x.limit->offset);
      }
    }
    if (s->has_order) {
      line(d + 1, "OrderBy:");
      order(d + 2, s->order);
    }
    if (s->limit && s->limit->limit) {
      line(d + 1, "Limit:");
      expr(d + 2, s->limit->limit);
    }
    if (s->limit && s->limit->offset) {
      line(d + 1, "Offset:");
      expr(d + 2, s->limit->offset);
    }
  }
  static std::string format(const char* f) {
    std::string s = f;
    for (char& c : s)
      if (c >= 97) c = char(c - 32);
    return s;
  }
  void stmt(const Stmt& s) {
    switch (s.t) {
      case Stmt::SelectS:
        select(0, s.select);
        break;
      case Stmt::Import:
        line(0, "ImportStatement");
        line(1, s.file.v);
        line(1, format(s.copy.format));
        line(1, s.name.v);
        if (s.where) {
          line(1, "WHERE:");
          expr(2, s.where);
        }
        break;
      case Stmt::Export:
        line(0, "ExportStatement");
        line(1, s.file.v);
        line(1, format(s.copy.format));
        if (s.select)
          select(1, s.select);
        else
          line(1, s.name.v);
        break;
      case Stmt::Create:
        line(0, "CreateStatement");
        line(1, s.name.v);
        if (s.file.set) line(1, s.file.v);
        break;
      case Stmt::Insert:
        line(0, "InsertStatement");
        line(1, s.name.v);
        if (s.has_cols) {
          line(1, "Columns");
          for (auto& c : s.cols) line(2, c);
        }
        if (s.select) {
          select(1, s.select);
        } else {
          line(1, "Values");
          exprs(2, s.values);
        }
        break;
      case Stmt::Transaction:
        line(0, "TransactionStatement");
        line(1, format(s.sub));
        break;
      default:
        break;
    }
  }
};
}  // namespace

std::string print(const Stmt& s) {
  P p;
  p.stmt(s);
  return std::move(p.o);
}

}  // namespace ref
