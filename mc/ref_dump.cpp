// Canonical text of model statements.
#include <algorithm>
#include <cstring>

#include "ref.h"
#include "writer.h"

namespace ref {
namespace {

struct D : Writer {
  void str(const char* k, const Str& s) {
    if (s.set) Writer::str(k, s.v);
  }
  void names(const char* k, bool has, const std::vector<std::string>& v) {
    if (!has) return;
    lopen(k);
    for (auto& s : v) o += ' ' + quote(s);
    lclose();
  }
  void coltype(const char* k, const ColType& c) {
    if (!strcmp(c.type, "UNKNOWN") && !c.length && !c.precision && !c.scale) return;
    word(k, std::string(c.type) + "/" + std::to_string(c.length) + "/" + std::to_string(c.precision) + "/" +
                std::to_string(c.scale));
  }
  void exprs(const char* k, bool has, const std::vector<Expr*>& v) {
    if (!has) return;
    lopen(k);
    for (auto* e : v) expr(e);
    lclose();
  }
  void sub(const char* k, const Expr* e) {
    if (!e) return;
    key(k);
    expr(e);
  }
  void sub(const char* k, const Select* s) {
    if (!s) return;
    key(k);
    select(s);
  }
  void expr(const Expr* e) {
    open("Expr");
    word("type", e->type);
    if (e->op) word("op", e->op);
    str("name", e->name);
    str("table", e->table);
    str("schema", e->schema);
    str("alias", e->alias);
    real("fval", e->fval);
    num("ival", e->ival);
    if (e->field) word("field", e->field);
    coltype("col", e->col);
    flag("bool", e->is_bool);
    flag("distinct", e->distinct);
    sub("expr", e->e1);
    sub("expr2", e->e2);
    exprs("list", e->has_list, e->list);
    sub("select", e->select);
    if (const Window* w = e->window) {
      key("window");
      open("Window");
      exprs("partition", w->has_part, w->part);
      order("order", w->has_order, w->order);
      word("frame", w->frame);
      bound("start", w->start);
      bound("end", w->end);
      close();
    }
    close();
  }
  void bound(const char* k, const Bound& b) {
    key(k);
    open("Bound");
    word("type", b.type);
    num("offset", b.offset);
    flag("unbounded", b.unbounded);
    close();
  }
  void order(const char* k, bool has, const std::vector<OrderBy>& v) {
    if (!has) return;
    lopen(k);
    for (auto& x : v) {
      open("Order");
      flag("desc", x.desc);
      if (x.nulls) word("nulls", x.nulls == 1 ? "first" : "last");
      sub("expr", x.expr);
      close();
    }
    lclose();
  }
  void limit(const char* k, const Limit* l) {
    if (!l) return;
    key(k);
    open("Limit");
    sub("limit", l->limit);
    sub("offset", l->offset);
    close();
  }
  void table(const char* k, const Table* t) {
    if (!t) return;
    key(k);
    table(t);
  }
  void table(const Table* t) {
    static const char* kinds[] = {"Name", "Select", "Join", "Cross"};
    open("Table");
    word("type", kinds[t->t]);
    str("schema", t->schema);
    str("name", t->name);
    if (t->alias.set) {
      key("alias");
      open("Alias");
      Writer::str("name", t->alias.name);
      names("columns", t->alias.has_cols, t->alias.cols);
      close();
    }
    sub("select", t->select);
    if (t->t == Table::Cross) {
      lopen("list");
      for (auto* x : t->list) table(x);
      lclose();
    }
    if (t->t == Table::Join) {
      key("join");
      open("Join");
      word("type", t->join);
      table("left", t->left);
      table("right", t->right);
      sub("condition", t->cond);
      names("using", t->has_using, t->using_cols);
      close();
    }
    close();
  }
  void select(const Select* s) {
    open("Select");
    select_body(s);
    close();
  }
  void select_body(const Select* s) {
    flag("distinct", s->distinct);
    exprs("list", true, s->list);
    table("from", s->from);
    sub("where", s->where);
    if (s->has_group) {
      key("group");
      open("Group");
      exprs("columns", true, s->group);
      sub("having", s->having);
      close();
    }
    order("order", s->has_order, s->order);
    limit("limit", s->limit);
    if (s->has_setops) {
      lopen("setops");
      for (auto& x : s->setops) {
        open("SetOp");
        word("type", x.type);
        flag("all", x.all);
        sub("select", x.nested);
        order("order", x.has_order, x.order);
        limit("limit", x.limit);
        close();
      }
      lclose();
    }
    if (s->has_with) {
      lopen("with");
      for (auto& x : s->with) {
        open("With");
        Writer::str("alias", x.alias);
        sub("select", x.select);
        close();
      }
      lclose();
    }
    if (s->has_lock) {
      lopen("locks");
      for (auto& x : s->locks) {
        open("Lock");
        word("mode", x.mode);
        word("wait", x.wait);
        names("tables", x.has_tables, x.tables);
        close();
      }
      lclose();
    }
  }
  void copy(const Copy& c) {
    word("format", c.format);
    str("encoding", c.encoding);
    if (c.has_csv) {
      key("csv");
      open("Csv");
      str("delimiter", c.delimiter);
      str("null", c.null);
      str("quote", c.quote);
      close();
    }
  }
  void refs(const Refs& r) {
    open("Refs");
    str("schema", r.schema);
    Writer::str("table", r.table);
    names("columns", r.has_cols, r.cols);
    close();
  }
  void stmt(const Stmt& s) {
    static const char* kinds[] = {"SelectStmt", "Import",  "Export",  "Insert", "Update", "Delete",     "Create",
                                  "Drop",       "Prepare", "Execute", "Alter",  "Show",   "Transaction"};
    open(kinds[s.t]);
    switch (s.t) {
      case Stmt::SelectS:
        select_body(s.select);
        break;
      case Stmt::Import:
      case Stmt::Export:
        str("file", s.file);
        str("schema", s.schema);
        str("table", s.name);
        if (s.t == Stmt::Import)
          sub("where", s.where);
        else
          sub("select", s.select);
        copy(s.copy);
        break;
      case Stmt::Insert:
        word("type", s.sub);
        str("schema", s.schema);
        str("table", s.name);
        names("columns", s.has_cols, s.cols);
        exprs("values", s.has_values, s.values);
        sub("select", s.select);
        break;
      case Stmt::Update: {
        Table t;
        t.schema = s.schema;
        t.name = s.name;
        table("table", &t);
        lopen("sets");
        for (auto& x : s.sets) {
          open("Set");
          Writer::str("column", x.first);
          sub("value", x.second);
          close();
        }
        lclose();
        sub("where", s.where);
        break;
      }
      case Stmt::Delete:
        str("schema", s.schema);
        str("table", s.name);
        sub("where", s.where);
        break;
      case Stmt::Create: {
        word("type", s.sub);
        flag("if_not_exists", s.flag);
        str("file", s.file);
        str("schema", s.schema);
        str("table", s.name);
        str("index", s.name2);
        const bool view = !strcmp(s.sub, "View");
        names("index_columns", s.has_cols && !view, s.cols);
        if (s.has_defs) {
          lopen("columns");
          for (auto& c : s.coldefs) {
            open("Column");
            Writer::str("name", c.name);
            coltype("type", c.type);
            flag("nullable", c.nullable);
            std::string cs;
            if (c.fk) cs += "ForeignKey,";
            if (c.not_null) cs += "NotNull,";
            if (c.null) cs += "Null,";
            if (c.pk) cs += "PrimaryKey,";
            if (c.unique) cs += "Unique,";
            word("constraints", cs);
            lopen("refs");
            for (auto& r : c.refs) refs(r);
            lclose();
            close();
          }
          lclose();
          lopen("constraints");
          for (auto& c : s.tabcons) {
            open("Constraint");
            word("type", c.type);
            names("columns", true, c.cols);
            if (c.has_refs) {
              key("refs");
              refs(c.refs);
            }
            close();
          }
          lclose();
        }
        names("view_columns", s.has_cols && view, s.cols);
        sub("select", s.select);
        break;
      }
      case Stmt::Drop:
        word("type", s.sub);
        flag("if_exists", s.flag);
        str("schema", s.schema);
        str("name", s.name);
        str("index", s.name2);
        break;
      case Stmt::Prepare:
        str("name", s.name);
        str("query", s.query);
        break;
      case Stmt::Execute:
        str("name", s.name);
        exprs("parameters", s.has_values, s.values);
        break;
      case Stmt::Alter:
        flag("if_exists", s.flag);
        str("schema", s.schema);
        str("name", s.name);
        key("action");
        open("DropColumn");
        flag("if_exists", s.flag2);
        str("column", s.name2);
        close();
        break;
      case Stmt::Show:
        word("type", s.sub);
        str("schema", s.schema);
        str("name", s.name);
        break;
      case Stmt::Transaction:
        word("type", s.sub);
        break;
    }
    exprs("hints", s.has_hints, s.hints);
    close();
  }
};
}  // namespace

std::string dump(const Stmt& s) {
  D d;
  d.stmt(s);
  return std::move(d.o);
}

}  // namespace ref
