#include "impl.h"

#include <algorithm>
#include <cstring>

#include "writer.h"

using namespace hsql;

namespace impl {
namespace {

template <size_t N>
std::string pick(const char* const (&names)[N], int i) {
  if (i >= 0 && size_t(i) < N) return names[i];
  return "?" + std::to_string(i);
}

std::string expr_type(ExprType t) {
  switch (t) {
    case kExprLiteralFloat: return "LiteralFloat";
    case kExprLiteralString: return "LiteralString";
    case kExprLiteralInt: return "LiteralInt";
    case kExprLiteralNull: return "LiteralNull";
    case kExprLiteralDate: return "LiteralDate";
    case kExprLiteralInterval: return "LiteralInterval";
    case kExprStar: return "Star";
    case kExprParameter: return "Parameter";
    case kExprColumnRef: return "ColumnRef";
    case kExprFunctionRef: return "FunctionRef";
    case kExprOperator: return "Operator";
    case kExprSelect: return "Select";
    case kExprHint: return "Hint";
    case kExprArray: return "Array";
    case kExprArrayIndex: return "ArrayIndex";
    case kExprExtract: return "Extract";
    case kExprCast: return "Cast";
  }
  return "?" + std::to_string(int(t));
}

std::string op_name(OperatorType t) {
  switch (t) {
    case kOpNone: return "None";
    case kOpBetween: return "Between";
    case kOpCase: return "Case";
    case kOpCaseListElement: return "CaseListElement";
    case kOpPlus: return "Plus";
    case kOpMinus: return "Minus";
    case kOpAsterisk: return "Asterisk";
    case kOpSlash: return "Slash";
    case kOpPercentage: return "Percentage";
    case kOpCaret: return "Caret";
    case kOpEquals: return "Equals";
    case kOpNotEquals: return "NotEquals";
    case kOpLess: return "Less";
    case kOpLessEq: return "LessEq";
    case kOpGreater: return "Greater";
    case kOpGreaterEq: return "GreaterEq";
    case kOpLike: return "Like";
    case kOpNotLike: return "NotLike";
    case kOpILike: return "ILike";
    case kOpAnd: return "And";
    case kOpOr: return "Or";
    case kOpIn: return "In";
    case kOpConcat: return "Concat";
    case kOpNot: return "Not";
    case kOpUnaryMinus: return "UnaryMinus";
    case kOpIsNull: return "IsNull";
    case kOpExists: return "Exists";
  }
  return "?" + std::to_string(int(t));
}

std::string data_type(DataType t) {
  switch (t) {
    case DataType::UNKNOWN: return "UNKNOWN";
    case DataType::BIGINT: return "BIGINT";
    case DataType::BOOLEAN: return "BOOLEAN";
    case DataType::CHAR: return "CHAR";
    case DataType::DATE: return "DATE";
    case DataType::DATETIME: return "DATETIME";
    case DataType::DECIMAL: return "DECIMAL";
    case DataType::DOUBLE: return "DOUBLE";
    case DataType::FLOAT: return "FLOAT";
    case DataType::INT: return "INT";
    case DataType::LONG: return "LONG";
    case DataType::REAL: return "REAL";
    case DataType::SMALLINT: return "SMALLINT";
    case DataType::TEXT: return "TEXT";
    case DataType::TIME: return "TIME";
    case DataType::VARCHAR: return "VARCHAR";
  }
  return "?" + std::to_string(int(t));
}

std::string field_name(DatetimeField f) {
  switch (f) {
    case kDatetimeNone: return "None";
    case kDatetimeSecond: return "SECOND";
    case kDatetimeMinute: return "MINUTE";
    case kDatetimeHour: return "HOUR";
    case kDatetimeDay: return "DAY";
    case kDatetimeMonth: return "MONTH";
    case kDatetimeYear: return "YEAR";
  }
  return "?" + std::to_string(int(f));
}

std::string constraint(ConstraintType t) {
  switch (t) {
    case ConstraintType::ForeignKey: return "ForeignKey";
    case ConstraintType::NotNull: return "NotNull";
    case ConstraintType::Null: return "Null";
    case ConstraintType::PrimaryKey: return "PrimaryKey";
    case ConstraintType::Unique: return "Unique";
  }
  return "?" + std::to_string(int(t));
}

std::string boolean(const bool& b) {  // the raw byte: an uninitialised bool may be neither
  unsigned char c;
  memcpy(&c, &b, 1);
  return c == 0 ? "" : c == 1 ? "true" : "?" + std::to_string(c);
}

struct D : Writer {
  bool all = false;
  const Visitor* v = nullptr;

  void block(const void* p, const char* what) {
    if (v && v->block && p) v->block(p, what);
  }
  void str(const char* k, const char* s) {
    if (!s) return;
    block(s, "string");
    Writer::str(k, s);
  }
  void flag(const char* k, const bool& b) {
    std::string s = boolean(b);
    if (!s.empty()) word(k, s);
  }
  void names(const char* k, const std::vector<char*>* x) {
    if (!x) return;
    block(x, "vector");
    lopen(k);
    for (auto* s : *x) {
      block(s, "string");
      o += ' ';
      o += s ? ref::quote(s) : "<null>";
    }
    lclose();
  }
  void coltype(const char* k, const ColumnType& c) {
    if (c.data_type == DataType::UNKNOWN && !c.length && !c.precision && !c.scale) return;
    word(k, data_type(c.data_type) + "/" + std::to_string(c.length) + "/" + std::to_string(c.precision) + "/" +
                std::to_string(c.scale));
  }
  void exprs(const char* k, const std::vector<Expr*>* x) {
    if (!x) return;
    block(x, "vector");
    lopen(k);
    for (auto* e : *x) expr(e);
    lclose();
  }
  void sub(const char* k, const Expr* e) {
    if (!e) return;
    key(k);
    expr(e);
  }
  void sub(const char* k, const SelectStatement* s) {
    if (!s) return;
    key(k);
    open("Select");
    select_body(s);
    exprs("hints", s->hints);
    if (all) num("length", int64_t(s->stringLength));
    if (s->type() != kStmtSelect) word("statement_type", std::to_string(s->type()));
    close();
  }
  void expr(const Expr* e) {
    if (!e) {
      o += "<null>";
      return;
    }
    block(e, "Expr");
    if (v && v->expr) v->expr(e);
    open("Expr");
    word("type", expr_type(e->type));
    if (e->opType != kOpNone) word("op", op_name(e->opType));
    str("name", e->name);
    str("table", e->table);
    str("schema", e->schema);
    str("alias", e->alias);
    real("fval", e->fval);
    num("ival", e->ival);
    if (all || e->type != kExprParameter) num("ival2", e->ival2);
    if (e->datetimeField != kDatetimeNone) word("field", field_name(e->datetimeField));
    coltype("col", e->columnType);
    flag("bool", e->isBoolLiteral);
    flag("distinct", e->distinct);
    sub("expr", e->expr);
    sub("expr2", e->expr2);
    exprs("list", e->exprList);
    sub("select", e->select);
    if (const WindowDescription* w = e->windowDescription) {
      block(w, "Window");
      key("window");
      open("Window");
      exprs("partition", w->partitionList);
      order("order", w->orderList);
      if (const FrameDescription* f = w->frameDescription) {
        block(f, "Frame");
        static const char* const kFrames[] = {"RANGE", "ROWS", "GROUPS"};
        word("frame", pick(kFrames, f->type));
        bound("start", f->start);
        bound("end", f->end);
      } else {
        word("frame", "<null>");
      }
      close();
    }
    close();
  }
  void bound(const char* k, const FrameBound* b) {
    key(k);
    if (!b) {
      o += "<null>";
      return;
    }
    block(b, "Bound");
    open("Bound");
    static const char* const kTypes[] = {"Following", "Preceding", "CurrentRow"};
    word("type", pick(kTypes, b->type));
    num("offset", b->offset);
    flag("unbounded", b->unbounded);
    close();
  }
  void order(const char* k, const std::vector<OrderDescription*>* x) {
    if (!x) return;
    block(x, "vector");
    lopen(k);
    for (auto* d : *x) {
      block(d, "Order");
      open("Order");
      if (d->type != kOrderAsc) word("desc", d->type == kOrderDesc ? "true" : "?" + std::to_string(d->type));
      static const char* const kNulls[] = {"undefined", "first", "last"};
      if (d->null_ordering != NullOrdering::Undefined) word("nulls", pick(kNulls, int(d->null_ordering)));
      sub("expr", d->expr);
      close();
    }
    lclose();
  }
  void limit(const char* k, const LimitDescription* l) {
    if (!l) return;
    block(l, "Limit");
    key(k);
    open("Limit");
    sub("limit", l->limit);
    sub("offset", l->offset);
    close();
  }
  void table(const char* k, const TableRef* t) {
    if (!t) return;
    key(k);
    table(t);
  }
  void table(const TableRef* t) {
    if (!t) {
      o += "<null>";
      return;
    }
    block(t, "Table");
    if (v && v->table) v->table(t);
    static const char* const kinds[] = {"Name", "Select", "Join", "Cross"};
    open("Table");
    word("type", pick(kinds, t->type));
    str("schema", t->schema);
    str("name", t->name);
    if (t->alias) {
      block(t->alias, "Alias");
      key("alias");
      open("Alias");
      str("name", t->alias->name);
      names("columns", t->alias->columns);
      close();
    }
    sub("select", t->select);
    if (t->list) {
      block(t->list, "vector");
      lopen("list");
      for (auto* x : *t->list) table(x);
      lclose();
    }
    if (const JoinDefinition* j = t->join) {
      block(j, "Join");
      key("join");
      open("Join");
      static const char* const kJoins[] = {"Inner", "Full", "Left", "Right", "Cross", "Natural"};
      word("type", pick(kJoins, j->type));
      table("left", j->left);
      table("right", j->right);
      sub("condition", j->condition);
      names("using", j->namedColumns);
      close();
    }
    close();
  }
  void select_body(const SelectStatement* s) {
    block(static_cast<const SQLStatement*>(s), "Select");
    if (v && v->select) v->select(s);
    flag("distinct", s->selectDistinct);
    exprs("list", s->selectList);
    table("from", s->fromTable);
    sub("where", s->whereClause);
    if (s->groupBy) {
      block(s->groupBy, "Group");
      key("group");
      open("Group");
      exprs("columns", s->groupBy->columns);
      sub("having", s->groupBy->having);
      close();
    }
    order("order", s->order);
    limit("limit", s->limit);
    if (s->setOperations) {
      block(s->setOperations, "vector");
      lopen("setops");
      for (auto* x : *s->setOperations) {
        block(x, "SetOp");
        open("SetOp");
        static const char* const kSets[] = {"Union", "Intersect", "Except"};
        word("type", pick(kSets, int(x->setType)));
        flag("all", x->isAll);
        sub("select", x->nestedSelectStatement);
        order("order", x->resultOrder);
        limit("limit", x->resultLimit);
        close();
      }
      lclose();
    }
    if (s->withDescriptions) {
      block(s->withDescriptions, "vector");
      lopen("with");
      for (auto* x : *s->withDescriptions) {
        block(x, "With");
        open("With");
        str("alias", x->alias);
        sub("select", x->select);
        close();
      }
      lclose();
    }
    if (s->lockings) {
      block(s->lockings, "vector");
      lopen("locks");
      for (auto* x : *s->lockings) {
        block(x, "Lock");
        open("Lock");
        static const char* const kModes[] = {"ForUpdate", "ForNoKeyUpdate", "ForShare", "ForKeyShare"};
        static const char* const kWaits[] = {"NoWait", "SkipLocked", "none"};
        word("mode", pick(kModes, int(x->rowLockMode)));
        word("wait", pick(kWaits, int(x->rowLockWaitPolicy)));
        names("tables", x->tables);
        close();
      }
      lclose();
    }
  }
  void copy(ImportType type, const char* encoding, const CsvOptions* csv) {
    static const char* const kFormats[] = {"csv", "tbl", "binary", "auto"};
    word("format", pick(kFormats, type));
    str("encoding", encoding);
    if (csv) {
      block(csv, "Csv");
      key("csv");
      open("Csv");
      str("delimiter", csv->delimiter);
      str("null", csv->null);
      str("quote", csv->quote);
      close();
    }
  }
  void refs(const ReferencesSpecification* r) {
    if (!r) {
      o += "<null>";
      return;
    }
    block(r, "Refs");
    open("Refs");
    str("schema", r->schema);
    str("table", r->table);
    names("columns", r->columns);
    close();
  }
  void create(const CreateStatement* s) {
    static const char* const kTypes[] = {"Table", "TableFromTbl", "View", "Index"};
    word("type", pick(kTypes, s->type));
    flag("if_not_exists", s->ifNotExists);
    str("file", s->filePath);
    str("schema", s->schema);
    str("table", s->tableName);
    str("index", s->indexName);
    names("index_columns", s->indexColumns);
    if (s->columns) {
      block(s->columns, "vector");
      lopen("columns");
      for (auto* c : *s->columns) {
        block(static_cast<const TableElement*>(c), "Column");
        open("Column");
        str("name", c->name);
        coltype("type", c->type);
        flag("nullable", c->nullable);
        if (c->column_constraints) {
          block(c->column_constraints, "set");
          std::vector<std::string> cs;
          for (auto x : *c->column_constraints) cs.push_back(constraint(x));
          std::sort(cs.begin(), cs.end());
          std::string joined;
          for (auto& x : cs) joined += x + ",";
          word("constraints", joined);
        }
        if (c->references) {
          block(c->references, "vector");
          lopen("refs");
          for (auto* r : *c->references) refs(r);
          lclose();
        }
        close();
      }
      lclose();
    }
    if (s->tableConstraints) {
      block(s->tableConstraints, "vector");
      lopen("constraints");
      for (auto* c : *s->tableConstraints) {
        block(static_cast<const TableElement*>(c), "Constraint");
        open("Constraint");
        word("type", constraint(c->type));
        names("columns", c->columnNames);
        if (auto* f = dynamic_cast<const ForeignKeyConstraint*>(c)) {
          key("refs");
          refs(f->references);
        }
        close();
      }
      lclose();
    }
    names("view_columns", s->viewColumns);
    sub("select", s->select);
  }
  void stmt(const SQLStatement* st) {
    switch (st->type()) {
      case kStmtSelect:
        open("SelectStmt");
        select_body(static_cast<const SelectStatement*>(st));
        break;
      case kStmtImport: {
        auto* s = static_cast<const ImportStatement*>(st);
        block(st, "Import");
        open("Import");
        str("file", s->filePath);
        str("schema", s->schema);
        str("table", s->tableName);
        sub("where", s->whereClause);
        copy(s->type, s->encoding, s->csv_options);
        break;
      }
      case kStmtExport: {
        auto* s = static_cast<const ExportStatement*>(st);
        block(st, "Export");
        open("Export");
        str("file", s->filePath);
        str("schema", s->schema);
        str("table", s->tableName);
        sub("select", s->select);
        copy(s->type, s->encoding, s->csv_options);
        break;
      }
      case kStmtInsert: {
        auto* s = static_cast<const InsertStatement*>(st);
        block(st, "Insert");
        open("Insert");
        static const char* const kTypes[] = {"Values", "Select"};
        word("type", pick(kTypes, s->type));
        str("schema", s->schema);
        str("table", s->tableName);
        names("columns", s->columns);
        exprs("values", s->values);
        sub("select", s->select);
        break;
      }
      case kStmtUpdate: {
        auto* s = static_cast<const UpdateStatement*>(st);
        block(st, "Update");
        open("Update");
        table("table", s->table);
        if (s->updates) {
          block(s->updates, "vector");
          lopen("sets");
          for (auto* u : *s->updates) {
            block(u, "Set");
            open("Set");
            str("column", u->column);
            sub("value", u->value);
            close();
          }
          lclose();
        }
        sub("where", s->where);
        break;
      }
      case kStmtDelete: {
        auto* s = static_cast<const DeleteStatement*>(st);
        block(st, "Delete");
        open("Delete");
        str("schema", s->schema);
        str("table", s->tableName);
        sub("where", s->expr);
        break;
      }
      case kStmtCreate:
        block(st, "Create");
        open("Create");
        create(static_cast<const CreateStatement*>(st));
        break;
      case kStmtDrop: {
        auto* s = static_cast<const DropStatement*>(st);
        block(st, "Drop");
        open("Drop");
        static const char* const kTypes[] = {"Table", "Schema", "Index", "View", "PreparedStatement"};
        word("type", pick(kTypes, s->type));
        flag("if_exists", s->ifExists);
        str("schema", s->schema);
        str("name", s->name);
        str("index", s->indexName);
        break;
      }
      case kStmtPrepare: {
        auto* s = static_cast<const PrepareStatement*>(st);
        block(st, "Prepare");
        open("Prepare");
        str("name", s->name);
        str("query", s->query);
        break;
      }
      case kStmtExecute: {
        auto* s = static_cast<const ExecuteStatement*>(st);
        block(st, "Execute");
        open("Execute");
        str("name", s->name);
        exprs("parameters", s->parameters);
        break;
      }
      case kStmtAlter: {
        auto* s = static_cast<const AlterStatement*>(st);
        block(st, "Alter");
        open("Alter");
        flag("if_exists", s->ifTableExists);
        str("schema", s->schema);
        str("name", s->name);
        key("action");
        if (auto* a = dynamic_cast<const DropColumnAction*>(s->action)) {
          block(static_cast<const AlterAction*>(a), "DropColumn");
          open("DropColumn");
          if (a->type != DropColumn) word("type", std::to_string(a->type));
          flag("if_exists", a->ifExists);
          str("column", a->columnName);
          close();
        } else {
          o += "<unknown>";
        }
        break;
      }
      case kStmtShow: {
        auto* s = static_cast<const ShowStatement*>(st);
        block(st, "Show");
        open("Show");
        static const char* const kTypes[] = {"Columns", "Tables"};
        word("type", pick(kTypes, s->type));
        str("schema", s->schema);
        str("name", s->name);
        break;
      }
      case kStmtTransaction: {
        auto* s = static_cast<const TransactionStatement*>(st);
        block(st, "Transaction");
        open("Transaction");
        static const char* const kTypes[] = {"Begin", "Commit", "Rollback"};
        word("type", pick(kTypes, s->command));
        break;
      }
      default:
        open("?");
        word("type", std::to_string(int(st->type())));
    }
    exprs("hints", st->hints);
    if (all) num("length", int64_t(st->stringLength));
    close();
  }
};

}  // namespace

std::string dump(const SQLStatement* s, bool all) {
  if (!s) return "<null>";
  D d;
  d.all = all;
  d.stmt(s);
  return std::move(d.o);
}

std::string dump(const Expr* e) {
  D d;
  d.expr(e);
  return std::move(d.o);
}

std::string dump(SQLParserResult& r, bool all) {
  std::string o = r.isValid() ? "valid" : "invalid";
  o += " message=";
  o += r.errorMsg() ? ref::quote(r.errorMsg()) : "<null>";
  o += " line=" + std::to_string(r.errorLine()) + " column=" + std::to_string(r.errorColumn());
  o += " parameters=" + std::to_string(r.parameters().size());
  for (auto* s : r.getStatements()) o += "\n" + dump(s, all);
  return o;
}

void visit(const SQLStatement* s, const Visitor& v) {
  D d;
  d.v = &v;
  d.stmt(s);
}

}  // namespace impl
