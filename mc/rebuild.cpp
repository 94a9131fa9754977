#include "rebuild.h"

#include <cstring>

using namespace hsql;

char* Rebuild::copy(const char* s) { return s ? strdup(s) : nullptr; }

char* Rebuild::str(const char* s) { return !s || out() ? nullptr : strdup(s); }

bool Rebuild::out_list(bool& leave_empty) {
  leave_empty = false;
  if (++parts != leave_out) return false;
  leave_empty = empty;
  return !empty;
}

std::vector<char*>* Rebuild::names(const std::vector<char*>* v, bool needed) {
  bool none = false;
  if (!v || (out_list(none) && !needed)) return nullptr;
  auto* r = new std::vector<char*>();
  if (!none)
    for (auto* s : *v) r->push_back(copy(s));
  return r;
}

std::vector<Expr*>* Rebuild::list(const std::vector<Expr*>* v) {
  bool none = false;
  if (!v || out_list(none)) return nullptr;
  auto* r = new std::vector<Expr*>();
  if (none) return r;
  for (auto* e : *v) r->push_back(expr(e));
  for (auto& e : *r) hold(e);
  return r;
}

std::vector<OrderDescription*>* Rebuild::order(const std::vector<OrderDescription*>* v) {
  bool none = false;
  if (!v || out_list(none)) return nullptr;
  auto* r = new std::vector<OrderDescription*>();
  if (none) return r;
  for (auto* d : *v) {
    r->push_back(new OrderDescription(d->type, sub(d->expr), d->null_ordering));
    hold(r->back()->expr);
  }
  return r;
}

LimitDescription* Rebuild::limit(const LimitDescription* l) {
  if (!l || out()) return nullptr;
  Expr* a = sub(l->limit);
  Expr* b = sub(l->offset);
  auto* r = new LimitDescription(a, b);
  hold(r->limit);
  hold(r->offset);
  return r;
}

Expr* Rebuild::sub(const Expr* e) { return !e || out() ? nullptr : expr(e); }
SelectStatement* Rebuild::sub(const SelectStatement* s) { return !s || out() ? nullptr : select(s); }
TableRef* Rebuild::sub(const TableRef* t) { return !t || out() ? nullptr : table(t); }

FrameBound* Rebuild::bound(const FrameBound* b) { return !b || out() ? nullptr : new FrameBound(b->offset, b->type, b->unbounded); }

Expr* Rebuild::expr(const Expr* e) {
  if (!e) return nullptr;
  Expr* r = nullptr;
  switch (e->type) {
    case kExprLiteralFloat:
      r = Expr::makeLiteral(e->fval);
      break;
    case kExprLiteralString:
      r = Expr::makeLiteral(str(e->name));
      break;
    case kExprLiteralInt:
      r = e->isBoolLiteral ? Expr::makeLiteral(e->ival != 0) : Expr::makeLiteral(e->ival);
      break;
    case kExprLiteralNull:
      r = Expr::makeNullLiteral();
      break;
    case kExprLiteralDate:
      r = Expr::makeDateLiteral(str(e->name));
      break;
    case kExprLiteralInterval:
      r = Expr::makeIntervalLiteral(e->ival, e->datetimeField);
      break;
    case kExprStar:
      r = e->table ? Expr::makeStar(str(e->table)) : Expr::makeStar();
      break;
    case kExprParameter:
      r = Expr::makeParameter(int(e->ival));
      r->ival2 = e->ival2;
      break;
    case kExprColumnRef:
      if (e->table) {
        char* t = str(e->table);
        r = Expr::makeColumnRef(t, str(e->name));
      } else {
        r = Expr::makeColumnRef(str(e->name));
      }
      break;
    case kExprFunctionRef: {
      char* n = str(e->name);
      char* s = e->schema ? str(e->schema) : nullptr;
      auto* l = list(e->exprList);
      WindowDescription* w = nullptr;
      if (const WindowDescription* d = e->windowDescription)
        if (!out()) {
          auto* p = list(d->partitionList);
          auto* o = order(d->orderList);
          FrameDescription* f = nullptr;
          if (d->frameDescription && !out()) {
            auto* from = bound(d->frameDescription->start);
            auto* to = bound(d->frameDescription->end);
            f = new FrameDescription(d->frameDescription->type, from, to);
          }
          w = new WindowDescription(p, o, f);
        }
      r = e->schema ? Expr::makeFunctionRef(n, s, l, e->distinct, w) : Expr::makeFunctionRef(n, l, e->distinct, w);
      break;
    }
    case kExprOperator:
      switch (e->opType) {
        case kOpBetween: {
          Expr* x = sub(e->expr);
          Expr* a = sub(e->exprList->at(0));
          Expr* b = sub(e->exprList->at(1));
          r = Expr::makeBetween(x, a, b);
          break;
        }
        case kOpCase: {
          Expr* x = sub(e->expr);
          Expr* l = nullptr;
          for (auto* c : *e->exprList) {
            Expr* w = sub(c->expr);
            Expr* t = sub(c->expr2);
            Expr* y = Expr::makeCaseListElement(w, t);
            hold(y->expr);
            hold(y->expr2);
            l = l ? Expr::caseListAppend(l, y) : Expr::makeCaseList(y);
          }
          r = Expr::makeCase(x, l, sub(e->expr2));
          break;
        }
        case kOpExists:
          r = Expr::makeExists(sub(e->select));
          break;
        case kOpIn: {
          Expr* x = sub(e->expr);
          r = e->select ? Expr::makeInOperator(x, sub(e->select)) : Expr::makeInOperator(x, list(e->exprList));
          break;
        }
        case kOpNot:
        case kOpUnaryMinus:
        case kOpIsNull:
          r = Expr::makeOpUnary(e->opType, sub(e->expr));
          break;
        default: {
          Expr* x = sub(e->expr);
          r = Expr::makeOpBinary(x, e->opType, sub(e->expr2));
        }
      }
      break;
    case kExprSelect:
      r = Expr::makeSelect(sub(e->select));
      break;
    case kExprHint:
      r = Expr::make(kExprHint);
      r->name = str(e->name);
      r->exprList = list(e->exprList);
      break;
    case kExprArray:
      r = Expr::makeArray(list(e->exprList));
      break;
    case kExprArrayIndex:
      r = Expr::makeArrayIndex(sub(e->expr), e->ival);
      break;
    case kExprExtract:
      r = Expr::makeExtract(e->datetimeField, sub(e->expr));
      break;
    case kExprCast:
      r = Expr::makeCast(sub(e->expr), e->columnType);
      break;
  }
  r->alias = str(e->alias);
  hold(r->expr);
  hold(r->expr2);
  if (r->select) selects.push_back(&r->select);
  return r;
}

TableRef* Rebuild::table(const TableRef* t) {
  if (!t) return nullptr;
  auto* r = new TableRef(t->type);
  r->schema = str(t->schema);
  r->name = str(t->name);
  if (t->alias && !out()) {
    char* n = str(t->alias->name);
    r->alias = t->alias->columns ? new Alias(n, names(t->alias->columns)) : new Alias(n);
  }
  r->select = sub(t->select);
  bool none = false;
  if (t->list && !out_list(none)) {
    r->list = new std::vector<TableRef*>();
    if (!none) {
      for (auto* x : *t->list) r->list->push_back(table(x));
      for (auto& x : *r->list) tables.push_back(&x);
    }
  }
  if (const JoinDefinition* j = t->join)
    if (!out()) {
      r->join = new JoinDefinition();
      r->join->left = sub(j->left);
      r->join->right = sub(j->right);
      r->join->condition = sub(j->condition);
      r->join->namedColumns = names(j->namedColumns);
      if (j->type != kJoinInner) r->join->type = j->type;
      tables.push_back(&r->join->left);
      tables.push_back(&r->join->right);
      hold(r->join->condition);
    }
  selects.push_back(&r->select);
  return r;
}

// Fields that have the documented default are left alone.
SelectStatement* Rebuild::select(const SelectStatement* s) {
  auto* r = new SelectStatement();
  if (s->selectDistinct) r->selectDistinct = true;
  r->selectList = list(s->selectList);
  r->fromTable = sub(s->fromTable);
  r->whereClause = sub(s->whereClause);
  if (s->groupBy && !out()) {
    r->groupBy = new GroupByDescription();
    r->groupBy->columns = list(s->groupBy->columns);
    r->groupBy->having = sub(s->groupBy->having);
    hold(r->groupBy->having);
  }
  r->order = order(s->order);
  r->limit = limit(s->limit);
  bool none = false;
  if (s->setOperations && !out_list(none)) {
    r->setOperations = new std::vector<SetOperation*>();
    if (!none)
      for (auto* o : *s->setOperations) {
        auto* x = new SetOperation();
        if (o->setType != kSetUnion) x->setType = o->setType;
        if (o->isAll) x->isAll = true;
        x->nestedSelectStatement = sub(o->nestedSelectStatement);
        x->resultOrder = order(o->resultOrder);
        x->resultLimit = limit(o->resultLimit);
        selects.push_back(&x->nestedSelectStatement);
        r->setOperations->push_back(x);
      }
  }
  if (s->withDescriptions && !out_list(none)) {
    r->withDescriptions = new std::vector<WithDescription*>();
    if (!none)
      for (auto* w : *s->withDescriptions) {
        auto* x = new WithDescription();
        x->alias = str(w->alias);
        x->select = sub(w->select);
        selects.push_back(&x->select);
        r->withDescriptions->push_back(x);
      }
  }
  if (s->lockings && !out_list(none)) {
    r->lockings = new std::vector<LockingClause*>();
    if (!none)
      for (auto* l : *s->lockings) {
        auto* x = new LockingClause();
        x->rowLockMode = l->rowLockMode;
        x->rowLockWaitPolicy = l->rowLockWaitPolicy;
        x->tables = names(l->tables);
        r->lockings->push_back(x);
      }
  }
  r->hints = list(s->hints);
  if (s->stringLength) r->stringLength = s->stringLength;
  tables.push_back(&r->fromTable);
  hold(r->whereClause);
  return r;
}

CsvOptions* Rebuild::csv(const CsvOptions* c) {
  if (!c || out()) return nullptr;
  auto* r = new CsvOptions();
  r->delimiter = str(c->delimiter);
  r->null = str(c->null);
  r->quote = str(c->quote);
  return r;
}

ReferencesSpecification* Rebuild::refs(const ReferencesSpecification* r) {
  if (!r) return nullptr;
  char* s = str(r->schema);
  char* t = str(r->table);
  return new ReferencesSpecification(s, t, names(r->columns));
}

std::vector<ReferencesSpecification*>* Rebuild::refs(const std::vector<ReferencesSpecification*>* v) {
  bool none = false;
  if (!v || out_list(none)) return nullptr;
  auto* x = new std::vector<ReferencesSpecification*>();
  if (!none)
    for (auto* r : *v) x->push_back(refs(r));
  return x;
}

CreateStatement* Rebuild::create(const CreateStatement* s) {
  auto* r = new CreateStatement(s->type);
  if (s->ifNotExists) r->ifNotExists = true;
  r->filePath = str(s->filePath);
  r->schema = str(s->schema);
  r->tableName = str(s->tableName);
  r->indexName = str(s->indexName);
  r->indexColumns = names(s->indexColumns);
  r->viewColumns = names(s->viewColumns);
  r->select = sub(s->select);
  selects.push_back(&r->select);
  if (s->columns || s->tableConstraints) {
    std::vector<TableElement*> elements;
    // Constraints may be written between the columns; the order of each kind counts.
    size_t c = 0, k = 0;
    const size_t nc = s->columns ? s->columns->size() : 0, nk = s->tableConstraints ? s->tableConstraints->size() : 0;
    while (c < nc || k < nk) {
      if (c < nc) {
        const ColumnDefinition* d = (*s->columns)[c++];
        char* n = str(d->name);
        std::unordered_set<ConstraintType>* set = nullptr;
        if (d->column_constraints) set = new std::unordered_set<ConstraintType>(*d->column_constraints);
        auto* x = new ColumnDefinition(n, d->type, set, refs(d->references));
        if (set) x->trySetNullableExplicit();
        elements.push_back(x);
      }
      if (k < nk) {
        const TableConstraint* t = (*s->tableConstraints)[k++];
        auto* columns = names(t->columnNames, true);
        if (auto* f = dynamic_cast<const ForeignKeyConstraint*>(t))
          elements.push_back(new ForeignKeyConstraint(columns, f->references && !out() ? refs(f->references) : nullptr));
        else
          elements.push_back(new TableConstraint(t->type, columns));
      }
    }
    r->setColumnDefsAndConstraints(&elements);
  }
  return r;
}

SQLStatement* Rebuild::stmt(const SQLStatement* st) {
  SQLStatement* result = nullptr;
  switch (st->type()) {
    case kStmtSelect:
      return select(static_cast<const SelectStatement*>(st));
    case kStmtImport: {
      auto* s = static_cast<const ImportStatement*>(st);
      auto* r = new ImportStatement(s->type);
      r->filePath = str(s->filePath);
      r->schema = str(s->schema);
      r->tableName = str(s->tableName);
      r->whereClause = sub(s->whereClause);
      r->encoding = str(s->encoding);
      r->csv_options = csv(s->csv_options);
      hold(r->whereClause);
      result = r;
      break;
    }
    case kStmtExport: {
      auto* s = static_cast<const ExportStatement*>(st);
      auto* r = new ExportStatement(s->type);
      r->filePath = str(s->filePath);
      r->schema = str(s->schema);
      r->tableName = str(s->tableName);
      r->select = sub(s->select);
      r->encoding = str(s->encoding);
      r->csv_options = csv(s->csv_options);
      selects.push_back(&r->select);
      result = r;
      break;
    }
    case kStmtInsert: {
      auto* s = static_cast<const InsertStatement*>(st);
      auto* r = new InsertStatement(s->type);
      r->schema = str(s->schema);
      r->tableName = str(s->tableName);
      r->columns = names(s->columns);
      r->values = list(s->values);
      r->select = sub(s->select);
      selects.push_back(&r->select);
      result = r;
      break;
    }
    case kStmtUpdate: {
      auto* s = static_cast<const UpdateStatement*>(st);
      auto* r = new UpdateStatement();
      r->table = sub(s->table);
      bool none = false;
      if (s->updates && !out_list(none)) {
        r->updates = new std::vector<UpdateClause*>();
        if (!none)
          for (auto* u : *s->updates) {
            auto* x = new UpdateClause();
            x->column = str(u->column);
            x->value = sub(u->value);
            hold(x->value);
            r->updates->push_back(x);
          }
      }
      r->where = sub(s->where);
      tables.push_back(&r->table);
      hold(r->where);
      result = r;
      break;
    }
    case kStmtDelete: {
      auto* s = static_cast<const DeleteStatement*>(st);
      auto* r = new DeleteStatement();
      r->schema = str(s->schema);
      r->tableName = str(s->tableName);
      r->expr = sub(s->expr);
      hold(r->expr);
      result = r;
      break;
    }
    case kStmtCreate:
      result = create(static_cast<const CreateStatement*>(st));
      break;
    case kStmtDrop: {
      auto* s = static_cast<const DropStatement*>(st);
      auto* r = new DropStatement(s->type);
      if (s->ifExists) r->ifExists = true;
      r->schema = str(s->schema);
      r->name = str(s->name);
      r->indexName = str(s->indexName);
      result = r;
      break;
    }
    case kStmtPrepare: {
      auto* s = static_cast<const PrepareStatement*>(st);
      auto* r = new PrepareStatement();
      r->name = str(s->name);
      r->query = str(s->query);
      result = r;
      break;
    }
    case kStmtExecute: {
      auto* s = static_cast<const ExecuteStatement*>(st);
      auto* r = new ExecuteStatement();
      r->name = str(s->name);
      r->parameters = list(s->parameters);
      result = r;
      break;
    }
    case kStmtAlter: {
      auto* s = static_cast<const AlterStatement*>(st);
      char* n = str(s->name);
      AlterAction* action = nullptr;
      if (auto* d = dynamic_cast<const DropColumnAction*>(s->action))
        if (!out()) {
          auto* a = new DropColumnAction(str(d->columnName));
          if (d->ifExists) a->ifExists = true;
          action = a;
        }
      auto* r = new AlterStatement(n, action);
      r->schema = str(s->schema);
      if (s->ifTableExists) r->ifTableExists = true;
      result = r;
      break;
    }
    case kStmtShow: {
      auto* s = static_cast<const ShowStatement*>(st);
      auto* r = new ShowStatement(s->type);
      r->schema = str(s->schema);
      r->name = str(s->name);
      result = r;
      break;
    }
    case kStmtTransaction:
      result = new TransactionStatement(static_cast<const TransactionStatement*>(st)->command);
      break;
    default:
      return nullptr;
  }
  result->hints = list(st->hints);
  if (st->stringLength) result->stringLength = st->stringLength;
  return result;
}
