// Accessors and comparisons agree with the fields: all nodes of all explored trees, all combinations of present fields
// on nodes made directly, and all pairs of column types.
#include <cstdlib>
#include <cstring>
#include <memory>

#include "aspects.h"
#include "constants.h"
#include "explore.h"
#include "families.h"

const char* const kProperty = "C21";

using namespace hsql;

namespace {

constexpr ExprType kTypes[] = {kExprLiteralFloat, kExprLiteralString, kExprLiteralInt, kExprLiteralNull, kExprLiteralDate, kExprLiteralInterval,
                               kExprStar, kExprParameter, kExprColumnRef, kExprFunctionRef, kExprOperator, kExprSelect, kExprHint, kExprArray,
                               kExprArrayIndex, kExprExtract, kExprCast};
constexpr StatementType kStatements[] = {kStmtError, kStmtSelect, kStmtImport, kStmtInsert, kStmtUpdate, kStmtDelete, kStmtCreate, kStmtDrop,
                                         kStmtPrepare, kStmtExecute, kStmtExport, kStmtRename, kStmtAlter, kStmtShow, kStmtTransaction};

bool same(const char* a, const char* b) { return a == b || (a && b && !strcmp(a, b)); }

std::string check_expr(const Expr* e) {
  int of = 0;
  for (ExprType t : kTypes) {
    if (e->isType(t) != (e->type == t)) return "isType(" + std::to_string(t) + ") is wrong for type " + std::to_string(e->type);
    of += e->isType(t);
  }
  if (of != 1) return "an expression is of " + std::to_string(of) + " types";
  bool literal = false;
  for (ExprType t : {kExprLiteralFloat, kExprLiteralString, kExprLiteralInt, kExprLiteralNull, kExprLiteralDate, kExprLiteralInterval, kExprParameter})
    literal |= e->type == t;
  if (e->isLiteral() != literal) return "isLiteral is wrong for type " + std::to_string(e->type);
  if (e->hasAlias() != (e->alias != nullptr)) return "hasAlias is wrong";
  if (e->hasTable() != (e->table != nullptr)) return "hasTable is wrong";
  if (!same(e->getName(), e->alias ? e->alias : e->name)) return "getName of an expression is wrong";
  return "";
}

std::string check_table(const TableRef* t) {
  if (t->hasSchema() != (t->schema != nullptr)) return "hasSchema is wrong";
  if (!same(t->getName(), t->alias ? t->alias->name : t->name)) return "getName of a table is wrong";
  return "";
}

template <typename T>
bool is(const SQLStatement* s) {
  return dynamic_cast<const T*>(s) != nullptr;
}

std::string check_statement(const SQLStatement* s) {
  const StatementType type = is<SelectStatement>(s)        ? kStmtSelect
                             : is<ImportStatement>(s)      ? kStmtImport
                             : is<InsertStatement>(s)      ? kStmtInsert
                             : is<UpdateStatement>(s)      ? kStmtUpdate
                             : is<DeleteStatement>(s)      ? kStmtDelete
                             : is<CreateStatement>(s)      ? kStmtCreate
                             : is<DropStatement>(s)        ? kStmtDrop
                             : is<PrepareStatement>(s)     ? kStmtPrepare
                             : is<ExecuteStatement>(s)     ? kStmtExecute
                             : is<ExportStatement>(s)      ? kStmtExport
                             : is<AlterStatement>(s)       ? kStmtAlter
                             : is<ShowStatement>(s)        ? kStmtShow
                             : is<TransactionStatement>(s) ? kStmtTransaction
                                                           : kStmtError;
  if (s->type() != type) return "type() is " + std::to_string(s->type()) + " for a statement of type " + std::to_string(type);
  for (StatementType t : kStatements)
    if (s->isType(t) != (t == type) || s->is(t) != (t == type)) return "isType or is(" + std::to_string(t) + ") is wrong for a statement of type " + std::to_string(type);
  return "";
}

constexpr DataType kData[] = {DataType::UNKNOWN, DataType::BIGINT, DataType::BOOLEAN, DataType::CHAR, DataType::DATE, DataType::DATETIME, DataType::DECIMAL, DataType::DOUBLE,
                              DataType::FLOAT, DataType::INT, DataType::LONG, DataType::REAL, DataType::SMALLINT, DataType::TEXT, DataType::TIME, DataType::VARCHAR};
constexpr int64_t kNumbers[] = {0, 1, 2, 3, -1, 10, 255, 256, 257, int64_t(1) << 31, (int64_t(1) << 32), (int64_t(1) << 32) + 1, INT64_MAX, INT64_MIN, 65536, -2};

std::string show(const ColumnType& c) {
  return std::to_string(int(c.data_type)) + "/" + std::to_string(c.length) + "/" + std::to_string(c.precision) + "/" + std::to_string(c.scale);
}

// All lengths, precisions and scales for one pair of data types.
std::string check_types(DataType a, DataType b, int numbers) {
  for (int i = 0; i < numbers * numbers * numbers; ++i) {
    const ColumnType x(a, kNumbers[i % numbers], kNumbers[i / numbers % numbers], kNumbers[i / numbers / numbers]);
    if (x.data_type != a || x.length != kNumbers[i % numbers] || x.precision != kNumbers[i / numbers % numbers] || x.scale != kNumbers[i / numbers / numbers]) return "a column type is not made of its arguments";
    for (int j = 0; j < numbers * numbers * numbers; ++j) {
      const ColumnType y(b, kNumbers[j % numbers], kNumbers[j / numbers % numbers], kNumbers[j / numbers / numbers]);
      const bool equal = a == b && i == j;
      if ((x == y) != equal || (x != y) == equal || (y == x) != equal)
        return "comparison of two column types is wrong: " + show(x) + " and " + show(y);
    }
  }
  return "";
}

char* copy(const char* s) { return s ? strdup(s) : nullptr; }

// All combinations of present and absent fields on nodes that are made directly.
std::string check_made(ExprType type) {
  const char* names[] = {nullptr, "", "n", "a long name that differs"};
  for (auto* name : names)
    for (auto* alias : names)
      for (auto* table : names)
        for (auto* schema : names) {
          Expr e(type);
          e.name = copy(name);
          e.alias = copy(alias);
          e.table = copy(table);
          e.schema = copy(schema);
          std::string d = check_expr(&e);
          if (!d.empty()) return d + " on an expression made directly";
        }
  for (TableRefType t : {kTableName, kTableSelect, kTableJoin, kTableCrossProduct})
    for (auto* name : names)
      for (auto* schema : names)
        for (size_t a = 0; a < 5; ++a) {
          TableRef r(t);
          r.name = copy(name);
          r.schema = copy(schema);
          if (a) r.alias = new Alias(copy(names[a - 1]), a % 2 ? new std::vector<char*>{copy("c"), copy("d")} : nullptr);
          std::string d = check_table(&r);
          if (!d.empty()) return d + " on a table made directly";
        }
  return "";
}

}  // namespace

// args: a text; or, in the phase "column types", two indexes and a number; or, in "nodes", an index.
std::string check(const Case& c) {
  if (!strcmp(c.phase, "column types")) {
    Engine::outcome(c.args[0] + " " + c.args[1]);
    return check_types(kData[std::stoi(c.args[0])], kData[std::stoi(c.args[1])], std::stoi(c.args[2]));
  }
  if (!strcmp(c.phase, "nodes")) return check_made(kTypes[std::stoi(c.args[0])]);
  SQLParserResult r;
  SQLParser::parse(c.args[0], &r);
  std::string d, seen;
  std::vector<const ColumnType*> types;
  impl::Visitor v;
  v.expr = [&](const Expr* e) {
    if (d.empty()) d = check_expr(e);
    if (types.size() < 64) types.push_back(&e->columnType);
    seen += "e" + std::to_string(e->type) + (e->alias ? "a" : "") + (e->name ? "n" : "") + (e->table ? "t" : "");
  };
  v.table = [&](const TableRef* t) {
    if (d.empty()) d = check_table(t);
    seen += "t" + std::to_string(t->type) + (t->alias ? "a" : "") + (t->name ? "n" : "") + (t->schema ? "s" : "");
  };
  v.select = [&](const SelectStatement* s) {
    if (d.empty()) d = check_statement(s);
  };
  const size_t n = r.size();
  if (n != r.getStatements().size()) return "size differs from the number of statements";
  for (size_t i = 0; i < n && d.empty(); ++i) {
    const SQLStatement* s = r.getStatement(i);
    if (s != r.getStatements()[i] || s != r.getMutableStatement(i)) return "the accessors of a statement return different statements";
    d = check_statement(s);
    seen += "s" + std::to_string(s->type());
    impl::visit(s, v);
    if (s->type() == kStmtCreate && static_cast<const CreateStatement*>(s)->columns)
      for (auto* column : *static_cast<const CreateStatement*>(s)->columns)
        if (types.size() < 64) types.push_back(&column->type);
  }
  for (auto* x : types)
    for (auto* y : types) {
      const bool equal = x->data_type == y->data_type && x->length == y->length && x->precision == y->precision && x->scale == y->scale;
      if (((*x == *y) != equal || (*x != *y) == equal) && d.empty()) d = "comparison of two column types is wrong";
    }
  Engine::outcome(seen);
  return d;
}

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  for (int a = 0; a < 16; ++a)
    for (int b = 0; b < 16; ++b)
      if (e.mine()) e.run(Case("column types", std::vector<std::string>{std::to_string(a), std::to_string(b), std::to_string(a == b || deep ? 16 : 6)}));
  for (int i = 0; i < 17; ++i)
    if (e.mine()) e.run(Case("nodes", std::to_string(i)));
  GenOptions o;
  for (int mode = 0; mode < 4; ++mode) {
    o.full = mode & 1;
    o.extra = mode & 2;
    sentences(e, ALL_KINDS, o, 2 + (deep && !o.full && !o.extra), [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
    size_t unit = 0;
    for (auto& t : bases(ALL_KINDS, o, deep)) {
      if (unit++ % e.shards != e.shard) continue;
      mutate(t, alphabet(), [&](const Tokens& m) { e.run(Case("changed derivations", join(m))); });
      substitute(t, [&](const Tokens& m) { e.run(Case("unusual names and values", join(m))); });
    }
  }
  changed_constructs(e, ALL_KINDS, [&](const Tokens& m) { e.run(Case("constructs", join(m))); });
  // All pairs of column types in one text.
  const Tokens types = {"INT", "BIGINT", "VARCHAR ( 1 )", "VARCHAR ( 2 )", "CHAR ( 1 )", "CHAR ( 4294967297 )", "DECIMAL", "DECIMAL ( 1 )", "DECIMAL ( 1 , 2 )", "DECIMAL ( 2 , 1 )", "DECIMAL ( 1 , 1 )", "DECIMAL ( 4294967297 , 1 )",
                        "DECIMAL ( 1 , 4294967297 )", "TIME", "TIME ( 1 )", "TIME ( 2 )", "DATETIME", "DATETIME ( 1 )", "TEXT", "DOUBLE", "FLOAT", "REAL", "LONG", "SMALLINT", "BOOLEAN", "DATE"};
  for (auto& x : types)
    for (auto& y : types) {
      if (!e.mine()) continue;
      e.run(Case("pairs of types", "CREATE TABLE t ( a " + x + " , b " + y + " )"));
      e.run(Case("pairs of types", "SELECT CAST ( a AS " + x + " ) , CAST ( b AS " + y + " )"));
    }
  trie(e, "SELECT ", alphabet(), 2 + deep, [&](const std::string& s) { e.run(Case("all tokens", s)); });
  trie(e, "SELECT a FROM ", alphabet(), 2 + deep, [&](const std::string& s) { e.run(Case("all tokens", s)); });
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["derivations"] = std::string("all derivations with up to ") + (thorough ? "3 (full profile and unusual leaves: 2)" : "2") + " non-default choices";
  b["column types"] = std::string("all pairs of data types with all lengths, precisions and scales of 16 values each") + (thorough ? "" : " (different data types: 6)");
  b["constructs"] = changed_constructs_bounds();
  b["nodes"] = "all 17 expression types and 4 table types with every combination of absent, empty, short and long names, aliases, tables and schemas";
  b["changed derivations"] = std::string("every single-token change of derivations with up to ") + (thorough ? "1" : "0") + " non-default choices";
}
