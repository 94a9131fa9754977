// Reference model: an independent lexer and recursive-descent parser of the dialect, and the model syntax tree.
// It shares no code with /repo; the implementation's results are compared with it as canonical text.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

#define REF_KEYWORDS(X)                                                                                               \
  X(ADD) X(AFTER) X(ALL) X(ALTER) X(ANALYZE) X(AND) X(ARRAY) X(AS) X(ASC) X(BEFORE) X(BEGIN) X(BETWEEN) X(BIGINT)      \
  X(BOOLEAN) X(BY) X(CALL) X(CASCADE) X(CASE) X(CAST) X(CHAR) X(COLUMN) X(COLUMNS) X(COMMIT) X(CONTROL) X(COPY)        \
  X(CREATE) X(CROSS) X(DATE) X(DATETIME) X(DAY) X(DAYS) X(DEALLOCATE) X(DECIMAL) X(DEFAULT) X(DELETE) X(DELTA) X(DESC) \
  X(DESCRIBE) X(DIRECT) X(DISTINCT) X(DOUBLE) X(DROP) X(ELSE) X(ENCODING) X(END) X(ESCAPE) X(EXCEPT) X(EXECUTE)        \
  X(EXISTS) X(EXPLAIN) X(EXTRACT) X(FALSE) X(FILE) X(FLOAT) X(FOLLOWING) X(FOR) X(FOREIGN) X(FORMAT) X(FROM) X(FULL)   \
  X(GLOBAL) X(GROUP) X(GROUPS) X(HASH) X(HAVING) X(HINT) X(HOUR) X(HOURS) X(IF) X(ILIKE) X(IMPORT) X(IN) X(INDEX)      \
  X(INNER) X(INSERT) X(INT) X(INTEGER) X(INTERSECT) X(INTERVAL) X(INTO) X(IS) X(ISNULL) X(JOIN) X(KEY) X(LEFT) X(LIKE) \
  X(LIMIT) X(LOAD) X(LOCAL) X(LOCKED) X(LONG) X(MERGE) X(MINUS) X(MINUTE) X(MINUTES) X(MONTH) X(MONTHS) X(NATURAL)     \
  X(NO) X(NOT) X(NOWAIT) X(NULL) X(NVARCHAR) X(OF) X(OFF) X(OFFSET) X(ON) X(OR) X(ORDER) X(OUTER) X(OVER)              \
  X(PARAMETERS) X(PARTITION) X(PLAN) X(PRECEDING) X(PREPARE) X(PRIMARY) X(RANGE) X(REAL) X(REFERENCES) X(RENAME)       \
  X(RESTRICT) X(RIGHT) X(ROLLBACK) X(ROWS) X(SCHEMA) X(SCHEMAS) X(SECOND) X(SECONDS) X(SELECT) X(SET) X(SHARE) X(SHOW) \
  X(SKIP) X(SMALLINT) X(SORTED) X(SPATIAL) X(TABLE) X(TABLES) X(TEMPORARY) X(TEXT) X(THEN) X(TIME) X(TIMESTAMP) X(TO)  \
  X(TOP) X(TRANSACTION) X(TRUE) X(TRUNCATE) X(UNBOUNDED) X(UNION) X(UNIQUE) X(UNLOAD) X(UPDATE) X(USING) X(VALUES)     \
  X(VARCHAR) X(VIEW) X(VIRTUAL) X(WHEN) X(WHERE) X(WITH) X(YEAR) X(YEARS)

// Token kinds. Single characters are their own kind (< 256).
enum Kind : int {
  K_EOF = 0,
  K_ERR = 300,  // text that is no token of the dialect
  K_IDENT,
  K_STRING,
  K_FLOATVAL,
  K_INTVAL,
  K_EQEQ,      // ==
  K_NE,        // != <>
  K_LE,
  K_GE,
  K_CONCAT,    // ||
  K_CURRENT_ROW,
  K_CHARACTER_VARYING,
#define X(n) K_##n,
  REF_KEYWORDS(X)
#undef X
  K_END_OF_KINDS
};

struct Tok {
  int kind = K_EOF;
  size_t beg = 0, end = 0;  // byte range in the text
  std::string str;          // identifier or string value
  int64_t ival = 0;
  double fval = 0;
};

// Splits the text into tokens; the last one is K_EOF at the end of the text.
std::vector<Tok> lex(std::string_view text);
const char* keyword_name(int kind);  // nullptr if none

struct Expr;
struct Select;
struct Window;
struct ColType {
  const char* type = "UNKNOWN";
  int64_t length = 0, precision = 0, scale = 0;
};

struct Str {  // optional string
  bool set = false;
  std::string v;
  Str() {}
  Str(std::string s) : set(true), v(std::move(s)) {}
};

struct OrderBy {
  Expr* expr = nullptr;
  bool desc = false;
  int nulls = 0;  // 0 undefined, 1 first, 2 last
};
struct Limit {
  Expr *limit = nullptr, *offset = nullptr;
};
struct Expr {
  const char* type = "";
  const char* op = nullptr;
  Str name, table, schema, alias;
  double fval = 0;
  int64_t ival = 0;
  const char* field = nullptr;  // date/time field
  ColType col;
  bool is_bool = false, distinct = false;
  Expr *e1 = nullptr, *e2 = nullptr;
  bool has_list = false;
  std::vector<Expr*> list;
  Select* select = nullptr;
  Window* window = nullptr;
};
struct Bound {
  int64_t offset = 0;
  const char* type = "";
  bool unbounded = false;
};
struct Window {
  bool has_part = false, has_order = false;
  std::vector<Expr*> part;
  std::vector<OrderBy> order;
  const char* frame = "RANGE";
  Bound start, end;
};
struct Alias {
  bool set = false;
  std::string name;
  bool has_cols = false;
  std::vector<std::string> cols;
};
struct Table {
  enum T { Name, Sel, Join, Cross } t = Name;
  Str schema, name;
  Alias alias;
  Select* select = nullptr;
  std::vector<Table*> list;
  const char* join = nullptr;
  Table *left = nullptr, *right = nullptr;
  Expr* cond = nullptr;
  bool has_using = false;
  std::vector<std::string> using_cols;
};
struct SetOp {
  const char* type = "";
  bool all = false;
  Select* nested = nullptr;
  bool has_order = false;
  std::vector<OrderBy> order;
  Limit* limit = nullptr;
};
struct Locking {
  const char* mode = "";
  const char* wait = "none";
  bool has_tables = false;
  std::vector<std::string> tables;
};
struct With {
  std::string alias;
  Select* select = nullptr;
};
struct Select {
  bool distinct = false;
  std::vector<Expr*> list;
  Table* from = nullptr;
  Expr* where = nullptr;
  bool has_group = false;
  std::vector<Expr*> group;
  Expr* having = nullptr;
  bool has_order = false;
  std::vector<OrderBy> order;
  Limit* limit = nullptr;
  bool has_setops = false;
  std::vector<SetOp> setops;
  bool has_with = false;
  std::vector<With> with;
  bool has_lock = false;
  std::vector<Locking> locks;
};
struct Refs {
  Str schema;
  std::string table;
  bool has_cols = false;
  std::vector<std::string> cols;
};
struct ColDef {
  std::string name;
  ColType type;
  bool pk = false, unique = false, null = false, not_null = false, fk = false, nullable = true;
  std::vector<Refs> refs;
};
struct TabCon {
  const char* type = "";
  std::vector<std::string> cols;
  bool has_refs = false;
  Refs refs;
};
struct Copy {
  const char* format = "auto";
  Str encoding, delimiter, null, quote;
  bool has_csv = false;
};
struct Stmt {
  enum T { SelectS, Import, Export, Insert, Update, Delete, Create, Drop, Prepare, Execute, Alter, Show, Transaction } t;
  const char* sub = "";  // variant
  bool has_hints = false;
  std::vector<Expr*> hints;
  Select* select = nullptr;
  bool flag = false;   // IF [NOT] EXISTS
  bool flag2 = false;  // ALTER ... DROP COLUMN IF EXISTS
  Str schema, name, name2, file, query;
  Expr* where = nullptr;
  bool has_cols = false;
  std::vector<std::string> cols;
  bool has_values = false;
  std::vector<Expr*> values;
  std::vector<std::pair<std::string, Expr*>> sets;
  std::vector<ColDef> coldefs;
  std::vector<TabCon> tabcons;
  bool has_defs = false;
  Copy copy;
  size_t first_tok = 0, end_tok = 0;  // tokens [first, end), without the semicolon
  bool semicolon = false;
};

struct Arena;
struct Result {
  bool valid = false;
  bool semantic = false;  // invalid although the tokens fit the grammar so far
  std::string why;        // what a message about a contradiction has to mention, separated by bars
  bool grey = false;      // involves a date whose validity the property leaves open
  size_t err_tok = 0;     // first token that does not continue the text (if !valid && !semantic)
  std::vector<Tok> toks;
  std::vector<Stmt*> stmts;
  size_t params = 0;
  std::shared_ptr<Arena> arena;
};

Result parse(std::string_view text);
// Do the tokens fit the grammar as far as they go (contradictory parts aside)?
bool continuable(std::string_view text);
// The first token that does not fit the grammar, contradictory parts aside; the number of tokens if there is none.
size_t syntax_error(std::string_view text, Result& r);
// Canonical text of a model statement.
std::string dump(const Stmt& s);
// What the printing helper shows for a model statement.
std::string print(const Stmt& s);
std::string quote(std::string_view s);

}  // namespace ref
