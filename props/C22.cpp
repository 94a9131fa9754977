// Trees that are built by hand behave like parsed ones. Built with AddressSanitizer and UndefinedBehaviorSanitizer.
#include <algorithm>
#include <cstring>
#include <iostream>
#include <functional>
#include <limits>
#include <memory>
#include <sstream>

#include "aspects.h"
#include "balance.h"
#include "constants.h"
#include "explore.h"
#include "rebuild.h"
#include "util/sqlhelper.h"

const char* const kProperty = "C22";

using namespace hsql;

namespace {

std::string print(const SQLStatement* s) {
  std::stringbuf b;
  std::streambuf* out = std::cout.rdbuf(&b);
  printStatementInfo(s);
  std::cout.rdbuf(out);
  return b.str();
}

std::string differ(const char* what, const std::string& a, const std::string& b) { return a == b ? "" : std::string(what) + "\nexpected " + a + "\ngot " + b; }

// Every statement of the text, built again by hand.
std::string rebuilt(const std::string& text) {
  auto r = std::make_unique<SQLParserResult>();
  SQLParser::parse(text, r.get());
  if (!r->isValid()) {
    Engine::outcome("invalid");
    return "";
  }
  std::string d;
  long n = blocks::balance([&] {
    SQLParserResult own;
    bool first = true;
    for (auto* s : r->getStatements()) {
      Rebuild b;
      SQLStatement* c = b.stmt(s);
      if (d.empty()) d = differ("the tree built by hand differs from the parsed one", impl::dump(s, true), impl::dump(c, true));
      if (d.empty()) d = differ("the tree built by hand is printed differently", print(s), print(c));
      if (d.empty()) d = differ("printing changes the tree", impl::dump(s, true), impl::dump(c, true));
      if (first) {
        SQLParserResult one(c);
        if (d.empty() && (one.size() != 1 || one.getStatement(0) != c || one.getMutableStatement(0) != c)) d = "a result does not hold the statement it was constructed with";
        own = std::move(one);
      } else {
        own.addStatement(c);
      }
      first = false;
    }
    if (d.empty() && own.size() != r->size()) d = "a result does not hold the statements that were added to it";
    if (d.empty())
      for (size_t i = 0; i < r->size(); ++i) d += differ("a statement is changed when it is added to a result", impl::dump(r->getStatement(i), true), impl::dump(own.getStatement(i), true));
  });
  if (d.empty() && n) d = blocks::leak(n, "building and destroying the statements by hand");
  // The parsed tree goes first.
  if (d.empty()) {
    std::vector<SQLStatement*> copies;
    std::string before, after;
    for (auto* s : r->getStatements()) {
      Rebuild b;
      copies.push_back(b.stmt(s));
      before += impl::dump(s, true);
    }
    r.reset();
    for (auto* c : copies) {
      after += impl::dump(c, true);
      delete c;
    }
    Engine::outcome(before);
    d = differ("the tree built by hand changes with the parsed one", before, after);
  }
  return d;
}

// Every part of the statements is left out once, or left empty.
std::string left_out(const std::string& text) {
  SQLParserResult r;
  SQLParser::parse(text, &r);
  for (auto* s : r.getStatements()) {
    Rebuild whole;
    delete whole.stmt(s);
    for (size_t part = 1; part <= whole.parts; ++part)
      for (bool empty : {false, true}) {
        std::string seen;
        const long n = blocks::balance([&] {
          Rebuild b;
          b.leave_out = part;
          b.empty = empty;
          SQLStatement* c = b.stmt(s);
          seen = impl::dump(c, true);
          delete c;
        });
        if (n) return blocks::leak(n, "building and destroying the statement without its part " + std::to_string(part)) + "\n" + seen;
        Engine::outcome(seen);
      }
  }
  return "";
}

// Every sub-tree is taken out, and lives on when the tree is destroyed.
template <class T>
std::string take(SQLStatement* tree, T** slot, const std::string& expected, std::string (*show)(T*)) {
  T* kept = *slot;
  *slot = nullptr;
  delete tree;
  std::string d = differ("a sub-tree that was taken out changes when the tree is destroyed", expected, show(kept));
  delete kept;
  return d;
}

std::string show_expr(Expr* e) { return impl::dump(e); }
std::string show_select(SelectStatement* s) { return impl::dump(static_cast<SQLStatement*>(s), true); }
std::string show_table(TableRef* t) {
  // Tables are shown as part of a statement.
  SelectStatement s;
  s.fromTable = t;
  std::string o = impl::dump(&s, true);
  s.fromTable = nullptr;
  return o;
}

std::string taken_out(const std::string& text) {
  SQLParserResult r;
  SQLParser::parse(text, &r);
  for (auto* s : r.getStatements()) {
    size_t ne, ns, nt;
    {
      Rebuild b;
      delete b.stmt(s);
      ne = b.exprs.size();
      ns = b.selects.size();
      nt = b.tables.size();
    }
    for (size_t i = 0; i < ne + ns + nt; ++i) {
      std::string d;
      const long n = blocks::balance([&] {
        Rebuild b;
        SQLStatement* c = b.stmt(s);
        if (i < ne) {
          if (*b.exprs[i]) d = take<Expr>(c, b.exprs[i], show_expr(*b.exprs[i]), show_expr);
          else delete c;
        } else if (i < ne + ns) {
          SelectStatement** p = b.selects[i - ne];
          if (*p) d = take<SelectStatement>(c, p, show_select(*p), show_select);
          else delete c;
        } else {
          TableRef** p = b.tables[i - ne - ns];
          if (*p) d = take<TableRef>(c, p, show_table(*p), show_table);
          else delete c;
        }
      });
      if (!d.empty()) return d;
      if (n) return blocks::leak(n, "taking out the sub-tree " + std::to_string(i));
    }
  }
  return "";
}

}  // namespace

// ---- constructors and factories, one by one ----

namespace {

// All fields of an expression: the ones that are given, and the others at their defaults.
struct Fields {
  ExprType type;
  Expr* expr = nullptr;
  Expr* expr2 = nullptr;
  std::vector<Expr*>* list = nullptr;
  SelectStatement* select = nullptr;
  const char* name = nullptr;
  const char* table = nullptr;
  const char* schema = nullptr;
  double fval = 0;
  int64_t ival = 0;
  DatetimeField field = kDatetimeNone;
  ColumnType column{DataType::UNKNOWN, 0, 0, 0};
  bool is_bool = false;
  OperatorType op = kOpNone;
  bool distinct = false;
  WindowDescription* window = nullptr;
  explicit Fields(ExprType t) : type(t) {}
};

// Pointers are compared, not what they point to: the factory keeps what it is given. Deletes the expression.
std::string same(const char* what, Expr* e, const Fields& f) {
  std::string d;
  auto field = [&](const char* n, bool ok) {
    if (!ok) d += std::string(d.empty() ? "" : ", ") + n;
  };
  field("type", e->type == f.type && e->isType(f.type));
  field("expr", e->expr == f.expr);
  field("expr2", e->expr2 == f.expr2);
  field("exprList", e->exprList == f.list);
  field("select", e->select == f.select);
  field("name", e->name == f.name);
  field("table", e->table == f.table);
  field("schema", e->schema == f.schema);
  field("alias", e->alias == nullptr);
  field("fval", memcmp(&e->fval, &f.fval, sizeof(double)) == 0);
  field("ival", e->ival == f.ival);
  field("ival2", e->ival2 == 0);
  field("datetimeField", e->datetimeField == f.field);
  field("columnType", e->columnType.data_type == f.column.data_type && e->columnType.length == f.column.length && e->columnType.precision == f.column.precision && e->columnType.scale == f.column.scale);
  field("isBoolLiteral", e->isBoolLiteral == f.is_bool);
  field("opType", e->opType == f.op);
  field("distinct", e->distinct == f.distinct);
  field("windowDescription", e->windowDescription == f.window);
  Engine::outcome(impl::dump(e));
  delete e;
  return d.empty() ? "" : std::string(what) + " sets wrong fields: " + d;
}

char* dup(const std::string& s) { return s == "-" ? nullptr : strdup(s.c_str()); }
SelectStatement* query(char c);
std::vector<Expr*>* leaves(const std::string& s);
// An expression of every kind.
Expr* leaf(char c) {
  auto n = [](const char* s) { return Expr::makeColumnRef(strdup(s)); };
  Expr* e = nullptr;
  switch (c) {
    case '-': return nullptr;
    case 's': return Expr::makeStar();
    case 'S': return Expr::makeStar(strdup("t"));
    case 'n': return n("n");
    case 'o': return Expr::makeOpUnary(kOpNot, Expr::makeLiteral(int64_t(1)));
    case 'm': return Expr::makeOpUnary(kOpUnaryMinus, n("n"));
    case 'u': return Expr::makeOpUnary(kOpIsNull, n("n"));
    case 'd': return Expr::makeFunctionRef(strdup("f"), leaves("n"), true, nullptr);
    case 'f': return Expr::makeFunctionRef(strdup("f"), strdup("s"), leaves(""), false, nullptr);
    case 'w': return Expr::makeFunctionRef(strdup("f"), leaves("n"), false, new WindowDescription(leaves("n"), nullptr, nullptr));
    case 'b': return Expr::makeLiteral(true);
    case 'F': return Expr::makeLiteral(false);
    case 'i': return Expr::makeLiteral(int64_t(-7));
    case '0': return Expr::makeLiteral(int64_t(0));
    case 'x': return Expr::makeLiteral(1.5);
    case 'l': return Expr::makeLiteral(strdup("text"));
    case 'z': return Expr::makeNullLiteral();
    case 'D': return Expr::makeDateLiteral(strdup("2020-01-31"));
    case 'I': return Expr::makeIntervalLiteral(3, kDatetimeMonth);
    case 'p': return Expr::makeParameter(2);
    case 't': return Expr::makeColumnRef(strdup("t"), strdup("n"));
    case 'a': e = n("n"); e->alias = strdup("x"); return e;
    case 'A': return Expr::makeArray(leaves("ni"));
    case 'J': return Expr::makeArrayIndex(n("n"), 4);
    case 'e': return Expr::makeExtract(kDatetimeYear, n("n"));
    case 'c': return Expr::makeCast(n("n"), ColumnType(DataType::DECIMAL, 0, 5, 2));
    case 'q': return Expr::makeSelect(query('l'));
    case 'E': return Expr::makeExists(query('e'));
    case 'N': return Expr::makeInOperator(n("n"), leaves("ii"));
    case 'B': return Expr::makeBetween(n("n"), Expr::makeLiteral(int64_t(1)), Expr::makeLiteral(int64_t(2)));
    case 'C': return Expr::makeCase(n("n"), Expr::makeCaseList(Expr::makeCaseListElement(n("v"), n("w"))), n("x"));
    case '&': return Expr::makeOpBinary(n("n"), kOpAnd, n("m"));
    case 'h': e = new Expr(kExprHint); e->name = strdup("h"); e->exprList = leaves("i"); return e;
  }
  return Expr::make(kExprStar);
}
// What the operands of a factory look like before and after.
struct Kept {
  std::vector<Expr*> of;
  std::vector<std::string> were;
  explicit Kept(std::initializer_list<Expr*> l) : of(l) {
    for (auto* e : of) were.push_back(e ? impl::dump(e) : "");
  }
  std::string changed() const {
    for (size_t i = 0; i < of.size(); ++i)
      if (of[i] && impl::dump(of[i]) != were[i]) return "a factory changes its operand\nexpected " + were[i] + "\ngot " + impl::dump(of[i]);
    return "";
  }
};
std::vector<Expr*>* leaves(const std::string& s) {
  if (s == "-") return nullptr;
  auto* v = new std::vector<Expr*>();
  for (char c : s) v->push_back(leaf(c));
  return v;
}
SelectStatement* query(char c) {
  if (c == '-') return nullptr;
  auto* s = new SelectStatement();
  if (c == 'l') s->selectList = leaves("sn");
  return s;
}
// What a list holds, by address.
template <class T>
std::vector<T*> held(const std::vector<T*>* v) { return v ? *v : std::vector<T*>(); }

const OperatorType kOps[] = {kOpNone, kOpBetween, kOpCase, kOpCaseListElement, kOpPlus, kOpMinus, kOpAsterisk, kOpSlash, kOpPercentage, kOpCaret, kOpEquals, kOpNotEquals, kOpLess, kOpLessEq, kOpGreater, kOpGreaterEq, kOpLike, kOpNotLike, kOpILike, kOpAnd, kOpOr, kOpIn, kOpConcat, kOpNot, kOpUnaryMinus, kOpIsNull, kOpExists};
const DatetimeField kFields[] = {kDatetimeNone, kDatetimeSecond, kDatetimeMinute, kDatetimeHour, kDatetimeDay, kDatetimeMonth, kDatetimeYear};
const ExprType kTypes[] = {kExprLiteralFloat, kExprLiteralString, kExprLiteralInt, kExprLiteralNull, kExprLiteralDate, kExprLiteralInterval, kExprStar, kExprParameter, kExprColumnRef, kExprFunctionRef, kExprOperator, kExprSelect, kExprHint, kExprArray, kExprArrayIndex, kExprExtract, kExprCast};
const int64_t kInts[] = {0, 1, -1, 2, 255, 256, 65536, 2147483647, 2147483648, -2147483648LL, 4294967296LL, 9007199254740993LL, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()};
const double kFloats[] = {0.0, -0.0, 1.0, 0.1, -1.5, 1e300, 5e-324, 1.7976931348623157e308, 9007199254740993.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
const char kLeaves[] = {'-', 's', 'n', 'o'};
const std::string kOperands = "-snoSmudfwbFi0xlzDIptaAJecqENBC&h";
const char* const kLists[] = {"-", "", "s", "n", "sn", "nso", "oooo", "d", "dn", "bp", "a", "qE", "nn", "hhh", "NBC&", "snoSmudfwbFi0xlzDIptaAJecqENBC&h"};
const char* const kNames[] = {"-", "", "a", "B c", "'", "a name that is much too long for any small buffer in a string"};
const char kQueries[] = {'-', 'e', 'l'};

std::string factory(const std::string& name) {
  std::string d;
  auto add = [&](const std::string& x) {
    if (d.empty()) d = x;
  };
  auto run = [&](const std::string& what, const std::function<void()>& f) {
    if (!d.empty()) return;
    const long n = blocks::balance(f);
    if (n) add(blocks::leak(n, what));
  };
  if (name == "make") {
    for (auto t : kTypes)
      run(name, [&] {
        add(same("Expr::make", Expr::make(t), Fields(t)));
        add(same("Expr", new Expr(t), Fields(t)));
      });
  } else if (name == "makeOpUnary") {
    for (auto op : kOps)
      for (char c : kOperands)
        run(name, [&] {
          Fields f(kExprOperator);
          f.op = op;
          f.expr = leaf(c);
          Kept k({f.expr});
          Expr* e = Expr::makeOpUnary(op, f.expr);
          add(k.changed());
          add(same("makeOpUnary", e, f));
        });
  } else if (name == "makeOpBinary") {
    for (auto op : kOps)
      for (char c : kOperands)
        for (char c2 : kOperands)
          run(name, [&] {
            Fields f(kExprOperator);
            f.op = op;
            f.expr = leaf(c);
            f.expr2 = leaf(c2);
            Kept k({f.expr, f.expr2});
            Expr* e = Expr::makeOpBinary(f.expr, op, f.expr2);
            add(k.changed());
            add(same("makeOpBinary", e, f));
          });
  } else if (name == "makeBetween") {
    for (char x : kOperands)
      for (char y : kOperands)
        for (char z : kOperands)
          run(name, [&] {
            Fields f(kExprOperator);
            f.op = kOpBetween;
            f.expr = leaf(x);
            Expr *a = leaf(y), *b = leaf(z);
            Kept k({f.expr, a, b});
            Expr* e = Expr::makeBetween(f.expr, a, b);
            add(k.changed());
            f.list = e->exprList;
            if (held(e->exprList) != std::vector<Expr*>{a, b}) add("makeBetween does not keep its bounds in order");
            add(same("makeBetween", e, f));
          });
  } else if (name == "makeCase") {
    for (char x : kOperands)
      for (char z : kOperands)
        for (size_t n = 1; n <= 5; ++n)
          run(name, [&] {
            std::vector<Expr*> elements;
            Expr* l = nullptr;
            for (size_t i = 0; i < n; ++i) {
              Fields g(kExprOperator);
              Expr *w = leaf(kOperands[(i + size_t(x)) % kOperands.size()]), *t = leaf(kOperands[(i + 1 + size_t(z)) % kOperands.size()]);
              Kept k({w, t});
              Expr* y = Expr::makeCaseListElement(w, t);
              add(k.changed());
              if (y->type != kExprOperator || y->opType != kOpCaseListElement || y->expr != w || y->expr2 != t || y->exprList || y->select || y->name) add("makeCaseListElement sets wrong fields");
              elements.push_back(y);
              Expr* m = l ? Expr::caseListAppend(l, y) : Expr::makeCaseList(y);
              if (l && m != l) add("caseListAppend returns another list");
              l = m;
              if (held(l->exprList) != elements) add("a list of cases does not hold them in order");
            }
            Fields f(kExprOperator);
            f.op = kOpCase;
            f.expr = leaf(x);
            f.expr2 = leaf(z);
            Kept k({f.expr, f.expr2});
            Expr* e = Expr::makeCase(f.expr, l, f.expr2);
            add(k.changed());
            f.list = e->exprList;
            if (held(e->exprList) != elements) add("makeCase does not keep the cases in order");
            add(same("makeCase", e, f));
          });
    // A list of cases that is not used.
    run(name, [] { delete Expr::caseListAppend(Expr::makeCaseList(Expr::makeCaseListElement(leaf('n'), leaf('o'))), Expr::makeCaseListElement(nullptr, leaf('o'))); });
  } else if (name == "makeLiteral") {
    for (int64_t i : kInts)
      run(name, [&] {
        Fields f(kExprLiteralInt);
        f.ival = i;
        add(same("makeLiteral(int64_t)", Expr::makeLiteral(i), f));
      });
    for (double x : kFloats)
      run(name, [&] {
        Fields f(kExprLiteralFloat);
        f.fval = x;
        add(same("makeLiteral(double)", Expr::makeLiteral(x), f));
      });
    for (auto* s : kNames)
      run(name, [&] {
        Fields f(kExprLiteralString);
        char* p = dup(s);
        f.name = p;
        add(same("makeLiteral(char*)", Expr::makeLiteral(p), f));
        p = dup(s);
        Fields g(kExprLiteralDate);
        g.name = p;
        add(same("makeDateLiteral", Expr::makeDateLiteral(p), g));
      });
    for (bool b : {false, true})
      run(name, [&] {
        Fields f(kExprLiteralInt);
        f.ival = b;
        f.is_bool = true;
        add(same("makeLiteral(bool)", Expr::makeLiteral(b), f));
      });
    run(name, [&] { add(same("makeNullLiteral", Expr::makeNullLiteral(), Fields(kExprLiteralNull))); });
    for (int64_t i : kInts)
      for (auto u : kFields)
        run(name, [&] {
          Fields f(kExprLiteralInterval);
          f.ival = i;
          f.field = u;
          add(same("makeIntervalLiteral", Expr::makeIntervalLiteral(i, u), f));
        });
  } else if (name == "makeColumnRef") {
    for (auto* s : kNames) {
      run(name, [&] {
        Fields f(kExprColumnRef);
        char* p = dup(s);
        f.name = p;
        add(same("makeColumnRef", Expr::makeColumnRef(p), f));
        p = dup(s);
        Fields g(kExprStar);
        g.table = p;
        add(same("makeStar(table)", Expr::makeStar(p), g));
      });
      for (auto* t : kNames)
        run(name, [&] {
          Fields f(kExprColumnRef);
          char *p = dup(s), *q = dup(t);
          f.name = p;
          f.table = q;
          add(same("makeColumnRef(table, name)", Expr::makeColumnRef(q, p), f));
        });
    }
    run(name, [&] { add(same("makeStar", Expr::makeStar(), Fields(kExprStar))); });
  } else if (name == "makeFunctionRef") {
    for (auto* s : kNames)
      for (auto* t : kNames)
        for (auto* l : kLists)
          for (bool distinct : {false, true})
            for (int w = 0; w < 3; ++w)
              run(name, [&] {
                auto window = [&]() -> WindowDescription* {
                  if (w == 0) return nullptr;
                  if (w == 1) return new WindowDescription(nullptr, nullptr, nullptr);
                  auto* o = new std::vector<OrderDescription*>{new OrderDescription(kOrderDesc, leaf('n'), NullOrdering::Last)};
                  return new WindowDescription(leaves("ns"), o, new FrameDescription(kGroups, new FrameBound(3, kPreceding, false), new FrameBound(0, kCurrentRow, false)));
                };
                for (int five = 0; five < 2; ++five) {
                  Fields f(kExprFunctionRef);
                  char *p = dup(s), *q = five ? dup(t) : nullptr;
                  f.name = p;
                  f.schema = q;
                  f.list = leaves(l);
                  f.distinct = distinct;
                  f.window = window();
                  const auto before = held(f.list);
                  Expr* e = five ? Expr::makeFunctionRef(p, q, f.list, distinct, f.window) : Expr::makeFunctionRef(p, f.list, distinct, f.window);
                  if (held(e->exprList) != before) add("makeFunctionRef changes the arguments");
                  add(same("makeFunctionRef", e, f));
                }
              });
  } else if (name == "makeArray") {
    for (auto* l : kLists)
      run(name, [&] {
        Fields f(kExprArray);
        f.list = leaves(l);
        add(same("makeArray", Expr::makeArray(f.list), f));
      });
    for (char c : kOperands)
      for (int64_t i : kInts)
        run(name, [&] {
          Fields f(kExprArrayIndex);
          f.expr = leaf(c);
          f.ival = i;
          add(same("makeArrayIndex", Expr::makeArrayIndex(f.expr, i), f));
        });
  } else if (name == "makeParameter") {
    for (int64_t i : kInts)
      if (i == int(i))
        run(name, [&] {
          Fields f(kExprParameter);
          f.ival = i;
          add(same("makeParameter", Expr::makeParameter(int(i)), f));
        });
  } else if (name == "makeSelect") {
    for (char q : kQueries)
      run(name, [&] {
        Fields f(kExprSelect);
        f.select = query(q);
        add(same("makeSelect", Expr::makeSelect(f.select), f));
        Fields g(kExprOperator);
        g.op = kOpExists;
        g.select = query(q);
        add(same("makeExists", Expr::makeExists(g.select), g));
      });
  } else if (name == "makeInOperator") {
    for (char c : kOperands) {
      for (char q : kQueries)
        run(name, [&] {
          Fields f(kExprOperator);
          f.op = kOpIn;
          f.expr = leaf(c);
          f.select = query(q);
          add(same("makeInOperator(select)", Expr::makeInOperator(f.expr, f.select), f));
        });
      for (auto* l : kLists)
        run(name, [&] {
          Fields f(kExprOperator);
          f.op = kOpIn;
          f.expr = leaf(c);
          f.list = leaves(l);
          add(same("makeInOperator(list)", Expr::makeInOperator(f.expr, f.list), f));
        });
    }
  } else if (name == "makeExtract") {
    for (char c : kOperands)
      for (auto u : kFields)
        run(name, [&] {
          Fields f(kExprExtract);
          f.expr = leaf(c);
          f.field = u;
          add(same("makeExtract", Expr::makeExtract(u, f.expr), f));
        });
  } else if (name == "makeCast") {
    for (char c : kOperands)
      for (int t = 0; t <= int(DataType::VARCHAR); ++t)
        for (int64_t a : kInts)
          for (int k = 0; k < 3; ++k)
            run(name, [&] {
              Fields f(kExprCast);
              f.expr = leaf(c);
              f.column = k == 0 ? ColumnType(DataType(t), a) : k == 1 ? ColumnType(DataType(t), 0, a) : ColumnType(DataType(t), 7, 8, a);
              if (f.column.data_type != DataType(t) || f.column.length != (k == 0 ? a : k == 1 ? 0 : 7) || f.column.precision != (k == 0 ? 0 : k == 1 ? a : 8) || f.column.scale != (k == 2 ? a : 0)) add("ColumnType sets wrong fields");
              add(same("makeCast", Expr::makeCast(f.expr, f.column), f));
            });
  } else {
    return "?";
  }
  return d;
}

// The memory of a new object is not zero before its constructor runs.
template <class T, class... A>
std::string fresh(const std::function<std::string(T&)>& wrong, A... args) {
  for (int fill : {0x00, 0xff, 0x5a}) {
    void* p = malloc(sizeof(T));
    memset(p, fill, sizeof(T));
    T* t = new (p) T(args...);
    std::string d = wrong(*t);
    t->~T();
    free(p);
    if (!d.empty()) return d;
  }
  return "";
}

std::string statement(const SQLStatement& s, StatementType type) {
  if (s.type() != type || !s.isType(type) || !s.is(type)) return "a new statement has a wrong type";
  for (int t = kStmtError; t <= kStmtTransaction; ++t)
    if (t != type && (s.isType(StatementType(t)) || s.is(StatementType(t)))) return "a new statement has two types";
  if (s.hints) return "a new statement has hints";
  if (s.stringLength) return "a new statement has a length";
  Engine::outcome(impl::dump(&s, true));
  return "";
}

std::string defaults(const std::string& name) {
  if (name == "select") return fresh<SelectStatement>([](SelectStatement& s) { return statement(s, kStmtSelect) + (s.fromTable || s.selectDistinct || s.selectList || s.whereClause || s.groupBy || s.setOperations || s.order || s.withDescriptions || s.limit || s.lockings ? "a new SELECT is not empty" : ""); });
  if (name == "insert") {
    std::string d;
    for (auto t : {kInsertValues, kInsertSelect})
      d += fresh<InsertStatement>([t](InsertStatement& s) { return statement(s, kStmtInsert) + (s.type != t || s.schema || s.tableName || s.columns || s.values || s.select ? "a new INSERT is not empty" : ""); }, t);
    return d;
  }
  if (name == "update") return fresh<UpdateStatement>([](UpdateStatement& s) { return statement(s, kStmtUpdate) + (s.table || s.updates || s.where ? "a new UPDATE is not empty" : ""); });
  if (name == "delete") return fresh<DeleteStatement>([](DeleteStatement& s) { return statement(s, kStmtDelete) + (s.schema || s.tableName || s.expr ? "a new DELETE is not empty" : ""); });
  if (name == "create") {
    std::string d;
    for (auto t : {kCreateTable, kCreateTableFromTbl, kCreateView, kCreateIndex})
      d += fresh<CreateStatement>([t](CreateStatement& s) { return statement(s, kStmtCreate) + (s.type != t || s.ifNotExists || s.filePath || s.schema || s.tableName || s.indexName || s.indexColumns || s.columns || s.tableConstraints || s.viewColumns || s.select ? "a new CREATE is not empty" : ""); }, t);
    return d;
  }
  if (name == "drop") {
    std::string d;
    for (auto t : {kDropTable, kDropSchema, kDropIndex, kDropView, kDropPreparedStatement})
      d += fresh<DropStatement>([t](DropStatement& s) { return statement(s, kStmtDrop) + (s.type != t || s.ifExists || s.schema || s.name || s.indexName ? "a new DROP is not empty" : ""); }, t);
    return d;
  }
  if (name == "prepare") return fresh<PrepareStatement>([](PrepareStatement& s) { return statement(s, kStmtPrepare) + (s.name || s.query ? "a new PREPARE is not empty" : ""); });
  if (name == "execute") return fresh<ExecuteStatement>([](ExecuteStatement& s) { return statement(s, kStmtExecute) + (s.name || s.parameters ? "a new EXECUTE is not empty" : ""); });
  if (name == "import" || name == "export") {
    std::string d;
    for (auto t : {kImportCSV, kImportTbl, kImportBinary, kImportAuto})
      d += name == "import" ? fresh<ImportStatement>([t](ImportStatement& s) { return statement(s, kStmtImport) + (s.type != t || s.filePath || s.schema || s.tableName || s.whereClause || s.encoding || s.csv_options ? "a new IMPORT is not empty" : ""); }, t)
                            : fresh<ExportStatement>([t](ExportStatement& s) { return statement(s, kStmtExport) + (s.type != t || s.filePath || s.schema || s.tableName || s.select || s.encoding || s.csv_options ? "a new export is not empty" : ""); }, t);
    return d;
  }
  if (name == "show") {
    std::string d;
    for (auto t : {kShowColumns, kShowTables})
      d += fresh<ShowStatement>([t](ShowStatement& s) { return statement(s, kStmtShow) + (s.type != t || s.schema || s.name ? "a new SHOW is not empty" : ""); }, t);
    return d;
  }
  if (name == "transaction") {
    std::string d;
    for (auto t : {kBeginTransaction, kCommitTransaction, kRollbackTransaction})
      d += fresh<TransactionStatement>([t](TransactionStatement& s) { return statement(s, kStmtTransaction) + (s.command != t ? "a new transaction statement has a wrong command" : ""); }, t);
    return d;
  }
  if (name == "alter")
    return fresh<AlterStatement>([](AlterStatement& s) { return std::string(s.type() != kStmtAlter || s.schema || s.ifTableExists || s.name || s.action || s.hints || s.stringLength ? "a new ALTER is not empty" : ""); }, (char*)nullptr, (AlterAction*)nullptr) +
           fresh<DropColumnAction>([](DropColumnAction& a) { return std::string(a.type != ActionType::DropColumn || a.columnName || a.ifExists ? "a new DROP COLUMN is not empty" : ""); }, (char*)nullptr);
  if (name == "parts") {
    std::string d;
    for (auto t : {kTableName, kTableSelect, kTableJoin, kTableCrossProduct})
      d += fresh<TableRef>([t](TableRef& x) { return std::string(x.type != t || x.schema || x.name || x.alias || x.select || x.list || x.join || x.hasSchema() || x.getName() ? "a new TableRef is not empty" : ""); }, t);
    d += fresh<JoinDefinition>([](JoinDefinition& x) { return std::string(x.left || x.right || x.condition || x.namedColumns || x.type != kJoinInner ? "a new JoinDefinition is not an empty inner join" : ""); });
    d += fresh<SetOperation>([](SetOperation& x) { return std::string(x.setType != kSetUnion || x.isAll || x.nestedSelectStatement || x.resultOrder || x.resultLimit ? "a new SetOperation is not an empty UNION" : ""); });
    d += fresh<GroupByDescription>([](GroupByDescription& x) { return std::string(x.columns || x.having ? "a new GroupByDescription is not empty" : ""); });
    d += fresh<Alias>([](Alias& x) { return std::string(x.name || x.columns ? "a new Alias is not empty" : ""); }, (char*)nullptr);
    d += fresh<CsvOptions>([](CsvOptions& x) { return std::string(x.delimiter || x.null || x.quote ? "a new CsvOptions is not empty" : ""); });
    d += fresh<ImportExportOptions>([](ImportExportOptions& x) { return std::string(x.format != kImportAuto || x.encoding || x.csv_options ? "a new ImportExportOptions is not empty" : ""); });
    d += fresh<ColumnConstraints>([](ColumnConstraints& x) { return std::string(!x.constraints || !x.constraints->empty() || !x.references || !x.references->empty() ? "a new ColumnConstraints is not empty" : ""); });
    for (auto type : {kOrderAsc, kOrderDesc})
      for (auto nulls : {NullOrdering::Undefined, NullOrdering::First, NullOrdering::Last})
        d += fresh<OrderDescription>([=](OrderDescription& x) { return std::string(x.type != type || x.expr || x.null_ordering != nulls ? "a new OrderDescription has wrong fields" : ""); }, type, (Expr*)nullptr, nulls);
    for (auto type : {kFollowing, kPreceding, kCurrentRow})
      for (int64_t i : kInts)
        for (bool u : {false, true}) d += fresh<FrameBound>([=](FrameBound& x) { return std::string(x.type != type || x.offset != i || x.unbounded != u ? "a new FrameBound has wrong fields" : ""); }, i, type, u);
    for (auto type : {kRange, kRows, kGroups})
      d += fresh<FrameDescription>([=](FrameDescription& x) { return std::string(x.type != type || x.start || x.end ? "a new FrameDescription has wrong fields" : ""); }, type, (FrameBound*)nullptr, (FrameBound*)nullptr);
    Expr *a = leaf('n'), *b = leaf('s');
    d += differ("LimitDescription", "ok", [&] {
      LimitDescription l(a, b);
      return std::string(l.limit == a && l.offset == b ? "ok" : "wrong fields");
    }());
    for (auto t : kTypes)
      d += fresh<Expr>([t](Expr& x) { return std::string(x.type != t || x.expr || x.expr2 || x.exprList || x.select || x.name || x.table || x.schema || x.alias || x.fval != 0 || x.ival || x.ival2 || x.datetimeField != kDatetimeNone || x.columnType.data_type != DataType::UNKNOWN || x.columnType.length || x.columnType.precision || x.columnType.scale || x.isBoolLiteral || x.opType != kOpNone || x.distinct || x.windowDescription ? "a new Expr is not empty" : ""); }, t);
    return d;
  }
  return "?";
}

// Operations on the options of COPY: each option is taken once.
std::string csv_options(const std::string& ops) {
  std::string d;
  const long n = blocks::balance([&] {
    CsvOptions c;
    const char* held[3] = {nullptr, nullptr, nullptr};
    size_t i = 0;
    for (char op : ops) {
      const int k = op - '0';
      const CsvOptionType type = k == 0 ? CsvOptionType::Delimiter : k == 1 ? CsvOptionType::Null : CsvOptionType::Quote;
      std::pair<CsvOptionType, char*> o(type, strdup(std::to_string(i++).c_str()));
      char* given = o.second;
      const bool taken = c.accept_csv_option(&o);
      if (taken != (held[k] == nullptr)) d = taken ? "an option is accepted twice" : "an option is not accepted";
      if (!taken) free(given);
      if (taken) held[k] = given;
      if (c.delimiter != held[0] || c.null != held[1] || c.quote != held[2]) d = "the options do not hold what was accepted";
      if (!d.empty()) {
        c.delimiter = c.null = c.quote = nullptr;
        return;
      }
    }
    Engine::outcome(ops);
  });
  if (d.empty() && n) d = blocks::leak(n, "accepting options");
  return d;
}

// Whether a column is nullable.
std::string nullable(int mask) {
  const ConstraintType all[] = {ConstraintType::ForeignKey, ConstraintType::NotNull, ConstraintType::Null, ConstraintType::PrimaryKey, ConstraintType::Unique};
  auto* set = new std::unordered_set<ConstraintType>();
  for (int i = 0; i < 5; ++i)
    if (mask >> i & 1) set->insert(all[i]);
  ColumnDefinition c(strdup("a"), ColumnType(DataType::INT), set, nullptr);
  if (!c.nullable) return "a new column is not nullable";
  const bool needs = (mask >> 1 & 1) || (mask >> 3 & 1), conflict = needs && (mask >> 2 & 1);
  for (int again = 0; again < 2; ++again) {
    if (c.trySetNullableExplicit() == conflict) return "a conflict of NULL and NOT NULL or PRIMARY KEY is not noticed, or one is seen where none is";
    if (!conflict && c.nullable == needs) return "a column is nullable exactly unless it is NOT NULL or a PRIMARY KEY";
  }
  return c.column_constraints != set ? "the constraints are exchanged" : "";
}

// Columns and constraints go to their lists, in order, whatever they contain.
std::string elements(const std::string& ops) {
  std::string d;
  const long n = blocks::balance([&] {
    CreateStatement s(kCreateTable);
    std::vector<TableElement*> v;
    std::vector<ColumnDefinition*> columns;
    std::vector<TableConstraint*> constraints;
    auto column = [&](const char* name, ColumnType type, std::unordered_set<ConstraintType>* set, std::vector<ReferencesSpecification*>* refs) {
      char* p = name ? strdup(name) : nullptr;
      columns.push_back(new ColumnDefinition(p, type, set, refs));
      if (columns.back()->name != p || columns.back()->type != type || columns.back()->column_constraints != set || columns.back()->references != refs || !columns.back()->nullable) d = "a new column has wrong fields";
      v.push_back(columns.back());
    };
    auto constraint = [&](ConstraintType type, std::vector<char*>* names) {
      auto* r = new ReferencesSpecification(nullptr, strdup("t"), nullptr);
      auto* f = type == ConstraintType::ForeignKey ? new ForeignKeyConstraint(names, r) : nullptr;
      if (!f) delete r;
      else if (f->references != r) d = "a new foreign key has wrong fields";
      constraints.push_back(f ? f : new TableConstraint(type, names));
      if (constraints.back()->type != type || constraints.back()->columnNames != names) d = "a new constraint has wrong fields";
      v.push_back(constraints.back());
    };
    using T = ConstraintType;
    for (char op : ops) switch (op) {
        case 'c': column("c", ColumnType(DataType::INT), nullptr, nullptr); break;
        case 'd': column("d", ColumnType(DataType::VARCHAR, 9), new std::unordered_set<T>{T::PrimaryKey, T::Unique}, new std::vector<ReferencesSpecification*>{new ReferencesSpecification(strdup("s"), strdup("t"), new std::vector<char*>{strdup("x")})}); break;
        case '-': column(nullptr, ColumnType(DataType::UNKNOWN), nullptr, nullptr); break;
        case 'e': column("", ColumnType(DataType::DECIMAL, 0, 3, 2), new std::unordered_set<T>(), new std::vector<ReferencesSpecification*>()); break;
        case 'p': constraint(T::PrimaryKey, new std::vector<char*>{strdup("x")}); break;
        case 'P': constraint(T::PrimaryKey, new std::vector<char*>()); break;
        case 'u': constraint(T::Unique, new std::vector<char*>{strdup("x"), strdup("y")}); break;
        case 'f': constraint(T::ForeignKey, new std::vector<char*>{strdup("c")}); break;
        case 'n': constraint(T::NotNull, new std::vector<char*>{strdup("c")}); break;
      }
    const auto given = v;
    s.setColumnDefsAndConstraints(&v);
    if (!s.columns || *s.columns != columns || !s.tableConstraints || *s.tableConstraints != constraints) d = "columns and constraints are not held in the order given";
    if (v != given) d = "the caller's list of elements is changed";
    if (s.type != kCreateTable || s.ifNotExists || s.filePath || s.schema || s.tableName || s.indexName || s.indexColumns || s.viewColumns || s.select) d = "setting the elements of a table changes another field";
  });
  if (d.empty() && n) d = blocks::leak(n, "setting columns and constraints");
  Engine::outcome(ops);
  return d;
}

// Objects of every type with every subset of their fields set, whether the parser makes such ones or not: what is held is
// released once.
struct Setter {
  const char* name;
  std::function<void()> set;
};
std::string subsets(const std::string& what, const std::function<std::vector<Setter>(std::function<void()>& destroy, std::function<std::string()>& show)>& make) {
  size_t n = 0;
  {
    std::function<void()> destroy;
    std::function<std::string()> show;
    n = make(destroy, show).size();
    destroy();
  }
  for (size_t m = 0; m < size_t(1) << n; ++m) {
    std::string fields, seen, again;
    const long left = blocks::balance([&] {
      std::function<void()> destroy;
      std::function<std::string()> show;
      auto setters = make(destroy, show);
      fields.clear();
      for (size_t i = 0; i < n; ++i)
        if (m >> i & 1) {
          setters[i].set();
          fields += std::string(" ") + setters[i].name;
        }
      if (show) {
        seen = show();
        again = show();
      }
      destroy();
    });
    if (seen != again) return "looking at " + what + " changes it";
    Engine::outcome(seen.empty() ? what + fields : seen);
    if (left) return blocks::leak(left, "building and destroying " + what + " with" + (fields.empty() ? " nothing" : fields) + " set");
  }
  return "";
}

template <class T>
std::vector<T*>* list_of(std::initializer_list<T*> l) { return new std::vector<T*>(l); }
TableRef* table_of(char c) {
  auto* t = new TableRef(c == 'q' ? kTableSelect : kTableName);
  if (c == 'q') t->select = query('l');
  else t->name = strdup("t");
  t->alias = new Alias(strdup("x"), c == 'q' ? list_of<char>({strdup("y")}) : nullptr);
  return t;
}

// An object, its fields and what becomes of it.
#define MAKE(T, init, ...)                                                                                   \
  subsets(what, [&](std::function<void()>& destroy, [[maybe_unused]] std::function<std::string()>& show) {   \
    auto* o = new T init;                                                                                    \
    destroy = [o] { delete o; };                                                                             \
    show = shown(o);                                                                                         \
    return std::vector<Setter>{__VA_ARGS__};                                                                 \
  })
#define FIELD(f, ...) Setter{#f, [=] { o->f = __VA_ARGS__; }}
std::function<std::string()> shown(SQLStatement* s) { return [s] { return impl::dump(s, true); }; }
std::function<std::string()> shown(Expr* e) { return [e] { return impl::dump(e); }; }
std::function<std::string()> shown(void*) { return {}; }

std::string filled(const std::string& what) {
  std::string d;
  auto S = [](const char* s) { return strdup(s); };
  auto names = [] { return list_of<char>({strdup("x"), strdup("y")}); };
  auto orders = [] { return list_of<OrderDescription>({new OrderDescription(kOrderDesc, leaf('n'), NullOrdering::Last), new OrderDescription(kOrderAsc, leaf('d'), NullOrdering::Undefined)}); };
  auto csv = [] {
    auto* c = new CsvOptions();
    c->delimiter = strdup("1");
    c->quote = strdup("2");
    return c;
  };
  auto limit = [] { return new LimitDescription(leaf('i'), leaf('n')); };
  if (what == "TableRef") {
    for (auto t : {kTableName, kTableSelect, kTableJoin, kTableCrossProduct})
      d += MAKE(TableRef, (t), FIELD(schema, S("s")), FIELD(name, S("n")), FIELD(alias, new Alias(S("x"), names())), FIELD(select, query('l')), FIELD(list, list_of<TableRef>({table_of('n'), table_of('q')})), FIELD(join, [] {
                  auto* j = new JoinDefinition();
                  j->left = table_of('q');
                  j->right = table_of('n');
                  j->condition = leaf('&');
                  return j;
                }()));
  } else if (what == "JoinDefinition") {
    for (auto t : {kJoinInner, kJoinFull, kJoinLeft, kJoinRight, kJoinCross, kJoinNatural})
      d += MAKE(JoinDefinition, (), FIELD(type, t), FIELD(left, table_of('q')), FIELD(right, table_of('n')), FIELD(condition, leaf('&')), FIELD(namedColumns, names()));
  } else if (what == "Expr") {
    for (auto t : kTypes)
      for (auto op : kOps)
        if (op == kOpNone || op == kOpPlus || t == kExprOperator) d += MAKE(Expr, (t), FIELD(opType, op), FIELD(expr, leaf('d')), FIELD(expr2, leaf('a')), FIELD(exprList, leaves("nb")), FIELD(select, query('l')), FIELD(name, S("n")), FIELD(table, S("t")), FIELD(schema, S("s")), FIELD(alias, S("x")), FIELD(windowDescription, new WindowDescription(leaves("n"), nullptr, nullptr)));
  } else if (what == "CreateStatement") {
    for (auto t : {kCreateTable, kCreateTableFromTbl, kCreateView, kCreateIndex})
      d += MAKE(CreateStatement, (t), FIELD(filePath, S("f")), FIELD(schema, S("s")), FIELD(tableName, S("t")), FIELD(indexName, S("i")), FIELD(indexColumns, names()), FIELD(viewColumns, names()), FIELD(select, query('l')),
                FIELD(columns, list_of<ColumnDefinition>({new ColumnDefinition(strdup("a"), ColumnType(DataType::INT), nullptr, nullptr)})), FIELD(tableConstraints, list_of<TableConstraint>({new TableConstraint(ConstraintType::Unique, names())})), FIELD(hints, leaves("h")));
  } else if (what == "DropStatement") {
    for (auto t : {kDropTable, kDropSchema, kDropIndex, kDropView, kDropPreparedStatement}) d += MAKE(DropStatement, (t), FIELD(schema, S("s")), FIELD(name, S("n")), FIELD(indexName, S("i")), FIELD(ifExists, true), FIELD(hints, leaves("h")));
  } else if (what == "InsertStatement") {
    for (auto t : {kInsertValues, kInsertSelect}) d += MAKE(InsertStatement, (t), FIELD(schema, S("s")), FIELD(tableName, S("n")), FIELD(columns, names()), FIELD(values, leaves("ldz")), FIELD(select, query('l')), FIELD(hints, leaves("h")));
  } else if (what == "ImportStatement") {
    for (auto t : {kImportCSV, kImportTbl, kImportBinary, kImportAuto})
      d += MAKE(ImportStatement, (t), FIELD(filePath, S("f")), FIELD(schema, S("s")), FIELD(tableName, S("n")), FIELD(whereClause, leaf('&')), FIELD(encoding, S("e")), FIELD(csv_options, csv()), FIELD(hints, leaves("h")));
  } else if (what == "ExportStatement") {
    for (auto t : {kImportCSV, kImportTbl, kImportBinary, kImportAuto})
      d += MAKE(ExportStatement, (t), FIELD(filePath, S("f")), FIELD(schema, S("s")), FIELD(tableName, S("n")), FIELD(select, query('l')), FIELD(encoding, S("e")), FIELD(csv_options, csv()), FIELD(hints, leaves("h")));
  } else if (what == "ImportExportOptions") {
    for (auto t : {kImportCSV, kImportTbl, kImportBinary, kImportAuto}) d += MAKE(ImportExportOptions, (), FIELD(format, t), FIELD(encoding, S("e")), FIELD(csv_options, csv()));
    d += MAKE(CsvOptions, (), FIELD(delimiter, S("d")), FIELD(null, S("n")), FIELD(quote, S("q")));
  } else if (what == "ShowStatement") {
    for (auto t : {kShowColumns, kShowTables}) d += MAKE(ShowStatement, (t), FIELD(schema, S("s")), FIELD(name, S("n")), FIELD(hints, leaves("h")));
  } else if (what == "SelectStatement") {
    d += MAKE(SelectStatement, (), FIELD(fromTable, table_of('q')), FIELD(selectList, leaves("snd")), FIELD(whereClause, leaf('&')), FIELD(groupBy, new GroupByDescription()), FIELD(order, orders()), FIELD(limit, limit()), FIELD(hints, leaves("h")),
              FIELD(setOperations, [=] {
                auto* p = new SetOperation();
                p->nestedSelectStatement = query('l');
                p->resultOrder = orders();
                return list_of<SetOperation>({p});
              }()),
              FIELD(withDescriptions, [=] {
                auto* w = new WithDescription();
                w->alias = strdup("w");
                w->select = query('l');
                return list_of<WithDescription>({w});
              }()),
              FIELD(lockings, [=] {
                auto* l = new LockingClause();
                l->rowLockMode = RowLockMode::ForShare;
                l->rowLockWaitPolicy = RowLockWaitPolicy::NoWait;
                l->tables = names();
                return list_of<LockingClause>({l});
              }()));
  } else if (what == "SetOperation") {
    for (auto t : {kSetUnion, kSetIntersect, kSetExcept}) d += MAKE(SetOperation, (), FIELD(setType, t), FIELD(isAll, true), FIELD(nestedSelectStatement, query('l')), FIELD(resultOrder, orders()), FIELD(resultLimit, limit()));
    d += MAKE(GroupByDescription, (), FIELD(columns, leaves("nd")), FIELD(having, leaf('&')));
    for (char a : kOperands)
      for (char b : kOperands) d += MAKE(LimitDescription, (leaf(a), leaf(b)));
    for (char a : kOperands)
      for (auto t : {kOrderAsc, kOrderDesc}) d += MAKE(OrderDescription, (t, leaf(a), NullOrdering::First));
  } else if (what == "UpdateStatement") {
    d += MAKE(UpdateStatement, (), FIELD(table, table_of('n')), FIELD(where, leaf('&')), FIELD(hints, leaves("h")), FIELD(updates, [] {
                auto *u = new UpdateClause(), *v = new UpdateClause();
                u->column = strdup("c");
                u->value = leaf('d');
                v->column = nullptr;
                v->value = leaf('n');
                return list_of<UpdateClause>({u, v});
              }()));
    d += MAKE(DeleteStatement, (), FIELD(schema, S("s")), FIELD(tableName, S("n")), FIELD(expr, leaf('&')), FIELD(hints, leaves("h")));
  } else if (what == "PrepareStatement") {
    d += MAKE(PrepareStatement, (), FIELD(name, S("n")), FIELD(query, S("q")), FIELD(hints, leaves("h")));
    d += MAKE(ExecuteStatement, (), FIELD(name, S("n")), FIELD(parameters, leaves("lzi")), FIELD(hints, leaves("h")));
  } else if (what == "AlterStatement") {
    d += MAKE(AlterStatement, (nullptr, nullptr), FIELD(schema, S("s")), FIELD(name, S("n")), FIELD(action, new DropColumnAction(strdup("c"))), FIELD(ifTableExists, true), FIELD(hints, leaves("h")));
    d += MAKE(DropColumnAction, (nullptr), FIELD(columnName, S("s")), FIELD(ifExists, true));
  } else if (what == "TransactionStatement") {
    for (auto t : {kBeginTransaction, kCommitTransaction, kRollbackTransaction}) d += MAKE(TransactionStatement, (t), FIELD(hints, leaves("hhh")));
  } else if (what == "ColumnDefinition") {
    d += MAKE(ColumnDefinition, (nullptr, ColumnType(DataType::INT), nullptr, nullptr), FIELD(name, S("n")), FIELD(nullable, false), FIELD(column_constraints, new std::unordered_set<ConstraintType>{ConstraintType::Null}),
              FIELD(references, list_of<ReferencesSpecification>({new ReferencesSpecification(S("s"), S("t"), names()), new ReferencesSpecification(nullptr, S("t"), nullptr)})));
    d += MAKE(ReferencesSpecification, (nullptr, nullptr, nullptr), FIELD(schema, S("s")), FIELD(table, S("n")), FIELD(columns, names()));
    d += MAKE(ColumnConstraints, (), Setter{"constraints", [=] { o->constraints->insert(ConstraintType::Unique); }}, Setter{"references", [=] { o->references->push_back(new ReferencesSpecification(S("s"), S("t"), names())); }});
    d += MAKE(Alias, (nullptr), FIELD(name, S("n")), FIELD(columns, names()));
  } else if (what == "WindowDescription") {
    for (auto t : {kRange, kRows, kGroups})
      d += MAKE(WindowDescription, (nullptr, nullptr, nullptr), FIELD(partitionList, leaves("nd")), FIELD(orderList, orders()), FIELD(frameDescription, new FrameDescription(t, new FrameBound(1, kPreceding, false), new FrameBound(0, kCurrentRow, false))));
    d += MAKE(FrameDescription, (kRows, nullptr, nullptr), FIELD(start, new FrameBound(1, kPreceding, false)), FIELD(end, new FrameBound(1, kFollowing, true)));
  } else {
    return "?";
  }
  return d;
}

// Parameters that are added in any order are listed by number.
std::string parameters(const std::string& order) {
  SQLParserResult r;
  std::vector<std::unique_ptr<Expr>> own;
  std::vector<int64_t> expected;
  for (char c : order) {
    own.emplace_back(Expr::makeParameter(c - '0'));
    expected.push_back(c - '0');
    r.addParameter(own.back().get());
    std::sort(expected.begin(), expected.end());
    std::vector<int64_t> got;
    for (auto* p : r.parameters()) got.push_back(p->ival);
    if (got != expected) return "parameters are not listed in the order of their numbers";
  }
  // A result that is moved takes them along.
  auto listed = [&](SQLParserResult& x) {
    return x.parameters().size() == own.size() && std::equal(expected.begin(), expected.end(), x.parameters().begin(), [](int64_t n, const Expr* p) { return p->ival == n; });
  };
  SQLParserResult made(std::move(r)), assigned;
  if (!listed(made)) return "a move-constructed result does not list the parameters";
  assigned = std::move(made);
  if (!listed(assigned)) return "a move-assigned result does not list the parameters";
  Engine::outcome(order);
  return "";
}

std::string part_of(const std::string& s) {
  for (size_t from = 0; from <= s.size(); ++from)
    for (size_t to = from; to <= s.size(); ++to) {
      // The source is not read behind its end.
      std::unique_ptr<char[]> source(new char[s.size() + 1]);
      memcpy(source.get(), s.c_str(), s.size() + 1);
      char* p = substr(source.get(), int(from), int(to));
      const std::string got = p;
      free(p);
      if (got != s.substr(from, to - from)) return "substr returns " + got + " for " + std::to_string(from) + ".." + std::to_string(to);
    }
  return "";
}

}  // namespace

std::string check(const Case& c) {
  const std::string phase = c.phase;
  if (phase == "factories") return factory(c.args[0]);
  if (phase == "constructors") return defaults(c.args[0]);
  if (phase == "filled objects") return filled(c.args[0]);
  if (phase == "options") return csv_options(c.args[0]);
  if (phase == "nullable columns") return nullable(atoi(c.args[0].c_str()));
  if (phase == "table elements") return elements(c.args[0]);
  if (phase == "added parameters") return parameters(c.args[0]);
  if (phase == "parts of strings") return part_of(c.args[0]);
  std::string d = rebuilt(c.args[0]);
  if (d.empty() && c.args.size() > 1) d = left_out(c.args[0]);
  if (d.empty() && c.args.size() > 1) d = taken_out(c.args[0]);
  return d;
}

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  for (const char* f : {"make", "makeOpUnary", "makeOpBinary", "makeBetween", "makeCase", "makeLiteral", "makeColumnRef", "makeFunctionRef", "makeArray", "makeParameter", "makeSelect", "makeInOperator", "makeExtract", "makeCast"})
    if (e.mine()) e.run(Case("factories", f));
  for (const char* f : {"select", "insert", "update", "delete", "create", "drop", "prepare", "execute", "import", "export", "show", "transaction", "alter", "parts"})
    if (e.mine()) e.run(Case("constructors", f));
  for (const char* f : {"TableRef", "JoinDefinition", "Expr", "CreateStatement", "DropStatement", "InsertStatement", "ImportStatement", "ExportStatement", "ImportExportOptions", "ShowStatement", "SelectStatement", "SetOperation", "UpdateStatement", "PrepareStatement",
                        "AlterStatement", "TransactionStatement", "ColumnDefinition", "WindowDescription"})
    if (e.mine()) e.run(Case("filled objects", f));
  strings(e, {"0", "1", "2"}, 6, [&](const std::string& s) { e.run(Case("options", s)); });
  for (int m = 0; m < 32; ++m)
    if (e.mine()) e.run(Case("nullable columns", std::to_string(m)));
  strings(e, {"c", "d", "-", "e", "p", "P", "u", "f", "n"}, 4 + deep, [&](const std::string& s) { e.run(Case("table elements", s)); });
  strings(e, {"0", "1", "2", "3", "4"}, 5 + deep, [&](const std::string& s) { e.run(Case("added parameters", s)); });
  for (size_t n : {1, 15, 16, 17, 31, 32, 33, 100}) {
    // Long enough for every way a list may be sorted.
    std::string up, down;
    for (size_t i = 0; i < n; ++i) up += char('0' + i);
    down.assign(up.rbegin(), up.rend());
    if (e.mine())
      for (auto& s : {up, down, up + down, down + up}) e.run(Case("added parameters", s));
  }
  strings(e, {"a", "b", "'", "\xff"}, 4, [&](const std::string& s) { e.run(Case("parts of strings", s)); });

  GenOptions o;
  for (int extra = 0; extra < 2; ++extra)
    for (int full = 0; full < 2; ++full) {
      o.full = full;
      o.extra = extra;
      o.params = false;
      auto run = [&](const Tokens& t) { e.run(Case("derivations", std::vector<std::string>{join(t), "parts"})); };
      sentences(e, ALL_KINDS, o, extra ? deep : 1, run);
    }
  o = GenOptions();
  o.params = true;
  sentences(e, ALL_KINDS, o, 1, [&](const Tokens& t) { e.run(Case("derivations", std::vector<std::string>{join(t), "parts"})); });
  o.params = false;
  sentences(e, ALL_KINDS, o, 2, [&](const Tokens& t) { e.run(Case("derivations", std::vector<std::string>{join(t), "parts"})); });
  if (deep) {
    o.full = true;
    sentences(e, ALL_KINDS, o, 2, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
    o.full = false;
    sentences(e, ALL_KINDS, o, 3, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
  }
  for (auto& t : constructs(ALL_KINDS))
    if (e.mine()) e.run(Case("constructs", std::vector<std::string>{join(t), "parts"}));
  changed_constructs(e, ALL_KINDS, [&](const Tokens& t) { e.run(Case("changed constructs", join(t))); });
  contradictions(e, 2 + deep, [&](const std::string& s) { e.run(Case("constraints and options", std::vector<std::string>{s, "parts"})); });
  sizes(e, ALL_KINDS, 12, deep ? 1025 : 130, [&](const char*, const std::string& s) {
    if (s.size() < 40000) e.run(Case("sizes", s));
  });
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["factories"] = "every factory with every combination of 33 kinds of operands, 16 lists, 6 names, 3 queries, 27 operators, 7 units, 14 integers, 11 decimals, 16 types";
  b["constructors"] = "every public constructor of statements and parts of trees, with every enumeration value, on memory of three contents";
  b["filled objects"] = "objects of every class and type with every subset of their fields set, built, looked at and destroyed";
  b["derivations"] = std::string("all derivations with up to 1 non-default choice (four profiles)") + (thorough ? ", 2 without unusual names" : "") + ": built again by hand, each part left out or empty, each sub-tree taken out; all with up to 2 built again";
  b["constructs"] = changed_constructs_bounds();
  b["operations"] = std::string("all sequences of up to 6 CSV options, ") + (thorough ? "5" : "4") + " of 9 table elements, " + (thorough ? "6" : "5") + " parameters; all sets of column constraints";
}
