// Observations of the implementation: canonical text of its results, tree walks, parameters.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "SQLParser.h"
#include "SQLParserResult.h"
#include "sql/statements.h"

namespace impl {

// Canonical text of a statement, in the same form as ref::dump. With `all`, also the fields that the reference does not
// describe (string length, second number of parameters).
std::string dump(const hsql::SQLStatement* s, bool all = false);
std::string dump(const hsql::Expr* e);
// Everything a result shows.
std::string dump(hsql::SQLParserResult& r, bool all = true);

// Calls the functions for every node of the tree, in field order.
struct Visitor {
  std::function<void(const hsql::Expr*)> expr;
  std::function<void(const hsql::TableRef*)> table;
  std::function<void(const hsql::SelectStatement*)> select;
  std::function<void(const void*, const char* what)> block;  // every owned allocation (nodes, vectors, strings)
};
void visit(const hsql::SQLStatement* s, const Visitor& v);

}  // namespace impl
