// Builds trees by hand: the same tree as a given one, made of the public constructors and factories only.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "SQLParserResult.h"
#include "sql/statements.h"

struct Rebuild {
  // The part that is left out: the n-th optional part of the tree (0 = none). A list can be left empty instead.
  size_t leave_out = 0;
  bool empty = false;
  // Parts of the tree so far that can be left out.
  size_t parts = 0;

  // Where the children of the new tree are held.
  std::vector<hsql::Expr**> exprs;
  std::vector<hsql::SelectStatement**> selects;
  std::vector<hsql::TableRef**> tables;

  hsql::SQLStatement* stmt(const hsql::SQLStatement* s);
  hsql::Expr* expr(const hsql::Expr* e);

 private:
  bool out() { return ++parts == leave_out && !empty; }
  bool out_list(bool& leave_empty);
  char* str(const char* s);
  char* copy(const char* s);
  std::vector<char*>* names(const std::vector<char*>* v, bool needed = false);
  std::vector<hsql::Expr*>* list(const std::vector<hsql::Expr*>* v);
  std::vector<hsql::OrderDescription*>* order(const std::vector<hsql::OrderDescription*>* v);
  hsql::LimitDescription* limit(const hsql::LimitDescription* l);
  hsql::Expr* sub(const hsql::Expr* e);
  hsql::SelectStatement* sub(const hsql::SelectStatement* s);
  hsql::TableRef* sub(const hsql::TableRef* t);
  void hold(hsql::Expr*& e) { exprs.push_back(&e); }
  hsql::SelectStatement* select(const hsql::SelectStatement* s);
  hsql::TableRef* table(const hsql::TableRef* t);
  hsql::CsvOptions* csv(const hsql::CsvOptions* c);
  hsql::ReferencesSpecification* refs(const hsql::ReferencesSpecification* r);
  hsql::FrameBound* bound(const hsql::FrameBound* b);
  hsql::CreateStatement* create(const hsql::CreateStatement* c);
  std::vector<hsql::ReferencesSpecification*>* refs(const std::vector<hsql::ReferencesSpecification*>* v);
};
