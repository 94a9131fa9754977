// What is compared between the implementation and the reference for one text.
#pragma once
#include <string>

#include "impl.h"
#include "ref.h"

enum Aspect : unsigned {
  A_VALID = 1,    // valid exactly if the reference accepts the text
  A_TREE = 2,     // statements equal to the reference's
  A_POS = 4,      // error position within the reference's offending token
  A_ALL = 8,      // all or nothing
  A_PARAMS = 16,  // parameter list complete and in written order
  A_LENGTH = 32,  // string lengths tile the text
  A_DEEP = 64,    // nested so deep that an error is allowed
};

// Empty if the implementation agrees; also records the outcome for the coverage report.
std::string compare(const std::string& text, unsigned aspects);

// The same for a result that is already there (parsed into a fresh or reset result).
std::string judge(const std::string& text, const ref::Result& r, hsql::SQLParserResult& i, bool returned,
                  unsigned aspects);

// The text itself, or its start, length and hash if it is too long to be handed from process to process.
std::string squeeze(std::string s);

std::string all_or_nothing(hsql::SQLParserResult& r, bool returned);
std::string check_params(hsql::SQLParserResult& r, size_t expected);
std::string check_lengths(const std::string& text, const ref::Result& r, hsql::SQLParserResult& i);
std::string check_position(const std::string& text, const ref::Result& r, int line, int column);
std::string dump_all(const ref::Result& r);
std::string dump_all(hsql::SQLParserResult& r);
