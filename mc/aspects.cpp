#include "aspects.h"

#include "engine.h"
#include "families.h"

using hsql::SQLParser;
using hsql::SQLParserResult;

// The trees of long texts are walked recursively.
static thread_local bool on_large_stack;

std::string dump_all(const ref::Result& r) {
  std::string o;
  for (auto* s : r.stmts) o += ref::dump(*s) + "\n";
  return o;
}
std::string dump_all(SQLParserResult& r) {
  std::string o;
  for (auto* s : r.getStatements()) o += impl::dump(s) + "\n";
  return o;
}

std::string all_or_nothing(SQLParserResult& r, bool returned) {
  if (!returned) return "parse returned false";
  if (r.size() != r.getStatements().size()) return "size() differs from the number of statements";
  if (r.isValid()) {
    if (r.size() == 0) return "valid without statements";
    if (r.errorMsg()) return std::string("valid with error message: ") + r.errorMsg();
    for (size_t i = 0; i < r.size(); ++i) {
      if (!r.getStatement(i)) return "null statement";
      if (r.getStatement(i) != r.getStatements()[i] || r.getMutableStatement(i) != r.getStatements()[i])
        return "getStatement and getStatements differ";
    }
    return "";
  }
  if (!r.errorMsg()) return "invalid without error message";
  if (!*r.errorMsg()) return "invalid with empty error message";
  if (r.errorLine() < 0 || r.errorColumn() < 0)
    return "negative error position " + std::to_string(r.errorLine()) + ":" + std::to_string(r.errorColumn());
  if (r.size()) return "invalid with " + std::to_string(r.size()) + " statements";
  if (!r.parameters().empty()) return "invalid with parameters";
  return "";
}

std::string check_params(SQLParserResult& r, size_t expected) {
  std::vector<const hsql::Expr*> found;
  impl::Visitor v;
  v.expr = [&](const hsql::Expr* e) {
    if (e->type == hsql::kExprParameter) found.push_back(e);
  };
  for (auto* s : r.getStatements()) impl::visit(s, v);
  auto& list = r.parameters();
  if (found.size() != expected)
    return std::to_string(expected) + " placeholders written, " + std::to_string(found.size()) + " in the statements";
  if (list.size() != expected)
    return std::to_string(expected) + " placeholders written, " + std::to_string(list.size()) + " in parameters()";
  for (size_t i = 0; i < list.size(); ++i) {
    if (list[i]->ival != int64_t(i))
      return "parameter " + std::to_string(i) + " carries number " + std::to_string(list[i]->ival);
  }
  // The trees are compared with the reference, so each number is at the right place; here: the listed objects are the
  // ones in the trees.
  std::vector<const hsql::Expr*> by_number(found.size());
  for (auto* e : found) {
    if (e->ival < 0 || size_t(e->ival) >= found.size()) return "placeholder with number " + std::to_string(e->ival);
    if (by_number[size_t(e->ival)]) return "two placeholders with number " + std::to_string(e->ival);
    by_number[size_t(e->ival)] = e;
  }
  for (size_t i = 0; i < list.size(); ++i)
    if (list[i] != by_number[i]) return "parameters() refers to another expression than the statement";
  return "";
}

std::string check_lengths(const std::string& text, const ref::Result& r, SQLParserResult& i) {
  size_t pos = 0;
  for (size_t n = 0; n < r.stmts.size(); ++n) {
    const ref::Stmt& s = *r.stmts[n];
    const size_t len = i.getStatement(n)->stringLength;
    const size_t end = pos + len;
    const std::string at = "statement " + std::to_string(n) + " has length " + std::to_string(len);
    if (end > text.size()) return at + ", which reaches beyond the text";
    if (pos > r.toks[s.first_tok].beg) return at + ": the piece starts inside of the statement";
    const auto& last = r.toks[s.semicolon ? s.end_tok : s.end_tok - 1];
    if (end < last.end) return at + ": the piece ends before the statement's end";
    if (n + 1 < r.stmts.size() && end > r.toks[r.stmts[n + 1]->first_tok].beg)
      return at + ": the piece reaches into the next statement";
    SQLParserResult alone;
    SQLParser::parse(text.substr(pos, len), &alone);
    if (!alone.isValid() || alone.size() != 1) return at + ": the piece alone is not one statement";
    // Placeholders are numbered from the start of the text that is parsed.
    if (r.params == 0 && impl::dump(alone.getStatement(0)) != impl::dump(i.getStatement(n)))
      return at + ": the piece alone gives " + impl::dump(alone.getStatement(0));
    pos = end;
  }
  return "";
}

std::string check_position(const std::string& text, const ref::Result& r, int line, int column) {
  size_t start = 0;
  for (int l = 0; l < line; ++l) {
    const size_t nl = text.find('\n', start);
    if (nl == std::string::npos) return "error line " + std::to_string(line) + " is beyond the text";
    start = nl + 1;
  }
  const size_t pos = start + size_t(column);
  const auto& t = r.toks[r.err_tok];
  size_t lo = t.beg, hi = t.end ? t.end - 1 : 0;
  if (t.kind == ref::K_EOF) {
    lo = r.err_tok ? r.toks[r.err_tok - 1].beg : 0;
    hi = text.size();
  }
  const size_t nl = text.find('\n', start);
  const size_t line_end = nl == std::string::npos ? text.size() : nl;
  if (pos < lo || pos > hi || pos > line_end) {
    return "error position " + std::to_string(line) + ":" + std::to_string(column) + " (byte " + std::to_string(pos) +
           ") is not within bytes " + std::to_string(lo) + ".." + std::to_string(hi);
  }
  return "";
}

// The numbers of the placeholders of a canonical text, in tree order.
static std::string numbers_in_order(const std::string& dump) {
  std::string o;
  static const std::string kNode = "{Parameter";
  for (size_t p = dump.find(kNode); p != std::string::npos; p = dump.find(kNode, p + 1)) {
    size_t q = dump.find_first_of("}{", p + 1);
    o += dump.substr(p, q - p);
  }
  return o;
}

std::string judge(const std::string& text, const ref::Result& r, SQLParserResult& i, bool returned, unsigned aspects) {
  if (aspects & A_ALL) {
    std::string d = all_or_nothing(i, returned);
    if (!d.empty()) return d;
  }
  if (r.grey) return "";
  if ((aspects & A_DEEP) && !i.isValid()) return all_or_nothing(i, returned);
  if (aspects & (A_VALID | A_TREE)) {
    if (r.valid != i.isValid()) {
      std::string d = r.valid ? "a text of the dialect is rejected" : "a text that is not of the dialect is accepted";
      if (i.errorMsg()) d += std::string(": ") + i.errorMsg();
      if (r.valid) return d + "\nexpected " + dump_all(r);
      return d + (r.semantic ? " (contradictory parts)" : " (it ends at token " + std::to_string(r.err_tok) + ", byte " +
                                                              std::to_string(r.toks[r.err_tok].beg) + ")") +
             "\ngot " + dump_all(i);
    }
  }
  if (r.valid != i.isValid()) return "";
  if (r.valid) {
    const bool same_size = i.size() == r.stmts.size();
    if (aspects & A_TREE) {
      const std::string a = dump_all(r), b = dump_all(i);
      Engine::outcome(b);
      if (a != b) return "the statements differ from the written ones\nexpected " + a + "\ngot " + b;
    } else {
      Engine::outcome(std::string("valid") + char('0' + i.size()));
    }
    if (aspects & A_PARAMS) {
      std::string d = check_params(i, r.params);
      if (!d.empty()) return d;
      const std::string a = numbers_in_order(dump_all(r)), b = numbers_in_order(dump_all(i));
      if (a != b) return "the placeholders are not numbered in written order\nexpected " + a + "\ngot " + b;
    }
    if (aspects & A_LENGTH) {
      if (!same_size)
        return std::to_string(r.stmts.size()) + " statements written, " + std::to_string(i.size()) + " returned";
      std::string d = check_lengths(text, r, i);
      if (!d.empty()) return d;
    }
  } else {
    Engine::outcome(std::to_string(i.errorLine()) + ":" + std::to_string(i.errorColumn()) + (i.errorMsg() ? i.errorMsg() : ""));
    if ((aspects & A_POS) && !r.semantic) {
      std::string d = check_position(text, r, i.errorLine(), i.errorColumn());
      if (!d.empty()) return d + (i.errorMsg() ? std::string("\n") + i.errorMsg() : "");
    }
  }
  return "";
}

std::string compare(const std::string& text, unsigned aspects) {
  if (text.size() > 20000 && !on_large_stack) {
    std::string d;
    on_big_stack([&] {
      on_large_stack = true;
      d = compare(text, aspects);
    });
    return d;
  }
  const ref::Result r = ref::parse(text);
  SQLParserResult i;
  const bool returned = SQLParser::parse(text, &i);
  return judge(text, r, i, returned, aspects);
}

std::string squeeze(std::string s) {
  if (s.size() <= 900000) return s;
  const size_t size = s.size(), hash = std::hash<std::string>()(s);
  s.resize(100000);
  return s + "... (" + std::to_string(size) + " bytes, hash " + std::to_string(hash) + ")";
}
