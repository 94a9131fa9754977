// Printing shows the statement that was parsed: what reaches the file descriptors, compared with the reference's text.
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <sstream>

#include "aspects.h"
#include "constants.h"
#include "explore.h"
#include "families.h"
#include "util/sqlhelper.h"

const char* const kProperty = "C18";

using namespace hsql;

namespace {

int out_fd = -1, err_fd = -1;

std::string drain(int fd) {
  const off_t n = lseek(fd, 0, SEEK_CUR);
  std::string s;
  if (n > 0) {
    s.resize(size_t(n));
    lseek(fd, 0, SEEK_SET);
    size_t got = 0;
    while (got < s.size()) {
      const ssize_t k = read(fd, &s[got], s.size() - got);
      if (k <= 0) break;
      got += size_t(k);
    }
    s.resize(got);
    lseek(fd, 0, SEEK_SET);
    (void)!ftruncate(fd, 0);
  }
  return s;
}

struct Both {
  std::string out, err;
};
// What f writes to the file descriptors 1 and 2.
Both capture(const std::function<void()>& f) {
  if (out_fd < 0) {
    out_fd = memfd_create("out", MFD_CLOEXEC);
    err_fd = memfd_create("err", MFD_CLOEXEC);
    static char buffer[1 << 16];
    std::cout.rdbuf()->pubsetbuf(buffer, sizeof buffer);
  }
  fflush(stdout);
  static const int out = dup(1), err = dup(2);
  dup2(out_fd, 1);
  dup2(err_fd, 2);
  lseek(out_fd, 0, SEEK_SET);
  lseek(err_fd, 0, SEEK_SET);
  f();
  std::cout.flush();
  fflush(stdout);
  fflush(stderr);
  dup2(out, 1);
  dup2(err, 2);
  return {drain(out_fd), drain(err_fd)};
}

std::string difference(const char* what, const std::string& expected, const std::string& got) {
  size_t i = 0;
  while (i < expected.size() && i < got.size() && expected[i] == got[i]) ++i;
  const size_t from = expected.rfind('\n', i ? i - 1 : 0) == std::string::npos ? 0 : expected.rfind('\n', i ? i - 1 : 0);
  return std::string(what) + ", at byte " + std::to_string(i) + "\nexpected " + ref::quote(expected.substr(from, 300)) + "\ngot " + ref::quote(got.substr(std::min(from, got.size()), 300));
}

std::string indented(const std::string& s, size_t depth) {
  std::string r;
  for (size_t p = 0; p < s.size();) {
    const size_t e = s.find('\n', p);
    r.append(depth, '\t');
    r += s.substr(p, e - p + 1);
    if (e == std::string::npos) break;
    p = e + 1;
  }
  return r;
}

std::string check_types() {
  static const char* const kTypes[] = {"UNKNOWN", "BIGINT", "BOOLEAN", "CHAR", "DATE", "DATETIME", "DECIMAL", "DOUBLE", "FLOAT", "INT", "LONG", "REAL", "SMALLINT", "TEXT", "TIME", "VARCHAR"};
  for (int t = 0; t < 16; ++t)
    for (int64_t length : {0l, 1l, 10l, 255l, 65536l, 4294967296l, 9223372036854775807l})
      for (int64_t precision : {0l, 6l})
        for (int64_t scale : {0l, 4l}) {
          std::ostringstream s;
          std::ostream& r = s << ColumnType(DataType(t), length, precision, scale);
          std::string expected = kTypes[t];
          if (DataType(t) == DataType::CHAR || DataType(t) == DataType::VARCHAR) expected += "(" + std::to_string(length) + ")";
          // More than the name (the numbers of the type, say) is not wrong.
          if (s.str().compare(0, expected.size(), expected) || (s.str().size() > expected.size() && s.str()[expected.size()] != '(')) return "type " + expected + " is shown as " + s.str();
          if (&r != &s) return "the stream operator for types returns another stream";
        }
  static const std::pair<ConstraintType, const char*> kConstraints[] = {{ConstraintType::Null, "NULL"}, {ConstraintType::NotNull, "NOT NULL"}, {ConstraintType::ForeignKey, "FOREIGN KEY"}, {ConstraintType::PrimaryKey, "PRIMARY KEY"}, {ConstraintType::Unique, "UNIQUE"}};
  for (auto& c : kConstraints) {
    std::ostringstream s;
    std::ostream& r = s << c.first;
    if (s.str() != c.second) return std::string("constraint ") + c.second + " is shown as " + s.str();
    if (&r != &s) return "the stream operator for constraints returns another stream";
  }
  return "";
}

}  // namespace

// args: text; with a second one, also at other depths and every expression of the outermost SELECT alone.
std::string check(const Case& c) {
  if (!strcmp(c.phase, "types")) return check_types();
  const std::string& text = c.args[0];
  const ref::Result x = ref::parse(text);
  SQLParserResult r;
  SQLParser::parse(text, &r);
  if (!r.isValid() || !x.valid || r.size() != x.stmts.size()) return "";  // decided elsewhere
  std::string d;
  for (size_t i = 0; i < r.size() && d.empty(); ++i) {
    const SQLStatement* s = r.getStatement(i);
    // A tree that is wrong already is not the printer's.
    const std::string before = impl::dump(s, true);
    const std::string expected = ref::print(*x.stmts[i]);
    if (impl::dump(s) != ref::dump(*x.stmts[i])) continue;
    const Both one = capture([&] { printStatementInfo(s); });
    if (impl::dump(s, true) != before) return "printing changed the statement\nexpected " + before + "\ngot " + impl::dump(s, true);
    if (!one.err.empty()) return "printing wrote to standard error: " + ref::quote(one.err.substr(0, 300));
    if (one.out != expected) return difference("the printed text differs", expected, one.out);
    Engine::outcome(one.out);
    const Both two = capture([&] { printStatementInfo(s); });
    if (two.out != one.out || !two.err.empty()) return difference("the second print differs", one.out, two.out);
    if (c.args.size() < 2) continue;
    // The printers of the kinds of statements, at several depths.
    const bool lines = text.find_first_of("\n\r") == std::string::npos;
    for (size_t depth : {0, 1, 3}) {
      const Both b = capture([&] {
        switch (s->type()) {
          case kStmtSelect:
            printSelectStatementInfo(static_cast<const SelectStatement*>(s), depth);
            break;
          case kStmtInsert:
            printInsertStatementInfo(static_cast<const InsertStatement*>(s), depth);
            break;
          case kStmtCreate:
            printCreateStatementInfo(static_cast<const CreateStatement*>(s), depth);
            break;
          case kStmtImport:
            printImportStatementInfo(static_cast<const ImportStatement*>(s), depth);
            break;
          case kStmtExport:
            printExportStatementInfo(static_cast<const ExportStatement*>(s), depth);
            break;
          case kStmtTransaction:
            printTransactionStatementInfo(static_cast<const TransactionStatement*>(s), depth);
            break;
          default:
            break;
        }
      });
      if (lines && b.out != indented(expected, depth)) return difference("printed at another depth, the text differs", indented(expected, depth), b.out);
    }
    // Every expression alone is shown as it is within the statement.
    if (!lines || expected.empty()) continue;
    std::vector<Expr*> list;
    if (s->type() == kStmtSelect) list = *static_cast<const SelectStatement*>(s)->selectList;
    if (s->type() == kStmtInsert && static_cast<const InsertStatement*>(s)->values) list = *static_cast<const InsertStatement*>(s)->values;
    for (Expr* e : list) {
      const std::string old = impl::dump(e);
      const Both b = capture([&] { printExpression(e, 2); });
      if (expected.find(b.out) == std::string::npos) return difference("an expression printed alone differs", expected, b.out);
      if (impl::dump(e) != old) return "printing changed an expression";
    }
  }
  return d;
}

void explore(Engine& e) {
  e.run(Case("types", "all"));
  const int deep = e.thorough ? 1 : 0;
  GenOptions o;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.extra = false;
    o.params = false;
    const int bound = full ? 1 : 2;
    sentences(e, ALL_KINDS, o, bound, [&](const Tokens& t) { e.run(Case("derivations", std::vector<std::string>{join(t), "all"})); });
    o.extra = true;
    sentences(e, ALL_KINDS, o, bound, [&](const Tokens& t) { e.run(Case("derivations", std::vector<std::string>{join(t), "all"})); });
    o.params = true;
    sentences(e, ALL_KINDS, o, full && !deep ? 0 : 1, [&](const Tokens& t) { e.run(Case("derivations", std::vector<std::string>{join(t), "all"})); });
    o.extra = o.params = false;
    if (deep) sentences(e, 1u << G_SELECT, o, full ? 2 : 3, [&](const Tokens& t) { e.run(Case("deep derivations", join(t))); });
    for (auto& t : bases(ALL_KINDS, o, full ? 0 : 1)) {
      if (!e.mine()) continue;
      substitute(t, [&](const Tokens& m) { e.run(Case("unusual names and values", std::vector<std::string>{join(m), "all"})); });
      if (full || deep) mutate(t, alphabet(), [&](const Tokens& m) { e.run(Case("changed derivations", join(m))); });
    }
  }
  auto changed = [&](const Tokens& m) { e.run(Case("constructs", std::vector<std::string>{join(m), "all"})); };
  changed_constructs(e, ALL_KINDS, changed);
  for (auto& t : constructs(ALL_KINDS))
    if (e.mine()) substitute_pairs(t, changed);
  select_sequences(e, 5 + deep, [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; });
  // Statement kinds in one list, so that one print comes behind another.
  o.full = false;
  const auto one = bases(ALL_KINDS, o, 0);
  o.full = true;
  auto more = bases(ALL_KINDS, o, 0);
  more.insert(more.end(), one.begin(), one.end());
  for (auto& a : more)
    for (auto& b : more)
      if (e.mine()) e.run(Case("lists", std::vector<std::string>{join(a) + "; " + join(b) + "; " + join(a), "all"}));
  for (auto& f : families()) {
    const std::string name = std::string(f.nested ? "deep " : "") + f.name;
    for (size_t n : family_sizes(f.nested ? 130 : deep ? 1025 : 300, deep ? 130 : 40)) {
      if (!e.mine()) continue;
      const std::string s = f.text(n);
      on_big_stack([&] { e.run(Case("sizes", s)); });
    }
  }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) {
    if (s.size() < 20000) on_big_stack([&] { e.run(Case(phase, std::vector<std::string>{s, "all"})); });
  });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["sequences"] = select_sequences_bounds(5 + thorough);
  b["derivations"] = std::string("all derivations with up to 2 (full profile: 1") + (thorough ? ") non-default choices, of SELECT up to 3 (full profile: 2)" : ") non-default choices") + "; twice, at 3 depths, and every expression alone";
  b["unusual names and values"] = "every name, number and string replaced by 79, 80 and 69 others, every pair of names equal";
  b["constructs"] = changed_constructs_bounds() + "; every pair of names, numbers, strings by equal ones, in either order and differing in case or spaces";

  b["lists"] = "all pairs of 28 statements";
  b["sizes"] = thorough ? "every family at sizes 0..130 and powers up to 1025" : "every family at sizes 0..40 and powers up to 300";
  b["types"] = "16 column types with 7 lengths, precisions, scales; 5 constraints";
}
