// A call's outcome does not depend on earlier calls: histories of calls in one process, each call compared with the same
// call as the first one of a fresh process.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <thread>

#include "aspects.h"
#include "constants.h"
#include "explore.h"
#include "util/sqlhelper.h"

const char* const kProperty = "C16";

using hsql::SQLParser;
using hsql::SQLParserResult;

namespace {

struct Shared {
  char detail[8192];
  size_t size;
  char data[1 << 21];
};
Shared* memory() {
  static auto* s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return s;
}
template <class F>
std::string forked(F f) {
  auto* m = memory();
  m->detail[0] = 0;
  m->size = 0;
  const pid_t p = fork();
  if (p == 0) {
    alarm(100);
    f(m);
    _exit(0);
  }
  int status = 0;
  while (waitpid(p, &status, 0) < 0) {
  }
  if (m->detail[0]) return m->detail;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return "";
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) return "the calls do not end";
  return "the process crashed (" + std::to_string(WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status)) + ")";
}

struct Capture : std::streambuf {
  std::string text;
  int overflow(int c) override {
    if (c != EOF) text += char(c);
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    text.append(s, size_t(n));
    return n;
  }
};

const std::vector<std::string>& texts() {
  static const std::vector<std::string> all = [] {
    std::vector<std::string> r = {
        // What ends in the middle of something.
        "SELECT 'x", "SELECT 'a', 'b''", "SELECT a -- c", "--", "SELECT \"x", "SELECT 1.", "SELECT (", "SELECT CASE WHEN", "SELECT ?, ?, 'z", "SELECT a; SELECT ?; SELECT", "", ";", "SELECT a FROM t WHERE 'long literal that is cut",
        "SELECT a;;", "SELECT 'x\ny\n", "SELECT a FROM\n\n\n WHERE",
        // Errors by the grammar's actions.
        "CREATE TABLE t (a INT NULL NOT NULL)", "COPY t FROM 'f' (FORMAT CSV, FORMAT TBL)", "COPY t TO 'f' (DELIMITER 'a', DELIMITER 'b')", "SELECT INTERVAL 'x'", "SELECT DATE '2020'", "CREATE TABLE t FROM CSV FILE 'x'", "IMPORT FROM X FILE 'f' INTO t",
        "SELECT 99999999999999999999", "SELECT $", std::string("SELECT a\0b", 10), std::string("SELECT '\0'", 10), "SELECT \xff", "SELECT " + std::string(300, '('), "SELECT " + std::string(120, '(') + "a" + std::string(120, ')'),
        // What grows buffers.
        "SELECT '" + std::string(5000, 's') + "'", "SELECT " + std::string(5000, 'i'), "SELECT \"" + std::string(5000, 'q') + "\"", "SELECT '" + std::string(20000, '\''), "SELECT a" + std::string(20000, ' ') + "b c d", std::string(3000, '\n') + "SELECT $",
        // Valid ones.
        "SELECT 'x'", "SELECT ''", "SELECT 'a''b', 'c'", "SELECT ?", "SELECT ?, a FROM t WHERE b = ? AND c IN (?, ?); DELETE FROM t WHERE ?", "SELECT 1.5, 2.25, 100", "SELECT a AS b FROM t AS u (c, d)", "SELECT a -- 'c\n FROM t",
        "COPY t FROM 'f' (FORMAT CSV, DELIMITER ';', NULL 'n', QUOTE 'q')", "COPY t FROM 'f.tbl'", "COPY t TO 'f.bin' (ENCODING 'e')", "IMPORT FROM TBL FILE 'f' INTO t", "SELECT INTERVAL '3 days', DATE '2020-02-29'", "BEGIN", "SHOW TABLES",
        "SELECT CURRENT_ROW, NULLS_FIRST FROM t ORDER BY a NULLS FIRST", "WITH w AS (SELECT a) SELECT b FROM w FOR UPDATE OF w NOWAIT", "PREPARE p FROM 'SELECT ''?'''", "EXECUTE p (1, 'x')",
        "CREATE TABLE t (a DECIMAL(3, 1) NOT NULL UNIQUE, b VARCHAR(5) NULL, PRIMARY KEY (a), FOREIGN KEY (b) REFERENCES u (c))", "SELECT sum(a) OVER (PARTITION BY b ORDER BY c ROWS BETWEEN 1 PRECEDING AND CURRENT ROW) FROM t WITH HINT (NO_CACHE)",
        "SELECT -1, - 1, -9223372036854775808, 9223372036854775807, 007",
        // Almost the same as others.
        "SELECT X", "SELECT \"X\"", "SELECT x", "SELECT y", "SELECT 'X'", "SELECT 1.50", "SELECT 1.5", "SELECT a AS B FROM T AS U (C, D)", "PREPARE P FROM 'select ?'", "SELECT '" + std::string(4999, 's') + "t'", "SELECT " + std::string(4999, 'i') + "J", "SELECT a FROM t LIMIT 1", "SELECT a FROM t LIMIT 2",
        "SELECT a\nFROM t LIMIT 1", " SELECT X", "SELECT X;", "SELECT X, Y", "SELECT X; SELECT Y"};
    for (auto& t : constructs(ALL_KINDS)) r.push_back(join(t));
    GenOptions o;
    for (auto& t : bases(ALL_KINDS, o, 1)) r.push_back(join(t));
    o.full = true;
    for (auto& t : bases(ALL_KINDS, o, 0)) {
      r.push_back(join(t));
      r.push_back(join(Tokens(t.begin(), t.begin() + long(t.size() / 2))));
    }
    // What the sources themselves distinguish.
    for (auto& s : constant_samples()) r.push_back(s);
    return r;
  }();
  return all;
}

// The outcome of a text as the first call of a process.
struct Pristine {
  bool valid = false;
  std::string full, statements, tokens, printed;
  size_t size = 0, parameters = 0;
};
std::string all_of(SQLParserResult& r) {
  std::string s = impl::dump(r);
  for (auto* p : r.parameters()) s += "\nparameter " + std::to_string(p->ival);
  return s;
}
std::string token_text(const std::vector<int16_t>& t, size_t from) {
  std::string s;
  for (size_t i = from; i < t.size(); ++i) s += std::to_string(t[i]) + " ";
  return s;
}
std::string print(SQLParserResult& r) {
  static Capture c;
  c.text.clear();
  auto* old = std::cout.rdbuf(&c);
  for (auto* s : r.getStatements()) hsql::printStatementInfo(s);
  std::cout.rdbuf(old);
  return c.text;
}
const Pristine& pristine(size_t t) {
  static std::map<size_t, Pristine> known;
  auto i = known.find(t);
  if (i != known.end()) return i->second;
  Pristine p;
  auto one = [&](const std::function<std::string()>& f) {
    const std::string d = forked([&](Shared* m) {
      const std::string s = squeeze(f());
      m->size = std::min(s.size(), sizeof m->data);
      memcpy(m->data, s.data(), m->size);
    });
    return d.empty() ? std::string(memory()->data, memory()->size) : "! " + d;
  };
  const std::string& text = texts()[t];
  p.full = one([&] {
    SQLParserResult r;
    SQLParser::parse(text, &r);
    return all_of(r);
  });
  p.valid = p.full.compare(0, 5, "valid") == 0;
  const std::string counts = one([&] {
    SQLParserResult r;
    SQLParser::parse(text, &r);
    return std::to_string(r.size()) + " " + std::to_string(r.parameters().size());
  });
  p.size = size_t(atol(counts.c_str()));
  p.parameters = size_t(atol(counts.c_str() + counts.find(' ') + 1));
  p.tokens = one([&] {
    std::vector<int16_t> v;
    SQLParser::tokenize(text, &v);
    return token_text(v, 0);
  });
  p.printed = one([&] {
    SQLParserResult r;
    SQLParser::parse(text, &r);
    return print(r);
  });
  return known[t] = p;
}

struct Filled {
  std::string full, tokens;
};
const Filled& filled(size_t t) {
  static std::map<size_t, Filled> known;
  auto i = known.find(t);
  if (i != known.end()) return i->second;
  std::string text = texts()[t];
  text.resize((text.size() + 63) / 64 * 64, ' ');
  Filled f;
  auto one = [&](const std::function<std::string()>& g) {
    const std::string d = forked([&](Shared* m) {
      const std::string s = squeeze(g());
      m->size = std::min(s.size(), sizeof m->data);
      memcpy(m->data, s.data(), m->size);
    });
    return d.empty() ? std::string(memory()->data, memory()->size) : "! " + d;
  };
  f.full = one([&] {
    SQLParserResult r;
    SQLParser::parse(text, &r);
    return all_of(r);
  });
  f.tokens = one([&] {
    std::vector<int16_t> v;
    SQLParser::tokenize(text, &v);
    return token_text(v, 0);
  });
  return known[t] = f;
}

// Operations of a history: a letter and the number of the text.
//   p parse into a new result         r parse into the one that is reset in between    k into the one that is never reset
//   t tokenize behind earlier tokens  s parse and print                                h parse in a thread of its own
//   o parse into a new result that stays alive
//   b tokenize, then parse, out of a buffer that is used for every such call; the text is filled up with blanks to a
//     multiple of 64 bytes, so that texts of the same length follow each other at the same place
struct History {
  SQLParserResult used, kept;
  std::vector<std::string> kept_dumps;
  size_t kept_parameters = 0;
  std::vector<int16_t> tokens;
  std::vector<std::pair<std::unique_ptr<SQLParserResult>, size_t>> alive;
  std::string buffer;

  static std::string differs(const char* what, const std::string& expected, const std::string& whole) {
    const std::string got = squeeze(whole);
    return expected == got ? "" : std::string(what) + " differs from that in a fresh process\nexpected " + expected.substr(0, 2500) + "\ngot " + got.substr(0, 2500);
  }

  std::string step(char op, size_t t) {
    const Pristine& p = pristine(t);
    const std::string& text = texts()[t];
    switch (op) {
      case 'p': {
        SQLParserResult r;
        SQLParser::parse(text, &r);
        return differs("the result", p.full, all_of(r));
      }
      case 'h': {
        std::string got;
        std::thread([&] {
          SQLParserResult r;
          SQLParser::parse(text, &r);
          got = all_of(r);
        }).join();
        return differs("the result in another thread", p.full, got);
      }
      case 'r': {
        used.reset();
        SQLParser::parse(text, &used);
        return differs("the result in a reset object", p.full, all_of(used));
      }
      case 'o': {
        alive.emplace_back(std::make_unique<SQLParserResult>(), t);
        SQLParser::parse(text, alive.back().first.get());
        return differs("the result", p.full, all_of(*alive.back().first));
      }
      case 'b': {
        if (buffer.capacity() < 70000) buffer.reserve(70000);
        buffer.assign(text);
        buffer.resize((text.size() + 63) / 64 * 64, ' ');
        std::vector<int16_t> v;
        SQLParser::tokenize(buffer, &v);
        SQLParserResult r;
        SQLParser::parse(buffer, &r);
        const Filled& f = filled(t);
        std::string d = differs("the token list", f.tokens, token_text(v, 0));
        return d.empty() ? differs("the result", f.full, all_of(r)) : d;
      }
      case 's': {
        SQLParserResult r;
        SQLParser::parse(text, &r);
        std::string d = differs("the printed text", p.printed, print(r));
        return d.empty() ? differs("the result behind printing", p.full, all_of(r)) : d;
      }
      case 't': {
        const size_t n = tokens.size(), from = n > 500 ? n - 500 : 0;
        const std::string before = token_text(tokens, from);
        if (!SQLParser::tokenize(text, &tokens)) return "tokenize returned false";
        if (tokens.size() < n || token_text(std::vector<int16_t>(tokens.begin() + long(from), tokens.begin() + long(n)), 0) != before) return "tokenize changed what the vector held";
        std::string d = differs("the token list", p.tokens, token_text(tokens, n));
        if (tokens.size() > 200000) tokens.clear();
        return d;
      }
      case 'k': {
        SQLParserResult alone;
        SQLParser::parse(text, &kept);
        if (kept.isValid() != p.valid) return "validity of a text differs when parsed into a result that holds something";
        if (!kept.errorMsg() != p.valid) return "error message of a text differs when parsed into a result that holds something";
        std::string error = p.full.substr(0, p.full.find(" parameters="));
        std::string got = impl::dump(kept);
        if (!p.valid) {
          std::string d = differs("the error", error, got.substr(0, got.find(" parameters=")));
          if (!d.empty()) return d;
        }
        if (kept.size() != kept_dumps.size() + p.size) return "a result that holds " + std::to_string(kept_dumps.size()) + " statements has " + std::to_string(kept.size()) + " after parsing " + std::to_string(p.size) + " more";
        if (kept.parameters().size() != kept_parameters + p.parameters) return "a result that holds " + std::to_string(kept_parameters) + " parameters has " + std::to_string(kept.parameters().size()) + " after parsing " + std::to_string(p.parameters) + " more";
        for (size_t i = 0; i < kept_dumps.size(); ++i)
          if (impl::dump(kept.getStatement(i), true) != kept_dumps[i]) return "a statement that the result held has changed\nexpected " + kept_dumps[i] + "\ngot " + impl::dump(kept.getStatement(i), true);
        std::string added;
        for (size_t i = kept_dumps.size(); i < kept.size(); ++i) {
          added += "\n" + impl::dump(kept.getStatement(i), true);
        }
        for (size_t i = kept_dumps.size(); i < kept.size(); ++i) kept_dumps.push_back(impl::dump(kept.getStatement(i), true));
        kept_parameters = kept.parameters().size();
        if (p.valid) {
          std::string all = p.full.substr(0, p.full.find("\nparameter ") == std::string::npos ? p.full.size() : p.full.find("\nparameter "));
          std::string d = differs("the statements", all.substr(all.find('\n')), added);
          if (!d.empty()) return d;
        }
        if (kept.size() > 12) {
          kept.reset();
          kept_dumps.clear();
          kept_parameters = 0;
        }
        return "";
      }
    }
    return "?";
  }
  std::string end() {
    for (auto& a : alive) {
      std::string d = differs("a result that stayed alive", pristine(a.second).full, all_of(*a.first));
      if (!d.empty()) return d;
    }
    return "";
  }
};

}  // namespace

// args: the history: "p12 t3 ...", a number with x in front repeats the rest of the word: "x100p3".
std::string check(const Case& c) {
  std::vector<std::pair<char, size_t>> ops;
  std::istringstream in(c.args[0]);
  for (std::string w; in >> w;) {
    size_t n = 1;
    if (w[0] == 'x') {
      n = size_t(atol(w.c_str() + 1));
      w = w.substr(w.find_first_not_of("0123456789", 1));
    }
    const size_t t = size_t(atol(w.c_str() + 1));
    if (t >= texts().size()) return "";
    pristine(t);
    if (w[0] == 'b') filled(t);
    for (size_t i = 0; i < n; ++i) ops.emplace_back(w[0], t);
  }
  if (!ops.empty()) Engine::outcome(pristine(ops.back().second).full);
  return forked([&](Shared* m) {
    std::string d;
    {
      History h;
      for (size_t i = 0; i < ops.size() && d.empty(); ++i) {
        d = h.step(ops[i].first, ops[i].second);
        if (!d.empty()) d = "call " + std::to_string(i + 1) + " (" + ops[i].first + " " + ref::quote(texts()[ops[i].second].substr(0, 500)) + "): " + d;
      }
      if (d.empty()) d = h.end();
    }
    d = d.substr(0, sizeof m->detail - 1);
    memcpy(m->detail, d.c_str(), d.size() + 1);
  });
}

void explore(Engine& e) {
  const size_t n = texts().size();
  const size_t special = 78;  // the hand-written ones, about
  const int deep = e.thorough ? 1 : 0;
  auto op = [](char o, size_t t) { return std::string(1, o) + std::to_string(t) + " "; };
  // Pairs in fresh processes.
  for (size_t a = 0; a < special; ++a)
    for (size_t b = 0; b < (deep ? n : special); ++b) {
      if (!e.mine()) continue;
      for (const char* k : {"pp", "rr", "kk", "tp", "pt", "sp", "hp"}) e.run(Case("pairs in fresh processes", op(k[0], a) + op(k[1], b)));
      if (deep)
        for (const char* k : {"ss", "tt", "kp", "ph", "st", "oo", "pk", "ts"}) e.run(Case("pairs in fresh processes", op(k[0], a) + op(k[1], b)));
    }
  // All pairs of texts next to each other, in one process per first text.
  for (size_t a = 0; a < n; ++a) {
    for (const char* k : {"pp", "rr", "kk", "tp", "st", "bb"}) {
      if (!e.mine()) continue;
      std::string h;
      const size_t step = deep || a < special ? 1 : 4;
      for (size_t b = a % step; b < n; b += step) h += op(k[0], a) + op(k[1], b);
      e.run(Case("all pairs in sequence", h));
    }
  }
  // All triples of the texts that leave something behind: sequences in which every triple occurs.
  const size_t m = deep ? special : 44;
  for (size_t a = 0; a < m; ++a)
    for (size_t b = 0; b < m; ++b) {
      if (!e.mine()) continue;
      std::string h;
      static const char kinds[] = "prkptsrbk";
      for (size_t c = 0; c < m; ++c) h += op(kinds[c % 9], a) + op(kinds[(c / 3 + 1) % 9], b) + op(kinds[(c * 5 + 2) % 9], c);
      e.run(Case("all triples in sequence", h));
    }
  // The same call very often, then others.
  std::vector<size_t> counts = deep ? std::vector<size_t>{17, 70, 130, 260, 1030, 4100} : std::vector<size_t>{17, 70, 260, 1030};
  for (size_t k : constant_numbers())
    if (k > 2 && k < 10000 && counts.size() < 24) counts.push_back(k);
  for (size_t a = 0; a < n; ++a) {
    if (!e.mine()) continue;
    const size_t size = texts()[a].size();
    if (!deep && a >= special && a % 4) continue;
    for (size_t k : counts) {
      if (k * size > (deep ? 20000000u : 1000000u)) continue;
      // Before: results that hold something when the many calls are over. Behind: failing ones first, then valid ones.
      const std::string before = "k40 k36 r40 o40 ", others = "k4 k0 r4 p36 t37 s40 r41 p0 h36 k3 p24 t4 k40";
      for (const char* o : {"p", "r", "t", "k"}) e.run(Case("many times", before + "x" + std::to_string(k) + op(o[0], a) + others));
      if (k < 1000) e.run(Case("many times", "x" + std::to_string(k) + op('p', a) + "p36 t37 s40 r41 p0 h36 k3 p24"));
      if (k <= 260) e.run(Case("many times", "x" + std::to_string(k) + op('o', a) + others));
      if (k <= 17 || (deep && k <= 260)) e.run(Case("many times", "x" + std::to_string(k) + op('h', a) + others));
      if (k <= 17) e.run(Case("many times", "x" + std::to_string(k) + op('s', a) + others));
    }
  }
  for (size_t a = 0; a < special; ++a)
    for (char o : std::string("prt")) {
      if (!e.mine() || texts()[a].size() > (deep ? 200u : 40u) || (!deep && o != 'p' && a % 4 != 0)) continue;
      e.run(Case("many times", "x66000" + op(o, a) + "p36 t37 s40 r41 p0 h36 k3 p24 t4"));
    }
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["calls"] = "parse into new, reset, non-empty and living results, in other threads, tokenize, print, parse and tokenize out of one buffer; " + std::to_string(texts().size()) + " texts, valid and failing everywhere";
  b["pairs"] = thorough ? "78 x all texts in fresh processes, 15 kinds; all pairs in sequence, 6 kinds" : "78 x 78 texts in fresh processes, 7 kinds; all pairs of 78 x all and every fourth other in sequence, 6 kinds";
  b["triples"] = thorough ? "all of 78 texts in changing kinds" : "all of 44 texts in changing kinds";
  b["many times"] = thorough ? "17 to 4100 times every text, 66000 times 78 texts" : "17, 70, 260 and 1030 times 78 texts and every fourth other, 66000 times the short ones of 78";
}
