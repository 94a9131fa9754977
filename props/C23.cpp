// Time and memory grow in proportion to the text.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

#include "aspects.h"
#include "cost.h"
#include "constants.h"
#include "explore.h"
#include "families.h"
#include "util/sqlhelper.h"

const char* const kProperty = "C23";

using hsql::SQLParser;
using hsql::SQLParserResult;

namespace {

const char* const kOps[] = {"tokenize", "parse", "print", "reset", "parse again", "move", "destroy", "reset the other"};
enum { kOpCount = 8 };
struct Costs {
  Cost op[kOpCount];
  uint64_t printed = 0;
  size_t length = 0;
};

// Takes what is printed, at no cost of its own.
struct Sink : std::streambuf {
  uint64_t printed = 0;
  int overflow(int c) override {
    ++printed;
    return c;
  }
  std::streamsize xsputn(const char*, std::streamsize n) override {
    printed += uint64_t(n);
    return n;
  }
};

Costs costs(const std::string& text) {
  Costs c;
  c.length = text.size();
  Sink sink;
  {
    std::vector<int16_t> tokens;
    c.op[0] = cost([&] { SQLParser::tokenize(text, &tokens); });
  }
  auto r = std::make_unique<SQLParserResult>();
  c.op[1] = cost([&] { SQLParser::parse(text, r.get()); });
  std::streambuf* out = std::cout.rdbuf(&sink);
  c.op[2] = cost([&] {
    for (auto* s : r->getStatements()) hsql::printStatementInfo(s);
  });
  std::cout.rdbuf(out);
  c.printed = sink.printed;
  c.op[3] = cost([&] { r->reset(); });
  c.op[4] = cost([&] { SQLParser::parse(text, r.get()); });
  SQLParserResult moved;
  c.op[5] = cost([&] { moved = std::move(*r); });
  c.op[6] = cost([&] { r.reset(); });
  c.op[7] = cost([&] { moved.reset(); });
  return c;
}

// In a thread of its own, so that no buffer the thread keeps is large enough already.
Costs anew(const std::string& text) {
  Costs c;
  std::thread([&] { c = costs(text); }).join();
  return c;
}

// Four times the text costs at most six times as much. Printing indents, so what it prints may grow faster than the text.
const double kFactor = 1.5;
std::string grows(const Costs& a, const Costs& b, double times) {
  static const bool show = getenv("MC_COSTS");
  for (int i = 0; i < kOpCount; ++i) {
    const uint64_t one[] = {a.op[i].work, a.op[i].allocated, a.op[i].peak}, four[] = {b.op[i].work, b.op[i].allocated, b.op[i].peak};
    static const char* const what[] = {"work", "memory in total", "memory at a time"};
    for (int k = 0; k < 3; ++k) {
      if (show) fprintf(stderr, "%.2f %s %s %lu %lu\n", double(four[k]) / double(one[k] + 2000), kOps[i], what[k], (unsigned long)one[k], (unsigned long)four[k]);
      const double output = double(b.printed + 1000) / double(a.printed + 1000), limit = kFactor * (i == 2 && output > times ? output : times);
      if (double(four[k]) > limit * double(one[k] + 2000))
        return std::string(kOps[i]) + ": four times the text costs " + std::to_string(double(four[k]) / double(one[k] + 1)) + " times the " + what[k] + " (" + std::to_string(one[k]) + ", then " + std::to_string(four[k]) + ")";
    }
    // And never more work than some thirty times, nor more memory than some eight times, what the most expensive text
    // costs for each byte now.
    const uint64_t bytes = (i == 2 ? std::max(b.printed, uint64_t(b.length)) : b.length) + 100;
    for (int k = 0; k < 3; ++k)
      if (show) fprintf(stderr, "byte %s %s %.1f\n", kOps[i], what[k], double(four[k]) / double(bytes));
    for (int k = 0; k < 3; ++k)
      if (four[k] > (k ? 1300 : 4000) * bytes) return std::string(kOps[i]) + ": " + std::to_string(b.length) + " bytes of text cost " + std::to_string(four[k]) + " of " + what[k];
    Engine::outcome(std::to_string(four[0]) + " " + std::to_string(four[1]) + " " + std::to_string(four[2]));
  }
  return "";
}

const char* const kEnds[] = {"", " )", " ;", " ; SELECT", " 'x", "\n-- c\n"};

std::string pumped(const std::string& s, long n) {
  const size_t i = s.find('\x01'), j = s.rfind('\x01');
  std::string x = s.substr(0, i);
  for (; n > 0; --n) x.append(s, i + 1, j - i - 1);
  return x + s.substr(j + 1);
}

std::string replaced(std::string s, const std::string& by) {
  for (size_t i; (i = s.find('\x01')) != std::string::npos;) s.replace(i, 1, by);
  return s;
}

}  // namespace

std::string check(const Case& c) {
  const std::string phase = c.phase;
  const auto num = [&](size_t i) { return size_t(atol(c.args[i].c_str())); };
  if (phase == "families") {
    const Family* f = family(c.args[0]);
    const char* end = kEnds[num(2)];
    return grows(anew(f->text(num(1)) + end), anew(f->text(4 * num(1)) + end), 4);
  }
  if (phase == "pairs of families") {
    const Family *f = family(c.args[0]), *g = family(c.args[1]);
    const size_t n = num(2);
    return grows(anew(f->text(f->nested ? 10 : n) + ";" + g->text(g->nested ? 10 : n)), anew(f->text(f->nested ? 10 : 4 * n) + ";" + g->text(g->nested ? 10 : 4 * n)), 4);
  }
  if (phase == "repeated parts" || phase == "lengths" || phase == "layout") return grows(anew(pumped(c.args[0], long(num(1)))), anew(pumped(c.args[0], 4 * long(num(1)))), 4);
  if (phase == "values") {
    // A number costs what its digits cost, whatever its value.
    std::string d = c.args[1];
    for (char& x : d)
      if (x != '.') x = '1';
    return grows(anew(replaced(c.args[0], d)), anew(replaced(c.args[0], c.args[1])), 1);
  }
  if (phase == "calls") {
    // The last call costs as much as the third.
    Costs third, last;
    for (int i = 1; i <= 400; ++i) {
      const int n = int(c.args.size());
      Costs x = costs(c.args[size_t(i % n)]);
      if (i == 3 * n) third = x;
      if (i % n == 0) last = x;
    }
    return grows(third, last, 1);
  }
  return "?";
}

void explore(Engine& e) {
  for (auto& f : families()) {
    const std::string name = std::string(f.nested ? "deep " : "") + f.name;
    for (size_t end = 0; end < sizeof kEnds / sizeof *kEnds; ++end)
      for (size_t n : f.nested ? std::vector<size_t>{4, 8, 15, 30, 60, 250} : std::vector<size_t>{15, 60, 250, 1000, 4000}) {
        if (!e.thorough && n > 250 && end % 2) continue;
        if (!e.thorough && n > 1000) continue;
        if (e.mine()) e.run(Case("families", std::vector<std::string>{name, std::to_string(n), std::to_string(end)}));
      }
  }
  GenOptions o;
  std::vector<Tokens> texts = constructs(ALL_KINDS);
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.params = !full;
    for (auto& t : bases(ALL_KINDS, o, full && !e.thorough ? 0 : 1)) texts.push_back(t);
  }
  auto grow = [&](const char* phase, const std::string& text, const std::vector<size_t>& sizes) {
    for (size_t n : sizes) e.run(Case(phase, text, std::to_string(n)));
  };
  // Every part of up to 8 (thorough 14) tokens that can be repeated, found by trying.
  const std::vector<size_t> times = e.thorough ? std::vector<size_t>{8, 25, 60, 250, 1000} : std::vector<size_t>{8, 60, 250};
  std::set<std::string> seen;
  for (auto& t : texts) {
    if (t.size() > 60 && !e.thorough) continue;
    const bool mine = e.mine();
    for (size_t i = 0; i < t.size(); ++i)
      for (size_t j = i + 1; j <= t.size() && j - i <= (e.thorough ? 14u : 8u); ++j) {
        const std::string part = " " + join(Tokens(t.begin() + long(i), t.begin() + long(j))), before = join(Tokens(t.begin(), t.begin() + long(i))), behind = " " + join(Tokens(t.begin() + long(j), t.end()));
        const bool first = seen.insert((i > 1 ? t[i - 2] : "") + " " + (i ? t[i - 1] : "") + "|" + part + "|" + (j < t.size() ? t[j] : "")).second;
        if (!mine || !(first || e.thorough)) continue;
        if (!ref::parse(before + part + part + behind).valid || !ref::parse(before + part + part + part + behind).valid) continue;
        grow("repeated parts", before + "\x01" + part + "\x01" + behind, times);
      }
  }
  // Every name, string and number, long; and long separators in every gap.
  const std::vector<size_t> lengths = e.thorough ? std::vector<size_t>{60, 250, 1000, 4000, 16000} : std::vector<size_t>{60, 1000};
  static const char* const gaps[] = {" ", "\n", "\r\n", "\t", "--\n", "-- c ' \"\n"};
  for (auto& t : texts) {
    if (!e.mine()) continue;
    for (size_t i = 0; i <= t.size(); ++i) {
      const std::string before = join(Tokens(t.begin(), t.begin() + long(i))) + " ", behind = join(Tokens(t.begin() + long(i), t.end()));
      for (auto* g : gaps)
        if (e.thorough || t.size() < 12) grow("layout", before + "\x01" + g + "\x01 " + behind, lengths);
      if (i == t.size()) break;
      const std::string rest = " " + join(Tokens(t.begin() + long(i) + 1, t.end()));
      const char c = t[i][0];
      if (c == '\'' || c == '"')
        for (const char* x : {"x", " ", "\xc3", ";"}) grow("lengths", before + c + "\x01" + x + "\x01" + t[i].substr(1) + rest, lengths);
      else if (isdigit(c))
        for (const char* x : {"0", "9"}) grow("lengths", before + "\x01" + x + "\x01" + t[i] + rest, lengths);
      else if (islower(c))
        for (const char* x : {"x", "_", "7"}) grow("lengths", before + "a\x01" + x + "\x01" + t[i] + rest, lengths);
    }
  }
  // Every number, and all at once, by other values.
  for (auto& t : texts) {
    if (!e.mine()) continue;
    Tokens all = t;
    size_t numbers = 0;
    auto run = [&](const Tokens& x) {
      for (const char* v : {"2", "9", "10", "99", "100", "255", "256", "1000", "4096", "65535", "65536", "1000000", "16777216", "100000000", "2147483647", "2147483648", "4294967295", "4294967296", "1000000000000", "9223372036854775807", "0.5", "99999999.5", "1000000000.25", "00000001", "0000000000000001"})
        e.run(Case("values", join(x), v));
      for (auto& v : constant_values())
        if (v[0] != '-') e.run(Case("values", join(x), v));
    };
    for (size_t i = 0; i < t.size(); ++i) {
      if (!isdigit(t[i][0])) continue;
      Tokens one = t;
      one[i] = all[i] = "\x01";
      ++numbers;
      run(one);
    }
    if (numbers > 1) run(all);
  }
  // Errors and layout that are no part of a statement.
  for (const char* x : {"(", ")", ";", "'", "''", "\"", "\"a\"", "a", "1", "?", "-", "--", "/", "SELECT", "SELECT (", "SELECT a ;", "; ;", "a .", "a ,", ",", "\x01", "\xff", "NOT", "( SELECT", "CASE", "WITH a AS (", "SELECT a UNION", "1.", ".", "1e", "||", "*/", "/*", "{", "#"})
    for (const char* gap : {"", " ", "\n"})
      for (const char* before : {"", "SELECT ", "SELECT a FROM t WHERE "})
        for (const char* behind : {"", "\n", " )", " SELECT 1"})
          if (e.mine())
            if (*x != 1) grow("layout", std::string(before) + "\x01" + x + gap + "\x01" + behind, times);
  for (auto& x : constant_texts())
    for (const char* before : {"", "SELECT ", "SELECT a FROM t WHERE ", "--", "SELECT '", "SELECT \""})
      for (const char* gap : {"", " ", "\n"})
        for (const char* behind : {"", "\n", " )", " SELECT 1", "'", "\""})
          if (e.mine() && !x.empty() && x[0] != 1) grow("layout", std::string(before) + "\x01" + x + gap + "\x01" + behind, times);
  // Two families in one text.
  for (auto& f : families())
    for (auto& g : families()) {
      if (!e.mine()) continue;
      const std::string a = std::string(f.nested ? "deep " : "") + f.name, b = std::string(g.nested ? "deep " : "") + g.name;
      for (size_t n : {25, 100}) e.run(Case("pairs of families", std::vector<std::string>{a, b, std::to_string(n)}));
      if (e.thorough) e.run(Case("pairs of families", std::vector<std::string>{a, b, "500"}));
    }
  // Many calls.
  for (auto& t : texts) {
    if (!e.mine()) continue;
    e.run(Case("calls", join(t)));
    e.run(Case("calls", join(t) + " )"));
    for (const char* second : {"SELECT a FROM t", ")"}) e.run(Case("calls", join(t), second));
  }
  if (e.mine())
    for (const char* s : {"SELECT a", "SELECT ' x", ""}) e.run(Case("calls", s, s));
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  size_t lists = 0, deep = 0;
  for (auto& f : families()) (f.nested ? deep : lists)++;
  b["families"] = std::to_string(lists) + " repeatable parts and lengths at 5 (quick: 4) sizes up to " + (thorough ? "16000" : "4000") + ", " + std::to_string(deep) + " recursive constructs at 6 depths up to 1000, each with 6 ends of the text (4 of them errors)";
  b["repeated parts"] = std::string("every part of up to ") + (thorough ? "14" : "8") + " tokens of constructs and derivations with 1 non-default choice (full profile, quick: 0) that can be repeated, up to " + (thorough ? "4000" : "1000") + " times";
  b["lengths"] = std::string("every name, number and string of the same texts, and every gap with 6 separators, up to ") + (thorough ? "64000" : "4000") + " characters";
  b["values"] = "every number of the same texts, and all at once, by 25 others: costs as much as a number of as many ones";
  b["layout"] = "35 tokens and errors with 3 gaps behind 3 beginnings and before 4 ends, repeated";
  b["pairs of families"] = "all pairs, both growing";
  b["calls"] = "400 calls for each of the texts, alone, failing, and in turn with 2 others: the last costs as much as the third";
}
