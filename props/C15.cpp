// Concurrent calls on different results do not affect each other: all schedules of two and three threads with a bounded
// number of preemptions, each in a fresh process, so that the first use of everything is in it.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>

#include "aspects.h"
#include "explore.h"
#include "threads.h"
#include "util/sqlhelper.h"

const char* const kProperty = "C15";

using hsql::SQLParser;
using hsql::SQLParserResult;

namespace {

// What one call does: a letter (p parse, t tokenize, s parse and print, a parse and use everything else) and the text.
std::string perform(const std::string& op);

thread_local std::string* sink;
struct Dispatch : std::streambuf {
  int overflow(int c) override {
    sched::Quiet quiet;
    if (c != EOF && sink) *sink += char(c);
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    sched::Quiet quiet;
    if (sink) sink->append(s, size_t(n));
    return n;
  }
};

std::string dump(SQLParserResult& r) {
  sched::Quiet quiet;
  return impl::dump(r);
}

std::string perform(const std::string& op) {
  const std::string text = op.substr(1);
  std::string out;
  if (op[0] == 't') {
    std::vector<int16_t> tokens;
    out = SQLParser::tokenize(text, &tokens) ? "true" : "false";
    for (int t : tokens) out += " " + std::to_string(t);
    return out;
  }
  SQLParserResult r;
  out = SQLParser::parse(text, &r) ? "true " : "false ";
  out += dump(r);
  for (auto* p : r.parameters()) out += "\nparameter " + std::to_string(p->ival);
  if (op[0] == 'a') {  // every accessor, moves, and the caller's statements
    SQLParserResult second(std::move(r));
    r = std::move(second);
    std::ostringstream s;
    const char* name;
    impl::Visitor v;
    auto type = [&](const hsql::ColumnType& t) { s << t << (t == t) << (t != t); };
    v.expr = [&](const hsql::Expr* e) {
      name = e->getName();
      s << e->isLiteral() << e->hasAlias() << e->hasTable() << e->isType(hsql::kExprStar) << (name ? name : "-");
      if (e->type == hsql::kExprCast) type(e->columnType);
    };
    v.table = [&](const hsql::TableRef* t) {
      name = t->getName();
      s << t->hasSchema() << (name ? name : "-");
    };
    for (auto* st : r.releaseStatements()) {
      s << st->type() << st->isType(hsql::kStmtSelect) << st->is(hsql::kStmtShow);
      impl::visit(st, v);
      if (st->type() == hsql::kStmtCreate && static_cast<hsql::CreateStatement*>(st)->columns)
        for (auto* c : *static_cast<hsql::CreateStatement*>(st)->columns) type(c->type);
      delete st;
    }
    r.reset();
    out += s.str() + dump(r);
  }
  if (op[0] == 's') {
    std::string printed;
    sink = &printed;
    for (auto* s : r.getStatements()) hsql::printStatementInfo(s);
    sink = nullptr;
    out += "\n" + printed;
    out += "\n" + dump(r);
  }
  return out;
}

struct Shared {
  char detail[4096];
  long points[4];
  long shared;
  size_t size;
  char data[1 << 20];
};
Shared* memory() {
  static auto* s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return s;
}

// Runs f in a fresh process; returns what went wrong.
template <class F>
std::string forked(F f) {
  auto* m = memory();
  m->detail[0] = 0;
  m->size = 0;
  const pid_t p = fork();
  if (p == 0) {
    alarm(20);
    f(m);
    _exit(0);
  }
  int status = 0;
  while (waitpid(p, &status, 0) < 0) {
  }
  if (m->detail[0]) return m->detail;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return "";
  if (WIFEXITED(status) && WEXITSTATUS(status) == 43) return "deadlock";
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) return "the calls do not end";
  return "the process crashed (" + std::to_string(WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status)) + ")";
}

// What the call returns alone, in a process of its own.
const std::string& alone(const std::string& op) {
  static std::map<std::string, std::string> known;
  auto i = known.find(op);
  if (i != known.end()) return i->second;
  std::string r;
  const std::string d = forked([&](Shared* m) {
    static Dispatch dispatch;
    std::cout.rdbuf(&dispatch);
    const std::string s = squeeze(perform(op));
    m->size = std::min(s.size(), sizeof m->data);
    memcpy(m->data, s.data(), m->size);
  });
  r = d.empty() ? std::string(memory()->data, memory()->size) : "! " + d;
  return known[op] = r;
}

std::vector<std::string> split(const std::string& s, char at) {
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == at)
      r.emplace_back();
    else
      r.back() += c;
  }
  return r;
}

// args: the operations of each thread (several separated by \x01), last the schedule: "thread:points ..." and, at its
// start, "coarse" for points at shared accesses only.
std::string execute(const Case& c) {
  std::vector<std::vector<std::string>> ops;
  for (size_t i = 0; i + 1 < c.args.size(); ++i) ops.push_back(split(c.args[i], '\x01'));
  std::vector<sched::Segment> plan;
  bool coarse = false;
  std::istringstream in(c.args.back());
  for (std::string w; in >> w;) {
    if (w == "coarse") {
      coarse = true;
      continue;
    }
    plan.push_back({atoi(w.c_str()), atol(w.c_str() + w.find(':') + 1)});
  }
  for (auto& t : ops)
    for (auto& o : t) alone(o);
  return forked([&](Shared* m) {
    static Dispatch dispatch;
    std::cout.rdbuf(&dispatch);
    std::vector<std::vector<std::string>> got(ops.size());
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < ops.size(); ++i) {
      got[i].resize(ops[i].size());
      bodies.push_back([&, i] {
        for (size_t k = 0; k < ops[i].size(); ++k) got[i][k] = perform(ops[i][k]);
      });
    }
    const sched::Report r = sched::run(bodies, plan, coarse);
    for (size_t i = 0; i < r.points.size(); ++i) m->points[i] = r.points[i];
    m->shared = r.shared;
    std::string d = r.problem;
    for (size_t i = 0; i < ops.size() && d.empty(); ++i)
      for (size_t k = 0; k < ops[i].size() && d.empty(); ++k)
        if (squeeze(got[i][k]) != alone(ops[i][k])) d = "thread " + std::to_string(i) + ", call " + std::to_string(k + 1) + " returns something else than alone\nexpected " + alone(ops[i][k]) + "\ngot " + got[i][k];
    d = d.substr(0, sizeof m->detail - 1);
    memcpy(m->detail, d.c_str(), d.size() + 1);
  });
}

}  // namespace

std::string check(const Case& c) {
  const std::string d = execute(c);
  if (d.empty()) {
    std::string s;
    for (size_t i = 0; i + 1 < c.args.size(); ++i) s += std::to_string(memory()->points[i]) + alone(split(c.args[i], '\x01').back()) + "|";
    Engine::outcome(s);
  }
  return d;
}

void explore(Engine& e) {
  const Tokens texts = {"SELECT a, 'x''y' FROM t -- c\n WHERE b = 1.5 AND \"q\" > 2;",
                        "SELECT 'zzz', 'uu' FROM t",
                        "SELECT 'x",
                        "INSERT INTO t VALUES (?, 'a''b', ?)",
                        "SELECT a FROM WHERE",
                        "CREATE TABLE t (a INT NULL NOT NULL)",
                        "COPY t FROM 'f' (FORMAT CSV, DELIMITER ';', QUOTE 'q')",
                        "SELECT INTERVAL '3 days', DATE '2020-01-02'",
                        "CREATE TABLE s.t (a DECIMAL(3, 2) NOT NULL, PRIMARY KEY (a))",
                        "WITH w AS (SELECT 1) SELECT * FROM w ORDER BY a LIMIT 3; DELETE FROM t WHERE ?"};
  Tokens ops;
  for (auto& t : texts) {
    ops.push_back("p" + t);
    ops.push_back("t" + t);
  }
  for (const char* t : {"SELECT a, (SELECT 'b') FROM t JOIN u ON a = 1 WHERE b IN (1, 2)", "INSERT INTO t VALUES (1, 'x')", "CREATE TABLE t (a INT, b VARCHAR(3))", "COPY t TO 'f'"}) ops.push_back(std::string("s") + t);
  // Points of each call.
  auto points = [&](const std::string& op, bool coarse) {
    const std::string d = execute(Case("", {op, std::string(coarse ? "coarse" : "")}));
    return d.empty() ? memory()->points[0] : 50;
  };
  std::map<std::string, long> fine, few;
  for (auto& o : ops) {
    fine[o] = points(o, false);
    few[o] = points(o, true);
  }
  // One preemption: the first thread is interrupted at each point, the second one runs to its end.
  const size_t n = ops.size();
  for (size_t a = 0; a < n; ++a) {
    for (size_t b = 0; b < n; ++b) {
      if (!e.thorough && a != b && (a * 3 + b) % 4) continue;
      for (long i = 1; i <= fine[ops[a]]; ++i)
        if (e.mine()) e.run(Case("one preemption", std::vector<std::string>{ops[a], ops[b], "0:" + std::to_string(i) + " 1:-1"}));
      if (!e.thorough && a != b && (a * 3 + b) % 28) continue;
      for (long i = 1; i <= few[ops[a]]; ++i)
        for (long j = 0; j <= few[ops[b]]; ++j)
          if (e.mine()) e.run(Case("two preemptions at shared accesses", std::vector<std::string>{ops[a], ops[b], "coarse 0:" + std::to_string(i) + " 1:" + std::to_string(j ? j : -1) + " 0:-1"}));
    }
  }
  // Every construct against itself and others: in turn, which the race detector decides, and interrupted at each access
  // to what is not the thread's own.
  std::vector<std::string> every;
  for (auto& t : constructs(ALL_KINDS)) every.push_back(join(t));
  GenOptions o;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (auto& t : bases(ALL_KINDS, o, e.thorough || !full ? 1 : 0)) every.push_back(join(t));
  }
  for (size_t i = 0; i < every.size(); ++i) {
    if (!e.mine()) continue;
    // A call that has been made before in the thread, interrupted by another call.
    for (const std::string& x : {"s" + every[i], "t" + every[i]}) {
      const std::string twice = x + "\x01" + x, y = x[0] + every[(i + 1) % every.size()];
      const long shared = points(twice, true);
      e.run(Case("repeated constructs", std::vector<std::string>{twice, y, "0:-1 1:-1"}));
      for (long k = 1; k <= std::min(shared, 60L); ++k) {
        e.run(Case("repeated constructs", std::vector<std::string>{twice, y, "coarse 0:" + std::to_string(k) + " 1:-1"}));
        e.run(Case("repeated constructs", std::vector<std::string>{y + "\x01" + x, twice, "coarse 0:" + std::to_string(k) + " 1:-1"}));
      }
    }
    const std::string cut = every[i].substr(0, every[i].size() / 2);
    for (const std::string& x : {"s" + every[i], "a" + every[i], "p" + cut + " $", "t" + every[i]}) {
      const std::string &same = x, next = (i % 2 ? "s" : "a") + every[(i + 1) % every.size()], &far = ops[i % n];
      const long shared = points(x, true);
      for (const std::string* y : {&same, &next, &far}) {
        e.run(Case("constructs", std::vector<std::string>{x, *y, "0:-1 1:-1"}));
        for (long k = 1; k <= std::min(shared, 40L); ++k) e.run(Case("constructs", std::vector<std::string>{x, *y, "coarse 0:" + std::to_string(k) + " 1:-1"}));
      }
    }
  }
  // Two preemptions: the second thread is interrupted as well.
  for (size_t a = 0; a < n; ++a)
    for (size_t b = 0; b < n; ++b) {
      if (e.thorough ? (a * 5 + b) % 12 : (a * 7 + b) % 24 || a == b) continue;
      const long step = e.thorough ? 2 : 9;
      for (long i = 1; i <= fine[ops[a]]; i += step)
        for (long j = 1; j <= fine[ops[b]]; j += step)
          if (e.mine()) e.run(Case("two preemptions", std::vector<std::string>{ops[a], ops[b], "0:" + std::to_string(i) + " 1:" + std::to_string(j) + " 0:-1"}));
    }
  // The same call again, interrupted at each point by another one.
  for (size_t a = 0; a < n; ++a)
    for (size_t k = 0; k < (e.thorough ? n : 1); ++k) {
      const std::string &x = ops[a], &y = ops[(a + 2 + k * 3) % n];
      for (long i = fine[x]; i <= 2 * fine[x] + 2; i += e.thorough ? 1 : 3)
        if (e.mine()) e.run(Case("a call again", std::vector<std::string>{x + "\x01" + x, y, "0:" + std::to_string(i) + " 1:-1"}));
    }
  // Three threads, and threads with two calls.
  for (size_t a = 0; a < n; ++a) {
    const std::string &x = ops[a], &y = ops[(a + 1) % n], &z = ops[(a + 5) % n];
    const long step = e.thorough ? 1 : 5;
    for (long i = 1; i <= fine[x]; i += step) {
      if (e.mine()) {
        e.run(Case("three threads", std::vector<std::string>{x, y, z, "0:" + std::to_string(i) + " 1:" + std::to_string(1 + i % fine[y]) + " 2:-1 0:-1"}));
        e.run(Case("three threads", std::vector<std::string>{x, y, z, "0:" + std::to_string(i) + " 1:" + std::to_string(1 + (i * 7) % fine[y]) + " 2:-1 1:-1"}));
      }
      if (e.mine()) e.run(Case("two calls each", std::vector<std::string>{x + "\x01" + y, z + "\x01" + x, "0:" + std::to_string(i) + " 1:" + std::to_string(fine[z] + i % fine[x]) + " 0:-1"}));
      if (e.mine()) e.run(Case("two calls each", std::vector<std::string>{z + "\x01" + x, y + "\x01" + x, "0:" + std::to_string(fine[z] + i) + " 1:-1"}));
    }
  }
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["calls"] = "parse and tokenize of 10 texts, parse and print of 4; every schedule starts from a fresh process";
  b["one preemption"] = thorough ? "all ordered pairs of calls, at every point (function entries, allocations, shared accesses, synchronisation)" : "every fourth ordered pair of calls, at every point (function entries, allocations, shared accesses, synchronisation)";
  b["constructs"] = "every construct (226) and derivation with up to 1 non-default choice (full profile, quick: 0): parsed and printed, parsed and used through every accessor, cut in the middle, tokenized; against itself, the next one and one of the calls above; in turn, and preempted at each of up to 40 accesses to what is not the thread's own";
  b["repeated constructs"] = "every construct and derivation twice in one thread, parsed and printed, and tokenized; preempted by another one at each of up to 60 accesses to what is not the thread's own";
  b["a call again"] = thorough ? "every call a second time, at every point interrupted by every other" : "every call a second time, at every third point interrupted by one other";
  b["two preemptions"] = thorough ? "every 12th pair, at every second pair of points; all pairs at all shared accesses" : "every 24th pair, at every ninth point each; equal calls and every 28th pair at all shared accesses";
  b["three threads"] = "3 calls at a time; preempted at every point of the first (quick: every fifth)";
}
