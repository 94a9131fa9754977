// Concurrent calls on different results: the calls of C15 and more, running freely, under ThreadSanitizer.
#include <atomic>
#include <cstring>
#include <iostream>
#include <map>
#include <thread>

#include "aspects.h"
#include "explore.h"
#include "util/sqlhelper.h"

const char* const kProperty = "C15";

using hsql::SQLParser;
using hsql::SQLParserResult;

namespace {
struct Null : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

std::string perform(const std::string& text) {
  std::string out;
  {
    SQLParserResult r;
    SQLParser::parse(text, &r);
    out = impl::dump(r);
    for (auto* s : r.getStatements()) hsql::printStatementInfo(s);
  }
  std::vector<int16_t> tokens;
  SQLParser::tokenize(text, &tokens);
  for (int t : tokens) out += " " + std::to_string(t);
  return out;
}
}  // namespace

// args: the text of each thread; all threads start at once.
std::string check(const Case& c) {
  static Null null;
  std::cout.rdbuf(&null);
  const size_t n = c.args.size();
  std::vector<std::string> first(n), second(n);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> threads;
  for (size_t i = 0; i < n; ++i)
    threads.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
      first[i] = perform(c.args[i]);
      second[i] = perform(c.args[(i + 1) % n]);
    });
  for (auto& t : threads) t.join();
  for (size_t i = 0; i < n; ++i) {
    const std::string alone = perform(c.args[i]);
    if (first[i] != alone) return "first call of thread " + std::to_string(i) + " returns something else than alone\nexpected " + alone + "\ngot " + first[i];
    const std::string other = perform(c.args[(i + 1) % n]);
    if (second[i] != other) return "second call of thread " + std::to_string(i) + " returns something else than alone\nexpected " + other + "\ngot " + second[i];
    Engine::outcome(alone);
  }
  return "";
}

void explore(Engine& e) {
  GenOptions o;
  o.params = true;
  Tokens texts;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.params = !full;
    for (auto& t : bases(ALL_KINDS, o, full && !e.thorough ? 0 : 1)) {
      texts.push_back(join(t));
      if (texts.size() % 5 == 0) texts.push_back(texts.back() + " 'x");
      if (texts.size() % 7 == 0) texts.push_back(texts.back() + " $");
    }
  }
  // Each text against itself and against others: 3 threads at a time. Every worker begins elsewhere, so that the
  // first use of things is seen with different texts.
  for (size_t i = 0; i < texts.size(); ++i) {
    if (!e.mine()) continue;
    e.run(Case("free threads", std::vector<std::string>{texts[i], texts[i], texts[(i * 31 + 7) % texts.size()]}));
  }
}

void bounds(std::map<std::string, std::string>& b, bool) {
  b["free threads (ThreadSanitizer)"] = "one free run of 3 threads for every derivation with up to 1 non-default choice and erroneous variants of them: not exhaustive over schedules";
}
