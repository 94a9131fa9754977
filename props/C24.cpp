// A failed allocation is reported and leaves everything usable. Built with AddressSanitizer and UndefinedBehaviorSanitizer.
#include <cstdlib>
#include <cstring>
#include <pthread.h>

#include <memory>
#include <new>

#include "aspects.h"
#include "constants.h"
#include "explore.h"
#include "parser/bison_parser.h"

const char* const kProperty = "C24";

using hsql::SQLParser;
using hsql::SQLParserResult;

namespace {
// Number of allocations until one fails; negative: none does.
long left = -1;
// Whether those behind it fail as well.
bool for_good = false;
bool failed = false;

bool fails() {
  if (left < 0) return false;
  if (left > 0) {
    --left;
    return false;
  }
  failed = true;
  if (!for_good) left = -1;
  return true;
}
}  // namespace

void* operator new(size_t n) {
  if (fails()) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

namespace {

enum End { RETURNED, THREW, THREW_OTHER };

bool new_threads = false;

template <class F>
void on_new_thread(F f) {
  pthread_t t;
  auto run = [](void* p) -> void* {
    (*static_cast<F*>(p))();
    return nullptr;
  };
  if (pthread_create(&t, nullptr, run, &f) == 0) pthread_join(t, nullptr);
}

// Runs f with its k-th allocation failing.
template <class F>
End fail(long k, bool good, F f) {
  if (new_threads) {
    // Nothing is there yet that a thread keeps.
    End e = RETURNED;
    new_threads = false;
    on_new_thread([&] { e = fail(k, good, f); });
    new_threads = true;
    return e;
  }
  End e = RETURNED;
  failed = false;
  for_good = good;
  left = k;
  try {
    f();
  } catch (const std::bad_alloc&) {
    e = THREW;
  } catch (...) {
    e = THREW_OTHER;
  }
  left = -1;
  return e;
}

std::string show(SQLParserResult& r) {
  std::string s = std::string(r.isValid() ? "valid" : "invalid") + " " + std::to_string(r.errorLine()) + ":" + std::to_string(r.errorColumn()) + " " + (r.errorMsg() ? r.errorMsg() : "-") + "\n";
  for (auto* x : r.getStatements()) s += impl::dump(x, true) + "\n";
  for (auto* p : r.parameters()) s += std::to_string(p->ival) + " ";
  return s;
}

const char* const kOther = "SELECT a , ? FROM t WHERE b = 'c' ; INSERT INTO u VALUES ( 1 )";

std::string differ(const std::string& what, const std::string& a, const std::string& b) { return a == b ? "" : what + "\nexpected " + a + "\ngot " + b; }

// One call, with each of its allocations failing. `before` is what the result was used for, and whether it was reset.
std::string call(const std::string& text, const std::string& before, bool reset, bool good) {
  std::string normal, reused;
  {
    SQLParserResult r;
    SQLParser::parse(text, &r);
    normal = show(r);
  }
  SQLParserResult other;
  SQLParser::parse(kOther, &other);
  const std::string others = show(other);
  for (long k = 0;; ++k) {
    std::string d;
    const std::string at = ", when its allocation " + std::to_string(k + 1) + (good ? " and all behind it fail" : " fails");
    {
      SQLParserResult r;
      std::string held;
      if (!before.empty()) {
        SQLParser::parse(before, &r);
        if (reset) r.reset();
        if (!reset)
          for (auto* s : r.getStatements()) held += impl::dump(s, true) + "\n";
      }
      const size_t kept = r.size();
      const End e = fail(k, good, [&] { SQLParser::parse(text, &r); });
      if (!failed) return "";
      if (e == THREW_OTHER) return "parse throws something else than std::bad_alloc" + at;
      const std::string seen = show(r);
      Engine::outcome(seen);
      if (e == RETURNED && r.isValid() && !kept && seen != normal) d = differ("parse returns a wrong result" + at, normal, seen);
      if (e == RETURNED && !r.isValid() && r.size() != kept) d = "parse returns an invalid result with statements" + at;
      if (e == THREW && r.isValid() && !kept && seen != normal) d = differ("parse throws and the result is valid" + at, "an invalid result", seen);
      // What it held is still there.
      std::string now;
      for (size_t i = 0; i < kept && i < r.size(); ++i) now += impl::dump(r.getStatement(i), true) + "\n";
      if (d.empty() && now != held) d = differ("what the result held is changed" + at, held, now);
      if (d.empty()) d = differ("another result is changed" + at, others, show(other));
      if (d.empty()) {
        r.reset();
        if (r.size() || r.isValid() || r.errorMsg() || !r.parameters().empty()) d = "the result cannot be reset" + at;
        SQLParser::parse(text, &r);
        if (d.empty()) d = differ("the same call is different later" + at, normal, show(r));
      }
      // Destroyed as it was left by a failure.
      SQLParserResult again;
      fail(k, good, [&] { SQLParser::parse(text, &again); });
      SQLParserResult moved(std::move(again));
    }
    if (d.empty()) {
      SQLParserResult r;
      SQLParser::parse(text, &r);
      d = differ("the same call is different later" + at, normal, show(r));
    }
    if (d.empty()) {
      SQLParserResult r;
      SQLParser::parse(kOther, &r);
      d = differ("another call is different later" + at, others, show(r));
    }
    if (!d.empty()) return d;
  }
}

// Statements are released, or all of them stay; one is added, or stays the caller's.
std::string operations(const std::string& text, bool good) {
  for (long k = 0;; ++k) {
    const std::string at = ", when allocation " + std::to_string(k + 1) + (good ? " and all behind it fail" : " fails");
    SQLParserResult r, more;
    SQLParser::parse(text, &r);
    SQLParser::parse(kOther, &more);
    const std::string normal = show(r);
    bool reached = false;
    std::vector<hsql::SQLStatement*> released;
    End e = fail(k, good, [&] { released = r.releaseStatements(); });
    reached |= failed;
    if (e == THREW_OTHER) return "releaseStatements throws something else than std::bad_alloc" + at;
    if (e == THREW && show(r) != normal) return differ("releaseStatements fails and changes the result" + at, normal, show(r));
    if (e == RETURNED && r.size()) return "releaseStatements keeps statements" + at;
    for (auto* s : released) delete s;
    r.reset();
    SQLParser::parse(text, &r);
    std::vector<hsql::SQLStatement*> others = more.releaseStatements();
    const std::string before = show(r);
    e = fail(k, good, [&] { r.addStatement(others[0]); });
    reached |= failed;
    if (e == THREW_OTHER) return "addStatement throws something else than std::bad_alloc" + at;
    if (e == THREW) {
      if (show(r) != before) return differ("addStatement fails and changes the result" + at, before, show(r));
      delete others[0];
    } else if (r.getStatements().back() != others[0]) {
      return "addStatement does not add the statement" + at;
    }
    for (size_t i = 1; i < others.size(); ++i) delete others[i];
    if (!reached) return "";
  }
}

std::string tokenize(const std::string& text, bool good) {
  std::vector<int16_t> normal;
  SQLParser::tokenize(text, &normal);
  for (long k = 0;; ++k) {
    const std::string at = ", when its allocation " + std::to_string(k + 1) + (good ? " and all behind it fail" : " fails");
    std::vector<int16_t> tokens, later;
    const End e = fail(k, good, [&] { SQLParser::tokenize(text, &tokens); });
    if (!failed) return "";
    if (e == THREW_OTHER) return "tokenize throws something else than std::bad_alloc" + at;
    // A token may be reported as an error instead.
    if (e == RETURNED && tokens.size() != normal.size()) return "tokenize returns wrong tokens" + at;
    for (size_t i = 0; i < tokens.size(); ++i)
      if (i >= normal.size() || (tokens[i] != normal[i] && tokens[i] != SQL_LEXER_ERROR)) return "tokenize returns wrong tokens" + at;
    SQLParser::tokenize(text, &later);
    if (later != normal) return "the same call is different later" + at;
    Engine::outcome(std::to_string(k));
  }
}

}  // namespace

// args: text[, text the result was used for, "reset" or ""]
std::string check(const Case& c) {
  const std::string& text = c.args[0];
  std::string d;
  new_threads = !strcmp(c.phase, "new threads");
  for (bool good : {false, true}) {
    if (d.empty() && strcmp(c.phase, "operations")) d = c.args.size() > 1 ? call(text, c.args[1], !c.args[2].empty(), good) : call(text, "", false, good);
    if (d.empty() && c.args.size() == 1) d = tokenize(text, good);
    if (d.empty() && !strcmp(c.phase, "operations")) d = operations(text, good);
  }
  return d;
}

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  std::vector<Tokens> texts = constructs(ALL_KINDS);
  GenOptions o;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.params = !full;
    for (auto& t : bases(ALL_KINDS, o, full && !deep ? 0 : 1)) texts.push_back(t);
  }
  for (auto& t : texts) {
    if (!e.mine()) continue;
    e.run(Case("valid texts", join(t)));
    // Cut at every token, and with each token twice.
    for (size_t i = 0; i < t.size(); ++i) {
      Tokens cut(t.begin(), t.begin() + long(i)), twice = t;
      twice.insert(twice.begin() + long(i), t[i]);
      if (deep || t.size() < 24) e.run(Case("failing texts", join(cut)));
      if (deep || t.size() < 9) e.run(Case("failing texts", join(twice)));
    }
    // Buffers grow with the text, and are kept by a thread.
    substitute_lengths(t, deep ? std::vector<size_t>{16, 40, 600, 1100, 5000} : std::vector<size_t>{40, 2100}, [&](const Tokens& m) {
      e.run(Case("lengths", join(m)));
      if (join(m).find('\'') != std::string::npos) e.run(Case("new threads", join(m)));
    });
    e.run(Case("new threads", join(t)));
    e.run(Case("operations", join(t)));
    e.run(Case("operations", join(t) + ";" + join(t) + ";" + join(t)));
    for (const char* before : {"SELECT ? FROM t ; DELETE FROM u", "SELECT a FROM"})
      for (const char* reset : {"reset", ""}) e.run(Case("used results", std::vector<std::string>{join(t), before, reset}));
  }
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.params = false;
    if (deep || !full) sentences(e, ALL_KINDS, o, 1 + deep, [&](const Tokens& t) { e.run(Case("valid texts", join(t))); });
  }
  contradictions(e, 1 + deep, [&](const std::string& s) { e.run(Case("constraints and options", s)); });
  sizes(e, ALL_KINDS, 3 + 9 * deep, deep ? 66 : 18, [&](const char*, const std::string& s) { e.run(Case("sizes", s)); });
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) {
    if (s.size() < 700) e.run(Case(phase, s));
  });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["texts"] = std::string("one of each construct, all derivations with 1 non-default choice (thorough: 2), cut at every token, every token twice") + (thorough ? "" : " (texts of up to 23 and 8 tokens)") + ", every repeatable part up to " + (thorough ? "66" : "18") + " times";
  b["lengths"] = "every name, number and string with " + std::string(thorough ? "16, 40, 600, 1100, 5000" : "40, 2100") + " characters, also on new threads";
  b["operations"] = "releaseStatements and addStatement on results of 1 and 3 of each of the texts";
  b["failures"] = "every allocation by operator new of the call, alone and with all behind it";
  b["results"] = "new, reset after and still holding a valid result, a failed one";
}
