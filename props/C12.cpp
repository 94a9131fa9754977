// A result object owns its contents through every use: all histories of operations on two result objects and the
// caller's statements, each compared with a model of ownership after every step. Built with AddressSanitizer.
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>

#include "aspects.h"
#include "constants.h"
#include "explore.h"
#include "families.h"

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

const char* const kProperty = "C12";

using namespace hsql;

namespace {

bool counting;
long live;
void on_malloc(const volatile void*, size_t) {
  if (counting) ++live;
}
void on_free(const volatile void* p) {
  if (counting && p) --live;
}

struct Text {
  std::string sql;
  size_t statements, parameters;  // 0 statements: invalid
};
const Text kTexts[] = {
    {"SELECT a FROM t WHERE b = 'x' ; INSERT INTO t VALUES ( 1 , 'y' )", 2, 0},
    {"SELECT ? FROM t; DELETE FROM t WHERE a = ? AND f ( ? )", 2, 3},
    {"SELECT ? FROM t; SELECT a\nFROM WHERE", 0, 0},
    {"SELECT 'x", 0, 0},
    {"CREATE TABLE t ( a INT NULL NOT NULL )", 0, 0},
    {"DELETE FROM t WHERE ?", 1, 1},
};

// An operation is a letter; the lower case one is on the first object, the upper case one on the second.
//   a..f parse the text          r reset              m move-assign from the other   s move-assign from itself
//   c replaced by one move-constructed from the other  n destroyed, new               w swap of both
//   l release statements         p add the oldest released statement, or a new one
//   x replaced by one made of the oldest released statement, or a new one             q release, delete all but the first
//   e set error details          v set valid           i set invalid                  g delete all released statements
//   z set error details without a message             h the same with an empty message
//   j, k parse the case's texts (the first and the second argument behind the history)
const char kOps[] = "abcdefrmscnlpxqevizhABCDEFRMSCNLPXQEVIZHwg";

struct Model {
  std::vector<SQLStatement*> statements;
  std::vector<Expr*> parameters;
  bool valid = false;
  bool has_message = false;
  bool any_message = false;  // the parser's own
  std::string message;
  int line = -1, column = -1;
};

void placeholders(const SQLStatement* s, std::vector<Expr*>& out) {
  impl::Visitor v;
  v.expr = [&](const Expr* e) {
    if (e->type == kExprParameter) out.push_back(const_cast<Expr*>(e));
  };
  impl::visit(s, v);
}

struct World {
  std::unique_ptr<SQLParserResult> r[2];
  Model m[2];
  std::vector<SQLStatement*> pool;                             // the caller's
  std::vector<std::pair<const SQLStatement*, std::string>> born;  // text of every living statement when it came to be

  const std::vector<Text>& own;  // the texts of the case

  explicit World(const std::vector<Text>& texts) : own(texts) {
    r[0] = std::make_unique<SQLParserResult>();
    r[1] = std::make_unique<SQLParserResult>();
  }
  ~World() {
    for (auto* s : pool) delete s;
  }
  void add(const SQLStatement* s) { born.emplace_back(s, impl::dump(s, true)); }
  void gone(const SQLStatement* s) {
    born.erase(std::remove_if(born.begin(), born.end(), [&](auto& b) { return b.first == s; }), born.end());
  }
  void gone(Model& x) {
    for (auto* s : x.statements) gone(s);
    x = Model();
  }
  SQLStatement* take() {
    if (pool.empty()) {
      auto* s = new ExecuteStatement();
      s->name = strdup("own");
      s->stringLength = 3;
      add(s);
      return s;
    }
    auto* s = pool.front();
    pool.erase(pool.begin());
    return s;
  }

  // Empty if the step did what the model says.
  std::string step(char op) {
    const bool second = op < 'a';
    const char o = char(op | 32);
    SQLParserResult& me = *r[second];
    SQLParserResult& other = *r[!second];
    Model &mine = m[second], &others = m[!second];
    if ((o >= 'a' && o <= 'f') || o == 'j' || o == 'k') {
      const Text& t = o >= 'j' ? own[size_t(o - 'j')] : kTexts[o - 'a'];
      const size_t before = mine.statements.size();
      if (!SQLParser::parse(t.sql, &me)) return "parse returned false";
      if (me.isValid() != (t.statements > 0)) return "validity of the new text is not reported";
      if (me.size() != before + t.statements) return std::to_string(me.size()) + " statements, " + std::to_string(before) + " held before and " + std::to_string(t.statements) + " in the text";
      size_t params = 0;
      for (size_t i = before; i < me.size(); ++i) {
        SQLStatement* s = me.getMutableStatement(i);
        mine.statements.push_back(s);
        add(s);
        const size_t had = mine.parameters.size();
        placeholders(s, mine.parameters);
        params += mine.parameters.size() - had;
      }
      if (params != t.parameters) return "placeholders of the new text are missing";
      mine.valid = t.statements > 0;
      mine.has_message = mine.any_message = !mine.valid;
      mine.line = me.errorLine();
      mine.column = me.errorColumn();
      if (!mine.valid) {
        SQLParserResult fresh;
        SQLParser::parse(t.sql, &fresh);
        if (!me.errorMsg() || strcmp(me.errorMsg(), fresh.errorMsg()) || me.errorLine() != fresh.errorLine() || me.errorColumn() != fresh.errorColumn()) return "error differs from that of a fresh result";
        mine.message = me.errorMsg();
      } else if (me.errorMsg()) {
        return "valid, but there is an error message";
      } else {
        mine.line = mine.column = -2;  // not defined
      }
    } else if (o == 'r') {
      gone(mine);
      me.reset();
    } else if (op == 'w') {
      std::swap(*r[0], *r[1]);
      std::swap(m[0], m[1]);
    } else if (o == 'm') {
      gone(mine);
      mine = others;
      others = Model();
      SQLParserResult& x = (me = std::move(other));
      if (&x != &me) return "move assignment returns another object";
    } else if (o == 's') {
      SQLParserResult* alias = &me;
      me = std::move(*alias);
    } else if (o == 'c') {
      gone(mine);
      mine = others;
      others = Model();
      r[second].reset();
      r[second] = std::make_unique<SQLParserResult>(std::move(other));
    } else if (o == 'n') {
      gone(mine);
      r[second].reset();
      r[second] = std::make_unique<SQLParserResult>();
    } else if (o == 'l' || o == 'q') {
      std::vector<SQLStatement*> got = me.releaseStatements();
      if (got != mine.statements) return "releaseStatements returned other statements than those it held";
      mine.statements.clear();
      mine.parameters.clear();
      for (size_t i = 0; i < got.size(); ++i) {
        if (o == 'l' || i == 0) {
          pool.push_back(got[i]);
        } else {
          gone(got[i]);
          delete got[i];
        }
      }
    } else if (o == 'p') {
      SQLStatement* s = take();
      me.addStatement(s);
      mine.statements.push_back(s);
    } else if (o == 'x') {
      SQLStatement* s = take();
      gone(mine);
      r[second] = std::make_unique<SQLParserResult>(s);
      mine.statements.push_back(s);
    } else if (o == 'e') {
      me.setErrorDetails(strdup("own message"), 7, 11);
      mine.has_message = true;
      mine.message = "own message";
      mine.line = 7;
      mine.column = 11;
    } else if (o == 'z') {
      me.setErrorDetails(nullptr, 5, 3);
      mine.has_message = false;
      mine.line = 5;
      mine.column = 3;
    } else if (o == 'h') {
      me.setErrorDetails(strdup(""), 0, 2147483647);
      mine.has_message = true;
      mine.message = "";
      mine.line = 0;
      mine.column = 2147483647;
    } else if (o == 'v' || o == 'i') {
      me.setIsValid(o == 'v');
      mine.valid = o == 'v';
    } else if (op == 'g') {
      for (auto* s : pool) {
        gone(s);
        delete s;
      }
      pool.clear();
    }
    for (int i = 0; i < 2; ++i) {
      const std::string d = compare(*r[i], m[i]);
      if (!d.empty()) return (i ? "second object: " : "first object: ") + d;
    }
    return "";
  }

  static std::string compare(SQLParserResult& x, const Model& y) {
    if (x.size() != y.statements.size()) return std::to_string(x.size()) + " statements instead of " + std::to_string(y.statements.size());
    if (x.getStatements() != y.statements) return "holds other statements than it should";
    for (size_t i = 0; i < y.statements.size(); ++i)
      if (x.getStatement(i) != y.statements[i] || x.getMutableStatement(i) != y.statements[i]) return "getStatement differs from getStatements";
    if (x.isValid() != y.valid) return x.isValid() ? "valid instead of invalid" : "invalid instead of valid";
    if (!x.errorMsg() != !y.has_message) return x.errorMsg() ? "has an error message" : "has lost its error message";
    if (y.has_message && y.message != x.errorMsg()) return std::string("error message is ") + x.errorMsg() + " instead of " + y.message;
    if (y.line != -2 && (x.errorLine() != y.line || x.errorColumn() != y.column))
      return "error position is " + std::to_string(x.errorLine()) + ":" + std::to_string(x.errorColumn()) + " instead of " + std::to_string(y.line) + ":" + std::to_string(y.column);
    std::vector<Expr*> a = x.parameters(), b = y.parameters;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b) return "parameters() has " + std::to_string(a.size()) + " expressions, which are not the " + std::to_string(b.size()) + " it should";
    for (size_t i = 1; i < x.parameters().size(); ++i)
      if (x.parameters()[i - 1]->ival > x.parameters()[i]->ival) return "parameters() is not in the order of the numbers";
    return "";
  }

  std::string end() {
    for (auto& b : born)
      if (impl::dump(b.first, true) != b.second) return "a statement has changed\nexpected " + b.second + "\ngot " + impl::dump(b.first, true);
    std::string state;
    for (int i = 0; i < 2; ++i) state += std::to_string(m[i].statements.size()) + " " + std::to_string(m[i].parameters.size()) + " " + std::to_string(m[i].valid) + m[i].message + " " + std::to_string(m[i].line) + "|";
    Engine::outcome(state + std::to_string(pool.size()));
    return "";
  }
};

}  // namespace

std::string check(const Case& c) {
  static const bool once = [] {
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    return true;
  }();
  (void)once;
  std::vector<Text> own;
  for (size_t i = 1; i < c.args.size(); ++i) {
    static std::map<std::string, Text> known;
    auto k = known.find(c.args[i]);
    if (k != known.end()) {
      own.push_back(k->second);
      continue;
    }
    const ref::Result x = ref::parse(c.args[i]);
    SQLParserResult r;
    SQLParser::parse(c.args[i], &r);
    if (x.grey || r.isValid() != x.valid) return "";  // decided elsewhere
    Text t{c.args[i], r.isValid() ? x.stmts.size() : 0, 0};
    if (r.isValid()) t.parameters = x.params;
    own.push_back(t);
    known.emplace(c.args[i], t);
  }
  std::string d;
  long left = 0;
  for (int again = 0; again < 3; ++again) {
    d.clear();
    d.shrink_to_fit();
    live = 0;
    counting = true;
    {
      World w(own);
      for (size_t i = 0; i < c.args[0].size() && d.empty(); ++i) {
        d = w.step(c.args[0][i]);
        if (!d.empty()) d = "after operation " + std::to_string(i + 1) + " (" + c.args[0][i] + "): " + d;
      }
      if (d.empty()) d = w.end();
    }
    counting = false;
    left = live;
    if (!d.empty()) return d;
    if (left == 0) return "";
  }
  return left > 0 ? std::to_string(left) + " blocks are not freed" : std::to_string(-left) + " more blocks were freed than allocated";
}

void explore(Engine& e) {
  const std::string ops = kOps;
  std::function<void(const std::string&, const std::string&, int, const char*)> all = [&](const std::string& h, const std::string& alphabet, int depth, const char* phase) {
    for (char c : alphabet) {
      if (e.stop()) return;
      if (h.size() == 1 && !e.mine()) continue;
      // The two objects are alike: the first operation is on the first one.
      if (h.empty() && c < 'a') continue;
      if (h.size() + 1 == size_t(depth)) {
        if (h.empty() && !e.mine()) continue;
        e.run(Case(phase, h + c));
      } else {
        all(h + c, alphabet, depth, phase);
      }
    }
  };
  for (int d = 1; d <= (e.thorough ? 4 : 3); ++d) all("", ops, d, "all operations");
  // Longer histories of the operations that move contents around.
  for (int d = 4; d <= (e.thorough ? 6 : 4); ++d) all("", "bcrmsclqpBCRMLPwg", d, "moving operations");
  if (e.thorough) all("", "bcmlpsBCMLPw", 7, "moving operations");
  // Other texts: every history of the case's text with the operations that move contents.
  GenOptions o;
  std::vector<std::string> texts = {"", ";", "SELECT", "SELECT a;;", "SELECT 99999999999999999999", "SELECT $", "SELECT INTERVAL 'x'", "CREATE TABLE t FROM CSV FILE 'x'", "SELECT " + std::string(300, '('),
                                    "SELECT '" + std::string(1000, 'x') + "'", "SELECT " + std::string(1000, 'x') + " FROM FROM", std::string(1000, '\n') + "SELECT a b c", "SELECT \"\", ''", "SELECT a FROM t WHERE 'long literal that is cut"};
  for (auto* name : {"statements", "placeholders", "statements before an error", "values", "conjunction"})
    for (size_t n : {8, 9, 65, 257})
      if (family(name)) texts.push_back(family(name)->text(n));
  for (auto& s : constant_samples()) texts.push_back(s);
  const size_t special = texts.size();
  for (int full = 0; full < 2; ++full)
    for (int params = 0; params < 2; ++params) {
      o.full = full;
      o.params = params;
      for (auto& t : bases(ALL_KINDS, o, 0)) texts.push_back(join(t));
    }
  const size_t simple = texts.size();
  for (auto& t : constructs(ALL_KINDS)) texts.push_back(join(t));
  const std::string small = "jrmsclqpJRMSCLQwgk";
  for (size_t i = 0; i < texts.size(); ++i) {
    const std::string& other = texts[(i * 7 + 3) % simple];
    auto run = [&](const std::string& h) { e.run(Case("other texts", std::vector<std::string>{h, texts[i], other})); };
    for (char a : small) {
      if (!e.mine()) continue;
      for (char b : small) {
        run(std::string("j") + a + b);
        if ((i < special && texts[i].size() < 200) || e.thorough)
          for (char c : e.thorough ? small : std::string("mcCMlqJk")) {
            run(std::string("j") + a + b + c);
            if (e.thorough && i < simple)
              for (char d : std::string("mcCMlqJk")) run(std::string("j") + a + b + c + d);
          }
      }
    }
  }
  // Results with nothing in them but their state, in every way.
  for (int d = 1; d <= (e.thorough ? 6 : 4); ++d) all("", "vehzlmrsc", d, "states");
  for (int d = 3; d <= (e.thorough ? 5 : 3); ++d) all("", "avelhMCSRLwnz", d, "states");
  // The same operation many times.
  for (char a : ops)
    for (char b : ops) {
      if (!e.mine()) continue;
      std::vector<int> times = {8, 40};
      for (size_t k : constant_numbers())
        if (k < 400 && times.size() < 20) times.push_back(int(k));
      for (int n : times) {
        std::string h;
        for (int i = 0; i < n; ++i) h += i % 2 ? b : a;
        e.run(Case("repeated", h));
        for (char p : std::string("bcl")) e.run(Case("repeated", p + h));
      }
    }
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["all operations"] = thorough ? "all histories of up to 4 of 42 operations on two results" : "all histories of up to 3 of 42 operations on two results";
  b["moving operations"] = thorough ? "all histories of up to 6 of 17 operations, of 7 of 12" : "all histories of up to 4 of 17 operations";
  b["other texts"] = thorough ? "some 150 texts, behind them every history of up to 4 of 18 operations, and 226 constructs, up to 3" : "some 150 texts, and 226 constructs, behind them every history of up to 2 of 18 operations (statement lists and errors: 3)";
  b["states"] = thorough ? "all histories of up to 6 of 9 and 5 of 13 operations" : "all histories of up to 4 of 9 and 3 of 13 operations";
  b["repeated"] = "every pair of operations alternately 8 and 40 times, from 4 states";
}
