// The error message says what is wrong: it names the token that cannot continue the text, or the contradiction.
#include <algorithm>
#include <cstring>
#include <map>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C25";

namespace {

// The names of the kinds of tokens, as the dialect's grammar calls them, and a text of each kind.
struct Name {
  std::string name, text;
};
const std::map<int, Name>& names() {
  static const std::map<int, Name> r = [] {
    std::map<int, Name> m;
    using namespace ref;
    m[K_EOF] = {"end of file", ""};
    m[K_ERR] = {"LEXER_ERROR", ""};
    m[K_IDENT] = {"IDENTIFIER", "a"};
    m[K_STRING] = {"STRING", "'s'"};
    m[K_FLOATVAL] = {"FLOATVAL", "1.5"};
    m[K_INTVAL] = {"INTVAL", "1"};
    m[K_EQEQ] = {"EQUALS", "=="};
    m[K_NE] = {"NOTEQUALS", "<>"};
    m[K_LE] = {"LESSEQ", "<="};
    m[K_GE] = {"GREATEREQ", ">="};
    m[K_CONCAT] = {"CONCAT", "||"};
    m[K_CURRENT_ROW] = {"CURRENT_ROW", "CURRENT ROW"};
    m[K_CHARACTER_VARYING] = {"CHARACTER_VARYING", "CHARACTER VARYING"};
#define X(n) m[K_##n] = {#n, #n};
    REF_KEYWORDS(X)
#undef X
    for (char c : std::string("-+()*/,.<>=%^[];?")) m[c] = {std::string("'") + c + "'", std::string(1, c)};
    return m;
  }();
  return r;
}

std::string lower(std::string s) {
  for (char& c : s)
    if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
  return s;
}

// Can a token of this name stand at the place of the offending one? Sets `fits` if so.
std::string expected(const std::string& text, const ref::Result& r, size_t at, const std::string& name, bool& fits) {
  const Name* n = nullptr;
  int kind = -1;
  for (auto& x : names())
    if (x.second.name == name) n = &x.second, kind = x.first;
  if (!n || name == "LEXER_ERROR") return "the message expects " + name + ", which is no token of the dialect";
  const std::string with = text.substr(0, r.toks[at].beg) + "\n" + n->text;
  const ref::Result w = ref::parse(with);
  if (w.valid || w.semantic || w.grey || (name != "end of file" && w.err_tok > at)) fits = true;
  if (kind == r.toks[at].kind) return "the message expects " + name + ", the very token that it rejects";
  return "";
}

std::string syntax_message(const std::string& text, const ref::Result& r, size_t at, const std::string& m) {
  const std::string shown = "\nmessage: " + m;
  const auto n = names().find(r.toks[at].kind);
  const std::string name = n == names().end() ? "invalid token" : n->second.name;
  const std::string start = "syntax error, unexpected " + name;
  if (m.compare(0, start.size(), start)) return "the message does not name the token that cannot continue the text, " + name + shown;
  std::string rest = m.substr(start.size());
  if (rest.empty()) return "";
  const std::string sep = ", expecting ";
  if (rest.compare(0, sep.size(), sep)) return "the message does not name the token that cannot continue the text, " + name + shown;
  rest = rest.substr(sep.size());
  bool fits = false;
  for (size_t p = 0; p <= rest.size();) {
    const size_t q = std::min(rest.find(" or ", p), rest.size());
    const std::string d = expected(text, r, at, rest.substr(p, q - p), fits);
    if (!d.empty()) return d + shown;
    p = q + 4;
  }
  return fits ? "" : "none of the tokens that the message expects can stand there" + shown;
}

std::string message(const std::string& text, const ref::Result& r, hsql::SQLParserResult& i, bool deep) {
  if (r.valid || r.grey || i.isValid()) {
    Engine::outcome("valid");
    return "";
  }
  if (!i.errorMsg()) return "there is no message";
  const std::string m = i.errorMsg();
  Engine::outcome(m);
  if (deep && m == "memory exhausted") return "";
  const std::string shown = "\nmessage: " + m;
  if (r.semantic) {
    // A syntax error right behind the contradiction may be told instead.
    ref::Result all;
    const size_t t = ref::syntax_error(text, all);
    if (t < all.toks.size() && t <= r.err_tok + 1 && !m.compare(0, 13, "syntax error,")) return syntax_message(text, all, t, m);
    for (size_t p = 0; p <= r.why.size();) {
      const size_t q = std::min(r.why.find('|', p), r.why.size());
      const std::string part = r.why.substr(p, q - p);
      if (m.find(part) == std::string::npos && lower(m).find(lower(part)) == std::string::npos) return "the message about contradictory parts does not mention " + part + shown;
      p = q + 1;
    }
    return "";
  }
  return syntax_message(text, r, r.err_tok, m);
}
}  // namespace

// Two texts: the second one is the first in another layout or behind other statements; the message is the same.
std::string check(const Case& c) {
  const bool deep = !strcmp(c.phase, kDeep);
  const ref::Result x = ref::parse(c.args[0]);
  hsql::SQLParserResult a, b;
  hsql::SQLParser::parse(c.args[0], &a);
  std::string d = message(c.args[0], x, a, deep);
  if (d.empty() && !deep && !a.isValid()) {
    // The same message in a result that still holds statements.
    for (const char* earlier : {"SELECT a", "SELECT a; SELECT b; SELECT c"}) {
      hsql::SQLParserResult used;
      hsql::SQLParser::parse(earlier, &used);
      hsql::SQLParser::parse(c.args[0], &used);
      if (used.isValid() || !used.errorMsg()) return "in a result that holds statements of earlier texts there is no message";
      if (strcmp(used.errorMsg(), a.errorMsg())) return std::string("the message changes when the result holds statements of earlier texts\nmessage: ") + a.errorMsg() + "\nmessage: " + used.errorMsg();
    }
  }
  if (!d.empty() || c.args.size() < 2) return d;
  const ref::Result y = ref::parse(c.args[1]);
  hsql::SQLParser::parse(c.args[1], &b);
  d = message(c.args[1], y, b, deep);
  if (!d.empty() || a.isValid() || b.isValid() || x.grey || y.grey || x.valid || y.valid) return d;
  if (x.semantic != y.semantic || x.toks[x.err_tok].kind != y.toks[y.err_tok].kind) return "";
  const long shift = long(y.toks.size()) - long(x.toks.size());
  if (long(y.err_tok) - long(x.err_tok) != shift) return "";
  if (strcmp(a.errorMsg(), b.errorMsg())) return std::string("the message changes with the layout or the statements before\nmessage: ") + a.errorMsg() + "\nmessage: " + b.errorMsg();
  return "";
}

static const Tokens kSeps = {"\n", "\t", " -- c\n", "\r\n", "\f"};
static const Tokens kBefore = {"SELECT a;", "-- c\n", "SELECT 'x\ny';\n", "BEGIN; SHOW TABLES;", "   "};

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  Tokens bytes;
  for (int c = 0; c < 256; ++c) bytes.push_back(std::string(1, char(c)));
  strings(e, bytes, 1 + deep, run("bytes"));
  strings(e, bytes, 1, [&](const std::string& s) {
    for (const char* p : {"SELECT % a", "SELECT 'x\n' % FROM", "SELECT a FROM t %", "SELECT 1%", "INSERT INTO t VALUES (%", "SELECT a; %"}) {
      std::string x = p;
      x.replace(x.find('%'), 1, s);
      e.run(Case("bytes", x));
    }
  });
  trie(e, "", alphabet(), 3 + deep, run("all tokens"));
  for (const char* p : {"SELECT a", "SELECT a FROM t", "SELECT a FROM t WHERE", "CREATE TABLE t ( a INT", "INSERT INTO t", "COPY t FROM 's' (", "SELECT f ( a ) OVER (", "SELECT CASE WHEN a", "SELECT a ORDER BY b", "UPDATE t SET", "SELECT CAST ( a AS", "ALTER TABLE t",
                        "SELECT a FROM t JOIN u", "WITH w AS ( SELECT a )", "SELECT a UNION", "EXECUTE p (", "SELECT INTERVAL", "SELECT a WITH HINT", "SELECT a FOR"})
    trie(e, p, alphabet(), 2 + deep, run("behind parts"));

  GenOptions o;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (auto& t : bases(ALL_KINDS, o, full && !deep ? 0 : 1)) {
      size_t n = 0;
      mutate(t, alphabet(), [&](const Tokens& m) {
        if (!e.mine()) return;
        const std::string base = join(m);
        e.run(Case("changed derivations", base));
        if (!deep && ++n % 2) return;
        e.run(Case("changed derivations", base, join(m, kSeps[n % kSeps.size()].c_str())));
        e.run(Case("changed derivations", base, kBefore[n % kBefore.size()] + base));
      });
    }
  }
  contradictions(e, 3 + deep, run("contradictions"));
  for (auto& t : constructs(ALL_KINDS)) {
    if (!e.mine()) continue;
    mutate(t, deep ? alphabet() : Tokens{"a", "1", "'s'", "SELECT", "FROM", "(", ")", ",", ";", "?", "=", "AND", "NULL", "INT", "AS", "JOIN", "ON", "$", "'", "NOT", "IF", "WITH", "ORDER", "UNION"}, [&](const Tokens& m) { e.run(Case("changed constructs", join(m))); });
    substitute(t, [&](const Tokens& m) { e.run(Case("changed constructs", join(m) + " ) a")); });
    substitute_lengths(t, {30, 31, 32, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513}, [&](const Tokens& m) { e.run(Case("changed constructs", join(m) + " ) a")); });
  }
  // The name in a message, and messages about long texts.
  for (auto& n : unusual_names())
    if (e.mine()) {
      e.run(Case("names", "CREATE TABLE t ( " + n + " INT NULL NOT NULL )"));
      e.run(Case("names", "CREATE TABLE t ( x INT , " + n + " TEXT PRIMARY KEY UNIQUE NULL )"));
      e.run(Case("names", "SELECT a ORDER BY b " + n + " FIRST"));
      e.run(Case("names", "COPY t FROM 's' ( FORMAT " + n + " )"));
      e.run(Case("names", "COPY t FROM 's' ( " + n + " 's' )"));
    }
  for (size_t n : {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 100000}) {
    if (!e.mine()) continue;
    e.run(Case("lengths", "CREATE TABLE t ( " + std::string(n, 'n') + " INT NULL NOT NULL )"));
    e.run(Case("lengths", "CREATE TABLE t ( \"" + std::string(n, '\xc3') + "\" INT NULL PRIMARY KEY )"));
    for (const std::string& err : {"SELECT a FROM WHERE", "SELECT $", "SELECT", "SELECT 'x", "SELECT a b c", "SELECT DATE 'x'", "CREATE TABLE t ( a INT NULL NOT NULL )"}) {
      e.run(Case("lengths", err, std::string(n, '\n') + err));
      e.run(Case("lengths", err, "SELECT '" + std::string(n, 's') + "'; " + err));
      std::string stmts;
      for (size_t i = 0; i < n && n < 5000; ++i) stmts += "SELECT a;\n";
      e.run(Case("lengths", err, stmts + err));
    }
  }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) {
    if (phase == kDeep) return;
    e.run(Case(phase, s));
    e.run(Case(phase, s + " ) a"));
    e.run(Case(phase, s + "\n$"));
  });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["contradictions"] = contradictions_bounds(3 + thorough);
  b["all tokens"] = thorough ? "up to 4 tokens; 3 behind 19 parts" : "up to 3 tokens; 2 behind 19 parts";
  b["changed derivations"] = "every single-token change (176 spellings) of derivations with 1 (full profile, quick: 0) non-default choices, each (quick: every second) also with one of 5 separators and behind one of 5 texts";
  b["changed constructs"] = "a text of each of " + std::to_string(constructs(~0u).size()) + " constructs with every single-token change, unusual names and values, 17 lengths";
  b["names and lengths"] = "every unusual name where a message tells it or depends on it; 26 lengths of names, texts and preceding statements";
}
