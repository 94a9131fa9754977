// tokenize returns the token sequence of the whole text.
#include <cstdlib>
#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C08";

// The codes of the tokens, from the generated header.
static const std::map<std::string, int>& codes() {
  static const std::map<std::string, int> m = [] {
    std::map<std::string, int> r;
    const char* src = getenv("MC_SRC");
    std::ifstream in(std::string(src ? src : "/repo/src") + "/parser/bison_parser.h");
    std::string line;
    while (std::getline(in, line)) {
      size_t p = line.find("SQL_");
      size_t q = line.find(" = ");
      if (p == std::string::npos || q == std::string::npos || q < p) continue;
      r.emplace(line.substr(p + 4, q - p - 4), atoi(line.c_str() + q + 3));
    }
    return r;
  }();
  return m;
}

static int code(int kind) {
  if (kind < 256) return kind;
  std::string n;
  switch (kind) {
    case ref::K_IDENT: n = "IDENTIFIER"; break;
    case ref::K_STRING: n = "STRING"; break;
    case ref::K_FLOATVAL: n = "FLOATVAL"; break;
    case ref::K_INTVAL: n = "INTVAL"; break;
    case ref::K_EQEQ: n = "EQUALS"; break;
    case ref::K_NE: n = "NOTEQUALS"; break;
    case ref::K_LE: n = "LESSEQ"; break;
    case ref::K_GE: n = "GREATEREQ"; break;
    case ref::K_CONCAT: n = "CONCAT"; break;
    case ref::K_CURRENT_ROW: n = "CURRENT_ROW"; break;
    case ref::K_CHARACTER_VARYING: n = "CHARACTER_VARYING"; break;
    default: n = ref::keyword_name(kind);
  }
  auto it = codes().find(n);
  return it == codes().end() ? -1000 - kind : it->second;
}

static std::string show(const std::vector<int16_t>& v) {
  std::string s;
  for (auto t : v) {
    s += " ";
    std::string n;
    for (auto& c : codes())
      if (c.second == t) n = c.first;
    s += t < 256 && t >= 32 ? std::string(1, char(t)) : n.empty() ? std::to_string(t) : n;
  }
  return s;
}

// The vector of the user before the call: codes separated by blanks, and "r" codes reserve more than they need.
static std::vector<int16_t> contents(const std::string& s) {
  std::vector<int16_t> v;
  std::stringstream in(s);
  std::string w;
  while (in >> w) {
    if (w[0] == 'r')
      v.reserve(size_t(atoi(w.c_str() + 1)));
    else if (w[0] == 'x') {
      const int16_t last = v.empty() ? int16_t(0) : v.back();
      v.resize(v.size() + size_t(atoi(w.c_str() + 1)), last);
    } else
      v.push_back(int16_t(atoi(w.c_str())));
  }
  return v;
}

// Calls with one vector, one after the other: it holds what it held, followed by the tokens of each text.
static std::string appended(const Case& c) {
  std::vector<int16_t> held = contents(c.args[0]);
  std::vector<int16_t> expected = held;
  for (size_t i = 1; i < c.args.size(); ++i) {
    std::vector<int16_t> one;
    if (!hsql::SQLParser::tokenize(c.args[i], &one) || !hsql::SQLParser::tokenize(c.args[i], &held)) return "tokenize returned false";
    expected.insert(expected.end(), one.begin(), one.end());
    Engine::outcome(std::string(reinterpret_cast<const char*>(one.data()), one.size() * 2));
    if (held != expected) return "tokenize does not append the tokens to those that the vector holds\nexpected" + show(expected) + "\ngot" + show(held);
  }
  return "";
}

std::string check(const Case& c) {
  if (c.phase == "vector that holds tokens") return appended(c);
  const std::string& text = c.args[0];
  const auto toks = ref::lex(text);
  std::vector<int16_t> expected;
  bool error = false;
  for (auto& t : toks) {
    if (t.kind == ref::K_EOF) break;
    if (t.kind == ref::K_ERR) {
      error = true;
      break;
    }
    expected.push_back(int16_t(code(t.kind)));
  }
  std::vector<int16_t> got;
  if (!hsql::SQLParser::tokenize(text, &got)) return "tokenize returned false";
  Engine::outcome(std::string(reinterpret_cast<const char*>(got.data()), got.size() * 2));
  const std::string both = "\nexpected" + show(expected) + (error ? " and an error" : "") + "\ngot" + show(got);
  if (!error) {
    if (got != expected) return "the tokens differ" + both;
  } else {
    // The tokens in front of the malformed one are known; it must not look like a token of the dialect.
    if (got.size() <= expected.size() || !std::equal(expected.begin(), expected.end(), got.begin())) return "the tokens in front of the malformed one differ" + both;
    static const std::set<int> valid = [] {
      std::set<int> s;
      for (auto& a : alphabet())
        for (auto& t : ref::lex(a))
          if (t.kind != ref::K_ERR && t.kind != ref::K_EOF) s.insert(code(t.kind));
      return s;
    }();
    if (valid.count(got[expected.size()])) return "the malformed token is returned as a token of the dialect" + both;
  }
  // Appends.
  std::vector<int16_t> held = {7, -1, 300};
  if (!hsql::SQLParser::tokenize(text, &held)) return "tokenize returned false";
  if (held.size() != got.size() + 3 || held[0] != 7 || held[1] != -1 || held[2] != 300 || !std::equal(got.begin(), got.end(), held.begin() + 3)) return "tokenize does not append the tokens to a vector that holds some";
  return "";
}

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  Tokens bytes;
  for (int c = 0; c < 256; ++c) bytes.push_back(std::string(1, char(c)));
  strings(e, bytes, 2, run("bytes"));
  strings(e, bytes, 1, [&](const std::string& s) {
    for (auto& a : alphabet()) {
      e.run(Case("byte and token", s + a));
      e.run(Case("byte and token", a + s));
      e.run(Case("byte and token", a + s + "b"));
    }
  });
  const Tokens chars = {"a", "1", "0", ".", "'", "\"", "-", "\n", " ", "|", "=", "<", ">", "!", "e", "_", ";", std::string(1, '\0'), "*", ":", "$", "\r"};
  strings(e, chars, 5, run("characters"));
  if (deep) strings(e, {"a", "1", ".", "'", "\"", "-", "\n", " ", "|", "=", "<", ">", "!"}, 6, run("characters"));
  const Tokens ops = {"=", "<", ">", "!", "|", "-", "+", "*", "/", ".", "1", "a", " ", ":", "%", "^", "?"};
  strings(e, ops, 5 + deep, run("operators"));

  // Words: which are reserved?
  Tokens letters;
  for (char c = 'A'; c <= 'Z'; ++c) letters.push_back(std::string(1, c));
  strings(e, letters, 4, run("words"));
  Tokens all = letters;
  for (char c = '0'; c <= '9'; ++c) all.push_back(std::string(1, c));
  for (char c = 'a'; c <= 'z'; ++c) all.push_back(std::string(1, c));
  all.push_back("_");
  Tokens words;
  for (int k = ref::K_ADD; k < ref::K_END_OF_KINDS; ++k) words.push_back(ref::keyword_name(k));
  for (const char* w : {"CURRENT", "ROW", "CHARACTER", "VARYING", "NULLS", "FIRST", "LAST", "BINARY", "CSV", "TBL", "DELIMITER", "QUOTE", "BLOB", "CHECK", "CONSTRAINT", "DATABASE", "FETCH", "INTERVALS", "LATERAL", "ONLY",
                        "PROCEDURE", "RECURSIVE", "RETURNING", "SEQUENCE", "TRIGGER", "USER", "WEEK", "WINDOW", "ZONE", "ROWID", "ASCENDING", "LIMITS", "WEEKS", "SCHEMAS", "EACH"})
    words.push_back(w);
  for (auto& w : words) {
    if (!e.mine()) continue;
    std::string low = w;
    for (char& c : low) c = char(tolower(c));
    e.run(Case("reserved words", w));
    e.run(Case("reserved words", low));
    for (size_t i = 0; i < w.size(); ++i) {
      std::string x = w;
      x[i] = low[i];
      e.run(Case("reserved words", x));
      x = low;
      x[i] = w[i];
      e.run(Case("reserved words", x));
      x = w;
      e.run(Case("words near reserved words", x.erase(i, 1)));
      e.run(Case("words near reserved words", w.substr(0, i)));
      e.run(Case("words near reserved words", w.substr(0, i) + " " + w.substr(i)));
      e.run(Case("words near reserved words", w.substr(0, i) + "\"" + w.substr(i)));
      for (auto& a : all) {
        x = w;
        e.run(Case("words near reserved words", x.replace(i, 1, a)));
        x = w;
        e.run(Case("words near reserved words", x.insert(i, a)));
      }
    }
    for (auto& a : all) e.run(Case("words near reserved words", w + a));
    if (w.size() <= (deep ? 12u : 8u)) {  // every case
      for (size_t m = 0; m < (size_t(1) << w.size()); ++m) {
        std::string x = w;
        for (size_t i = 0; i < w.size(); ++i)
          if (m >> i & 1) x[i] = low[i];
        e.run(Case("reserved words", x));
      }
    }
    for (auto& v : words) {
      e.run(Case("two words", w + v));
      e.run(Case("two words", w + "_" + v));
      e.run(Case("two words", w + " " + v));
      e.run(Case("two words", w + "\n\t" + v));
    }
  }
  // Two-word tokens.
  const Tokens parts = {"CURRENT", "current", "ROW", "row", "CHARACTER", "VARYING", "varying", " ", "\n", "\t", "\r", "--\n", "S", "X", ","};
  strings(e, parts, 5 + deep, run("two-word tokens"));

  // Adjacent tokens.
  for (auto& x : alphabet())
    for (auto& y : alphabet()) {
      if (!e.mine()) continue;
      for (const char* sep : {"", " ", "\n", "--\n", "-- c\n", "\t\t", "\r"}) {
        e.run(Case("adjacent tokens", x + sep + y));
        e.run(Case("adjacent tokens", "a " + x + sep + y + " b"));
      }
    }
  const Tokens some = {"a", "1", "1.5", "'s'", "\"q\"", "SELECT", "-", "--\n", ".", "=", "<", "'", "-9223372036854775808", "9223372036854775808", "CURRENT ROW", "$", "\n", " ", "?", "||"};
  strings(e, some, 4 + deep, run("token sequences"));
  GenOptions o;
  o.extra = true;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (auto& t : bases(ALL_KINDS, o, 1)) {
      if (!e.mine()) continue;
      const std::string s = join(t);
      e.run(Case("derivations", s));
      e.run(Case("derivations", join(t, "\n")));
      for (size_t p = 0; p < s.size(); ++p) e.run(Case("truncated derivations", s.substr(0, p)));
    }
  }
  // What the vector holds already.
  std::vector<std::string> held = {"", "r1000", "x1000", "x32767", "r1 1", "-32768 32767"};
  std::vector<int> all_codes = {-1, 0, 1, 7, 255, 256, 257, 258, 1000};
  for (auto& a : alphabet())
    for (auto& t : ref::lex(a))
      if (t.kind != ref::K_ERR && t.kind != ref::K_EOF && std::find(all_codes.begin(), all_codes.end(), code(t.kind)) == all_codes.end()) all_codes.push_back(code(t.kind));
  for (int a : all_codes) {
    const std::string x = std::to_string(a);
    for (const char* more : {"", " r100", " x1", " x2", " x1000"}) held.push_back(x + more);
    for (int b : all_codes) held.push_back(x + " " + std::to_string(b));
  }
  const Tokens texts = {"", ";", "a", "a;", "; a", "1", "-1", "SELECT", "'s'", "--", "\n", "$", "a $", "SELECT a FROM t;", ")", "'", "CURRENT ROW", "a b c d e f g h i j k l m n o p q r s t u v w x y z"};
  for (auto& h : held)
    for (auto& x : texts) {
      if (!e.mine()) continue;
      e.run(Case("vector that holds tokens", h, x));
      e.run(Case("vector that holds tokens", std::vector<std::string>{h, x, x}));
    }
  for (auto& x : alphabet())
    for (auto& y : alphabet()) {
      if (!e.mine()) continue;
      e.run(Case("vector that holds tokens", std::vector<std::string>{"", x, y}));
      e.run(Case("vector that holds tokens", std::vector<std::string>{"", x + " " + y, y, x}));
      const int first = ref::lex(x)[0].kind;
      if (first != ref::K_ERR && first != ref::K_EOF) e.run(Case("vector that holds tokens", std::vector<std::string>{std::to_string(code(first)) + " x3", y, x + " " + y}));
    }
  // Many and long tokens.
  for (int n = 0; n <= 64; ++n)
    for (auto& a : alphabet()) {
      if (!e.mine()) continue;
      std::string s;
      for (int i = 0; i < n; ++i) s += a + " ";
      e.run(Case("repetitions", s));
    }
  for (size_t n : {127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 16385, 32768, 65536, 100000})
    for (const char* a : {"a", "1", "'", "''", "\"", " ", "\n", "-", "--\n", "(", "a ", "1 ", "'s' ", ".", "0", "?", ";", "S ", "--", "'\n", "\"q\" "}) {
      if (!e.mine()) continue;
      std::string s;
      for (size_t i = 0; i < n; ++i) s += a;
      e.run(Case("long texts", s));
      e.run(Case("long texts", "SELECT " + s + " b"));
      e.run(Case("long texts", "'" + s + "' b"));
      e.run(Case("long texts", "--" + s + "\nb"));
    }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["characters"] = thorough ? "all texts of up to 2 bytes, 5 of 22 and 6 of 13 character classes, 6 of 17 operator characters" : "all texts of up to 2 bytes, 5 of 22 character classes, 5 of 17 operator characters";
  b["words"] = "all words of up to 4 capital letters; every reserved word (and 35 others) with each single-character change over 63 characters, every case for words up to 8 (thorough 12) letters; all pairs";
  b["adjacent tokens"] = "all pairs of 176 spellings with 7 separators; all sequences of up to 4 (5) of 20 spellings";
  b["vectors"] = "all vectors of up to 2 token codes (and some of 1000 and 32767) before the call, 18 texts once and twice; all pairs of 176 spellings in successive calls with one vector";
  b["repetitions"] = "each token repeated 0..64 times, 21 pieces up to 100000 times";
}
