#include "constants.h"

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <set>

#include "families.h"
#include "ref.h"

namespace {

struct Constants {
  std::vector<size_t> numbers;
  std::vector<std::string> texts;
  Tokens names, values, strs;
  Constants() {
    const char* path = getenv("MC_CONSTANTS");
    if (!path) return;
    std::ifstream in(path);
    std::string line;
    std::set<size_t> n;
    while (std::getline(in, line)) {
      if (line.compare(0, 2, "n ") == 0) {
        const unsigned long long v = strtoull(line.c_str() + 2, nullptr, 10);
        for (unsigned long long d : {v - 1, v, v + 1})
          if (d < (1ull << 62) || d > ~0ull - 2) n.insert(d);
        values.push_back(std::to_string(v));
      } else if (line.compare(0, 2, "t ") == 0) {
        std::string s;
        for (size_t i = 2; i + 1 < line.size(); i += 2) s += char(strtol(line.substr(i, 2).c_str(), nullptr, 16));
        texts.push_back(s);
      }
    }
    for (size_t v : n)
      if (v > 1 && v < size_t(1) << 62) numbers.push_back(v);
    const Tokens plain = values;
    for (auto& v : plain) {
      if (v.size() > 19) continue;
      const unsigned long long x = strtoull(v.c_str(), nullptr, 10);
      for (const std::string& w : {std::to_string(x - 1), std::to_string(x + 1), "-" + v, "0" + v, v + ".0", v + ".5"})
        if (w.size() < 30) values.push_back(w);
    }
    auto add = [](Tokens& to, const std::string& s) {
      if (std::find(to.begin(), to.end(), s) == to.end()) to.push_back(s);
    };
    for (auto& s : texts) {
      if (s.empty()) continue;
      std::string lower, upper, doubled;
      for (char c : s) {
        lower += char(tolower(static_cast<unsigned char>(c)));
        upper += char(toupper(static_cast<unsigned char>(c)));
        doubled += c;
        if (c == '\'') doubled += c;
      }
      for (auto& w : {s, lower, upper})
        for (const std::string& x : {w, w + "x", w + "_1", "x" + w, "x_" + w}) {
          if (std::all_of(x.begin(), x.end(), [](unsigned char c) { return isalnum(c) || c == '_'; }) && !isdigit(static_cast<unsigned char>(x[0])) && x[0] != '_') add(names, x);
          if (x.find('"') == std::string::npos) add(names, "\"" + x + "\"");
        }
      if (s.find('"') == std::string::npos)
        for (const std::string& x : {"x" + s + "y", s + s, " " + s, s + " "}) add(names, "\"" + x + "\"");
      for (const std::string& x : {doubled, doubled + "x", "x" + doubled, "x" + doubled + "y", doubled + doubled, " " + doubled, doubled + " ", doubled + ";"}) add(strs, "'" + x + "'");
      if (s.find('\'') == std::string::npos) add(strs, "'" + lower + "'"), add(strs, "'" + upper + "'");
      if (std::all_of(s.begin(), s.end(), [](unsigned char c) { return isdigit(c); }) && s.size() < 25) add(values, s);
    }
    for (size_t v : numbers) {  // dates and intervals of these numbers
      if (v > 99999) continue;
      const std::string d = std::to_string(v);
      add(strs, "'" + d + "'");
      add(strs, "'" + d + " days'");
      if (v < 13) add(strs, v < 10 ? "'2020-0" + d + "-03'" : "'2020-" + d + "-03'");
      if (v < 32) add(strs, v < 10 ? "'2020-01-0" + d + "'" : "'2020-01-" + d + "'");
      if (v > 31 && v < 10000) add(strs, "'" + std::string(4 - d.size(), '0') + d + "-02-28'"), add(strs, "'" + std::string(4 - d.size(), '0') + d + "-02-29'");
    }
  }
};

const Constants& all() {
  static const Constants* c = new Constants;
  return *c;
}

enum Class { OTHER, NAME, NUMBER, STRING };
Class class_of(const std::string& w) {
  if (w[0] == 'n' && w.size() > 1 && w[1] >= '0' && w[1] <= '9') return NAME;
  if (w[0] == '"' && w.size() > 2) return NAME;
  if (w[0] >= '0' && w[0] <= '9') return NUMBER;
  if (w[0] == '\'') return STRING;
  return OTHER;
}

}  // namespace

const std::vector<size_t>& constant_numbers() { return all().numbers; }
const std::vector<std::string>& constant_texts() { return all().texts; }
const Tokens& constant_names() { return all().names; }
const Tokens& constant_values() { return all().values; }
const Tokens& constant_strings() { return all().strs; }

void constants(Engine& e, unsigned kinds, const std::function<void(const char*, const std::string&)>& put) {
  const Constants& k = all();
  if (k.numbers.empty() && k.texts.empty()) return;
  const char* const phase = "constants of the code";
  auto f = [&](const std::string& s) { put(phase, s); };
  auto tokens = [&](const Tokens& t) { put(phase, join(t)); };
  // A limit for sources with very many new constants.
  const time_t until = time(nullptr) + (e.thorough ? 300 : 150);
  auto unit = [&] { return !e.stop() && time(nullptr) < until && e.mine(); };

  std::vector<Tokens> texts = constructs(kinds), simple;
  GenOptions o;
  for (auto& t : bases(kinds, o, 0)) simple.push_back(t);
  o.full = true;
  for (auto& t : bases(kinds, o, 0)) simple.push_back(t);
  o.full = false;
  for (auto& t : bases(kinds, o, 1)) texts.push_back(t);
  texts.insert(texts.end(), simple.begin(), simple.end());

  std::vector<size_t> lengths, times;
  for (size_t n : k.numbers) {
    if (n <= 20000) lengths.push_back(n);
    if (n <= 300) times.push_back(n);
  }
  auto of = [&](Class c) -> const Tokens& {
    static const Tokens none;
    return c == NAME ? k.names : c == NUMBER ? k.values : c == STRING ? k.strs : none;
  };
  // Names, numbers, strings: one by one and all at once.
  for (auto& t : texts) {
    if (!unit()) continue;
    Tokens m = t;
    for (size_t p = 0; p < t.size(); ++p) {
      for (auto& x : of(class_of(t[p]))) {
        m[p] = x;
        tokens(m);
      }
      if (class_of(t[p]) == STRING) {
        for (auto& x : k.values) m[p] = "'" + x + "'", tokens(m);
      }
      m[p] = t[p];
    }
    for (Class c : {NAME, NUMBER, STRING})
      for (auto& x : of(c)) {
        m = t;
        for (auto& w : m)
          if (class_of(w) == c) w = x;
        tokens(m);
      }
    if (!lengths.empty()) substitute_lengths(t, lengths, tokens);
    // Repeated parts may nest.
    if (!times.empty()) repeat_parts(t, 6, times, [&](const Tokens& m) { put(m.size() > 60 ? kDeep : phase, join(m)); });
  }
  // Pairs of leaves of any classes.
  auto few = [&](Class c) {
    Tokens r;
    if (c == NAME)
      for (auto& s : k.texts) {
        const bool word = !s.empty() && std::all_of(s.begin(), s.end(), [](unsigned char x) { return isalnum(x) || x == '_'; }) && isalpha(static_cast<unsigned char>(s[0]));
        if (word) r.push_back(s);
        if (!s.empty() && s.find('"') == std::string::npos) r.push_back("\"" + s + "\"");
      }
    else if (c == STRING)
      for (auto& s : k.texts) {
        if (s.find('\'') == std::string::npos) r.push_back("'" + s + "'");
      }
    for (size_t n : k.numbers) {
      if (c == NUMBER && r.size() < 8) r.push_back(std::to_string(n));
      if (n < 300 && c == NAME && r.size() < 8) r.push_back(std::string(n, 'n'));
      if (n < 300 && c == STRING && r.size() < 8) r.push_back("'" + std::string(n, 's') + "'");
    }
    if (r.size() > 8) r.resize(8);
    return r;
  };
  const Tokens pairs[4] = {{}, few(NAME), few(NUMBER), few(STRING)};
  for (auto& t : texts) {
    if (!unit()) continue;
    Tokens m = t;
    for (size_t p = 0; p < t.size(); ++p)
      for (size_t q = p + 1; q < t.size(); ++q) {
        for (auto& x : pairs[class_of(t[p])])
          for (auto& y : pairs[class_of(t[q])]) {
            m[p] = x;
            m[q] = y;
            tokens(m);
          }
        m[p] = t[p];
        m[q] = t[q];
      }
  }
  // Numbers of repetitions, and depths.
  for (auto& x : families()) {
    if (kinds != ALL_KINDS && kinds != ~0u && !(kinds & family_kinds(x))) continue;
    for (size_t n : k.numbers)
      for (size_t m : {n - 2, n - 1, n, n + 1}) {
        if (m > (x.nested ? 300u : 20000u) || !unit()) continue;
        put(x.nested && m > 10 ? kDeep : phase, x.text(m));
      }
  }
  // Between tokens and instead of them, with and without blanks, in comments, in front and behind.
  std::vector<std::string> parts;
  for (auto& s : k.texts)
    if (!s.empty()) parts.push_back(s);
  for (auto& v : k.values)
    if (parts.size() < 60) parts.push_back(v);
  for (auto& t : texts) {
    if (!unit()) continue;
    const std::string whole = join(t);
    for (auto& s : parts) {
      for (const char* sep : {"", " ", "\n", ";", "; "}) {
        f(s + sep + whole);
        f(whole + sep + s);
        f(sep + s + sep + whole);
        f(whole + ";" + s + sep + whole);
      }
      for (const std::string& c : {"--" + s + "\n", "-- " + s + "\n", "--" + s + " x\n"}) {
        f(c + whole);
        f(whole + " " + c);
        f(whole + c + ";" + whole);
      }
    }
  }
  for (auto& t : simple) {
    for (auto& s : parts) {
      if (!unit()) continue;
      for (size_t p = 0; p <= t.size(); ++p) {
        const std::string a = join(Tokens(t.begin(), t.begin() + long(p))), b = join(Tokens(t.begin() + long(p), t.end()));
        for (const std::string& g : {s, " " + s, s + " ", " " + s + " ", "\n" + s + "\n", " --" + s + "\n", " " + s + s + " ", " -- " + s + "\n--" + s + "\n"}) f(a + g + b);
        if (p < t.size()) {
          const std::string c = join(Tokens(t.begin() + long(p) + 1, t.end()));
          f(a + " " + s + " " + c);
          for (auto& s2 : parts)
            if (parts.size() < 12) f(a + " " + s + " " + t[p] + " " + s2 + " " + c), f(a + " " + s + t[p] + s2 + " " + c);
        }
      }
      for (auto& s2 : parts)
        if (parts.size() < 30) f(s + join(t) + s2), f(s + " " + join(t) + " " + s2), f(join(t) + " " + s + s2);
    }
  }
  // The length of the whole, its number of lines and of blanks.
  for (auto& t : simple) {
    const std::string whole = join(t);
    for (size_t n : k.numbers) {
      if (n > 1u << 20 || !unit()) continue;
      for (const std::string& end : {"", ";", " FROM FROM", "; SELECT 'x"}) {
        const size_t have = whole.size() + end.size();
        f(whole + std::string(n, ' ') + end);
        f(whole + std::string(n, '\n') + end);
        f(std::string(n, ' ') + whole + end);
        f(std::string(n, '\n') + whole + end);
        if (n <= have + 3) continue;
        f(whole + std::string(n - have, ' ') + end);
        f(std::string(n - have, '\n') + whole + end);
        f("--" + std::string(n - have - 3, 'c') + "\n" + whole + end);
        f(whole + end + " --" + std::string(n - have - 3, 'c'));
        f(whole + std::string(n - have, ';') + end);
      }
      if (n < 2000) {
        std::string s;
        for (size_t i = 0; i < n; ++i) s += whole + ";";
        f(s);
        f(s + "SELECT FROM");
      }
    }
  }
}

std::string constants_bounds() {
  const Constants& k = all();
  return std::to_string(k.numbers.size()) + " numbers and " + std::to_string(k.texts.size()) + " texts that the sources have beyond those in mc/constants.txt, at most 32 and 32 of them and 150 s (thorough: 300 s): as names, values and strings (alone, all, pairs), lengths, repetitions, between and instead of tokens, in comments, and as lengths of the whole";
}

std::vector<std::string> constant_samples() {
  std::vector<std::string> r;
  const Constants& k = all();
  for (auto& s : k.texts) {
    r.push_back(s);
    r.push_back("SELECT a " + s);
    r.push_back("--" + s + "\nSELECT a");
    if (s.find('"') == std::string::npos) r.push_back("SELECT \"" + s + "\" FROM \"" + s + "\".\"" + s + "\"");
    if (s.find('\'') == std::string::npos) r.push_back("INSERT INTO t VALUES ('" + s + "', '" + s + "x')");
    if (r.size() > 40) break;
  }
  for (size_t n : k.numbers) {
    if (n > 20000) continue;
    r.push_back("SELECT " + std::to_string(n) + ", '" + std::string(n, 's') + "'");
    r.push_back("SELECT " + std::string(n, 'n') + " FROM \"" + std::string(n, ' ') + "\"");
    for (const char* f : {"statements", "placeholders", "values", "conjunction", "statements before an error"})
      if (n <= (strcmp(f, "conjunction") ? 2000 : 600) && family(f)) r.push_back(family(f)->text(n));
    if (r.size() > 80) break;
  }
  return r;
}
