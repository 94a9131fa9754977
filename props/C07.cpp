// Layout, comments and keyword case never change the meaning.
#include <cctype>
#include <set>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C07";

// args: a text, the same text in another layout. The implementation must return the same for both.
std::string check(const Case& c) {
  hsql::SQLParserResult a, b;
  hsql::SQLParser::parse(c.args[0], &a);
  hsql::SQLParser::parse(c.args[1], &b);
  Engine::outcome(c.args[1].substr(0, 64) + (b.isValid() ? "v" : "i"));
  if (a.isValid() != b.isValid())
    return std::string("the text is ") + (a.isValid() ? "valid" : "invalid") + ", in the other layout " + (b.isValid() ? "valid" : "invalid") + ": " + (b.errorMsg() ? b.errorMsg() : "");
  const std::string x = dump_all(a), y = dump_all(b);
  if (x != y) return "the other layout changes the result\nfrom " + x + "\nto " + y;
  return "";
}

static Tokens kGaps = {"  ", "\n", "\t", "\r", "\r\n", " \t\r\n ", "--c\n", "-- c\n", "--\n", "-- ' \" ; ( /*\n", "\n--x\n--y\n", " -- a\r\n", "---\n", "-- -- x\n\n", "--\x80\xff\n", "--select\n", "\n\n\n",
                             "                                                                "};
static Tokens kEnds = {"", " ", "\n", "\r\n", "\t", "--", "-- c", "--c\n", " -- 'x", "-- \"", "-- c\n-- d", "--;", "\n--;\n"};

static bool keyword(const std::string& t) {
  for (char c : t)
    if (!isupper((unsigned char)c) && c != ' ') return false;
  auto toks = ref::lex(t);
  return toks.size() == 2 && toks[0].kind > ref::K_CONCAT;
}
static std::string lower(std::string s) {
  for (char& c : s) c = char(tolower((unsigned char)c));
  return s;
}
static std::string mixed(std::string s, int odd) {
  for (size_t i = 0; i < s.size(); ++i)
    if (int(i % 2) == odd) s[i] = char(tolower((unsigned char)s[i]));
  return s;
}

// The reference says that two texts mean the same; the second one is then a layout of the first.
static bool same_meaning(const ref::Result& a, const std::string& da, const std::string& text) {
  ref::Result b = ref::parse(text);
  return a.valid == b.valid && !b.grey && da == dump_all(b);
}

static void layouts(Engine& e, const Tokens& t, bool deep) {
  const std::string base = join(t);
  const ref::Result r = ref::parse(base);
  if (r.grey) return;
  const std::string d = dump_all(r);
  auto offer = [&](const char* phase, const std::string& s) {
    if (s != base && same_meaning(r, d, s)) e.run(Case(phase, base, s));
  };
  auto spaced = [&](size_t gap, const std::string& sep) {
    std::string s;
    for (size_t i = 0; i < t.size(); ++i) {
      if (i) s += i == gap ? sep : " ";
      s += t[i];
    }
    return s;
  };
  for (size_t g = 1; g < t.size(); ++g) {
    for (auto& sep : kGaps) offer("one gap", spaced(g, sep));
    offer("one gap", spaced(g, ""));
  }
  for (auto& sep : kGaps) {
    offer("all gaps", join(t, sep.c_str()));
    offer("all gaps", sep + join(t, sep.c_str()) + sep);
    offer("ends", sep + base);
  }
  {  // as little white space as possible
    std::string s;
    for (auto& w : t) {
      const std::string glued = s + w;
      const auto a = ref::lex(s + " " + w), b = ref::lex(glued);
      bool same = a.size() == b.size();
      for (size_t i = 0; same && i < a.size(); ++i) same = a[i].kind == b[i].kind && a[i].str == b[i].str;
      s = same ? glued : s + " " + w;
    }
    offer("no gaps", s);
  }
  for (auto& end : kEnds) {
    offer("ends", base + end);
    offer("ends", base + ";" + end);
    offer("ends", base + " ;" + end);
    offer("ends", base + "--\n;" + end);
  }
  // Keyword case.
  Tokens low = t, mix0 = t, mix1 = t;
  for (size_t i = 0; i < t.size(); ++i) {
    if (!keyword(t[i])) continue;
    low[i] = lower(t[i]);
    mix0[i] = mixed(t[i], 0);
    mix1[i] = mixed(t[i], 1);
    for (const std::string& w : {low[i], mix0[i], mix1[i]}) {
      Tokens x = t;
      x[i] = w;
      offer("keyword case", join(x));
    }
    if (t[i].find(' ') != std::string::npos) {
      for (auto& sep : kGaps) {
        std::string w = t[i];
        w.replace(w.find(' '), 1, sep);
        Tokens x = t;
        x[i] = w;
        offer("two-word tokens", join(x));
      }
    }
  }
  offer("keyword case", join(low));
  offer("keyword case", join(mix0));
  offer("keyword case", join(mix1));
  offer("keyword case", join(low, "\n"));
  // Redundant parentheses around any part that they leave unchanged.
  if (r.valid) {
    for (size_t i = 0; i < t.size(); ++i)
      for (size_t j = i + 1; j <= t.size() && j < i + 12; ++j) {
        for (int n = 1; n <= (deep ? 3 : 2); ++n) {
          std::string s;
          for (size_t k = 0; k < t.size(); ++k) {
            if (k) s += " ";
            if (k == i) s += std::string(size_t(n), '(') + " ";
            s += t[k];
            if (k + 1 == j) s += " " + std::string(size_t(n), ')');
          }
          offer("redundant parentheses", s);
        }
      }
  }
  // Pairs of gaps.
  if (deep || t.size() <= 12) {
    for (size_t g = 1; g < t.size(); ++g)
      for (size_t h = g + 1; h < t.size(); ++h)
        for (const char* x : {"\n", "--c\n", ""})
          for (const char* y : {"\t", "-- '\n", ""}) {
            std::string s;
            for (size_t i = 0; i < t.size(); ++i) {
              if (i) s += i == g ? x : i == h ? y : " ";
              s += t[i];
            }
            offer("two gaps", s);
          }
  }
}

void explore(Engine& e) {
  // What the sources themselves distinguish.
  for (auto& s : constant_texts()) {
    if (kGaps.size() > 60) break;
    if (s.find('\n') == std::string::npos)
      for (const std::string& c : {"--" + s + "\n", "-- " + s + " x\n", "--x " + s + "\n"}) kGaps.push_back(c), kEnds.push_back(c);
    else kGaps.push_back("--" + s + "\n");
    if (s.find_first_not_of(" \t\n\r") == std::string::npos) kGaps.push_back(s);
  }
  for (size_t n : constant_numbers()) {
    if (n > 5000 || kGaps.size() > 90) continue;
    for (char c : std::string(" \n\t")) kGaps.push_back(std::string(n, c)), kEnds.push_back(std::string(n, c));
    if (n > 3) kGaps.push_back("--" + std::string(n - 3, 'c') + "\n");
  }
  GenOptions o;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (int extra = 0; extra < 2; ++extra) {
      o.extra = extra;
      const unsigned kinds = full && !e.thorough ? ALL_KINDS & ~(1u << G_SELECT) : unsigned(ALL_KINDS);
      for (auto& t : bases(kinds, o, 1))
        if (e.mine() && !e.stop()) layouts(e, t, e.thorough);
    }
  }
  // Every case of every keyword, once.
  o.full = o.extra = false;
  std::set<std::string> seen;
  auto all = constructs(ALL_KINDS);
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (auto& t : bases(ALL_KINDS, o, 1)) all.push_back(t);
  }
  for (auto& t : all) {
    if (ref::parse(join(t)).grey) continue;
    for (size_t i = 0; i < t.size(); ++i) {
      const std::string w = t[i];
      if (!keyword(w) || !seen.insert(w).second || !e.mine()) continue;
      const size_t n = w.size();
      auto offer = [&](const std::string& v) {
        Tokens x = t;
        x[i] = v;
        e.run(Case("every case", join(t), join(x)));
      };
      if (n <= (e.thorough ? 16u : 12u))
        for (size_t m = 1; m < size_t(1) << n; ++m) {
          std::string v = w;
          for (size_t k = 0; k < n; ++k)
            if (m >> k & 1) v[k] = char(tolower((unsigned char)v[k]));
          offer(v);
        }
      for (size_t b = 0; b < n; ++b)
        for (size_t z = b; z < n; ++z) {
          std::string v = w, u = lower(w);
          for (size_t k = b; k <= z; ++k) {
            v[k] = char(tolower((unsigned char)w[k]));
            u[k] = w[k];
          }
          offer(v);
          offer(u);
        }
    }
  }
  for (auto& t : constructs(ALL_KINDS))
    if (e.mine()) layouts(e, t, e.thorough);
  o.full = true;
  for (auto& t : bases(1u << G_SELECT, o, 0))
    if (e.mine()) layouts(e, t, e.thorough);
  if (e.thorough) {
    o.full = false;
    o.extra = true;
    sentences(e, ALL_KINDS & ~(1u << G_SELECT), o, 2, [&](const Tokens& t) { layouts(e, t, false); });
  }
  // Texts that are not SQL stay so.
  o.full = false;
  o.extra = false;
  for (auto& t : bases(ALL_KINDS, o, e.thorough ? 1 : 0)) {
    if (!e.mine()) continue;
    mutate(t, {"a", "(", ")", ",", "SELECT", "'s'", "1", ";", "\"", "$"}, [&](const Tokens& m) {
      const std::string base = join(m);
      const ref::Result r = ref::parse(base);
      if (r.valid || r.grey) return;
      for (auto& sep : kGaps) {
        const std::string s = join(m, sep.c_str());
        if (!ref::parse(s).valid) e.run(Case("invalid texts", base, s));
      }
    });
  }
  // Strings and names with white space and comment markers: only the layout around them changes.
  for (const char* s : {"'a  b'", "'a\nb'", "'--'", "'a--b\n'", "'\t'", "'\r\n'", "\"a  b\"", "\"--\"", "\"x -- y\"", "'; SELECT'", "'(' ", "' '", "\" \"", "'SELECT'", "\"Select\"", "'from'", "\"\tx\"", "'\"'", "\"'\""})
    for (const Tokens& t : {Tokens{"SELECT", s, ",", "b", "FROM", "t", "WHERE", "c", "=", s}, Tokens{"SELECT", s, s}, Tokens{"COPY", "t", "FROM", "'x'", "(", "NULL", s, ")"},
                            Tokens{"SELECT", "a", "AS", s, "FROM", s, ".", s}, Tokens{"PREPARE", "p", "FROM", s}, Tokens{"INSERT", "INTO", s, "VALUES", "(", s, ")"}})
      if (e.mine()) layouts(e, t, true);
  // The same far behind the start, and behind comments with quotes.
  for (auto t : constructs(ALL_KINDS)) {
    if (!e.mine()) continue;
    for (auto& w : t) {
      if (w[0] == '\'' && w.size() > 3) w.insert(2, "\t  x--");
      if (w[0] == '"' && w.size() > 3) w.insert(2, "\t  x--");
    }
    const std::string base = join(t);
    const ref::Result r = ref::parse(base);
    if (r.grey) continue;
    const std::string d = dump_all(r);
    std::vector<size_t> padding = {0, 600, 5000, 20000, 70000};
    for (const char* quote : {"", "-- '\n", "-- \"\n", "--\t' \" (\n", "\t", "--(\n"})
      for (size_t n : padding)
        for (char c : std::string(" \n\t"))
          for (size_t at : {size_t(0), t.size() / 2, t.size() - 1}) {
            std::string s;
            for (size_t i = 0; i < t.size(); ++i) {
              if (i == at) s += std::string(n, c) + (s.empty() ? "" : " ") + quote;
              s += (i ? "\t" : "") + t[i];
            }
            if (same_meaning(r, d, s)) e.run(Case("far behind", base, s));
          }
  }
  // The comment reaches exactly to the end of its line, wherever it stands.
  const Tokens chars = {"--", "\n", "\r", " ", "'", "\"", ";", "a", ",", "-", "1"};
  strings(e, chars, e.thorough ? 6 : 5, [&](const std::string& s) {
    std::string plain;  // the reference's lexer removes the comments
    const std::string text = "SELECT b" + s + "\nc";
    bool bad = false;
    for (auto& k : ref::lex(text)) {
      if (k.kind == ref::K_ERR) bad = true;
      if (k.kind != ref::K_EOF) plain += text.substr(k.beg, k.end - k.beg) + " ";
    }
    if (!bad && plain != text) {
      if (same_meaning(ref::parse(plain), dump_all(ref::parse(plain)), text)) e.run(Case("comment ends", plain, text));
    }
  });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["every case"] = std::string("each keyword in every case (up to ") + (thorough ? "16" : "12") + " letters; longer ones: every span of letters)";
  b["base texts"] = thorough ? "derivations with 1 (non-SELECT minimal profile: 2) non-default choices" : "derivations with 1 (SELECT full profile: 0) non-default choices";
  b["layouts"] = "each gap, and all gaps, by each of 18 separators and by nothing where possible; pairs of gaps; 13 text ends with and without semicolon; case of each keyword and of all; redundant parentheses around every span of up to 11 tokens";
  b["far behind"] = "a text of each construct, strings with tabs and comment markers, behind up to 70000 bytes of each of 3 kinds of white space and 6 comments at 3 places";
  b["comment ends"] = thorough ? "all strings of up to 6 of 11 pieces" : "all strings of up to 5 of 11 pieces";
}
