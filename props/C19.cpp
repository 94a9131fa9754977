// Size and nesting do not change the result.
#include <cstring>
#include <cstdlib>
#include <set>

#include "aspects.h"
#include "constants.h"
#include "explore.h"
#include "families.h"

const char* const kProperty = "C19";

using hsql::SQLParser;
using hsql::SQLParserResult;

// args: family, size[, family, size]. The text is parsed and the result destroyed on a stack of ordinary size; only the
// comparison runs on a large one.
std::string check(const Case& c) {
  if (c.args.size() == 1) return compare(c.args[0], A_VALID | A_TREE | A_ALL | A_PARAMS | A_LENGTH | (strcmp(c.phase, kDeep) ? A_POS : A_DEEP));
  if (c.args.size() == 4 && c.args[0] == "pump") {  // args: "pump", number of repetitions, text with \x01 around the part
    const std::string& s = c.args[2];
    const size_t i = s.find('\x01'), j = s.rfind('\x01');
    const std::string part = s.substr(i + 1, j - i - 1);
    std::string x = s.substr(0, i);
    for (long n = atol(c.args[1].c_str()); n > 0; --n) x += part;
    return compare(x + s.substr(j + 1), A_VALID | A_TREE | A_ALL | A_PARAMS | A_LENGTH | A_DEEP);
  }
  bool deep = false;
  size_t depth = 0;
  std::string text;
  for (size_t i = 0; i + 1 < c.args.size(); i += 2) {
    const Family* f = family(c.args[i]);
    const size_t n = size_t(atol(c.args[i + 1].c_str()));
    if (f->nested) {
      deep = true;
      depth = std::max(depth, n);
    }
    if (i) text += ";\n";
    text += f->text(n);
  }
  SQLParserResult r;
  const bool returned = SQLParser::parse(text, &r);
  std::string d;
  on_big_stack([&] {
    const ref::Result x = ref::parse(text);
    if (deep && depth > 10 && !r.isValid()) {
      // Too deep, or wrong at a place that is too deep to be reached: reported as an error, and nothing else.
      d = all_or_nothing(r, returned);
      Engine::outcome("too deep");
      return;
    }
    d = judge(text, x, r, returned, A_VALID | A_TREE | A_ALL | A_PARAMS | A_LENGTH | A_POS);
  });
  if (!d.empty()) return d;
  std::vector<int16_t> tokens;
  if (!SQLParser::tokenize(text, &tokens)) return "tokenize returned false";
  size_t expected = ref::lex(text).size() - 1;
  if (tokens.size() != expected) return "tokenize returned " + std::to_string(tokens.size()) + " of " + std::to_string(expected) + " tokens";
  return "";
}

void explore(Engine& e) {
  for (auto& f : families()) {
    const std::string name = std::string(f.nested ? "deep " : "") + f.name;
    if (f.nested) {
      for (size_t n : family_sizes(e.thorough ? 10000 : 1025, e.thorough ? 1100 : 260))
        if (e.mine()) e.run(Case("nestings", name, std::to_string(n)));
    } else {
      for (size_t n : family_sizes(e.thorough ? 70000 : 10001, e.thorough ? 1100 : 130)) {
        if (e.mine()) e.run(Case("repetitions", name, std::to_string(n)));
      }
      if (!e.thorough)
        for (int n : {32769, 65537})
          if (e.mine()) e.run(Case("repetitions", name, std::to_string(n)));
    }
  }
  // Every name, number and string of every construct and derivation at many lengths.
  const std::vector<size_t> lengths = {1, 2, 7, 8, 15, 16, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 10000, 65536};
  GenOptions o;
  std::vector<Tokens> texts = constructs(ALL_KINDS);
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.params = !full;
    for (auto& t : bases(ALL_KINDS, o, full && !e.thorough ? 0 : 1)) texts.push_back(t);
  }
  for (auto& t : texts)
    if (e.mine()) substitute_lengths(t, lengths, [&](const Tokens& m) { e.run(Case("lengths", join(m))); });
  // Every part of up to 8 (thorough 14) tokens that can be repeated, found by trying: repeated.
  std::set<std::string> seen;
  for (auto& t : texts) {
    if (t.size() > 60 && !e.thorough) continue;
    const bool mine = e.mine();
    for (size_t i = 0; i < t.size(); ++i)
      for (size_t j = i + 1; j <= t.size() && j - i <= (e.thorough ? 14u : 8u); ++j) {
        const std::string part = " " + join(Tokens(t.begin() + long(i), t.begin() + long(j))), before = join(Tokens(t.begin(), t.begin() + long(i))), behind = " " + join(Tokens(t.begin() + long(j), t.end()));
        const bool first = seen.insert((i > 1 ? t[i - 2] : "") + " " + (i ? t[i - 1] : "") + "|" + part + "|" + (j < t.size() ? t[j] : "")).second;
        if (!mine || !(first || e.thorough)) continue;
        if (!ref::parse(before + part + part + behind).valid || !ref::parse(before + part + part + part + behind).valid) continue;
        const std::string marked = before + "\x01" + part + "\x01" + behind;
        for (int n : {2, 3, 4, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 99, 100, 101, 128, 129, 199, 200, 201, 256, 257, 512, 1000, 1025}) e.run(Case("repeated parts", std::vector<std::string>{"pump", std::to_string(n), marked, ""}));
        for (int n : {2048, 2049, 4096, 4097, 8193, 10001}) e.run(Case("repeated parts", std::vector<std::string>{"pump", std::to_string(n), marked, ""}));
      }
  }
  // Two families one after the other, so that one's size meets the other's.
  for (auto& f : families())
    for (auto& g : families()) {
      if (!e.mine()) continue;
      const std::string a = std::string(f.nested ? "deep " : "") + f.name, b = std::string(g.nested ? "deep " : "") + g.name;
      for (auto nm : {std::pair<int, int>{9, 9}, {60, 3}, {3, 60}, {200, 100}}) e.run(Case("pairs", std::vector<std::string>{a, std::to_string(nm.first), b, std::to_string(nm.second)}));
    }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  size_t lists = 0, deep = 0;
  for (auto& f : families()) (f.nested ? deep : lists)++;
  b["repetitions"] = std::to_string(lists) + " repeatable parts and lengths, every number 0.." + (thorough ? "1100" : "130") + " and the surroundings of all powers of two and ten up to " + (thorough ? "70000" : "10001, and 32769 and 65537");
  b["nestings"] = std::to_string(deep) + " recursive constructs, every depth 0.." + (thorough ? "1100 and surroundings of powers up to 10000" : "260 and surroundings of powers up to 1025");
  b["lengths"] = "every name, number and string of constructs and derivations with 1 non-default choice (full profile, quick: 0), 29 lengths up to 65536";
  b["repeated parts"] = std::string("every part of up to ") + (thorough ? "14" : "8") + " tokens of the same texts that can be repeated, 32 times as often up to 10001";
  b["pairs"] = "all pairs of families at 4 combinations of sizes";
}
