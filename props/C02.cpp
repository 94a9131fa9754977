// A SELECT's syntax tree has every clause of the text and nothing else.
#include <cstring>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C02";

std::string check(const Case& c) { return compare(c.args[0], A_TREE | (strcmp(c.phase, kDeep) ? 0 : A_DEEP)); }

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  sizes(e, 1u << G_SELECT, 40, e.thorough ? 70000 : 4097, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
  variations(e, 1u << G_SELECT, [&](const Tokens& m) { e.run(Case("unusual names and values", join(m))); });
  GenOptions o;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    o.extra = true;
    sentences(e, 1u << G_SELECT, o, 2, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
    o.extra = false;
  }
  o.full = false;
  o.extra = false;
  if (e.thorough) sentences(e, 1u << G_SELECT, o, 3, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
  select_sequences(e, 6 + deep, run);
  trie(e, "SELECT a", alphabet(), 3 + deep, run("all tokens"));
  trie(e, "SELECT a FROM t", alphabet(), 3 + deep, run("all tokens"));
  // What the sources themselves distinguish.
  constants(e, 1u << G_SELECT, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["derivations"] = thorough ? "SELECT statements with up to 2 (full profile: all clauses present) or 3 (minimal profile) non-default choices"
                              : "SELECT statements with up to 2 non-default choices, in the minimal and the full profile (all clauses present)";
  b["sizes"] = std::string("the families of repetitions of these statements at 0..40 and around powers up to ") + (thorough ? "70000" : "4097") + ", of nestings up to 300";
  b["unusual names and values"] = variations_bounds(thorough);
  b["sequences"] = select_sequences_bounds(6 + thorough);
}
