// Results are fully initialised, self-contained and reproducible: every text is parsed with several contents of new
// heap blocks and of the stack, every allocation is recorded, and the trees are read again after the text, and everything
// that other parses left behind, is gone.
#include <malloc.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <memory>

#include "aspects.h"
#include "constants.h"
#include "explore.h"
#include "families.h"

const char* const kProperty = "C20";

using namespace hsql;

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
}

namespace {

// Contents of new blocks: 0..255 this byte, 256 another byte for every block.
int filling = 0xa5;
unsigned char changing = 0;
unsigned char fill_byte() { return filling < 256 ? (unsigned char)filling : (changing = (unsigned char)(changing * 5 + 17)); }

// The living blocks that were allocated while `recording`.
struct Blocks {
  struct Slot {
    const void* p;
    size_t size;
    int owner;  // 0: not seen in a tree yet
  };
  Slot* slots = nullptr;
  size_t cap = 0, used = 0;  // used: with the removed ones, whose size is ~0
  static size_t h(const void* p) { return size_t((uint64_t(p) >> 4) * 0x9e3779b97f4a7c15ull >> 20); }
  void put(const void* p, size_t n) {
    if (used * 2 >= cap) grow();
    size_t i = h(p) & (cap - 1);
    while (slots[i].p && slots[i].p != p) i = (i + 1) & (cap - 1);
    if (!slots[i].p) ++used;
    slots[i] = {p, n, 0};
  }
  Slot* find(const void* p) {
    if (!cap) return nullptr;
    for (size_t i = h(p) & (cap - 1); slots[i].p; i = (i + 1) & (cap - 1))
      if (slots[i].p == p) return slots[i].size == ~size_t(0) ? nullptr : &slots[i];
    return nullptr;
  }
  void remove(const void* p) {
    if (Slot* s = find(p)) s->size = ~size_t(0);
  }
  void grow() {
    Slot* old = slots;
    const size_t n = cap;
    cap = cap ? cap * 2 : 1 << 12;
    slots = static_cast<Slot*>(__libc_calloc(cap, sizeof(Slot)));
    used = 0;
    for (size_t i = 0; i < n; ++i)
      if (old[i].p && old[i].size != ~size_t(0)) put(old[i].p, old[i].size);
    __libc_free(old);
  }
  void clear() {
    if (cap > 1 << 12) {
      __libc_free(slots);
      slots = nullptr;
      cap = 0;
    } else if (cap) {
      memset(slots, 0, cap * sizeof(Slot));
    }
    used = 0;
  }
};
Blocks blocks;
bool recording;

void* get(size_t n) {
  void* p = __libc_malloc(n);
  if (!p) return p;
  memset(p, fill_byte(), n);
  if (recording) blocks.put(p, n);
  return p;
}
void put(void* p) {
  if (!p) return;
  if (recording || blocks.used) blocks.remove(p);
  memset(p, 0xdb, malloc_usable_size(p));
  __libc_free(p);
}

}  // namespace

extern "C" {
void* malloc(size_t n) { return get(n); }
void free(void* p) { put(p); }
void* calloc(size_t n, size_t m) {
  void* p = __libc_calloc(n, m);
  if (p && recording) blocks.put(p, n * m);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return get(n);
  if (!n) {
    put(p);
    return nullptr;
  }
  void* q = get(n);
  if (!q) return q;
  memcpy(q, p, std::min(n, malloc_usable_size(p)));
  put(p);
  return q;
}
}
void* operator new(size_t n) {
  void* p = get(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

namespace {

__attribute__((noinline)) void dirty_stack(int byte, size_t n) {
  volatile char* a = static_cast<volatile char*>(__builtin_alloca(n));
  for (size_t i = 0; i < n; ++i) a[i] = char(byte < 256 ? byte : int(i * 31 + i / 7));
  asm volatile("" ::"r"(a) : "memory");
}

constexpr int kFills[] = {0x00, 0xff, 0x01, 0x7f, 256};

// Parses a text that stands in a block of its own, which is overwritten and freed afterwards.
std::string parse(const std::string& text, int fill, SQLParserResult& r, std::string& tokens) {
  auto s = std::make_unique<std::string>(text.data(), text.size());
  filling = fill;
  dirty_stack(fill, text.size() < 2000 ? 40000 : 100000);
  blocks.clear();
  recording = true;
  const bool ok = SQLParser::parse(*s, &r);
  recording = false;
  std::string d;
  if (!ok) d = "parse returned false";
  if (*s != text) d = "the text was changed";
  // Everything in the trees was allocated by this parse, once.
  std::string at;
  impl::Visitor v;
  v.block = [&](const void* p, const char* what) {
    if (!d.empty()) return;
    Blocks::Slot* b = blocks.find(p);
    if (!b)
      d = std::string("a tree refers to memory that was not allocated for it, or is freed: ") + what;
    else if (b->owner++)
      d = std::string("two places of the trees share their memory: ") + what;
    else if (!strcmp(what, "string") && !memchr(p, 0, b->size))
      d = "a string is not terminated";
  };
  for (auto* st : r.getStatements()) impl::visit(st, v);
  if (r.errorMsg() && d.empty()) {
    Blocks::Slot* b = blocks.find(r.errorMsg());
    if (!b)
      d = "the error message is not in memory of its own";
    else if (b->owner++)
      d = "the error message shares its memory";
  }
  std::vector<int16_t> t;
  dirty_stack(fill, 10000);
  const bool lexed = SQLParser::tokenize(*s, &t);
  if (*s != text && d.empty()) d = "the text was changed by tokenize";
  tokens = lexed ? "true" : "false";
  for (int16_t x : t) tokens += " " + std::to_string(x);
  std::fill(s->begin(), s->end(), '#');
  s.reset();
  filling = 0xa5;
  return d;
}

std::string differ(const char* when, const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  i = i < 60 ? 0 : i - 60;
  return std::string("the result differs ") + when + "\nfirst  ..." + a.substr(i, 300) + "\nsecond ..." + b.substr(i, 300);
}

}  // namespace

// args: a text; other texts that are parsed in between.
std::string check(const Case& c) {
  const std::string& text = c.args[0];
  const bool small = text.size() < 5000;
  std::string d, first, tokens, again;
  SQLParserResult kept;
  d = parse(text, kFills[0], kept, tokens);
  first = impl::dump(kept);
  Engine::outcome(first);
  for (size_t f = 1; f < sizeof kFills / sizeof *kFills && d.empty(); ++f) {
    if (!small && kFills[f] == 0x7f) continue;
    SQLParserResult r;
    d = parse(text, kFills[f], r, again);
    if (d.empty() && again != tokens) d = differ("in its tokens with other contents of new memory", tokens, again);
    const std::string second = impl::dump(r);
    if (d.empty() && second != first) d = differ("with other contents of new memory", first, second);
  }
  for (size_t i = 1; i < c.args.size() && d.empty(); ++i) {
    SQLParserResult other, repeated;
    d = parse(c.args[i], 256, other, again);
    if (!d.empty()) break;
    if (impl::dump(kept) != first) d = differ("after another parse", first, impl::dump(kept));
    const std::string o = impl::dump(other);
    if (d.empty()) d = parse(text, 0xff, repeated, again);
    if (d.empty() && impl::dump(repeated) != first) d = differ("when parsed after another text", first, impl::dump(repeated));
    if (d.empty() && impl::dump(other) != o) d = differ("after another parse", o, impl::dump(other));
    std::vector<const void*> owned;
    impl::Visitor v;
    v.block = [&](const void* p, const char*) { owned.push_back(p); };
    for (auto* r : {&kept, &other, &repeated})
      for (auto* s : r->getStatements()) impl::visit(s, v);
    std::sort(owned.begin(), owned.end());
    if (d.empty() && std::adjacent_find(owned.begin(), owned.end()) != owned.end()) d = "two results share memory";
    repeated.reset();
    other.reset();
    if (d.empty() && impl::dump(kept) != first) d = differ("after other results were destroyed", first, impl::dump(kept));
  }
  if (d.empty() && impl::dump(kept) != first) d = differ("after the text was freed", first, impl::dump(kept));
  return d;
}

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;
  auto run = [&](const char* phase) { return [&e, phase](const std::string& s) { e.run(Case(phase, s)); }; };
  GenOptions o;
  std::vector<std::string> one;
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (auto& t : bases(ALL_KINDS, o, 0)) one.push_back(join(t));
  }
  for (const char* s : {"SELECT 'x", "SELECT a FROM", "SELECT ?; DELETE FROM t WHERE ?", "", "SELECT 99999999999999999999", "CREATE TABLE t ( a INT NULL NOT NULL )", "SELECT INTERVAL '1 x'",
                        "SELECT \"q\", 's', 1.5, -9223372036854775808", "COPY t FROM 'a' ( ENCODING 'x' , ENCODING 'y' )", "SELECT a $"})
    one.push_back(s);
  for (auto& x : one)
    for (auto& y : one)
      if (e.mine()) {
        e.run(Case("other parses in between", std::vector<std::string>{x, y}));
        e.run(Case("other parses in between", std::vector<std::string>{x + ";" + y, y, y + "; " + x}));
      }
  for (int full = 0; full < 2; ++full) {
    o.full = full;
    for (int extra = 0; extra < 2; ++extra) {
      o.extra = extra;
      sentences(e, ALL_KINDS, o, deep || (!full && !extra) ? 2 : 1, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
    }
    o.extra = false;
    o.params = true;
    sentences(e, ALL_KINDS, o, 1 + deep, [&](const Tokens& t) { e.run(Case("derivations", join(t))); });
    o.params = false;
    size_t unit = 0;
    for (auto& t : bases(ALL_KINDS, o, deep)) {
      if (unit++ % e.shards != e.shard) continue;
      mutate(t, alphabet(), [&](const Tokens& m) { e.run(Case("changed derivations", join(m))); });
      substitute(t, [&](const Tokens& m) { e.run(Case("unusual names and values", join(m))); });
    }
  }
  contradictions(e, 2 + deep, run("contradictions"));
  changed_constructs(e, ALL_KINDS, [&](const Tokens& m) { e.run(Case("constructs", join(m))); });
  trie(e, "", alphabet(), 2 + deep, run("all tokens"));
  const Tokens chars = {"a", "1", ".", "'", "\"", "-", "\n", " ", "\xff", std::string(1, '\0'), ";", "(", "?", "9223372036854775808", "SELECT ", "*"};
  strings(e, chars, 4 + deep, run("characters"));
  for (auto& f : families())
    for (size_t n : family_sizes(f.nested || deep ? 1025 : 300, deep ? 130 : 24)) {
      if (!e.mine()) continue;
      e.run(Case("sizes", f.text(n)));
    }
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["contradictions"] = contradictions_bounds(2 + thorough);
  b["contents of new memory"] = "blocks and stack filled with 00, ff, 01, 7f and a byte that changes with every block; freed blocks with db";
  b["derivations"] = std::string("all derivations with up to ") + (thorough ? "2" : "2 (full profile and unusual leaves: 1)") + " non-default choices; with placeholders as leaves up to " + (thorough ? "2" : "1");
  b["other parses in between"] = "all pairs of 38 texts, alone and in lists";
  b["changed derivations"] = std::string("every single-token change of derivations with up to ") + (thorough ? "1" : "0") + " non-default choices";
  b["constructs"] = changed_constructs_bounds();
  b["sizes"] = std::string("every family at every size 0..") + (thorough ? "130 and the surroundings of powers up to 1025" : "24 and the surroundings of powers up to 300 (nested: 1025)");
}
