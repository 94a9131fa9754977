#include "ref.h"

#include <cstdlib>
#include <cstring>
#include <unordered_map>

namespace ref {

static char up(char c) { return c >= 'a' && c <= 'z' ? char(c - 'a' + 'A') : c; }
static bool letter(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool space(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }

const char* keyword_name(int kind) {
  switch (kind) {
#define X(n) \
  case K_##n: \
    return #n;
    REF_KEYWORDS(X)
#undef X
  }
  return nullptr;
}

static const std::unordered_map<std::string, int>& keywords() {
  static const std::unordered_map<std::string, int> m = {
#define X(n) {#n, K_##n},
      REF_KEYWORDS(X)
#undef X
  };
  return m;
}

// Is s[p..] a two-word token: `first` already matched as a whole word, then white space, then `second` (as a prefix)?
static size_t two_words(std::string_view s, size_t p, const char* second) {
  size_t q = p;
  while (q < s.size() && space(s[q])) ++q;
  if (q == p) return 0;
  size_t n = strlen(second);
  if (q + n > s.size()) return 0;
  for (size_t i = 0; i < n; ++i)
    if (up(s[q + i]) != second[i]) return 0;
  return q + n;
}

// The exact decimal value as the nearest double, in the C locale; false if it is beyond the range.
static bool decimal(const std::string& s, double* v) {
  // Independent of LC_NUMERIC: replace the point by an exponent.
  std::string digits;
  long exponent = 0;
  bool point = false;
  for (char c : s) {
    if (c == '.') {
      point = true;
    } else {
      digits += c;
      if (point) --exponent;
    }
  }
  digits += "e" + std::to_string(exponent);
  *v = strtod(digits.c_str(), nullptr);
  return *v <= 1.7976931348623157e308;
}

std::vector<Tok> lex(std::string_view s) {
  std::vector<Tok> out;
  size_t p = 0;
  const size_t n = s.size();
  static const char kMin[] = "-9223372036854775808";
  auto add = [&](int kind, size_t end) -> Tok& {
    out.emplace_back();
    out.back().kind = kind;
    out.back().beg = p;
    out.back().end = end;
    p = end;
    return out.back();
  };
  while (p < n) {
    const char c = s[p];
    if (space(c)) {
      ++p;
      continue;
    }
    if (c == '-' && p + 1 < n && s[p + 1] == '-') {
      p += 2;
      while (p < n && s[p] != '\n' && s[p] != '\0') ++p;
      if (p < n && s[p] == '\0') add(K_ERR, p + 1);
      continue;
    }
    if (letter(c)) {
      size_t q = p;
      std::string word;
      while (q < n && (letter(s[q]) || digit(s[q]) || s[q] == '_')) word += up(s[q++]);
      if (word == "CURRENT") {
        if (size_t e = two_words(s, q, "ROW")) {
          add(K_CURRENT_ROW, e);
          continue;
        }
      }
      if (word == "CHARACTER") {
        if (size_t e = two_words(s, q, "VARYING")) {
          add(K_CHARACTER_VARYING, e);
          continue;
        }
      }
      auto it = keywords().find(word);
      if (it != keywords().end()) {
        add(it->second, q);
      } else {
        std::string v(s.substr(p, q - p));
        add(K_IDENT, q).str = v;
      }
      continue;
    }
    if (digit(c) || (c == '.' && p + 1 < n && digit(s[p + 1]))) {
      size_t q = p;
      while (q < n && digit(s[q])) ++q;
      if (q < n && s[q] == '.') {
        ++q;
        while (q < n && digit(s[q])) ++q;
        double v;
        bool ok = decimal(std::string(s.substr(p, q - p)), &v);
        Tok& t = add(ok ? K_FLOATVAL : K_ERR, q);
        t.fval = v;
        continue;
      }
      unsigned __int128 v = 0;
      bool ok = true;
      for (size_t i = p; i < q; ++i) {
        v = v * 10 + unsigned(s[i] - '0');
        if (v > (unsigned __int128)INT64_MAX) {
          ok = false;
          break;
        }
      }
      Tok& t = add(ok ? K_INTVAL : K_ERR, q);
      t.ival = int64_t(v);
      continue;
    }
    if (c == '-' && s.compare(p, sizeof kMin - 1, kMin) == 0) {
      add(K_INTVAL, p + sizeof kMin - 1).ival = INT64_MIN;
      continue;
    }
    if (c == '"') {
      size_t q = p + 1;
      while (q < n && s[q] != '"' && s[q] != '\n' && s[q] != '\0') ++q;
      if (q < n && s[q] == '"' && q > p + 1) {
        std::string v(s.substr(p + 1, q - p - 1));
        add(K_IDENT, q + 1).str = v;
      } else {
        add(K_ERR, p + 1);
      }
      continue;
    }
    if (c == '\'') {
      size_t q = p + 1;
      std::string v;
      bool closed = false, nul = false;
      while (q < n) {
        if (s[q] == '\'') {
          if (q + 1 < n && s[q + 1] == '\'') {
            v += '\'';
            q += 2;
            continue;
          }
          closed = true;
          ++q;
          break;
        }
        if (s[q] == '\0') {
          nul = true;
          ++q;
          break;
        }
        v += s[q++];
      }
      (void)nul;
      add(closed ? K_STRING : K_ERR, q).str = v;
      continue;
    }
    if (p + 1 < n) {
      const char d = s[p + 1];
      int k = 0;
      if (c == '=' && d == '=') k = K_EQEQ;
      if (c == '!' && d == '=') k = K_NE;
      if (c == '<' && d == '>') k = K_NE;
      if (c == '<' && d == '=') k = K_LE;
      if (c == '>' && d == '=') k = K_GE;
      if (c == '|' && d == '|') k = K_CONCAT;
      if (k) {
        add(k, p + 2);
        continue;
      }
    }
    if (c != '\0' && strchr("-+*/(){},.;<>=^%:?[]|", c))
      add((unsigned char)c, p + 1);
    else
      add(K_ERR, p + 1);
  }
  p = n;
  add(K_EOF, n);
  return out;
}

std::string quote(std::string_view s) {
  std::string r = "\"";
  static const char* hex = "0123456789abcdef";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 32 || c >= 127) {
      r += "\\x";
      r += hex[c >> 4];
      r += hex[c & 15];
    } else {
      r += char(c);
    }
  }
  return r + "\"";
}

}  // namespace ref
