// Canonical text of syntax trees: "{Node key=value ...}", absent and default parts left out.
#pragma once
#include <cinttypes>
#include <cstdio>
#include <string>

#include "ref.h"

struct Writer {
  std::string o;
  void open(const char* type) {
    o += '{';
    o += type;
  }
  void close() { o += '}'; }
  void key(const char* k) {
    o += ' ';
    o += k;
    o += '=';
  }
  void word(const char* k, const std::string& v) {
    key(k);
    o += v;
  }
  void str(const char* k, std::string_view v) {
    key(k);
    o += ref::quote(v);
  }
  void num(const char* k, int64_t v) {
    if (v) word(k, std::to_string(v));
  }
  void real(const char* k, double v) {
    char b[40];
    snprintf(b, sizeof b, "%a", v);
    for (char* c = b; *c; ++c)
      if (*c == ',') *c = '.';  // a locale's
    if (v != 0 || b[0] == '-') word(k, b);
  }
  void flag(const char* k, bool v) {
    if (v) word(k, "true");
  }
  void lopen(const char* k) {
    key(k);
    o += '[';
  }
  void lclose() { o += ']'; }
};
