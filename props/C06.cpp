// Literals and identifiers keep their exact value.
#include <cstring>
#include <algorithm>
#include <set>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C06";

std::string check(const Case& c) { return compare(c.args[0], A_TREE | (strcmp(c.phase, kDeep) ? 0 : A_DEEP)); }

using u128 = unsigned __int128;
static std::string str(u128 v) {
  std::string s;
  do s.insert(s.begin(), char('0' + int(v % 10)));
  while (v /= 10);
  return s;
}

static std::vector<std::string> integers() {
  std::set<std::string> r;
  auto around = [&](u128 v) {
    for (int d = -2; d <= 2; ++d)
      if (d >= 0 || v >= u128(-d)) r.insert(str(v + u128(__int128(d))));
  };
  u128 p = 1;
  for (int k = 0; k <= 66; ++k, p *= 2) {
    around(p);
    around(p + p / 2);
  }
  p = 1;
  for (int k = 0; k <= 22; ++k, p *= 10)
    for (int m = 1; m <= 9; ++m) around(p * u128(m));
  return std::vector<std::string>(r.begin(), r.end());
}

static const char* kPlaces[] = {"SELECT %", "SELECT - %", "SELECT -%", "SELECT a - %", "SELECT a -%", "SELECT a FROM t LIMIT % OFFSET %", "SELECT TOP % a", "SELECT % DAYS", "SELECT - % HOURS",
                                "SELECT CAST ( a AS VARCHAR ( % ) )", "CREATE TABLE t ( a DECIMAL ( %, % ), b CHAR ( % ), c TIME ( % ) )", "SELECT ARRAY [ % ]", "SELECT a [ % ]", "INSERT INTO t VALUES ( %, -% )",
                                "SELECT f ( a ) OVER ( ROWS BETWEEN % PRECEDING AND % FOLLOWING )", "SELECT INTERVAL '%' SECOND", "SELECT INTERVAL '% days'", "SELECT INTERVAL '-% month'", "EXECUTE p ( - % )",
                                "SELECT a WITH HINT ( h ( % ) )", "SELECT a IN ( %, % )", "SELECT (%)", "SELECT %,%", "SELECT %;"};

static std::string put(const char* place, const std::string& v) {
  std::string s;
  for (const char* p = place; *p; ++p) {
    if (*p == '%')
      s += v;
    else
      s += *p;
  }
  return s;
}

void explore(Engine& e) {
  const int deep = e.thorough ? 1 : 0;

  // Integers: all short ones, and the surroundings of all powers of 2 and 10, with leading zeros, in every place.
  Tokens digits;
  for (char c = '0'; c <= '9'; ++c) digits.push_back(std::string(1, c));
  strings(e, digits, 4 + deep, [&](const std::string& s) {
    if (!s.empty()) e.run(Case("integers", "SELECT " + s));
  });
  for (auto& v : integers()) {
    if (!e.mine()) continue;
    for (const char* zeros : {"", "0", "00", "000000000000000000000"})
      for (auto* p : kPlaces) e.run(Case("integers", put(p, zeros + v)));
    for (auto suffix : {".", ".0", ".5", "e1", "E", "x", "_", ".e1", "..", ".1.2", " .5", ". 5", "-1", "--1", "'", "a"}) e.run(Case("numbers", "SELECT " + v + suffix));
  }

  // Decimals: all short ones; powers of 2 and 10 and the halves between neighbouring doubles; the limits of the range.
  const Tokens dec = {"0", "1", "5", "9", "."};
  strings(e, dec, 7 + deep, [&](const std::string& s) { e.run(Case("decimals", "SELECT " + s)); });
  const Tokens dec2 = {"1", ".", "-", "e", "+", " "};
  strings(e, dec2, 6 + deep, [&](const std::string& s) { e.run(Case("decimals", "SELECT " + s)); });
  std::vector<std::string> ds;
  for (int k = 1; k <= 340; ++k) {
    for (const char* d : {"1", "9", "25", "179769313486231570", "17976931348623158", "17976931348623159", "49406564584124654", "24703282292062327", "2470328229206232720882843964341106861825299013071623822127928412503377536351043"}) {
      ds.push_back(std::string(d) + std::string(size_t(k), '0') + ".0");
      ds.push_back("0." + std::string(size_t(k), '0') + d);
      ds.push_back("." + std::string(size_t(k), '0') + d);
    }
    ds.push_back(std::string(size_t(k), '9') + ".");
    ds.push_back("0." + std::string(size_t(k), '9'));
    ds.push_back("1." + std::string(size_t(k), '3'));
  }
  for (int k = 50; k <= 64; ++k) {  // halves: 2^k + odd, around 53 bits
    for (int d = 0; d < 9; ++d) {
      const u128 v = (u128(1) << k) + (k > 52 ? (u128(1) << (k - 53)) : 0) * u128(d);
      for (int x = -1; x <= 1; ++x)
        for (const char* f : {".0", ".5", ".4999999999999999999999999999", ".5000000000000000000000000001", "."}) ds.push_back(str(v + u128(__int128(x))) + f);
    }
  }
  for (auto& d : ds) {
    if (!e.mine()) continue;
    for (auto p : {"SELECT %", "SELECT -%", "INSERT INTO t VALUES ( % , - % )", "SELECT a * %"}) e.run(Case("decimals", put(p, d)));
  }

  // Strings and names: every byte, every pair of bytes, and short strings over the special characters.
  Tokens bytes;
  for (int c = 0; c < 256; ++c) bytes.push_back(std::string(1, char(c)));
  const Tokens special = {"'", "\"", "a", " ", "\n", "\\", "-", ";", "?", "%", "\xc3", "\t", "\r", std::string(1, '\0'), "/*", "A"};
  strings(e, bytes, 2, [&](const std::string& s) {
    e.run(Case("strings", "SELECT '" + s + "'"));
    e.run(Case("quoted names", "SELECT \"" + s + "\""));
  });
  strings(e, special, 4 + deep, [&](const std::string& s) {
    e.run(Case("strings", "SELECT '" + s + "', b"));
    e.run(Case("quoted names", "SELECT \"" + s + "\", b"));
    e.run(Case("strings", "COPY t FROM '" + s + "' ( NULL '" + s + "' )"));
  });
  const Tokens adjacent = {"'", "''", "'a'", "\"a\"", "a", "1", " ", "N", "\"", ",", "--\n"};
  strings(e, adjacent, 5 + deep, [&](const std::string& s) { e.run(Case("adjacent literals", "SELECT " + s)); });
  for (size_t n = 0; n <= 70; ++n) {
    for (int q = 0; q <= 3; ++q) {
      if (!e.mine()) continue;
      std::string body;
      for (size_t i = 0; i < n; ++i) body += char('a' + i % 26);
      for (size_t at : {size_t(0), n / 2, n}) {
        std::string s = body;
        s.insert(at, std::string(size_t(q) * 2, '\''));
        e.run(Case("strings", "SELECT '" + s + "'"));
        e.run(Case("strings", "SELECT '" + s + "', '" + s + "', \"" + s + "x\""));
        s = body;
        s.insert(at, std::string(size_t(q), '"'));
        e.run(Case("quoted names", "SELECT \"" + s + "\", 'x'"));
      }
    }
  }
  for (size_t n : {100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100000}) {
    if (!e.mine()) continue;
    for (const char* p : {"SELECT '%'", "SELECT \"%\"", "SELECT %", "SELECT a AS %, '%' FROM %.%", "COPY % FROM '%'", "SELECT '%''%'", "PREPARE % FROM '%'", "SELECT 'a\n%\n%'"})
      e.run(Case("lengths", put(p, std::string(n, 'z'))));
    e.run(Case("lengths", "SELECT '" + std::string(2 * n, '\'') + "'"));
    e.run(Case("lengths", "SELECT " + std::string(n, '0') + "7"));
    e.run(Case("lengths", "SELECT 1." + std::string(n, '0') + "7"));
    e.run(Case("lengths", "SELECT " + std::string(n, '7') + ".5"));
  }

  // Plain names.
  const Tokens idents = {"a", "Z", "_", "0", "9", "s", "E", "\"", "$", "\xc4", "."};
  strings(e, idents, 5 + deep, [&](const std::string& s) { e.run(Case("names", "SELECT " + s + " FROM " + s)); });

  // Dates, intervals, booleans and NULL.
  for (const char* y : {"0000", "0001", "1582", "1900", "1999", "2000", "2019", "2020", "2023", "2024", "2100", "9999", "10000", "20", "2", ""}) {
    if (!e.mine()) continue;
    for (int m = -1; m <= 14; ++m)
      for (int d = -1; d <= 33; ++d) {
        char b[64];
        for (const char* f : {"DATE '%s-%02d-%02d'", "DATE '%s-%d-%d'"}) {
          snprintf(b, sizeof b, f, y, m, d);
          e.run(Case("dates", std::string("SELECT ") + b));
          e.run(Case("dates", std::string("INSERT INTO t VALUES ( ") + b + " )"));
        }
      }
  }
  const Tokens date_chars = {"2", "0", "1", "-", "a", "/", ":", "''", "."};
  for (const std::string base : {"2020-02-29", "1999-12-31", "12 days", "-3 months", "7 Year", "1 second", "1  hour", "99999 minutes"}) {
    for (const char* prefix : {"DATE ", "INTERVAL ", "INTERVAL  \n", "DATE\t"}) {
      if (!e.mine()) continue;
      for (size_t p = 0; p <= base.size(); ++p) {
        for (int b = 1; b < 256; ++b) {
          if (b == '\'') continue;
          std::string s = base;
          s.insert(p, 1, char(b));
          e.run(Case("dates and intervals", std::string("SELECT ") + prefix + "'" + s + "'"));
          e.run(Case("dates and intervals", std::string("SELECT ") + prefix + "'" + s + "' DAY"));
          if (p < base.size()) {
            s = base;
            s[p] = char(b);
            e.run(Case("dates and intervals", std::string("SELECT ") + prefix + "'" + s + "'"));
          }
        }
        for (size_t q = p; q <= base.size(); ++q) e.run(Case("dates and intervals", std::string("SELECT ") + prefix + "'" + base.substr(0, p) + base.substr(q) + "'"));
      }
    }
  }
  strings(e, date_chars, 4 + deep, [&](const std::string& s) {
    e.run(Case("dates and intervals", "SELECT DATE '" + s + "'"));
    e.run(Case("dates and intervals", "SELECT INTERVAL '" + s + " day'"));
    e.run(Case("dates and intervals", "SELECT INTERVAL '" + s + "' DAY"));
  });
  for (const char* num : {"0", "1", "-1", "+1", " 1", "1 ", "", "-", "+-1", "1.5", "1e3", "0x10", "01", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "\t2", "1\n"})
    for (const char* gap : {" ", "", "  ", "\t", "\n", "-", "_", " - "})
      for (const char* unit : {"second", "minute", "hour", "day", "month", "year", "seconds", "minutes", "hours", "days", "months", "years", "DAY", "Days", "dAyS", "da", "dayss", "week", "d", "", "day ", "days x", "second1"}) {
        if (!e.mine()) continue;
        e.run(Case("intervals", std::string("SELECT INTERVAL '") + num + gap + unit + "'"));
        e.run(Case("intervals", std::string("SELECT - INTERVAL '") + num + gap + unit + "'"));
        for (const char* u : {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR", "DAYS", "year"}) e.run(Case("intervals", std::string("SELECT INTERVAL '") + num + gap + unit + "' " + u));
      }
  for (const char* w : {"TRUE", "true", "True", "FALSE", "false", "falsE", "NULL", "null", "nUll", "TRUE1", "_NULL", "\"TRUE\"", "'NULL'", "NULLS", "TRUEFALSE", "t", "f"})
    for (auto p : {"SELECT %", "SELECT % AS x, % y", "INSERT INTO t VALUES ( %, % )", "SELECT a = % AND % OR NOT %", "EXECUTE p ( % )", "SELECT - %"})
      if (e.mine()) e.run(Case("booleans and NULL", put(p, w)));

  // Two and three literals next to each other: none may influence the other.
  const Tokens literals = {"1", "0", "9223372036854775807", "-9223372036854775808", "1.5", ".25", "3.", "'a'", "''", "'b''c'", "\"d\"", "e", "TRUE", "FALSE", "NULL", "DATE '2020-02-29'", "INTERVAL '3 days'", "4 HOURS",
                           "- 5", "- 6.5", "?", "'\n'", "007", "0.1"};
  for (auto& x : literals)
    for (auto& y : literals) {
      if (!e.mine()) continue;
      for (const char* sep : {",", " , ", " + ", ";SELECT "}) e.run(Case("pairs", "SELECT " + x + sep + y));
      for (auto& z : literals) e.run(Case("triples", "SELECT " + x + ", " + y + ", " + z));
    }
  for (auto& x : alphabet())  // every keyword in quotes is a name, in a string a string
    if (e.mine() && x.find('"') == std::string::npos && x.find('\'') == std::string::npos)
      for (auto p : {"SELECT \"%\"", "SELECT '%'", "SELECT \"%\" . \"%\" FROM \"%\" . \"%\" AS \"%\"", "CREATE TABLE \"%\" ( \"%\" INT )", "SELECT %x", "SELECT x%", "SELECT _%", "SELECT %_", "SELECT %1"}) e.run(Case("reserved words in quotes", put(p, x)));
  variations(e, ALL_KINDS, [&](const Tokens& m) { e.run(Case("unusual names and values", join(m))); });
  // What the sources themselves distinguish.
  constants(e, ALL_KINDS, [&](const char* phase, const std::string& s) { e.run(Case(phase, s)); });
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["integers"] = thorough ? "all of up to 5 digits; 5 neighbours of 2^k, 1.5*2^k (k<=66), m*10^k (k<=22) with up to 21 leading zeros in 24 places" : "all of up to 4 digits; 5 neighbours of 2^k, 1.5*2^k (k<=66), m*10^k (k<=22) with up to 21 leading zeros in 24 places";
  b["decimals"] = "all strings of up to 7 (thorough 8) characters of 01 5 9 and point; exponents to 10^+-340; neighbours of 53 to 64 bit halves";
  b["strings and names"] = "all texts of up to 2 bytes; up to 4 (thorough 5) of 16 special characters; lengths 0-70 and powers of two +-1 to 100000 with doubled quotes";
  b["dates and intervals"] = "all months -1..14, days -1..33 of 16 years; every byte inserted or replaced in 8 base values; all strings of up to 4 (5) of 9 characters";
  b["unusual names and values"] = variations_bounds(thorough);
  b["pairs, triples"] = "all pairs and triples of 24 literals";
}
