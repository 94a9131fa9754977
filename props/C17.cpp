// The environment has no influence on the outcome: the cross product of process environments, each in a process of its
// own, over a set of texts, compared with the default environment.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <malloc.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/sysinfo.h>
#include <sched.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <locale>
#include <sstream>

#include "aspects.h"
#include "constants.h"
#include "explore.h"

const char* const kProperty = "C17";

using hsql::SQLParser;
using hsql::SQLParserResult;

namespace {

// The dimensions of the environment, and how many values each has; 0 is the default.
enum Dim { ERR, OUT, IN, LOCALE, ERRNO, HEAP, STACK, STREAMS, LIMITS, VARIABLES, CLOCK, FILES, DIMS };
const int kValues[DIMS] = {7, 4, 4, 14, 5, 4, 5, 5, 4, 7, 5, 4};
const char* const kNames[DIMS] = {"stderr", "stdout", "stdin", "locale", "errno", "heap", "stack", "streams", "limits", "variables", "clock", "files"};

// What environment variables are set to.
const std::vector<std::string>& answers() {
  static const std::vector<std::string> r = [] {
    std::vector<std::string> v = {"", "1", "0", "true", "/usr/lib:de_DE.UTF-8,on;VERBOSE=9:%s%n", "de_DE.UTF-8", "tr", "-1", "off", "/tmp"};
    for (auto& x : constant_texts()) {
      v.push_back(x);
      v.push_back(x + "_x");
    }
    return v;
  }();
  return r;
}

// What the stand-ins below answer in place of the C library; 0: what it would.
int variables, clocks, files;
bool parsing;

int values(int dimension) { return dimension == VARIABLES ? 2 + int(answers().size()) : kValues[dimension]; }

const std::vector<std::string>& texts(bool core) {
  static const std::vector<std::string> few = {
      "SELECT 1.5, 0.25, 1234567.875, .5", "SELECT 1.5e3, 1,5 FROM t", "insert into t values (1.75, 'i')", "INSERT INTO TITLE VALUES (-0.1)", "select distinct id from t limit 1", "SELECT Iİıi FROM t", "SELECT \"\xc4\xb0\xc4\xb1\xdd\xfd\" FROM \"I\"",
      "SELECT 'x\xff\xdd\xfd\xa0'", "SELECT \xa0 a", "SELECT a\xa0", "SELECT \xe4 FROM t", "SELECT $ FROM t", "SELECT 'x", "SELECT a FROM", "SELECT 99999999999999999999", "SELECT 9223372036854775807, 007, 0", "SELECT -9223372036854775808",
      "SELECT 9223372036854775808", "COPY t FROM 'f' WITH (FORMAT csv, delimiter ';', QUOTE 'i', NULL 'I')", "COPY t FROM 'f' (DELIMITER 'a', delimiter 'b')", "COPY t FROM 'f.tbl'", "COPY t TO 'f' (ENCODING 'utf', FORMAT binary)",
      "COPY t TO 'f' (FORMAT bin)", "CREATE TABLE i (id INTEGER NOT NULL, d DECIMAL(10, 2), f FLOAT, c CHARACTER VARYING(3))", "IMPORT FROM CSV FILE 'f' INTO t", "import from tbl file 'f' into t", "CREATE TABLE t FROM TBL FILE 'x'", "SELECT INTERVAL '3 minutes', INTERVAL 3 DAY",
      "SELECT INTERVAL '3 MINUTES', DATE '2020-02-29'", "SELECT INTERVAL 'x'", "SELECT DATE '2020-13-01'", "SELECT DATE '2020-12-31' + INTERVAL '99999999999999999999 days'", "SELECT \xe2\x82\xac", std::string("SELECT a\0, b", 12), std::string("\0", 1), "", ";", "--c", "SELECT a -- c\r\n, b\r",
      "SELECT ?, ? FROM t; SELECT ?", "SELECT " + std::string(300, '('), "SELECT '" + std::string(3000, 'x') + "', 1.125", "SELECT " + std::string(40, '9') + ".5", "SELECT 0." + std::string(400, '0') + "1", "SELECT " + std::string(310, '1') + ".0", "SELECT .1, 1., 1.0, 0.1, 123456789.123456789",
      "CREATE TABLE t (a INT NULL NOT NULL)", "SELECT a LIKE 'i%' AND b ILIKE 'I' OR NOT c IN (1.5, 2.5)", "with i as (select 1) select * from i for update skip locked", "SELECT EXTRACT(minute FROM i), CAST(a AS int), SUBSTR(a, 1)",
      "SELECT 1.7976931348623157, 2.2250738585072014, 4.35, 0.1, 0.3, 1.1, 2.675, 1000000000000000.05", "BEGIN TRANSACTION; COMMIT", "Show Tables; describe i", "PREPARE i FROM 'select i'; EXECUTE i(1.5); DEALLOCATE PREPARE i", "SELECT a \t\n\v\f b", "SELECT 1.5.5", "SELECT 1 . 5"};
  static const std::vector<std::string> all = [] {
    std::vector<std::string> r = few;
    GenOptions o;
    o.extra = true;
    for (auto& t : bases(ALL_KINDS, o, 1)) r.push_back(join(t));
    for (auto& t : constructs(ALL_KINDS)) r.push_back(join(t));
    for (auto& s : constant_samples()) r.push_back(s);
    o.full = true;
    for (auto& t : bases(ALL_KINDS, o, 0)) {
      r.push_back(join(t));
      mutate(t, {"$", "'x", "1.5", "i", "\xdd"}, [&](const Tokens& m) { r.push_back(join(m)); });
    }
    for (int c = 0; c < 256; ++c) {
      r.push_back("SELECT a" + std::string(1, char(c)) + "b FROM t");
      r.push_back("SELECT " + std::string(1, char(c)) + " FROM t");
      r.push_back("SELECT 'a" + std::string(1, char(c)) + "'");
      r.push_back("SELECT \"" + std::string(1, char(c)) + "\", 1.5");
    }
    for (auto& k : alphabet()) {
      std::string low, mixed;
      for (size_t i = 0; i < k.size(); ++i) {
        low += k[i] >= 'A' && k[i] <= 'Z' ? char(k[i] + 32) : k[i];
        mixed += i % 2 ? low[i] : k[i];
      }
      for (auto& x : {k, low, mixed}) r.push_back("SELECT a AS " + x);
    }
    return r;
  }();
  return core ? few : all;
}

std::string outcome_of(const std::string& text) {
  std::string out;
  {
    SQLParserResult r;
    parsing = true;
    const bool returned = SQLParser::parse(text, &r);
    parsing = false;
    out = returned ? "" : "false ";
    out += impl::dump(r);
    for (auto* p : r.parameters()) out += " p" + std::to_string(p->ival);
  }
  std::vector<int16_t> v;
  parsing = true;
  const bool returned = SQLParser::tokenize(text, &v);
  parsing = false;
  out += returned ? "\n" : "\nfalse ";
  for (int t : v) out += std::to_string(t) + " ";
  return out;
}

struct Shared {
  char detail[8192];
  size_t size;
  char data[1 << 23];
};
Shared* memory() {
  static auto* s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return s;
}
template <class F>
std::string forked(F f) {
  auto* m = memory();
  m->detail[0] = 0;
  m->size = 0;
  const pid_t p = fork();
  if (p == 0) {
    alarm(60);
    f(m);
    _exit(0);
  }
  int status = 0;
  while (waitpid(p, &status, 0) < 0) {
  }
  if (m->detail[0]) return m->detail;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return "";
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) return "the calls do not end";
  return "the process crashed (" + std::to_string(WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status)) + ")";
}

// What was written to a file since the last call.
std::string appended(int file) {
  fflush(stderr);
  std::clog.flush();
  std::string r;
  char x[4096];
  static off_t at = 0;
  for (ssize_t n; (n = pread(file, x, sizeof x, at)) > 0; at += n) r.append(x, size_t(n));
  return r;
}

const std::vector<std::string>& baseline(bool core) {
  static std::vector<std::string> known[2];
  auto& k = known[core];
  if (k.empty()) {
    for (auto& t : texts(core)) {
      const std::string d = forked([&](Shared* m) {
        const int err = memfd_create("stderr", 0);
        dup2(err, 2);
        std::string s = squeeze(outcome_of(t));
        const std::string written = appended(err);
        if (!written.empty()) s += "\nstandard error: " + squeeze(written);
        m->size = std::min(s.size(), sizeof m->data);
        memcpy(m->data, s.data(), m->size);
      });
      k.push_back(d.empty() ? std::string(memory()->data, memory()->size) : "! " + d);
    }
  }
  return k;
}

__attribute__((noinline)) void fill_stack(int c, size_t n) {
  volatile char* p = static_cast<volatile char*>(alloca(n));
  for (size_t i = 0; i < n; ++i) p[i] = c == 3 ? char(i * 37) : char(c);
}

struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1"; }
};

// The C library's locales that are there besides "C" (built by the runner).
const char* const kLocales[] = {"C", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1"};

bool set_up(const std::vector<int>& v) {
  variables = v[VARIABLES];
  clocks = v[CLOCK];
  files = v[FILES];
  switch (v[LOCALE]) {
    case 0:
      break;
    case 1: case 2: case 3: case 4: case 5:
      if (!setlocale(LC_ALL, kLocales[v[LOCALE]])) return false;
      break;
    case 6: case 7: case 8: case 9: {  // of this thread
      locale_t l = newlocale(LC_ALL_MASK, kLocales[v[LOCALE] - 4], nullptr);
      if (!l) return false;
      uselocale(l);
      break;
    }
    case 10: case 11: case 12:  // C++ (and C) locale
      try {
        std::locale::global(std::locale(kLocales[v[LOCALE] - 8]));
      } catch (const std::exception&) {
        return false;
      }
      break;
    case 13:
      std::locale::global(std::locale(std::locale::classic(), new Punct));
      break;
  }
  if (v[STREAMS]) {
    for (std::ostream* s : {&std::cout, &std::cerr, &std::clog}) switch (v[STREAMS]) {
        case 1:
          s->setstate(std::ios::failbit);
          break;
        case 2:
          *s << std::hex << std::showbase << std::uppercase << std::setfill('*') << std::setprecision(1) << std::scientific;
          s->width(20);
          break;
        case 3:
          s->setstate(std::ios::badbit | std::ios::eofbit);
          break;
        case 4:
          s->exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit);
          break;
      }
    if (v[STREAMS] == 3) std::cin.setstate(std::ios::failbit);
  }
  if (v[HEAP]) {
    static const int kFill[] = {0, 0x00, 0xFF, 0x5A};
    // Freed memory of every size with this content.
    mallopt(M_PERTURB, v[HEAP] == 3 ? 0x5A : 0);
    std::vector<void*> blocks;
    for (int round = 0; round < 30; ++round)
      for (size_t n = 8; n < 40000; n = n < 600 ? n + 8 : n * 2) {
        void* p = malloc(n);
        memset(p, kFill[v[HEAP]], n);
        blocks.push_back(p);
      }
    for (size_t i = 0; i < blocks.size(); i += 2) free(blocks[i]);
    for (size_t i = 1; i < blocks.size(); i += 2) free(blocks[i]);
  }
  switch (v[LIMITS]) {
    case 1: {
      rlimit l{0, 0};
      setrlimit(RLIMIT_NOFILE, &l);
      break;
    }
    case 2: {
      signal(SIGXFSZ, SIG_IGN);
      rlimit l{0, 0};
      setrlimit(RLIMIT_FSIZE, &l);
      break;
    }
    case 3:
      for (const char* n : {"LANG", "LC_ALL", "LC_NUMERIC", "LANGUAGE"}) setenv(n, "tr_TR.UTF-8", 1);
      setenv("POSIXLY_CORRECT", "1", 1);
      setenv("TZ", "Asia/Kathmandu", 1);
      if (chdir("/")) return false;
      break;
  }
  return true;
}

std::string state_of(const std::ios& s) {
  return std::to_string(s.flags()) + " " + std::to_string(s.precision()) + " " + std::to_string(s.width()) + " " + std::to_string(int(s.rdstate())) + " " + std::to_string(int(s.exceptions())) + " " + s.getloc().name();
}
std::string fill_of(const std::ostream& s) { return std::string(1, s.fill()); }
std::string state() {
  std::string r = std::string("locale ") + setlocale(LC_ALL, nullptr) + "\nC++ locale " + std::locale().name() + "\nthread locale " + (uselocale(locale_t(nullptr)) == LC_GLOBAL_LOCALE ? "global" : "own") +
                  "\ndecimal point " + localeconv()->decimal_point + "\ncin " + state_of(std::cin);
  for (std::ostream* s : {&std::cout, &std::cerr, &std::clog}) r += "\nostream " + state_of(*s) + fill_of(*s);
  return r;
}

}  // namespace

// Stand-ins for what asks the environment for something.
template <class F>
static F* real(const char* name) {
  return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
}
static long answer() {
  static unsigned long next = 88172645463325252ul;
  next ^= next << 13;
  next ^= next >> 7;
  next ^= next << 17;
  return clocks == 1 ? 0 : clocks == 2 ? 1 : clocks == 3 ? 2147483647 : long(next % 2147483647);
}
static char* variable() {
  return variables == 1 ? nullptr : const_cast<char*>(answers()[size_t(variables) - 2].c_str());
}
extern "C" {
char* getenv(const char* name) noexcept {
  static auto* f = real<char*(const char*)>("getenv");
  return variables ? variable() : f ? f(name) : nullptr;
}
char* secure_getenv(const char* name) noexcept {
  static auto* f = real<char*(const char*)>("secure_getenv");
  return variables ? variable() : f ? f(name) : nullptr;
}
time_t time(time_t* t) noexcept {
  static auto* f = real<time_t(time_t*)>("time");
  if (!clocks) return f(t);
  const time_t x = answer();
  if (t) *t = x;
  return x;
}
clock_t clock() noexcept {
  static auto* f = real<clock_t()>("clock");
  return clocks ? answer() : f();
}
int clock_gettime(clockid_t id, timespec* t) noexcept {
  static auto* f = real<int(clockid_t, timespec*)>("clock_gettime");
  if (!clocks) return f(id, t);
  t->tv_sec = answer();
  t->tv_nsec = answer() % 1000000000;
  return 0;
}
int gettimeofday(timeval* t, void* z) noexcept {
  static auto* f = real<int(timeval*, void*)>("gettimeofday");
  if (!clocks) return f(t, z);
  t->tv_sec = answer();
  t->tv_usec = answer() % 1000000;
  return 0;
}
int rand() noexcept {
  static auto* f = real<int()>("rand");
  return clocks ? int(answer()) : f();
}
long random() noexcept {
  static auto* f = real<long()>("random");
  return clocks ? answer() : f();
}
pid_t getpid() noexcept {
  static auto* f = real<pid_t()>("getpid");
  return clocks ? pid_t(answer()) : f();
}
#define NUMBER(type, name)                          \
  type name() noexcept {                            \
    static auto* f = real<type()>(#name);           \
    return parsing && clocks ? type(answer()) : f(); \
  }
NUMBER(pid_t, getppid)
NUMBER(pid_t, gettid)
NUMBER(uid_t, getuid)
NUMBER(uid_t, geteuid)
NUMBER(gid_t, getgid)
NUMBER(gid_t, getegid)
NUMBER(int, get_nprocs)
NUMBER(int, get_nprocs_conf)
NUMBER(int, sched_getcpu)
long sysconf(int name) noexcept {
  static auto* f = real<long(int)>("sysconf");
  return parsing && clocks ? answer() : f(name);
}
int gethostname(char* p, size_t n) noexcept {
  static auto* f = real<int(char*, size_t)>("gethostname");
  if (!parsing || !clocks) return f(p, n);
  snprintf(p, n, "h%ld", answer());
  return 0;
}
int getrusage(__rusage_who_t who, rusage* u) noexcept {
  static auto* f = real<int(__rusage_who_t, rusage*)>("getrusage");
  const int r = f(who, u);
  if (parsing && clocks) u->ru_maxrss = u->ru_utime.tv_sec = u->ru_utime.tv_usec = answer();
  return r;
}

int getrlimit(__rlimit_resource_t what, rlimit* l) noexcept {
  static auto* f = real<int(__rlimit_resource_t, rlimit*)>("getrlimit");
  const int r = f(what, l);
  if (parsing && clocks) l->rlim_cur = rlim_t(answer()), l->rlim_max = RLIM_INFINITY;
  return r;
}

// Every file is there (1: empty, 2: with a line), or none is (3).
static int file() {
  if (files == 3) {
    errno = ENOENT;
    return -1;
  }
  const int f = memfd_create("file", 0);
  if (files == 2) {
    (void)!write(f, "1\n", 2);
    lseek(f, 0, SEEK_SET);
  }
  return f;
}
static int status(struct stat* st) {
  const int f = file();
  if (f < 0) return -1;
  fstat(f, st);
  close(f);
  return 0;
}
static int there() {
  if (files != 3) return 0;
  errno = ENOENT;
  return -1;
}
int access(const char* name, int mode) noexcept {
  static auto* f = real<int(const char*, int)>("access");
  return parsing && files ? there() : f(name, mode);
}
int faccessat(int dir, const char* name, int mode, int flags) noexcept {
  static auto* f = real<int(int, const char*, int, int)>("faccessat");
  return parsing && files ? there() : f(dir, name, mode, flags);
}
int stat(const char* name, struct stat* st) noexcept {
  static auto* f = real<int(const char*, struct stat*)>("stat");
  return parsing && files ? status(st) : f(name, st);
}
int lstat(const char* name, struct stat* st) noexcept {
  static auto* f = real<int(const char*, struct stat*)>("lstat");
  return parsing && files ? status(st) : f(name, st);
}
int fstatat(int dir, const char* name, struct stat* st, int flags) noexcept {
  static auto* f = real<int(int, const char*, struct stat*, int)>("fstatat");
  return parsing && files ? status(st) : f(dir, name, st, flags);
}
int open(const char* name, int flags, ...) {
  static auto* f = real<int(const char*, int, ...)>("open");
  return parsing && files ? file() : f(name, flags, 0600);
}
int open64(const char* name, int flags, ...) {
  static auto* f = real<int(const char*, int, ...)>("open64");
  return parsing && files ? file() : f(name, flags, 0600);
}
int openat(int dir, const char* name, int flags, ...) {
  static auto* f = real<int(int, const char*, int, ...)>("openat");
  return parsing && files ? file() : f(dir, name, flags, 0600);
}
FILE* fopen(const char* name, const char* mode) {
  static auto* f = real<FILE*(const char*, const char*)>("fopen");
  if (!parsing || !files) return f(name, mode);
  const int d = file();
  return d < 0 ? nullptr : fdopen(d, "r+");
}
FILE* fopen64(const char* name, const char* mode) {
  static auto* f = real<FILE*(const char*, const char*)>("fopen64");
  if (!parsing || !files) return f(name, mode);
  const int d = file();
  return d < 0 ? nullptr : fdopen(d, "r+");
}
ssize_t getrandom(void* p, size_t n, unsigned flags) {
  static auto* f = real<ssize_t(void*, size_t, unsigned)>("getrandom");
  if (!clocks) return f(p, n, flags);
  for (size_t i = 0; i < n; ++i) static_cast<char*>(p)[i] = char(answer());
  return ssize_t(n);
}
}

// args: the values of the dimensions, "core" or "all" texts.
std::string check(const Case& c) {
  std::vector<int> v;
  std::istringstream in(c.args[0]);
  for (int x; in >> x;) v.push_back(x);
  v.resize(DIMS);
  const bool core = c.args[1] == "core";
  auto& set = texts(core);
  auto& expected = baseline(core);
  Engine::outcome(c.args[0]);
  return forked([&](Shared* m) {
    // Streams.
    const int out = memfd_create("stdout", 0), err = memfd_create("stderr", 0), input = memfd_create("stdin", 0), null = open("/dev/null", O_RDWR);
    (void)!write(input, "SELECT x;\n", 10);
    lseek(input, 0, SEEK_SET);
    signal(SIGPIPE, SIG_IGN);
    // A terminal: what is written to it is read at the end.
    int terminal = -1, line = -1;
    if (v[ERR] == 6 || v[OUT] == 3 || v[IN] == 3) {
      terminal = posix_openpt(O_RDWR | O_NOCTTY | O_NONBLOCK);
      const char* name = terminal >= 0 && grantpt(terminal) == 0 && unlockpt(terminal) == 0 ? ptsname(terminal) : nullptr;
      line = name ? open(name, O_RDWR | O_NOCTTY | O_NONBLOCK) : -1;
      if (line < 0) return;  // there are none here
    }
    if (v[ERR] == 6) dup2(line, 2);
    if (v[OUT] == 3) dup2(line, 1);
    if (v[IN] == 3) dup2(line, 0);
    if (v[ERR] == 0) dup2(err, 2);
    if (v[ERR] == 1) close(2);
    if (v[ERR] == 2) dup2(open("/dev/full", O_WRONLY), 2);
    if (v[ERR] == 3) {
      int p[2];
      (void)!pipe(p);
      close(p[0]);
      dup2(p[1], 2);
    }
    if (v[ERR] == 4) dup2(open("/dev/null", O_RDONLY), 2);
    if (v[ERR] == 5) {
      dup2(null, 2);
      setvbuf(stderr, nullptr, _IOFBF, 1 << 14);
    }
    if (v[OUT] == 0) dup2(out, 1);
    if (v[OUT] == 1) close(1);
    if (v[OUT] == 2) dup2(open("/dev/full", O_WRONLY), 1);
    if (v[IN] == 0) dup2(null, 0);
    if (v[IN] == 1) close(0);
    if (v[IN] == 2) dup2(input, 0);
    if (!set_up(v)) return;
    // Standard output is buffered and holds something of the program's own, which stays its own.
    static char buffer[1 << 16];
    static const char kOwn[] = "prompt> ";
    setvbuf(stdout, buffer, _IOFBF, sizeof buffer);
    fputs(kOwn, stdout);
    const std::string before = state();
    static const int kErrno[] = {0, ERANGE, EINTR, EINVAL, 12345};
    static const int kStack[] = {-1, 0x00, 0xFF, 0x01, 0x03};
    std::string d;
    for (size_t i = 0; i < set.size() && d.empty(); ++i) {
      const std::string text = set[i];
      std::string copy(text.data(), text.size());
      const char* data = copy.data();
      if (v[STACK]) fill_stack(kStack[v[STACK]], 100000);
      errno = kErrno[v[ERRNO]];
      std::string got = squeeze(outcome_of(copy));
      std::string want = expected[i];
      const size_t w = want.rfind("\nstandard error: ");
      if (v[ERR] == 0 && v[STREAMS] == 0 && v[LIMITS] == 0) {
        const std::string written = appended(err);
        if (!written.empty()) got += "\nstandard error: " + squeeze(written);
      } else if (w != std::string::npos) {
        want.resize(w);
      }
      if (got != want) d = "text " + ref::quote(text.substr(0, 300)) + " has another outcome\nexpected " + want.substr(0, 2000) + "\ngot " + got.substr(0, 2000);
      if (copy != text || copy.data() != data) d = "the input text was changed";
    }
    if (d.empty() && state() != before) d = "locale or stream state was changed\nexpected " + before + "\ngot " + state();
    if (d.empty() && __fpending(stdout) != strlen(kOwn)) d = "the buffer of standard output holds " + std::to_string(__fpending(stdout)) + " bytes instead of the " + std::to_string(strlen(kOwn)) + " of the program's own";
    if (d.empty() && memcmp(buffer, kOwn, strlen(kOwn)) != 0) d = "the buffer of standard output was changed";
    __fpurge(stdout);
    if (v[STREAMS] == 0) std::cout.flush();
    fflush(stdout);
    char seen[256];
    if (d.empty() && v[OUT] == 3 && v[ERR] != 6 && read(terminal, seen, sizeof seen) > 0) d = "something was written to standard output, a terminal";
    struct stat st;
    if (d.empty() && fstat(out, &st) == 0 && st.st_size != 0) d = "something was written to standard output: " + std::to_string(st.st_size) + " bytes";
    if (d.empty() && v[OUT] == 2 && ferror(stdout)) d = "something was written to standard output";
    if (d.empty() && lseek(input, 0, SEEK_CUR) != 0) d = "something was read from standard input";
    if (d.empty()) return;
    std::string env;
    for (int k = 0; k < DIMS; ++k)
      if (v[size_t(k)]) env += std::string(" ") + kNames[k] + "=" + std::to_string(v[size_t(k)]);
    d = ("environment" + env + ": " + d).substr(0, sizeof m->detail - 1);
    memcpy(m->detail, d.c_str(), d.size() + 1);
  });
}

void explore(Engine& e) {
  auto run = [&](const char* phase, const std::vector<int>& v, const char* set) {
    std::string s;
    for (int x : v) s += std::to_string(x) + " ";
    e.run(Case(phase, s, set));
  };
  const int deep = e.thorough ? 1 : 0;
  // Every value, and (thorough: every) pair of values, with all texts.
  std::vector<int> v(DIMS);
  for (int a = 0; a < DIMS; ++a)
    for (int x = 0; x < values(a); ++x) {
      v.assign(DIMS, 0);
      v[size_t(a)] = x;
      if (e.mine()) run("one deviation, all texts", v, "all");
      for (int b = 0; b < a; ++b)
        for (int y = 1; y < values(b); ++y) {
          v[size_t(b)] = y;
          if (e.mine()) run("two deviations", v, deep ? "all" : "core");
          v[size_t(b)] = 0;
        }
    }
  // The cross product.
  std::function<void(size_t)> all = [&](size_t d) {
    if (d == DIMS) {
      if (e.mine()) run("cross product", v, "core");
      return;
    }
    // Quick: a part of the values of each dimension.
    static const std::vector<int> quick[DIMS] = {{0, 1, 6}, {0, 1}, {0, 1}, {0, 2, 3, 8, 13}, {0, 1}, {0, 3}, {0, 2}, {0, 1, 2}, {0, 1}, {0, 3}, {0}, {0}};
    static const std::vector<int> more[DIMS] = {{0, 1, 2, 6}, {0, 1, 3}, {0, 1, 2}, {0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13}, {0, 1}, {0, 2, 3}, {0, 2, 3}, {0, 1, 2, 4}, {0, 1}, {0, 2, 3}, {0}, {0}};
    for (int x : deep ? more[d] : quick[d]) {
      v[d] = x;
      all(d + 1);
    }
    v[d] = 0;
  };
  v.assign(DIMS, 0);
  all(0);
}

void bounds(std::map<std::string, std::string>& b, bool thorough) {
  b["constants of the code"] = constants_bounds();
  b["environments"] = "stderr (open, closed, full, broken pipe, not writable, buffered, a terminal), stdout (open, closed, full, a terminal; always with output of the program that is not flushed yet), stdin (empty, closed, with contents, a terminal), 14 C, thread and C++ locales, 5 errno values, 4 heap and 5 stack contents, 5 stream states, limits, environment variables, and files (as they are; every file there: empty, or with a line; none there)";
  b["stand-ins"] = "getenv and secure_getenv (every variable unset, or set to one of 10 texts or to a text that the code mentions); time, clock, clock_gettime, gettimeofday, rand, random, getpid, getppid, gettid, getuid and the like, sysconf, get_nprocs, sched_getcpu, gethostname, getrusage, getrlimit, getrandom (zero, one, the largest, another at every call)";
  b["one deviation"] = "every value with " + std::to_string(texts(false).size()) + " texts";
  b["two deviations"] = std::string("every pair of values with ") + (thorough ? "all" : std::to_string(texts(true).size())) + " texts";
  b["cross product"] = std::string(thorough ? "85536" : "2880") + " environments with " + std::to_string(texts(true).size()) + " texts";
  std::string have;
  for (const char* l : kLocales) have += std::string(setlocale(LC_ALL, l) ? " " : " (missing) ") + l;
  b["locales"] = have;
}
