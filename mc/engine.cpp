#include "engine.h"

#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

#include "ref.h"

namespace {

struct Shared {  // survives a crash of this worker
  volatile uint64_t number;
  volatile uint64_t size;
  char data[1 << 24];
};
Shared* shared;

std::string hex(std::string_view s) {
  static const char* h = "0123456789abcdef";
  std::string r;
  r.reserve(s.size() * 2);
  for (unsigned char c : s) {
    r += h[c >> 4];
    r += h[c & 15];
  }
  return r;
}
std::string unhex(const std::string& s) {
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}

// Set of 64-bit hashes.
struct Set {
  std::vector<uint64_t> slots = std::vector<uint64_t>(1 << 16);
  size_t count = 0;
  bool insert(uint64_t h) {
    if (!h) h = 1;
    if (count * 2 > slots.size()) grow();
    size_t i = h & (slots.size() - 1);
    while (slots[i]) {
      if (slots[i] == h) return false;
      i = (i + 1) & (slots.size() - 1);
    }
    slots[i] = h;
    ++count;
    return true;
  }
  void grow() {
    std::vector<uint64_t> old(slots.size() * 2);
    old.swap(slots);
    for (uint64_t h : old) {
      if (!h) continue;
      size_t i = h & (slots.size() - 1);
      while (slots[i]) i = (i + 1) & (slots.size() - 1);
      slots[i] = h;
    }
  }
};

uint64_t hash(std::string_view s, uint64_t h = 0xcbf29ce484222325ull) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 0x100000001b3ull;
  }
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  return h;
}

Set seen, outcomes;
std::map<std::string, std::pair<uint64_t, uint64_t>> phases;  // visited, decided
std::vector<std::string> samples;
std::map<std::string, int> sampled;
std::string outdir;
size_t shard_number;

std::string serialize(const Case& c) {
  std::string s = std::string("property ") + kProperty + "\nphase " + c.phase + "\n";
  for (auto& a : c.args) s += "arg " + hex(a) + "\n";
  for (auto& a : c.args) {
    std::string q = ref::quote(a);
    if (q.size() > 2000) q = q.substr(0, 2000) + "...";
    s += "text " + q + "\n";
  }
  return s;
}

std::string json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += char(c);
    }
  }
  return r + "\"";
}

uint64_t last_number = ~0ull;
int stuck = 0;

void emit_current(const char* what) {  // async-signal-safe enough for our purposes
  int fd = open((outdir + "/crash" + std::to_string(shard_number)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    (void)!write(fd, what, strlen(what));
    close(fd);
  }
}

void tick(int) {
  if (shared->number == last_number) {
    if (++stuck >= 4) {
      emit_current("hang");
      _exit(97);
    }
  } else {
    last_number = shared->number;
    stuck = 0;
  }
}

}  // namespace

void Engine::outcome(std::string_view s) { outcomes.insert(hash(s)); }

bool Engine::late() {
  if (!over && until && asked++ % 16 == 0) {
    timespec now;
    over = clock_gettime(CLOCK_REALTIME, &now) == 0 && now.tv_sec >= until;
  }
  return over;
}

void Engine::run(const Case& c) {
  if (stop() || late()) return;
  auto& p = phases[c.phase];
  ++p.first;
  uint64_t h = hash(c.phase);
  for (auto& a : c.args) h = hash(a, h) + a.size();
  if (!seen.insert(h)) return;
  ++p.second;
  ++cases;

  // Record the case for the case that it brings this process down.
  size_t n = 0;
  auto put = [&](std::string_view s) {
    const uint64_t len = s.size();
    if (n + 8 + s.size() > sizeof shared->data) return;
    memcpy(shared->data + n, &len, 8);
    memcpy(shared->data + n + 8, s.data(), s.size());
    n += 8 + s.size();
  };
  shared->size = 0;
  put(c.phase);
  for (auto& a : c.args) put(a);
  shared->size = n;
  shared->number = cases;

  std::string detail;
  try {
    detail = check(c);
  } catch (const std::exception& x) {
    detail = std::string("exception: ") + x.what();
  }
  if (p.second == 1 || p.second == 100 || p.second == 10000) {
    std::string text = std::string(c.phase) + ":";
    for (auto& a : c.args) text += " " + ref::quote(a.substr(0, 300));
    samples.push_back(text);
  }
  if (detail.empty()) return;
  ++violations;
  std::ofstream f(outdir + "/violation." + std::to_string(shard) + "." + std::to_string(violations));
  f << serialize(c);
  std::istringstream lines(detail);
  for (std::string line; std::getline(lines, line);)
    f << "detail " << (line.size() > 4000 ? line.substr(0, 4000) + "..." : line) << "\n";
}

static int replay(const char* file) {
  std::ifstream in(file);
  std::string line;
  Case c;
  std::string phase;
  while (std::getline(in, line)) {
    if (line.compare(0, 6, "phase ") == 0) phase = line.substr(6);
    if (line.compare(0, 4, "arg ") == 0) c.args.push_back(unhex(line.substr(4)));
    if (line == "arg") c.args.push_back("");
  }
  c.phase = strdup(phase.c_str());
  std::string detail = check(c);
  if (detail.empty()) {
    printf("holds\n");
    return 0;
  }
  printf("%s\n", detail.c_str());
  return 1;
}

// Turns the record that a dead worker left into a replayable file.
static int recover(const char* cur, const char* out) {
  int fd = open(cur, O_RDONLY);
  if (fd < 0) return 2;
  auto* s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ, MAP_SHARED, fd, 0));
  if (s == MAP_FAILED || !s->size) return 2;
  Case c;
  size_t n = 0;
  bool first = true;
  while (n + 8 <= s->size) {
    uint64_t len;
    memcpy(&len, s->data + n, 8);
    std::string a(s->data + n + 8, len);
    n += 8 + len;
    if (first)
      c.phase = strdup(a.c_str());
    else
      c.args.push_back(a);
    first = false;
  }
  std::ofstream f(out);
  f << serialize(c);
  return 0;
}

// Number of distinct hashes in the files.
static int merge(int n, char** files) {
  Set s;
  for (int i = 0; i < n; ++i) {
    std::ifstream f(files[i], std::ios::binary);
    std::vector<uint64_t> b(1 << 16);
    while (f) {
      f.read(reinterpret_cast<char*>(b.data()), long(b.size() * 8));
      for (long k = 0; k < f.gcount() / 8; ++k) s.insert(b[size_t(k)]);
    }
  }
  printf("%zu\n", s.count);
  return 0;
}

int main(int argc, char** argv) {
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc > 2) return replay(argv[2]);
  if (mode == "merge") return merge(argc - 2, argv + 2);
  if (mode == "recover" && argc > 3) return recover(argv[2], argv[3]);
  if (mode != "explore" || argc < 6) {
    fprintf(stderr, "usage: mc explore quick|thorough SHARD SHARDS OUTDIR | replay FILE | recover FILE FILE\n");
    return 2;
  }
  Engine e;
  e.thorough = !strcmp(argv[2], "thorough");
  e.shard = shard_number = size_t(atoi(argv[3]));
  e.shards = size_t(atoi(argv[4]));
  if (const char* until = getenv("MC_UNTIL")) e.until = atol(until);
  outdir = argv[5];

  const std::string cur = outdir + "/current." + std::to_string(e.shard);
  int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 2;
  shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  if (shared == MAP_FAILED) return 2;
  close(fd);

  // A case that takes 4 ticks of CPU time (or 4 long ticks of real time, if it sleeps) hangs.
  struct sigaction sa {};
  sa.sa_handler = tick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGVTALRM, &sa, nullptr);
  sigaction(SIGALRM, &sa, nullptr);
  itimerval cpu{{8, 0}, {8, 0}};
  setitimer(ITIMER_VIRTUAL, &cpu, nullptr);

  explore(e);

  // Hashes of the decided cases and of the outcomes, to be united over the workers.
  auto store = [](const std::string& file, const Set& s) {
    std::ofstream f(file, std::ios::binary);
    for (uint64_t h : s.slots)
      if (h) f.write(reinterpret_cast<const char*>(&h), 8);
  };
  store(outdir + "/cases." + std::to_string(e.shard), seen);
  store(outdir + "/outcomes." + std::to_string(e.shard), outcomes);

  std::ostringstream o;
  o << "{\"cases\": " << e.cases << ", \"distinct_outcomes\": " << outcomes.count << ", \"violations\": " << e.violations << ", \"late\": " << e.over
    << ", \"phases\": {";
  bool first = true;
  for (auto& p : phases) {
    o << (first ? "" : ", ") << json(p.first) << ": [" << p.second.first << ", " << p.second.second << "]";
    first = false;
  }
  o << "}, \"samples\": [";
  first = true;
  for (auto& s : samples) {
    o << (first ? "" : ", ") << json(s);
    first = false;
  }
  o << "], \"bounds\": {";
  std::map<std::string, std::string> b;
  bounds(b, e.thorough);
  first = true;
  for (auto& x : b) {
    o << (first ? "" : ", ") << json(x.first) << ": " << json(x.second);
    first = false;
  }
  o << "}}\n";
  std::ofstream f(outdir + "/done." + std::to_string(e.shard));
  f << o.str();
  f.close();
  return 0;
}
