// Sentence generator: derives sentences of the dialect, asking `Choices` at every point where the grammar branches.
// Enumerating all answer sequences with at most B non-default answers explores the derivation space exhaustively within
// that bound.
#pragma once
#include <functional>
#include <string>
#include <vector>

struct Choices {
  std::vector<int> prefix;
  std::vector<std::pair<int, int>> log;  // answer (0 = default), number of answers
  int choose(int n) {
    const int v = log.size() < prefix.size() ? prefix[log.size()] : 0;
    log.emplace_back(v, n);
    return v;
  }
};

using Tokens = std::vector<std::string>;

enum GenKind {
  G_SELECT,
  G_CREATE_TABLE,
  G_CREATE_OTHER,
  G_DROP,
  G_ALTER,
  G_INSERT,
  G_UPDATE,
  G_DELETE,
  G_IMPORT,
  G_EXPORT,
  G_PREPARE,
  G_EXECUTE,
  G_SHOW,
  G_TRANSACTION,
  G_KINDS
};

struct GenOptions {
  GenKind kind = G_SELECT;
  bool full = false;    // optional clauses of the outermost statement are present by default
  bool params = false;  // default leaves are ? instead of columns
  bool extra = false;   // unusual identifiers and literals among the leaves
};

Tokens generate(const GenOptions& o, Choices& c);

// Calls f(tokens, cost) for every derivation with at most `bound` non-default answers. Only the shard's part of the
// derivations is passed on; returns the number of derivations of all shards that were visited.
size_t enumerate(const GenOptions& o, int bound, size_t shard, size_t shards,
                 const std::function<void(const Tokens&)>& f);

std::string join(const Tokens& t, const char* sep = " ");
