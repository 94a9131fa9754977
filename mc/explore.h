// The state spaces that the properties explore.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "engine.h"
#include "gen.h"

using TextFn = std::function<void(const std::string&)>;
using TokensFn = std::function<void(const Tokens&)>;

// One spelling of every token kind of the dialect, and characters that are no token.
const Tokens& alphabet();

// Every derivation of the kinds (bit set over GenKind) with at most `bound` non-default choices, divided over workers.
enum : unsigned { ALL_KINDS = (1u << G_KINDS) - 1 };
void sentences(Engine& e, unsigned kinds, GenOptions o, int bound, const TokensFn& f);
// The same, undivided and as a list.
std::vector<Tokens> bases(unsigned kinds, GenOptions o, int bound);

// Every text of at most `depth` tokens over the alphabet behind the prefix, except that texts are not continued behind
// a token that cannot continue them. An alphabet entry may consist of several tokens.
void trie(Engine& e, const std::string& prefix, const Tokens& tokens, int depth, const TextFn& f,
          const std::string& suffix = "");

// Every single-token change of the base: deletion, duplication, exchange with the next, replacement by and insertion of
// every token of the alphabet, truncation.
void mutate(const Tokens& base, const Tokens& tokens, const TokensFn& f);

// Replaces every name, number and string of the base by unusual ones, and every pair of names by equal ones.
void substitute(const Tokens& base, const TokensFn& f);
const Tokens& unusual_names();
// Replaces every pair of names, of numbers and of strings by pairs that are equal, that differ in case or white space
// only, and that are in either order.
void substitute_pairs(const Tokens& base, const TokensFn& f, size_t equal = 5);
// Gives every name, number and string each of the lengths.
void substitute_lengths(const Tokens& base, const std::vector<size_t>& lengths, const TokensFn& f);
// Expressions of every kind that can be an operand; the first ones are the most different from each other.
const Tokens& operand_forms();
// Replaces every name, number and string by every operand form, and every pair of them by all pairs of the first ones.
void substitute_operands(const Tokens& base, size_t pairs, const TokensFn& f);
// Puts every part of up to `longest` tokens that can be an operand or a list of them in the place of every name, number
// and string inside of it, once and twice.
void nest_parts(const Tokens& base, size_t longest, const TokensFn& f);
// Repeats every part of up to `longest` tokens that can be repeated (found by trying) each of the numbers of times, and
// every pair of such parts 2 and 3 times.
void repeat_parts(const Tokens& base, size_t longest, const std::vector<size_t>& times, const TokensFn& f);

// One text for every construct that is more than one choice away from the default derivations.
std::vector<Tokens> constructs(unsigned kinds);
// All of these for constructs, and for derivations with up to 1 non-default choice (operand pairs and lengths: 0; thorough: one more each).
void variations(Engine& e, unsigned kinds, const TokensFn& f);
std::string variations_bounds(bool thorough);
// The first three of these for constructs only.
void changed_constructs(Engine& e, unsigned kinds, const TokensFn& f);
std::string changed_constructs_bounds();

// All sequences of up to `depth` clauses of a SELECT, of up to `depth` parts of FROM, of up to one more part of set
// operations, and of up to `depth` set operations of SELECTs with all kinds of clauses.
void select_sequences(Engine& e, int depth, const std::function<TextFn(const char* phase)>& run);
std::string select_sequences_bounds(int depth);

// Sequences of column and table constraints (one more than `depth`), and of options of COPY: parts that may contradict
// each other or be repeated.
void contradictions(Engine& e, int depth, const TextFn& f);
std::string contradictions_bounds(int depth);

// Every family of texts that grow with a number, of the given kinds of statements (by the first word), at the sizes
// 0..dense and around powers up to `most` (nestings: 300). f gets the phase, "sizes" or kDeep, where a text may be
// rejected for its depth (aspect A_DEEP).
extern const char* const kDeep;
void sizes(Engine& e, unsigned kinds, size_t dense, size_t most, const std::function<void(const char*, const std::string&)>& f);

// Every string over the alphabet with at most (or exactly) `length` elements.
void strings(const Tokens& alphabet, int length, const TextFn& f);
// The same divided over workers.
void strings(Engine& e, const Tokens& alphabet, int length, const TextFn& f);
