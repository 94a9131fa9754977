// Constants that occur in the sources under test, but not in the ones that the enumerated alphabets were made for.
#pragma once
#include <string>
#include <vector>

#include "explore.h"

// The numbers, with their neighbours; and the texts (string and character literals).
const std::vector<size_t>& constant_numbers();
const std::vector<std::string>& constant_texts();
// Names, numbers and strings in SQL made of them.
const Tokens& constant_names();
const Tokens& constant_values();
const Tokens& constant_strings();

// Every text of a small size that they can be put into: as names, values, strings, lengths, numbers of repetitions,
// between and instead of tokens, in comments, and as the length of the whole.
void constants(Engine& e, unsigned kinds, const std::function<void(const char*, const std::string&)>& f);
std::string constants_bounds();
// A few texts with each constant, for explorations whose space is not made of single texts.
std::vector<std::string> constant_samples();
