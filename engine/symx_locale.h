// The stream facets in the C++ runtime library are compiled code the engine cannot see into.
// Harnesses whose code under test formats or parses numbers through iostreams install facets
// instantiated in their own module (same templates, same behaviour).
#pragma once
#include <locale>
#include <iostream>
#include <sstream>
template class std::num_get<char>;
template class std::num_put<char>;
static inline void symx_locale() {
  std::locale l(std::locale::classic(), new std::num_get<char>);
  std::locale::global(std::locale(l, new std::num_put<char>));
}
