// helpers to drive a std::codecvt facet through its public interface
#pragma once
#include "symx.h"
#include <locale>
#include <string>
#include <cstring>
template<class F> struct Open : F { Open() : F() {} ~Open() {} };   // facets have protected destructors
