// Include this first in order to translate the templates of the C++ library
// for strings together with the harness. Otherwise, the compiled versions in
// the library are called, which cannot handle symbolic characters.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
