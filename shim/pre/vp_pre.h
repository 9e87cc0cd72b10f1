// symbolic build: let the compiler instantiate std::string's members so that they can be executed
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
