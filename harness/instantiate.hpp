// Included first in every file whose memory accesses are watched: the members of std::string are compiled with the file instead of
// being taken from libstdc++.so, where nothing watches them.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
