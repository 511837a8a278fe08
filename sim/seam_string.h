// Force-included in scheduled mode: strings and string buffers are instantiated (and so instrumented)
// in the library's own translation units instead of being taken uninstrumented from libstdc++.so.
// Locale facets stay external: their lazily filled caches are libstdc++'s own business.
#pragma once
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <streambuf>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include <istream>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <sstream>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
