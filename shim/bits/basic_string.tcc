#pragma GCC system_header
#pragma push_macro("_GLIBCXX_EXTERN_TEMPLATE")
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include_next <bits/basic_string.tcc>
#pragma pop_macro("_GLIBCXX_EXTERN_TEMPLATE")
