// Included before everything else: the templates of the standard library are compiled with the code
// instead of being taken from the library binary, so that the verifier sees them.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
