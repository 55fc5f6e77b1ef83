// symbolic builds only: emit the code of std::string instead of leaving it to the shared library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
// std::endl stays a call, which the engine treats as having no effect
#include <iosfwd>
namespace std _GLIBCXX_VISIBILITY(default) { _GLIBCXX_BEGIN_NAMESPACE_VERSION
template <typename C, typename T> __attribute__((noinline)) basic_ostream<C, T>& endl(basic_ostream<C, T>&);
_GLIBCXX_END_NAMESPACE_VERSION }
