// std::string for a machine whose C++ library is headers only
#define _GLIBCXX_DEFINING_STRING_INSTANTIATIONS 1
#include <string>
template class std::basic_string<char>;
