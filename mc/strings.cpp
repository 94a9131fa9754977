// The standard library's strings, to be compiled with the library's instrumentation: what is done to a shared string is
// seen as well.
#include <sstream>
#include <streambuf>
#include <string>

template class std::basic_string<char>;
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
