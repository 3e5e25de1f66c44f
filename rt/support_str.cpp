// libstdc++ members that the headers leave to the library: instantiated from the headers themselves.
#include <string>
template class std::basic_string<char>;
