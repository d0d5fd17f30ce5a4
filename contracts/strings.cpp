// Brings the members of std::string into the verified module.
#include <string>
template class std::basic_string<char>;
