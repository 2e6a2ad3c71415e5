// Bodies of the library templates that libstdc++ keeps in its shared object, so that they can be executed symbolically.
#include <string>
template class std::basic_string<char>;
template class std::allocator<char>;
