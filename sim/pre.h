// clang needs a few names that gcc's headers happen to provide
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
using std::nullptr_t;
