// Force-included before GATL's headers when the harness is compiled by clang: GATL uses nullptr_t and size_t unqualified.
#include <cstddef>
using std::nullptr_t;
