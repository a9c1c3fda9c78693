// K01 - the small vector: strings and ints
#include "K01_common.hpp"

VP_FACET(strings, 40000, 1500000, "some vector moved between inline and heap storage")
{
    history<std::string, 4, std::allocator<std::string>>(s, c);
}

VP_FACET(ints, 40000, 1500000, "some vector moved between inline and heap storage")
{
    history<int, 8, tr::alloc<int>>(s, c);
}
