// K01 - the small vector behaves as a vector at every size: tracked elements
#include "K01_common.hpp"

// moving an element can throw as well: nothing leaks and every element stays usable
VP_FACET(throwing_moves, 40000, 1500000, "some vector moved between inline and heap storage")
{
    history<mover, 2, tr::alloc<mover>>(s, c);
}

VP_FACET(tracked_small, 80000, 3000000, "some vector moved between inline and heap storage")
{
    history<elem, 3, tr::alloc<elem>>(s, c);
}

VP_FACET(tracked_one, 40000, 1500000, "some vector moved between inline and heap storage")
{
    history<elem, 1, std::allocator<elem>>(s, c);
}
