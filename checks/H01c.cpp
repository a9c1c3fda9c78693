#include "H01_common.hpp"

std::string h01::call_utf16(vp::source& s, std::string* note)
{
    return call<char16_t>(s, note);
}

VP_FACET(shared_utf16, 3000, 80000, "several threads read the same arguments at the same time")
{
    h01::shared<char16_t>(s, c);
}
