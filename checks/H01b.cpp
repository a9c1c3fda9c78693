#include "H01_common.hpp"

std::string h01::call_wide(vp::source& s, std::string* note)
{
    return call<wchar_t>(s, note);
}

VP_FACET(shared_wide, 3000, 80000, "several threads read the same arguments at the same time")
{
    h01::shared<wchar_t>(s, c);
}
