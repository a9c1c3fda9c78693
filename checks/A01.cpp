// A01: index, slice and attribute access reach exactly the named part.
// Oracle: the same access done on the value itself with the operations of its own type.
#include "A01_common.hpp"

VP_FACET(sequences_narrow, 80000, 2000000, RULE_A01)
{
    chains_seq<char>(s, c);
}

VP_FACET(text_narrow, 120000, 2400000, RULE_TEXT)
{
    texts<char>(s, c);
}

VP_FACET(argument_narrow, 80000, 1600000, "a non-empty result")
{
    arguments<char>(s, c);
}

// A part of a part that is kept inside its argument is accessed through a copy of it.
namespace
{
struct inner
{
    int x = 0;
};
} // namespace

template <typename Context>
struct papilio::accessor<inner, Context>
{
    static basic_format_arg<Context> attribute(const inner& v, const basic_attribute_name<typename Context::char_type>&)
    {
        return static_cast<const void*>(&v.x);
    }
};

VP_KNOWN(part_of_inline_part)
{
    c.note("{0[0].address} of a vector of small objects");
    std::vector<inner> v(3);
    std::string at = papilio::format("{}", static_cast<const void*>(&v[0].x));
    VP_CHECK(papilio::format("{0[0].address}", v) == at, "the address of a member is not that of the element's member");
}
