#include "dyn_impl.hpp"
namespace dyn {
DYN_LEAF(Leaf, bool)
DYN_LEAF(Leaf, int8_t)
DYN_LEAF(Leaf, uint8_t)
DYN_LEAF(Leaf, int16_t)
DYN_LEAF(Leaf, uint16_t)
DYN_LEAF(Leaf, int32_t)
DYN_LEAF(Leaf, uint32_t)
DYN_LEAF(Leaf, int64_t)
DYN_LEAF(Leaf, uint64_t)
DYN_LEAF(Leaf, float)
DYN_LEAF(Leaf, double)
DYN_LEAF(Leaf, long double)
DYN_LEAF(Leaf, char)
DYN_LEAF(Leaf, char16_t)
DYN_LEAF(Leaf, char32_t)
DYN_LEAF(Leaf, wchar_t)
DYN_LEAF(Leaf, Str)
DYN_LEAF(Leaf | Wide, Str16)
DYN_LEAF(Leaf | Wide, Str32)
DYN_LEAF(Leaf | Wide, StrW)
DYN_LEAF(Leaf, char[8])
DYN_LEAF(Leaf, char[1])
DYN_LEAF(Leaf, char[40])
DYN_LEAF(Leaf | Wide, char16_t[6])
DYN_LEAF(Leaf | Wide, char32_t[5])
DYN_LEAF(Leaf | Wide, wchar_t[9])
DYN_LEAF(Leaf, Blob)
DYN_LEAF(Leaf, Raw<uint8_t>)
DYN_LEAF(Leaf, Raw<int32_t>)
DYN_LEAF(Leaf, Raw<double>)
DYN_LEAF(Leaf, SrlBytes)
DYN_LEAF(Leaf, std::unique_ptr<int>)
DYN_LEAF(Leaf, std::unique_ptr<Str>)
DYN_LEAF(Leaf, std::unique_ptr<double>)
DYN_LEAF(Leaf, Own<int64_t>)
DYN_LEAF(Leaf, Own<Str>)
DYN_LEAF(Leaf, Own<bool>)
DYN_LEAF(Leaf | Wide, std::unique_ptr<Str16>)
}
