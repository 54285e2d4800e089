// Names/text handed to the library in UTF-8, UTF-16 or UTF-32.
#pragma once
#include "bridge.hpp"
namespace br {
// calls fn(Srl::String) with the text in one of the encodings (picked by c); ill-formed text stays UTF-8
template<class F> auto named(Case& c, const Bytes& b, F&& fn)
{
    size_t how = c.weighted({ 5, 2, 2, 2, 1 });
    bool ok = false; std::vector<uint32_t> cp; if(how >= 2) cp = doc::from_utf8(b, &ok);
    if(ok && how == 2) { auto s = doc::to16(cp); return fn(Srl::String(s)); }
    if(ok && how == 3) { auto s = doc::to32(cp); return fn(Srl::String(s)); }
    if(how == 1) { std::unique_ptr<uint8_t[]> p(new uint8_t[b.size()]); memcpy(p.get(), b.data(), b.size()); return fn(Srl::String(p.get(), b.size(), Srl::Encoding::UTF8)); }
    if(how == 4 && b.find('\0') == Bytes::npos) return fn(Srl::String(b.c_str()));
    return fn(Srl::String(b));
}
}
