#include "bridge.hpp"
using namespace doc;
namespace br {
const char* name(Fmt f) { static const char* const n[] = { "JSON", "JSON(spaced)", "MessagePack", "Srl" }; return n[f]; }

namespace {
// ins(name, value) inserts; how: variation in the way it is done
template<class Ins> void put(Ins& ins0, const Bytes& nm, const Doc& d, Case* c)
{
    size_t how = c ? c->weighted({ 8, 4, 1, 4, 1, 1 }) : 0;
    std::vector<uint32_t> cps; bool ok = false;
    if(how >= 4) cps = from_utf8(nm, &ok);
    auto ins = [&](const auto& v) {
        if(how == 1) { Srl::String s((const uint8_t*)nm.data(), nm.size(), Srl::Encoding::UTF8); ins0(s, v); }
        else if(how == 4 && ok) { auto s = to16(cps); ins0(Srl::String(s), v); }
        else if(how == 5 && ok) { auto s = to32(cps); ins0(Srl::String(s), v); }
        else ins0(Srl::String(nm), v);
    };
    auto num = [&](auto v) { if(how == 3) ins(Srl::Value(v)); else ins(v); };
    switch(d.k) {
        case Null: if(how == 3) ins(Srl::Value(Srl::Type::Null)); else ins(nullptr); break;
        case Bool: num(d.b); break;
        case Int:
            switch(d.ct) {
                case I8: num((int8_t)d.i); break;    case U8: num((uint8_t)d.i); break;
                case I16: num((int16_t)d.i); break;  case U16: num((uint16_t)d.i); break;
                case I32: num((int32_t)d.i); break;  case U32: num((uint32_t)d.i); break;
                case U64: num((uint64_t)d.i); break; default: num((int64_t)d.i); break;
            }
            break;
        case Flt: if(d.ct == F32) num((float)d.f); else num(d.f); break;
        case Str: {
            bool sok = false; std::vector<uint32_t> sc; if(how >= 4) sc = from_utf8(d.s, &sok);
            if(sok && how == 4) ins(to16(sc)); else if(sok && how == 5) ins(to32(sc)); else ins(d.s);
            break;
        }
        case Bin: ins(Srl::BitWrap((const uint8_t*)d.s.data(), d.s.size())); break;
        default: ins(Srl::ScopeWrap([&](Srl::Node& ch) { build(ch, d, c); }, type(d)));
    }
}
}
void build(Srl::Node& n, const Doc& d, Case* c)
{
    auto ins = [&](const Srl::String& nm, const auto& v) { if(nm.size()) n.insert(nm, v); else n.insert(v); };
    for(auto& ch : d.m) put(ins, ch.first, ch.second, c);
}
void DocObj::srl_store(Srl::StoreContext& ctx) const
{
    auto ins = [&](const Srl::String& nm, const auto& v) { ctx(nm, v); };
    for(auto& ch : d->m) put(ins, ch.first, ch.second, c);
}
Bytes store_doc(Fmt f, const Doc& d, Case* c, bool stream)
{
    Srl::Tree t; DocObj o { &d, c };
    return with(f, [&](auto& p) {
        if(!stream) return str(t.store(o, p));
        std::ostringstream os; t.store(o, Srl::Lib::Out::Source(os), p); return os.str();
    });
}
Bytes pack_doc(Fmt f, const Doc& d, bool stream)
{
    Srl::Tree t; Srl::ScopeWrap w([&](Srl::Node& ch) { build(ch, d, nullptr); }, type(d));
    return with(f, [&](auto& p) {
        if(!stream) { std::vector<uint8_t> v; t.pack(v, p, "root", w); return str(v); }
        std::ostringstream os; t.pack(Srl::Lib::Out::Source(os), p, "root", w); return os.str();
    });
}

Doc dump(const Srl::Value& v)
{
    using T = Srl::Type;
    switch(v.type()) {
        case T::Null: return Doc();
        case T::Bool: return Doc::boolean(v.unwrap<bool>());
        case T::I8: return Doc::integer(v.unwrap<int8_t>(), I8);
        case T::UI8: return Doc::integer(v.unwrap<uint8_t>(), U8);
        case T::I16: return Doc::integer(v.unwrap<int16_t>(), I16);
        case T::UI16: return Doc::integer(v.unwrap<uint16_t>(), U16);
        case T::I32: return Doc::integer(v.unwrap<int32_t>(), I32);
        case T::UI32: return Doc::integer(v.unwrap<uint32_t>(), U32);
        case T::I64: return Doc::integer(v.unwrap<int64_t>(), I64);
        case T::UI64: return Doc::integer(v.unwrap<uint64_t>(), U64);
        case T::FP32: return Doc::flt(v.unwrap<float>(), F32);
        case T::FP64: return Doc::flt(v.unwrap<double>(), F64);
        case T::String: return Doc::str(v.encoding() == Srl::Encoding::UTF8 ? Bytes((const char*)v.data(), v.size()) : v.unwrap<std::string>());
        case T::Binary: return Doc::bin(Bytes((const char*)v.data(), v.size()));
        default: throw std::runtime_error("value has a scope type");
    }
}
Doc dump(Srl::Node& n)
{
    Doc d; d.k = n.type() == Srl::Type::Array ? Arr : Obj;
    size_t nv = 0, nn = 0;
    n.foreach_value([&](Srl::Value& v) { nv++; d.m.emplace_back(v.name().unwrap(), dump(v)); });
    n.foreach_node([&](Srl::Node& c) { nn++; d.m.emplace_back(c.name().unwrap(), dump(c)); });
    if(nv != n.num_values() || nn != n.num_nodes()) throw std::runtime_error("counts of a node differ from its iteration");
    return d;
}

Bytes write(Srl::Tree& t, Fmt f, bool stream)
{
    return with(f, [&](auto& p) {
        if(!stream) return str(t.to_source(p));
        std::ostringstream o; t.to_source(Srl::Lib::Out::Source(o), p); return o.str();
    });
}
void load(Srl::Tree& t, Fmt f, const Bytes& b, Via via, size_t chunk)
{
    with(f, [&](auto& p) { source(via, b, chunk, [&](auto& s) { t.load_source(s, p); }); });
}
Doc load_doc(Fmt f, const Bytes& b, Via via, size_t chunk) { Srl::Tree t; load(t, f, b, via, chunk); return dump(t.root()); }
Bytes write_doc(Fmt f, const Doc& d) { Srl::Tree t; make(t, d); return write(t, f); }
Bytes encode(Fmt f, const Doc& d)
{
    return text(f) ? json_plain(d) : f == MP ? msgpack_write(nullptr, d) : srl_write(d);
}
Doc decode(Fmt f, const Bytes& b)
{
    return text(f) ? json_parse(b) : f == MP ? msgpack_parse(b) : srl_parse(b);
}
Doc expect(Fmt f, const Doc& d) { return text(f) ? text_norm(d) : norm(d); }
}
