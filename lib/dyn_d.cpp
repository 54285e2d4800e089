#include "dyn_impl.hpp"
namespace dyn {
DYN_STRUCT(Struct, DynS<L>)
DYN_STRUCT(Struct, DynR<L>)
DYN_STRUCT(Struct, Vec<DynS<L>>)
DYN_STRUCT(Struct, std::list<DynR<L>>)
DYN_STRUCT(Struct, std::deque<DynS<L>>)
DYN_STRUCT(Struct, std::map<Str, DynS<L>>)
DYN_STRUCT(Struct | Unordered, std::unordered_map<int, DynR<L>>)
DYN_STRUCT(Struct, std::pair<int, DynS<L>>)
DYN_STRUCT(Struct, std::tuple<Str, DynS<L>, int>)
DYN_STRUCT(Struct, std::unique_ptr<DynS<L>>)
DYN_STRUCT(Struct, Own<DynR<L>>)
DYN_STRUCT(Struct, Arr2<DynS<L>>)
DYN_STRUCT(Struct, Vec<std::unique_ptr<DynS<L>>>)
DYN_STRUCT(Struct, Vec<Vec<DynS<L>>>)
DYN_STRUCT(Struct | Shared, std::shared_ptr<DynS<L>>)
DYN_STRUCT(Struct | Shared, std::list<std::shared_ptr<DynR<L>>>)
}
