#include "dyn_impl.hpp"
namespace dyn {
DYN_LEAF(Scope, std::map<Str, int>)
DYN_LEAF(Scope, std::map<int, Str>)
DYN_LEAF(Scope, std::multimap<int, Str>)
DYN_LEAF(Scope, std::multimap<uint8_t, Vec<int>>)
DYN_LEAF(Scope | Unordered, std::unordered_map<int, double>)
DYN_LEAF(Scope | Unordered, std::unordered_map<Str, Str>)
DYN_LEAF(Scope, std::map<Str, std::map<Str, int>>)
DYN_LEAF(Scope, std::map<Vec<int>, Str>)
DYN_LEAF(Scope, std::map<std::pair<int, int>, Vec<Str>>)
DYN_LEAF(Scope | Wide, std::map<Str16, Str32>)
DYN_LEAF(Scope, std::pair<int, Str>)
DYN_LEAF(Scope, std::pair<Vec<int>, std::map<int, int>>)
DYN_LEAF(Scope, std::pair<std::pair<bool, double>, std::pair<Str, char>>)
DYN_LEAF(Scope, std::tuple<int, Str, double>)
DYN_LEAF(Scope, std::tuple<Vec<int>, Str, std::pair<int, bool>, uint8_t>)
DYN_LEAF(Scope, std::tuple<std::tuple<int>, std::tuple<Str, Str>>)
DYN_LEAF(Scope, Vec<std::tuple<int, Str>>)
DYN_LEAF(Scope | Unordered, Srl::Lib::HTable<Str, int>)
DYN_LEAF(Scope | Unordered, Srl::Lib::HTable<Str, Str>)
DYN_LEAF(Scope | Unordered, Srl::Lib::HTable<Str, Vec<int>>)
DYN_LEAF(Scope | Shared, std::shared_ptr<int>)
DYN_LEAF(Scope | Shared, std::shared_ptr<Str>)
DYN_LEAF(Scope | Shared, std::shared_ptr<Vec<int>>)
DYN_LEAF(Scope | Shared, Vec<std::shared_ptr<int64_t>>)
}
