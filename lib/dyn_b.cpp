#include "dyn_impl.hpp"
namespace dyn {
DYN_LEAF(Scope, Vec<int>)
DYN_LEAF(Scope, Vec<uint8_t>)
DYN_LEAF(Scope, Vec<double>)
DYN_LEAF(Scope, Vec<Str>)
DYN_LEAF(Scope | Wide, Vec<Str16>)
DYN_LEAF(Scope, std::list<int64_t>)
DYN_LEAF(Scope, std::list<Str>)
DYN_LEAF(Scope, std::deque<uint16_t>)
DYN_LEAF(Scope, std::deque<bool>)
DYN_LEAF(Scope, std::set<int>)
DYN_LEAF(Scope, std::set<Str>)
DYN_LEAF(Scope, std::multiset<int8_t>)
DYN_LEAF(Scope, std::set<Vec<int>>)
DYN_LEAF(Scope, Vec<Vec<int>>)
DYN_LEAF(Scope, std::list<Vec<Str>>)
DYN_LEAF(Scope, Vec<std::set<int>>)
DYN_LEAF(Scope, Vec<Vec<std::deque<float>>>)
DYN_LEAF(Scope, int[4])
DYN_LEAF(Scope, Str[3])
DYN_LEAF(Scope, double[2][3])
DYN_LEAF(Scope, Vec<int>[2])
DYN_LEAF(Scope, Vec<char>)
DYN_LEAF(Scope, Vec<std::unique_ptr<int>>)
DYN_LEAF(Scope, std::list<std::unique_ptr<Str>>)
DYN_LEAF(Scope, std::unique_ptr<Vec<int>>)
DYN_LEAF(Scope, Own<Vec<Str>>)
}
