// Structure-unaware mutations of document bytes.
#pragma once
#include "bridge.hpp"
namespace br {
// 1..n small changes of b
Bytes mutate(Case& c, Bytes b, Fmt f, size_t n = 4);
// bytes with little or no relation to a format
Bytes garbage(Case& c, Fmt f);
// a document in the format f: an independent encoder's free choice of encodings
Bytes wild(Case& c, Fmt f, const Doc& d, bool comments = true);
}
