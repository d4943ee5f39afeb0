// Included ahead of codon/cir/util/format.cpp (-include). That file specializes
// fmt::formatter<NodeFormatter> after its first use, which the fmt 11 of the real build allows
// and Ubuntu's fmt 9 does not. The same specialization is made here, before the first use, and
// the one in the file is turned into a specialization of an unused template.
#include <algorithm>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <sstream>
#include <unordered_set>

#include "codon/cir/util/format.h"
#include "codon/cir/util/visitor.h"

namespace codon::ir::util {
struct NodeFormatter;
std::ostream &operator<<(std::ostream &os, const NodeFormatter &n);
} // namespace codon::ir::util

template <>
struct fmt::formatter<codon::ir::util::NodeFormatter> : fmt::ostream_formatter {};

using fmt::ostream_formatter;
namespace fmt {
template <typename T> struct unused_formatter;
}
#define formatter unused_formatter
