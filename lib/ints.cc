#include "ints.hh"
namespace ops {
std::vector<IntConv> &intconvs() {
    static std::vector<IntConv> v;
    return v;
}
}  // namespace ops
