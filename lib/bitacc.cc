#include "bitacc.hh"
namespace ops {
std::vector<std::unique_ptr<BitObj>> &bit_objs() {
    static std::vector<std::unique_ptr<BitObj>> v;
    return v;
}
}  // namespace ops
