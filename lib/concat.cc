#include "concat.hh"
namespace ops {
std::vector<Cat> &cats() {
    static std::vector<Cat> v;
    return v;
}
}  // namespace ops
