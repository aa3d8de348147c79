#include "text.hh"
namespace ops {
std::vector<Text> &texts() {
    static std::vector<Text> v;
    return v;
}
}  // namespace ops
