#include "layout.hh"
namespace ops {
std::vector<std::unique_ptr<Layout>> &layouts() {
    static std::vector<std::unique_ptr<Layout>> v;
    return v;
}
}  // namespace ops
