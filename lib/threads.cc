#include "threads.hh"
namespace ops {
std::vector<Conc> &concs() {
    static std::vector<Conc> v;
    return v;
}
}  // namespace ops
