#include "machine.hh"
namespace ops {
std::vector<MachineSpec> &specs() {
    static std::vector<MachineSpec> v;
    return v;
}
MachineSpec &spec(int k) {
    auto &v = specs();
    if ((int)v.size() <= k) v.resize(k + 1);
    return v[k];
}
}  // namespace ops
