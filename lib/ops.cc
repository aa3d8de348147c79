#include "ops.hh"
namespace ops {
std::vector<std::string> print_as;
bool deep = false;
std::vector<Inst> &all() {
    static std::vector<Inst> v;
    return v;
}
std::vector<Rel> &rels() {
    static std::vector<Rel> v;
    return v;
}
std::vector<Pure> &pures() {
    static std::vector<Pure> v;
    return v;
}
}  // namespace ops
