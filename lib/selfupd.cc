#include "selfupd.hh"
namespace ops {
std::vector<SelfUpdate> &self_updates() {
    static std::vector<SelfUpdate> v;
    return v;
}
}  // namespace ops
