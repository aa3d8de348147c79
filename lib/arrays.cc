#include "arrays.hh"
namespace ops {
const char *const v_names[V_COUNT] = {"&", "|", "^", "~", "+", "-", "*", ">>", "==", "match", "<", "r_and", "r_or", "r_xor", "!", "-u", "concat", "extend", "to_signed", "bool, to_uint64, to_num and str"};
std::vector<std::unique_ptr<Arr>> &arrs() {
    static std::vector<std::unique_ptr<Arr>> v;
    return v;
}
std::vector<std::unique_ptr<UArr>> &uarrs() {
    static std::vector<std::unique_ptr<UArr>> v;
    return v;
}
}  // namespace ops
