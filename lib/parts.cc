#include "parts.hh"
namespace ops {
std::vector<Sel> &sels() {
    static std::vector<Sel> v;
    return v;
}
std::vector<Subject> &subjects() {
    static std::vector<Subject> v;
    return v;
}
const char *form_name(Form f) {
    static const char *n[] = {"[a:b] fixed", "[a:b] run-time", "[base +: n]", "[base -: n]", "ref [a:b] fixed", "ref [a:b] run-time", "ref [base +: n]", "ref [base -: n]"};
    return n[f];
}
}  // namespace ops
