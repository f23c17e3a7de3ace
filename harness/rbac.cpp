// P16: RBAC token
#include <majordomo/Rbac.hpp>
#include "common.h"
using namespace opencmw::majordomo;
HARNESS(h_rbac) {
    std::string t      = (symRange("prefix", 0, 1) ? "RBAC=" : "") + symString("token", symRange("n", 0, 7));
    bool        prefix = t.size() >= 5 && symx_branch(same(std::string_view(t).substr(0, 5), "RBAC="));
    size_t      comma  = 5;
    if (prefix) while (comma < t.size() && !symx_branch(t[comma] == ',')) comma++;
    bool             ok   = prefix && comma < t.size();
    std::string_view role = ok ? std::string_view(t).substr(5, comma - 5) : std::string_view{}, hash = ok ? std::string_view(t).substr(comma + 1) : std::string_view{};
    CHECKM(same(parse_rbac::role(t), role), "role(): between 'RBAC=' and the first comma, empty for anything else");
    CHECKM(same(parse_rbac::hash(t), hash), "hash(): everything after the first comma, empty for anything else");
    auto rh = parse_rbac::roleAndHash(t);
    CHECKM(same(rh.first, role) & same(rh.second, hash), "roleAndHash() agrees with role() and hash()");
    if (ok) REACH("token"); else REACH("none");
}
