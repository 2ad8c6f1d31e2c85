RB = 'src/majordomo/include/majordomo/Rbac.hpp'; OC = 'src/core/include/opencmw.hpp'
H = r'''#include <cstdio>
#include <majordomo/Rbac.hpp>
#define R(c) if (!(c)) { printf("failed: %s\n", #c); return 1; }
using namespace opencmw::majordomo; using SV = std::string_view;
'''
seed('rb-both-last', 'C22', [(RB, "    const auto commaPos = token.find(',');\n    if (commaPos == std::string_view::npos) {\n        return {};\n    }\n\n    return { token.substr(0, commaPos)", "    const auto commaPos = token.find_last_of(',');\n    if (commaPos == std::string_view::npos) {\n        return {};\n    }\n\n    return { token.substr(0, commaPos)")],
  H + 'int main() { auto r = parse_rbac::roleAndHash("RBAC=ADMIN,aa,bb"); R(r.first == "ADMIN" && r.second == "aa,bb"); R(parse_rbac::role("RBAC=ADMIN,aa,bb") == r.first); return 0; }\n', 'a token whose hash contains a comma, read with roleAndHash', 'roleAndHash splits at the last comma: the role is no longer the one role() reports', stubs=True)
seed('rb-map-prefix', 'C22', [(OC, "        auto itr = std::find_if(begin(data), end(data), [&key](const auto &v) { return v.first == key; });", "        auto itr = std::find_if(begin(data), end(data), [&key](const auto &v) {\n            if constexpr (requires { key.starts_with(v.first); }) {\n                return key.starts_with(v.first);\n            } else {\n                return v.first == key;\n            }\n        });")],
  H + 'int main() { opencmw::ConstExprMap<SV, Permission, 2> m(std::array<std::pair<SV, Permission>, 2>{ std::pair<SV, Permission>{ "ADMIN", Permission::RW }, { "NONE", Permission::NONE } }); R(m.at("ADMIN", Permission::NONE) == Permission::RW); R(m.at("ADMINISTRATOR", Permission::NONE) == Permission::NONE); return 0; }\n', 'a role whose name extends the name of a declared role', 'the lookup with a default accepts names that merely start with a known role', stubs=True)
seed('rb-hash-skip', 'C22', [(RB, "    token.remove_prefix(commaPos + 1);\n    return token;", "    token.remove_prefix(commaPos + 1);\n    if (token.ends_with('\\0')) {\n        token.remove_suffix(1);\n    }\n    return token;")],
  H + 'int main() { SV t("RBAC=R,ab\\0", 10); R(parse_rbac::hash(t).size() == 3); R(parse_rbac::hash(t) == parse_rbac::roleAndHash(t).second); return 0; }\n', 'a binary hash whose last byte is zero', 'hash() drops a trailing zero byte that roleAndHash() keeps', stubs=True)
