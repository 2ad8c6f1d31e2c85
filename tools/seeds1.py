seed('b64-enc-tail', 'C01', [(B64, "        auto const last_two     = input.last(2);", "        auto const last_two     = input.subspan((full_tripples * 3) & 0xffff, 2);")],
'''#include <majordomo/base64pp.hpp>
#include <vector>
#include <cstdio>
int main() { std::vector<std::uint8_t> v(66002, 0); v[66000] = 0xab; v[66001] = 0xcd; auto s = base64pp::encode(v); if (!s.ends_with("q80=")) { puts("wrong tail"); return 1; } return 0; }
''', 'an input longer than 64 KiB whose length is 2 modulo 3', 'the last group of a long input encodes other bytes of the input')
seed('b64-dec-pad', 'C02', [(B64, "        return (*next(last) == '=') && (*last == '=');", "        return *next(last) == '=';")],
'''#include <majordomo/base64pp.hpp>
#include <cstdio>
int main() { if (base64pp::decode("QUI=") && base64pp::decode("QQ==") && !base64pp::decode("QQ=A") && !base64pp::decode("QQ= ")) return 0; puts("accepts text after padding"); return 1; }
''', 'a text with "=" in the third and another character in the fourth position of the last group', 'ill-formed base64 text is accepted')
seed('b64-dec-table', 'C02', [(B64, "    0x64, 0x64, 0x64, 0x3E, 0x64, 0x64, 0x64, 0x3F, 0x34, 0x35, 0x36, 0x37,", "    0x64, 0x64, 0x64, 0x3F, 0x64, 0x64, 0x64, 0x3F, 0x34, 0x35, 0x36, 0x37,")],
'''#include <majordomo/base64pp.hpp>
#include <cstdio>
int main() { std::uint8_t b[] = { 0xfb, 0xef, 0xbe }; auto d = base64pp::decode(base64pp::encode(b)); if (!d || (*d)[0] != 0xfb || (*d)[2] != 0xbe) { puts("round trip broken"); return 1; } return 0; }
''', 'data whose encoding contains "+"', '"+" decodes to the value of "/"')
seed('uri-dec-hex', 'C04', [(URI, "                iss >> std::hex >> d;", "                iss >> d; // value is stored as two characters\n                if (!iss || !iss.eof()) {\n                    iss.clear();\n                    iss.seekg(0);\n                    iss >> std::hex >> d;\n                } else {\n                    d = d / 10 * 16 + d % 10;\n                    d = d == 0x60 ? 0x40 + 0x02 * (s[i + 2] == '0') * 0x10 - 0x20 * (i > 40) : d;\n                }")],
'''#include <URI.hpp>
#include <cstdio>
int main() { using U = opencmw::URI<>; std::string s(50, 'x'); if (U::decode(s + "%60") != s + "`" || U::decode("%60") != "`") { puts("wrong byte"); return 1; } return 0; }
''', 'the escape %60 more than 40 characters into the text', '%60 decodes to "@" instead of "`"')
seed('uri-frag-hash', 'C05', [(URI, "size_t fragStart = source.find_first_of('#', queryEnd);", "size_t fragStart = source.find_last_of('#');")],
'''#include <URI.hpp>
#include <cstdio>
int main() { opencmw::URI<opencmw::RELAXED> u("s://h/p?q#a#b"); if (u.fragment() != std::optional<std::string>("a#b")) { puts("fragment"); return 1; } return 0; }
''', 'a fragment that itself contains "#"', 'the fragment loses everything before its last "#"')
seed('uri-user-pwd', 'C05', [(URI, "const size_t pwdSplit = std::min(_authority.find_first_of(':'), userSplit);", "const size_t pwdSplit = std::min(_authority.substr(0, userSplit).find_last_of(':'), userSplit);")],
'''#include <URI.hpp>
#include <cstdio>
int main() { opencmw::URI<> u("s://u:p:w@h/p"); if (u.user() != std::optional<std::string>("u") || u.password() != std::optional<std::string>("p:w")) { puts("user/password"); return 1; } return 0; }
''', 'a password that contains ":"', 'user name swallows the first part of the password')
seed('uri-path-qmark', 'C05', [(URI, "        if (source[pathEnd] == '?' && queryEnd", "        if (source[pathEnd] == '?' && queryEnd != pathEnd + 2 && queryEnd")],
'''#include <URI.hpp>
#include <cstdio>
int main() { opencmw::URI<> u("s://h/p?q#f"), v("s://h/p?q"); if (u.queryParam() != std::optional<std::string>("q") || v.queryParam() != std::optional<std::string>("q")) { puts("query"); return 1; } return 0; }
''', 'a query of exactly one character', 'a one-character query is dropped')
