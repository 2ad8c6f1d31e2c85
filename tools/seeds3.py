seed('uri-move-view', 'C06', [(URI, "            adjustView(_pwd);\n", "")],
'''#include <URI.hpp>
#include <cstdio>
#include <optional>
int main() { using U = opencmw::URI<>; std::optional<U> a(U("s://u:pw@h")); a->user(); U b("t://x"); b = std::move(*a); *a = U("q://aa:bb@cc");
  auto t = U::factory(b).authority("").toString(); if (t != "s://u:pw@h") { puts("password lost by move"); return 1; } return 0; }
''', 'a short text (kept inside the string object) whose authority was split before the move', 'after a move the password view points into the moved-from object')
seed('uri-copy-map', 'C06', [(URI, "        if (_query.empty()) {\n            _queryMap.clear();\n        } else {\n            _queryMap = other._queryMap;\n        }", "        if (_query.empty()) {\n            _queryMap.clear();\n        } else if (!other._queryMap.empty()) {\n            _queryMap = other._queryMap;\n        }")],
'''#include <URI.hpp>
#include <cstdio>
int main() { using U = opencmw::URI<>; U a("s://h/p?a=1"), b("s://h/p?b=2"); b.queryParamMap(); b = a; auto &m = b.queryParamMap(); if (m.size() != 1 || !m.contains("a")) { puts("stale query map"); return 1; } return 0; }
''', 'the target had its query map read, the source not yet', 'the target keeps the query map of its previous content')
seed('uri-q-second-eq', 'C07', [(URI, 'const auto valueEnd = _query.find_first_of(";&\\0", readPos);', 'const auto valueEnd = _query.find_first_of("=;&" + (_query[keyEnd - (keyEnd > 0)] != \\\'=\\\'), readPos);'.replace("\\'", "'"))],
'''#include <URI.hpp>
#include <cstdio>
int main() { using U = opencmw::URI<>; U a("s://h/p?k==x&l=1"); auto &m = a.queryParamMap(); if (m.size() != 2 || m.at("k") != "=x") { puts("first"); return 1; }
  U b("s://h/p?=a=b&l=1"); auto &n = b.queryParamMap(); if (n.size() != 2 || n.at("") != "a=b") { puts("value cut at '='"); return 1; } return 0; }
''', 'an empty key at the very start of the query and a value containing "="', 'the value is cut at its second "="')
seed('uri-q-key-cache', 'C07', [(URI, "        if (_query.empty() || !_queryMap.empty()) { // empty query parameter or already parsed", "        if (_query.size() < 2 || !_queryMap.empty()) { // empty query parameter or already parsed")],
'''#include <URI.hpp>
#include <cstdio>
int main() { using U = opencmw::URI<>; U a("s://h/p?k"); if (a.queryParamMap().size() != 1) { puts("one-character query lost"); return 1; } return 0; }
''', 'a query of one character', 'its key is missing from the map')
