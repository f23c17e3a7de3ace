U = "src/core/include/URI.hpp"
B = "src/majordomo/include/majordomo/base64pp.hpp"
MDI = ["src/majordomo/include"]
PRE = '#include <URI.hpp>\n#include <iostream>\n#include <memory>\nusing namespace opencmw;\n'
BUGS = {
"b64-slash": ("P01", dict(incl=MDI, edits=[[B, "    if ((c == '+') || (c == '/')) {", "    if (c >= '+' && c < '/') {"]],
  needs="bytes whose encoding contains '/'", what="'/' is no longer accepted by the decoder (and ',', '-', '.' are)",
  demo='#include <majordomo/base64pp.hpp>\nint main(){ std::vector<uint8_t> v; for(int i=0;i<256;i++) for(int j=0;j<3;j++) v.push_back((uint8_t)(i*7+j*83)); auto d=base64pp::decode(base64pp::encode(v)); return d && *d==v ? 0 : 1; }\n')),
"b64-padding-late": ("P02", dict(incl=MDI, edits=[[B, "        return (*next(last) == '=') && (*last == '=');", "        return *next(last) == '=';"]],
  needs="a text whose last but one character is '=' and whose last is not", what="'=' followed by another character at the end is accepted",
  demo='#include <majordomo/base64pp.hpp>\nint main(){ return base64pp::decode("AAAAQQ=B") || base64pp::decode("QQ=@") ? 1 : 0; }\n')),
"uri-fragment-question": ("P03", dict(edits=[[U, "        size_t pathEnd = std::min(source.find_first_of(\"?#\", authEnd), source.length());", "        size_t pathEnd = std::min(std::min(source.find_first_of('?', authEnd), source.find_last_of('#')), source.length());"]],
  needs="a URI without query whose fragment contains another '#', or with '#' before '?'... e.g. /p#a#b", what="the path extends over the first '#' when the fragment contains a second one",
  demo=PRE+'int main(){ URI<RELAXED> u("s://h/p#a#b"); return u.path()==std::optional<std::string>("/p") && u.fragment()==std::optional<std::string>("a#b") ? 0 : 1; }\n')),
"uri-copy-querymap": ("P07", dict(edits=[[U, "        if (_query.empty()) {\n            _queryMap.clear();\n        } else {\n            _queryMap = other._queryMap;\n        }", "        if (_query.empty()) {\n            _queryMap.clear();\n        } else if (!other._queryMap.empty()) {\n            _queryMap = other._queryMap;\n        }"]],
  needs="assignment to a URI whose query map was already computed from one with a query whose map was not", what="copy-assignment keeps the stale query map of the previous value",
  demo=PRE+'int main(){ URI<STRICT> a("s://h/p?x=1"), b("s://h/p?y=2"); (void)a.queryParamMap(); a=b; return a.queryParamMap().contains("y") && !a.queryParamMap().contains("x") ? 0 : 1; }\n')),
"uri-decode-plus": ("P05", dict(edits=[[U, "                i += 2;\n            } else {\n                decoded << c;", "                i += 2;\n            } else {\n                decoded << (c == '+' ? ' ' : c);"]],
  needs="a text with a literal '+'", what="'+' is decoded to a space, which URI percent-decoding does not do",
  demo=PRE+'int main(){ return URI<>::decode("a+b")=="a+b" ? 0 : 1; }\n')),
"uri-user-at": ("P04", dict(edits=[[U, "            const size_t pwdSplit = std::min(_authority.find_first_of(':'), userSplit);", "            const size_t pwdSplit = std::min(_authority.find_last_of(':', userSplit), userSplit);"]],
  needs="a password containing ':'", what="the user name extends to the last ':' of the user information",
  demo=PRE+'int main(){ URI<STRICT> u("s://u:a:b@h/p"); return u.user()==std::optional<std::string>("u") && u.password()==std::optional<std::string>("a:b") ? 0 : 1; }\n')),
"uri-factory-key": ("P08", dict(edits=[[U, "const std::string encodedKey = encode(key);", "const std::string encodedKey = key.find_first_of(\"&=;#% \") == std::string::npos ? key : encode(key);"]],
  needs="a query parameter key with a byte outside the listed ones, e.g. '+' or a non-ASCII byte", what="keys are percent-encoded only if they contain one of a few characters, so that building throws for others",
  demo=PRE+'int main(){ try { auto u=URI<STRICT>::factory().scheme("s").hostName("h").path("p").addQueryParameter("a\\xc3\\xa9","1").build(); return u.queryParamMap().contains("a\\xc3\\xa9") ? 0 : 1; } catch (...) { return 1; } }\n')),
}
