// P17: MIME type recognition
#include <MIME.hpp>
#include "common.h"
using namespace opencmw;
#ifndef NT
#define NT 8
#endif
static char low(char c) { return (char) (c + 32 * ((c >= 'A') & (c <= 'Z'))); }
static bool occurs(std::string_view t, std::string_view n) {
    bool r = false;
    for (size_t i = 0; i + n.size() <= t.size(); i++) {
        bool m = true;
        for (size_t k = 0; k < n.size(); k++) m &= low(t[i + k]) == low(n[k]);
        r |= m;
    }
    return r;
}
static void checkType(const std::string &text) {
    const auto &r = MIME::getType(text);
    size_t      at = 0;
    while (at < MIME::ALL.size() && !same(MIME::ALL[at].typeName(), r.typeName())) at++;
    CHECK(at < MIME::ALL.size());
    if (at + 1 < MIME::ALL.size()) CHECKM(occurs(text, r.typeName()), "the type found occurs in the text");
    bool earlier = false;
    for (size_t i = 0; i < at; i++) earlier |= occurs(text, MIME::ALL[i].typeName());
    CHECKM(!earlier, "no type listed before it does");
    REACH("done");
}
HARNESS(h_mime_case) { // every listed type is recognised in any case, also inside a list of types
    size_t      i = symRange("type", 0, MIME::ALL.size() - 1);
    std::string t{ MIME::ALL[i].typeName() };
    for (char &c : t) if ((c >= 'a') & (c <= 'z')) c = (char) (c - 32 * (int) symx_sym("upper", 1));
    std::string text = (symRange("list", 0, 1) ? "foo/bar, " : "") + t + (symRange("tail", 0, 1) ? ";q=0.9" : "");
    const auto &r    = MIME::getType(text);
    CHECKM(same(r.typeName(), MIME::ALL[i].typeName()), "a listed type name is recognised, ignoring case");
    REACH("done");
}
HARNESS(h_mime_one_off) { // one character of a type name replaced
    static constexpr size_t pick[] = { 0, 6, 7, 13, 23, 27, 49 }; // css, json, ld+json, mp3, svg, mp2t, xhtml
    size_t      i = NT > 8 ? symRange("type", 0, MIME::ALL.size() - 1) : pick[symRange("type", 0, 6)];
    std::string t{ MIME::ALL[i].typeName() };
    size_t      at = symRange("at", 0, 80);
    ASSUME(at < t.size());
    t[at] = (char) symx_sym("char", 8);
    checkType(t);
}
HARNESS(h_mime_file) { // every file name ending
    std::string f = symString("name", symRange("n", 0, 6));
    const auto &r = MIME::getTypeByFileName(f);
    size_t      at = 0;
    while (at < MIME::ALL.size() && !same(MIME::ALL[at].typeName(), r.typeName())) at++;
    CHECK(at < MIME::ALL.size());
    auto ends = [&](const MIME::MimeType &t) {
        bool any = false;
        for (auto e : t.fileExtensions()) {
            if (e.size() > f.size()) continue;
            bool m = true;
            for (size_t k = 0; k < e.size(); k++) m &= low(f[f.size() - e.size() + k]) == low(e[k]);
            any |= m;
        }
        return any;
    };
    if (at + 1 < MIME::ALL.size()) CHECKM(ends(r), "the name ends with an extension of the type found");
    bool earlier = false;
    for (size_t i = 0; i < at; i++) earlier |= ends(MIME::ALL[i]);
    CHECKM(!earlier, "no type listed before it matches");
    REACH("done");
}
HARNESS(h_mime_ext) { // every listed extension belongs to its type
    size_t i = symRange("type", 0, MIME::ALL.size() - 2);
    auto   x = MIME::ALL[i].fileExtensions();
    size_t k = symRange("ext", 0, 2);
    ASSUME(k < x.size());
    std::string t = symString("stem", 2) + std::string(x[k]);
    for (size_t j = 2; j < t.size(); j++) if ((t[j] >= 'a') & (t[j] <= 'z')) t[j] = (char) (t[j] - 32 * (int) symx_sym("upper", 1));
    CHECKM(same(MIME::getTypeByFileName(t).typeName(), MIME::ALL[i].typeName()), "a listed extension is recognised, ignoring case");
    REACH("done");
}
