// P01/P02: base64 codec (src/majordomo/include/majordomo/base64pp.hpp)
#include "symx.h"
#include <majordomo/base64pp.hpp>
#ifdef THOROUGH
static constexpr size_t ENC_MAX = 66, DEC_QUADS = 20;
#else
static constexpr size_t ENC_MAX = 30, DEC_QUADS = 9;
#endif
// independent reference: RFC 4648 section 4
static char refChar(unsigned v) { return (char) (v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/'); }
static bool refVal(unsigned char c, unsigned &v) {
    bool up = (c >= 'A') & (c <= 'Z'), lo = (c >= 'a') & (c <= 'z'), di = (c >= '0') & (c <= '9'), pl = c == '+', sl = c == '/';
    v = up ? c - 'A' : lo ? c - 'a' + 26u : di ? c - '0' + 52u : pl ? 62u : 63u;
    return up | lo | di | pl | sl;
}
// every byte sequence up to ENC_MAX bytes encodes to the RFC 4648 text and decodes back to itself
HARNESS(h_roundtrip) {
    size_t  n = symRange("n", 0, ENC_MAX);
    uint8_t buf[ENC_MAX + 1] = {};
    symx_bytes("data", buf, n);
    std::string e = base64pp::encode(std::span<const uint8_t>(buf, n));
    CHECK(e.size() == (n + 2) / 3 * 4);
    bool same = true;
    for (size_t q = 0; q < (n + 2) / 3; q++) {
        size_t   left = n - 3 * q;
        unsigned b0 = buf[3 * q], b1 = left > 1 ? buf[3 * q + 1] : 0u, b2 = left > 2 ? buf[3 * q + 2] : 0u;
        same &= e[4 * q] == refChar(b0 >> 2);
        same &= e[4 * q + 1] == refChar(((b0 & 3) << 4) | (b1 >> 4));
        same &= e[4 * q + 2] == (left > 1 ? refChar(((b1 & 15) << 2) | (b2 >> 6)) : '=');
        same &= e[4 * q + 3] == (left > 2 ? refChar(b2 & 63) : '=');
    }
    CHECKM(same, "encode(data) is the RFC 4648 text of data");
    auto d = base64pp::decode(e);
    CHECKM(d.has_value(), "decode accepts every encoded text");
    CHECKM(d->size() == n, "decode(encode(data)) has data's length");
    bool eq = true;
    for (size_t i = 0; i < n; i++) eq &= (*d)[i] == buf[i];
    CHECKM(eq, "decode(encode(data)) == data");
    REACH("roundtrip");
    if (n == ENC_MAX) REACH("max");
}
// arbitrary text: decode accepts exactly the well-formed base64 texts, yields the reference bytes, and never touches memory out of bounds
static void decodeArbitrary(size_t n) {
    std::string s = symString("text", n);
    auto        d = base64pp::decode(s);
    if (n % 4) { CHECKM(!d, "a text whose length is not a multiple of 4 is rejected"); REACH("badlen"); return; }
    size_t pad = 0;
    bool   ok  = true;
    unsigned v[DEC_QUADS * 4 + 4] = {};
    bool p1 = n && s[n - 1] == '=', p2 = n && s[n - 1] == '=' && s[n - 2] == '=';
    for (size_t i = 0; i < n; i++) {
        bool isPad = (i == n - 1 && p1) || (i == n - 2 && p2);
        if (isPad) { pad++; v[i] = 0; }
        else ok &= refVal((unsigned char) s[i], v[i]);
    }
    CHECKM(d.has_value() == ok, "decode accepts exactly the texts over the base64 alphabet with at most two '=' at the end");
    if (!ok) { REACH("rejected"); return; }
    CHECKM(d->size() == n / 4 * 3 - pad, "decoded length");
    bool eq = true;
    for (size_t i = 0; i < n / 4 * 3 - pad; i++) {
        size_t   q = i / 3 * 4;
        unsigned w = (v[q] << 18) | (v[q + 1] << 12) | (v[q + 2] << 6) | v[q + 3];
        eq &= (*d)[i] == (uint8_t) (w >> (16 - 8 * (i % 3)));
    }
    CHECKM(eq, "decoded bytes");
    REACH("accepted");
}
HARNESS(h_decode_any) { decodeArbitrary(symRange("n", 0, 4 * DEC_QUADS)); }
