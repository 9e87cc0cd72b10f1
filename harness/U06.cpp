// U06: Base64 encoder.  Reference decoder is written here from RFC 4648.
#include "vp.h"
#include <cstring>
#include "Util/Base64.cpp"
// branch-free: bit 8 set for characters outside the alphabet
static unsigned dec(unsigned char ch) {
    unsigned c = ch, r = 256;
    r = (c - 'A' <= 25u) ? c - 'A' : r;
    r = (c - 'a' <= 25u) ? c - 'a' + 26 : r;
    r = (c - '0' <= 9u) ? c - '0' + 52 : r;
    r = (c == '+') ? 62 : r;
    r = (c == '/') ? 63 : r;
    return r;
}
// decodes text[pos..pos+4*ceil(n/3)) and compares with the n given bytes
static void checkText(const std::string &s, size_t pos, const unsigned char *in, size_t n) {
    size_t groups = (n + 2) / 3;
    vp_assert(s.size() >= pos + 4 * groups, "encoded text is long enough");
    for (size_t g = 0; g < groups; g++) {
        unsigned v[4];
        for (size_t k = 0; k < 4; k++) {
            unsigned char ch = s[pos + 4 * g + k];
            size_t left = n - 3 * g;
            if (k > left) { vp_assert(ch == '=', "padding character"); v[k] = 0; }
            else { v[k] = dec(ch); vp_assert(v[k] < 64, "character of the standard alphabet"); }
        }
        unsigned b[3] = {(v[0] << 2 | v[1] >> 4) & 255u, (v[1] << 4 | v[2] >> 2) & 255u, (v[2] << 6 | v[3]) & 255u};
        for (size_t k = 0; k < 3; k++) {
            if (3 * g + k < n) vp_assert(b[k] == in[3 * g + k], "decodes to the original byte");
            else vp_assert(b[k] == 0, "unused bits are zero");
        }
    }
}
VP_ENTRY(u06_bytes) {
    size_t n = vp_choose("n", 0, 10);
    unsigned char in[11];
    for (size_t i = 0; i < n; i++) in[i] = vp_u8("b");
    std::string s = "ab";
    size_t w = B64Converter::kwsysBase64_Encode(in, n, s);
    vp_assert_eqi(w, 4 * ((n + 2) / 3), "number of characters returned");
    vp_assert_eqi(s.size(), 2 + w, "appended exactly the characters returned");
    vp_assert(s[0] == 'a' && s[1] == 'b', "existing text is kept");
    checkText(s, 2, in, n);
    // the repository's own decoder agrees
    unsigned char out[16];
    size_t m = B64Converter::kwsysBase64_Decode((const unsigned char *)s.data() + 2, n, out, 0);
    vp_assert_eqi(m, n, "decoded length");
    for (size_t i = 0; i < n; i++) vp_assert(out[i] == in[i], "decoder inverts the encoder");
    vp_reach("bytes");
}
template <class T> static void arr(int maxn) {
    size_t n = vp_choose("n", 0, maxn);
    std::vector<T> v(n);
    for (size_t i = 0; i < n; i++) { uint64_t x = vp_u64("x"); memcpy(&v[i], &x, sizeof(T)); }
    std::string s;
    B64Converter::getBase64FromVector(v, s);
    const unsigned nb = n * sizeof(T);
    unsigned char head[4] = {(unsigned char)(nb), (unsigned char)(nb >> 8), (unsigned char)(nb >> 16), (unsigned char)(nb >> 24)};
    vp_assert_eqi(s.size(), 8 + 4 * ((nb + 2) / 3), "header and payload sizes");
    checkText(s, 0, head, 4);
    checkText(s, 8, (const unsigned char *)v.data(), nb);
    vp_reach("array");
}
VP_ENTRY(u06_u8) { arr<uint8_t>(7); }
VP_ENTRY(u06_i32) { arr<int32_t>(4); }
VP_ENTRY(u06_i64) { arr<int64_t>(3); }
