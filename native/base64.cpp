#include "common.hpp"
#include <majordomo/base64pp.hpp>
#include <optional>
using nat::Ctl;
static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_enc(const std::string &s) { // bit-serial reference
    std::string o; unsigned acc = 0; int nb = 0;
    for (unsigned char c : s) { acc = (acc << 8) | c; nb += 8; while (nb >= 6) { o += A[(acc >> (nb - 6)) & 63]; nb -= 6; } acc &= (1u << nb) - 1; }
    if (nb) o += A[(acc << (6 - nb)) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
static std::optional<std::string> ref_dec(const std::string &s) {
    if (s.size() % 4) return std::nullopt;
    size_t n = s.size(), pad = 0;
    if (n && s[n - 1] == '=') { pad = 1; if (s[n - 2] == '=') pad = 2; }
    std::string o; unsigned acc = 0; int nb = 0;
    for (size_t i = 0; i < n - pad; i++) { const char *p = s[i] ? strchr(A, s[i]) : nullptr; if (!p) return std::nullopt; acc = (acc << 6) | unsigned(p - A); nb += 6; if (nb >= 8) { o += char((acc >> (nb - 8)) & 255); nb -= 8; } acc &= (1u << nb) - 1; }
    return o;
}
static std::string enc(const std::string &s) { return base64pp::encode({ reinterpret_cast<const uint8_t *>(s.data()), s.size() }); }
static std::string chk_enc(const std::string &s) { if (enc(s) != ref_enc(s)) return "encode differs from RFC 4648: got '" + enc(s) + "'"; return ""; }
static std::string chk_dec(const std::string &s) {
    std::string copy(s); auto d = base64pp::decode(std::string_view(copy)); auto r = ref_dec(s);
    if (d.has_value() != r.has_value()) return std::string("decode ") + (d ? "accepts ill-formed" : "rejects well-formed") + " text";
    if (d && std::string(d->begin(), d->end()) != *r) return "decode yields the wrong bytes";
    return "";
}
int main(int argc, char **argv) {
    return nat::run(argc, argv, [](Ctl &c) { c.check = c.prop == "C01" ? chk_enc : chk_dec; return c.prop == "C01" || c.prop == "C02"; }, [](Ctl &c) {
        bool e = c.prop == "C01";
        if (e) {
            for (int a = 0; a < 256; a++) { if (!c.go(std::string(1, char(a)))) return; for (int b = 0; b < 256; b++) { if (!c.go(std::string{ char(a), char(b) })) return; if (!c.go(std::string{ char(a), char(b), char(a ^ 0x5a) }) || !c.go(std::string{ char(b), 'x', char(a) })) return; } }
            for (size_t L = 0; L < 400 && c.time_left(); L++) for (int k = 0; k < 12; k++) { std::string s(L, 0); for (auto &ch : s) ch = k == 0 ? 0 : k == 1 ? char(255) : char(c.rng()); if (!c.go(s)) return; }
            for (size_t L : { 1000u, 1023u, 4095u, 4096u, 4097u, 12345u, 65535u, 65536u, 65537u, 200000u, 1048577u }) { std::string s(L, 0); for (auto &ch : s) ch = char(c.rng()); if (!c.go(s)) return; }
            while (c.time_left()) { std::string s(c.r(70), 0); for (auto &ch : s) ch = char(c.rng()); if (!c.go(s)) return; }
            return;
        }
        if (!c.go("")) return;
        for (size_t L = 1; L < 40; L++) { std::string s(L, 'A'); if (!c.go(s)) return; for (int ch = 0; ch < 256; ch++) for (size_t p = 0; p < L; p++) { auto t = s; t[p] = char(ch); if (!c.go(t)) return; if (L >= 4) { t[L - 1] = '='; if (!c.go(t)) return; t[L - 2] = '='; if (!c.go(t)) return; t[L - 1] = 'B'; if (!c.go(t)) return; t[L - 3] = '='; t[L - 1] = '='; if (!c.go(t)) return; } } }
        for (int a = 0; a < 64; a++) for (int b = 0; b < 64; b++) for (int k = 0; k < 6; k++) { std::string t = "AAAA"; t[k < 3 ? 0 : k < 5 ? 1 : 2] = A[a]; t[k < 3 ? 1 + k : k < 5 ? k - 1 : 3] = A[b]; if (!c.go(t) || !c.go("QUJD" + t)) return; t[3] = '='; if (!c.go(t) || !c.go("QUJD" + t)) return; t[2] = '='; if (!c.go(t) || !c.go("QUJD" + t)) return; }
        for (size_t L = 0; L < 300 && c.time_left(); L++) for (int k = 0; k < 20; k++) { std::string s(L, 0); for (auto &ch : s) ch = char(c.rng()); auto t = ref_enc(s); if (!c.go(t)) return; if (!t.empty()) { t[c.r(t.size())] = char(c.rng()); if (!c.go(t)) return; } }
        for (size_t L : { 3000u, 65536u, 70001u, 1000003u }) { std::string s(L, 0); for (auto &ch : s) ch = char(c.rng()); if (!c.go(ref_enc(s))) return; }
        const std::string pool = "AZaz09+/=-_ {}~\n\x7f\x80\xff";
        while (c.time_left()) { std::string s(c.r(14), 0); for (auto &ch : s) ch = c.r(4) ? A[c.r(64)] : pool[c.r(pool.size())]; if (!c.go(s)) return; }
    });
}
