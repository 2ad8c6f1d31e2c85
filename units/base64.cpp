// driver for the real majordomo/base64pp.hpp: only fixes calling conventions, contains no logic of its own
#include <majordomo/base64pp.hpp>
#include <new>
extern "C" void u_encode(std::string* out, const unsigned char* p, unsigned long n) { new (out) std::string(base64pp::encode(std::span<const std::uint8_t>(p, n))); }
extern "C" void u_decode(std::optional<std::vector<std::uint8_t>>* out, const char* p, unsigned long n) { new (out) std::optional<std::vector<std::uint8_t>>(base64pp::decode(std::string_view(p, n))); }
