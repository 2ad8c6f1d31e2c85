IOB = 'src/serialiser/include/IoBuffer.hpp'; MUL = 'src/serialiser/include/MultiArray.hpp'
H = r'''#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <IoBuffer.hpp>
using B = opencmw::IoBuffer;
#define R(c) if (!(c)) { printf("failed: %s\n", #c); return 1; }
struct Res : std::pmr::memory_resource {
    std::map<void *, std::size_t> live; int bad = 0;
    void *do_allocate(std::size_t n, std::size_t) override { void *p = malloc(n + 64); live[p] = n; return p; }
    void  do_deallocate(void *p, std::size_t n, std::size_t) override { auto i = live.find(p); if (i == live.end() || i->second != n) { bad++; return; } live.erase(i); free(p); }
    bool  do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
'''
seed('io-grow-copy', 'C18', [(IOB, "std::copy(_buffer, _buffer + std::min(_size, _capacity) * sizeof(uint8_t), tBuffer);", "std::copy(_buffer + _position, _buffer + std::min(_size, _capacity) * sizeof(uint8_t), tBuffer + _position);")],
  H + r'''int main() {
    Res r; { B b(8, std::pmr::polymorphic_allocator<std::uint8_t>(&r)); b.put(std::int32_t(0x11223344)); R(b.get<std::int32_t>() == 0x11223344);
    b.put(std::string(200, 'x')); b.reset(); R(b.get<std::int32_t>() == 0x11223344); R(b.get<std::string>() == std::string(200, 'x')); } R(!r.bad && r.live.empty()); return 0;
}
''', 'growth of a buffer with an ordinary memory resource after part of the content was read, then reading again from the start', 'growing keeps only the content behind the read position', stubs=True)
seed('io-spare', 'C18', [(IOB, "if (additionalCapacity >= (_capacity - _size)) {", "if (_size + additionalCapacity >= _capacity + sizeof(int32_t)) {")],
  H + r'''int main() {
    B b(8); b.put(std::int32_t(1)); b.put(std::int16_t(2)); b.put(std::int32_t(3)); R(b.capacity() >= b.size());
    R(b.get<std::int32_t>() == 1); R(b.get<std::int16_t>() == 2); R(b.get<std::int32_t>() == 3); return 0;
}
''', 'a value that fits only partly behind the content', 'a write may end behind the buffer', stubs=True)
seed('io-dealloc-size', 'C18', [(IOB, "            _allocator.deallocate(_buffer, oldCapacity);\n", "            _allocator.deallocate(_buffer, _size);\n")],
  H + r'''int main() {
    Res r; { B b(8, std::pmr::polymorphic_allocator<std::uint8_t>(&r)); b.put(std::int16_t(7)); b.put(std::string("0123456789")); R(b.get<std::int16_t>() == 7); }
    R(!r.bad && r.live.empty()); return 0;
}
''', 'growth of a partly filled buffer with a memory resource that uses the size', 'a buffer is returned with another size than it was requested with', stubs=True)
seed('io-asstring', 'C18', [(IOB, "if (requestedSize >= 0 && (index + unsigned_size) > _size) {", "if (requestedSize >= 0 && unsigned_size > _size) {")],
  H + r'''int main() {
    B b("abcdef"); R(b.asString(2, 3) == "cde"); bool refused = false; try { (void) b.asString(4, 5); } catch (const std::out_of_range &) { refused = true; }
    R(refused); return 0;
}
''', 'a text view that starts inside and ends behind the content', 'a request that reaches outside the content is cut off instead of refused', stubs=True)
seed('io-str-pos', 'C18', [(IOB, "        _position += strLength + 1LU; // +1 for the zero-terminating byte", "        _position += strLength + (strLength != 0LU); // +1 for the zero-terminating byte")],
  H + r'''int main() {
    B b; b.put(std::string("a")); b.put(std::string()); b.put(std::int32_t(42));
    R(b.get<std::string>() == "a"); R(b.get<std::string>().empty()); R(b.get<std::int32_t>() == 42); return 0;
}
''', 'an empty string followed by another value', 'reading an empty string does not consume its terminating byte', stubs=True)
seed('io-arr-clip', 'C18', [(IOB, "            _position += minArraySize * sizeof(R);\n", "            _position += std::min(minArraySize, static_cast<std::size_t>(0xFFFFU)) * sizeof(R);\n")],
  H + r'''int main() {
    B b; std::vector<std::int16_t> v(70000, 5), w; b.put(v); b.put(std::int32_t(9)); b.getArray(w); R(v == w); R(b.get<std::int32_t>() == 9); return 0;
}
''', 'an array of more than 65535 elements followed by another value', 'the read position does not advance behind a long array', stubs=True)
M = r'''#include <cstdio>
#include <vector>
#include <MultiArray.hpp>
using namespace opencmw; using U = std::uint32_t;
#define R(c) if (!(c)) { printf("failed: %s\n", #c); return 1; }
'''
seed('ma-stride-move', 'C19', [(MUL, """        : elements_(std::move(elements)), n_element_(dimensions[n_dims - 1]), dims_(std::move(dimensions)), strides_(), offsets_() {
        strides_[n_dims - 1] = 1;
        for (auto i = n_dims - 1; i > 0; i--) {
            n_element_ *= dimensions[i - 1];
            strides_[i - 1] = strides_[i] * dimensions[i];""", """        : elements_(std::move(elements)), n_element_(dimensions[n_dims - 1]), dims_(std::move(dimensions)), strides_(), offsets_() {
        strides_[n_dims - 1] = 1;
        for (auto i = n_dims - 1; i > 0; i--) {
            n_element_ *= dimensions[i - 1];
            strides_[i - 1] = strides_[i] * dimensions[n_dims - 1];""")], M + r'''int main() {
    std::vector<int> e(24); for (int i = 0; i < 24; i++) e[i] = i;
    MultiArray<int, 3> m(std::vector<int>(e), std::array<U, 3>{ 2, 3, 4 }), c(e, std::array<U, 3>{ 2, 3, 4 });
    for (U i = 0; i < 2; i++) for (U j = 0; j < 3; j++) for (U k = 0; k < 4; k++) { U p = (i * 3 + j) * 4 + k; R(c.index({ i, j, k }) == p); R(m.index({ i, j, k }) == p); R((m.indices(p) == std::array<U, 3>{ i, j, k })); }
    return 0;
}
''', 'an array of three or more dimensions of different sizes built by moving the elements', 'different index tuples address the same element', stubs=True)
seed('ma-idx-rest', 'C19', [(MUL, "            index += (offsets_[i] + indices[i]) * strides_[i];", "            index += offsets_[i] + indices[i] * strides_[i];")], M + r'''int main() {
    std::vector<int> e(60); for (int i = 0; i < 60; i++) e[i] = i;
    MultiArray<int, 2> m(e, { 2, 3 }, { 10, 1 }, { 1, 2 });
    for (U i = 0; i < 2; i++) for (U j = 0; j < 3; j++) { U p = (i + 1) * 10 + j + 2; R(m.index({ i, j }) == p); R(m(i, j) == int(p)); R((m.indices(p) == std::array<U, 2>{ i, j })); }
    return 0;
}
''', 'a custom layout with an offset in a dimension whose stride is not one', 'index and indices are no longer inverse to each other', stubs=True)
seed('ma-eq-count', 'C19', [(MUL, """            && n_element_ == other.n_element_
            && std::equal(""", """            && std::equal(""")], M + r'''int main() {
    std::vector<int> e(6, 1), f(40, 1); MultiArray<int, 2> a(e, { 2, 3 }), b(f, { 2, 3 }, { 10, 1 }, { 0, 0 });
    R(!(a == b)); R(!(b == a)); R(a == a); return 0;
}
''', 'comparison of arrays with the same sizes but another layout', 'arrays with a different number of elements compare equal, or elements outside the shorter one are read', stubs=True, flags='-fsanitize=address')
