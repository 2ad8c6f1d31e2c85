// driver for the real serialiser/IoBuffer.hpp; fixed calling conventions, no logic of its own
#include <IoBuffer.hpp>
#include <new>
#include <cstddef>
using B = opencmw::IoBuffer;
extern "C" void *plain_alloc(std::size_t); extern "C" void plain_free(void *, std::size_t);
struct Plain : std::pmr::memory_resource { // an arbitrary memory resource (not the reallocating one)
    void *do_allocate(std::size_t n, std::size_t) override { return plain_alloc(n); }
    void  do_deallocate(void *p, std::size_t n, std::size_t) override { plain_free(p, n); }
    bool  do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
#define K(n, v) extern "C" std::size_t n() { return v; }
K(io_sizeof, sizeof(B)) K(io_off_alloc, offsetof(B, _allocator)) K(io_off_buf, offsetof(B, _buffer)) K(io_off_pos, offsetof(B, _position)) K(io_off_size, offsetof(B, _size)) K(io_off_cap, offsetof(B, _capacity)) K(io_sizeof_plain, sizeof(Plain))
extern "C" void io_plain(Plain *p) { new (p) Plain(); }
extern "C" std::pmr::memory_resource *io_realloc() { return opencmw::Reallocator::defaultReallocator(); }
extern "C" std::pmr::memory_resource *io_throwing() { return opencmw::ThrowingAllocator::defaultNonOwning(); }
extern "C" void io_ctor(B *b, std::size_t n) { new (b) B(n); }
extern "C" void io_ctor_a(B *b, std::size_t n, std::pmr::memory_resource *r) { new (b) B(n, std::pmr::polymorphic_allocator<std::uint8_t>(r)); }
extern "C" void io_ctor_0(B *b) { new (b) B(); }
extern "C" void io_ctor_data(B *b, const char *p, std::size_t n) { new (b) B(p, n); }
extern "C" void io_ctor_wrap(B *b, std::uint8_t *p, std::size_t n) { new (b) B(p, n); }
extern "C" void io_dtor(B *b) { b->~B(); }
extern "C" void io_copy(B *b, const B *o) { new (b) B(*o); }
extern "C" void io_move(B *b, B *o) { new (b) B(std::move(*o)); }
extern "C" void io_assign(B *b, const B *o) { *b = *o; }
extern "C" void io_massign(B *b, B *o) { *b = std::move(*o); }
extern "C" void io_swap(B *b, B *o) { b->swap(*o); }
#define NUM(n, T) extern "C" void io_put_##n(B *b, T v) { b->put(v); } extern "C" T io_get_##n(const B *b) { return b->get<T>(); } extern "C" T *io_at_##n(B *b, std::size_t i) { return &b->at<T>(i); }
NUM(u8, std::uint8_t) NUM(i8, std::int8_t) NUM(i16, std::int16_t) NUM(i32, std::int32_t) NUM(i64, std::int64_t) NUM(f32, float) NUM(f64, double) NUM(bool, bool) NUM(char, char)
extern "C" void io_put_sv(B *b, const char *p, std::size_t n) { b->put(std::string_view(p, n)); }
extern "C" void io_put_str(B *b, const std::string *s) { b->put(*s); }
extern "C" void io_put_raw(B *b, const char *p, std::size_t n) { b->put<B::WITHOUT>(std::string_view(p, n)); }
extern "C" void io_get_str(std::string *out, const B *b) { new (out) std::string(b->get<std::string>()); }
extern "C" void io_get_sv(std::string_view *out, const B *b) { *out = b->get<std::string_view>(); }
#define ARR(n, T) extern "C" void io_puta_##n(B *b, const T *p, std::size_t k) { b->put(std::span<const T>(p, k)); }
ARR(i8, std::int8_t) ARR(i16, std::int16_t) ARR(i32, std::int32_t) ARR(i64, std::int64_t) ARR(f32, float) ARR(f64, double)
#define VEC(n, T) extern "C" void io_putv_##n(B *b, const std::vector<T> *v) { b->put(*v); } extern "C" void io_getv_##n(std::vector<T> *v, const B *b, std::size_t req) { b->getArray(*v, req); }
VEC(i8, std::int8_t) VEC(i16, std::int16_t) VEC(i32, std::int32_t) VEC(i64, std::int64_t) VEC(f32, float) VEC(f64, double)
extern "C" void io_skip(B *b, int n) { b->skip(n); }
extern "C" void io_asstr(std::string_view *out, const B *b, std::size_t i, int n) { *out = b->asString(i, n); }
extern "C" void io_reserve(B *b, std::size_t n) { b->reserve(n); }
extern "C" void io_reserve_spare(B *b, std::size_t n) { b->reserve_spare(n); }
extern "C" void io_resize(B *b, std::size_t n) { b->resize(n); }
extern "C" void io_shrink(B *b) { b->shrink_to_fit(); }
extern "C" void io_clear(B *b) { b->clear(); }
extern "C" void io_reset(B *b) { b->reset(); }
extern "C" void io_setpos(B *b, std::size_t n) { b->set_position(n); }
extern "C" std::size_t io_getpos(const B *b) { return b->position(); }
extern "C" std::size_t io_getsize(const B *b) { return b->size(); }
extern "C" std::size_t io_getcap(const B *b) { return b->capacity(); }
extern "C" bool io_empty(const B *b) { return b->empty(); }
extern "C" std::uint8_t *io_data(B *b) { return b->data(); }
extern "C" std::uint8_t *io_elem(B *b, std::size_t i) { return &(*b)[i]; }
