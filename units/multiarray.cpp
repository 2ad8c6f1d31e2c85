// driver for the real serialiser/MultiArray.hpp, one instance per number of dimensions; no logic of its own
#include <MultiArray.hpp>
#include <new>
#include <cstddef>
#ifndef ND
#define ND 2
#endif
using MA = opencmw::MultiArray<std::int8_t, ND>;
using A = std::array<std::uint32_t, ND>;
using V = std::vector<std::int8_t>;
#define K(n, v) extern "C" std::size_t n() { return v; }
K(ma_sizeof, sizeof(MA)) K(ma_off_n, offsetof(MA, n_element_)) K(ma_off_dims, offsetof(MA, dims_)) K(ma_off_strides, offsetof(MA, strides_)) K(ma_off_offsets, offsetof(MA, offsets_)) K(ma_off_el, offsetof(MA, elements_))
extern "C" void ma_ctor_dims(MA* out, const A* d) { new (out) MA(*d); }
extern "C" void ma_ctor_default(MA* out) { new (out) MA(); }
extern "C" void ma_ctor_copy(MA* out, const V* e, const A* d) { new (out) MA(*e, *d); }
extern "C" void ma_ctor_move(MA* out, V* e, A* d) { new (out) MA(std::move(*e), std::move(*d)); }
extern "C" void ma_ctor_full(MA* out, const V* e, const A* d, const A* s, const A* o) { new (out) MA(*e, *d, *s, *o); }
extern "C" std::uint32_t ma_index(const MA* m, const A* i) { return m->index(*i); }
extern "C" void ma_indices(const MA* m, std::uint32_t k, A* out) { *out = m->indices(k); }
extern "C" std::uint32_t ma_count(const MA* m) { return m->element_count(); }
extern "C" const std::int8_t* ma_lin(MA* m, std::uint32_t k) { return &(*m)[k]; }
extern "C" const std::int8_t* ma_lin_c(const MA* m, std::uint32_t k) { return &(*m)[k]; }
extern "C" const std::int8_t* ma_lin_p(MA* m, std::uint32_t k) { return &(*m)(k); }
extern "C" const std::int8_t* ma_lin_pc(const MA* m, std::uint32_t k) { return &(*m)(k); }
extern "C" const std::int8_t* ma_get(MA* m, std::uint32_t k) { return &m->get(k); }
extern "C" const std::int8_t* ma_get_c(const MA* m, std::uint32_t k) { return &m->get(k); }
extern "C" const std::int8_t* ma_tup(MA* m, const A* i) { return &(*m)[*i]; }
extern "C" const std::int8_t* ma_tup_c(const MA* m, const A* i) { return &(*m)[*i]; }
extern "C" const std::int8_t* ma_gett(MA* m, const A* i) { return &m->get(*i); }
extern "C" const std::int8_t* ma_gett_c(const MA* m, const A* i) { return &m->get(*i); }
#if ND == 2
#define ARGS (*i)[0], (*i)[1]
#elif ND == 3
#define ARGS (*i)[0], (*i)[1], (*i)[2]
#elif ND == 4
#define ARGS (*i)[0], (*i)[1], (*i)[2], (*i)[3]
#endif
#if ND > 1
extern "C" const std::int8_t* ma_par(MA* m, const A* i) { return &(*m)(ARGS); }
extern "C" const std::int8_t* ma_par_c(const MA* m, const A* i) { return &(*m)(ARGS); }
extern "C" const std::int8_t* ma_getp(MA* m, const A* i) { return &m->get(ARGS); }
extern "C" const std::int8_t* ma_getp_c(const MA* m, const A* i) { return &m->get(ARGS); }
#endif
extern "C" void ma_addeq(MA* m, const MA* o) { *m += *o; }
extern "C" void ma_addeq_n(MA* m, std::int8_t x) { *m += x; }
extern "C" void ma_add(MA* out, const MA* m, const MA* o) { new (out) MA(*m + *o); }
extern "C" void ma_add_n(MA* out, const MA* m, std::int8_t x) { new (out) MA(*m + x); }
extern "C" bool ma_eq(const MA* m, const MA* o) { return *m == *o; }
extern "C" std::uint32_t* ma_off(MA* m, std::uint32_t k) { return &m->offset(k); }
extern "C" std::uint32_t* ma_str(MA* m, std::uint32_t k) { return &m->stride(k); }
extern "C" const std::uint32_t* ma_n(const MA* m, std::uint32_t k) { return &m->n(k); }
