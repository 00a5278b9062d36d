// Verification harness: operands are built from raw inputs and results are emitted component by component, through
// GATL's public interface only.  The same text is compiled by clang (verified) and by g++ (replayed).
#pragma once
#include <type_traits>
#include <utility>
#include <cstdint>

struct vf_cell { long section; long bits; double v; };
struct vf_out { long n; vf_cell c[4000]; };

// A multivector type with all coefficients taken from a[basis blade].
template<class M, class V>
inline M vf_fill(V const *a) {
    M m;
    auto it = m.values().begin();
    ga::for_each_component(m, [&](ga::bitset_t const b, auto const &, ga::entry_source_t const, ga::entry_source_t const, bool &) { *it = a[b]; ++it; });
    return m;
}

inline void vf_emit(vf_out *o, long s, long b, double v) {
    long const k = o->n;
    o->c[k].section = s; o->c[k].bits = b; o->c[k].v = v;
    o->n = k + 1;
}

template<class T, class X>
inline void vf_put(vf_out *o, long s, ga::clifford_expression<T, X> const &x) {
    ga::for_each_component(x, [&](ga::bitset_t const b, T const &v, ga::entry_source_t const, ga::entry_source_t const, bool &) { vf_emit(o, s, (long)b, (double)v); });
}

template<class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
inline void vf_put(vf_out *o, long s, T const &x) { vf_emit(o, s, 0, (double)x); }
