// Adapters that run the library under test on the framework's own types.
#ifndef VERIF_SUBJECT_HPP
#define VERIF_SUBJECT_HPP
#include "geom.hpp"
#include "poly_ops/base.hpp"
#ifdef LONG_REAL
// what the documentation proposes for more precision: 64-bit coordinates with
// another type for real numbers
#include <numbers>
template<> struct poly_ops::coord_ops<std::int64_t> {
    using C = std::int64_t;
    using long_t = poly_ops::large_ints::sized_int<16>;
    using real_t = long double;
    static long_t mul(C a,C b) { return poly_ops::large_ints::mul(a,b); }
    static real_t acos(C x) { return std::acos(static_cast<real_t>(x)); }
    static real_t acos(real_t x) { return std::acos(x); }
    static real_t cos(real_t x) { return std::cos(x); }
    static real_t sin(real_t x) { return std::sin(x); }
    static real_t sqrt(C x) { return std::sqrt(static_cast<real_t>(x)); }
    static real_t sqrt(real_t x) { return std::sqrt(x); }
    static C round(real_t x) { return std::lround(x); }
    static C floor(real_t x) { return static_cast<C>(std::floor(x)); }
    static C ceil(real_t x) { return static_cast<C>(std::ceil(x)); }
    static C to_coord(real_t x) { return static_cast<C>(x); }
    static real_t pi() { return std::numbers::pi_v<real_t>; }
};
constexpr int real_bits = 63;
#else
constexpr int real_bits = 53;
#endif
#include "poly_ops/poly_ops.hpp"
namespace subj {
using pbt::i64; using pbt::P; using pbt::Loop;
template<typename C> std::vector<poly_ops::point_t<C>> conv(const std::vector<P> &p) {
    std::vector<poly_ops::point_t<C>> r;
    r.reserve(p.size());
    for(auto &q : p) r.push_back({static_cast<C>(q.x),static_cast<C>(q.y)});
    return r;
}
template<typename R> std::vector<P> back(R &&l) {
    std::vector<P> r;
    for(auto p : l) r.push_back({static_cast<i64>(p[0]),static_cast<i64>(p[1])});
    return r;
}
struct Node { std::vector<P> pts; std::vector<Node> kids; };
template<typename L> Node back_tree(L &&l) {
    Node n;
    n.pts = back(l);
    for(auto k : l.inner_loops()) n.kids.push_back(back_tree(k));
    return n;
}
inline void flatten(const std::vector<Node> &t,std::vector<Loop> &out) {
    for(auto &n : t) { out.push_back({0,0,n.pts}); flatten(n.kids,out); }
}
inline poly_ops::bool_op op(int o) {
    switch(o) {
    case geom::UNION: return poly_ops::bool_op::union_;
    case geom::INTERSECTION: return poly_ops::bool_op::intersection;
    case geom::XOR: return poly_ops::bool_op::xor_;
    case geom::DIFFERENCE: return poly_ops::bool_op::difference;
    default: return poly_ops::bool_op::normalize;
    }
}
inline poly_ops::bool_set bset(int s) { return s ? poly_ops::bool_set::clip : poly_ops::bool_set::subject; }

template<typename C,typename Index=std::size_t> void add(poly_ops::clipper<C,Index> &cl,const std::vector<Loop> &in) {
    for(auto &l : in) {
        auto v = conv<C>(l.pts);
        cl.add_loops(v,bset(l.set));
    }
}
template<typename C,typename Index=std::size_t> std::vector<Loop> run(const std::vector<Loop> &in,int o) {
    poly_ops::clipper<C,Index> cl;
    add(cl,in);
    std::vector<Loop> out;
    for(auto l : std::move(cl).template execute<false>(op(o))) out.push_back({0,0,back(l)});
    return out;
}
template<typename C,typename Index=std::size_t> std::vector<Node> run_tree(const std::vector<Loop> &in,int o) {
    poly_ops::clipper<C,Index> cl;
    add(cl,in);
    std::vector<Node> out;
    for(auto l : std::move(cl).template execute<true>(op(o))) out.push_back(back_tree(l));
    return out;
}
} // namespace subj
#endif
