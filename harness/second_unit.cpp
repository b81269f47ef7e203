// The headers have to work in more than one source file of a program.
#include "poly_ops/poly_ops.hpp"
#include "poly_ops/polydraw.hpp"
namespace second_unit {
std::size_t loops() {
    std::vector<poly_ops::point_t<int>> v{{0,0},{9,0},{9,9}};
    poly_ops::draw::rasterizer<int> r;
    r.add_loops(v);
    std::size_t n = 0;
    r.draw(10,10,[&](unsigned,unsigned,unsigned) { ++n; });
    return poly_ops::union_op<false,int>(v).size() + n;
}
}
