// Structured generators for polygon sets.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include "geom.hpp"
#include <numeric>
namespace gen {
using namespace geom; using pbt::Rng; using pbt::Case;

inline void reverse(std::vector<P> &p) { std::reverse(p.begin(),p.end()); }

// random polygon with vertices in [lo,hi]^2
inline std::vector<P> random_poly(Rng &r,int n,i64 lo,i64 hi) {
    std::vector<P> p;
    for(int i=0; i<n; ++i) p.push_back({r.in(lo,hi),r.in(lo,hi)});
    return p;
}
inline std::vector<P> rect(i64 x1,i64 y1,i64 x2,i64 y2) { // solid when x1<x2 and y1<y2
    return {{x1,y1},{x2,y1},{x2,y2},{x1,y2}};
}
// closed walk with axis-aligned edges on [0,m]^2
inline std::vector<P> rectilinear_walk(Rng &r,int m) {
    int n = static_cast<int>(r.in(2,5));
    std::vector<i64> xs,ys;
    for(int i=0; i<n; ++i) { xs.push_back(r.in(0,m)); ys.push_back(r.in(0,m)); }
    std::vector<P> p;
    for(int i=0; i<n; ++i) { p.push_back({xs[i],ys[i]}); p.push_back({xs[(i+1)%n],ys[i]}); }
    return p;
}
// closed walk whose edges are horizontal, vertical or diagonal, all vertices
// having x+y even, so that every pair of edges meets at integer coordinates
inline std::vector<P> octilinear_walk(Rng &r,int m) {
    std::vector<P> p;
    P c{r.in(0,m),r.in(0,m)};
    if((c.x+c.y) & 1) c.x ^= 1;
    P s = c;
    p.push_back(c);
    int n = static_cast<int>(r.in(1,7));
    for(int i=0; i<n; ++i) {
        int d = static_cast<int>(r.in(0,7));
        static const int dx[] = {2,1,0,-1,-2,-1,0,1}, dy[] = {0,1,2,1,0,-1,-2,-1};
        i64 k = r.in(1,3);
        P q{c.x+dx[d]*k,c.y+dy[d]*k};
        if(q.x < 0 || q.y < 0 || q.x > m+1 || q.y > m+1) continue;
        c = q;
        p.push_back(c);
    }
    // close: diagonal then straight
    i64 ddx = s.x-c.x, ddy = s.y-c.y, k = std::min(std::abs(ddx),std::abs(ddy));
    if(k) { c.x += ddx < 0 ? -k : k; c.y += ddy < 0 ? -k : k; if(c != s) p.push_back(c); }
    return p;
}
inline std::vector<P> star_poly(Rng &r,i64 cx,i64 cy,i64 rad,int n,int step) {
    std::vector<P> p;
    double ph = r.unit()*6.283185307;
    for(int i=0; i<n; ++i) {
        double a = ph + 6.283185307179586*static_cast<double>((i*step)%n)/n;
        p.push_back({cx+std::llround(std::cos(a)*static_cast<double>(rad)),cy+std::llround(std::sin(a)*static_cast<double>(rad))});
    }
    return p;
}
// simple (star-shaped) polygon around a centre
inline std::vector<P> blob(Rng &r,i64 cx,i64 cy,i64 rad,int n) {
    std::vector<P> p;
    for(int i=0; i<n; ++i) {
        double a = 6.283185307179586*(i+0.3*r.unit())/n;
        double rr = static_cast<double>(rad)*(0.4+0.6*r.unit());
        p.push_back({cx+std::llround(std::cos(a)*rr),cy+std::llround(std::sin(a)*rr)});
    }
    return p;
}

// spice: duplicates, spikes, collinear points, shared/reversed chains
// (mild: without the kinds that make edges coincide)
inline void spice(Rng &r,std::vector<Loop> &loops,bool mild=false) {
    int n = static_cast<int>(r.in(0,3));
    for(int i=0; i<n && !loops.empty(); ++i) {
        std::size_t li = static_cast<std::size_t>(r.in(0,static_cast<i64>(loops.size())-1));
        auto &p = loops[li].pts;
        if(p.empty()) continue;
        std::size_t at = static_cast<std::size_t>(r.in(0,static_cast<i64>(p.size())-1));
        switch(mild ? r.pick({0,4,5}) : r.in(0,5)) {
        case 0: p.insert(p.begin()+static_cast<long>(at),p[at]); break;                         // duplicate
        case 1: { P q = p[at], b = p[(at+1)%p.size()]; p.insert(p.begin()+static_cast<long>(at)+1,{b,q}); } break; // spike
        case 2: { auto q = p; reverse(q); loops.push_back({static_cast<int>(r.in(0,1)),0,q}); } break;   // reversed copy
        case 3: { loops.push_back({static_cast<int>(r.in(0,1)),0,p}); } break;                   // copy
        case 4: { std::rotate(p.begin(),p.begin()+static_cast<long>(at),p.end()); } break;
        case 5: { P q = p[0]; p.push_back(q); if(r.chance(1,3)) p.push_back(q); } break;          // explicit closing point(s)
        }
    }
}

inline void assign_sets(Rng &r,std::vector<Loop> &loops,int op) {
    for(auto &l : loops) l.set = (op == NORMALIZE) ? static_cast<int>(r.in(0,5) == 0) : static_cast<int>(r.in(0,1));
}

// least common multiple of the denominators of all pairwise intersections of
// the edges; 0 if it exceeds the limit
inline i64 intersection_lcm(const std::vector<Loop> &loops,i64 limit) {
    auto segs = segments(loops);
    i128 l = 1;
    for(std::size_t i=0; i<segs.size(); ++i) for(std::size_t j=i+1; j<segs.size(); ++j) {
        auto &s = segs[i]; auto &t = segs[j];
        if(!bbox_touch(s,t)) continue;
        i128 dx1=s.b.x-s.a.x, dy1=s.b.y-s.a.y, dx2=t.b.x-t.a.x, dy2=t.b.y-t.a.y;
        i128 d = dx1*dy2-dy1*dx2;
        if(d == 0) continue;
        i128 n = (i128(t.a.x-s.a.x)*dy2-i128(t.a.y-s.a.y)*dx2), m = (i128(t.a.x-s.a.x)*dy1-i128(t.a.y-s.a.y)*dx1);
        if(d < 0) { d=-d; n=-n; m=-m; }
        if(n < 0 || n > d || m < 0 || m > d) continue;
        auto gcd = [](i128 a,i128 b) { if(a<0) a=-a; if(b<0) b=-b; while(b) { i128 q=a%b; a=b; b=q; } return a; };
        for(i128 num : {dx1*n,dy1*n}) {
            i128 g = gcd(num,d);
            i128 den = d / (g ? g : d);
            l = l / gcd(l,den) * den;
            if(l > limit) return 0;
        }
    }
    return static_cast<i64>(l);
}
inline void scale(std::vector<Loop> &loops,i64 k,i64 dx=0,i64 dy=0) {
    for(auto &l : loops) for(auto &p : l.pts) { p.x = p.x*k+dx; p.y = p.y*k+dy; }
}
} // namespace gen
#endif
