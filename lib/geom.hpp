// Exact integer geometry used by the oracles. Nothing here is taken from the
// library under test.
#ifndef VERIF_GEOM_HPP
#define VERIF_GEOM_HPP
#include "pbt.hpp"
namespace geom {
using pbt::i64; using pbt::u64; using pbt::i128; using pbt::u128; using pbt::P; using pbt::Loop;

inline int sgn(i128 v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); }

// sign of a*b - c*d with |.| < 2^64
inline int det_sign(i128 a,i128 b,i128 c,i128 d) {
    int s1 = sgn(a)*sgn(b), s2 = sgn(c)*sgn(d);
    if(s1 != s2) return s1 > s2 ? 1 : -1;
    if(s1 == 0) return 0;
    auto mag = [](i128 v) { return static_cast<u128>(v < 0 ? -v : v); };
    u128 m1 = mag(a)*mag(b), m2 = mag(c)*mag(d);
    if(m1 == m2) return 0;
    return (m1 > m2 ? 1 : -1) * s1;
}
// orientation of c relative to a->b; positive: a,b,c turn clockwise on a y-down
// display (the library's solid direction)
inline int orient(const P &a,const P &b,const P &c) {
    return det_sign(i128(b.x)-a.x,i128(c.y)-a.y,i128(b.y)-a.y,i128(c.x)-a.x);
}

struct Q { i128 x,y; }; // a point scaled by K

struct Wind { int w[2]; bool on_edge; };

inline void wind_edge(const P &a,const P &b,const Q &q,int K,int &w,bool &on) {
    i128 ay=i128(a.y)*K, by=i128(b.y)*K;
    if(!((ay <= q.y && q.y <= by) || (by <= q.y && q.y <= ay))) return;
    i128 ax=i128(a.x)*K, bx=i128(b.x)*K;
    int o = det_sign(bx-ax,q.y-ay,by-ay,q.x-ax);
    if(o == 0) {
        if(((ax <= q.x && q.x <= bx) || (bx <= q.x && q.x <= ax))) on = true;
        return;
    }
    if(ay <= q.y && q.y < by) { if(o > 0) ++w; }
    else if(by <= q.y && q.y < ay) { if(o < 0) --w; }
}

inline Wind winding(const std::vector<Loop> &loops,const Q &q,int K) {
    Wind r{{0,0},false};
    for(auto &l : loops) {
        std::size_t n = l.pts.size();
        if(n < 2) { if(n == 1 && i128(l.pts[0].x)*K == q.x && i128(l.pts[0].y)*K == q.y) r.on_edge = true; continue; }
        for(std::size_t i=0; i<n; ++i) wind_edge(l.pts[i],l.pts[(i+1)%n],q,K,r.w[l.set],r.on_edge);
    }
    return r;
}

enum Op { UNION=0, INTERSECTION=1, XOR=2, DIFFERENCE=3, NORMALIZE=4 };
inline const char *op_name(int o) { static const char *n[] = {"union","intersection","xor","difference","normalize"}; return n[o]; }
// the region rule
inline bool in_region(int op,int ws,int wc) {
    switch(op) {
    case UNION: return ws + wc > 0;
    case INTERSECTION: return ws > 0 && wc > 0;
    case XOR: return (ws > 0) != (wc > 0);
    case DIFFERENCE: return ws > 0 && !(wc > 0);
    default: return ((ws + wc) & 1) != 0;
    }
}

struct Seg { P a,b; std::size_t loop=0,idx=0; };
inline std::vector<Seg> segments(const std::vector<Loop> &loops) {
    std::vector<Seg> r;
    for(std::size_t k=0; k<loops.size(); ++k) {
        auto &p = loops[k].pts;
        for(std::size_t i=0; i<p.size(); ++i) {
            Seg s{p[i],p[(i+1)%p.size()],k,i};
            if(s.a != s.b) r.push_back(s);
        }
    }
    return r;
}

inline bool bbox_touch(const Seg &s,const Seg &t) {
    return std::max(s.a.x,s.b.x) >= std::min(t.a.x,t.b.x) && std::max(t.a.x,t.b.x) >= std::min(s.a.x,s.b.x)
        && std::max(s.a.y,s.b.y) >= std::min(t.a.y,t.b.y) && std::max(t.a.y,t.b.y) >= std::min(s.a.y,s.b.y);
}
inline bool strictly_inside(const P &p,const Seg &s) { // p is an interior point of s
    if(p == s.a || p == s.b || orient(s.a,s.b,p) != 0) return false;
    return std::min(s.a.x,s.b.x) <= p.x && p.x <= std::max(s.a.x,s.b.x) && std::min(s.a.y,s.b.y) <= p.y && p.y <= std::max(s.a.y,s.b.y);
}
enum Touch { NONE, ENDPOINT, SAME, TJUNC, PARTIAL_OVERLAP, CROSS };
inline Touch classify(const Seg &s,const Seg &t) {
    if(!bbox_touch(s,t)) return NONE;
    if((s.a == t.a && s.b == t.b) || (s.a == t.b && s.b == t.a)) return SAME;
    int o1 = orient(s.a,s.b,t.a), o2 = orient(s.a,s.b,t.b), o3 = orient(t.a,t.b,s.a), o4 = orient(t.a,t.b,s.b);
    bool in = strictly_inside(t.a,s) || strictly_inside(t.b,s) || strictly_inside(s.a,t) || strictly_inside(s.b,t);
    if(o1 == 0 && o2 == 0) {
        if(in) return PARTIAL_OVERLAP;
        return (s.a == t.a || s.a == t.b || s.b == t.a || s.b == t.b) ? ENDPOINT : NONE;
    }
    if(o1 * o2 < 0 && o3 * o4 < 0) return CROSS;
    if(in) return TJUNC;
    return (s.a == t.a || s.a == t.b || s.b == t.a || s.b == t.b) ? ENDPOINT : NONE;
}

// twice the signed area (positive: solid); coordinates below 2^62
inline i128 area2(const std::vector<P> &p) {
    i128 r = 0;
    if(p.empty()) return 0;
    P o = p[0];
    for(std::size_t i=0; i<p.size(); ++i) {
        auto &a = p[i]; auto &b = p[(i+1)%p.size()];
        r += (i128(a.x)-o.x)*(i128(b.y)-o.y) - (i128(b.x)-o.x)*(i128(a.y)-o.y);
    }
    return r;
}

inline long double seg_dist(long double px,long double py,const P &a,const P &b) {
    long double ax=static_cast<long double>(a.x),ay=static_cast<long double>(a.y),dx=static_cast<long double>(i128(b.x)-a.x),dy=static_cast<long double>(i128(b.y)-a.y);
    long double l2 = dx*dx+dy*dy;
    long double t = l2 > 0 ? ((px-ax)*dx+(py-ay)*dy)/l2 : 0;
    t = std::min(1.0L,std::max(0.0L,t));
    long double ex = px-(ax+t*dx), ey = py-(ay+t*dy);
    return std::sqrt(ex*ex+ey*ey);
}
inline long double edge_dist(const std::vector<Loop> &loops,const Q &q,int K) {
    long double x = static_cast<long double>(q.x)/K, y = static_cast<long double>(q.y)/K, d = HUGE_VALL;
    for(auto &l : loops) for(std::size_t i=0; i<l.pts.size(); ++i) d = std::min(d,seg_dist(x,y,l.pts[i],l.pts[(i+1)%l.pts.size()]));
    return d;
}
// for messages only: long figures are cut off
inline std::string show(const std::vector<P> &p) {
    std::string r = "[";
    for(auto &q : p) {
        if(r.size() > 800) { r += " ..."; break; }
        r += pbt::cat(r.size() > 1 ? " " : "",q.x,",",q.y);
    }
    return r + "]";
}
inline std::string show(const std::vector<Loop> &l) {
    std::string r;
    for(auto &q : l) {
        if(r.size() > 1600) { r += "..."; break; }
        r += (q.set ? "c" : "s") + show(q.pts) + " ";
    }
    return r;
}
} // namespace geom
#endif
