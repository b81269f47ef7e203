// Generators and oracles shared by the boolean-operation harnesses.
#ifndef VERIF_BOOL_COMMON_HPP
#define VERIF_BOOL_COMMON_HPP
#include "gen.hpp"
#include "subject.hpp"
namespace bc {
using namespace pbt; using namespace geom;

inline int pick_op(Rng &r) { return static_cast<int>(r.in(0,4)); }

// Inputs for which every crossing of two edges has integer coordinates, so that
// nothing has to be rounded. Some are built that way, the rest are arbitrary
// small polygons scaled by the common denominator of their crossings.
inline Case gen_exact(Rng &r) {
    Case c;
    int op = pick_op(r);
    c.p["op"] = op;
    i64 m = r.in(2,10);
    int kind = static_cast<int>(r.in(0,3));
    int n = static_cast<int>(r.in(1,kind == 3 ? 3 : 5));
    if(kind != 3 && r.chance(1,12)) { n = static_cast<int>(r.in(6,30)); m = r.in(6,40); } // crowded
    for(int i=0; i<n; ++i) {
        Loop l;
        switch(kind) {
        case 0: l.pts = r.chance(1,2) ? gen::rectilinear_walk(r,static_cast<int>(m)) : gen::rect(r.in(0,m),r.in(0,m),r.in(0,m),r.in(0,m)); break;
        case 1: l.pts = gen::octilinear_walk(r,static_cast<int>(m)); break;
        case 2: l.pts = r.chance(1,2) ? gen::rect(r.in(0,m),r.in(0,m),r.in(0,m),r.in(0,m)) : gen::octilinear_walk(r,static_cast<int>(m)); if(r.chance(1,3)) gen::reverse(l.pts); break;
        default: l.pts = gen::random_poly(r,static_cast<int>(r.in(2,5)),0,r.in(2,8));
        }
        c.loops.push_back(l);
    }
    gen::spice(r,c.loops);
    gen::assign_sets(r,c.loops,op);
    i64 k = gen::intersection_lcm(c.loops,50000000);
    if(k == 0) k = 1;
    else if(r.chance(1,6)) k *= r.in(1,std::min<i64>(200,50000000/k));
    i64 dx = r.chance(1,2) ? 0 : r.in(-3000,3000), dy = r.chance(1,2) ? 0 : r.in(-3000,3000);
    gen::scale(c.loops,k,dx,dy);
    return c;
}

// Many layers over each other, more than fit in a byte or so
inline Case gen_layers(Rng &r,bool coincident=true) {
    Case c;
    int op = pick_op(r);
    c.p["op"] = op;
    int n = static_cast<int>(r.chance(1,2) ? r.in(120,140) : r.chance(1,2) ? r.in(250,270) : r.in(20,400));
    int kind = static_cast<int>(r.in(0,coincident ? 4 : 1));
    if(kind == 4) n = static_cast<int>(r.in(5,15)); // takes time to the power of four
    i64 gap = r.in(1,3), size = 2*gap*n+r.in(1,50);
    if(kind == 2) { // one loop that goes around many times
        Loop l;
        for(int i=0; i<n; ++i) for(auto &p : gen::rect(0,0,size,size)) l.pts.push_back(p);
        c.loops.push_back(l);
    } else for(int i=0; i<n; ++i) {
        Loop l;
        i64 d = kind == 3 ? 0 : gap*i;
        switch(kind) {
        case 1: l.pts = {{size/2,d},{size-d,size/2},{size/2,size-d},{d,size/2}}; if(size%2) for(auto &p : l.pts) p = {p.x*2,p.y*2}; break; // rotated
        case 4: l.pts = gen::rect(0,d,size,size-d); break; // sides that coincide
        default: l.pts = gen::rect(d,d,size-d,size-d);
        }
        c.loops.push_back(l);
    }
    // what is inside of or next to all of them
    c.loops.push_back({0,0,gen::rect(size/3,size/3,size/2,r.chance(1,2) ? size/2 : size+10)});
    bool alternate = r.chance(1,4), any = r.chance(1,4);
    for(std::size_t i=0; i<c.loops.size(); ++i) {
        if(alternate ? i%2 != 0 : any && r.chance(1,2)) gen::reverse(c.loops[i].pts);
        if(op != 0 && op != 4) c.loops[i].set = r.chance(1,4) || i+1 == c.loops.size() ? 1 : 0;
    }
    if(r.chance(1,3)) std::swap(c.loops.front(),c.loops.back());
    return c;
}

// Arbitrary inputs
inline Case gen_any(Rng &r,i64 limit=0) {
    Case c;
    int op = pick_op(r);
    c.p["op"] = op;
    static const i64 limits[] = {4,8,16,40,100,400,3000,100000,10000000,500000000};
    i64 lim = limit ? limit : limits[r.in(0,9)];
    int n = static_cast<int>(r.in(1,6));
    if(lim >= 40 && lim < 5000 && r.chance(1,25)) n = static_cast<int>(r.in(8,30)); // crowded
    for(int i=0; i<n; ++i) {
        Loop l;
        switch(r.in(0,7)) {
        case 0: l.pts = gen::random_poly(r,static_cast<int>(r.in(3,14)),0,lim); break;
        case 1: l.pts = gen::blob(r,r.in(lim/4,lim/4*3),r.in(lim/4,lim/4*3),lim/4,static_cast<int>(r.in(3,24))); break;
        case 2: {
            int k = static_cast<int>(r.in(2,8))*2+1, step = static_cast<int>(r.in(1,8));
            while(std::gcd(k,step) != 1) ++step;
            l.pts = gen::star_poly(r,lim/2,lim/2,lim/2,k,step);
        } break;
        case 3: { // needles: nearly parallel long edges
            i64 w = r.in(1,std::max<i64>(1,std::min<i64>(lim/8,6)));
            int k = static_cast<int>(r.in(1,5));
            for(int j=0; j<k; ++j) { l.pts.push_back({r.in(0,w),r.in(0,lim)}); l.pts.push_back({lim-r.in(0,w),r.in(0,lim)}); }
            if(r.chance(1,2)) for(auto &p : l.pts) std::swap(p.x,p.y);
        } break;
        case 4: l.pts = gen::random_poly(r,static_cast<int>(r.in(3,6)),0,lim); break;
        case 5: { // zig-zag strip
            int k = static_cast<int>(r.in(3,12));
            for(int j=0; j<k; ++j) l.pts.push_back({lim/k*j,(j & 1) ? lim/2+r.in(0,lim/8) : lim/2-r.in(0,lim/8)});
            for(int j=k; j-->0;) l.pts.push_back({lim/k*j,lim/2+r.in(-lim/3,lim/3)});
        } break;
        case 6: { // a vertex on the edge of another loop
            l.pts = gen::random_poly(r,static_cast<int>(r.in(3,6)),0,lim);
            if(!c.loops.empty()) {
                auto &o = c.loops[static_cast<std::size_t>(r.in(0,static_cast<i64>(c.loops.size())-1))].pts;
                if(o.size() > 1) {
                    std::size_t at = static_cast<std::size_t>(r.in(0,static_cast<i64>(o.size())-1));
                    P a = o[at], b = o[(at+1)%o.size()];
                    l.pts[0] = r.chance(1,2) ? a : P{a.x+(b.x-a.x)/2,a.y+(b.y-a.y)/2};
                    if(lim <= 5000 && r.chance(1,3)) l.pts[1] = b;
                }
            }
        } break;
        default: l.pts = gen::rect(r.in(0,lim),r.in(0,lim),r.in(0,lim),r.in(0,lim));
        }
        if(r.chance(1,3)) gen::reverse(l.pts);
        c.loops.push_back(l);
    }
    // Edges that coincide over a long distance and are crossed by others make
    // the number of intersections explode (every copy is rounded differently),
    // so these are only used at the smaller scales.
    if(r.chance(1,2)) gen::spice(r,c.loops,lim > 5000);
    gen::assign_sets(r,c.loops,op);
    return c;
}

// Many lines that meet at a few points without coinciding
inline Case gen_meet(Rng &r) {
    Case c;
    int op = pick_op(r);
    c.p["op"] = op;
    i64 lim = r.pick({6,12,30,100,1000,100000});
    std::vector<P> hubs;
    for(i64 k=r.in(1,3); k>0; --k) hubs.push_back({r.in(lim/4,lim/4*3),r.in(lim/4,lim/4*3)});
    for(i64 n=r.in(2,6); n>0; --n) {
        Loop l;
        i64 k = r.in(2,4);
        for(i64 j=0; j<k; ++j) {
            P h = r.pick(hubs);
            P a{r.in(0,lim),r.in(0,lim)};
            switch(r.in(0,3)) {
            case 0: l.pts.push_back(h); break; // a corner at the hub
            case 1: { // straight through the hub
                i64 dx = r.in(-3,3), dy = r.in(-3,3), s = r.in(1,std::max<i64>(1,lim/8)), t = r.in(1,std::max<i64>(1,lim/8));
                l.pts.push_back({h.x+dx*s,h.y+dy*s}); l.pts.push_back({h.x-dx*t,h.y-dy*t});
            } break;
            default: l.pts.push_back(a);
            }
        }
        while(l.pts.size() < 3) l.pts.push_back({r.in(0,lim),r.in(0,lim)});
        if(r.chance(1,3)) gen::reverse(l.pts);
        c.loops.push_back(l);
    }
    gen::assign_sets(r,c.loops,op);
    return c;
}

// The coordinate types of the library: 0: 32 bits, 1: 64 bits, 2: 16 bits
inline i64 type_min(i64 t) { return t == 0 ? INT32_MIN : t == 1 ? -(i64(1) << (real_bits+4 > 62 ? 61 : real_bits+4)) : INT16_MIN; }
inline i64 type_max(i64 t) { return t == 0 ? INT32_MAX : t == 1 ? i64(1) << (real_bits+4 > 62 ? 61 : real_bits+4) : INT16_MAX; }
// every coordinate and the difference of every two is a value of the type (for
// 64 bits: the part of the type's range where double is nearly exact)
inline bool fits_type(const std::vector<Loop> &loops,i64 t) {
    if(t < 0 || t > 2) return false;
    i64 lo = type_min(t), hi = type_max(t), x1=INT64_MAX, x2=INT64_MIN, y1=INT64_MAX, y2=INT64_MIN;
    for(auto &l : loops) for(auto &p : l.pts) {
        if(p.x < lo || p.x > hi || p.y < lo || p.y > hi) return false;
        x1 = std::min(x1,p.x); x2 = std::max(x2,p.x); y1 = std::min(y1,p.y); y2 = std::max(y2,p.y);
    }
    return x1 > x2 || (x2-x1 <= hi && y2-y1 <= hi);
}
// move the figure to any place where it fits
inline void place(Rng &r,std::vector<Loop> &loops,i64 t) {
    i64 lo = type_min(t), hi = type_max(t), x1=INT64_MAX, x2=INT64_MIN, y1=INT64_MAX, y2=INT64_MIN;
    for(auto &l : loops) for(auto &p : l.pts) { x1 = std::min(x1,p.x); x2 = std::max(x2,p.x); y1 = std::min(y1,p.y); y2 = std::max(y2,p.y); }
    if(x1 > x2) return;
    auto shift = [&](i64 a,i64 b) -> i64 {
        if(b-a > hi-lo) return 0;
        switch(r.in(0,3)) { case 0: return lo-a; case 1: return hi-b; default: return r.in(lo-a,hi-b); }
    };
    gen::scale(loops,1,shift(x1,x2),shift(y1,y2));
}

struct Box { i64 x1=INT64_MAX,y1=INT64_MAX,x2=INT64_MIN,y2=INT64_MIN; };
inline Box bounds(const std::vector<Loop> &l) {
    Box b;
    for(auto &q : l) for(auto &p : q.pts) { b.x1=std::min(b.x1,p.x); b.y1=std::min(b.y1,p.y); b.x2=std::max(b.x2,p.x); b.y2=std::max(b.y2,p.y); }
    return b;
}

// Sample positions (scaled by K) around the interesting places of a figure:
// next to every vertex and every edge midpoint, between pairs of vertices, and
// anywhere in the bounding box. Deterministic in the figures.
inline std::vector<Q> samples(const std::vector<Loop> &in,const std::vector<Loop> &out,int K,std::size_t max_n,bool near) {
    std::vector<P> pts;
    for(auto *v : {&in,&out}) for(auto &l : *v) for(auto &p : l.pts) pts.push_back(p);
    std::vector<Q> r;
    if(pts.empty()) return r;
    Box b = bounds(in);
    Rng rng(hash_str(show(in)));
    std::size_t n = pts.size();
    for(std::size_t i=0; i<n; ++i) {
        auto &p = pts[i]; auto &q = pts[(i+1)%n];
        if(near) for(int k=0; k<3; ++k) r.push_back({i128(p.x)*K+rng.in(-K+1,K-1),i128(p.y)*K+rng.in(-K+1,K-1)});
        i128 mx = (i128(p.x)+q.x)*K/2, my = (i128(p.y)+q.y)*K/2;
        r.push_back({mx+rng.in(-K/2,K/2),my+rng.in(-K/2,K/2)});
    }
    while(r.size() < max_n) {
        auto &p = rng.pick(pts), &q = rng.pick(pts), &s = rng.pick(pts);
        switch(rng.in(0,2)) {
        case 0: r.push_back({(i128(p.x)+q.x+s.x)*K/3+rng.in(-2,2),(i128(p.y)+q.y+s.y)*K/3+rng.in(-2,2)}); break;
        case 1: { i64 t = rng.in(1,15); r.push_back({(i128(p.x)*t+i128(q.x)*(16-t))*K/16+rng.in(-2,2),(i128(p.y)*t+i128(q.y)*(16-t))*K/16+rng.in(-2,2)}); } break;
        default: r.push_back({i128(rng.in(b.x1,b.x2))*K+rng.in(0,K-1),i128(rng.in(b.y1,b.y2))*K+rng.in(0,K-1)});
        }
    }
    if(r.size() > max_n) {
        for(std::size_t i=0; i<max_n; ++i) std::swap(r[i],r[static_cast<std::size_t>(rng.in(static_cast<i64>(i),static_cast<i64>(r.size())-1))]);
        r.resize(max_n);
    }
    return r;
}
inline std::string at(const Q &q,int K) { return cat("(",static_cast<double>(q.x)/K,",",static_cast<double>(q.y)/K,")"); }

inline bool interesting(const std::vector<Loop> &in) {
    // at least two edges that cross or overlap, or two loops of non-zero area
    int areas = 0;
    for(auto &l : in) areas += area2(l.pts) != 0;
    return areas > 0;
}
// Is the ray v->r strictly inside of the sector that begins at v->w and ends at
// v->u, in the direction in which solid loops turn?
inline bool in_sector(const P &v,const P &w,const P &u,const P &r) {
    int wu = orient(v,w,u), wr = orient(v,w,r), ru = orient(v,r,u);
    if(wu > 0) return wr > 0 && ru > 0;
    if(wu == 0) return wr > 0; // half a turn
    return !(orient(v,u,r) >= 0 && orient(v,r,w) >= 0);
}
// Where loops meet at a point, they neither cross each other nor themselves.
inline bool joins_check(const std::vector<Loop> &out,int op,const char *what) {
    struct Pass { P u,v,w; };
    std::vector<Pass> passes;
    std::set<std::pair<P,P>> uniq;
    for(auto &l : out) for(std::size_t n=l.pts.size(), i=0; i<n; ++i) {
        P a = l.pts[i], b = l.pts[(i+1)%n];
        // lines that coincide leave it open which ones belong together
        if(!uniq.insert({std::min(a,b),std::max(a,b)}).second) return false;
        passes.push_back({a,b,l.pts[(i+2)%n]});
    }
    std::sort(passes.begin(),passes.end(),[](const Pass &a,const Pass &b) { return a.v < b.v; });
    bool met = false;
    for(std::size_t i=0; i<passes.size();) {
        std::size_t j = i;
        while(j < passes.size() && passes[j].v == passes[i].v) ++j;
        for(std::size_t a=i; a<j; ++a) for(std::size_t b=i; b<j; ++b) if(a != b) {
            met = true;
            const Pass &p = passes[a], &q = passes[b];
            bool u = in_sector(p.v,p.w,p.u,q.u), w = in_sector(p.v,p.w,p.u,q.w);
            REQUIRE_PROP(u == w,op_name(op)," ",what,": the lines ",show({p.u,p.v,p.w})," and ",show({q.u,q.v,q.w})," cross; output ",show(out));
        }
        i = j;
    }
    return met;
}
} // namespace bc
#endif
