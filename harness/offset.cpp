// Offsetting (outset, inset, open lines, lone points) against distances.
#include "gen.hpp"
#include "subject.hpp"
#include <forward_list>
#include <list>
#include <memory_resource>
#include <ranges>
using namespace pbt; using namespace geom;
namespace po = poly_ops;

struct YX { short pad; std::int32_t y, x; };
template<> struct poly_ops::point_ops<YX> {
    static const std::int32_t &get_x(const YX &p) { return p.x; }
    static const std::int32_t &get_y(const YX &p) { return p.y; }
};

static bool adjacent(const std::vector<Loop> &l,const Seg &a,const Seg &b) {
    if(a.loop != b.loop) return false;
    std::size_t n = l[a.loop].pts.size();
    return (a.idx+1)%n == b.idx || (b.idx+1)%n == a.idx;
}
// take out zero-width spikes (a,t,a), which do not enclose anything
static std::vector<Loop> without_spikes(const std::vector<Loop> &l) {
    auto r = l;
    for(auto &q : r) for(bool again=true; again && q.pts.size() > 3;) {
        again = false;
        for(std::size_t i=0; i<q.pts.size(); ++i) {
            std::size_t n = q.pts.size();
            if(q.pts[i] == q.pts[(i+2)%n]) {
                std::size_t a = (i+1)%n, b = (i+2)%n;
                q.pts.erase(q.pts.begin()+static_cast<std::ptrdiff_t>(std::max(a,b)));
                q.pts.erase(q.pts.begin()+static_cast<std::ptrdiff_t>(std::min(a,b)));
                again = true;
                break;
            }
        }
    }
    return r;
}
// simple loops that do not touch each other
static bool simple(const std::vector<Loop> &l) {
    for(auto &q : l) {
        if(q.pts.size() < 3 || area2(q.pts) == 0) return false;
        for(std::size_t i=0; i<q.pts.size(); ++i) if(q.pts[i] == q.pts[(i+1)%q.pts.size()]) return false;
    }
    auto s = segments(l);
    for(std::size_t i=0; i<s.size(); ++i) for(std::size_t j=i+1; j<s.size(); ++j) {
        auto t = classify(s[i],s[j]);
        if(t >= SAME || (t == ENDPOINT && !adjacent(l,s[i],s[j]))) return false;
    }
    return true;
}
static long double dist_to(const std::vector<Loop> &loops,const Q &q,int K,bool closed) {
    long double x = static_cast<long double>(q.x)/K, y = static_cast<long double>(q.y)/K, d = HUGE_VALL;
    for(auto &l : loops) {
        std::size_t n = l.pts.size();
        if(n == 1) d = std::min(d,seg_dist(x,y,l.pts[0],l.pts[0]));
        for(std::size_t i=0; i + (closed ? 0 : 1) < n; ++i) d = std::min(d,seg_dist(x,y,l.pts[i],l.pts[(i+1)%n]));
    }
    return d;
}
static void clean(std::vector<P> &p) {
    p.erase(std::unique(p.begin(),p.end()),p.end());
    while(p.size() > 1 && p.front() == p.back()) p.pop_back();
}
static double magnitude(const Case &c) {
    double f = static_cast<double>(c.get("frac"))/16;
    return static_cast<double>(c.get("mag"))+(c.get("mag") < 0 ? -f : f);
}
struct Counter final : po::i_point_tracker<std::size_t> {
    u64 n = 0;
    void new_point_between(std::size_t,std::size_t) override {}
    void point_merge(std::size_t,std::size_t) override {}
    void point_added(std::size_t) override { ++n; }
    void reset() override {}
};
// Arcs have no more points than it takes to make their steps as long as asked
// for: at each place that is passed, three points and those of the turn.
static void count_points(const Case &c,double m,i64 step,bool closed) {
    for(auto &l : c.loops) {
        auto p = l.pts;
        p.erase(std::unique(p.begin(),p.end()),p.end());
        if(closed) while(p.size() > 1 && p.front() == p.back()) p.pop_back();
        std::size_t n = p.size();
        double per_turn = std::fabs(m)/static_cast<double>(step), most = 0;
        auto turn = [&](const P &a,const P &b,const P &d) {
            double x1 = static_cast<double>(b.x-a.x), y1 = static_cast<double>(b.y-a.y), x2 = static_cast<double>(d.x-b.x), y2 = static_cast<double>(d.y-b.y);
            return std::fabs(std::atan2(x1*y2-y1*x2,x1*x2+y1*y2));
        };
        if(n == 0) continue;
        if(n == 1) most = m > 0 ? std::max(3.0,6.2831854*per_turn)+1 : 0;
        else if(closed) for(std::size_t i=0; i<n; ++i) most += 3.01+turn(p[i],p[(i+1)%n],p[(i+2)%n])*per_turn;
        else {
            most = 2*(3.01+3.1415927*per_turn);
            for(std::size_t i=0; i+2<n; ++i) most += 2*(3.01+turn(p[i],p[i+1],p[i+2])*per_turn);
        }
        po::clipper<std::int32_t> cl;
        Counter count;
        po::add_offset(cl,subj::conv<std::int32_t>(l.pts),po::bool_set::subject,m,static_cast<std::int32_t>(step),closed,&count);
        REQUIRE_PROP(static_cast<double>(count.n) <= most*(1+1e-9),closed ? "shape" : "line"," points: an offset by ",m," in steps of ",step," has ",count.n," points, and ",most," would do");
    }
}
// the arcs are approximated by chords that turn by less than 2*step/m each
static long double inner_radius(long double m,long double step) {
    long double th = std::min(3.14159265358979L,2*step/m);
    return m*std::cos(th/2);
}
static long double lone_inner(long double m,long double step) {
    long double th = std::min(3.14159265358979L*2/3,2*step/m);
    return m*std::cos(th/2);
}
static long double tolerance(const Case &c) {
    std::size_t n = 0;
    for(auto &l : c.loops) n += l.pts.size();
    return 4 + static_cast<long double>(n)/4;
}
// next to an edge, where the steps of the arcs make no difference (of a closed
// loop: to the right of the edge if `m` is positive, else to the left)
static bool beside(const Loop &l,const Q &q,int K,long double m,long double tol,bool closed) {
    auto &p = l.pts;
    long double x = static_cast<long double>(q.x)/K, y = static_cast<long double>(q.y)/K;
    for(std::size_t i=0; i+(closed ? 0 : 1)<p.size(); ++i) {
        auto a = p[i], b = p[(i+1)%p.size()];
        long double dx = static_cast<long double>(b.x-a.x), dy = static_cast<long double>(b.y-a.y), len = std::hypot(dx,dy);
        if(len <= 2*tol) continue;
        long double along = ((x-a.x)*dx+(y-a.y)*dy)/len, off = ((x-a.x)*dy-(y-a.y)*dx)/len;
        if(along < tol || along > len-tol) continue;
        if(closed ? m > 0 ? off > tol && off < m-tol : off < -tol && off > m+tol : std::fabs(off) < m-tol) return true;
    }
    return false;
}
// 1: must be covered, 0: must not, -1: undecided
static int expected(const std::vector<Loop> &loops,const Q &q,int K,long double m,long double step,bool closed,long double tol) {
    long double d = dist_to(loops,q,K,closed), am = std::fabs(m);
    if(!closed) {
        if(m <= 0) return 0;
        for(auto &l : loops) {
            if(l.pts.empty()) continue;
            std::set<P> u(l.pts.begin(),l.pts.end());
            if(dist_to({l},q,K,false) < (u.size() == 1 ? lone_inner(am,step) : inner_radius(am,step))-tol || beside(l,q,K,am,tol,false)) return 1;
        }
        return d > am+tol ? 0 : -1;
    }
    auto w = winding(loops,q,K);
    if(w.on_edge) d = 0;
    bool in = w.w[0]+w.w[1] > 0;
    long double ir = inner_radius(am,step);
    for(auto &l : loops) if(beside(l,q,K,m,tol,true)) {
        if(m > 0 && !in) return 1;
        if(m < 0 && in) return 0;
    }
    if(m >= 0) {
        if(in || d < ir-tol) return in && d <= tol ? (am > 2*tol ? 1 : -1) : 1;
        return d > am+tol ? 0 : -1;
    }
    if(!in) return d > tol || am > 2*tol ? 0 : -1;
    if(d < ir-tol) return 0;
    return d > am+tol ? 1 : -1;
}
static std::vector<Q> spots(const Case &c,i64 reach,int K,std::size_t n,const std::vector<Loop> &out) {
    Rng r(hash_str(c.text()));
    i64 x1=INT64_MAX,y1=INT64_MAX,x2=INT64_MIN,y2=INT64_MIN;
    std::vector<P> pts,opts;
    for(auto &l : c.loops) for(auto &p : l.pts) { pts.push_back(p); x1=std::min(x1,p.x); y1=std::min(y1,p.y); x2=std::max(x2,p.x); y2=std::max(y2,p.y); }
    for(auto &l : out) for(auto &p : l.pts) opts.push_back(p);
    std::vector<Q> v;
    if(pts.empty()) return v;
    i64 g = reach+reach/4+8;
    while(v.size() < n) {
        switch(r.in(0,4)) {
        case 0: v.push_back({i128(r.in(x1-g,x2+g))*K+r.in(0,K-1),i128(r.in(y1-g,y2+g))*K+r.in(0,K-1)}); break;
        case 1: { auto &p = r.pick(pts); v.push_back({i128(p.x+r.in(-g,g))*K,i128(p.y+r.in(-g,g))*K+r.in(0,K-1)}); } break;
        case 2: { // near the expected boundary around a vertex
            auto &p = r.pick(pts); double a = r.unit()*6.283185307, d = static_cast<double>(reach)*(r.chance(1,2) ? 0.9 : 1.1) + static_cast<double>(r.in(-8,8));
            v.push_back({i128(p.x)*K+std::llround(std::cos(a)*d*K),i128(p.y)*K+std::llround(std::sin(a)*d*K)}); } break;
        case 3: { // beside an edge
            auto &l = r.pick(c.loops); if(l.pts.empty()) break;
            std::size_t i = static_cast<std::size_t>(r.in(0,static_cast<i64>(l.pts.size())-1));
            auto p = l.pts[i], q = l.pts[(i+1)%l.pts.size()];
            double dx = static_cast<double>(q.x-p.x), dy = static_cast<double>(q.y-p.y), len = std::max(1.0,std::hypot(dx,dy)), t = r.unit();
            double d = (static_cast<double>(reach)*(r.chance(1,2) ? 0.9 : 1.1) + static_cast<double>(r.in(-8,8)))*(r.chance(1,2) ? 1 : -1);
            v.push_back({i128(std::llround((static_cast<double>(p.x)+t*dx-dy/len*d)*K)),i128(std::llround((static_cast<double>(p.y)+t*dy+dx/len*d)*K))}); } break;
        default: { // between points of the output
            if(opts.empty()) { v.push_back({i128(r.in(x1,x2))*K,i128(r.in(y1,y2))*K}); break; }
            auto &p = r.pick(opts), &q = r.pick(opts); v.push_back({i128(p.x+q.x)*K/2+r.in(-3*K,3*K),i128(p.y+q.y)*K/2+r.in(-3*K,3*K)}); }
        }
    }
    return v;
}
static std::string where(const Q &q,int K) { return cat("(",static_cast<double>(q.x)/K,",",static_cast<double>(q.y)/K,")"); }

template<typename C> static std::vector<Loop> run_offset(const Case &c,double m,i64 step,bool closed) {
    std::vector<Loop> out;
    auto take = [&](auto &&l) { out.push_back({0,0,subj::back(l)}); };
    auto rec = [&](auto &&rec,auto &&l) -> void { take(l); for(auto k : l.inner_loops()) rec(rec,k); };
    switch(c.get("api")) {
    case 1: {
        std::vector<std::vector<po::point_t<C>>> in;
        for(auto &l : c.loops) in.push_back(subj::conv<C>(l.pts));
        for(auto l : po::offset<false,C>(in,m,static_cast<C>(step),closed)) take(l);
    } break;
    case 2: {
        std::list<std::list<po::point_t<C>>> in;
        for(auto &l : c.loops) { in.emplace_back(); for(auto &p : l.pts) in.back().push_back({static_cast<C>(p.x),static_cast<C>(p.y)}); }
        for(auto l : po::offset<true,C>(in,m,static_cast<C>(step),closed)) rec(rec,l);
    } break;
    default: {
        po::clipper<C> cl;
        for(auto &l : c.loops) { auto v = subj::conv<C>(l.pts); po::add_offset_subject(cl,v,m,static_cast<C>(step),closed); }
        for(auto l : cl.template execute<false>(po::bool_op::union_)) take(l);
    }
    }
    return out;
}
static bool in_domain(const Case &c,i64 lim) {
    for(auto &l : c.loops) for(auto &p : l.pts) if(std::abs(p.x) > lim || std::abs(p.y) > lim) return false;
    return c.get("step",1) > 0;
}
static void compare(const Case &c,const std::vector<Loop> &out,long double m,long double step,bool closed,const char *what,Ctx &ctx) {
    const int K = 4;
    long double tol = tolerance(c);
    u64 a = 0, b = 0;
    for(auto &q : spots(c,static_cast<i64>(std::fabs(m)),K,260,out)) {
        int e = expected(c.loops,q,K,m,step,closed,tol);
        if(e < 0) continue;
        auto o = winding(out,q,K);
        // rounding may leave slivers anywhere the lines cross
        if(o.w[0] != e && dist_to(out,q,K,true) <= tol) continue;
        if(!o.on_edge && o.w[0] != e) fail(what," distance: ",where(q,K)," is ",static_cast<double>(dist_to(c.loops,q,K,closed))," away from the lines and ",e ? "belongs" : "does not belong"," to the offset by ",static_cast<double>(m),", but the output has winding number ",o.w[0]," there; output ",show(out));
        ++(e ? a : b);
    }
    ctx.bump("points-inside",a);
    ctx.bump("points-outside",b);
    ctx.nontrivial(a && b);
}

// ---- closed loops
static void closed_check(const Case &c,Ctx &ctx) {
    if(!in_domain(c,1 << 29) || std::abs(c.get("mag")) > (1 << 28)) throw Discard{};
    auto distinct = c.loops;
    for(auto &l : distinct) clean(l.pts);
    auto body = without_spikes(distinct);
    if(!simple(body)) throw Discard{};
    std::size_t spikes = 0, repeats = 0;
    for(std::size_t i=0; i<body.size(); ++i) { spikes += (distinct[i].pts.size()-body[i].pts.size())/2; repeats += c.loops[i].pts.size()-distinct[i].pts.size(); }
    // every loop that is not inside another is solid, every loop inside a
    // solid one is a hole and so forth
    for(std::size_t i=0; i<c.loops.size(); ++i) {
        int depth = 0;
        for(std::size_t j=0; j<c.loops.size(); ++j) {
            if(i == j) continue;
            std::vector<Loop> one{{0,0,body[j].pts}};
            depth += winding(one,{i128(body[i].pts[0].x),i128(body[i].pts[0].y)},1).w[0] != 0;
        }
        if((area2(body[i].pts) > 0) != (depth % 2 == 0)) throw Discard{};
    }
    double m = magnitude(c);
    i64 step = c.get("step");
    count_points(c,m,step,true);
    auto out = c.get("wide") ? run_offset<i64>(c,m,step,true) : run_offset<std::int32_t>(c,m,step,true);
    compare(c,out,static_cast<long double>(m),static_cast<long double>(step),true,m > 0 ? "outset" : "inset",ctx);
    ctx.bump(m > 0 ? "outset" : "inset");
    if(out.empty()) ctx.bump("vanished");
    if(spikes) ctx.bump("spikes");
    if(repeats) ctx.bump("repeated-points");
    if(c.loops.size() > 1) ctx.bump("several-loops");
}
static std::vector<P> simple_loop(Rng &r,i64 x,i64 y,i64 size) {
    std::vector<P> p;
    switch(r.in(0,4)) {
    case 0: p = gen::rect(x+r.in(0,size/2),y+r.in(0,size/2),x+r.in(size/2,size),y+r.in(size/2,size)); break;
    case 1: p = gen::blob(r,x+size/2,y+size/2,size/2,static_cast<int>(r.in(3,14))); break;
    case 2: p = gen::random_poly(r,static_cast<int>(r.in(3,5)),0,size); for(auto &q : p) { q.x += x; q.y += y; } break;
    case 3: { std::vector<Loop> t{{0,0,gen::rectilinear_walk(r,10)}}; gen::scale(t,size/10,x,y); p = t[0].pts; } break;
    default: { // comb: narrow teeth
        int n = static_cast<int>(r.in(1,5));
        p = {{x,y}};
        for(int i=0; i<n; ++i) { p.push_back({x+size*(2*i+1)/(2*n+1),y}); p.push_back({x+size*(2*i+1)/(2*n+1),y+r.in(size/4,size-1)}); p.push_back({x+size*(2*i+2)/(2*n+1),y+r.in(size/4,size-1)}); p.push_back({x+size*(2*i+2)/(2*n+1),y}); }
        p.push_back({x+size,y}); p.push_back({x+size,y+size}); p.push_back({x,y+size});
    }
    }
    clean(p);
    return p;
}
static Case gen_closed(Rng &r,bool inset) {
    Case c;
    i64 size = r.pick({60,200,1000,1000,20000,10000000});
    for(int tries=0; tries<20; ++tries) {
        c.loops.clear();
        auto p = simple_loop(r,0,0,size);
        if(area2(p) < 0) gen::reverse(p);
        c.loops.push_back({0,0,p});
        if(!simple(c.loops)) continue;
        if(r.chance(1,2)) { // a hole or a neighbour
            int n = static_cast<int>(r.in(1,3));
            for(int i=0; i<n; ++i) {
                i64 s = r.in(size/12,size/2);
                auto q = simple_loop(r,r.in(-size/2,size),r.in(-size/2,size),s);
                int depth = 0;
                if(q.empty()) continue;
                for(auto &o : c.loops) { std::vector<Loop> one{o}; depth += winding(one,{i128(q[0].x),i128(q[0].y)},1).w[0] != 0; }
                if((area2(q) > 0) != (depth % 2 == 0)) gen::reverse(q);
                c.loops.push_back({0,0,q});
                if(!simple(c.loops)) c.loops.pop_back();
            }
        }
        break;
    }
    if(r.chance(1,4)) for(i64 k=r.in(1,2); k>0; --k) { // a slit or an antenna
        auto &l = c.loops[static_cast<std::size_t>(r.in(0,static_cast<i64>(c.loops.size())-1))].pts;
        if(l.empty()) continue;
        std::size_t i = static_cast<std::size_t>(r.in(0,static_cast<i64>(l.size())-1));
        P v = l[i], t{v.x+r.in(-size/2,size/2),v.y+r.in(-size/2,size/2)};
        if(t == v) continue;
        l.insert(l.begin()+static_cast<std::ptrdiff_t>(i)+1,{t,v});
    }
    i64 m = r.chance(1,2) ? r.in(1,size) : r.in(1,std::max<i64>(1,size/8));
    c.p["mag"] = inset ? -m : m;
    if(r.chance(1,4)) c.p["frac"] = r.in(1,15);
    if(r.chance(1,5)) for(auto &l : c.loops) {
        std::vector<P> q;
        for(auto &p : l.pts) for(i64 k=r.chance(1,4) ? r.in(2,3) : 1; k>0; --k) q.push_back(p);
        if(!q.empty() && r.chance(1,2)) q.push_back(q[0]);
        l.pts = q;
    }
    // the number of points of an arc is m/step
    c.p["step"] = r.chance(1,8) ? r.in(std::max<i64>(1,m/2),std::max<i64>(2,m*10)) : r.in(std::max<i64>(1,m/200),std::max<i64>(2,m/2));
    c.p["api"] = r.in(0,2);
    c.p["wide"] = r.chance(1,8);
    if(r.chance(1,3)) { i64 dx = r.in(-size,size), dy = r.in(-size,size); gen::scale(c.loops,1,dx,dy); }
    return c;
}
// ---- open lines and lone points; repeated points are allowed
static void open_check(const Case &c,Ctx &ctx) {
    if(!in_domain(c,1 << 29) || c.get("mag") < 0 || c.get("mag") > (1 << 28)) throw Discard{};
    bool closed = c.get("closed"); // closing a line of one or two places makes no difference
    if(closed) for(auto &l : c.loops) { std::set<P> u(l.pts.begin(),l.pts.end()); if(u.size() > 1) throw Discard{}; }
    double m = magnitude(c);
    i64 step = c.get("step");
    count_points(c,m,step,closed);
    auto out = c.get("wide") ? run_offset<i64>(c,m,step,closed) : run_offset<std::int32_t>(c,m,step,closed);
    compare(c,out,static_cast<long double>(m),static_cast<long double>(step),false,"line",ctx);
    bool lone = false;
    for(auto &l : c.loops) lone = lone || std::set<P>(l.pts.begin(),l.pts.end()).size() == 1;
    ctx.bump(lone ? "lone-point" : "line");
}
static Case gen_open(Rng &r) {
    Case c;
    i64 size = r.pick({60,200,1000,1000,20000,10000000});
    int n = static_cast<int>(r.in(1,3));
    c.p["closed"] = r.chance(1,8);
    for(int i=0; i<n; ++i) {
        Loop l;
        switch(r.in(0,4)) {
        case 0: l.pts = {{r.in(0,size),r.in(0,size)}}; break;
        case 1: l.pts = gen::random_poly(r,2,0,size); break;
        case 2: { P p{r.in(0,size),r.in(0,size)}; int k = static_cast<int>(r.in(2,10)); for(int j=0; j<k; ++j) { l.pts.push_back(p); p.x += r.in(-size/5,size/5); p.y += r.in(-size/5,size/5); } } break;
        case 3: { i64 y = r.in(0,size); for(i64 x=0; x<=size; x+=size/static_cast<i64>(r.in(2,6))) l.pts.push_back({x,y+r.in(-size/8,size/8)}); } break;
        default: l.pts = gen::random_poly(r,static_cast<int>(r.in(2,7)),0,size);
        }
        if(c.p["closed"]) l.pts.resize(1);
        if(r.chance(1,3)) { std::vector<P> q; for(auto &p : l.pts) for(i64 k=r.in(1,3); k>0; --k) q.push_back(p); l.pts = q; }
        if(r.chance(1,8) && l.pts.size() > 1) l.pts.push_back(l.pts[0]);
        c.loops.push_back(l);
    }
    if(r.chance(1,12)) c.loops.insert(c.loops.begin()+r.in(0,n),Loop{}); // an empty line
    i64 m = r.chance(1,40) ? 0 : r.chance(1,2) ? r.in(1,size) : r.in(1,std::max<i64>(1,size/8));
    c.p["mag"] = m;
    if(r.chance(1,4)) c.p["frac"] = r.in(1,15);
    c.p["step"] = r.chance(1,8) ? r.in(std::max<i64>(1,m/2),std::max<i64>(2,m*10)) : r.in(std::max<i64>(1,m/200),std::max<i64>(2,m/2));
    c.p["api"] = r.in(0,2);
    c.p["wide"] = r.chance(1,8);
    return c;
}
// ---- offset shapes combined by a boolean operation (kind: 0 plain, 1 offset closed, 2 offset open)
static void combine_check(const Case &c,Ctx &ctx) {
    i64 opn = c.get("op");
    if(!in_domain(c,1 << 29) || opn < 0 || opn > 3 || c.get("mag") <= 0 || c.get("mag") > (1 << 28)) throw Discard{};
    i64 m = c.get("mag"), step = c.get("step");
    for(auto &l : c.loops) {
        if(l.kind == 2) { if(l.pts.empty()) throw Discard{}; continue; }
        std::vector<Loop> one{{0,0,l.pts}};
        if(!simple(one) || area2(l.pts) < 0) throw Discard{};
    }
    using C = std::int32_t;
    po::origin_tracked_clipper<C> tcl;
    po::clipper<C> cl;
    bool tr = c.get("tracked");
    for(auto &l : c.loops) {
        auto v = subj::conv<C>(l.pts);
        auto put = [&](auto &k) {
            if(l.kind == 0) k.add_loops(v,subj::bset(l.set));
            else if(l.set) po::add_offset_clip(k,v,static_cast<double>(m),static_cast<C>(step),l.kind == 1);
            else po::add_offset_subject(k,v,static_cast<double>(m),static_cast<C>(step),l.kind == 1);
        };
        if(tr) put(tcl); else put(cl);
    }
    std::vector<Loop> out;
    if(tr) for(auto l : tcl.execute<false>(subj::op(static_cast<int>(opn)))) { out.emplace_back(); for(auto p : l) out.back().pts.push_back({p.p[0],p.p[1]}); }
    else for(auto l : cl.execute<false>(subj::op(static_cast<int>(opn)))) out.push_back({0,0,subj::back(l)});
    const int K = 4;
    long double tol = tolerance(c);
    u64 a = 0, b = 0;
    for(auto &q : spots(c,m,K,260,out)) {
        bool cover[2] = {false,false}, unclear = false;
        for(auto &l : c.loops) {
            std::vector<Loop> one{{0,0,l.pts}};
            int e;
            if(l.kind == 0) e = dist_to(one,q,K,true) <= tol ? -1 : winding(one,q,K).w[0] > 0;
            else e = expected(one,q,K,static_cast<long double>(m),static_cast<long double>(step),l.kind == 1,tol);
            if(e < 0) unclear = true;
            else if(e) cover[l.set] = true;
        }
        if(unclear) continue;
        bool e = in_region(static_cast<int>(opn),cover[0],cover[1]);
        auto o = winding(out,q,K);
        if(o.w[0] != (e ? 1 : 0) && dist_to(out,q,K,true) <= tol) continue;
        if(!o.on_edge && o.w[0] != (e ? 1 : 0)) fail(op_name(static_cast<int>(opn))," combined: ",where(q,K)," ",e ? "belongs" : "does not belong"," to the result but the output has winding number ",o.w[0]," there; output ",show(out));
        ++(e ? a : b);
    }
    ctx.nontrivial(a && b && c.loops.size() > 1);
    ctx.bump("points-inside",a);
    ctx.bump("points-outside",b);
}
static Case gen_combine(Rng &r) {
    Case c;
    c.p["op"] = r.in(0,3);
    c.p["tracked"] = r.chance(1,3);
    i64 size = r.pick({200,1000,20000});
    int n = static_cast<int>(r.in(2,4));
    for(int i=0; i<n; ++i) {
        Loop l;
        l.set = i < 2 ? i : static_cast<int>(r.in(0,1));
        l.kind = static_cast<int>(r.in(0,2));
        for(int t=0; t<20; ++t) {
            if(l.kind == 2) l.pts = gen::random_poly(r,static_cast<int>(r.in(1,4)),0,size);
            else { l.pts = simple_loop(r,r.in(-size/3,size/3),r.in(-size/3,size/3),size); if(area2(l.pts) < 0) gen::reverse(l.pts); }
            std::vector<Loop> one{{0,0,l.pts}};
            if(l.kind == 2 || simple(one)) break;
        }
        c.loops.push_back(l);
    }
    i64 m = r.in(1,std::max<i64>(1,size/3));
    c.p["mag"] = m;
    c.p["step"] = r.chance(1,8) ? r.in(std::max<i64>(1,m/2),std::max<i64>(2,m*10)) : r.in(std::max<i64>(1,m/100),std::max<i64>(2,m/2));
    return c;
}
// ---- original points of offset shapes
// Every loop has sharp vertices far apart (compared to the magnitude) and the
// loops are far from each other, so every output point is near its vertex.
static void origin_check(const Case &c,Ctx &ctx) {
    i64 m = c.get("mag"), step = c.get("step");
    if(!in_domain(c,1 << 29) || m == 0 || std::abs(m) > (1 << 26)) throw Discard{};
    i64 am = std::abs(m);
    bool closed = c.get("closed");
    if(!closed && m < 0) throw Discard{};
    std::vector<P> orig;
    std::vector<Loop> uniq;
    for(auto &l : c.loops) {
        auto q = l.pts;
        q.erase(std::unique(q.begin(),q.end()),q.end());
        if(closed) while(q.size() > 1 && q.front() == q.back()) q.pop_back();
        if(q.size() < (closed ? 3u : 2u)) throw Discard{};
        uniq.push_back({0,0,q});
        for(auto &p : l.pts) orig.push_back(p);
        for(std::size_t i=0; i<q.size(); ++i) {
            if(!closed && i+1 == q.size()) break;
            P a = q[i], b = q[(i+1)%q.size()];
            if(std::hypot(static_cast<double>(b.x-a.x),static_cast<double>(b.y-a.y)) < 8.0*static_cast<double>(am)+20) throw Discard{};
            if(!closed && i+2 >= q.size()) continue;
            P d = q[(i+2)%q.size()];
            double ux = static_cast<double>(b.x-a.x), uy = static_cast<double>(b.y-a.y), vx = static_cast<double>(d.x-b.x), vy = static_cast<double>(d.y-b.y);
            double cs = (ux*vx+uy*vy)/std::hypot(ux,uy)/std::hypot(vx,vy);
            if(cs < -0.1 || cs > 0.97) throw Discard{}; // turns by about 15 to 95 degrees
        }
    }
    if(closed && (!simple(uniq))) throw Discard{};
    if(!closed) { // no two lines near each other
        auto sg = std::vector<Seg>();
        for(std::size_t k=0; k<uniq.size(); ++k) for(std::size_t i=0; i+1<uniq[k].pts.size(); ++i) sg.push_back({uniq[k].pts[i],uniq[k].pts[i+1],k,i});
        for(std::size_t i=0; i<sg.size(); ++i) for(std::size_t j=i+1; j<sg.size(); ++j) {
            if(sg[i].loop == sg[j].loop && sg[j].idx == sg[i].idx+1) continue;
            if(classify(sg[i],sg[j]) != NONE) throw Discard{};
            for(auto &p : {sg[i].a,sg[i].b}) if(seg_dist(p.x,p.y,sg[j].a,sg[j].b) < 6*static_cast<double>(am)+20) throw Discard{};
            for(auto &p : {sg[j].a,sg[j].b}) if(seg_dist(p.x,p.y,sg[i].a,sg[i].b) < 6*static_cast<double>(am)+20) throw Discard{};
        }
    } else {
        auto sg = segments(uniq);
        for(auto &s : sg) for(auto &t : sg) {
            if(adjacent(uniq,s,t) || (s.loop == t.loop && s.idx == t.idx)) continue;
            if(seg_dist(s.a.x,s.a.y,t.a,t.b) < 6*static_cast<double>(am)+20 || seg_dist(s.b.x,s.b.y,t.a,t.b) < 6*static_cast<double>(am)+20) throw Discard{};
        }
    }
    using C = std::int32_t;
    std::vector<std::vector<po::point_t<C>>> in;
    for(auto &l : c.loops) in.push_back(subj::conv<C>(l.pts));
    std::vector<u64> hits(orig.size(),0);
    u64 np = 0;
    auto take = [&](auto &&l) {
        for(auto p : l) {
            ++np;
            // crossings of offset lines belong to no vertex
            if(p.original_points.empty()) { ctx.bump("crossings"); continue; }
            for(std::size_t i : p.original_points) {
                REQUIRE_PROP(i < orig.size(),"origin: original index ",i," of ",orig.size()," points");
                ++hits[i];
                double d = std::hypot(static_cast<double>(orig[i].x-p.p[0]),static_cast<double>(orig[i].y-p.p[1]));
                REQUIRE_PROP(d <= 2.2*static_cast<double>(am)+6,"origin: the output point ",p.p[0],",",p.p[1]," is attributed to the input point ",i," (",orig[i].x,",",orig[i].y,"), which is ",d," away; magnitude ",m);
            }
        }
    };
    if(c.get("api") == 1) {
        po::origin_tracked_clipper<C> cl;
        for(auto &l : in) po::add_offset(cl,l,po::bool_set::subject,static_cast<double>(m),static_cast<C>(step),closed);
        for(auto l : cl.execute<false>(po::bool_op::union_)) take(l);
    } else if(c.get("api") == 2) {
        for(auto l : po::offset<false,C>(in,static_cast<double>(m),static_cast<C>(step),po::origin_point_tracker<>{},closed)) take(l);
    } else {
        auto rec = [&](auto &&rec,auto &&l) -> void { take(l); for(auto k : l.inner_loops()) rec(rec,k); };
        for(auto l : po::offset<true,C>(in,static_cast<double>(m),static_cast<C>(step),po::origin_point_tracker<>{},closed)) rec(rec,l);
    }
    // every place of the input is represented
    std::set<P> rep;
    for(std::size_t i=0; i<orig.size(); ++i) if(hits[i]) rep.insert(orig[i]);
    for(std::size_t i=0; i<orig.size(); ++i) {
        if(!rep.count(orig[i])) fail("origin: no output point is attributed to the input point ",orig[i].x,",",orig[i].y);
    }
    ctx.nontrivial(orig.size() > 3);
    ctx.bump("output-points",np);
    ctx.bump(closed ? (m > 0 ? "outset" : "inset") : "open");
    if(c.loops.size() > 1) ctx.bump("several-loops");
}
static Case gen_origin(Rng &r) {
    Case c;
    bool closed = r.chance(2,3);
    c.p["closed"] = closed;
    c.p["api"] = r.in(0,2);
    i64 m = r.in(2,60);
    if(r.chance(1,8)) m *= 1000;
    int n = static_cast<int>(r.in(1,3));
    i64 x0 = r.in(-1000,1000)*r.in(0,1);
    for(int k=0; k<n; ++k) {
        Loop l;
        if(closed) {
            int nv = static_cast<int>(r.in(4,7));
            double rad = static_cast<double>(m)*(9+r.unit()*10)/std::sin(3.14159265/nv)*0.6+60, ph = r.unit()*6.28;
            for(int i=0; i<nv; ++i) { double a = ph+6.283185307*(i+0.2*r.unit())/nv; l.pts.push_back({x0+std::llround(rad*std::cos(a)),std::llround(rad*std::sin(a))}); }
            x0 += static_cast<i64>(rad*2.4)+16*m+100;
        } else {
            double a = r.unit()*6.28;
            P p{x0,0};
            int nv = static_cast<int>(r.in(2,6));
            for(int i=0; i<nv; ++i) { l.pts.push_back(p); double len = static_cast<double>(m)*(9+r.unit()*10)+30; a += (r.chance(1,2) ? 1 : -1)*(0.3+1.2*r.unit()); p.x += std::llround(len*std::cos(a)); p.y += std::llround(len*std::sin(a)); }
            x0 += 160*m+400;
        }
        if(r.chance(1,2)) { std::vector<P> q; for(auto &p : l.pts) for(i64 j=r.in(1,4)/2+1; j>0; --j) q.push_back(p); l.pts = q; if(closed && r.chance(1,2)) l.pts.push_back(l.pts[0]); }
        c.loops.push_back(l);
    }
    c.p["mag"] = closed && r.chance(1,3) ? -m : m;
    c.p["step"] = r.in(1,3*m);
    return c;
}

// ---- every way of offsetting gives the same
using Out = std::vector<std::vector<P>>;
template<typename R> static Out grab(R &&r) { Out o; for(auto &&l : r) o.push_back(subj::back(l)); return o; }
template<typename R> static Out grab_tracked(R &&r) {
    Out o;
    for(auto &&l : r) { o.emplace_back(); for(auto p : l) o.back().push_back({static_cast<i64>(p.p[0]),static_cast<i64>(p.p[1])}); }
    return o;
}
static std::vector<std::pair<P,P>> edges_of(const Out &o) {
    std::vector<std::pair<P,P>> r;
    for(auto &l : o) for(std::size_t i=0; i<l.size(); ++i) r.push_back({l[i],l[(i+1)%l.size()]});
    std::sort(r.begin(),r.end());
    return r;
}
// counts what is taken and given back
struct Counting final : std::pmr::memory_resource {
    std::map<void*,std::size_t> live;
    u64 total = 0;
    void *do_allocate(std::size_t n,std::size_t a) override { void *p = std::pmr::new_delete_resource()->allocate(n,a); live[p] = n; ++total; return p; }
    void do_deallocate(void *p,std::size_t n,std::size_t a) override {
        if(!live.count(p) || live[p] != n) { std::fputs("FAILURE: api: a block was given back that was not taken from this memory resource, or with another size\n",stderr); std::_Exit(1); }
        live.erase(p);
        std::pmr::new_delete_resource()->deallocate(p,n,a);
    }
    bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
template<typename C> static auto all_loops(const Case &c) {
    std::vector<std::vector<po::point_t<C>>> v;
    for(auto &l : c.loops) v.push_back(subj::conv<C>(l.pts));
    return v;
}
static void offapi_check(const Case &c,Ctx &ctx) {
    using C = std::int32_t;
    if(!in_domain(c,1 << 28) || std::abs(c.get("mag")) > (1 << 27)) throw Discard{};
    double m = static_cast<double>(c.get("mag"))+static_cast<double>(c.get("frac"))/16;
    C step = static_cast<C>(c.get("step"));
    bool closed = c.get("closed");
    auto in = all_loops<C>(c);
    auto U = po::bool_op::union_;
    Out ref;
    {
        po::clipper<C> cl;
        for(auto &l : in) po::add_offset(cl,l,po::bool_set::subject,m,step,closed);
        ref = grab(cl.execute<false>(U));
    }
    auto same = [&](const char *what,const Out &o) {
        ctx.bump(what);
        if(o == ref) return;
        std::vector<Loop> a,b;
        for(auto &x : o) a.push_back({0,0,x});
        for(auto &x : ref) b.push_back({0,0,x});
        fail("api: ",what," gives ",show(a)," instead of ",show(b)," (magnitude ",m,", step ",step,closed ? ", closed)" : ", open)");
    };
    auto tree = [&](const char *what,auto &&r) { // the same lines
        Out o;
        auto rec = [&](auto &rec,auto &&l) -> void { o.push_back(subj::back(l)); for(auto k : l.inner_loops()) rec(rec,k); };
        for(auto l : r) rec(rec,l);
        ctx.bump(what);
        if(edges_of(o) != edges_of(ref)) fail("api: ",what," has other lines than the flat output");
    };
    same("offset",grab(po::offset<false,C>(in,m,step,closed)));
    tree("offset, tree",po::offset<true,C>(in,m,step,closed));
    if(closed) {
        same("offset, default",grab(po::offset<false,C>(in,m,step)));
        same("offset with tracker, default",grab_tracked(po::offset<false,C>(in,m,step,po::origin_point_tracker<>{})));
        po::clipper<C> a; po::add_offset(a,in,po::bool_set::subject,m,step); same("add_offset, default",grab(a.execute<false>(U)));
        po::clipper<C> b; po::add_offset_subject(b,in,m,step); same("add_offset_subject, default",grab(b.execute<false>(U)));
        po::clipper<C> d; po::add_offset_clip(d,in,m,step); same("add_offset_clip, default",grab(d.execute<false>(U)));
        po::origin_tracked_clipper<C> e; po::add_offset(e,in,po::bool_set::subject,m,step); same("tracked add_offset, default",grab_tracked(e.execute<false>(U)));
        po::origin_tracked_clipper<C> f; po::add_offset_subject(f,in,m,step); same("tracked add_offset_subject, default",grab_tracked(f.execute<false>(U)));
        po::origin_tracked_clipper<C> g; po::add_offset_clip(g,in,m,step); same("tracked add_offset_clip, default",grab_tracked(g.execute<false>(U)));
    }
    {
        po::clipper<C> b; for(auto &l : in) po::add_offset_subject(b,l,m,step,closed); same("add_offset_subject",grab(b.execute<false>(U)));
        po::clipper<C> d; po::add_offset_clip(d,in,m,step,closed); same("add_offset_clip",grab(std::move(d).execute<false>(U)));
        po::origin_tracked_clipper<C> f; po::add_offset_subject(f,in,m,step,closed); same("tracked add_offset_subject",grab_tracked(f.execute<false>(U)));
        po::origin_tracked_clipper<C> g; for(auto &l : in) po::add_offset_clip(g,l,m,step,closed); same("tracked add_offset_clip",grab_tracked(g.execute<false>(U)));
        po::origin_point_tracker<> t;
        po::clipper<C> h; po::add_offset(h,in,po::bool_set::subject,m,step,closed,t.callbacks()); same("add_offset with tracker",grab_tracked(h.execute<false>(U,t)));
        // with the other set empty
        po::clipper<C> i; po::add_offset_subject(i,in,m,step,closed); same("difference with nothing",grab(i.execute<false>(po::bool_op::difference)));
        po::clipper<C> j; po::add_offset_clip(j,in,m,step,closed);
        if(!grab(j.execute<false>(po::bool_op::difference)).empty()) fail("api: the difference of nothing and clip shapes is not empty");
        po::clipper<C> k; po::add_offset_subject(k,in,m,step,closed);
        if(!grab(k.execute<false>(po::bool_op::intersection)).empty()) fail("api: the intersection with nothing is not empty");
    }
    same("Index=uint32",grab(po::offset<false,C,std::uint32_t>(in,m,step,closed)));
    same("Index=int with tracker",grab_tracked(po::offset<false,C,int>(in,m,step,po::origin_point_tracker<int>{},closed)));
    { // 64-bit coordinates; products of these are exact in a double
        if(in_domain(c,1 << 22) && std::abs(m) < (1 << 22)) same("int64 coordinates",grab(po::offset<false,i64>(all_loops<i64>(c),m,step,closed)));
        if(in_domain(c,4000) && std::abs(m) < 4000 && step < 4000) same("int16 coordinates",grab(po::offset<false,std::int16_t>(all_loops<std::int16_t>(c),m,static_cast<std::int16_t>(step),closed)));
    }
    { // kinds of ranges
        std::list<std::list<po::point_t<C>>> li;
        std::vector<std::forward_list<po::point_t<C>>> fw;
        std::forward_list<std::vector<YX>> my;
        auto last = my.before_begin();
        for(auto &l : in) {
            li.emplace_back(l.begin(),l.end());
            fw.emplace_back(l.begin(),l.end());
            last = my.emplace_after(last);
            for(auto &p : l) last->push_back({0,p[1],p[0]});
        }
        same("std::list",grab(po::offset<false,C>(li,m,step,closed)));
        same("std::forward_list",grab(po::offset<false,C>(fw,m,step,closed)));
        same("another type of point",grab(po::offset<false,C>(my,m,step,closed)));
        same("temporary loops",grab(po::offset<false,C>(std::vector(in),m,step,closed)));
        const auto &ci = in;
        same("const loops",grab(po::offset<false,C>(ci,m,step,closed)));
        same("loops without a common end",grab(po::offset<false,C>(in | std::views::transform([](auto &l) { return std::ranges::subrange(std::counted_iterator(l.begin(),static_cast<std::ptrdiff_t>(l.size())),std::default_sentinel); }),m,step,closed)));
        same("list without a common end",grab(po::offset<false,C>(fw | std::views::transform([](auto &l) { return std::ranges::subrange(std::counted_iterator(l.begin(),std::distance(l.begin(),l.end())),std::default_sentinel); }),m,step,closed)));
        same("calculated points",grab(po::offset<false,C>(in | std::views::transform([](auto &l) { return l | std::views::transform([](auto &p) { return po::point_t<C>(p[0],p[1]); }); }),m,step,closed)));
        same("reversed twice",grab(po::offset<false,C>(in | std::views::transform([](auto &l) { return l | std::views::reverse | std::views::reverse; }),m,step,closed)));
        same("filtered points",grab(po::offset<false,C>(in | std::views::transform([](auto &l) { return l | std::views::filter([](auto &) { return true; }); }),m,step,closed)));
        if(in.size() == 1) {
            same("a single loop",grab(po::offset<false,C>(in[0],m,step,closed)));
            same("a single std::forward_list",grab(po::offset<false,C>(fw[0],m,step,closed)));
            tree("a single loop, tree",po::offset<true,C>(in[0],m,step,closed));
        }
    }
    { // memory resources
        Counting mem;
        same("memory resource",grab(po::offset<false,C>(in,m,step,closed,&mem)));
        same("memory resource and tracker",grab_tracked(po::offset<false,C>(in,m,step,po::origin_point_tracker<>{&mem},closed,&mem)));
        tree("memory resource, tree",po::offset<true,C>(in,m,step,closed,&mem));
        REQUIRE_PROP(mem.live.empty(),"api: ",mem.live.size()," of ",mem.total," blocks were not given back to the memory resource");
    }
    ctx.nontrivial(!ref.empty() && in.size() > 0);
}
static Case gen_offapi(Rng &r) {
    Case c = r.chance(1,2) ? gen_open(r) : gen_closed(r,r.chance(1,2));
    c.p.erase("api"); c.p.erase("wide");
    c.p["closed"] = r.chance(1,2);
    c.p["frac"] = r.chance(1,2) ? 0 : r.in(-15,15);
    if(r.chance(1,8)) c.p["mag"] = r.in(-2,2);
    if(r.chance(1,6)) c.loops.insert(c.loops.begin()+r.in(0,static_cast<i64>(c.loops.size())),Loop{}); // an empty loop
    if(r.chance(1,2) && c.loops.size() > 1) c.loops.resize(1);
    return c;
}

Register r6("offapi",gen_offapi,offapi_check);
Register r1("outset",[](Rng &r) { return gen_closed(r,false); },closed_check);
Register r2("inset",[](Rng &r) { return gen_closed(r,true); },closed_check);
Register r3("open",gen_open,open_check);
Register r4("combine",gen_combine,combine_check);
Register r5("origin",gen_origin,origin_check);
int main(int argc,char **argv) { return pbt_main(argc,argv); }
