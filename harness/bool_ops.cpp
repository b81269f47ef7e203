// Boolean operations: covered region, absence of crossings, shape of the output.
#include "bool_common.hpp"
#include <memory>
using namespace bc;

static int get_op(const Case &c) {
    i64 op = c.get("op");
    if(op < 0 || op > 4) throw Discard{};
    return static_cast<int>(op);
}
static std::vector<Loop> output(const Case &c,int op) {
    std::vector<Loop> out;
    switch(c.get("tree") + 2*c.get("wide")) {
    case 1: subj::flatten(subj::run_tree<std::int32_t>(c.loops,op),out); break;
    case 2: out = subj::run<std::int64_t>(c.loops,op); break;
    case 3: subj::flatten(subj::run_tree<std::int64_t>(c.loops,op),out); break;
    case 4: out = subj::run<std::int16_t>(c.loops,op); break;
    case 5: subj::flatten(subj::run_tree<std::int16_t>(c.loops,op),out); break;
    default: out = subj::run<std::int32_t>(c.loops,op);
    }
    return out;
}
// positions are multiples of 1/K; K times a coordinate must fit the oracle
static int fine(const std::vector<Loop> &in,int K) {
    for(auto &l : in) for(auto &p : l.pts) if(std::abs(p.x) > (i64(1) << 40) || std::abs(p.y) > (i64(1) << 40)) return 1;
    return K;
}
// ---- exact inputs: the covered region is exact
static void exact_check(const Case &c,Ctx &ctx) {
    int op = get_op(c);
    if(!fits_type(c.loops,c.get("wide")) || gen::intersection_lcm(c.loops,1) != 1) throw Discard{};
    auto out = output(c,op);
    const int K = fine(c.loops,32);
    u64 inside = 0, outside = 0;
    for(auto &q : samples(c.loops,out,K,220,true)) {
        auto wi = winding(c.loops,q,K);
        if(wi.on_edge) continue;
        auto wo = winding(out,q,K);
        REQUIRE_PROP(!wo.on_edge,op_name(op)," edge: the output has an edge through ",at(q,K),", where no input edge passes; output ",show(out));
        bool want = in_region(op,wi.w[0],wi.w[1]);
        REQUIRE_PROP(wo.w[0] == (want ? 1 : 0),op_name(op)," region: at ",at(q,K)," the output has winding number ",wo.w[0]," but the point ",want ? "belongs" : "does not belong"," to the result; output ",show(out));
        ++(want ? inside : outside);
    }
    ctx.nontrivial(inside && outside);
    ctx.bump(op_name(op));
    ctx.bump("points-inside",inside);
    ctx.bump("points-outside",outside);
}
static void region_check(const Case &c,int op,const std::vector<Loop> &out,long double tol,int K,std::size_t n,Ctx &ctx) {
    u64 inside = 0, outside = 0;
    for(auto &q : samples(c.loops,out,K,n,tol <= 2)) {
        long double d = edge_dist(c.loops,q,K);
        if(d <= tol) continue;
        auto wi = winding(c.loops,q,K);
        auto wo = winding(out,q,K);
        bool want = in_region(op,wi.w[0],wi.w[1]);
        REQUIRE_PROP(!wo.on_edge && wo.w[0] == (want ? 1 : 0),op_name(op)," region: at ",at(q,K),", ",static_cast<double>(d)," away from every input edge, the output has winding number ",wo.w[0]," but the point ",want ? "belongs" : "does not belong"," to the result; output ",show(out));
        ++(want ? inside : outside);
    }
    ctx.nontrivial(inside && outside);
    ctx.bump(op_name(op));
    ctx.bump("points-inside",inside);
    ctx.bump("points-outside",outside);
}
// Edges are bent by rounding and bent edges can meet other edges, which bends
// them further; 8.5 was the largest displacement seen in 10^6 inputs of this kind.
// Beyond the precision of the real type, that adds to this.
static long double drift(const std::vector<Loop> &in) {
    Box b = bounds(in);
    long double ext = b.x1 > b.x2 ? 0 : static_cast<long double>(std::max(b.x2-b.x1,b.y2-b.y1));
    return (12 + static_cast<long double>(segments(in).size())/4)*std::max(1.0L,std::ldexp(ext,2-real_bits));
}

// ---- any input: exact away from the edges
static void near_check(const Case &c,Ctx &ctx) {
    int op = get_op(c);
    if(!fits_type(c.loops,c.get("wide"))) throw Discard{};
    region_check(c,op,output(c,op),drift(c.loops),fine(c.loops,4),160,ctx);
    if(c.get("wide")) ctx.bump(c.get("wide") == 1 ? "64-bit" : "16-bit");
}
// ---- well separated input: within one unit of the edges, and every vertex of
// the output is an input vertex or the position of a crossing rounded up or down
struct Crossing { long double x,y,sine; std::size_t e1,e2; };
static bool separated(const std::vector<Loop> &in,std::vector<Crossing> &cr) {
    auto s = segments(in);
    std::vector<Crossing> ev;
    const long double gap = 100;
    for(auto &a : s) {
        ev.push_back({static_cast<long double>(a.a.x),static_cast<long double>(a.a.y),1,0,0});
        if(seg_dist(a.a.x,a.a.y,a.b,a.b) < gap) return false;
        for(auto &b : s) {
            if(&a == &b) continue;
            for(auto &p : {a.a,a.b}) if(p != b.a && p != b.b && seg_dist(p.x,p.y,b.a,b.b) < gap) return false;
        }
    }
    std::set<P> seen;
    for(auto &l : in) for(auto &p : l.pts) if(!seen.insert(p).second) return false;
    for(std::size_t i=0; i<s.size(); ++i) for(std::size_t j=i+1; j<s.size(); ++j) {
        if(classify(s[i],s[j]) != CROSS) continue;
        i128 dx1=s[i].b.x-s[i].a.x, dy1=s[i].b.y-s[i].a.y, dx2=s[j].b.x-s[j].a.x, dy2=s[j].b.y-s[j].a.y;
        i128 d = dx1*dy2-dy1*dx2, n = i128(s[j].a.x-s[i].a.x)*dy2-i128(s[j].a.y-s[i].a.y)*dx2;
        long double t = static_cast<long double>(n)/static_cast<long double>(d);
        // the crossing angle must not be shallow
        long double l1 = std::sqrt(static_cast<long double>(dx1*dx1+dy1*dy1)), l2 = std::sqrt(static_cast<long double>(dx2*dx2+dy2*dy2));
        long double sine = std::fabs(static_cast<long double>(d))/(l1*l2);
        if(sine < 0.25L) return false;
        Crossing x{s[i].a.x+t*static_cast<long double>(dx1),s[i].a.y+t*static_cast<long double>(dy1),sine,i,j};
        cr.push_back(x);
        ev.push_back(x);
    }
    for(std::size_t i=0; i<ev.size(); ++i) for(std::size_t j=i+1; j<ev.size(); ++j)
        if(std::hypot(ev[i].x-ev[j].x,ev[i].y-ev[j].y) < gap) return false;
    return true;
}
static void generic_check(const Case &c,Ctx &ctx) {
    int op = get_op(c);
    std::vector<Crossing> cr;
    if(!fits_type(c.loops,c.get("wide")) || !separated(c.loops,cr)) throw Discard{};
    auto out = output(c,op);
    // An edge that is crossed twice has been bent at its first crossing by the
    // time its second one is computed, which moves the latter a little more.
    std::map<std::size_t,int> per_edge;
    for(auto &x : cr) { ++per_edge[x.e1]; ++per_edge[x.e2]; }
    std::set<P> verts;
    long double worst = 1.5L;
    for(auto &x : cr) if(per_edge[x.e1] > 1 || per_edge[x.e2] > 1) worst = std::max(worst,16+static_cast<long double>(per_edge.size()));
    for(auto &l : c.loops) for(auto &p : l.pts) verts.insert(p);
    for(auto &l : out) for(auto &p : l.pts) {
        if(verts.count(p)) continue;
        bool ok = false;
        for(auto &x : cr) {
            bool alone = per_edge[x.e1] == 1 && per_edge[x.e2] == 1;
            long double tol = alone ? 1.0000001L : 16+static_cast<long double>(per_edge.size());
            if(std::fabs(x.x-static_cast<long double>(p.x)) <= tol && std::fabs(x.y-static_cast<long double>(p.y)) <= tol) {
                ok = true;
                if(alone) ctx.bump("lone-crossing-vertices");
            }
        }
        REQUIRE_PROP(ok,op_name(op)," vertex: ",p.x,",",p.y," is neither an input vertex nor the position of a crossing rounded up or down; output ",show(out));
    }
    region_check(c,op,out,worst,fine(c.loops,16),200,ctx);
    ctx.bump("crossings",cr.size());
    ctx.nontriv = ctx.nontriv && cr.size() > 0;
}
static Case gen_generic(Rng &r) {
    Case c;
    int op = pick_op(r);
    c.p["op"] = op;
    i64 lim = r.pick({6000,10000,30000,1000000,500000000});
    std::vector<Crossing> cr;
    for(int tries=0; tries<12; ++tries) {
        cr.clear();
        c.loops.clear();
        int n = static_cast<int>(r.in(1,4));
        for(int i=0; i<n; ++i) {
            Loop l;
            switch(r.in(0,3)) {
            case 0: l.pts = gen::random_poly(r,static_cast<int>(r.in(3,7)),0,lim); break;
            case 1: l.pts = gen::blob(r,r.in(lim/4,lim*3/4),r.in(lim/4,lim*3/4),r.in(lim/6,lim/4),static_cast<int>(r.in(3,9))); break;
            case 2: l.pts = gen::star_poly(r,lim/2,lim/2,r.in(lim/5,lim/2),static_cast<int>(r.in(2,4))*2+1,2); break;
            default: l.pts = gen::rect(r.in(0,lim),r.in(0,lim),r.in(0,lim),r.in(0,lim));
            }
            if(r.chance(1,3)) gen::reverse(l.pts);
            c.loops.push_back(l);
        }
        i64 dx = r.in(-lim,lim), dy = r.in(-lim,lim);
        gen::scale(c.loops,1,dx,dy);
        if(separated(c.loops,cr)) break;
    }
    gen::assign_sets(r,c.loops,op);
    return c;
}
// ---- no two output edges cross
static void cross_check(const Case &c,Ctx &ctx) {
    int op = get_op(c);
    if(!fits_type(c.loops,c.get("wide"))) throw Discard{};
    auto out = output(c,op);
    auto segs = segments(out);
    std::sort(segs.begin(),segs.end(),[](const Seg &a,const Seg &b) { return std::min(a.a.x,a.b.x) < std::min(b.a.x,b.b.x); });
    for(std::size_t i=0; i<segs.size(); ++i) {
        i64 mx = std::max(segs[i].a.x,segs[i].b.x);
        for(std::size_t j=i+1; j<segs.size() && std::min(segs[j].a.x,segs[j].b.x) <= mx; ++j) {
            auto t = classify(segs[i],segs[j]);
            if(t == SAME) ctx.bump("coinciding-edges");
            if(t >= TJUNC) fail(op_name(op)," crossing: output edges ",show({segs[i].a,segs[i].b})," and ",show({segs[j].a,segs[j].b}),
                t == CROSS ? " cross" : (t == TJUNC ? " touch at a point that is not an end of both" : " overlap partially"),"; output ",show(out));
        }
    }
    auto in = segments(c.loops);
    u64 cr = 0;
    for(std::size_t i=0; i<in.size(); ++i) for(std::size_t j=i+1; j<in.size(); ++j) cr += classify(in[i],in[j]) == CROSS;
    ctx.nontrivial(cr && gen::intersection_lcm(c.loops,1) != 1);
    ctx.bump("input-crossings",cr);
    ctx.bump("output-edges",segs.size());
}
// ---- shape of the output
// the same with everything at another place of the stack
__attribute__((noinline)) static std::vector<Loop> elsewhere(const Case &c,int op) {
    volatile char pad[52345];
    pad[0] = pad[sizeof(pad)-1] = static_cast<char>(op);
    auto r = output(c,op);
    pad[1] = pad[0];
    return r;
}
static void shape_check(const Case &c,Ctx &ctx) {
    int op = get_op(c);
    if(!fits_type(c.loops,c.get("wide"))) throw Discard{};
    auto out = output(c,op);
    auto in = segments(c.loops);
    std::set<P> verts;
    for(auto &l : c.loops) for(auto &p : l.pts) verts.insert(p);
    Box b = bounds(c.loops);
    // for inputs whose crossings are integers nothing is ever displaced
    bool exact = gen::intersection_lcm(c.loops,1) == 1;
    long double tol = exact ? 0 : drift(c.loops);
    for(auto &l : out) {
        REQUIRE_PROP(l.pts.size() >= 2,op_name(op)," shape: a loop with ",l.pts.size()," points; output ",show(out));
        for(std::size_t i=0; i<l.pts.size(); ++i) {
            P p = l.pts[i], q = l.pts[(i+1)%l.pts.size()];
            REQUIRE_PROP(p != q,op_name(op)," shape: consecutive equal points; output ",show(out));
            REQUIRE_PROP(p.x >= b.x1 && p.x <= b.x2 && p.y >= b.y1 && p.y <= b.y2,op_name(op)," shape: the point ",p.x,",",p.y," is outside the bounding box of the input; output ",show(out));
            int near = 0;
            bool along = false;
            auto dist = [&](const P &v,const Seg &s) -> long double {
                if(exact) return v == s.a || v == s.b || strictly_inside(v,s) ? 0 : 1;
                return seg_dist(static_cast<long double>(v.x),static_cast<long double>(v.y),s.a,s.b);
            };
            for(auto &s : in) {
                if(dist(p,s) <= tol) {
                    ++near;
                    if(dist(q,s) <= tol) along = true;
                }
            }
            REQUIRE_PROP(verts.count(p) || near >= 2,op_name(op)," shape: the output vertex ",p.x,",",p.y," is neither an input vertex nor near the crossing of two input edges; output ",show(out));
            REQUIRE_PROP(along,op_name(op)," shape: the output edge ",show({p,q})," does not run along an input edge; output ",show(out));
        }
    }
    { // wherever the memory is
        std::vector<std::unique_ptr<char[]>> holes;
        for(std::size_t n=16; n<40000; n*=2) holes.emplace_back(new char[n+(hash_str(show(out)) & 63)]);
        auto again = elsewhere(c,op);
        bool same = again.size() == out.size();
        for(std::size_t i=0; same && i<out.size(); ++i) same = again[i].pts == out[i].pts;
        REQUIRE_PROP(same,op_name(op)," shape: the same input gives another output the second time: ",show(again)," after ",show(out));
    }
    if(joins_check(out,op,"shape")) ctx.bump("loops-meet-at-a-point");
    // nowhere is the winding number anything but 0 or 1
    const int K = fine(c.loops,64);
    for(auto &q : samples(c.loops,out,K,120,true)) {
        auto wo = winding(out,q,K);
        if(wo.on_edge) continue;
        REQUIRE_PROP(wo.w[0] == 0 || wo.w[0] == 1,op_name(op)," shape: winding number ",wo.w[0]," at ",at(q,K),"; output ",show(out));
    }
    ctx.nontrivial(out.size() >= 2);
    if(exact) ctx.bump("exact");
    ctx.bump("output-loops",out.size());
}
// any coordinate type in which the figure fits, anywhere in its range
static Case flags(Rng &r,Case c) {
    c.p["tree"] = r.chance(1,8);
    i64 t = r.chance(1,2) ? 0 : r.in(0,2);
    if(real_bits > 53) t = 1;
    if(!fits_type(c.loops,t)) t = fits_type(c.loops,0) ? 0 : 1;
    c.p["wide"] = t;
    if(r.chance(1,8)) place(r,c.loops,t);
    return c;
}
static i64 any_limit(Rng &r) {
    if(r.chance(1,real_bits > 53 ? 2 : 6)) return i64(1) << r.in(40,std::min(real_bits+3,61));
    return r.pick({400,3000,30000,100000,10000000,500000000,2000000000});
}

Register r1("exact",[](Rng &r) { return flags(r,r.chance(1,100) ? gen_layers(r) : gen_exact(r)); },exact_check);
Register r9("layers",[](Rng &r) { return flags(r,gen_layers(r)); },exact_check);
Register r2("near",[](Rng &r) { return flags(r,gen_any(r,any_limit(r))); },near_check);
Register r5("generic",[](Rng &r) { return flags(r,gen_generic(r)); },generic_check);
Register r3("cross",[](Rng &r) { return flags(r,r.chance(1,6) ? gen_exact(r) : r.chance(1,4) ? gen_any(r,any_limit(r)) : r.chance(1,4) ? gen_meet(r) : gen_any(r)); },cross_check);
Register r4("shape",[](Rng &r) { return flags(r,r.chance(1,3) ? gen_exact(r) : r.chance(1,2) ? gen_meet(r) : gen_any(r)); },shape_check);
int main(int argc,char **argv) { return pbt_main(argc,argv); }
