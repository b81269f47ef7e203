// Boolean operations: nesting of the output, equivalence of the ways to pass
// input and to get output, reuse of a clipper, tracking of original points.
#include "bool_common.hpp"
#include "poly_ops/polydraw.hpp"
namespace second_unit { std::size_t loops(); }
#include <list>
#include <forward_list>
#include <memory_resource>
#include <ranges>
using namespace bc;
namespace po = poly_ops;
using C32 = std::int32_t;

struct MyPoint { short pad; C32 y; C32 x; };
namespace poly_ops {
template<> struct point_ops<MyPoint> {
    static const C32 &get_x(const MyPoint &p) { return p.x; }
    static const C32 &get_y(const MyPoint &p) { return p.y; }
};
}

static int get_op(const Case &c) {
    i64 op = c.get("op");
    if(op < 0 || op > 4) throw Discard{};
    return static_cast<int>(op);
}
static bool fits(const std::vector<Loop> &v,i64 lim) {
    for(auto &l : v) for(auto &p : l.pts) if(std::abs(p.x) > lim || std::abs(p.y) > lim) return false;
    return true;
}
// rotate every loop to start at its smallest point (by the rotation that is
// smallest as a whole) and sort the loops
static std::vector<P> canon(const std::vector<P> &p) {
    std::vector<P> best = p, q = p;
    if(p.empty()) return p;
    P mn = *std::min_element(p.begin(),p.end());
    bool first = true;
    for(std::size_t i=0; i<p.size(); ++i) {
        if(p[i] != mn) continue;
        q.assign(p.begin()+static_cast<long>(i),p.end());
        q.insert(q.end(),p.begin(),p.begin()+static_cast<long>(i));
        if(first || q < best) best = q;
        first = false;
    }
    return best;
}
static std::vector<std::vector<P>> canon(const std::vector<Loop> &l) {
    std::vector<std::vector<P>> r;
    for(auto &q : l) r.push_back(canon(q.pts));
    std::sort(r.begin(),r.end());
    return r;
}

// ---------------------------------------------------------------- nesting
struct FlatNode { const std::vector<P> *pts; int parent; int depth; };
static void number(const std::vector<subj::Node> &t,int parent,int depth,std::vector<FlatNode> &out) {
    for(auto &n : t) {
        int me = static_cast<int>(out.size());
        out.push_back({&n.pts,parent,depth});
        number(n.kids,me,depth+1,out);
    }
}
static void tree_check(const Case &c,Ctx &ctx) {
    int op = get_op(c);
    if(!fits(c.loops,100000)) throw Discard{};
    auto tree = subj::run_tree<C32>(c.loops,op);
    auto flat = subj::run<C32>(c.loops,op);
    std::vector<Loop> ft;
    subj::flatten(tree,ft);
    // how lines are joined where more than two meet is not specified
    auto edges = [](const std::vector<Loop> &v) {
        std::vector<std::pair<P,P>> r;
        for(auto &s : segments(v)) r.push_back({s.a,s.b});
        std::sort(r.begin(),r.end());
        return r;
    };
    REQUIRE_PROP(edges(ft) == edges(flat),op_name(op)," tree: the hierarchy has other edges than the flat output; tree ",show(ft)," flat ",show(flat));
    std::set<P> verts;
    std::size_t nverts = 0;
    for(auto &l : flat) for(auto &p : l.pts) { verts.insert(p); ++nverts; }
    if(verts.size() == nverts) {
        ctx.bump("all-vertices-distinct");
        REQUIRE_PROP(canon(ft) == canon(flat),op_name(op)," tree: the hierarchy has other loops than the flat output; tree ",show(ft)," flat ",show(flat));
    }
    ctx.bump("loops",ft.size());
    if(joins_check(ft,op,"tree")) ctx.bump("loops-meet-at-a-point");
    // lines that coincide leave the nesting ambiguous
    auto segs = segments(ft);
    std::set<std::pair<P,P>> uniq;
    for(auto &s : segs) if(!uniq.insert({std::min(s.a,s.b),std::max(s.a,s.b)}).second) { ctx.bump("ambiguous"); return; }
    std::vector<FlatNode> nodes;
    number(tree,-1,0,nodes);
    // Distances between an edge's midpoint and edges not through it are at
    // least 1/(4*len), so a step of 2^-20 stays inside.
    const int K = 1 << 22;
    std::size_t n = nodes.size();
    std::vector<std::vector<char>> in(n,std::vector<char>(n,0));
    std::vector<int> depth(n,0);
    for(std::size_t b=0; b<n; ++b) {
        auto &p = *nodes[b].pts;
        i128 a2 = area2(p);
        if(a2 == 0) fail(op_name(op)," tree: a loop without area although no lines coincide; loop ",show(p));
        P u = p[0], v = p[1];
        long double dx = static_cast<long double>(v.x-u.x), dy = static_cast<long double>(v.y-u.y), len = std::hypot(dx,dy);
        // interior is on the side given by the sign of the area
        long double nx = -dy/len*4, ny = dx/len*4;
        if(a2 < 0) { nx = -nx; ny = -ny; }
        Q q{i128(u.x+v.x)*K/2+std::llround(nx),i128(u.y+v.y)*K/2+std::llround(ny)};
        for(std::size_t a=0; a<n; ++a) {
            std::vector<Loop> one{{0,0,*nodes[a].pts}};
            auto w = winding(one,q,K);
            if(w.on_edge) throw Discard{};
            if(a == b) REQUIRE_PROP(w.w[0] == (a2 > 0 ? 1 : -1),op_name(op)," tree: a loop winds ",w.w[0]," times around the inner side of its own edge; loop ",show(p));
            else if(w.w[0] != 0) { in[a][b] = 1; ++depth[b]; }
        }
    }
    int deepest = 0;
    for(std::size_t b=0; b<n; ++b) {
        deepest = std::max(deepest,depth[b]);
        REQUIRE_PROP(depth[b] == nodes[b].depth,op_name(op)," tree: the loop ",show(*nodes[b].pts)," lies in ",depth[b]," other loops but is at depth ",nodes[b].depth);
        if(nodes[b].parent >= 0) REQUIRE_PROP(in[static_cast<std::size_t>(nodes[b].parent)][b],op_name(op)," tree: the loop ",show(*nodes[b].pts)," is listed in a loop that does not contain it: ",show(*nodes[static_cast<std::size_t>(nodes[b].parent)].pts));
        REQUIRE_PROP((area2(*nodes[b].pts) > 0) == (nodes[b].depth % 2 == 0),op_name(op)," tree: the loop ",show(*nodes[b].pts)," at depth ",nodes[b].depth," has the wrong direction");
    }
    ctx.nontrivial(deepest > 0);
    ctx.bump((deepest < 10 ? cat("depth-",deepest) : std::string("depth-10-or-more")));
}
// many nested and neighbouring loops
static void nest(Rng &r,std::vector<Loop> &out,i64 x1,i64 y1,i64 x2,i64 y2,int level) {
    if(x2-x1 < 6 || y2-y1 < 6 || level > 5) return;
    Loop l;
    i64 w = x2-x1, h = y2-y1;
    switch(r.in(0,3)) {
    case 0: l.pts = gen::rect(x1,y1,x2,y2); break;
    case 1: l.pts = {{(x1+x2)/2,y1},{x2,(y1+y2)/2},{(x1+x2)/2,y2},{x1,(y1+y2)/2}}; break;
    case 2: l.pts = {{x1+r.in(0,w/4),y1},{x2,y1+r.in(0,h/4)},{x2-r.in(0,w/4),y2},{x1,y2-r.in(0,h/4)}}; break;
    default: l.pts = {{x1,y1},{x1+w/2,y1+r.in(0,h/5)},{x2,y1},{x2-r.in(0,w/5),y1+h/2},{x2,y2},{x1+w/2,y2-r.in(0,h/5)},{x1,y2},{x1+r.in(0,w/5),y1+h/2}};
    }
    if(r.chance(1,2)) gen::reverse(l.pts);
    out.push_back(l);
    i64 mx = w/4, my = h/4;
    x1 += mx; x2 -= mx; y1 += my; y2 -= my;
    switch(r.in(0,3)) {
    case 0: return;
    case 1: nest(r,out,x1,y1,x2,y2,level+1); break;
    case 2: { i64 m = (x1+x2)/2+r.in(-1,1); nest(r,out,x1,y1,m-1,y2,level+1); nest(r,out,m+1,y1,x2,y2,level+1); } break;
    default: { i64 m = (y1+y2)/2; i64 n = (x1+x2)/2;
        nest(r,out,x1,y1,n-1,m-1,level+1); nest(r,out,n+1,y1,x2,m-1,level+1);
        nest(r,out,x1,m+1,n-1,y2,level+1); if(r.chance(1,2)) nest(r,out,n+1,m+1,x2,y2,level+1); }
    }
}
static Case gen_tree(Rng &r) {
    if(r.chance(1,3)) return gen_any(r,r.pick({10,40,100,1000}));
    if(r.chance(1,4)) return gen_meet(r);
    if(r.chance(1,40)) return gen_layers(r,false);
    if(r.chance(1,6)) { Case c = gen_exact(r); if(!fits(c.loops,100000)) return gen_any(r,200); return c; }
    Case c;
    int op = pick_op(r);
    c.p["op"] = op;
    i64 s = r.pick({60,200,1000,20000});
    nest(r,c.loops,0,0,s,s,0);
    if(r.chance(1,3)) nest(r,c.loops,s,0,2*s,s,1);
    if(r.chance(1,3)) nest(r,c.loops,s/2,s/2,2*s,s+s/2,1);
    if(r.chance(1,4)) gen::spice(r,c.loops);
    if(r.chance(1,2)) gen::assign_sets(r,c.loops,op);
    else if(op != NORMALIZE) for(auto &l : c.loops) l.set = (op == DIFFERENCE) && area2(l.pts) < 0;
    return c;
}

// ---------------------------------------------------------------- equivalent APIs
using Out = std::vector<std::vector<P>>;
template<typename R> static Out grab(R &&r) {
    Out o;
    for(auto &&l : r) o.push_back(subj::back(l));
    return o;
}
template<typename R> static Out grab_tree(R &&r);
template<typename L> static void grab_node(L &&l,Out &o) {
    o.push_back(subj::back(l));
    for(auto &&k : l.inner_loops()) grab_node(k,o);
}
template<typename R> static Out grab_tree(R &&r) {
    Out o;
    for(auto &&l : r) grab_node(l,o);
    return o;
}
template<typename Index> static Out by_index(const Case &c,int op,bool tree) {
    po::clipper<C32,Index> cl;
    subj::add(cl,c.loops);
    if(tree) return grab_tree(cl.template execute<true>(subj::op(op)));
    return grab(cl.template execute<false>(subj::op(op)));
}
struct NoRewind { // a forward-only, unsized range
    const std::vector<po::point_t<C32>> *v;
    auto begin() const { return v->begin(); }
    auto end() const { return v->end(); }
};
template<typename C> static Out by_coord(const Case &c,int op,bool tree) {
    po::clipper<C> cl;
    for(auto &l : c.loops) cl.add_loops(subj::conv<C>(l.pts),subj::bset(l.set));
    if(tree) return grab_tree(cl.template execute<true>(subj::op(op)));
    return grab(cl.template execute<false>(subj::op(op)));
}
// every way of moving an iterator gives the same loops
template<typename R> static void random_access(R &&r,Rng &g,const char *what) {
    const auto b = r.begin(), e = r.end();
    const std::ptrdiff_t n = e-b;
    REQUIRE_PROP(n >= 0 && static_cast<std::size_t>(n) == r.size() && r.empty() == (n == 0) && (b == e) == (n == 0),what,": size ",r.size(),", distance ",n);
    if(n == 0) return;
    Out o = grab(r);
    auto at = [&](auto &&it,std::ptrdiff_t i,const char *how) {
        REQUIRE_PROP(subj::back(*it) == o[static_cast<std::size_t>(i)],what,": iterator at ",i," reached by ",how);
        REQUIRE_PROP(it-b == i && e-it == n-i && (it < e) && (it <= e) && !(it > e) && (it == b) == (i == 0) && (it > b) == (i > 0),what,": order of iterators at ",i);
    };
    auto it = b;
    std::ptrdiff_t i = 0;
    for(int k=0; k<12; ++k) {
        std::ptrdiff_t j = g.in(0,n-1);
        switch(g.in(0,9)) {
        case 0: at(b+j,j,"+"); break;
        case 1: at(j+b,j,"+ from the left"); break;
        case 2: at(e-(n-j),j,"-"); break;
        case 3: it += j-i; i = j; at(it,i,"+="); break;
        case 4: it -= i-j; i = j; at(it,i,"-="); break;
        case 5: if(i+1 < n) { auto old = it++; at(old,i,"++ (old value)"); at(it,++i,"++"); } break;
        case 6: if(i > 0) { auto old = it--; at(old,i,"-- (old value)"); at(it,--i,"--"); } break;
        case 7: if(i+1 < n) { auto &x = ++it; ++i; at(x,i,"prefix ++"); } break;
        case 8: if(i > 0) { auto &x = --it; --i; at(x,i,"prefix --"); } break;
        default: REQUIRE_PROP(subj::back(it[j-i]) == o[static_cast<std::size_t>(j)],what,": subscript ",j-i," from ",i);
        }
    }
}
template<typename L> static void walk_loop(const L &l,const char *what) {
    auto e = subj::back(l);
    REQUIRE_PROP(static_cast<std::size_t>(l.size()) == e.size() && !l.empty() && l.end()-l.begin() == static_cast<std::ptrdiff_t>(e.size()),what,": size of a loop");
    std::size_t n = 0;
    std::set<std::size_t> ids;
    for(auto it=l.begin(); it != l.end();) {
        REQUIRE_PROP(l.end()-it == static_cast<std::ptrdiff_t>(e.size()-n),what,": distance to the end");
        ids.insert(static_cast<std::size_t>(it.index()));
        auto old = it++;
        auto p = *old;
        REQUIRE_PROP((P{p[0],p[1]}) == e[n],what,": point ",n," by post-increment");
        ++n;
    }
    REQUIRE_PROP(n == e.size() && ids.size() == n,what,": ",n," points by post-increment, ",ids.size()," different indices, instead of ",e.size());
    auto p = l.front();
    REQUIRE_PROP((P{p[0],p[1]}) == e[0],what,": front()");
}
template<typename R> static void walk_tree(R &&r,Rng &g,const char *what) {
    random_access(r,g,what);
    for(auto &&l : r) { walk_loop(l,what); auto in = l.inner_loops(); walk_tree(in,g,what); }
}
static void api_check(const Case &c,Ctx &ctx) {
    static const std::size_t other = second_unit::loops();
    REQUIRE_PROP(other == 10,"api: other source file gives ",other);
    int op = get_op(c);
    if(!fits(c.loops,1 << 30)) throw Discard{};
    po::bool_op bop = subj::op(op);
    // the reference way: one loop at a time, in the order given, all of the
    // subject before the clip
    std::vector<Loop> in;
    for(int s=0; s<2; ++s) for(auto &l : c.loops) if(l.set == s) in.push_back(l);
    Case cc = c;
    cc.loops = in;
    auto ref = by_index<std::size_t>(cc,op,false);
    auto reft = by_index<std::size_t>(cc,op,true);
    auto same = [&](const char *what,const Out &o,bool tree=false) {
        const Out &e = tree ? reft : ref;
        ctx.bump(what);
        if(o == e) return;
        std::vector<Loop> a,b;
        for(auto &x : o) a.push_back({0,0,x});
        for(auto &x : e) b.push_back({0,0,x});
        fail(op_name(op)," api: ",what," gives ",show(a)," instead of ",show(b));
    };
    std::vector<std::vector<po::point_t<C32>>> sl,cl_;
    for(auto &l : in) (l.set ? cl_ : sl).push_back(subj::conv<C32>(l.pts));

    same("same call again",by_index<std::size_t>(cc,op,false));
    same("Index=uint32",by_index<std::uint32_t>(cc,op,false));
    same("Index=uint16",by_index<std::uint16_t>(cc,op,false));
    same("Index=int",by_index<int>(cc,op,true),true);
    // other coordinate types: the same figure while products fit a double exactly
    if(fits(c.loops,1 << 24)) {
        same("int64 coordinates",by_coord<std::int64_t>(cc,op,false));
        same("int64 coordinates, tree",by_coord<std::int64_t>(cc,op,true),true);
    }
    if(fits(c.loops,16000)) same("int16 coordinates",by_coord<std::int16_t>(cc,op,false));
    {
        Rng g(hash_str(show(in)));
        po::clipper<C32> k;
        subj::add(k,in);
        auto f = k.execute<false>(bop);
        random_access(f,g,"flat output");
        random_access(std::as_const(f),g,"const flat output");
        for(auto &&l : f) walk_loop(l,"flat output");
        po::clipper<C32> k2;
        subj::add(k2,in);
        auto t = std::move(k2).execute<true>(bop);
        walk_tree(t,g,"tree output");
        walk_tree(std::as_const(t),g,"const tree output");
        ctx.bump("iterators");
    }
    { // ranges of ranges
        po::clipper<C32> k;
        k.add_loops_subject(sl);
        k.add_loops_clip(cl_);
        same("ranges of loops",grab(k.execute<false>(bop)));
    }
    { // linked lists
        std::list<std::list<po::point_t<C32>>> s2,c2;
        for(auto &l : in) {
            auto &t = (l.set ? c2 : s2).emplace_back();
            for(auto &p : l.pts) t.push_back({static_cast<C32>(p.x),static_cast<C32>(p.y)});
        }
        po::tclipper<C32,std::size_t,po::null_tracker<C32>> k;
        k.add_loops_subject(s2);
        k.add_loops_clip(c2);
        same("linked lists",grab(k.execute<false>(bop)));
    }
    { // user-defined points
        std::vector<std::vector<MyPoint>> s2,c2;
        for(auto &l : in) {
            auto &t = (l.set ? c2 : s2).emplace_back();
            for(auto &p : l.pts) t.push_back({77,static_cast<C32>(p.y),static_cast<C32>(p.x)});
        }
        same("user-defined points",grab(po::boolean_op<false,C32>(s2,c2,bop)));
        same("free function, tree",grab_tree(po::boolean_op<true,C32>(s2,c2,bop)),true);
    }
    { // lazy ranges
        auto f = [](const std::vector<po::point_t<C32>> &v) { return NoRewind{&v}; };
        po::clipper<C32> k;
        k.add_loops(sl | std::views::transform(f),po::bool_set::subject);
        k.add_loops(cl_ | std::views::transform(f),po::bool_set::clip);
        same("lazy ranges",grab(std::move(k).execute<false>(bop)));
    }
    { // point sinks
        po::clipper<C32> k;
        for(auto &l : in) {
            auto sink = k.add_loop(subj::bset(l.set));
            std::size_t i = 0;
            for(auto &p : l.pts) sink({static_cast<C32>(p.x),static_cast<C32>(p.y)},i++);
        }
        same("point sinks",grab(k.execute<false>(bop)));
    }
    { // with a tracker
        po::origin_point_tracker<> tr;
        po::clipper<C32> k;
        for(auto &l : in) k.add_loops(subj::conv<C32>(l.pts),subj::bset(l.set),&tr);
        Out o;
        for(auto l : k.execute<false>(bop,tr)) { o.emplace_back(); for(auto p : l) o.back().push_back({p.p[0],p.p[1]}); }
        same("tracked",o);
    }
    { // duplicate points and explicit closing points
        Rng r(hash_str(show(in)));
        po::clipper<C32> k;
        for(auto &l : in) {
            std::vector<po::point_t<C32>> t;
            for(auto &p : l.pts) for(i64 n=r.in(0,3)/2; n>=0; --n) t.push_back({static_cast<C32>(p.x),static_cast<C32>(p.y)});
            if(!t.empty()) for(i64 n=r.in(0,2); n>0; --n) t.push_back(t[0]);
            k.add_loops(t,subj::bset(l.set));
        }
        same("repeated points",grab(k.execute<false>(bop)));
    }
    { // memory resource
        std::pmr::unsynchronized_pool_resource pool;
        std::pmr::monotonic_buffer_resource mono;
        po::clipper<C32> k(&pool);
        subj::add(k,in);
        same("pool resource",grab(k.execute<false>(bop)));
        po::clipper<C32> k2(&mono);
        subj::add(k2,in);
        same("monotonic resource",grab_tree(std::move(k2).execute<true>(bop)),true);
    }
    { // memory resources and trackers with free functions
        std::pmr::unsynchronized_pool_resource pool;
        std::pmr::memory_resource *base = &pool;
        auto take = [](auto &&r) { Out o; for(auto l : r) { o.emplace_back(); for(auto p : l) o.back().push_back({p.p[0],p.p[1]}); } return o; };
        po::origin_point_tracker<> kept;
        same("free function, pool resource",grab(po::boolean_op<false,C32>(sl,cl_,bop,&pool)));
        same("free function, memory resource",grab(po::boolean_op<false,C32>(sl,cl_,bop,base)));
        same("free function, tree, pool resource",grab_tree(po::boolean_op<true,C32>(sl,cl_,bop,&pool)),true);
        same("free function, tracker",take(po::boolean_op<false,C32>(sl,cl_,bop,po::origin_point_tracker<>(&pool),&pool)));
        same("free function, tracker that is kept",take(po::boolean_op<false,C32>(sl,cl_,bop,kept)));
        if(cl_.empty()) {
            po::origin_point_tracker<> k2;
            if(op == UNION) {
                same("union_op, pool resource",grab(po::union_op<false,C32>(sl,&pool)));
                same("union_op, tree, memory resource",grab_tree(po::union_op<true,C32>(sl,base)),true);
                same("union_op, tracker",take(po::union_op<false,C32>(sl,po::origin_point_tracker<>())));
                same("union_op, tracker that is kept",take(po::union_op<false,C32>(sl,k2,&pool)));
                same("union_op, 32 bit index",grab(po::union_op<false,C32,std::int32_t>(sl,&pool)));
            }
            if(op == NORMALIZE) {
                same("normalize_op, pool resource",grab(po::normalize_op<false,C32>(sl,&pool)));
                same("normalize_op, tree, memory resource",grab_tree(po::normalize_op<true,C32>(sl,base)),true);
                same("normalize_op, tracker",take(po::normalize_op<false,C32>(sl,po::origin_point_tracker<>())));
                same("normalize_op, tracker that is kept",take(po::normalize_op<false,C32>(sl,k2,&pool)));
            }
            if(sl.size() == 1) {
                if(op == UNION) same("union_op, one loop",grab(po::union_op<false,C32>(sl[0])));
                if(op == NORMALIZE) same("normalize_op, one loop",grab(po::normalize_op<false,C32>(sl[0])));
            }
        }
        if(sl.size() == 1 && cl_.size() == 1) same("boolean_op, one loop each",grab(po::boolean_op<false,C32>(sl[0],cl_[0],bop)));
    }
    if(cl_.empty()) {
        if(op == UNION) same("union_op",grab(po::union_op<false,C32>(sl)));
        if(op == NORMALIZE) same("normalize_op",grab(po::normalize_op<false,C32>(sl)));
        if(op == UNION) same("union_op, tree",grab_tree(po::union_op<true,C32>(sl)),true);
    }
    { // the result can be traversed repeatedly and reports its sizes
        po::clipper<C32> k;
        subj::add(k,in);
        auto res = k.execute<false>(bop);
        Out a = grab(res), b = grab(res);
        REQUIRE_PROP(a == b,op_name(op)," api: a second traversal differs");
        REQUIRE_PROP(res.size() == a.size() && res.empty() == a.empty(),op_name(op)," api: size() ",res.size()," for ",a.size()," loops");
        std::size_t i = 0;
        for(auto l : res) {
            REQUIRE_PROP(static_cast<std::size_t>(l.size()) == a[i].size(),op_name(op)," api: a loop of ",a[i].size()," points says it has ",l.size());
            REQUIRE_PROP(subj::back(res[i]) == a[i],op_name(op)," api: subscript ",i," differs from traversal");
            ++i;
        }
    }
    ctx.nontrivial(ref.size() >= 2);
}

// ---------------------------------------------------------------- histories
// words: {1,i}: add loop i  {2,op,tree,move}: execute  {3}: reset  {4,i,n}: add
// the first n points of loop i by a sink   {5}: repeat execute without input
static void reuse_check(const Case &c,Ctx &ctx) {
    if(!fits(c.loops,1 << 30) || gen::intersection_lcm(c.loops,1) != 1) throw Discard{};
    auto cl = std::make_unique<po::clipper<C32>>();
    auto tk = std::make_unique<po::origin_tracked_clipper<C32>>();
    std::vector<Loop> cur;
    std::vector<bool> by_sink;
    bool ran = false;
    int execs = 0, reruns = 0;
    auto before_add = [&]() { if(ran) { cur.clear(); by_sink.clear(); ran = false; } };
    for(auto &w : c.words) {
        if(w.empty()) continue;
        std::size_t li = w.size() > 1 && !c.loops.empty() ? static_cast<std::size_t>(std::abs(w[1])) % c.loops.size() : 0;
        switch(w[0]) {
        case 1: case 4: {
            if(c.loops.empty()) break;
            Loop l = c.loops[li];
            before_add();
            auto pts = subj::conv<C32>(l.pts);
            if(w[0] == 1) {
                if(w.size() > 2 && (w[2] & 1)) { if(l.set) { cl->add_loops_clip(pts); tk->add_loops_clip(pts); } else { cl->add_loops_subject(pts); tk->add_loops_subject(pts); } }
                else { cl->add_loops(pts,subj::bset(l.set)); tk->add_loops(pts,subj::bset(l.set)); }
            } else {
                std::size_t n = w.size() > 2 ? static_cast<std::size_t>(std::abs(w[2])) % (pts.size()+1) : 0;
                l.pts.resize(n);
                // the closing edge of the shortened loop may have crossings that
                // need rounding with loops that come later
                auto all = c.loops;
                all.insert(all.end(),cur.begin(),cur.end());
                all.push_back(l);
                if(gen::intersection_lcm(all,1) != 1) break;
                auto s1 = cl->add_loop(subj::bset(l.set));
                auto s2 = tk->add_loop(subj::bset(l.set));
                for(std::size_t i=0; i<n; ++i) { s1(pts[i],static_cast<std::size_t>(i)); s2(pts[i],static_cast<std::size_t>(i)); }
            }
            cur.push_back(l);
            by_sink.push_back(w[0] == 4);
        } break;
        case 3: cl->reset(); tk->reset(); cur.clear(); by_sink.clear(); ran = false; break;
        case 2: case 5: {
            int op = w.size() > 1 ? static_cast<int>(std::abs(w[1]) % 5) : 0;
            bool tree = w.size() > 2 && (w[2] & 1), mv = w.size() > 3 && (w[3] & 1);
            if(ran) { cur.clear(); by_sink.clear(); ++reruns; }
            Out got,gott,want;
            if(tree) got = mv ? grab_tree(std::move(*cl).execute<true>(subj::op(op))) : grab_tree(cl->execute<true>(subj::op(op)));
            else got = mv ? grab(std::move(*cl).execute<false>(subj::op(op))) : grab(cl->execute<false>(subj::op(op)));
            using Origins = std::vector<std::vector<std::vector<std::size_t>>>;
            Origins gorg,worg;
            auto take = [&](auto &&l,Out &o,Origins &g) {
                o.emplace_back();
                g.emplace_back();
                for(auto p : l) { o.back().push_back({p.p[0],p.p[1]}); g.back().emplace_back(p.original_points.begin(),p.original_points.end()); }
            };
            for(auto l : tk->execute<false>(subj::op(op))) take(l,gott,gorg);
            ran = true;
            if(mv) { cl = std::make_unique<po::clipper<C32>>(); }
            po::clipper<C32> fresh;
            po::origin_tracked_clipper<C32> fresh2;
            subj::add(fresh,cur);
            for(std::size_t i=0; i<cur.size(); ++i) {
                auto pts = subj::conv<C32>(cur[i].pts);
                if(by_sink[i]) { auto s = fresh2.add_loop(subj::bset(cur[i].set)); for(std::size_t j=0; j<pts.size(); ++j) s(pts[j],j); }
                else fresh2.add_loops(pts,subj::bset(cur[i].set));
            }
            want = tree ? grab_tree(fresh.execute<true>(subj::op(op))) : grab(fresh.execute<false>(subj::op(op)));
            auto lp = [](const Out &o) { std::vector<Loop> r; for(auto &x : o) r.push_back({0,0,x}); return r; };
            REQUIRE_PROP(got == want,op_name(op)," reuse: after ",execs," earlier executions the result is ",show(lp(got))," where a fresh clipper gives ",show(lp(want)));
            want.clear();
            for(auto l : fresh2.execute<false>(subj::op(op))) take(l,want,worg);
            REQUIRE_PROP(gott == want,op_name(op)," reuse: tracked clipper: after ",execs," earlier executions the result is ",show(lp(gott))," where a fresh clipper gives ",show(lp(want)));
            if(gorg != worg) {
                auto text = [](const Origins &o) { std::string r; for(auto &l : o) { for(auto &p : l) { r += '('; for(auto i : p) r += ' '+std::to_string(i); r += " )"; } r += ' '; } return r; };
                REQUIRE_PROP(false,op_name(op)," reuse: tracked clipper: after ",execs," earlier executions the original points are ",text(gorg)," where a fresh clipper gives ",text(worg));
            }
            if(mv) { cur.clear(); by_sink.clear(); ran = false; tk->reset(); }
            if(!want.empty()) ++execs;
        } break;
        }
    }
    ctx.nontrivial(execs >= 2);
    ctx.bump("non-empty executions",static_cast<u64>(execs));
    ctx.bump("repeated executions",static_cast<u64>(reruns));
}
static Case gen_reuse(Rng &r) {
    Case c = gen_exact(r);
    while(c.loops.size() < 3 && r.chance(3,4)) { Case d = gen_exact(r); auto v = c.loops; v.insert(v.end(),d.loops.begin(),d.loops.end()); if(gen::intersection_lcm(v,1) == 1) c.loops = v; }
    for(auto &l : c.loops) l.set = static_cast<int>(r.in(0,1));
    c.p.clear();
    int n = static_cast<int>(r.in(3,18));
    for(int i=0; i<n; ++i) {
        switch(r.in(0,9)) {
        case 0: case 1: case 2: case 3: c.words.push_back({1,r.in(0,static_cast<i64>(c.loops.size())-1),r.in(0,1)}); break;
        case 4: case 5: case 6: c.words.push_back({2,r.in(0,4),r.in(0,1),r.in(0,4) == 0}); break;
        case 7: c.words.push_back({3}); break;
        default: c.words.push_back({4,r.in(0,static_cast<i64>(c.loops.size())-1),r.in(0,6)});
        }
    }
    c.words.push_back({2,r.in(0,4),r.in(0,1),0});
    return c;
}

// ---------------------------------------------------------------- tracking
// A model of what a tracker is told: the loops are lists that points are put
// into (new_point_between) and taken out of (point_merge).
struct Contract final : po::i_point_tracker<std::size_t> {
    std::size_t added = 0, loop_start = 0;
    bool between = false, hierarchy = false;
    std::map<std::size_t,std::size_t> merges;
    std::vector<std::size_t> next;  // the point that follows in its loop, as far as announced
    std::vector<std::size_t> line;  // the input point at which the input line begins that a point lies on
    std::vector<P> pos, far;        // of input points: the place, and the other end of the line that begins there
    mutable std::size_t values = 0;
    mutable std::string bad;
    void complain(const std::string &m) const { if(bad.empty()) bad = m; }
    std::vector<std::size_t> orig;
    std::size_t all = 0;
    void point_added(std::size_t o) override {
        if(between) complain("an input point was announced after the lines were split");
        orig.push_back(o);
        line.push_back(added);
        next.push_back(++added);
    }
    // one loop was added completely
    void loop_added(const std::vector<P> &pts) {
        std::size_t n = added-loop_start;
        std::vector<P> places,got;
        for(auto &p : pts) if(places.empty() || places.back() != p) places.push_back(p);
        while(places.size() > 1 && places.front() == places.back()) places.pop_back();
        for(std::size_t i=loop_start; i<added; ++i) {
            if(orig[i] < all || orig[i]-all >= pts.size() || (i > loop_start && orig[i] <= orig[i-1])) { complain(cat("the point ",i," was announced with the original index ",orig[i],", of a loop with the indices from ",all," to ",all+pts.size())); return; }
            got.push_back(pts[orig[i]-all]);
        }
        // loops without an area are ignored, in others only repeated points are
        if(places.size() < 3 ? n != 0 : got != places) {
            // the loop may begin at another one of several equal points
            std::rotate(places.begin(),places.begin()+(places.empty() ? 0 : 1),places.end());
            if(got != places) complain(cat("of the loop ",show(pts)," the points ",show(got)," were announced"));
        }
        if(n) next.back() = loop_start;
        for(std::size_t i=0; i<n; ++i) { pos.push_back(got[i]); far.push_back(got[(i+1)%n]); }
        loop_start = added;
        all += pts.size();
    }
    std::size_t live(std::size_t i) const {
        for(std::size_t n=0; n<=added && merges.count(i); ++n) i = next[i];
        return i;
    }
    void new_point_between(std::size_t a,std::size_t b) override {
        between = true;
        if(a >= added || b >= added) { complain(cat("a point between ",a," and ",b," of ",added," points was announced")); next.push_back(0); line.push_back(0); ++added; return; }
        if(live(next[a]) != b) complain(cat("a point between ",a," and ",b," was announced, but ",a," is followed by ",live(next[a])));
        if(merges.count(a) || merges.count(b)) complain(cat("a point between ",a," and ",b," was announced, which were discarded"));
        line.push_back(line[a]);
        next.push_back(b);
        next[a] = added++;
    }
    void point_merge(std::size_t a,std::size_t b) override {
        if(a >= added || b >= added) { complain(cat("a merge of ",a," into ",b," of ",added," points was announced")); return; }
        if(merges.count(a)) complain(cat("the point ",a," was discarded twice"));
        merges[a] = b;
        // the points that the hierarchy is looked up with may be passed over
        std::size_t f = next[a];
        for(std::size_t n=0; hierarchy && f != b && f >= pos.size() && n < added; ++n) f = next[f];
        if(f != b) complain(cat("the point ",a," was merged into ",b," but is followed by ",next[a]));
        if(merges.count(b)) { // only allowed when coming around the whole loop
            std::size_t k = b, n = 0;
            while(k != a && merges.count(k) && n++ <= merges.size()) k = merges[k];
            if(k != a) complain(cat("the point ",a," was merged into ",b,", which was already discarded"));
        }
    }
    void reset() override {}
    i_point_tracker<std::size_t> *callbacks() { return this; }
    template<typename C> po::point_t<C> get_value(std::size_t i,const po::point_t<C> &p) const {
        if(i >= added || merges.count(i)) { complain(cat("the output refers to the discarded or unknown point ",i)); return p; }
        ++values;
        P q{static_cast<i64>(p[0]),static_cast<i64>(p[1])};
        if(i < pos.size() ? q != pos[i] : line[i] >= pos.size() || (q != pos[line[i]] && q != far[line[i]] && !strictly_inside(q,Seg{pos[line[i]],far[line[i]]})))
            complain(cat("the output refers to the point ",i," for ",q.x,",",q.y,", which is not where the point ",i," was announced"));
        return p;
    }
};
static void track_check(const Case &c,Ctx &ctx) {
    int op = get_op(c);
    if(!fits(c.loops,1 << 30) || gen::intersection_lcm(c.loops,1) != 1) throw Discard{};
    po::origin_point_tracker<> tr;
    po::clipper<C32> k;
    std::vector<P> orig;
    std::vector<std::size_t> loop_of;
    for(std::size_t i=0; i<c.loops.size(); ++i) {
        auto &l = c.loops[i];
        k.add_loops(subj::conv<C32>(l.pts),subj::bset(l.set),&tr);
        for(auto &p : l.pts) { orig.push_back(p); loop_of.push_back(i); }
    }
    std::vector<int> seen(orig.size(),0);
    std::map<P,std::set<std::size_t>> at_pos;
    std::vector<Loop> out;
    u64 with = 0, moved = 0;
    auto take = [&](auto &&take,auto &&l) -> void {
        out.emplace_back();
        for(auto p : l) {
            P q{p.p[0],p.p[1]};
            out.back().pts.push_back(q);
            std::set<std::size_t> s;
            for(std::size_t i : p.original_points) {
                REQUIRE_PROP(i < orig.size(),op_name(op)," track: point ",q.x,",",q.y," has the original index ",i," of ",orig.size()," input points");
                REQUIRE_PROP(s.insert(i).second,op_name(op)," track: point ",q.x,",",q.y," lists the original index ",i," twice");
                ++seen[i];
                if(seen[i] > 1) fail(op_name(op)," track: the original index ",i," (",orig[i].x,",",orig[i].y,") is attributed to two output points");
                at_pos[q].insert(i);
                ++with;
                if(orig[i] != q) ++moved;
                // the point the index was moved to lies on the same input loop
                bool on = false;
                std::vector<Loop> one{c.loops[loop_of[i]]};
                for(auto &sg : segments(one)) on = on || q == sg.a || q == sg.b || strictly_inside(q,sg);
                on = on || q == orig[i];
                REQUIRE_PROP(on,op_name(op)," track: the original index ",i," (",orig[i].x,",",orig[i].y,") is attributed to ",q.x,",",q.y,", which is not on the input loop it belongs to");
            }
        }
        if constexpr(requires { l.inner_loops(); }) for(auto k2 : l.inner_loops()) take(take,k2);
    };
    if(c.get("tree")) for(auto l : k.execute<true>(subj::op(op),tr)) take(take,l);
    else for(auto l : k.execute<false>(subj::op(op),tr)) {
        auto flat = std::ranges::subrange(l.begin(),l.end());
        take(take,flat);
    }
    { // the hierarchy and the flat output agree on what belongs to which place
        po::origin_point_tracker<> tr2;
        po::clipper<C32> k2;
        for(auto &l : c.loops) k2.add_loops(subj::conv<C32>(l.pts),subj::bset(l.set),&tr2);
        std::map<P,std::set<std::size_t>> at2;
        auto take2 = [&](auto &&l) { for(auto p : l) at2[{p.p[0],p.p[1]}].insert(p.original_points.begin(),p.original_points.end()); };
        auto rec = [&](auto &&rec,auto &&l) -> void { take2(l); for(auto k3 : l.inner_loops()) rec(rec,k3); };
        if(c.get("tree")) for(auto l : k2.execute<false>(subj::op(op),tr2)) take2(l);
        else for(auto l : k2.execute<true>(subj::op(op),tr2)) rec(rec,l);
        std::erase_if(at2,[](auto &v) { return v.second.empty(); });
        // where edges coincide, which copy survives is not specified
        auto is = segments(c.loops);
        bool coincide = false;
        for(std::size_t i=0; i<is.size(); ++i) for(std::size_t j=i+1; j<is.size(); ++j) {
            auto t = classify(is[i],is[j]);
            coincide = coincide || t == SAME || t == PARTIAL_OVERLAP;
        }
        if(!coincide) ctx.bump("hierarchy-compared");
        if(!coincide) REQUIRE_PROP(at2 == at_pos,op_name(op)," track: the hierarchy and the flat output attribute original points differently");
    }
    ctx.bump("attributions",with);
    ctx.bump("moved attributions",moved);
    // where every input point has a place of its own, each is attributed to its
    // own place if that is part of the output
    auto segs = segments(c.loops);
    std::map<P,int> uses;
    for(auto &p : orig) ++uses[p];
    std::set<P> outp;
    for(auto &l : out) for(auto &p : l.pts) outp.insert(p);
    std::size_t own = 0;
    for(std::size_t i=0; i<orig.size(); ++i) {
        if(uses[orig[i]] != 1 || !outp.count(orig[i])) continue;
        bool touched = false;
        for(auto &s : segs) if(strictly_inside(orig[i],s)) touched = true;
        if(touched) continue;
        ++own;
        REQUIRE_PROP(at_pos[orig[i]].count(i),op_name(op)," track: the output has the input point ",orig[i].x,",",orig[i].y," but does not attribute its index ",i," to it");
    }
    ctx.bump("own places",own);
    // a loop is either removed altogether or every one of its points is
    // attributed to some place
    std::vector<std::array<u64,2>> per(c.loops.size());
    for(std::size_t i=0; i<orig.size(); ++i) ++per[loop_of[i]][seen[i] ? 1 : 0];
    for(std::size_t i=0; i<orig.size(); ++i) {
        std::set<P> places(c.loops[loop_of[i]].pts.begin(),c.loops[loop_of[i]].pts.end());
        if(places.size() < 2) continue;
        // consecutive equal points count as one
        if(!seen[i]) {
            std::size_t b = i; // first index of its loop
            while(b > 0 && loop_of[b-1] == loop_of[i]) --b;
            std::size_t n = c.loops[loop_of[i]].pts.size(), k = i-b;
            bool rep = false;
            for(std::size_t t=(k+1)%n; t != k && orig[b+t] == orig[i]; t=(t+1)%n) rep = rep || seen[b+t];
            for(std::size_t t=(k+n-1)%n; t != k && orig[b+t] == orig[i]; t=(t+n-1)%n) rep = rep || seen[b+t];
            if(rep) continue;
        }
        if(!seen[i] && per[loop_of[i]][1]) fail(op_name(op)," track: the index ",i," (",orig[i].x,",",orig[i].y,") is attributed to no output point although others of its loop are");
    }
    { // the callbacks keep to their description
        Contract ct;
        ct.hierarchy = c.get("tree");
        po::clipper<C32> k3;
        for(auto &l : c.loops) { k3.add_loops(subj::conv<C32>(l.pts),subj::bset(l.set),ct.callbacks()); ct.loop_added(l.pts); }
        REQUIRE_PROP(ct.bad.empty(),op_name(op)," track: ",ct.bad);
        auto walk = [&](auto &walk,auto &&l) -> void { for(auto p : l) (void)p; if constexpr(requires { l.inner_loops(); }) for(auto k4 : l.inner_loops()) walk(walk,k4); };
        if(c.get("tree")) for(auto l : k3.execute<true>(subj::op(op),ct)) walk(walk,l);
        else for(auto l : k3.execute<false>(subj::op(op),ct)) { for(auto p : l) (void)p; }
        REQUIRE_PROP(ct.bad.empty(),op_name(op)," track: ",ct.bad);
        ctx.bump("callback values",ct.values);
        ctx.bump("callback merges",ct.merges.size());
    }
    ctx.nontrivial(moved > 0 && own > 0);
}

Register r1("tree",gen_tree,tree_check);
Register r2("api",[](Rng &r) { return r.chance(1,3) ? gen_exact(r) : gen_any(r,r.pick({10,100,3000,100000})); },api_check);
Register r3("reuse",gen_reuse,reuse_check);
Register r4("track",[](Rng &r) { Case c = r.chance(1,150) ? gen_layers(r) : gen_exact(r); c.p["tree"] = r.chance(1,3); return c; },track_check);
int main(int argc,char **argv) { return pbt_main(argc,argv); }
